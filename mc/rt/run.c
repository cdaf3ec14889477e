/* Runtime of a batch of cases: calls each case, logs what it emits, survives crashes and hangs,
   and monitors the machine-level call discipline around each case and at each emit call. */
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

extern void (*mc_cases[])(void);
extern long mc_n;

#define MAXLOG 100000
static unsigned long hash; static long count; static unsigned long logv[MAXLOG]; static char logk[MAXLOG];
static int misaligned;
static sigjmp_buf env;

void mc_put(char kind, unsigned long v);

/* entry points called by the code under test; the assembly stubs in stubs.s check the stack alignment */
void mc_emit(long v) { mc_put('i', v); }
void mc_emitu(unsigned long v) { mc_put('u', v); }
void mc_emitf(float v) { unsigned u = 0; if (v != v) u = 0x7fc00000; else memcpy(&u, &v, 4); mc_put('f', u); }
void mc_emitd(double v) { unsigned long u = 0; if (v != v) u = 0x7ff8000000000000ul; else memcpy(&u, &v, 8); mc_put('d', u); }
void mc_emitld(long double v) {
    unsigned long u = 0, w = 0;
    if (v != v) { u = 1; w = 0x7fff; } else { memcpy(&u, &v, 8); memcpy(&w, (char *) &v + 8, 2); }
    mc_put('l', u); mc_put('L', w);
}
void mc_emits(char *s) { unsigned long h = 5381; while (*s) h = h * 33 + (unsigned char) *s++; mc_put('s', h); }
void mc_emitb(void *p, long n) { unsigned char *s = p; unsigned long h = 7; while (n--) h = h * 31 + *s++ + 1; mc_put('b', h); }
void mc_misaligned(void) { misaligned++; }

/* Stateless exploration: explore(fn, depth) runs fn once for every vector of choices it can make through pick(n)/choose(), depth first,
   cutting a path off when it asks for more than depth choices. Outside of explore, choices come from a fixed sequence. */
#define MAXDEPTH 64
static long path_start;
static int ch_val[MAXDEPTH], ch_n[MAXDEPTH], ch_pos, ch_len, ch_depth, exploring;
static sigjmp_buf cut;
static long paths, decisions, cuts;
void mc_put(char kind, unsigned long v) {
    if (count < MAXLOG) { logv[count] = v; logk[count] = kind; }
    count++;
    if (exploring && count - path_start > 3000) { path_start = count; cuts++; siglongjmp(cut, 2); }    /* runaway path */
    hash = (hash ^ v) * 0x9e3779b97f4a7c15ul; hash ^= hash >> 29; hash = (hash ^ kind) * 0xbf58476d1ce4e5b9ul; hash ^= hash >> 32;
}

int mc_pick(int n) {
    static const char fixed[] = "100101101110001011100100";
    if (!exploring) { int v = fixed[ch_pos++ % 24] == '1'; decisions++; return n == 2 ? v : (v * 7 + ch_pos * 5) % n; }
    decisions++;
    if (ch_pos >= ch_depth) { cuts++; siglongjmp(cut, 1); }
    if (ch_pos == ch_len) { ch_val[ch_len] = 0; ch_n[ch_len] = n; ch_len++; }
    return ch_val[ch_pos++];
}
int mc_choose(void) { return mc_pick(2); }
static unsigned long explore_disc;
extern unsigned long mc_saved_rsp;
extern void *mc_sp __attribute__((weak));
/* only when functions are instrumented (wrap.s) */
extern unsigned long mc_viol __attribute__((weak)); extern char *mc_vname __attribute__((weak)); extern void mc_wrap_reset(void) __attribute__((weak));
/* stepping: a signal after every instruction of the code under test, delivered on its own stack, where it overwrites whatever lies below the red zone */
extern int mc_step;
static long steps; static int low_rsp;
static void on_step(int sig, siginfo_t *si, void *ctx) {
    unsigned long rsp = ((ucontext_t *) ctx)->uc_mcontext.gregs[REG_RSP], i;
    volatile char below[256];
    for (i = 0; i < sizeof below; i++) below[i] = (char) 0xa5;
    steps++;
    if (rsp & 7) low_rsp = 1;
}
extern unsigned long mc_call_checked(void (*fn)(void));
void mc_explore(void (*fn)(void), long depth) {
    unsigned long saved = mc_saved_rsp;
    ch_len = 0; ch_depth = depth < MAXDEPTH ? depth : MAXDEPTH; exploring = 1;
    while (1) {
        ch_pos = 0; paths++; path_start = count;
        void *shadow = mc_wrap_reset ? *(void **) &mc_sp : 0;
        mc_put('P', 0);
        if (!sigsetjmp(cut, 0)) { explore_disc |= mc_call_checked(fn); mc_put('E', ch_pos); }
        else { unsigned mx = 0x1f80; __asm__ volatile("cld; fninit; ldmxcsr %0" : : "m"(mx)); mc_put('C', ch_pos); }
        mc_saved_rsp = saved;
        if (mc_wrap_reset) *(void **) &mc_sp = shadow;
        while (ch_len && ch_val[ch_len - 1] + 1 >= ch_n[ch_len - 1]) ch_len--;
        if (!ch_len) break;
        ch_val[ch_len - 1]++;
    }
    exploring = 0;
}

static void on_signal(int sig) { siglongjmp(env, sig); }

int main(int argc, char **argv) {
    long i, j, only = argc > 1 ? atol(argv[1]) : -1, full = argc > 2;
    static char stack[1 << 16];
    stack_t ss; struct sigaction sa; struct itimerval it, off;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM, SIGTRAP, SIGABRT};
    memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, 0);
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (i = 0; i < (long) (sizeof sigs / sizeof *sigs); i++) sigaction(sigs[i], &sa, 0);
    setvbuf(stdout, 0, _IOFBF, 1 << 20);
    memset(&it, 0, sizeof it); memset(&off, 0, sizeof off);
    it.it_value.tv_sec = 3;
    if (getenv("MC_STEP")) {
        mc_step = 1; it.it_value.tv_sec = 100;
        sa.sa_sigaction = on_step; sa.sa_flags = SA_SIGINFO;
        sigaction(SIGTRAP, &sa, 0);
    }
    for (i = 0; i < mc_n; i++) {
        int r; unsigned long disc = 0;
        if (only >= 0 && i != only) continue;
        hash = 0x1234567; count = 0; misaligned = 0; ch_pos = 0; exploring = 0; explore_disc = 0;
        low_rsp = 0;
        if (mc_wrap_reset) { mc_viol = 0; mc_wrap_reset(); }
        setitimer(ITIMER_VIRTUAL, &it, 0);
        r = sigsetjmp(env, 1);
        if (!r) disc = mc_call_checked(mc_cases[i]) | explore_disc;
        else { unsigned mx = 0x1f80; __asm__ volatile("cld; fninit; ldmxcsr %0" : : "m"(mx)); }
        setitimer(ITIMER_VIRTUAL, &off, 0);
        if (mc_wrap_reset) { disc |= mc_viol << 16; if (mc_viol) fprintf(stderr, "case %ld: function %s: %lx\n", i, mc_vname, mc_viol); }
        if (low_rsp) disc |= 1 << 12;
        printf("%ld %d %016lx %ld %lx %d", i, r, hash, count, disc, misaligned);
        if (full) for (j = 0; j < count && j < MAXLOG; j++) printf(" %c%lx", logk[j], logv[j]);
        printf("\n");
    }
    printf("# %ld %ld %ld %ld\n", paths, decisions, cuts, steps);
    fflush(stdout);
    _exit(0);
}
