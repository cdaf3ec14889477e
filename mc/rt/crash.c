// Runs wcc's main (renamed) on many inputs, each in a fork. usage: crash BLOB REPORT SECONDS FLAGS...
// BLOB: 32-bit length and text for each input. REPORT: a line "index kind value length\n" and the output for each input worth a look; kind: s(ignal), x (exit status)
// and "done ok errors\n" at the end.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

int wcc_main(int argc, char **argv);
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0"; }

int main(int argc, char **argv) {
    FILE *in = fopen(argv[1], "r"), *rep = fopen(argv[2], "w");
    int seconds = atoi(argv[3]), ok = 0, errors = 0;
    if (!in || !rep) { perror("crash"); return 2; }
    char *args[64];
    int n = 0;
    args[n++] = "wcc";
    for (int i = 4; i < argc; i++) args[n++] = argv[i];
    args[n++] = "in.c";
    args[n] = 0;
    // Everything is read before the first fork, and written before each, since the streams are shared with the children
    fseek(in, 0, SEEK_END);
    long size = ftell(in);
    rewind(in);
    char *blob = malloc(size + 1), *b = blob;
    if (fread(blob, 1, size, in) != size) { perror("blob"); return 2; }
    fclose(in);
    static char out[4000];
    for (int i = 0; b < blob + size; i++) {
        unsigned len = *(unsigned *) b;
        FILE *f = fopen("in.c", "w");
        if (!f || fwrite(b + 4, 1, len, f) != len || fclose(f)) { perror("in.c"); return 2; }
        b += 4 + len;
        fflush(rep);
        int fd = open("err", O_RDWR | O_CREAT | O_TRUNC, 0600);
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (!p) {
            struct rlimit z = { 0, 0 }, fs = { 64 << 20, 64 << 20 };
            setrlimit(RLIMIT_CORE, &z);
            setrlimit(RLIMIT_FSIZE, &fs);
            dup2(fd, 1); dup2(fd, 2);
            alarm(seconds);
            exit(wcc_main(n, args));
        }
        int st;
        if (waitpid(p, &st, 0) != p) { perror("wait"); return 2; }
        int k = pread(fd, out, sizeof out, 0);
        close(fd);
        if (WIFSIGNALED(st)) { fprintf(rep, "%d s %d %d\n", i, WTERMSIG(st), k); fwrite(out, 1, k, rep); }
        else if (WEXITSTATUS(st) > 1 || (WEXITSTATUS(st) == 1 && k == 0)) { fprintf(rep, "%d x %d %d\n", i, WEXITSTATUS(st), k); fwrite(out, 1, k, rep); }
        else if (WEXITSTATUS(st) == 1) {
            errors++;
            if (memmem(out, k, "nternal error", 13)) { fprintf(rep, "%d i 1 %d\n", i, k); fwrite(out, 1, k, rep); }
        }
        else ok++;
    }
    fprintf(rep, "done %d %d\n", ok, errors);
    return fclose(rep) ? 2 : 0;
}
