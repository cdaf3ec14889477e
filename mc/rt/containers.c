// Explicit exploration of the containers' histories. Every sequence of operations up to a length, from every prefix, is run on the implementation
// and on the mathematical object, with everything observable compared after the last operation of each.
// usage: containers FAMILY PART PARTS DEPTH; prints FAIL lines and a final line "stats nodes transitions states".
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "wcc.h"

static long nodes, transitions, states, fails;
static int part, parts, depth, all;
static char trace[4096]; static int tpos;

static void fail(char *what) {
    fails++;
    if (fails <= 5) { printf("FAIL %s\t%s\n", what, trace); fflush(stdout); }
    if (fails > 5) { printf("stats %ld %ld %ld\n", nodes, transitions, states); exit(0); }
}
static void say(char *f, long a, long b) { if (tpos < 3900) tpos += sprintf(trace + tpos, f, a, b); }

#define NK 48
static unsigned fnv(char *s) { unsigned r = 2166136261u; for (; *s; s++) r = (r ^ *s) * 16777619; return r; }

// ---------------------------------------------------------------------------------------------- maps
// One key space of NK keys: 0..3 are operated on, the rest fill the map beforehand
static char skeys[NK][16], skeys2[NK][16];        // two copies at different addresses: keys are compared by contents
static long lkeys[NK];
static long hconst(long l) { return 7; }
static long hneg(long l) { return -l * 3 - 1; }
static long hid(long l) { return l; }
static long (*hf)(long);

static void make_skeys(int family) {
    int n = 0;
    for (int i = 0; n < NK; i++) {
        char b[16];
        if (family == 4) { for (int j = 0; j < n % 12; j++) b[j] = 'q'; sprintf(b + n % 12, "%d", n); }      // prefixes of each other and a long one
        else sprintf(b, "k%d", i);
        unsigned h = fnv(b);
        if (family == 1 && h % 16 != 15) continue;                       // one chain of 16, wrapping around
        if (family == 2 && h % 64 != 62) continue;                       // one chain through two doublings
        if (family == 3 && h % 16 != (n % 2 ? 15u : 1u)) continue;       // two chains that run into each other
        if (family == 4 && n == 3) b[0] = 0;                             // the empty string
        strcpy(skeys[n], b); strcpy(skeys2[n], b); n++;
    }
}
static void make_lkeys(int family) {
    hf = 0;
    for (int i = 0; i < NK; i++) lkeys[i] = family == 0 ? i : family == 1 ? i * 16 + 15 : family == 2 ? (long) i * 64 - 640 : family == 3 ? (i % 2 ? -1 - i * 16L : i * 16L + 1) : ((long) (i + 1) << 40) ^ i;
    if (family == 2) hf = hconst;
    if (family == 3) hf = hneg;
}

// The operated map and its model
typedef struct { void *v[NK]; } Model;
enum { STRMAP, LONGMAP, LONGSET, STRSET };
static int kind;
static void *obj, *old; static Model m, oldm;
static void *val[3] = { (void *) 1, (void *) 0x5000, (void *) -1 };

static void obj_new(void) {
    obj = kind == STRMAP ? (void *) new_strmap() : kind == LONGMAP ? (void *) new_longmap() : kind == LONGSET ? (void *) new_longset() : (void *) new_strset();
    if (hf && kind == LONGMAP) ((LongMap *) obj)->hashfunc = hf;
    if (hf && kind == LONGSET) ((LongSet *) obj)->longmap->hashfunc = hf;
    memset(&m, 0, sizeof(m)); old = 0;
}
static void free_one(void *o) {
    if (!o) return;
    if (kind == STRMAP) free_strmap(o); else if (kind == LONGMAP) free_longmap(o); else if (kind == LONGSET) free_longset(o); else free_strset(o);
}
static void put(int k, int v) {
    char *s = v & 1 ? skeys2[k] : skeys[k];
    if (kind == STRMAP) strmap_put(obj, s, val[v]);
    else if (kind == LONGMAP) longmap_put(obj, lkeys[k], val[v]);
    else if (kind == LONGSET) longset_add(obj, lkeys[k]);
    else strset_add(obj, s);
    m.v[k] = kind == STRMAP || kind == LONGMAP ? val[v] : (void *) 1;
}
static int can_delete(void) { return kind != STRSET; }
static void del(int k) {
    if (kind == STRMAP) strmap_delete(obj, skeys2[k]); else if (kind == LONGMAP) longmap_delete(obj, lkeys[k]); else if (kind == LONGSET) longset_delete(obj, lkeys[k]);
    m.v[k] = 0;
}
static void *get(void *o, int k) {
    if (kind == STRMAP) return strmap_get(o, skeys2[k]);
    if (kind == LONGMAP) return longmap_get(o, lkeys[k]);
    if (kind == LONGSET) return (void *) (long) longset_in(o, lkeys[k]);
    return (void *) (long) strset_in(o, skeys2[k]);
}
static int key_of(char *s, long l) {
    for (int k = 0; k < NK; k++) if (s ? !strcmp(s, skeys[k]) : l == lkeys[k]) return k;
    return -1;
}
static int sequence[NK + 8], nsequence;
static void seen(char *s, long l) { if (nsequence < NK + 8) sequence[nsequence++] = key_of(s, l); }
static void iterate(void *o) {
    nsequence = 0;
    if (kind == STRMAP) { strmap_foreach(((StrMap *) o), it) seen(strmap_iterator_key(&it), 0); }
    else if (kind == STRSET) { strmap_foreach((((StrSet *) o)->strmap), it) seen(strmap_iterator_key(&it), 0); }
    else if (kind == LONGMAP) { longmap_foreach(((LongMap *) o), it) seen(0, longmap_iterator_key(&it)); }
    else { longset_foreach(((LongSet *) o), it) seen(0, longset_iterator_element(&it)); }
}
static void compare_iteration(Model *mm, char *what) {
    char c[NK] = { 0 };
    for (int i = 0; i < nsequence; i++) {
        if (sequence[i] < 0) { fail("iteration yields a key that was never put"); return; }
        if (c[sequence[i]]++) { fail("iteration yields a key twice"); return; }
    }
    for (int k = 0; k < NK; k++) if (c[k] != !!mm->v[k]) { fail(what); return; }
}
static void observe(void *o, Model *mm, char *what) {
    for (int k = 0; k < NK; k++) if (get(o, k) != mm->v[k]) { fail(what); return; }
    iterate(o);
    compare_iteration(mm, "iteration does not yield exactly the elements");
    int n = 0;
    for (int k = 0; k < NK; k++) n += !!mm->v[k];
    if (kind == LONGSET && longset_len(o) != n) fail("longset_len");
    if (kind == LONGMAP) {
        int *keys, small = 1;
        for (int k = 0; k < NK; k++) small &= lkeys[k] == (int) lkeys[k];
        int c = longmap_keys(o, &keys);
        if (c != n) fail("longmap_keys count");
        else if (small) {
            nsequence = 0;
            for (int i = 0; i < c; i++) seen(0, keys[i]);
            compare_iteration(mm, "longmap_keys keys");
        }
        wfree(keys);
    }
}

// Operations: 0-3 put with value 0, 4-7 delete, 8,9 put with another value, 10 empty, 11 copy, 12 copy and go on with the original, 13.. iterate and delete
static int nops(void) { return 16; }
static int op(int o) {
    if (o < 4) { put(o, 0); say(" put%ld", o, 0); }
    else if (o < 8) { if (!can_delete()) return 0; del(o - 4); say(" del%ld", o - 4, 0); }
    else if (o < 10) { if (kind == LONGSET) return 0; put(o - 8, 1); say(" put%ld'", o - 8, 0); }
    else if (o == 10) {
        if (kind == LONGMAP) longmap_empty(obj); else if (kind == LONGSET) longset_empty(obj); else return 0;
        memset(&m, 0, sizeof(m)); say(" empty", 0, 0);
    }
    else if (o < 13) {
        if (old) return 0;
        void *c;
        if (kind == LONGMAP) c = longmap_copy(obj); else if (kind == LONGSET) c = longset_copy(obj); else if (kind == STRSET) c = dup_strset(obj); else return 0;
        oldm = m;
        if (o == 11) { old = obj; obj = c; } else old = c;
        say(o == 11 ? " copy" : " copied", 0, 0);
    }
    else if (o == 13) {                 // delete each element as the iteration reaches it, from the second on
        if (!can_delete()) return 0;
        int first = 1, k;
        say(" iterate-delete", 0, 0);
        if (kind == STRMAP) { strmap_foreach(((StrMap *) obj), it) { k = key_of(strmap_iterator_key(&it), 0); if (k < 0) { fail("iteration yields a key that was never put"); break; } if (!first) del(k); first = 0; } }
        else if (kind == LONGMAP) { longmap_foreach(((LongMap *) obj), it) { k = key_of(0, longmap_iterator_key(&it)); if (k < 0) { fail("iteration yields a key that was never put"); break; } if (!first) del(k); first = 0; } }
        else { longset_foreach(((LongSet *) obj), it) { k = key_of(0, longset_iterator_element(&it)); if (k < 0) { fail("iteration yields a key that was never put"); break; } if (!first) del(k); first = 0; } }
    }
    else if (o == 14) {                 // two more, so that the map grows again
        put(40, 0); put(41, 0); say(" put40 put41", 0, 0);
    }
    else {
        if (!can_delete()) return 0;
        del(4); del(5); say(" del4 del5", 0, 0);
    }
    return 1;
}

// Prefixes: fill n, then delete some; or put and delete one key after the other (only tombstones)
static void prefix(int n, int how) {
    tpos = 0;
    say("fill%ld/%ld:", n, how);
    if (how < 4) for (int i = 0; i < n; i++) put(4 + i, 0);
    if (how == 1) for (int i = 0; i < n; i += 2) del(4 + i);
    if (how == 2) for (int i = 0; i < n; i++) del(4 + i);
    if (how == 3) for (int i = n - 1; i > n / 3; i--) del(4 + i);
    if (how == 4) for (int i = 0; i < n; i++) { put(4 + i, 0); del(4 + i); }
    if (how == 5) { put(0, 1); put(3, 0); for (int i = 0; i < n; i++) { put(4 + i, 0); if (i) del(3 + i); } }
}

static int seq[16];
static void node(int n, int pf, int how) {
    obj_new(); prefix(pf, how);
    int ok = 1;
    for (int i = 0; i < n && ok; i++) { ok = op(seq[i]); transitions++; }
    if (ok) {
        nodes++;
        observe(obj, &m, "lookup differs from the map's contents");
        if (old) observe(old, &oldm, "lookup differs in the other copy");
        if (kind == LONGSET && old) {
            int eq = 1; for (int k = 0; k < NK; k++) eq &= !!m.v[k] == !!oldm.v[k];
            if (longset_eq(obj, old) != eq || longset_eq(old, obj) != eq) fail("longset_eq");
            Model u = m, x = m;
            for (int k = 0; k < NK; k++) { if (oldm.v[k]) u.v[k] = (void *) 1; if (!oldm.v[k]) x.v[k] = 0; }
            void *a = longset_union(obj, old), *b = longset_intersection(obj, old);
            observe(a, &u, "longset_union"); observe(b, &x, "longset_intersection");
            free_one(a); free_one(b);
        }
        if (kind == STRSET && old) {
            Model u = m, x = m;
            for (int k = 0; k < NK; k++) { if (oldm.v[k]) u.v[k] = (void *) 1; if (!oldm.v[k]) x.v[k] = 0; }
            void *a = strset_union(obj, old), *b = strset_intersection(obj, old);
            observe(a, &u, "strset_union"); observe(b, &x, "strset_intersection");
            free_one(a); free_one(b);
        }
    }
    free_one(obj); free_one(old);
    if (ok && n < depth) for (int o = 0; o < nops(); o++) { seq[n] = o; node(n + 1, pf, how); }
}
static void maps(int kd) {
    kind = kd;
    int job = 0;
    for (int f = 0; f < 5; f++) for (int how = 0; how < (kind == STRSET ? 1 : 6); how++) for (int pf = 0; pf <= 34; pf++) {
        if (pf > 24 && how < 4) continue;
        if (job++ % parts != part) continue;
        if (kind == STRMAP || kind == STRSET) make_skeys(f); else make_lkeys(f);
        states++;
        int d = depth;
        if (!all && !(pf < 2 || pf >= 9 && pf <= 12 || pf >= 19 && pf <= 22)) depth--;       // the longest histories from around the growth points only
        node(0, pf, how);
        depth = d;
    }
}

// ---------------------------------------------------------------------------------------------- sets
static int bits(Set *s, int n) { int r = 0; for (int i = 0; i <= n; i++) r |= in_set(s, i) << i; return r; }
static Set *mk(int b, int n) { Set *s = new_set(n); for (int i = 0; i <= n; i++) if (b >> i & 1) add_to_set(s, i); return s; }
static void check_set(Set *s, int b, int n, char *what) {
    if (bits(s, n) != b) fail(what);
    if (set_len(s) != __builtin_popcount(b)) fail("set_len");
    cache_set_elements(s);
    int k = 0;
    if (s->cached_element_count != __builtin_popcount(b)) fail("cache_set_elements count");
    else for (int i = 0; i <= n; i++) if (b >> i & 1) if (s->cached_elements[k++] != i) fail("cache_set_elements");
    Set *c = copy_set(s);
    if (bits(c, n) != b || !set_eq(c, s)) fail("copy_set");
    for (int i = 0; i <= n; i++) {
        add_to_set(c, i); if (bits(c, n) != (b | 1 << i)) fail("add_to_set"); if (set_eq(c, s) != (b >> i & 1)) fail("set_eq");
        delete_from_set(c, i); if (bits(c, n) != (b & ~(1 << i))) fail("delete_from_set");
        if (set_len(c) != __builtin_popcount(b & ~(1 << i))) fail("set_len after delete");
        copy_set_to(c, s); if (bits(c, n) != b) fail("copy_set_to");
        transitions += 3;
    }
    empty_set(c); if (bits(c, n) || set_len(c)) fail("empty_set");
    cache_set_elements(c); if (c->cached_element_count) fail("cache_set_elements of an emptied set");
    if (bits(s, n) != b) fail("operations on a copy change the original");
    free_set(c);
    nodes++;
}
static void sets(void) {
    for (int n = 0; n <= depth; n++) {
        for (int a = 0; a < 1 << (n + 1); a++) {
            if (a % parts != part) continue;
            Set *s = mk(a, n);
            tpos = 0; say("set of max %ld bits %ld", n, a);
            check_set(s, a, n, "set");
            for (int b = 0; b < 1 << (n + 1); b++) {
                Set *t = mk(b, n), *r;
                states++;
                tpos = 0; say("sets %ld %ld", a, b); say(" max %ld", n, 0);
                int want[3] = { a & b, a | b, a & ~b };
                for (int o = 0; o < 3; o++) {
                    r = o == 0 ? set_intersection(s, t) : o == 1 ? set_union(s, t) : set_difference(s, t);
                    check_set(r, want[o], n, o == 0 ? "set_intersection" : o == 1 ? "set_union" : "set_difference");
                    free_set(r);
                    for (int al = 0; al < 3; al++) {            // destination apart, the first operand, the second operand
                        Set *x = copy_set(s), *y = copy_set(t), *d = al == 0 ? mk(~0, n) : al == 1 ? x : y;
                        if (o == 0) set_intersection_to(d, x, y); else if (o == 1) set_union_to(d, x, y); else set_difference_to(d, x, y);
                        if (bits(d, n) != want[o] || set_len(d) != __builtin_popcount(want[o])) fail(o == 0 ? "set_intersection_to" : o == 1 ? "set_union_to" : "set_difference_to");
                        if (al != 1 && bits(x, n) != a) fail("first operand changed");
                        if (al != 2 && bits(y, n) != b) fail("second operand changed");
                        free_set(x); free_set(y); if (!al) free_set(d);
                        transitions++;
                    }
                }
                if (set_eq(s, t) != (a == b)) fail("set_eq");
                if (bits(s, n) != a || bits(t, n) != b) fail("operands changed");
                free_set(t);
            }
            free_set(s);
        }
    }
}

// ---------------------------------------------------------------------------------------------- sequences
static int panics(void (*f)(void)) {
    fflush(stdout);
    pid_t p = fork();
    if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); f(); _exit(0); }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 1;
}
static void p_top(void) { stack_top(new_stack()); }
static void p_pop(void) { pop_from_stack(new_stack()); }
static void p_pop2(void) { Stack *s = new_stack(); push_onto_stack(s, 1); pop_from_stack(s); pop_from_stack(s); }
static void p_full(void) { Stack *s = new_stack(); for (int i = 0; i <= MAX_STACK_SIZE; i++) push_onto_stack(s, i); }
static void p_set1(void) { Set *s = new_set(3); add_to_set(s, 4); }
static void p_set2(void) { in_set(new_set(3), 4); }
static void p_set3(void) { delete_from_set(new_set(3), 4); }
static void p_set4(void) { set_union(new_set(3), new_set(4)); }
static void p_set5(void) { set_eq(new_set(3), new_set(4)); }
static void p_set6(void) { Set *s = new_set(3); set_intersection_to(new_set(2), s, s); }
static void p_edge1(void) { add_graph_edge(new_graph(2, 2), 0, 2); }
static void p_edge2(void) { add_graph_edge(new_graph(2, 2), -1, 0); }
static void p_edge3(void) { Graph *g = new_graph(2, 2); for (int i = 0; i < 3; i++) add_graph_edge(g, 0, 1); }

static void sequences(void) {
    if (part == 0) {
        tpos = 0; say("misuse", 0, 0);
        struct { char *n; void (*f)(void); } ps[] = { "stack_top of an empty stack", p_top, "pop of an empty stack", p_pop, "pop of an emptied stack", p_pop2, "push on a full stack", p_full, "add_to_set beyond the maximum", p_set1, "in_set beyond the maximum", p_set2, "delete_from_set beyond the maximum", p_set3, "union of sets of two sizes", p_set4, "set_eq of two sizes", p_set5, "intersection into a set of another size", p_set6, "edge to a node out of range", p_edge1, "edge from a node out of range", p_edge2, "too many edges", p_edge3 };
        for (int i = 0; i < sizeof(ps) / sizeof(*ps); i++) { nodes++; if (!panics(ps[i].f)) { char b[99]; sprintf(b, "%s goes unnoticed", ps[i].n); fail(b); } }
        // a full stack and back
        Stack *s = new_stack();
        for (int i = 0; i < MAX_STACK_SIZE; i++) push_onto_stack(s, i * 3);
        for (int i = MAX_STACK_SIZE - 1; i >= 0; i--) { if (stack_top(s) != i * 3) { fail("stack_top of a deep stack"); break; } if (pop_from_stack(s) != i * 3) { fail("pop of a deep stack"); break; } nodes++; }
        free_stack(s);
        // lists of every initial allocation and length
        for (int a = 0; a <= 40; a++) for (int n = 0; n <= 300; n += n < 70 ? 1 : 23) {
            tpos = 0; say("list initially %ld, %ld appended", a, n);
            List *l = new_list(a);
            for (long i = 0; i < n; i++) { append_to_list(l, (void *) (i * 7 + 1)); transitions++; if (l->length != i + 1) fail("list length"); }
            if (l->length != n) fail("list length");
            for (long i = 0; i < n; i++) if (l->elements[i] != (void *) (i * 7 + 1)) { fail("list element"); break; }
            free_list(l); nodes++; states++;
        }
        for (int n = 0; n <= 5; n++) {
            CircularLinkedList *head = 0, *last = 0;
            for (int i = 0; i < n; i++) { CircularLinkedList *c = wmalloc(sizeof(*c)); if (!head) head = c; else last->next = c; last = c; c->next = head; }
            free_circular_linked_list(head); nodes++;
        }
    }
    // stacks: every sequence of push a, push b, pop, top
    long total = 1; for (int i = 0; i < depth + 4; i++) total *= 4;
    for (long c = part; c < total; c += parts) {
        Stack *s = new_stack();
        int model[32], n = 0; long x = c;
        tpos = 0; say("stack %ld", c, 0);
        for (int i = 0; i < depth + 4; i++, x /= 4) {
            transitions++;
            switch (x % 4) {
                case 0: case 1: push_onto_stack(s, model[n] = x % 4 ? -5 : i); n++; break;
                case 2: if (n) { if (pop_from_stack(s) != model[--n]) fail("pop_from_stack"); } break;
                case 3: if (n) { if (stack_top(s) != model[n - 1]) fail("stack_top"); } break;
            }
        }
        while (n) if (pop_from_stack(s) != model[--n]) { fail("pop_from_stack"); break; }
        free_stack(s); nodes++; states++;
    }
    // string buffers: every initial size, every sequence of appended lengths
    int lens[] = { 0, 1, 2, 3, 7, 8, 9, 31 }; char *text = "abcdefghijklmnopqrstuvwxyz01234";
    total = 1; for (int i = 0; i < depth; i++) total *= 8;
    for (int a = 0; a <= 17; a++) for (long c = part; c < total; c += parts) {
        StringBuffer *sb = new_string_buffer(a);
        char model[512]; int n = 0; long x = c;
        tpos = 0; say("string buffer of %ld, lengths %lo", a, c);
        for (int i = 0; i < depth; i++, x /= 8) {
            char piece[40]; int l = lens[x % 8];
            memcpy(piece, text + 31 - l, l); piece[l] = 0;
            memcpy(model + n, piece, l); n += l; model[n] = 0;
            append_to_string_buffer(sb, piece); transitions++;
        }
        if (sb->position != n) fail("string buffer position");
        terminate_string_buffer(sb);
        if (strcmp(sb->data, model)) fail("string buffer contents");
        free_string_buffer(sb, 1); nodes++; states++;
    }
    // base_path: every string over a, /, . up to a length
    for (int len = 0; len <= depth + 3; len++) {
        total = 1; for (int i = 0; i < len; i++) total *= 3;
        for (long c = part; c < total; c += parts) {
            char s[32], w[32]; long x = c;
            for (int i = 0; i < len; i++, x /= 3) s[i] = "a/."[x % 3];
            s[len] = 0; strcpy(w, s);
            char *e = strrchr(w, '/'); if (e) e[1] = 0; else *w = 0;
            char *r = base_path(s);
            tpos = 0; say("base_path", 0, 0); tpos += sprintf(trace + tpos, " %s", s);
            if (strcmp(r, w)) fail("base_path");
            wfree(r); nodes++; states++;
        }
    }
    for (int n = part; n < 3000; n += parts) {
        char *r, *big = malloc(n + 1); memset(big, 'x', n); big[n] = 0;
        tpos = 0; say("wasprintf of %ld", n, 0);
        if (wasprintf(&r, "%s-%d", big, n) != (int) strlen(r) || strncmp(r, big, n) || r[n] != '-' || atoi(r + n + 1) != n) fail("wasprintf");
        wfree(r); free(big); nodes++;
    }
    // graphs: every sequence of edges over three nodes
    total = 1; for (int i = 0; i < depth; i++) total *= 9;
    for (int ne = 1; ne <= depth; ne++) {
        total = 1; for (int i = 0; i < ne; i++) total *= 9;
        for (long c = part; c < total; c += parts) {
            Graph *g = new_graph(3, ne);
            int from[16], to[16]; long x = c;
            tpos = 0; say("graph edges %ld of %ld", c, ne);
            for (int i = 0; i < ne; i++, x /= 9) { from[i] = x % 9 / 3; to[i] = x % 3; GraphEdge *e = add_graph_edge(g, from[i], to[i]); transitions++; if (e->id != i || e->from->id != from[i] || e->to->id != to[i]) fail("graph edge"); }
            if (g->edge_count != ne || g->node_count != 3) fail("graph counts");
            for (int n = 0; n < 3; n++) {
                GraphEdge *s = g->nodes[n].succ, *p = g->nodes[n].pred;
                for (int i = 0; i < ne; i++) {
                    if (from[i] == n) { if (!s || s->id != i) { fail("graph successors"); break; } s = s->next_succ; }
                    if (to[i] == n) { if (!p || p->id != i) { fail("graph predecessors"); break; } p = p->next_pred; }
                }
                if (s || p) fail("graph: more edges than added");
            }
            free_graph(g); nodes++; states++;
        }
    }
}

int main(int argc, char **argv) {
    part = atoi(argv[2]); parts = atoi(argv[3]); depth = atoi(argv[4]); all = argc > 5;
    if (!strcmp(argv[1], "strmap")) maps(STRMAP);
    if (!strcmp(argv[1], "longmap")) maps(LONGMAP);
    if (!strcmp(argv[1], "longset")) maps(LONGSET);
    if (!strcmp(argv[1], "strset")) maps(STRSET);
    if (!strcmp(argv[1], "set")) sets();
    if (!strcmp(argv[1], "seq")) sequences();
    // everything the containers allocated has been freed
    fail_on_leaked_memory = 1;
    if (!fails) process_memory_allocation_stats();
    printf("stats %ld %ld %ld\n", nodes, transitions, states);
    return 0;
}
