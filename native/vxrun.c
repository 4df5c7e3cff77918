/* Native replayer: runs one path of a harness, compiled to machine code, with the symbolic values
 * and the schedule taken from a tape.
 *
 * usage: vxrun LIB.so FUNCTION TAPE
 * exit:  0 path completed, 1 property violated, 3 diverged from the tape, 4 assumption false
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define MAXT 8
enum { FRESH, PARKED, BLOCKED, JOINING, DONE };

static struct thread {
    int st, timed, woken, join, fired;
    pthread_t p;
    void (*f)(uintptr_t);
    uintptr_t arg;
    uint64_t *vals;
    size_t n, cap, pos;
} T[MAXT];
static int nt = 1, turn = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int me;
static struct { int t, fired; } *S;
static size_t ns, caps, ps;
static long freerun;

static void out(const char *s) { printf("%s\n", s); fflush(stdout); }
static void die(int code) { fflush(stdout); _exit(code); }

static void on_sig(int sig) {
    char b[64];
    int n = snprintf(b, sizeof b, "CRASH %d\n", sig);
    fflush(stdout);
    if (write(1, b, n)) {}
    _exit(1);
}

static int enabled(int t, int fired) {
    struct thread *x = &T[t];
    switch (x->st) {
    case FRESH: case PARKED: return !fired;
    case BLOCKED: return fired ? x->timed : x->woken;
    case JOINING: return !fired && T[x->join].st == DONE;
    }
    return 0;
}

/* Called with the lock held by the thread that has just parked: picks the next one. */
static void pick(void) {
    int t = -1, f = 0;
    if (nt > 1 && ps < ns) {
        t = S[ps].t; f = S[ps].fired; ps++;
        if (t >= nt || !enabled(t, f)) { out("DIVERGED schedule"); die(3); }
    } else {
        if (ps >= ns && ++freerun > 200000) { out("LIVELOCK"); die(1); }
        for (int k = 1; k <= nt && t < 0; k++)
            for (int q = 0; q < 2; q++) {
                int c = (turn + k) % nt;
                if (enabled(c, q)) { t = c; f = q; break; }
            }
        if (t < 0) { out("DEADLOCK"); die(1); }
    }
    T[t].fired = f;
    T[t].st = PARKED;
    turn = t;
    pthread_cond_broadcast(&cv);
}

static int park(void) {
    pthread_mutex_lock(&mu);
    pick();
    while (turn != me) pthread_cond_wait(&cv, &mu);
    int f = T[me].fired;
    pthread_mutex_unlock(&mu);
    return f;
}

uint64_t vx_sym(const char *name, size_t len, uint32_t bits) {
    (void)name; (void)len;
    struct thread *t = &T[me];
    uint64_t v = t->pos < t->n ? t->vals[t->pos] : 0;
    t->pos++;
    return bits < 64 ? v & ((1ull << bits) - 1) : v;
}
void vx_assume(uint32_t c) { if (!c) { out("ASSUME"); die(4); } }
void vx_assert(uint32_t c, const char *m, size_t n) {
    if (!c) { printf("VIOLATED %.*s\n", (int)n, m); die(1); }
}
void vx_cover(const char *m, size_t n) { (void)m; (void)n; }
void vx_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void vx_yield(uint32_t k) { (void)k; T[me].st = PARKED; park(); }
uint32_t vx_block(uint32_t timed) {
    T[me].st = BLOCKED; T[me].timed = timed != 0; T[me].woken = 0;
    return park();
}
void vx_wake(void) { for (int i = 0; i < nt; i++) if (T[i].st == BLOCKED) T[i].woken = 1; }
static void *body(void *a) {
    me = (int)(intptr_t)a;
    pthread_mutex_lock(&mu);
    while (turn != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    T[me].f(T[me].arg);
    pthread_mutex_lock(&mu);
    T[me].st = DONE;
    pick();
    pthread_mutex_unlock(&mu);
    return 0;
}
uint32_t vx_spawn(void (*f)(uintptr_t), uintptr_t arg) {
    int t = nt++;
    if (t >= MAXT) die(5);
    T[t].f = f; T[t].arg = arg; T[t].st = FRESH;
    pthread_create(&T[t].p, 0, body, (void *)(intptr_t)t);
    return t;
}
void vx_join(uint32_t t) { T[me].st = JOINING; T[me].join = t; park(); }
uint32_t vx_tid(void) { return me; }
void vx_stop(void) { out("STOP"); die(0); }

int main(int argc, char **argv) {
    if (argc < 4) return 5;
    FILE *f = fopen(argv[3], "r");
    if (!f) return 5;
    char line[512];
    while (fgets(line, sizeof line, f)) {
        int t, k;
        unsigned long long v;
        if (sscanf(line, "V %d %llu", &t, &v) == 2 && t < MAXT) {
            struct thread *x = &T[t];
            if (x->n == x->cap) {
                x->cap = x->cap ? 2 * x->cap : 64;
                x->vals = realloc(x->vals, x->cap * 8);
            }
            x->vals[x->n++] = v;
        } else if (sscanf(line, "S %d %d", &t, &k) == 2) {
            if (ns == caps) { caps = caps ? 2 * caps : 256; S = realloc(S, caps * sizeof *S); }
            S[ns].t = t; S[ns].fired = k; ns++;
        }
    }
    fclose(f);
    struct sigaction sa = { .sa_handler = on_sig };
    int sigs[] = { SIGABRT, SIGSEGV, SIGILL, SIGBUS, SIGFPE, SIGTRAP };
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 5; }
    void (*fn)(void) = (void (*)(void))dlsym(h, argv[2]);
    if (!fn) { fprintf(stderr, "no %s\n", argv[2]); return 5; }
    T[0].st = PARKED;
    fn();
    out("OK");
    die(0);
}
