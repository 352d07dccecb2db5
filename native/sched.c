/* Runs the compiled harness of a property with threads along one given schedule.
 *
 * The harness is the LLVM IR that was executed symbolically, with a call of symx_point before every step the engine
 * counts as synchronising (see check.py), compiled and linked with this file. Input: the same lines as of replay/;
 * the inputs contain the thread to go on wherever the engine drew one. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>

#define MAX 8
enum { READY, WAITS, JOINS, ENDED };
static struct {
    sem_t go;
    int status, greedy;
    uint32_t *addr, bits;
    void (*f)(void *);
    void *arg;
} th[MAX];
static int count = 1, alive = 1, cur, chosen;
static __thread int me, over;

static uint64_t inputs[1 << 16], params[64];
static int given[64];
static size_t n_inputs, next_input;
static uint64_t events[1 << 16];
static size_t n_events;

static uint64_t input(void) { return next_input < n_inputs ? inputs[next_input++] : 0; }
static void event(uint64_t x) {
    if (n_events < 1 << 16) events[n_events++] = x;
}
static void die(const char *s, unsigned id, int code) {
    printf("%s %u\n", s, id);
    fflush(stdout);
    _exit(code);
}
uint8_t symx_u8(void) { return input(); }
uint16_t symx_u16(void) { return input(); }
uint32_t symx_u32(void) { return input(); }
uint64_t symx_u64(void) { return input(); }
uint64_t symx_param(uint32_t i, uint64_t d) { return i < 64 && given[i] ? params[i] : d; }
void symx_assume(_Bool c) {
    if (!c) die("assume", 0, 4);
}
void symx_assert(_Bool c, uint32_t id) {
    event(id | 1ull << 32);
    if (!c) die("fail", id, 1);
}
void symx_cover(uint32_t id) { event(id | 2ull << 32); }
void symx_observe(uint64_t x) { event(x); }
uint64_t symx_concrete(uint64_t x) { return x; }

static void hand_over(int t) {
    if (t >= count || th[t].status != READY) die("deadlock", t, 1);
    chosen = 1;
    if (t == me) return;
    cur = t;
    sem_post(&th[t].go);
}
static void wait_turn(void) {
    while (sem_wait(&th[me].go)) {
    }
}
/* 0: a step that writes, 1: one that reads, 2: a spin hint */
void symx_point(int kind) {
    if (alive < 2 || over) return;
    if (chosen) {
        chosen = 0;
        return;
    }
    if (th[me].greedy) {
        if (kind) return;
        th[me].greedy = 0;
    }
    uint64_t code = input();
    th[me].greedy = code >> 7 & 1;
    int t = code & 0x7f;
    hand_over(t);
    if (t != me) wait_turn();
    chosen = 0;
}
static void *body(void *p) {
    me = (int)(intptr_t)p;
    wait_turn();
    th[me].f(th[me].arg);
    over = 1;
    th[me].status = ENDED;
    alive--;
    if (alive == 1 && th[0].status == JOINS) th[0].status = READY;
    hand_over(input() & 0x7f);
    return 0;
}
void symx_spawn(void (*f)(void *), void *arg) {
    int t = count++;
    if (t >= MAX) die("threads", t, 5);
    th[t].f = f;
    th[t].arg = arg;
    th[t].status = READY;
    th[t].greedy = 0;
    sem_init(&th[t].go, 0, 0);
    alive++;
    chosen = 0;
    pthread_t p;
    if (pthread_create(&p, 0, body, (void *)(intptr_t)t)) die("threads", t, 5);
    pthread_detach(p);
}
void symx_join(void) {
    if (alive == 1) return;
    th[me].status = JOINS;
    hand_over(input() & 0x7f);
    wait_turn();
}
long symx_syscall(long nr, ...) {
    va_list l;
    va_start(l, nr);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(l, long);
    va_end(l);
    if (nr != SYS_futex) return syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    symx_point(0);
    uint32_t *addr = (uint32_t *)a[0];
    int op = a[1] & 0x7f;
    if (op == 0 || op == 9) {
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (uint32_t)a[2]) {
            errno = EAGAIN;
            return -1;
        }
        if (alive < 2) die("deadlock", 0, 1);
        th[me].status = WAITS;
        th[me].addr = addr;
        th[me].bits = op == 9 ? (uint32_t)a[5] : ~0u;
        hand_over(input() & 0x7f);
        wait_turn();
        return 0;
    }
    uint32_t bits = op == 10 ? (uint32_t)a[5] : ~0u;
    long woken = 0;
    for (int t = 0; t < count; t++)
        if (th[t].status == WAITS && th[t].addr == addr && th[t].bits & bits && woken < (uint32_t)a[2]) {
            th[t].status = READY;
            woken++;
        }
    return woken;
}

int main(void) {
    static char line[1 << 20];
    if (!fgets(line, sizeof line, stdin)) return 5;
    char *save, *entry = line, *p = strchr(line, '|'), *q;
    if (!p) return 5;
    *p++ = 0;
    q = strchr(p, '|');
    if (!q) return 5;
    *q++ = 0;
    for (char *s = strtok_r(p, ",", &save); s; s = strtok_r(0, ",", &save)) {
        unsigned k;
        unsigned long long v;
        if (sscanf(s, "%u=%llu", &k, &v) == 2 && k < 64) params[k] = v, given[k] = 1;
    }
    for (char *s = strtok_r(q, ",\n", &save); s; s = strtok_r(0, ",\n", &save)) {
        char *c = strchr(s, ':');
        if (c && n_inputs < 1 << 16) inputs[n_inputs++] = strtoull(c + 1, 0, 16);
    }
    void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, entry);
    if (!f) {
        puts("no such entry");
        return 5;
    }
    sem_init(&th[0].go, 0, 0);
    alarm(60);
    f();
    printf("ok ");
    for (size_t i = 0; i < n_events; i++) printf("%s%llx", i ? "," : "", (unsigned long long)events[i]);
    if (next_input != n_inputs) printf(" and %zu inputs", n_inputs - next_input);
    puts("");
    fflush(stdout);
    _exit(0);
}
