// compiled WITHOUT -fsanitize=thread
#include "vsched.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {

long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

enum State { RUNNABLE, BLOCKED, DONE };
enum Kind { K_NONE, K_MUTEX, K_COND, K_SLEEP, K_FUTEX, K_JOIN, K_RW, K_ONCE };
const char* KN[] = {"-", "mutex", "cond", "sleep", "futex", "join", "rwlock", "once"};

struct Th {
    int id = 0;
    State st = RUNNABLE;
    Kind kind = K_NONE;
    const void* addr = nullptr;
    uint64_t deadline = 0;      // 0: none
    bool timed_out = false;
    uint32_t prio = 0;
    std::atomic<int> go{0};
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool detached = false;
    uint64_t run_len = 0;
    uint64_t since = 0;         // when it blocked
};

constexpr int MAXT = 256;
Th* T[MAXT];
int nT = 0;
bool g_active = false;
int g_nopre = 0;
vs::Opt O;
uint64_t g_now = 0, g_steps = 0, g_sw = 0;
vs::fault_fn g_fault = nullptr;
bool g_in_fault = false;
__thread Th* me = nullptr;

uint64_t S[2];
uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t next() {
    uint64_t s0 = S[0], s1 = S[1], r = s0 + s1;
    s1 ^= s0;
    S[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    S[1] = rotl(s1, 37);
    return r;
}
uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// policy
bool pct = false;
uint32_t p_sync = 0, p_atomic = 0, p_plain = 0;    // out of 1<<20
int64_t plain_left = 0;
uint64_t pct_next = 0;
uint32_t pct_gap = 0;
uint32_t low_prio = 0;
int64_t draw_gap(uint32_t p) {
    if (!p) return INT64_MAX;
    // geometric with success probability p / 2^20, by inversion on an integer approximation
    double u = ((next() >> 11) + 1) * (1.0 / 9007199254740993.0);
    double q = double(p) / (1 << 20);
    double g = __builtin_log(u) / __builtin_log1p(-q < -0.999999 ? -0.999999 : -q);
    return g > 1e15 ? INT64_MAX : (int64_t)g + 1;
}

[[noreturn]] void fault(const char* kind, const char* detail) {
    g_in_fault = true;
    g_nopre++;
    if (g_fault) g_fault(kind, detail);
    raw6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

void futex_wait_raw(std::atomic<int>* w) {
    int spins = 0;
    while (w->load(std::memory_order_acquire) == 0) {
        if (++spins < 200) { __builtin_ia32_pause(); continue; }
        raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    }
    w->store(0, std::memory_order_relaxed);
}
void hand_to(Th* t) {
    t->go.store(1, std::memory_order_release);
    raw6(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

void expire() {
    for (int i = 0; i < nT; i++) {
        Th* t = T[i];
        if (t->st == BLOCKED && t->deadline && t->deadline <= g_now) {
            t->st = RUNNABLE;
            t->timed_out = true;
        }
    }
}

Th* pick() {
    for (;;) {
        expire();
        if (O.early_timeouts && next() % 256 == 0) {
            Th* c[MAXT]; int n = 0;
            for (int i = 0; i < nT; i++) if (T[i]->st == BLOCKED && T[i]->deadline) c[n++] = T[i];
            if (n) {
                uint64_t d = UINT64_MAX;
                for (int i = 0; i < n; i++) if (c[i]->deadline < d) d = c[i]->deadline;
                if (d > g_now) g_now = d;
                expire();
            }
        }
        // spurious wakeups come early or not at all, or they would make up for notifications that were never sent
        if (O.spurious && next() % 512 == 0) {
            Th* c[MAXT]; int n = 0;
            for (int i = 0; i < nT; i++) if (T[i]->st == BLOCKED && T[i]->kind == K_COND && g_now - T[i]->since < 200000) c[n++] = T[i];
            if (n) c[next() % n]->st = RUNNABLE;
        }
        Th* c[MAXT]; int n = 0;
        for (int i = 0; i < nT; i++) if (T[i]->st == RUNNABLE) c[n++] = T[i];
        if (n) {
            if (pct) {
                Th* b = c[0];
                for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
                return b;
            }
            return c[next() % n];
        }
        uint64_t d = UINT64_MAX;
        for (int i = 0; i < nT; i++)
            if (T[i]->st == BLOCKED && T[i]->deadline && T[i]->deadline < d) d = T[i]->deadline;
        if (d == UINT64_MAX) {
            char b[2048]; vs::describe_threads(b, sizeof b);
            fault("deadlock", b);
        }
        g_now = d;
        if (g_now > O.max_time_ns) {
            char b[2048]; vs::describe_threads(b, sizeof b);
            fault("timelimit", b);
        }
    }
}

void switch_to(Th* t) {
    if (t == me) return;
    g_sw++;
    Th* self = me;
    t->run_len = 0;
    hand_to(t);
    futex_wait_raw(&self->go);
}

void demote(Th* t) { t->prio = low_prio ? --low_prio : 0; }

enum PK { P_SYNC, P_ATOMIC, P_PLAIN, P_YIELD };

void pre(PK k) {
    if (!g_active || !me || g_nopre || g_in_fault) return;
    g_steps++;
    g_now += (k == P_PLAIN) ? 5 : 50;
    if (g_steps > O.max_steps || g_now > O.max_time_ns) {
        char b[2048]; vs::describe_threads(b, sizeof b);
        fault(g_steps > O.max_steps ? "livelock" : "timelimit", b);
    }
    me->run_len++;
    bool sw = false;
    if (pct) {
        if (g_steps >= pct_next) {
            demote(me);
            pct_next = g_steps + 1 + next() % pct_gap;
            sw = true;
        }
        if (k == P_YIELD || me->run_len > 3000) { demote(me); me->run_len = 0; sw = true; }
    } else {
        uint32_t p = k == P_SYNC ? p_sync : k == P_ATOMIC ? p_atomic : k == P_PLAIN ? (1u << 20) : (1u << 19);
        sw = (next() & ((1u << 20) - 1)) < p || me->run_len > 20000;
    }
    if (sw) switch_to(pick());
}

void block(Kind k, const void* a, uint64_t deadline) {
    Th* s = me;
    if (g_nopre) fault("harness", "blocking inside a no-preemption section");
    s->kind = k; s->addr = a; s->deadline = deadline; s->timed_out = false;
    s->st = BLOCKED; s->since = g_now;
    g_steps++;
    Th* t = pick();
    if (t != s) switch_to(t);
    s->kind = K_NONE; s->addr = nullptr; s->deadline = 0;
}

int wake(Kind k, const void* a, int maxn) {
    Th* c[MAXT]; int n = 0, w = 0;
    for (int i = 0; i < nT; i++) if (T[i]->st == BLOCKED && T[i]->kind == k && T[i]->addr == a) c[n++] = T[i];
    while (n && w < maxn) {
        int i = next() % n;
        c[i]->st = RUNNABLE;
        c[i] = c[--n];
        w++;
    }
    return w;
}

// ---------------------------------------------------------------- heap: never reuses memory, knows what is freed
constexpr size_t ARENA = 4ull << 30;
char* arena = nullptr;
unsigned char* shadow = nullptr;   // per 16 bytes: 0 never allocated, 1 live, 2 freed
size_t arena_off = 0;
std::atomic_flag arena_lock = ATOMIC_FLAG_INIT;
void arena_init() {
    arena = (char*)mmap((void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (unsigned char*)mmap((void*)0x300000000000ull, ARENA / 16, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || shadow == MAP_FAILED) _exit(98);
}
inline bool in_arena(const void* p) { return arena && (const char*)p >= arena && (const char*)p < arena + ARENA; }
void* vs_alloc(size_t n, size_t al = 16) {
    while (arena_lock.test_and_set(std::memory_order_acquire)) {}
    if (!arena) arena_init();
    size_t need = ((n + 15) & ~size_t(15)) + 32;     // header (16) + payload + red zone (16)
    size_t off = arena_off + 16;
    if (al > 16) off = (off + al - 1) & ~(al - 1);
    if (off + need > ARENA) { arena_lock.clear(); fault("harness", "arena exhausted"); }
    arena_off = off + need - 16;
    arena_lock.clear(std::memory_order_release);
    char* p = arena + off;
    *(size_t*)(p - 16) = n;
    memset(shadow + (off >> 4), 1, ((n + 15) >> 4) + (n == 0));
    return p;
}
void vs_free(void* p) {
    if (!p || !in_arena(p)) return;
    size_t off = (char*)p - arena;
    if (shadow[off >> 4] != 1) {
        char b[128]; snprintf(b, sizeof b, "delete of %p which is not live", p);
        if (g_active) fault("dfree", b);
        return;
    }
    size_t n = *(size_t*)((char*)p - 16);
    memset(shadow + (off >> 4), 2, ((n + 15) >> 4) + (n == 0));
    memset(p, 0xDD, n);
}
inline void check_access(const void* a, const char* what) {
    if (!in_arena(a) || !g_active || g_in_fault) return;
    size_t off = (const char*)a - arena;
    if (__builtin_expect(shadow[off >> 4] == 2, 0)) {
        char b[256];
        snprintf(b, sizeof b, "%s of freed memory at %p by thread %d pc %p", what, a, me ? me->id : -1,
                 __builtin_return_address(0));
        fault("uaf", b);
    }
}

template <class F> F real_fn(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

uint64_t ts2ns(const timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
constexpr uint64_t REAL_OFF = 1700000000ull * 1000000000ull;
constexpr uint64_t MONO_OFF = 1000ull * 1000000000ull;

void* thread_main(void* p) {
    Th* t = (Th*)p;
    futex_wait_raw(&t->go);
    me = t;
    t->ret = t->fn(t->arg);
    g_nopre = 0;
    t->st = DONE;
    wake(K_JOIN, t, 1000);
    Th* nx = pick();
    me = nullptr;
    g_sw++;
    hand_to(nx);
    return t->ret;
}

}  // namespace

namespace vs {
NoPre::NoPre() { g_nopre++; }
NoPre::~NoPre() { g_nopre--; }
bool active() { return g_active; }
uint64_t now_ns() { return g_now; }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_sw; }
uint64_t rnd() { return next(); }
int self() { return me ? me->id : -1; }
void on_fault(fault_fn f) { g_fault = f; }
void point() { pre(P_SYNC); }
void work(int k) { while (k-- > 0) pre(P_SYNC); }
void describe_threads(char* b, int n) {
    int o = 0;
    o += snprintf(b + o, n - o, "t=%llu.%06llums steps=%llu;", (unsigned long long)(g_now / 1000000),
                  (unsigned long long)(g_now % 1000000), (unsigned long long)g_steps);
    for (int i = 0; i < nT && o < n - 40; i++)
        if (T[i]->st != DONE)
            o += snprintf(b + o, n - o, " T%d:%s%s", T[i]->id, T[i]->st == RUNNABLE ? "run" : KN[T[i]->kind],
                          T[i]->deadline ? "(timed)" : "");
}
void start(const Opt& o) {
    O = o;
    uint64_t x = o.seed * 0x2545F4914F6CDD1Dull + 77;
    S[0] = splitmix(x); S[1] = splitmix(x);
    int mode = o.mode >= 0 ? o.mode : (int)(next() % 6);
    pct = false; low_prio = 1u << 30; 
    switch (mode) {
        case 0: p_sync = p_atomic = 1u << 19; p_plain = 1u << 12; break;          // 1/2
        case 1: p_sync = p_atomic = (1u << 20) / 8; p_plain = 1u << 11; break;
        case 2: p_sync = (1u << 20) / 4; p_atomic = (1u << 20) / 40; p_plain = 1u << 10; break;
        case 3: pct = true; pct_gap = 60; p_plain = 1u << 14; break;
        case 4: pct = true; pct_gap = 600; p_plain = 1u << 12; break;
        default: pct = true; pct_gap = 6000; p_plain = 1u << 11; break;
    }
    plain_left = draw_gap(p_plain);
    pct_next = 1 + next() % (pct ? pct_gap : 1000);
    g_now = 0; g_steps = 0; g_sw = 0; g_nopre = 0;
    nT = 0;
    Th* t = new (malloc(sizeof(Th))) Th();
    t->id = 0; t->prio = (1u << 30) + next() % (1u << 20);
    T[nT++] = t;
    me = t;
    g_active = true;
}
void stop() { g_active = false; me = nullptr; }
}  // namespace vs

// ---------------------------------------------------------------- operator new / delete
void* operator new(size_t n) { return vs_alloc(n); }
void* operator new[](size_t n) { return vs_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vs_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vs_alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return vs_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return vs_alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { vs_free(p); }
void operator delete[](void* p) noexcept { vs_free(p); }
void operator delete(void* p, size_t) noexcept { vs_free(p); }
void operator delete[](void* p, size_t) noexcept { vs_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { vs_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vs_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vs_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vs_free(p); }

// ---------------------------------------------------------------- pthread
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    static auto real = real_fn<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!g_active || !me) return real(out, at, fn, arg);
    pre(P_SYNC);
    if (nT >= MAXT) fault("harness", "too many threads");
    Th* t = new (malloc(sizeof(Th))) Th();
    t->id = nT; t->fn = fn; t->arg = arg;
    t->prio = (1u << 30) + next() % (1u << 20);
    g_nopre++;
    int r = real(&t->real, at, thread_main, t);
    g_nopre--;
    if (r) return r;
    T[nT++] = t;
    *out = t->real;
    pre(P_SYNC);
    return 0;
}
EXPORT int pthread_join(pthread_t th, void** ret) {
    static auto real = real_fn<int (*)(pthread_t, void**)>("pthread_join");
    if (!g_active || !me) return real(th, ret);
    pre(P_SYNC);
    Th* t = nullptr;
    for (int i = nT - 1; i >= 0; i--) if (T[i]->real == th && !T[i]->detached) { t = T[i]; break; }
    if (!t) return real(th, ret);
    while (t->st != DONE) block(K_JOIN, t, 0);
    t->detached = true;
    return real(th, ret);
}
EXPORT int pthread_detach(pthread_t th) {
    static auto real = real_fn<int (*)(pthread_t)>("pthread_detach");
    if (g_active) for (int i = nT - 1; i >= 0; i--) if (T[i]->real == th && !T[i]->detached) { T[i]->detached = true; break; }
    return real(th);
}

static int mtx_lock(pthread_mutex_t* m, uint64_t deadline, bool timed) {
    auto& d = m->__data;
    bool managed = g_active && me && !g_in_fault;
    int tid = managed ? me->id + 1 : 0x7fff;
    if (managed) { check_access(m, "mutex lock"); pre(P_SYNC); }
    if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && d.__lock && d.__owner == tid) { d.__count++; return 0; }
    while (d.__lock) {
        if (!managed) return 0;   // teardown: single threaded
        block(K_MUTEX, m, deadline);
        if (d.__lock && timed && g_now >= deadline) return ETIMEDOUT;
    }
    d.__lock = 1; d.__owner = tid; d.__count = 1;
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { return mtx_lock(m, 0, false); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
    auto& d = m->__data;
    bool managed = g_active && me && !g_in_fault;
    int tid = managed ? me->id + 1 : 0x7fff;
    if (managed) { check_access(m, "mutex trylock"); pre(P_SYNC); }
    if (d.__lock) {
        if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && d.__owner == tid) { d.__count++; return 0; }
        return EBUSY;
    }
    d.__lock = 1; d.__owner = tid; d.__count = 1;
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
    auto& d = m->__data;
    if (g_active && me) check_access(m, "mutex unlock");
    if (d.__count > 1) { d.__count--; return 0; }
    d.__lock = 0; d.__owner = 0; d.__count = 0;
    if (g_active && me && !g_in_fault) { wake(K_MUTEX, m, 1000); pre(P_SYNC); }
    return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) {
    return mtx_lock(m, ts2ns(t) - REAL_OFF, true);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) {
    return mtx_lock(m, ts2ns(t) - (c == CLOCK_REALTIME ? REAL_OFF : MONO_OFF), true);
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) { (void)m; return 0; }

// rwlock, in place: __readers = number of readers, __cur_writer = 1 if write locked
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    auto& d = l->__data;
    if (g_active && me) { check_access(l, "rdlock"); pre(P_SYNC); while (d.__cur_writer) block(K_RW, l, 0); }
    d.__readers++;
    return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    auto& d = l->__data;
    if (g_active && me) { check_access(l, "wrlock"); pre(P_SYNC); while (d.__cur_writer || d.__readers) block(K_RW, l, 0); }
    d.__cur_writer = 1;
    return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (g_active && me) pre(P_SYNC);
    if (l->__data.__cur_writer) return EBUSY;
    l->__data.__readers++;
    return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (g_active && me) pre(P_SYNC);
    if (l->__data.__cur_writer || l->__data.__readers) return EBUSY;
    l->__data.__cur_writer = 1;
    return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    auto& d = l->__data;
    if (d.__cur_writer) d.__cur_writer = 0; else if (d.__readers) d.__readers--;
    if (g_active && me) { wake(K_RW, l, 1000); pre(P_SYNC); }
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline, bool timed) {
    if (!g_active || !me) return timed ? ETIMEDOUT : 0;
    check_access(c, "cond wait");
    pre(P_SYNC);
    if (timed && deadline <= g_now) {       // already expired: release and re-acquire
        pthread_mutex_unlock(m);
        mtx_lock(m, 0, false);
        return ETIMEDOUT;
    }
    auto& d = m->__data;
    unsigned cnt = d.__count;
    d.__lock = 0; d.__owner = 0; d.__count = 0;
    wake(K_MUTEX, m, 1000);
    Th* s = me;
    block(K_COND, c, timed ? (deadline ? deadline : 1) : 0);
    bool to = s->timed_out;
    mtx_lock(m, 0, false);
    d.__count = cnt;
    return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, 0, false); }
static uint64_t sat(uint64_t a, uint64_t off) { return a > off ? a - off : 0; }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    return cond_wait(c, m, sat(ts2ns(t), REAL_OFF), true);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
    return cond_wait(c, m, sat(ts2ns(t), k == CLOCK_REALTIME ? REAL_OFF : MONO_OFF), true);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
    if (g_active && me) { check_access(c, "cond signal"); pre(P_SYNC); wake(K_COND, c, 1); pre(P_SYNC); }
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
    if (g_active && me) { check_access(c, "cond broadcast"); pre(P_SYNC); wake(K_COND, c, 1000); pre(P_SYNC); }
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t*) { return 0; }

EXPORT int pthread_once(pthread_once_t* o, void (*fn)()) {
    static auto real = real_fn<int (*)(pthread_once_t*, void (*)())>("pthread_once");
    if (!g_active || !me) return real(o, fn);
    pre(P_SYNC);
    while (*o != 2) {
        if (*o == 0) {
            *o = 1;
            try { fn(); } catch (...) { *o = 0; wake(K_ONCE, o, 1000); throw; }
            *o = 2;
            wake(K_ONCE, o, 1000);
        } else {
            block(K_ONCE, o, 0);
        }
    }
    return 0;
}

EXPORT int sched_yield() {
    if (g_active && me) { pre(P_YIELD); return 0; }
    return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
static int vsleep(uint64_t ns) {
    if (!g_active || !me) return 0;
    pre(P_SYNC);
    block(K_SLEEP, nullptr, g_now + (ns ? ns : 1));
    return 0;
}
EXPORT int nanosleep(const timespec* t, timespec*) { return vsleep(ts2ns(t)); }
EXPORT int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec*) {
    uint64_t v = ts2ns(t);
    if (fl & TIMER_ABSTIME) {
        uint64_t a = sat(v, c == CLOCK_REALTIME ? REAL_OFF : MONO_OFF);
        return vsleep(a > g_now ? a - g_now : 0);
    }
    return vsleep(v);
}
EXPORT int usleep(useconds_t u) { return vsleep((uint64_t)u * 1000); }
EXPORT unsigned sleep(unsigned s) { vsleep((uint64_t)s * 1000000000ull); return 0; }
EXPORT int clock_gettime(clockid_t c, timespec* t) {
    if (!g_active) return (int)raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    if (me) pre(P_ATOMIC);
    uint64_t v = g_now + (c == CLOCK_REALTIME ? REAL_OFF : MONO_OFF);
    t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull;
    return 0;
}
EXPORT int gettimeofday(timeval* t, void*) {
    timespec s; clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t* p) {
    timespec s; clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}

EXPORT long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a[6];
    for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && g_active && me && !g_in_fault) {
        int* addr = (int*)a[0];
        int op = (int)a[1] & 127;
        bool rt = (a[1] & 256) != 0;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            check_access(addr, "futex wait");
            pre(P_SYNC);
            if (*addr != (int)a[2]) { errno = EAGAIN; return -1; }
            uint64_t dl = 0;
            if (a[3]) {
                uint64_t v = ts2ns((timespec*)a[3]);
                dl = op == FUTEX_WAIT ? g_now + v : sat(v, rt ? REAL_OFF : MONO_OFF);
                if (dl <= g_now) { errno = ETIMEDOUT; return -1; }
            }
            Th* s = me;
            block(K_FUTEX, addr, dl);
            if (s->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            pre(P_SYNC);
            int w = wake(K_FUTEX, addr, (int)a[2]);
            pre(P_SYNC);
            return w;
        }
    }
    long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// deterministic std::random_device
extern "C" __attribute__((visibility("default"))) unsigned vs_random_device(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned vs_random_device(void*) {
    static uint64_t x = 12345;
    return (unsigned)splitmix(x);
}

// ---------------------------------------------------------------- instrumentation runtime
#define PLAIN(a, w) do { check_access(a, w); if (--plain_left <= 0) { pre(P_PLAIN); plain_left = draw_gap(p_plain); } } while (0)
#define RW(n) \
    EXPORT void __tsan_read##n(void* a) { PLAIN(a, "read"); } \
    EXPORT void __tsan_write##n(void* a) { PLAIN(a, "write"); } \
    EXPORT void __tsan_read_write##n(void* a) { PLAIN(a, "write"); } \
    EXPORT void __tsan_unaligned_read##n(void* a) { PLAIN(a, "read"); } \
    EXPORT void __tsan_unaligned_write##n(void* a) { PLAIN(a, "write"); } \
    EXPORT void __tsan_unaligned_read_write##n(void* a) { PLAIN(a, "write"); } \
    EXPORT void __tsan_volatile_read##n(void* a) { PLAIN(a, "read"); } \
    EXPORT void __tsan_volatile_write##n(void* a) { PLAIN(a, "write"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void** a, void*) { PLAIN(a, "vptr write"); }
EXPORT void __tsan_vptr_read(void** a) { PLAIN(a, "vptr read"); }
EXPORT void __tsan_read_range(void* a, unsigned long) { PLAIN(a, "read"); }
EXPORT void __tsan_write_range(void* a, unsigned long) { PLAIN(a, "write"); }
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { PLAIN(d, "memcpy write"); check_access(s, "memcpy read"); } return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { PLAIN(d, "memmove write"); check_access(s, "memmove read"); } return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int v, size_t n) { if (n) PLAIN(d, "memset"); return memset(d, v, n); }

#define AT(a) do { check_access((const void*)(a), "atomic access"); pre(P_ATOMIC); } while (0)
#define ATOMICS(bits, type) \
    EXPORT type __tsan_atomic##bits##_load(const volatile type* a, int) { AT(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    EXPORT void __tsan_atomic##bits##_store(volatile type* a, type v, int) { AT(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); pre(P_ATOMIC); } \
    EXPORT type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { AT(a); type r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { AT(a); type r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { AT(a); type r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { AT(a); type r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { AT(a); type r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { AT(a); type r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int) { AT(a); type r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int, int) { AT(a); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int, int) { AT(a); if (g_active && me && O.spurious && next() % 64 == 0) { *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); return 0; } int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return r; } \
    EXPORT type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int, int) { AT(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); pre(P_ATOMIC); return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) { pre(P_ATOMIC); }
EXPORT void __tsan_atomic_signal_fence(int) {}
