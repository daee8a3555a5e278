#include "ctl.h"
#include <algorithm>
#include <atomic>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <bits/atomic_futex.h>

namespace sched {
std::vector<int> choices, options;
enum State { RUN, BLOCKED, DONE };
enum Kind { NONE, MUTEX, COND, FUTEX, JOIN, ONCE, RW, QUIESCE };
struct T {
    int id = 0; std::atomic<int> go{0}; State st = RUN; Kind kind = NONE; const void * on = nullptr; bool timed = false, timedOut = false;
    long prio = 0; pthread_t real{}; void * (*f)(void *) = nullptr; void * arg = nullptr; void * ret = nullptr;
};
static std::vector<T *> ts; static __thread T * me; static bool on = false; static int held = 0;
static Config cfg; static uint64_t rs; static const std::function<void(const std::string &)> * stuckCb;
static long left_, used, nextLow, preempts, quantum, streak; static std::vector<long> changes; static T * last;
struct Mx { T * owner = nullptr; int depth = 0; };
struct Rw { T * writer = nullptr; int readers = 0; };
static std::unordered_map<const void *, Mx> mxs; static std::unordered_map<const void *, Rw> rws; static std::unordered_map<const void *, std::vector<T *>> cvs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 11; }
static long below(long n) { return n <= 1 ? 0 : (long)(rnd() % (uint64_t)n); }
static void fwait(std::atomic<int> & a) { while (a.load() == 0) syscall(SYS_futex, (int *)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0); }
static void fpost(std::atomic<int> & a) { a.store(1); syscall(SYS_futex, (int *)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static int choose(int n) { // d: a recorded choice
    if (n <= 1) return 0;
    size_t k = choices.size(); int c = k < cfg.prefix.size() ? cfg.prefix[k] : 0; if (c >= n) c = n - 1;
    choices.push_back(c); options.push_back(n); return c;
}
bool next(std::vector<int> & p) {
    p = choices;
    while (!p.empty()) { if (p.back() + 1 < options[p.size() - 1]) { ++p.back(); return true; } p.pop_back(); }
    return false;
}
static void rearm() { // memory accesses until the next look
    quantum = 100000;
    if (cfg.strategy == 'r' && cfg.mem > 0) quantum = 1 + below(2 * cfg.mem);
    if (cfg.strategy == 'p' && !changes.empty()) quantum = std::min(quantum, std::max(1L, changes.back() - used));
    left_ = quantum;
}
static std::string describe() {
    static const char * N[] = {"", "mutex", "condition", "future", "join", "once", "rwlock", "quiesce"}; std::string r;
    for (T * t : ts) if (t->st == BLOCKED) r += (r.empty() ? "" : " ") + std::to_string(t->id) + ":" + N[t->kind];
    return r;
}
static void stuck(const std::string & how) { on = false; (*stuckCb)(how); _exit(98); }
// the thread that goes on; `sync`: at a synchronisation, else between two memory accesses
static T * pick(bool sync, bool yield) {
    used += quantum - left_; 
    if (sync) ++used;
    if (used > 60000000) stuck("endless");
    if (cfg.spurious && sync && below(40) == 0) { std::vector<T *> w; for (T * t : ts) if (t->st == BLOCKED && t->kind == COND) w.push_back(t); if (!w.empty()) w[(size_t)below((long)w.size())]->st = RUN; }
    std::vector<T *> r; 
    for (int round = 0; round < 3 && r.empty(); ++round) {
        for (T * t : ts) if (t->st == RUN) r.push_back(t);
        if (!r.empty()) break;
        for (T * t : ts) if (t->st == BLOCKED && (round == 0 ? t->timed : round == 1 && t->kind == QUIESCE)) { t->st = RUN; t->timedOut = true; break; }
    }
    if (r.empty()) stuck(describe());
    bool stay = me && me->st == RUN; T * n = nullptr;
    if (cfg.strategy == 'd') {
        if (stay && !yield && (preempts >= cfg.depth || !sync)) n = me;
        else {
            std::vector<T *> o; if (stay && !yield) o.push_back(me);
            for (T * t : r) if (t != me) o.push_back(t);
            if (stay && yield) o.push_back(me);
            n = o[(size_t)choose((int)o.size())]; if (stay && !yield && n != me) ++preempts;
        }
    } else if (cfg.strategy == 'p') {
        while (!changes.empty() && changes.back() <= used) { changes.pop_back(); if (me) me->prio = nextLow--; }
        streak = stay ? streak + 1 : 0;
        if (me && (yield || streak > 2000)) { me->prio = nextLow--; streak = 0; }
        for (T * t : r) if (!n || t->prio > n->prio) n = t;
    } else {
        if (stay && !sync && cfg.mem == 0) n = me;
        else if (stay && (yield || !sync) && r.size() > 1) do n = r[(size_t)below((long)r.size())]; while (n == me);
        else n = r[(size_t)below((long)r.size())];
    }
    rearm();
    return n;
}
static void transfer(T * n) { if (n == me) return; T * m = me; fpost(n->go); fwait(m->go); }
static void step(bool sync, bool yield = false) { if (on && me && !held) transfer(pick(sync, yield)); }
void hold(int d) { if (me) held += d; }
static void block(Kind k, const void * o, bool timed = false) { me->st = BLOCKED; me->kind = k; me->on = o; me->timed = timed; me->timedOut = false; transfer(pick(true, false)); me->kind = NONE; me->timed = false; }
static void wakeAll(Kind k, const void * o) { for (T * t : ts) if (t->st == BLOCKED && t->kind == k && t->on == o) t->st = RUN; }
void point() { step(true); }
int self() { return me ? me->id : -1; }
std::vector<int> quiesce() { block(QUIESCE, nullptr); std::vector<int> r; for (T * t : ts) if (t->st == BLOCKED) r.push_back(t->id); return r; }
static bool ctl() { return on && me; }
void run(const Config & c, const std::function<void()> & f, const std::function<void(const std::string &)> & onStuck) {
    cfg = c; rs = c.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (int k = 0; k < 8; ++k) rnd();
    stuckCb = &onStuck; used = preempts = streak = 0; nextLow = -1; choices.clear(); options.clear(); mxs.clear(); rws.clear(); cvs.clear(); changes.clear();
    if (c.strategy == 'p') { for (int k = 0; k < c.depth; ++k) changes.push_back(1 + below(c.mem > 0 ? c.mem : 300)); std::sort(changes.rbegin(), changes.rend()); }
    T * t = new T; t->prio = 1 + below(1000000); ts.assign(1, t); me = t; rearm(); on = true;
    f();
    for (;;) { bool more = false; for (T * x : ts) more |= x != t && x->st != DONE; if (!more) break; if (t->st == RUN) quiesce(); bool alive = false; for (T * x : ts) alive |= x != t && x->st == RUN; if (!alive) { for (T * x : ts) if (x != t && x->st == BLOCKED) stuck(describe()); } }
    on = false; me = nullptr; for (T * x : ts) delete x; ts.clear();
}
static void * entry(void * p) {
    T * t = (T *)p; fwait(t->go); me = t;
    t->ret = t->f(t->arg);
    t->st = DONE; wakeAll(JOIN, t);
    T * n = nullptr; bool any = false; for (T * x : ts) any |= x->st != DONE; 
    if (any) n = pick(true, false);
    void * r = t->ret; me = nullptr; if (n) fpost(n->go); return r;
}
template <class F> static F real(F, const char * name) { return (F)dlsym(RTLD_NEXT, name); }
static void unlock(const void * m) { Mx & x = mxs[m]; if (x.depth > 0) { --x.depth; return; } x.owner = nullptr; wakeAll(MUTEX, m); }
static bool recursive(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void lock(pthread_mutex_t * m) { for (;;) { Mx & x = mxs[m]; if (!x.owner) { x.owner = me; x.depth = 0; return; } if (x.owner == me && recursive(m)) { ++x.depth; return; } block(MUTEX, m); } }
static int condWait(pthread_cond_t * c, pthread_mutex_t * m, bool timed) {
    step(true); cvs[c].push_back(me); unlock(m); block(COND, c, timed); bool to = me->timedOut;
    auto & w = cvs[c]; for (size_t k = 0; k < w.size(); ++k) if (w[k] == me) { w.erase(w.begin() + (long)k); break; }
    lock(m); return to && timed ? ETIMEDOUT : 0;
}
}
using namespace sched;
extern "C" {
int pthread_create(pthread_t * p, const pthread_attr_t * a, void * (*f)(void *), void * arg) {
    static auto r = real(&pthread_create, "pthread_create");
    if (!ctl()) return r(p, a, f, arg);
    T * t = new T; t->id = (int)ts.size(); t->f = f; t->arg = arg; t->prio = 1 + below(1000000);
    int e = r(&t->real, a, entry, t); if (e) { delete t; return e; }
    ts.push_back(t); *p = t->real; step(true); return 0;
}
int pthread_join(pthread_t p, void ** ret) {
    static auto r = real(&pthread_join, "pthread_join");
    if (ctl()) { step(true); for (T * t : ts) if (t->id && pthread_equal(t->real, p)) while (t->st != DONE) block(JOIN, t); }
    return r(p, ret);
}
int pthread_mutex_lock(pthread_mutex_t * m) { static auto r = real(&pthread_mutex_lock, "pthread_mutex_lock"); if (!ctl()) return r(m); step(true); lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t * m) { static auto r = real(&pthread_mutex_trylock, "pthread_mutex_trylock"); if (!ctl()) return r(m); step(true); Mx & x = mxs[m]; if (x.owner && !(x.owner == me && recursive(m))) return EBUSY; lock(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t * m) { static auto r = real(&pthread_mutex_unlock, "pthread_mutex_unlock"); if (!ctl()) return r(m); unlock(m); step(true); return 0; }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { static auto r = real(&pthread_cond_wait, "pthread_cond_wait"); if (!ctl()) return r(c, m); return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) { static auto r = real(&pthread_cond_timedwait, "pthread_cond_timedwait"); if (!ctl()) return r(c, m, t); return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) { static auto r = real(&pthread_cond_clockwait, "pthread_cond_clockwait"); if (!ctl()) return r(c, m, k, t); return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t * c) {
    static auto r = real(&pthread_cond_signal, "pthread_cond_signal"); if (!ctl()) return r(c);
    step(true); auto & w = cvs[c]; if (!w.empty()) { size_t k = cfg.strategy == 'd' ? (size_t)choose((int)w.size()) : (size_t)below((long)w.size()); w[k]->st = RUN; w.erase(w.begin() + (long)k); } return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) { static auto r = real(&pthread_cond_broadcast, "pthread_cond_broadcast"); if (!ctl()) return r(c); step(true); auto & w = cvs[c]; for (T * t : w) t->st = RUN; w.clear(); return 0; }
static int rd(pthread_rwlock_t * m, bool w, bool tr) {
    step(true);
    for (;;) { Rw & x = rws[m]; if (!x.writer && (!w || !x.readers)) { if (w) x.writer = me; else ++x.readers; return 0; } if (tr) return EBUSY; block(RW, m); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m) { static auto r = real(&pthread_rwlock_rdlock, "pthread_rwlock_rdlock"); return ctl() ? rd(m, false, false) : r(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t * m) { static auto r = real(&pthread_rwlock_wrlock, "pthread_rwlock_wrlock"); return ctl() ? rd(m, true, false) : r(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) { static auto r = real(&pthread_rwlock_tryrdlock, "pthread_rwlock_tryrdlock"); return ctl() ? rd(m, false, true) : r(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { static auto r = real(&pthread_rwlock_trywrlock, "pthread_rwlock_trywrlock"); return ctl() ? rd(m, true, true) : r(m); }
int pthread_rwlock_unlock(pthread_rwlock_t * m) { static auto r = real(&pthread_rwlock_unlock, "pthread_rwlock_unlock"); if (!ctl()) return r(m); Rw & x = rws[m]; if (x.writer == me) x.writer = nullptr; else --x.readers; wakeAll(RW, m); step(true); return 0; }
int pthread_once(pthread_once_t * o, void (*f)(void)) {
    volatile int * s = (volatile int *)o;
    if (!ctl()) { int z = 0; for (;;) { z = 0; if (__atomic_load_n(s, __ATOMIC_SEQ_CST) == 2) return 0; if (__atomic_compare_exchange_n(s, &z, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) break; sched_yield(); } }
    else { step(true); while (*s == 1) block(ONCE, o); if (*s == 2) return 0; *s = 1; }
    try { f(); } catch (...) { *s = 0; if (ctl()) wakeAll(ONCE, o); throw; }
    __atomic_store_n(s, 2, __ATOMIC_SEQ_CST); if (ctl()) wakeAll(ONCE, o); return 0;
}
int __cxa_guard_acquire(long long * g) {
    volatile char * b = (volatile char *)g;
    if (__atomic_load_n(b, __ATOMIC_SEQ_CST)) return 0;
    if (!ctl()) { for (;;) { char z = 0; if (b[0]) return 0; if (__atomic_compare_exchange_n(b + 1, &z, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { if (b[0]) { b[1] = 0; return 0; } return 1; } sched_yield(); } }
    step(true); while (b[1]) block(ONCE, g);
    if (b[0]) return 0;
    b[1] = 1; return 1;
}
void __cxa_guard_release(long long * g) { volatile char * b = (volatile char *)g; __atomic_store_n(b, 1, __ATOMIC_SEQ_CST); __atomic_store_n(b + 1, 0, __ATOMIC_SEQ_CST); if (ctl()) wakeAll(ONCE, g); }
void __cxa_guard_abort(long long * g) { volatile char * b = (volatile char *)g; __atomic_store_n(b + 1, 0, __ATOMIC_SEQ_CST); if (ctl()) wakeAll(ONCE, g); }
int sched_yield(void) { static auto r = real(&sched_yield, "sched_yield"); if (!ctl()) return r(); step(true, true); return 0; }
int nanosleep(const struct timespec * a, struct timespec * b) { static auto r = real(&nanosleep, "nanosleep"); if (!ctl()) return r(a, b); step(true, true); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec * a, struct timespec * b) { static auto r = real(&clock_nanosleep, "clock_nanosleep"); if (!ctl()) return r(c, f, a, b); step(true, true); return 0; }
int usleep(useconds_t u) { static auto r = real(&usleep, "usleep"); if (!ctl()) return r(u); step(true, true); return 0; }
}
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned * a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) {
    if (!ctl()) { if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) { if (timed) { struct timespec t = {0, 100000}; nanosleep(&t, nullptr); return false; } syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); } return true; }
    step(true); if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) return true;
    block(FUTEX, a, timed); return !(timed && me->timedOut);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned * a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timed, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned * a) { if (!ctl()) { syscall(SYS_futex, a, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0); return; } step(true); wakeAll(FUTEX, a); }
}
// ------------------------------------------------------------------ what -fsanitize=thread calls
static inline void mem() { if (on && me && !held && --left_ <= 0) step(false); }
static inline void atomic() { if (on && me) step(true); }
extern "C" {
#define M1(n) void n(void *) { mem(); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void *) {}
M1(__tsan_read1) M1(__tsan_read2) M1(__tsan_read4) M1(__tsan_read8) M1(__tsan_read16) M1(__tsan_write1) M1(__tsan_write2) M1(__tsan_write4) M1(__tsan_write8) M1(__tsan_write16)
M1(__tsan_unaligned_read2) M1(__tsan_unaligned_read4) M1(__tsan_unaligned_read8) M1(__tsan_unaligned_read16) M1(__tsan_unaligned_write2) M1(__tsan_unaligned_write4) M1(__tsan_unaligned_write8) M1(__tsan_unaligned_write16)
M1(__tsan_volatile_read1) M1(__tsan_volatile_read2) M1(__tsan_volatile_read4) M1(__tsan_volatile_read8) M1(__tsan_volatile_read16) M1(__tsan_volatile_write1) M1(__tsan_volatile_write2) M1(__tsan_volatile_write4) M1(__tsan_volatile_write8) M1(__tsan_volatile_write16)
M1(__tsan_vptr_read)
void __tsan_vptr_update(void **, void *) { mem(); }
void __tsan_read_range(void *, size_t) { mem(); } void __tsan_write_range(void *, size_t) { mem(); }
#define A(N, T) \
 T __tsan_atomic##N##_load(const volatile T * a, int) { atomic(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##N##_store(volatile T * a, T v, int) { atomic(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_exchange(volatile T * a, T v, int) { atomic(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_add(volatile T * a, T v, int) { atomic(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_sub(volatile T * a, T v, int) { atomic(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_and(volatile T * a, T v, int) { atomic(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_or(volatile T * a, T v, int) { atomic(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_xor(volatile T * a, T v, int) { atomic(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_nand(volatile T * a, T v, int) { atomic(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { atomic(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { atomic(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T * a, T c, T v, int, int) { atomic(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
A(8, int8_t) A(16, int16_t) A(32, int32_t) A(64, int64_t)
void __tsan_atomic_thread_fence(int) { atomic(); } void __tsan_atomic_signal_fence(int) {}
}
