// Runtime of the controlled scheduler (see sched.hpp). Compiled without instrumentation.
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>

#include <array>
#include <atomic>
#include <deque>
#include <memory>
#include <new>
#include <unordered_map>

namespace
{
constexpr int max_threads = 10;
using Clock = std::array<uint32_t, max_threads>;

void join(Clock &a, const Clock &b)
{
    for (int i = 0; i < max_threads; ++i) a[i] = std::max(a[i], b[i]);
}

void fwait(std::atomic<uint32_t> &f)
{
    while (!f.load()) syscall(SYS_futex, &f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    f.store(0);
}
void fwake(std::atomic<uint32_t> &f)
{
    f.store(1);
    syscall(SYS_futex, &f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// Real threads that carry the controlled ones; a carrier is not reused within one execution.
struct Carrier
{
    pthread_t thread;
    std::atomic<uint32_t> go{0};
    int id = -1;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
};

enum St
{
    RUN,
    WAIT_MUTEX,
    WAIT_COND,
    WAIT_JOIN,
    DONE
};
struct Thread
{
    Carrier *carrier = nullptr;
    St st = RUN;
    const void *obj = nullptr, *mutex = nullptr;
    bool timed = false, timed_out = false, yielding = false;
    int target = -1;
    Clock vc{};
    void *result = nullptr;
    uint32_t ops = 0;   // synchronisation operations so far
    int no_points = 0;  // inside the initialisation of a static
};
struct Mutex
{
    int owner = -1, depth = 0;
    Clock vc{};
};
struct Cond
{
    std::deque<int> waiters;
};
struct Access
{
    uint32_t clk = 0;
    uint8_t tid = 0, mask = 0, flags = 0;  // flags: 1 write, 2 atomic
    const void *pc = nullptr;
};
struct Cell
{
    uintptr_t key = 0;
    uint32_t gen = 0;
    uint8_t n = 0, next = 0;
    Access a[6];
};

struct State
{
    mc::Ctx *c = nullptr;
    sched::Options opt;
    std::vector<Thread> th;
    std::unordered_map<const void *, Mutex> mutexes;
    std::unordered_map<const void *, Cond> conds;
    std::unordered_map<const void *, Clock> syncs;  // atomics and static guards
    std::vector<Cell> cells;
    size_t used = 0;
    uint32_t gen = 1;
    int current = -1, preemptions = 0, spurious = 0;
    uint64_t points = 0, switches = 0;
    bool drained = false, failed = false;
    std::string msg;
    std::exception_ptr stop;
    std::atomic<uint32_t> over{0};
    std::vector<Carrier *> idle, busy;
};
State S;
thread_local int self = -1;
thread_local int in_rt = 0;  // inside the runtime: its own memory accesses are not watched

struct In
{
    In() { ++in_rt; }
    ~In() { --in_rt; }
};

// The real functions.
template <class F>
F real(F, const char *name, const char *ver = nullptr)
{
    void *p = ver ? dlvsym(RTLD_NEXT, name, ver) : dlsym(RTLD_NEXT, name);
    if (!p) p = dlsym(RTLD_NEXT, name);
    return reinterpret_cast<F>(p);
}
#define REAL(name, ver) static auto f = real(&name, #name, ver)

[[noreturn]] void freeze()
{
    std::atomic<uint32_t> never{0};
    for (;;) fwait(never);
}
[[noreturn]] void fail(const std::string &m)
{
    S.failed = true;
    S.msg = m;
    fwake(S.over);
    freeze();
}

// Makes a choice; after the explorer has given up this execution the first option is taken.
int choose(int n)
{
    if (n <= 1 || S.drained) return 0;
    try
    {
        return S.c->choose(n);
    }
    catch (...)
    {
        S.stop = std::current_exception();
        S.drained = true;
        return 0;
    }
}

bool enabled(int t)
{
    const auto &x = S.th[t];
    switch (x.st)
    {
        case RUN:
            return true;
        case WAIT_MUTEX:
        {
            auto i = S.mutexes.find(x.obj);
            return i == S.mutexes.end() || i->second.owner < 0;
        }
        case WAIT_JOIN:
            return S.th[x.target].st == DONE;
        default:
            return false;
    }
}

const char *st_name(const Thread &t)
{
    switch (t.st)
    {
        case WAIT_MUTEX:
            return "waits for a mutex";
        case WAIT_COND:
            return "waits for a condition";
        case WAIT_JOIN:
            return "joins a thread";
        case DONE:
            return "has ended";
        default:
            return "runs";
    }
}

// Decides who runs next. The current thread may be blocked or done. Returns when the caller runs again.
void reschedule()
{
    const int me = self;
    if (++S.points > S.opt.max_points) fail("no end: more than " + std::to_string(S.opt.max_points) + " synchronisation operations in one execution");
    ++S.th[me].ops;
    if (S.c && !S.drained)
    {
        mc::Hash h;
        for (const auto &t : S.th) h.add(t.ops * 8 + t.st);
        S.c->state(h.add(me));
    }
    int opts[2 * max_threads], n = 0;
    bool spur[2 * max_threads] = {};
    const bool me_on = enabled(me);
    const bool free_switch = !me_on || S.th[me].yielding;
    S.th[me].yielding = false;
    if (me_on) opts[n++] = me;
    if (free_switch || S.preemptions > 0)
        for (int t = 0; t < (int)S.th.size(); ++t)
            if (t != me && enabled(t)) opts[n++] = t;
    if (S.spurious > 0 && (free_switch || S.preemptions > 0))
        for (int t = 0; t < (int)S.th.size(); ++t)
            if (S.th[t].st == WAIT_COND)
            {
                auto i = S.mutexes.find(S.th[t].mutex);
                if (i != S.mutexes.end() && i->second.owner >= 0) continue;
                spur[n] = true;
                opts[n++] = t;
            }
    if (!n)
    {
        // Time passes when nobody can run.
        for (int t = 0; t < (int)S.th.size(); ++t)
            if (S.th[t].st == WAIT_COND && S.th[t].timed)
            {
                auto &x = S.th[t];
                auto &w = S.conds[x.obj].waiters;
                w.erase(std::remove(w.begin(), w.end(), t), w.end());
                x.timed_out = true;
                x.st = WAIT_MUTEX;
                x.obj = x.mutex;
                if (enabled(t)) opts[n++] = t;
            }
    }
    if (!n)
    {
        bool all = true;
        for (auto &t : S.th) all = all && t.st == DONE;
        if (all)
        {
            fwake(S.over);
            return;
        }
        std::ostringstream os;
        os << "deadlock:";
        for (size_t t = 0; t < S.th.size(); ++t) os << " thread " << t << ' ' << st_name(S.th[t]) << (t + 1 < S.th.size() ? "," : "");
        fail(os.str());
    }
    const int k = choose(n);
    const int t = opts[k];
    if (me_on && t != me && !free_switch) --S.preemptions;
    if (spur[k])
    {
        --S.spurious;
        auto &x = S.th[t];
        auto &w = S.conds[x.obj].waiters;
        w.erase(std::remove(w.begin(), w.end(), t), w.end());
        x.st = WAIT_MUTEX;
        x.obj = x.mutex;
    }
    if (t == me) return;
    ++S.switches;
    if (S.c && !S.drained) S.c->log("point ", S.points, ": thread ", t, " runs (", me_on ? "preempting " : "after ", me, ")");
    S.current = t;
    Carrier *mine = S.th[me].carrier;
    const bool done = S.th[me].st == DONE;
    fwake(S.th[t].carrier->go);
    if (!done) fwait(mine->go);
}

void point()
{
    if (S.th[self].no_points) return;
    reschedule();
}

void tick() { ++S.th[self].vc[self]; }

void acquire(const void *m)
{
    while (!enabled(self) || (S.mutexes[m].owner >= 0 && S.mutexes[m].owner != self))
    {
        S.th[self].st = WAIT_MUTEX;
        S.th[self].obj = m;
        reschedule();
    }
    S.th[self].st = RUN;
    auto &x = S.mutexes[m];
    x.owner = self;
    x.depth = 1;
    join(S.th[self].vc, x.vc);
}
void release(const void *m)
{
    auto &x = S.mutexes[m];
    x.vc = S.th[self].vc;
    tick();
    x.owner = -1;
    x.depth = 0;
}

// ---- data races
std::string where(const void *pc)
{
    Dl_info i{};
    if (!dladdr(pc, &i) || !i.dli_sname) return "?";
    int st = 0;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = d ? d : i.dli_sname;
    free(d);
    if (s.size() > 160) s = s.substr(0, 157) + "...";
    return s;
}

Cell &cell(uintptr_t key)
{
    if (S.used * 2 > S.cells.size())
    {
        std::vector<Cell> old;
        old.swap(S.cells);
        S.cells.resize(old.size() * 2);
        S.used = 0;
        for (auto &c : old)
            if (c.gen == S.gen && c.n) cell(c.key) = c;
    }
    const size_t mask = S.cells.size() - 1;
    size_t i = (key * 0x9E3779B97F4A7C15ULL >> 40) & mask;
    for (;; i = (i + 1) & mask)
    {
        auto &c = S.cells[i];
        if (c.gen != S.gen)
        {
            ++S.used;
            c.gen = S.gen;
            c.key = key;
            c.n = c.next = 0;
            return c;
        }
        if (c.key == key) return c;
    }
}

void touch8(uintptr_t key, uint8_t mask, int flags, const void *pc)
{
    Cell &c = cell(key);
    auto &vc = S.th[self].vc;
    int k = 0;
    for (int i = 0; i < c.n; ++i)
    {
        const Access &a = c.a[i];
        if (a.tid != self && (a.mask & mask) && ((a.flags | flags) & 1) && !(a.flags & flags & 2) && a.clk > vc[a.tid])
            fail(
                std::string("data race: ") + (flags & 1 ? "write" : "read") + " in " + where(pc) + " by thread " + std::to_string(self) +
                " against " + (a.flags & 1 ? "write" : "read") + " in " + where(a.pc) + " by thread " + std::to_string(a.tid));
        // An access that is ordered before this one and at most as strong is not needed any more.
        const bool covered = (a.mask & ~mask) == 0 && a.clk <= vc[a.tid] && ((flags & 1) || !(a.flags & 1)) && (!(flags & 2) || (a.flags & 2));
        if (covered && (a.tid == self || (flags & 1))) continue;
        c.a[k++] = a;
    }
    c.n = k;
    Access n{vc[self], static_cast<uint8_t>(self), mask, static_cast<uint8_t>(flags), pc};
    if (c.n < 6)
        c.a[c.n++] = n;
    else
        c.a[c.next++ % 6] = n;
}
void touch(const void *p, size_t size, int flags, const void *pc)
{
    if (self < 0 || in_rt || !size) return;
    In in;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    const uintptr_t e = a + size;
    while (a < e)
    {
        const uintptr_t base = a & ~uintptr_t{7};
        const int from = a - base, to = std::min<uintptr_t>(e - base, 8);
        touch8(base >> 3, static_cast<uint8_t>((0xFF << from) & (0xFF >> (8 - to))), flags, pc);
        a = base + 8;
    }
}
void forget(const void *p, size_t size)
{
    const uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + size + 7) >> 3;
    if (e - a > 8192)
    {
        for (auto &c : S.cells)
            if (c.gen == S.gen && c.key >= a && c.key < e) c.n = 0;
    }
    else
        for (uintptr_t k = a; k < e; ++k) cell(k).n = 0;
}

// ---- carriers
void *carrier_main(void *p)
{
    auto *c = static_cast<Carrier *>(p);
    for (;;)
    {
        fwait(c->go);
        self = c->id;
        in_rt = 0;
        void *r = c->fn(c->arg);
        in_rt = 1;
        S.th[self].result = r;
        S.th[self].st = DONE;
        reschedule();
        self = -1;
    }
    return nullptr;
}
Carrier *lease(int id, void *(*fn)(void *), void *arg)
{
    Carrier *c;
    if (S.idle.empty())
    {
        c = new Carrier;
        REAL(pthread_create, nullptr);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        if (f(&c->thread, &at, carrier_main, c)) abort();
        pthread_attr_destroy(&at);
    }
    else
    {
        c = S.idle.back();
        S.idle.pop_back();
    }
    c->id = id;
    c->fn = fn;
    c->arg = arg;
    S.busy.push_back(c);
    return c;
}
int find_thread(pthread_t t)
{
    for (size_t i = 0; i < S.th.size(); ++i)
        if (S.th[i].carrier && pthread_equal(S.th[i].carrier->thread, t)) return i;
    return -1;
}

struct Root
{
    const std::function<void()> *body;
    mc::Ctx *c;
    std::string msg;
    bool bad = false;
};
void *root_main(void *p)
{
    auto *r = static_cast<Root *>(p);
    try
    {
        (*r->body)();
    }
    catch (const mc::Violation &v)
    {
        r->bad = true;
        r->msg = v.msg;
    }
    catch (const mc::Prune &)
    {
        S.stop = std::current_exception();
    }
    catch (const std::exception &e)
    {
        r->bad = true;
        r->msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    }
    catch (const abi::__forced_unwind &)
    {
        throw;
    }
    catch (...)
    {
        r->bad = true;
        r->msg = "unexpected exception";
    }
    return nullptr;
}

void once(mc::Ctx *c, const sched::Options &o, const std::function<void()> &body, bool drained)
{
    if (S.cells.empty()) S.cells.resize(1 << 15);
    S.c = c;
    S.opt = o;
    S.th.clear();
    S.th.reserve(max_threads);
    S.mutexes.clear();
    S.conds.clear();
    S.syncs.clear();
    ++S.gen;
    S.used = 0;
    S.preemptions = o.preemptions;
    S.spurious = o.spurious;
    S.points = S.switches = 0;
    S.drained = drained;
    S.failed = false;
    S.stop = nullptr;
    S.busy.clear();
    Root root{&body, c, {}, false};
    S.th.emplace_back();
    S.th[0].vc[0] = 1;
    S.th[0].carrier = lease(0, root_main, &root);
    S.current = 0;
    fwake(S.th[0].carrier->go);
    fwait(S.over);
    c->transition(S.points);
    if (S.failed)
    {
        S.c = nullptr;
        if (drained || S.stop) throw mc::Prune{};  // another worker owns this execution
        throw mc::Violation{S.msg};
    }
    for (auto *x : S.busy) S.idle.push_back(x);
    S.busy.clear();
    if (drained) return;
    if (root.bad && !S.stop) throw mc::Violation{root.msg};
    if (S.stop) std::rethrow_exception(S.stop);
}
}  // namespace

namespace sched
{
void run(mc::Ctx &c, const Options &o, const std::function<void()> &body)
{
    once(&c, o, body, false);
}
}  // namespace sched

// ---- pthread functions. Uncontrolled threads get the real ones.
#define PC __builtin_return_address(0)
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t *m)
    {
        if (self < 0)
        {
            REAL(pthread_mutex_lock, nullptr);
            return f(m);
        }
        In in;
        point();
        auto &x = S.mutexes[m];
        if (x.owner == self)
        {
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
            {
                ++x.depth;
                return 0;
            }
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
            fail("deadlock: thread " + std::to_string(self) + " locks a mutex it holds");
        }
        acquire(m);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t *m)
    {
        if (self < 0)
        {
            REAL(pthread_mutex_trylock, nullptr);
            return f(m);
        }
        In in;
        point();
        auto &x = S.mutexes[m];
        if (x.owner >= 0)
        {
            if (x.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
            {
                ++x.depth;
                return 0;
            }
            return EBUSY;
        }
        acquire(m);
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t *m)
    {
        if (self < 0)
        {
            REAL(pthread_mutex_unlock, nullptr);
            return f(m);
        }
        In in;
        auto &x = S.mutexes[m];
        if (x.owner != self) fail("thread " + std::to_string(self) + " unlocks a mutex it does not hold");
        if (--x.depth > 0) return 0;
        release(m);
        return 0;
    }
    int pthread_mutex_destroy(pthread_mutex_t *m)
    {
        if (self < 0)
        {
            REAL(pthread_mutex_destroy, nullptr);
            return f(m);
        }
        In in;
        if (S.mutexes[m].owner >= 0) fail("a locked mutex is destroyed");
        S.mutexes.erase(m);
        return 0;
    }
    static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
    {
        if (S.mutexes[m].owner != self) fail("a condition is waited for without its mutex");
        auto &t = S.th[self];
        const int depth = S.mutexes[m].depth;
        release(m);
        t.st = WAIT_COND;
        t.obj = c;
        t.mutex = m;
        t.timed = timed;
        t.timed_out = false;
        S.conds[c].waiters.push_back(self);
        reschedule();
        acquire(m);
        S.mutexes[m].depth = depth;
        return timed && t.timed_out ? ETIMEDOUT : 0;
    }
    int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
    {
        if (self < 0)
        {
            REAL(pthread_cond_wait, "GLIBC_2.3.2");
            return f(c, m);
        }
        In in;
        return cond_wait(c, m, false);
    }
    int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
    {
        if (self < 0)
        {
            REAL(pthread_cond_timedwait, "GLIBC_2.3.2");
            return f(c, m, ts);
        }
        In in;
        return cond_wait(c, m, true);
    }
    int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
    {
        if (self < 0)
        {
            REAL(pthread_cond_clockwait, nullptr);
            return f(c, m, k, ts);
        }
        In in;
        return cond_wait(c, m, true);
    }
    static void wake_one(const void *c, int k)
    {
        auto &w = S.conds[c].waiters;
        const int t = w[k];
        w.erase(w.begin() + k);
        S.th[t].st = WAIT_MUTEX;
        S.th[t].obj = S.th[t].mutex;
    }
    int pthread_cond_signal(pthread_cond_t *c)
    {
        if (self < 0)
        {
            REAL(pthread_cond_signal, "GLIBC_2.3.2");
            return f(c);
        }
        In in;
        point();
        auto &w = S.conds[c].waiters;
        if (!w.empty()) wake_one(c, choose(w.size()));
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t *c)
    {
        if (self < 0)
        {
            REAL(pthread_cond_broadcast, "GLIBC_2.3.2");
            return f(c);
        }
        In in;
        point();
        while (!S.conds[c].waiters.empty()) wake_one(c, 0);
        return 0;
    }
    int pthread_cond_destroy(pthread_cond_t *c)
    {
        if (self < 0)
        {
            REAL(pthread_cond_destroy, "GLIBC_2.3.2");
            return f(c);
        }
        In in;
        if (!S.conds[c].waiters.empty()) fail("a condition is destroyed while a thread waits for it");
        S.conds.erase(c);
        return 0;
    }
    int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
    {
        if (self < 0)
        {
            REAL(pthread_create, nullptr);
            return f(t, a, fn, arg);
        }
        In in;
        if (S.th.size() >= max_threads) fail("more threads than the scheduler supports");
        const int id = S.th.size();
        S.th.emplace_back();
        auto &x = S.th[id];
        x.vc = S.th[self].vc;
        tick();
        x.vc[id] = 1;
        x.carrier = lease(id, fn, arg);
        *t = x.carrier->thread;
        point();
        return 0;
    }
    int pthread_join(pthread_t t, void **r)
    {
        const int id = self < 0 ? -1 : find_thread(t);
        if (id < 0)
        {
            REAL(pthread_join, nullptr);
            return f(t, r);
        }
        In in;
        point();
        while (S.th[id].st != DONE)
        {
            S.th[self].st = WAIT_JOIN;
            S.th[self].target = id;
            reschedule();
        }
        S.th[self].st = RUN;
        join(S.th[self].vc, S.th[id].vc);
        if (r) *r = S.th[id].result;
        return 0;
    }
    int pthread_detach(pthread_t t)
    {
        if (self < 0 || find_thread(t) < 0)
        {
            REAL(pthread_detach, nullptr);
            return f(t);
        }
        return 0;
    }
    int sched_yield()
    {
        if (self >= 0)
        {
            In in;
            S.th[self].yielding = true;
            point();
        }
        return 0;
    }
    static int sleeping()
    {
        In in;
        S.th[self].yielding = true;
        point();
        return 0;
    }
    int nanosleep(const struct timespec *a, struct timespec *b)
    {
        if (self >= 0) return sleeping();
        return syscall(SYS_nanosleep, a, b);
    }
    int clock_nanosleep(clockid_t k, int fl, const struct timespec *a, struct timespec *b)
    {
        if (self >= 0) return sleeping();
        return syscall(SYS_clock_nanosleep, k, fl, a, b) ? errno : 0;
    }

    // ---- initialisation of statics: one thread at a time, no scheduling inside (its length differs between the first
    // and later executions)
}
namespace __cxxabiv1
{
extern "C"
{
    int __cxa_guard_acquire(__cxxabiv1::__guard *g)
    {
        auto *b = reinterpret_cast<uint8_t *>(g);
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        if (self >= 0) ++S.th[self].no_points;
        return 1;
    }
    void __cxa_guard_release(__cxxabiv1::__guard *g)
    {
        __atomic_store_n(reinterpret_cast<uint8_t *>(g), 1, __ATOMIC_RELEASE);
        if (self >= 0)
        {
            In in;
            --S.th[self].no_points;
            S.syncs[g] = S.th[self].vc;
            tick();
        }
    }
    void __cxa_guard_abort(__cxxabiv1::__guard *)
    {
        if (self >= 0) --S.th[self].no_points;
    }
}
}  // namespace __cxxabiv1
extern "C"
{
    // ---- instrumentation
    void __tsan_init() {}
    void __tsan_func_entry(void *) {}
    void __tsan_func_exit() {}
#define RW(n)                                                               \
    void __tsan_read##n(void *p) { touch(p, n, 0, PC); }                    \
    void __tsan_write##n(void *p) { touch(p, n, 1, PC); }                   \
    void __tsan_unaligned_read##n(void *p) { touch(p, n, 0, PC); }          \
    void __tsan_unaligned_write##n(void *p) { touch(p, n, 1, PC); }         \
    void __tsan_volatile_read##n(void *p) { touch(p, n, 0, PC); }           \
    void __tsan_volatile_write##n(void *p) { touch(p, n, 1, PC); }          \
    void __tsan_unaligned_volatile_read##n(void *p) { touch(p, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void *p) { touch(p, n, 1, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void *p, size_t n) { touch(p, n, 0, PC); }
    void __tsan_write_range(void *p, size_t n) { touch(p, n, 1, PC); }
    void __tsan_vptr_update(void **p, void *v)
    {
        if (*p != v) touch(p, 8, 1, PC);
    }
    void __tsan_vptr_read(void **p) { touch(p, 8, 0, PC); }

    static void before_atomic(void const volatile *)
    {
        if (self < 0 || in_rt || !S.opt.atomic_points) return;
        In in;
        point();
    }
    static void after_atomic(void const volatile *p, size_t n, bool rd, bool wr, int mo, const void *pc)
    {
        if (self < 0 || in_rt) return;
        touch(const_cast<const void *>(p), n, 2 | (wr ? 1 : 0), pc);
        In in;
        auto &s = S.syncs[const_cast<const void *>(p)];
        if (rd && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) join(S.th[self].vc, s);
        if (wr && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME)
        {
            if (rd)
                join(s, S.th[self].vc);
            else
                s = S.th[self].vc;
            tick();
        }
        else if (wr && !rd)
            s = Clock{};
    }
#define ATOMIC(bits, T)                                                                                               \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo)                                                         \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const T r = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                             \
        after_atomic(p, sizeof(T), true, false, mo, PC);                                                              \
        return r;                                                                                                     \
    }                                                                                                                 \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo)                                                      \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                     \
        after_atomic(p, sizeof(T), false, true, mo, PC);                                                              \
    }                                                                                                                 \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo)                                                      \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                      \
        after_atomic(p, sizeof(T), true, true, mo, PC);                                                               \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo)                                                     \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                       \
        after_atomic(p, sizeof(T), true, true, mo, PC);                                                               \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo)                                                     \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                       \
        after_atomic(p, sizeof(T), true, true, mo, PC);                                                               \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo)                                                     \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                       \
        after_atomic(p, sizeof(T), true, true, mo, PC);                                                               \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo)                                                      \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                        \
        after_atomic(p, sizeof(T), true, true, mo, PC);                                                               \
        return r;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo)                                                     \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                       \
        after_atomic(p, sizeof(T), true, true, mo, PC);                                                               \
        return r;                                                                                                     \
    }                                                                                                                 \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo)                     \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);               \
        after_atomic(p, sizeof(T), true, r, r ? mo : fmo, PC);                                                        \
        return r;                                                                                                     \
    }                                                                                                                 \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo)                       \
    {                                                                                                                 \
        before_atomic(p);                                                                                             \
        const bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);               \
        after_atomic(p, sizeof(T), true, r, r ? mo : fmo, PC);                                                        \
        return r;                                                                                                     \
    }
    ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
    // Fences order everything here (fewer reported races, never a false one).
    void __tsan_atomic_thread_fence(int)
    {
        if (self < 0 || in_rt) return;
        In in;
        static int fence;
        auto &s = S.syncs[&fence];
        join(S.th[self].vc, s);
        s = S.th[self].vc;
        tick();
    }
    void __tsan_atomic_signal_fence(int) {}

    // ---- block operations of instrumented code (linked with --wrap)
    void *__real_memcpy(void *, const void *, size_t);
    void *__real_memmove(void *, const void *, size_t);
    void *__real_memset(void *, int, size_t);
    void *__wrap_memcpy(void *d, const void *s, size_t n)
    {
        touch(s, n, 0, PC);
        touch(d, n, 1, PC);
        return __real_memcpy(d, s, n);
    }
    void *__wrap_memmove(void *d, const void *s, size_t n)
    {
        touch(s, n, 0, PC);
        touch(d, n, 1, PC);
        return __real_memmove(d, s, n);
    }
    void *__wrap_memset(void *d, int v, size_t n)
    {
        touch(d, n, 1, PC);
        return __real_memset(d, v, n);
    }
}

// ---- memory: freed memory forgets its accesses
static void *get(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void put(void *p, const void *pc)
{
    if (p && self >= 0 && !in_rt)
    {
        const size_t n = malloc_usable_size(p);
        if (n <= 65536) touch(p, n, 1, pc);
        In in;
        forget(p, n);
    }
    free(p);
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { put(p, PC); }
void operator delete[](void *p) noexcept { put(p, PC); }
void operator delete(void *p, size_t) noexcept { put(p, PC); }
void operator delete[](void *p, size_t) noexcept { put(p, PC); }
