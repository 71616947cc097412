// Controlled scheduler: interposes the pthread primitives the engine's threading uses, runs one thread at a time and lets
// the explorer choose at every synchronisation point. Deviations from the default schedule (a preemption, a spurious
// wake-up, a notify that wakes another waiter than the oldest) cost 1; all executions within a deviation bound are explored.
#pragma once
#include "vh.h"
#include <algorithm>
#include <cassert>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>

namespace vsched
{
enum St
{
    RUN,
    MUTEX,
    COND,
    JOIN,
    DONE
};
struct Sem
{
    std::atomic<int> v{ 0 };
    void wait()
    {
        while (true)
        {
            int x = v.load();
            if (x > 0 && v.compare_exchange_strong(x, x - 1))
                return;
            if (x == 0)
                syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        }
    }
    void post()
    {
        v++;
        syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
};
struct Thr
{
    St st = DONE;
    const void* obj = nullptr;
    void* mtx = nullptr;
    bool timed = false, timed_out = false;
    int target = -1;
    uint64_t wait_seq = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    Sem sem;
    bool os_started = false;
};
struct Pt
{
    std::vector<unsigned char> cost;
    int chosen = 0;
    int cum = 0; // cost spent before this point
};
constexpr int MAXT = 16;
inline Thr T[MAXT];
inline int nthr = 0;
inline std::atomic<bool> active{ false };
inline thread_local int self = -1;
inline std::vector<std::pair<const void*, int>> owners;
inline std::vector<Pt> log_;
inline const std::vector<int>* prefix = nullptr;
inline int spent = 0;
inline uint64_t steps = 0, seq = 0;
inline uint64_t step_limit = 200000;
inline std::string trace_note;
inline std::vector<int>* expect_n = nullptr;
inline std::string scenario;
inline bool faults = true; // spurious wake-ups and wake-ups out of order are explored too
inline bool unlock_points = false; // a thread may be preempted when it gives up a mutex

inline std::string choices()
{
    std::string s;
    for (const Pt& p : log_)
    {
        s += (s.empty() ? "" : ",");
        s += std::to_string(p.chosen);
    }
    return s;
}
// Fails the case in a state from which this process cannot continue.
[[noreturn]] inline void die(const std::string& msg)
{
    active = false;
    vh::fail("%s [schedule %s]", msg.c_str(), choices().substr(0, 1200).c_str());
    vh::abandon();
}
inline int& owner_of(const void* m)
{
    for (auto& p : owners)
        if (p.first == m)
            return p.second;
    owners.emplace_back(m, -1);
    return owners.back().second;
}
inline int choose(const std::vector<unsigned char>& cost)
{
    if (cost.size() == 1)
        return 0;
    const size_t i = log_.size();
    int c = 0;
    if (i < prefix->size())
    {
        c = (*prefix)[i];
        if (c >= (int)cost.size())
            die("replay divergence: the schedule prefix does not fit this execution");
    }
    Pt p;
    p.cost = cost;
    p.chosen = c;
    p.cum = spent;
    log_.push_back(p);
    spent += cost[c];
    return c;
}
inline bool enabled(int t)
{
    switch (T[t].st)
    {
    case RUN:
        return true;
    case MUTEX:
        return owner_of(T[t].obj) == -1;
    case JOIN:
        return T[T[t].target].st == DONE;
    default:
        return false;
    }
}
// Scheduling point of the running thread `self`, whose state says what it waits for.
inline void schedule()
{
    if (++steps > step_limit)
        die("livelock: the execution does not end");
    const int me = self;
    int next = -1;
    while (true)
    {
        std::vector<int> opt;
        std::vector<unsigned char> cost;
        const bool me_on = enabled(me);
        if (me_on)
        {
            opt.push_back(me);
            cost.push_back(0);
        }
        for (int t = 0; t < nthr; t++)
        {
            if (t != me && enabled(t))
            {
                opt.push_back(t);
                cost.push_back(me_on ? 1 : 0);
            }
        }
        if (opt.empty())
        {
            bool any = false;
            for (int t = 0; t < nthr && ! any; t++)
            {
                if (T[t].st == COND && T[t].timed)
                {
                    T[t].timed_out = true;
                    T[t].st = MUTEX;
                    T[t].obj = T[t].mtx;
                    any = true;
                }
            }
            if (any)
                continue;
            std::string w;
            for (int t = 0; t < nthr; t++)
                w += std::string(" t") + std::to_string(t) + "=" + (T[t].st == MUTEX ? "lock" : T[t].st == COND ? "wait" : T[t].st == JOIN ? "join" : T[t].st == DONE ? "ended" : "run");
            die("deadlock: no thread can run:" + w);
        }
        const size_t nrun = opt.size();
        if (! me_on && faults)
        {
            for (int t = 0; t < nthr; t++)
            {
                if (T[t].st == COND)
                {
                    opt.push_back(t);
                    cost.push_back(1);
                }
            }
        }
        const int c = choose(cost);
        if (c >= (int)nrun)
        { // spurious wake-up
            T[opt[c]].st = MUTEX;
            T[opt[c]].obj = T[opt[c]].mtx;
            continue;
        }
        next = opt[c];
        break;
    }
    if (next != me)
    {
        const bool ended = T[me].st == DONE; // read before handing over: the slot may be reused at once
        T[next].sem.post();
        if (ended)
            return;
        T[me].sem.wait();
    }
}
inline void lock(const void* m)
{
    T[self].st = MUTEX;
    T[self].obj = m;
    schedule();
    int& o = owner_of(m);
    if (o != -1)
        die("scheduler error: mutex granted while owned");
    o = self;
    T[self].st = RUN;
}
inline void unlock(const void* m)
{
    int& o = owner_of(m);
    if (o != self)
        die("a thread unlocks a mutex it does not hold");
    o = -1;
}
// Explicit scheduling point, for use in loop bodies and tasks.
inline void point()
{
    if (active && self >= 0)
        schedule();
}
inline bool on()
{
    return active.load(std::memory_order_relaxed) && self >= 0;
}
template<class F>
inline F real(const char* n)
{
    return (F)dlsym(RTLD_NEXT, n);
}
inline void* os_main(void* a)
{
    const int id = (int)(intptr_t)a;
    while (true)
    {
        T[id].sem.wait();
        self = id;
        T[id].fn(T[id].arg);
        T[id].st = DONE;
        T[id].fn = nullptr;
        schedule();
        self = -1;
    }
    return nullptr;
}
struct Outcome
{
    std::vector<Pt> log;
};
// Runs body as the main thread of one controlled execution that follows `pre` and then the default choices.
inline void execute(const std::vector<int>& pre, const std::function<void()>& body)
{
    prefix = &pre;
    log_.clear();
    owners.clear();
    spent = 0;
    steps = 0;
    nthr = 1;
    self = 0;
    T[0].st = RUN;
    active = true;
    body();
    for (int t = 1; t < nthr; t++)
    {
        if (T[t].st != DONE)
            die("a worker thread is still alive after its pool was disposed of");
    }
    active = false;
    self = -1;
}
// All executions of body with at most `bound` deviations. check() is called after each. Returns the number of executions.
inline uint64_t explore(int bound, uint64_t max_exec, const std::function<void()>& body, const std::function<bool()>& check, bool* capped)
{
    uint64_t n = 0;
    std::vector<std::vector<int>> stack{ {} };
    while (! stack.empty())
    {
        std::vector<int> pre = std::move(stack.back());
        stack.pop_back();
        execute(pre, body);
        n++;
        const std::vector<Pt> lg = log_;
        std::vector<int> ch;
        for (const Pt& p : lg)
            ch.push_back(p.chosen);
        if (ch.size() < pre.size())
            die("replay divergence: execution shorter than its prefix");
        vh::trans(steps);
        vh::state(vh::mix(vh::hash(scenario), vh::hash(ch.data(), ch.size() * sizeof(int))));
        if (! check())
        {
            // same schedule twice must give the same result before it is believed
            execute(ch, body);
            if (check())
                die("divergence: the failing schedule passed on replay");
            return n;
        }
        if (n >= max_exec)
        {
            *capped = ! stack.empty();
            return n;
        }
        for (size_t i = lg.size(); i-- > pre.size();)
        {
            for (int alt = (int)lg[i].cost.size() - 1; alt > 0; alt--)
            {
                if (lg[i].cum + lg[i].cost[alt] > bound)
                    continue;
                std::vector<int> np(ch.begin(), ch.begin() + i);
                np.push_back(alt);
                stack.push_back(std::move(np));
            }
        }
    }
    return n;
}
} // namespace vsched

extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        static auto f = vsched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        if (! vsched::on())
            return f(m);
        vsched::lock(m);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        static auto f = vsched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        if (! vsched::on())
            return f(m);
        vsched::schedule();
        int& o = vsched::owner_of(m);
        if (o != -1)
            return EBUSY;
        o = vsched::self;
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        static auto f = vsched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
        if (! vsched::on())
            return f(m);
        vsched::unlock(m);
        if (vsched::unlock_points)
            vsched::schedule();
        return 0;
    }
    static int vs_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
    {
        using namespace vsched;
        unlock(m);
        Thr& t = T[self];
        t.st = COND;
        t.obj = c;
        t.mtx = m;
        t.timed = timed;
        t.timed_out = false;
        t.wait_seq = ++seq;
        schedule();
        int& o = owner_of(m);
        if (o != -1)
            die("scheduler error: mutex granted while owned");
        o = self;
        t.st = RUN;
        return t.timed_out ? ETIMEDOUT : 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        static auto f = vsched::real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
        if (! vsched::on())
            return f(c, m);
        return vs_wait(c, m, false);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
    {
        static auto f = vsched::real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
        if (! vsched::on())
            return f(c, m, ts);
        return vs_wait(c, m, true);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
    {
        static auto f = vsched::real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
        if (! vsched::on())
            return f(c, m, k, ts);
        return vs_wait(c, m, true);
    }
    static void vs_wake(int t)
    {
        vsched::T[t].st = vsched::MUTEX;
        vsched::T[t].obj = vsched::T[t].mtx;
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        static auto f = vsched::real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
        if (! vsched::on())
            return f(c);
        using namespace vsched;
        schedule();
        std::vector<int> w;
        for (int t = 0; t < nthr; t++)
            if (T[t].st == COND && T[t].obj == c)
                w.push_back(t);
        if (w.empty())
            return 0;
        std::sort(w.begin(), w.end(), [](int a, int b) { return T[a].wait_seq < T[b].wait_seq; });
        std::vector<unsigned char> cost(w.size(), 1);
        cost[0] = 0;
        vs_wake(w[faults ? choose(cost) : 0]);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        static auto f = vsched::real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
        if (! vsched::on())
            return f(c);
        using namespace vsched;
        schedule();
        for (int t = 0; t < nthr; t++)
            if (T[t].st == COND && T[t].obj == c)
                vs_wake(t);
        return 0;
    }
    int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
    {
        static auto f = vsched::real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        if (! vsched::on())
            return f(th, a, fn, arg);
        using namespace vsched;
        const int id = nthr;
        if (id >= MAXT)
            die("too many threads");
        T[id].fn = fn;
        T[id].arg = arg;
        T[id].st = RUN;
        nthr++;
        if (! T[id].os_started)
        {
            T[id].os_started = true;
            pthread_t os;
            f(&os, nullptr, os_main, (void*)(intptr_t)id);
        }
        *th = (pthread_t)(0x1000 + id);
        schedule();
        return 0;
    }
    int pthread_join(pthread_t th, void** rv)
    {
        static auto f = vsched::real<int (*)(pthread_t, void**)>("pthread_join");
        if (! vsched::on())
            return f(th, rv);
        using namespace vsched;
        T[self].st = JOIN;
        T[self].target = (int)((uintptr_t)th - 0x1000);
        schedule();
        T[self].st = RUN;
        return 0;
    }
    int pthread_detach(pthread_t th)
    {
        static auto f = vsched::real<int (*)(pthread_t)>("pthread_detach");
        if (! vsched::on())
            return f(th);
        return 0;
    }
}
