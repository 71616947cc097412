// C01/C02/C03: the engine's own thread pool, parallel loop and ordered pipeline, under every schedule within the deviation bound.
#ifndef FREE
#include "vsched.h"
#else
#include "vh.h" // the same bodies, free-running under ThreadSanitizer
#include <algorithm>
namespace vsched
{
inline uint64_t step_limit;
inline void point()
{
}
} // namespace vsched
#endif
#include "utils/ThreadPool.h"
#include <memory>
#include <optional>
#include <sstream>

using namespace cura;
using vsched::point;
#ifdef FREE
#define SWEEP(x) 12
#else
#define SWEEP(x) (x)
#endif

extern "C" const char* __asan_default_options()
{
    return "detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0";
}

namespace
{
struct Ctr // bookkeeping that must not itself order the threads
{
    std::atomic<long> v{ 0 };
    operator long() const
    {
        return v.load(std::memory_order_relaxed);
    }
    long operator++(int)
    {
        return v.fetch_add(1, std::memory_order_relaxed);
    }
    long operator--(int)
    {
        return v.fetch_sub(1, std::memory_order_relaxed);
    }
};
std::string err; // first violation of the current execution
void bad(const std::string& m)
{
    if (err.empty())
        err = m;
}
std::string S(const char* f, long a = 0, long b = 0, long c = 0)
{
    char t[200];
    snprintf(t, 200, f, a, b, c);
    return t;
}
#ifdef FREE
void all_schedules(int, uint64_t cap, const std::function<void()>& run)
{
    for (int i = 0; i < (cap == 1 ? 1 : 25); i++)
    {
        err.clear();
        run();
        vh::trans();
        if (! err.empty())
        {
            vh::fail("%s", err.c_str());
            return;
        }
    }
}
#else
// Runs `run` for every schedule with at most `bound` deviations
void all_schedules(int bound, uint64_t cap, const std::function<void()>& run)
{
    uint64_t total = 0;
    bool capped = false;
    vsched::scenario = vh::g.key;
    std::string sched;
    for (int b = 0; b <= bound; b++)
    {
        capped = false;
        total = vsched::explore(
            b, cap,
            [&]
            {
                err.clear();
                run();
            },
            [&]
            {
                vh::outcome(vh::hash(err + std::to_string(vsched::log_.size()), vh::hash(vh::g.key)));
                if (! err.empty())
                    sched = vsched::choices();
                return err.empty();
            },
            &capped);
        if (! sched.empty() || ! err.empty())
        {
            vh::fail("%s [deviation bound %d, schedule %s]", err.c_str(), b, sched.substr(0, 1000).c_str());
            return;
        }
        if (capped)
        {
            vh::note("scenarios_capped_at_bound_" + std::to_string(b));
            break;
        }
    }
    vh::note("executions_at_final_bound", total);
    vh::g.validated += total;
}
#endif
struct Pool
{
    explicit Pool(size_t n)
    {
        Application::getInstance().thread_pool_ = new ThreadPool(n);
    }
    ~Pool()
    {
        ThreadPool* p = Application::getInstance().thread_pool_;
        delete p;
        Application::getInstance().thread_pool_ = nullptr;
    }
};

// ---------------------------------------------------------------- C01
struct Loop
{
    std::vector<int> count;
    Ctr running;
    bool returned = false;
    explicit Loop(size_t n)
        : count(n, 0)
    {
    }
    void enter(long i)
    {
        if (returned)
            bad(S("the loop body runs for element %ld after the loop returned", i));
        if (i < 0 || i >= (long)count.size())
        {
            bad(S("the loop body is called for %ld, outside the range of %ld elements", i, count.size()));
            return;
        }
        running++;
        count[i]++;
    }
    void leave()
    {
        running--;
    }
    void end()
    {
        returned = true;
        if (running)
            bad(S("the loop returned while %ld applications were still running", running));
        for (size_t i = 0; i < count.size(); i++)
            if (count[i] != 1)
                bad(S("element %ld was processed %ld times by the time the loop returned", i, count[i]));
    }
};
void run_loop(int kind, long n, size_t csf, size_t cpw, bool points, const std::function<void(long)>& inner = {})
{
    auto L = std::make_shared<Loop>(std::max(n, 0L));
    auto body = [&, L](long i)
    {
        L->enter(i);
        if (points)
            point();
        if (inner)
            inner(i);
        L->leave();
    };
    switch (kind)
    {
    case 0: // unsigned indices
        parallel_for<size_t>(0, n, [&](size_t i) { body((long)i); }, csf, cpw);
        break;
    case 1: // signed indices starting below zero
        parallel_for<long long>(-3, n - 3, [&](long long i) { body((long)i + 3); }, csf, cpw);
        break;
    case 2: // iterators
    {
        std::vector<long> v(n);
        for (long i = 0; i < n; i++)
            v[i] = i;
        parallel_for(v, [&](auto it) { body(it - v.begin() == *it ? *it : -1); }, csf, cpw);
        break;
    }
    case 3: // small index type
        parallel_for<int>(1000, 1000 + n, [&](int i) { body(i - 1000); }, csf, cpw);
        break;
    }
    L->end();
}
void c01()
{
    const bool T = vh::thorough();
    // chunk arithmetic: every size and chunking, default schedule
    const long maxn = SWEEP(T ? 400 : 130);
    for (int w = 0; w <= 4; w++)
        for (int kind = 0; kind < 4; kind++)
            for (size_t csf : { 0, 1, 2, 3, 4, 5, 7, 8, 16, 64 })
                for (size_t cpw = 1; cpw <= (T ? 9u : 4u); cpw++)
                {
                    if (! vh::begin("sweep workers=%d kind=%d chunk_factor=%zu chunks_per_worker=%zu n<=%ld", w, kind, csf, cpw, maxn))
                        continue;
                    all_schedules(0, 1,
                                  [&]
                                  {
                                      vsched::step_limit = 10000000;
                                      Pool p(w);
                                      for (long n = kind == 2 ? 0 : -2; n <= maxn && err.empty(); n++)
                                      {
                                          run_loop(kind, n, csf, cpw, false);
                                          if (! err.empty())
                                              err += S(" (n=%ld)", n);
                                      }
                                  });
                }
    vsched::step_limit = 100000;
    const uint64_t cap = T ? 400000 : 30000;
    // all schedules, flat loops
    struct F
    {
        int w;
        long n;
        size_t csf, cpw;
        int kind, bound;
    };
    std::vector<F> fs;
    for (int w = 0; w <= 3; w++)
        for (long n = 0; n <= (w <= 2 ? 5 : 4); n++)
            for (size_t cpw = 1; cpw <= 2; cpw++)
                for (size_t csf = 1; csf <= 2; csf++)
                    fs.push_back({ w, n, csf, cpw, (int)((n + w) % 4), w <= 1 ? 4 : (w == 2 ? 3 : 2) });
    for (const F& f : fs)
    {
        const int bound = f.bound + (T ? 1 : 0);
        if (vh::begin("flat workers=%d n=%ld chunk_factor=%zu chunks_per_worker=%zu kind=%d bound=%d", f.w, f.n, f.csf, f.cpw, f.kind, bound))
            all_schedules(bound, cap,
                          [&]
                          {
                              Pool p(f.w);
                              run_loop(f.kind, f.n, f.csf, f.cpw, true);
                          });
        // two loops in sequence on one pool
        if (f.n >= 1 && f.n <= 3 && vh::begin("twice workers=%d n=%ld chunk_factor=%zu chunks_per_worker=%zu bound=%d", f.w, f.n, f.csf, f.cpw, bound - 1))
            all_schedules(bound - 1, cap,
                          [&]
                          {
                              Pool p(f.w);
                              run_loop(0, f.n, f.csf, f.cpw, true);
                              run_loop(0, 2, 1, 8, true);
                          });
    }
    // nested loops: an application runs a loop of its own
    for (int w = 0; w <= 2; w++)
        for (long n = 1; n <= 3; n++)
            for (long m = 1; m <= 2; m++)
                for (size_t cpw : { 1, 2 })
                {
                    const int bound = (w == 1 ? 3 : 2) + (T ? 1 : 0);
                    if (vh::begin("nested workers=%d outer=%ld inner=%ld chunks_per_worker=%zu bound=%d", w, n, m, cpw, bound))
                        all_schedules(bound, cap,
                                      [&]
                                      {
                                          Pool p(w);
                                          run_loop(0, n, 1, cpw, false, [&](long) { run_loop(0, m, 1, cpw, true); });
                                      });
                }
}

// ---------------------------------------------------------------- C02
struct Pipe
{
    std::vector<int> produced, consumed;
    long first, next;
    long n, cap;
    int consuming = 0;
    Ctr producing, started, done;
    bool returned = false;
    Pipe(long first, long n, long cap)
        : produced(n, 0)
        , consumed(n, 0)
        , first(first)
        , next(first)
        , n(n)
        , cap(cap)
    {
    }
};
struct ProducerFn
{
    std::shared_ptr<Pipe> P;
    std::shared_ptr<int> canary = std::make_shared<int>(1); // lives as long as the pipeline's own state
    std::optional<long> operator()(ptrdiff_t i) const
    {
        Pipe& p = *P;
        if (p.returned)
            bad(S("item %ld is produced after the call returned", i));
        if (i < p.first || i >= p.first + p.n)
        {
            bad(S("item %ld outside the range is produced", i));
            return i;
        }
        p.produced[i - p.first]++;
        p.started++;
        p.producing++;
        if (p.started - p.done > p.cap) // never more than the buffer's own count
            bad(S("%ld items are outstanding, the buffer holds %ld", p.started - p.done, p.cap));
        point();
        p.producing--;
        return i;
    }
};
struct ConsumerFn
{
    std::shared_ptr<Pipe> P;
    void operator()(std::optional<long> v) const
    {
        Pipe& p = *P;
        if (p.returned)
            bad("an item is consumed after the call returned");
        if (! v)
        {
            bad("an empty item is consumed");
            return;
        }
        if (p.consuming++)
            bad(S("item %ld is consumed while another one is being consumed", *v));
        if (*v != p.next)
            bad(S("item %ld is consumed when %ld is next", *v, p.next));
        p.next = *v + 1;
        if (*v >= p.first && *v < p.first + p.n)
            p.consumed[*v - p.first]++;
        point();
        p.done++;
        p.consuming--;
    }
};
void run_pipe(long first, long n, long cap, bool via_api, size_t workers)
{
    auto P = std::make_shared<Pipe>(first, std::max(n, 0L), cap);
    if (via_api)
    {
        P->cap = cap * (long)(workers + 1);
        run_multiple_producers_ordered_consumer(first, first + n, ProducerFn{ P }, ConsumerFn{ P }, (size_t)cap);
    }
    else
    {
        auto m = std::make_unique<MultipleProducersOrderedConsumer<ProducerFn, ConsumerFn>>(first, first + n, ProducerFn{ P }, ConsumerFn{ P }, (size_t)cap);
        m->run(*Application::getInstance().thread_pool_);
    }
    P->returned = true;
    if (P->consuming || P->producing)
        bad("the call returned while an item was still being produced or consumed");
    for (long i = 0; i < P->n; i++)
    {
        if (P->produced[i] != 1)
            bad(S("item %ld was produced %ld times by the time the call returned", i + first, P->produced[i]));
        if (P->consumed[i] != 1)
            bad(S("item %ld was consumed %ld times by the time the call returned", i + first, P->consumed[i]));
    }
}
void c02()
{
    const bool T = vh::thorough();
    vsched::step_limit = 200000;
    const uint64_t cap = T ? 300000 : 25000;
    for (int w = 0; w <= 3; w++)
        for (long c = 1; c <= 3; c++)
            for (long n = 0; n <= (w <= 1 ? 6 : w == 2 ? 5 : 4); n++)
                for (long first : { 0L, -2L })
                {
                    if (first && n != 3)
                        continue;
                    const int bound = (w <= 1 ? 4 : w == 2 ? 3 : 2) + (T ? 1 : 0);
                    if (vh::begin("pipe workers=%d items=%ld first=%ld buffer=%ld bound=%d", w, n, first, c, bound))
                        all_schedules(bound, cap,
                                      [&]
                                      {
                                          Pool p(w);
                                          run_pipe(first, n, c, false, w);
                                      });
                }
    for (int w = 0; w <= 2; w++)
        for (long n : { 1L, 3L })
        {
            // back to back, through the public entry point, and a loop afterwards on the same pool
            if (vh::begin("pipe-twice workers=%d items=%ld buffer=1 bound=2", w, n))
                all_schedules(2, cap,
                              [&]
                              {
                                  Pool p(w);
                                  run_pipe(0, n, 1, true, w);
                                  run_pipe(-1, n, 1, true, w);
                              });
            if (vh::begin("pipe-then-loop workers=%d items=%ld buffer=1 bound=2", w, n))
                all_schedules(2, cap,
                              [&]
                              {
                                  Pool p(w);
                                  run_pipe(0, n, 2, true, w);
                                  run_loop(0, 2, 1, 8, true);
                              });
        }
    // index arithmetic: every start index, count and buffer size, default schedule
    for (int w = 0; w <= 3; w++)
        for (long c = 1; c <= (T ? 20 : 9); c++)
        {
            if (! vh::begin("pipe-sweep workers=%d buffer=%ld first=-40..5 items=0..40", w, c))
                continue;
            all_schedules(0, 1,
                          [&]
                          {
                              vsched::step_limit = 10000000;
                              Pool p(w);
                              for (long first = SWEEP(-40) == 12 ? -12 : -40; first <= 5; first++)
                                  for (long n = -1; n <= 40 && err.empty(); n += (n < 12 ? 1 : 7))
                                  {
                                      run_pipe(first, n, c, false, w);
                                      if (! err.empty())
                                          err += S(" (first=%ld items=%ld)", first, n);
                                  }
                          });
            vsched::step_limit = 200000;
        }
}

// ---------------------------------------------------------------- C03
struct Tasks
{
    std::vector<int> runs;
    std::vector<int> order; // start order
    int pushed = 0;
};
void c03()
{
    const bool T = vh::thorough();
    vsched::step_limit = 200000;
    const uint64_t cap = T ? 300000 : 25000;
    // script: how many tasks are queued; which of them queue another task while running; whether the owner helps before disposing
    for (int w = 0; w <= 3; w++)
        for (int k = 0; k <= (w <= 2 ? 4 : 3); k++)
            for (int child = 0; child <= 3; child++) // 0 none, 1 first task, 2 last task, 3 all tasks
                for (int help = 0; help <= 2; help++) // 0: dispose at once, 1: help until the queue is empty, 2: give up the lock between pushes
                    for (int held = 0; held <= 1; held++) // tasks that keep the queue locked
                    {
                        if (child && (k == 0 || (k == 1 && child > 1)))
                            continue;
                        const int bound = (w <= 1 ? 4 : w == 2 ? 3 : 2) + (T ? 1 : 0) - (child == 3 ? 1 : 0);
                        if (! vh::begin("pool workers=%d tasks=%d children=%d help=%d held=%d bound=%d", w, k, child, help, held, bound))
                            continue;
                        all_schedules(bound, cap,
                                      [&]
                                      {
                                          auto st = std::make_shared<Tasks>();
                                          st->runs.reserve(64);
                                          {
                                              std::function<void(ThreadPool::lock_t&, bool)> push; // outlives the pool, as tasks use it
                                              ThreadPool pool(w);
                                              push = [&](ThreadPool::lock_t& l, bool spawn)
                                              {
                                                  const int id = st->pushed++;
                                                  st->runs.push_back(0);
                                                  pool.push(l,
                                                            [&, st, id, spawn](ThreadPool::lock_t& tl)
                                                            {
                                                                st->runs[id]++;
                                                                st->order.push_back(id);
                                                                if (! tl.owns_lock())
                                                                    bad("a task is started without the queue's lock");
                                                                if (! held)
                                                                {
                                                                    tl.unlock();
                                                                    point();
                                                                    tl.lock();
                                                                }
                                                                if (spawn)
                                                                    push(tl, false);
                                                            });
                                              };
                                              {
                                                  auto l = pool.get_lock();
                                                  for (int i = 0; i < k; i++)
                                                  {
                                                      push(l, child == 3 || (child == 1 && i == 0) || (child == 2 && i == k - 1));
                                                      if (help == 2)
                                                      {
                                                          l.unlock();
                                                          l.lock();
                                                      }
                                                  }
                                                  if (help == 1)
                                                      pool.work_while(l, [] { return true; });
                                              }
                                              if (pool.thread_count() != (size_t)w)
                                                  bad("the pool does not have the requested number of threads");
                                          }
                                          for (int i = 0; i < st->pushed; i++)
                                              if (st->runs[i] != 1)
                                                  bad(S("task %ld of %ld ran %ld times", i, st->pushed, st->runs[i]));
                                          for (size_t i = 0; i < st->order.size(); i++)
                                              if (st->order[i] != (int)i)
                                                  bad(S("task %ld was started in place of task %ld", st->order[i], i));
                                      });
                    }
}
} // namespace

int main(int argc, char** argv)
{
    Application::getInstance();
    std::string what = CHECK;
    return vh::main_(argc, argv, [&] { what == "C01" ? c01() : what == "C02" ? c02() : c03(); });
}
