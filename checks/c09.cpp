// C09: the thread pool runs every task exactly once and join waits for all of them, under every explored schedule.
#include <knp/backends/thread_pool/thread_pool.h>

#include "sched.hpp"

using knp::backends::cpu_executors::ThreadPool;

// Tasks write plain (unsynchronised) memory: any overlap or missing order is a data race the scheduler reports.
struct Tally
{
    std::vector<int> runs;
    int sum = 0;
    mc::Hash order;
};

static mc::Body rounds(int max_workers, std::vector<int> sizes, sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        const int workers = 1 + c.choose(max_workers);
        c.log(workers, " workers");
        sched::run(
            c, o,
            [&]
            {
                Tally t;
                int total = 0;
                {
                    ThreadPool pool(workers);
                    for (int n : sizes)
                    {
                        t.runs.assign(n, 0);
                        for (int i = 0; i < n; ++i) pool.post([](Tally &x, int k) { ++x.runs[k]; }, std::ref(t), i);
                        pool.join();
                        for (int i = 0; i < n; ++i) c.check(t.runs[i] == 1, "task ", i, " of ", n, " ran ", t.runs[i], " times by the end of join");
                        total += n;
                    }
                }
            });
    };
}
// The destructor waits for the posted tasks as well.
static mc::Body destruction(int max_workers, int tasks, sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        const int workers = 1 + c.choose(max_workers), n = c.choose(tasks + 1);
        c.log(workers, " workers, ", n, " tasks");
        sched::run(
            c, o,
            [&]
            {
                Tally t;
                t.runs.assign(n, 0);
                {
                    ThreadPool pool(workers);
                    for (int i = 0; i < n; ++i) pool.post([](Tally &x, int k) { ++x.runs[k]; }, std::ref(t), i);
                }
                for (int i = 0; i < n; ++i) c.check(t.runs[i] == 1, "task ", i, " of ", n, " ran ", t.runs[i], " times by the end of the destructor");
            });
    };
}
// Tasks that take a mutex of their own.
static mc::Body locking(int max_workers, int n, sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        const int workers = 1 + c.choose(max_workers);
        sched::run(
            c, o,
            [&]
            {
                Tally t;
                std::mutex m;
                ThreadPool pool(workers);
                for (int round = 1; round <= 2; ++round)
                {
                    for (int i = 0; i < n; ++i)
                        pool.post(
                            [](Tally &x, std::mutex &mm, int k)
                            {
                                const std::lock_guard l(mm);
                                x.sum += k;
                            },
                            std::ref(t), std::ref(m), 1 << i);
                    pool.join();
                    c.check(t.sum == round * ((1 << n) - 1), "the tasks of round ", round, " are not complete after join");
                }
            });
    };
}

// Tasks that wait for each other: posting must not wait for a task, and free threads must take waiting tasks.
static mc::Body rendezvous(int workers, sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        const int order = c.choose(2);
        sched::run(
            c, o,
            [&]
            {
                std::mutex m;
                std::condition_variable cv;
                int here = 0;
                ThreadPool pool(workers);
                for (int round = 1; round <= 2; ++round)
                {
                    for (int i = 0; i < 1 + workers; ++i)
                        pool.post(
                            [&, round](int k)
                            {
                                std::unique_lock l(m);
                                ++here;
                                if (order == (k == 0))
                                    cv.wait(l, [&] { return here >= round * (1 + workers); });
                                else
                                    cv.notify_all();
                                cv.notify_all();
                            },
                            i);
                    pool.join();
                    c.check(here == round * (1 + workers), "the tasks of round ", round, " are not complete after join");
                }
            });
    };
}

// Tasks that post further tasks to the pool they run in.
static mc::Body nested(int max_workers, int n, sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        const int workers = 1 + c.choose(max_workers);
        c.log(workers, " workers");
        sched::run(
            c, o,
            [&]
            {
                Tally t;
                ThreadPool pool(workers);
                for (int round = 0; round < 2; ++round)
                {
                    t.runs.assign(2 * n, 0);
                    for (int i = 0; i < n; ++i)
                        pool.post(
                            [&](int k)
                            {
                                ++t.runs[k];
                                pool.post([&](int j) { ++t.runs[j]; }, n + k);
                            },
                            i);
                    pool.join();
                    for (int i = 0; i < 2 * n; ++i) c.check(t.runs[i] == 1, i < n ? "task " : "task posted by task ", i % n, " ran ", t.runs[i], " times by the end of join");
                }
            });
    };
}
// Two threads post, one of them or a third joins.
static mc::Body posters(int n, sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        sched::run(
            c, o,
            [&]
            {
                Tally t;
                t.runs.assign(2 * n, 0);
                ThreadPool pool(1);
                auto post = [&](int from)
                {
                    for (int i = 0; i < n; ++i) pool.post([](Tally &x, int k) { ++x.runs[k]; }, std::ref(t), from + i);
                };
                std::thread other(
                    [&]
                    {
                        post(n);
                        pool.join();
                        for (int i = n; i < 2 * n; ++i) c.check(t.runs[i] == 1, "task ", i, " ran ", t.runs[i], " times by the end of join");
                    });
                post(0);
                pool.join();
                for (int i = 0; i < n; ++i) c.check(t.runs[i] == 1, "task ", i, " ran ", t.runs[i], " times by the end of join");
                other.join();
            });
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C09");
    r.explain("The real thread pool (on the real boost::asio) runs under a controlled scheduler: every interleaving of its locks, conditions and threads with a bounded number of preemptions is executed, and every memory access is checked for data races.");
    r.assume("tasks do not throw");
    const bool t = r.thorough();
    sched::Options o;
    o.preemptions = t ? 3 : 2;
    auto b = [](const sched::Options &x, const std::string &s) { return s + ", at most " + std::to_string(x.preemptions) + " preemptions and " + std::to_string(x.spurious) + " spurious wakeups"; };
    r.scenario("two rounds", rounds(2, {2, 2}, o), {3, 60, b(o, "1 to 2 workers, two rounds of two tasks")});
    r.scenario("empty and single rounds", rounds(2, {0, 1, 0}, o), {3, 60, b(o, "1 to 2 workers, rounds of 0, 1 and 0 tasks")});
    r.scenario("destruction", destruction(2, 2, o), {3, 60, b(o, "1 to 2 workers, 0 to 2 tasks")});
    r.scenario("tasks that lock", locking(2, 2, o), {3, 60, b(o, "1 to 2 workers, two rounds of two tasks")});
    r.scenario("tasks that wait for each other", rendezvous(1, o), {2, 60, b(o, "1 worker, two rounds of two tasks")});
    if (t) r.scenario("three tasks that wait for each other", rendezvous(2, o), {2, 60, b(o, "2 workers, two rounds of three tasks")});
    r.scenario("tasks that post tasks", nested(2, t ? 2 : 1, o), {3, 60, b(o, std::string("1 to 2 workers, two rounds of ") + (t ? "2 tasks that post 1 each" : "1 task that posts 1"))});
    r.scenario("two posting threads", posters(t ? 2 : 1, o), {3, 60, b(o, "1 worker, 2 threads that post and join")});
    r.scenario("more tasks", rounds(2, {5, 4}, o), {3, 60, b(o, "1 to 2 workers, rounds of 5 and 4 tasks")});
    sched::Options w = o;
    w.preemptions = 1;
    r.scenario("three workers", rounds(3, {2, 2}, w), {3, 60, b(w, "1 to 3 workers, two rounds of two tasks")});
    r.scenario("destruction, three workers", destruction(3, 2, w), {3, 60, b(w, "1 to 3 workers, 0 to 2 tasks")});
    sched::Options s = o;
    s.spurious = 1;
    s.preemptions = o.preemptions - 1;
    r.scenario("spurious wakeups", rounds(2, {2, 1}, s), {3, 60, b(s, "1 to 2 workers, rounds of 2 and 1 tasks")});
    return r.finish();
}
