// Stand-in for the thread pool of the repository: same interface, but the order in which the tasks of a round run is
// decided by the explorer. A pool may run a task at any time between post() and the end of join(), and tasks in any
// order; data races between tasks are the subject of another check (C10), which runs the real pool.
#pragma once
#include <cstddef>
#include <functional>
#include <stdexcept>
#include <vector>

namespace knp::backends::cpu_executors
{
struct StubSchedule
{
    // at_post: run the task at once; otherwise pick(n) names the next of n waiting tasks to run in join().
    static inline std::function<bool()> at_post = [] { return false; };
    static inline std::function<std::size_t(std::size_t)> pick = [](std::size_t) { return std::size_t{0}; };
    static inline std::size_t max_round = 0;
};

class ThreadPool
{
public:
    explicit ThreadPool(std::size_t) {}
    ~ThreadPool() { join(); }
    ThreadPool(const ThreadPool &) = delete;

    template <class Func, typename... Args>
    void post(Func func, Args... args)
    {
        auto task = std::bind(func, args...);
        if (StubSchedule::at_post())
            task();
        else
            tasks_.emplace_back(std::move(task));
        if (tasks_.size() > StubSchedule::max_round) StubSchedule::max_round = tasks_.size();
    }
    void join()
    {
        while (!tasks_.empty())
        {
            std::size_t i = 0;
            try
            {
                i = StubSchedule::pick(tasks_.size());
            }
            catch (...)  // the explorer abandons this execution: what the tasks refer to is about to die
            {
                tasks_.clear();
                throw;
            }
            auto task = std::move(tasks_[i]);
            tasks_.erase(tasks_.begin() + static_cast<std::ptrdiff_t>(i));
            task();
        }
    }

private:
    std::vector<std::function<void()>> tasks_;
};
}  // namespace knp::backends::cpu_executors
