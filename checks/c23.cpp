// C23: runs of a backend, step by step, under all behaviours of its predicates; selection of devices.
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>

#include "util.hpp"

namespace kc = knp::core;

struct TestDevice : kc::Device
{
    explicit TestDevice(const kc::UID &u) { base_.uid_ = u; }
    kc::DeviceType get_type() const override { return kc::DeviceType::CPU; }
    const std::string get_name() const override { return "test"; }
    float get_power() const override { return 0; }
};

// The parts of a backend that derived classes provide.
struct TestBackend : kc::Backend
{
    std::function<void()> on_init, on_step;
    std::vector<kc::UID> devices;

    bool plasticity_supported() const override { return true; }
    std::vector<std::string> get_supported_neurons() const override { return {}; }
    std::vector<std::string> get_supported_synapses() const override { return {}; }
    std::vector<size_t> get_supported_population_indexes() const override { return {}; }
    std::vector<size_t> get_supported_projection_indexes() const override { return {}; }
    void load_all_projections(const std::vector<kc::AllProjectionsVariant> &) override {}
    void load_all_populations(const std::vector<kc::AllPopulationsVariant> &) override {}
    void remove_projections(const std::vector<kc::UID> &) override {}
    void remove_populations(const std::vector<kc::UID> &) override {}
    std::vector<std::unique_ptr<kc::Device>> get_devices() const override
    {
        std::vector<std::unique_ptr<kc::Device>> r;
        for (auto &u : devices) r.push_back(std::make_unique<TestDevice>(u));
        return r;
    }
    void stop_learning() override {}
    void start_learning() override {}
    DataRanges get_network_data() const override { return {}; }
    void _init() override { on_init(); }
    void _step() override
    {
        on_step();
        gad_step();
    }
};

struct Stop
{
};

// Who may be called next, given the calls so far.
enum Phase { IDLE, PRE, STEP, POST, ENDED };

static mc::Body runs(int depth, int max_steps)
{
    return [=](mc::Ctx &c)
    {
        TestBackend b;
        Phase phase = IDLE;
        bool initialised = false, pre = false, post = false, stopped = false, expect_init = false;
        uint64_t step = 0;
        int steps = 0;
        auto behave = [&](const char *who, bool predicate)
        {
            // The run ends somehow after a bounded number of steps.
            const bool last = steps >= max_steps;
            const int n = predicate ? 4 : 3, k = last ? 1 + c.choose(n - 1) : c.choose(n);
            static const char *const did[] = {" goes on", " stops the backend", " throws", " ends the run"};
            c.log("  ", who, " of step ", step, did[k]);
            if (k == 1)
            {
                b.stop();
                c.check(!b.running(), "running after stop");
                stopped = true;
            }
            if (k == 2)
            {
                phase = ENDED;
                throw Stop{};
            }
            if (k == 3) phase = ENDED;
            return k != 3;
        };
        b.on_init = [&]
        {
            c.check(expect_init, "initialised without need");
            expect_init = false;
            initialised = true;
        };
        auto before = [&](kc::Step s)
        {
            c.check(phase == PRE, "the predicate before a step was called at a wrong moment");
            c.check(!expect_init, "not initialised before the run");
            c.check(b.running(), "not running before a step");
            c.check(s == step, "the predicate before step ", step, " got step ", s);
            phase = STEP;
            return behave("predicate before", true);
        };
        auto after = [&](kc::Step s)
        {
            c.check(phase == POST, "the predicate after a step was called at a wrong moment");
            c.check(s == step || s + 1 == step, "the predicate after step ", step - 1, " got step ", s);
            c.check(b.running() || stopped, "not running after a step");
            phase = stopped ? ENDED : pre ? PRE : STEP;
            return behave("predicate after", true);
        };
        b.on_step = [&]
        {
            c.check(phase == STEP, "a step was made at a wrong moment");
            c.check(!expect_init, "not initialised before the first step");
            c.check(b.get_step() == step, "step number ", b.get_step(), " instead of ", step);
            ++steps;
            c.transition();
            const uint64_t done = step + 1;
            behave("step", false);
            step = done;
            phase = post ? POST : stopped ? ENDED : pre ? PRE : STEP;
        };
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(8);
            steps = 0;
            stopped = false;
            if (k <= 4)
            {
                static const char *const how[] = {"start()", "start(predicate)", "start(before, after)", "start(none, after)", "start(before, none)"};
                c.log(how[k]);
                pre = k == 1 || k == 2 || k == 4;
                post = k == 2 || k == 3;
                phase = pre ? PRE : STEP;
                expect_init = !initialised;
                bool threw = false;
                try
                {
                    if (k == 0) b.start();
                    if (k == 1) b.start(before);
                    if (k == 2) b.start(before, after);
                    if (k == 3) b.start({}, after);
                    if (k == 4) b.start(before, {});
                }
                catch (Stop &)
                {
                    threw = true;
                }
                c.check(phase == ENDED || stopped, "the run ended by itself after step ", step);
                c.check(phase != POST, "the predicate after step ", step - 1, " was not called");
                c.check(!b.running(), "running after the end of the run", threw ? " by an exception" : "");
                c.check(!expect_init, "not initialised by the run");
            }
            else if (k == 5)
            {
                c.log("_step()");
                pre = post = false;
                phase = STEP;
                try
                {
                    b._step();
                }
                catch (Stop &)
                {
                }
                c.check(!b.running(), "running after a single step");
            }
            else if (k == 6)
            {
                c.log("stop()");
                b.stop();
                c.check(!b.running(), "running after stop");
            }
            else
            {
                c.log("_uninit()");
                b._uninit();
                initialised = false;
                c.check(!b.running(), "running after _uninit");
            }
            c.check(b.get_step() == step, "step number ", b.get_step(), " instead of ", step);
        }
        c.state(mc::Hash().add(step).add(initialised));
    };
}

template <class B>
static mc::Body real_runs(int depth)
{
    return [=](mc::Ctx &c)
    {
        B b;
        uint64_t step = 0;
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(4), n = c.choose(3);
            c.log("run ", k, " of ", n, " steps");
            c.transition(n);
            const uint64_t end = step + n;
            uint64_t calls = step;
            auto before = [&](kc::Step s)
            {
                c.check(b.running() && s == calls++, "the predicate got step ", s);
                return s < end;
            };
            if (k == 0) b.start(before);
            if (k == 1) b.start(before, {});
            if (k == 2) b.start(before, [&](kc::Step) { return true; });
            if (k == 3)
                for (int i = 0; i < n; ++i) static_cast<kc::Backend &>(b)._step(), ++calls;
            step = end;
            c.check(calls == end + (k < 3), "the predicate was called ", calls - (end - n), " times");
            c.check(!b.running(), "running after the end of the run");
            c.check(b.get_step() == step, "step number ", b.get_step(), " instead of ", step);
        }
    };
}

static std::multiset<std::string> current(kc::Backend &b)
{
    std::multiset<std::string> r;
    for (auto &d : b.get_current_devices()) r.insert(std::string(d->get_uid()));
    return r;
}

static mc::Body selection(int devices, int depth)
{
    return [=](mc::Ctx &c)
    {
        TestBackend b;
        for (int i = 0; i < devices; ++i) b.devices.push_back(mkuid(1 + i));
        std::multiset<std::string> ref;
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose((2 << devices) + devices);
            c.transition();
            if (k < (2 << devices))
            {
                std::set<kc::UID> want;
                std::multiset<std::string> names;
                for (int i = 0; i <= devices; ++i)
                    if (k >> i & 1) want.insert(mkuid(1 + i)), names.insert(std::string(mkuid(1 + i)));
                const bool missing = k >> devices & 1;
                c.log("select devices mask ", k, missing ? " (one of them does not exist)" : "");
                bool threw = false;
                try
                {
                    b.select_devices(want);
                }
                catch (std::exception &)
                {
                    threw = true;
                }
                c.check(threw == missing, threw ? "selecting existing devices was refused" : "selecting a missing device was not refused");
                if (!missing) ref = names;
            }
            else
            {
                const auto u = mkuid(1 + k - (2 << devices));
                c.log("select device ", 1 + k - (2 << devices));
                b.select_device(std::make_unique<TestDevice>(u));
                ref = {std::string(u)};
            }
            c.check(current(b) == ref, current(b).size(), " devices are selected instead of ", ref.size());
        }
    };
}

template <class B>
static void real_devices(mc::Ctx &c)
{
    B b;
    std::set<kc::UID> all;
    std::multiset<std::string> names;
    for (auto &d : b.get_devices()) all.insert(d->get_uid()), names.insert(std::string(d->get_uid()));
    c.check(!all.empty() && all.size() == names.size(), "the devices have no different identifiers");
    std::multiset<std::string> again;
    for (auto &d : B().get_devices()) again.insert(std::string(d->get_uid()));
    c.check(again == names, "a device has another identifier when it is listed again");
    const int times = 1 + c.choose(2);
    for (int i = 0; i < times; ++i)
    {
        c.log("select all devices");
        try
        {
            b.select_devices(all);
        }
        catch (std::exception &e)
        {
            c.check(false, "selecting the listed devices: ", e.what());
        }
        c.check(current(b) == names, "not all listed devices are selected");
    }
    for (auto &d : b.get_current_devices()) c.check(!d->get_name().empty() && d->get_power() >= 0, "device properties");
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C23");
    r.explain("Every execution is a sequence of runs of a backend; at each call of a predicate or step the explorer decides whether it goes on, stops the backend, throws or ends the run. The order and arguments of all calls, the running state and the step counter are checked.");
    r.assume("runs are not nested and start from one thread");
    const bool t = r.thorough();
    using ST = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
    using MT = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;
    r.scenario("runs", runs(t ? 5 : 4, 1), {5, 30, std::string(t ? "5" : "4") + " operations out of 8, runs of up to 2 steps, every behaviour of predicates and steps"});
    r.scenario("longer runs", runs(3, t ? 3 : 2), {5, 30, t ? "3 operations, runs of up to 4 steps" : "3 operations, runs of up to 3 steps"});
    r.scenario("single-threaded backend", real_runs<ST>(4), {3, 30, "4 runs in 4 ways with 0 to 2 steps"});
    r.scenario("multi-threaded backend", real_runs<MT>(t ? 3 : 2), {3, 30, "runs in 4 ways with 0 to 2 steps"});
    r.scenario("device selection", selection(3, t ? 3 : 2), {2, 30, "3 devices, all sets with and without a missing one, repeated selection"});
    r.scenario("devices of the single-threaded backend", real_devices<ST>, {1, 30, "all devices of this computer"});
    r.scenario("devices of the multi-threaded backend", real_devices<MT>, {1, 30, "all devices of this computer"});
    return r.finish();
}
