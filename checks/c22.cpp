// C22: a model executor runs a model step by step, with inputs, outputs, handlers and observers.
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/framework/message_handlers.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/projection/wta.h>

#include "netref.hpp"

namespace fw = knp::framework;
using namespace ref;
using Delta_ = sy::DeltaSynapse;
using ST = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using MT = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;
using Neuron = nt::BLIFATNeuron;

static Syn<Delta_> link(uint32_t from, uint32_t to, float w, uint32_t delay)
{
    Syn<Delta_> s{};
    s.p.weight_ = w;
    s.p.delay_ = delay;
    s.p.output_type_ = sy::OutputType::EXCITATORY;
    s.from = from;
    s.to = to;
    return s;
}
// Fires exactly when it gets an impact.
static Pop<Neuron> relays(unsigned no, int n)
{
    Pop<Neuron> p{mkuid(no), {}};
    for (int i = 0; i < n; ++i)
    {
        nt::neuron_parameters<Neuron> x{};
        x.activation_threshold_ = 1;
        x.potential_decay_ = 0;
        x.absolute_refractory_period_ = 0;
        p.n.push_back(x);
    }
    return p;
}

struct Seen
{
    kc::UID from;
    uint64_t time;
    std::vector<uint32_t> idx;
    bool operator<(const Seen &o) const { return std::tie(time, from, idx) < std::tie(o.time, o.from, o.idx); }
    bool operator==(const Seen &o) const { return time == o.time && from == o.from && idx == o.idx; }
};
static std::string name(const std::vector<Seen> &v)
{
    std::ostringstream os;
    for (auto &m : v) os << '(' << uid_no(m.from) << '@' << m.time << ' ' << show(m.idx) << ')';
    return os.str();
}
static std::vector<Seen> seen(const std::vector<km::SpikeMessage> &v)
{
    std::vector<Seen> r;
    for (auto &m : v)
    {
        auto d = m.neuron_indexes_;
        std::sort(d.begin(), d.end());
        r.push_back({m.header_.sender_uid_, m.header_.send_time_, d});
    }
    std::sort(r.begin(), r.end());
    return r;
}
static std::vector<Seen> seen(const std::vector<SpikeMsg> &v, std::initializer_list<unsigned> from)
{
    std::vector<Seen> r;
    for (auto &m : v)
        for (auto f : from)
            if (m.from == mkuid(f))
            {
                auto d = m.idx;
                std::sort(d.begin(), d.end());
                r.push_back({m.from, m.time, d});
            }
    std::sort(r.begin(), r.end());
    return r;
}

// 50 -> 10 -> population 1 -> 12 -> population 2; 51 -> 10 and 11 -> population 2; handler of population 1 -> 13 -> population 2.
template <class B>
static mc::Body executing(int runs, int run_len, int data_kinds)
{
    return [=](mc::Ctx &c)
    {
        Net net;
        net.pops.push_back(relays(1, 2));
        net.pops.push_back(relays(2, 3));
        const kc::UID none(false);
        net.projs.push_back(Proj<Delta_>{mkuid(10), none, mkuid(1), {link(0, 0, 2, 1), link(1, 1, 2, 2)}});
        net.projs.push_back(Proj<Delta_>{mkuid(11), none, mkuid(2), {link(0, 0, 2, 1)}});
        net.projs.push_back(Proj<Delta_>{mkuid(12), mkuid(1), mkuid(2), {link(0, 1, 2, 1)}});
        net.projs.push_back(Proj<Delta_>{mkuid(13), none, mkuid(2), {link(0, 2, 2, 1), link(1, 2, 2, 1)}});
        fw::Network real_net;
        for (auto &a : net.pops) std::visit([&](auto &p) { real_net.add_population(real(p)); }, a);
        for (auto &a : net.projs) std::visit([&](auto &p) { real_net.add_projection(real(p)); }, a);
        fw::Model model(std::move(real_net));
        model.add_input_channel(mkuid(50), mkuid(10));
        model.add_input_channel(mkuid(51), mkuid(10));
        model.add_input_channel(mkuid(51), mkuid(11));
        model.add_output_channel(mkuid(60), mkuid(1));
        model.add_output_channel(mkuid(60), mkuid(2));
        model.add_output_channel(mkuid(61), mkuid(2));
        // Inputs are chosen when they are asked for.
        static const std::vector<uint32_t> kinds[] = {{}, {0, 1}, {0}, {1}};
        std::map<uint64_t, std::vector<uint32_t>> given[2];
        uint64_t now = 0, end = 0;
        bool allowed = false;
        fw::ModelLoader::InputChannelMap gens;
        for (int i = 0; i < 2; ++i)
            gens.emplace(mkuid(50 + i), [&, i](kc::Step s) {
                c.check(s == now, "input channel ", i, " was asked for step ", s, " at step ", now);
                c.check(allowed, "input channel ", i, " was asked for step ", s, ", which the predicate did not allow");
                c.check(!given[i].count(s), "input channel ", i, " was asked twice for step ", s);
                auto &d = given[i][s] = kinds[i == 0 ? c.choose(data_kinds) : (s & 1)];
                c.log("  input ", i, " at step ", s, ": ", show(d));
                return km::SpikeData(d.begin(), d.end());
            });
        auto backend = std::make_shared<B>();
        fw::ModelExecutor ex(model, backend, gens);
        c.check(ex.get_backend() == backend, "another backend");
        std::vector<Seen> buffer[2];
        std::vector<std::vector<Seen>> observed, handled;
        std::vector<std::vector<std::pair<unsigned, size_t>>> impacts;
        // The multi-threaded backend joins impacts of the same synapse.
        constexpr bool one_impact = std::is_same_v<B, MT>;
        bool stop_in_handler = false;
        const int with_handler = c.choose(2);
        size_t handlers = 0;
        auto add_handler = [&]
        {
            ex.add_spike_message_handler(
                [&](std::vector<km::SpikeMessage> &m)
                {
                    handled.push_back(seen(m));
                    if (stop_in_handler) ex.stop();
                    return fw::modifier::SpikeUnionHandler()(m);
                },
                {mkuid(1)}, {mkuid(13)}, mkuid(70));
            handlers = 1;
        };
        if (with_handler) add_handler();
        c.check(ex.get_message_handlers().size() == handlers, "number of handlers");
        ex.add_observer<km::SpikeMessage>([&](const std::vector<km::SpikeMessage> &m) { observed.push_back(seen(m)); }, {mkuid(1), mkuid(2)});
        ex.add_observer<km::SynapticImpactMessage>(
            [&](const std::vector<km::SynapticImpactMessage> &m)
            {
                std::vector<std::pair<unsigned, size_t>> r;
                for (auto &x : m) r.emplace_back(uid_no(x.header_.sender_uid_), one_impact ? 1 : x.impacts_.size());
                std::sort(r.begin(), r.end());
                impacts.push_back(r);
            },
            {mkuid(10), mkuid(12), mkuid(13)});
        for (int run = 0; run < runs; ++run)
        {
            const int how = c.choose(handlers && run_len ? 4 : 3);
            const int n = how == 3 ? 1 : c.choose(run_len + 1);
            static const char *const ways[] = {"by predicate", "by predicate, separately", "by exception", "stopped in the handler"};
            c.log("run of ", n, " steps, ended ", ways[how]);
            stop_in_handler = how == 3;
            observed.clear();
            handled.clear();
            impacts.clear();
            int called = 0;
            struct End
            {
            };
            const uint64_t from = net.step;
            end = from + n;
            now = from;
            auto pred = [&](kc::Step s) -> bool
            {
                now = s;
                c.check(s == from + called, "the predicate got step ", s, " instead of ", from + called);
                ++called;
                allowed = s < end || how == 3;
                if (s >= end && how == 2) throw End{};
                return allowed;
            };
            if (how == 1)
                for (int i = 0; i < n; ++i)
                {
                    end = from + i + 1;
                    ex.start(pred);
                    --called;
                }
            else
                try
                {
                    ex.start(pred);
                    c.check(how != 2, "the exception of the predicate was lost");
                }
                catch (End &)
                {
                }
            c.check(called == n + (how == 0 || how == 2), "the predicate was called ", called, " times for ", n, " steps");
            c.check(backend->get_step() == from + n, "step ", backend->get_step(), " instead of ", from + n);
            c.check(!backend->running(), "running after the end");
            c.check(observed.size() == size_t(n) && impacts.size() == size_t(n) && handled.size() == n * handlers, "observers were called ", observed.size(), " and ", impacts.size(), " times and handlers ", handled.size(), " times in ", n, " steps");
            for (int i = 0; i < n; ++i)
            {
                c.transition();
                const uint64_t s = net.step;
                for (int k = 0; k < 2; ++k)
                {
                    c.check(given[k].count(s), "input channel ", k, " was not asked for step ", s);
                    if (given[k][s].empty()) continue;
                    net.to_proj[mkuid(10)].push_back({mkuid(50 + k), s, given[k][s]});
                    if (k) net.to_proj[mkuid(11)].push_back({mkuid(51), s, given[k][s]});
                }
                net.run();
                const auto want = seen(net.sent_spikes, {1, 2});
                c.check(observed[i] == want, "step ", s, ": the observer saw ", name(observed[i]), ", expected ", name(want));
                std::vector<std::pair<unsigned, size_t>> im;
                for (auto &m : net.sent_impacts)
                    if (uid_no(m.from) != 11) im.emplace_back(uid_no(m.from), one_impact ? 1 : m.impacts.size());
                std::sort(im.begin(), im.end());
                c.check(impacts[i] == im, "step ", s, ": the observer saw ", impacts[i].size(), " impact messages, expected ", im.size());
                for (auto &m : want)
                {
                    buffer[0].push_back(m);
                    if (m.from == mkuid(2)) buffer[1].push_back(m);
                }
                if (handlers)
                {
                    const auto h = seen(net.sent_spikes, {1});
                    c.check(handled[i] == h, "step ", s, ": the handler got ", name(handled[i]), ", expected ", name(h));
                    std::set<uint32_t> u;
                    for (auto &m : h) u.insert(m.idx.begin(), m.idx.end());
                    if (!u.empty()) net.to_proj[mkuid(13)].push_back({mkuid(70), net.step, {u.begin(), u.end()}});
                }
            }
            for (int k = 0; k < 2; ++k)
            {
                if (run + 1 < runs && (run + k) % 2) continue;  // left in the channel until the next run
                auto got = seen(ex.get_loader().get_output_channel(mkuid(60 + k)).read_some_from_buffer(0, 1000));
                std::sort(buffer[k].begin(), buffer[k].end());
                c.check(got == buffer[k], "output channel ", k, " has ", name(got), ", expected ", name(buffer[k]));
                buffer[k].clear();
            }
            c.state(mc::Hash().add(net.step).add(net.sent_spikes.size()).add(net.sent_impacts.size()));
        }
    };
}

// Handlers added by add_wta_handlers: every one works alone.
static void wta(mc::Ctx &c)
{
    fw::Network real_net;
    const int groups = 1 + c.choose(2), winners = 1 + c.choose(2);
    Net net;
    net.pops.push_back(relays(1, 4));
    net.pops.push_back(relays(2, 4));
    net.pops.push_back(relays(3, 4));
    const kc::UID none(false);
    auto all = [&](unsigned no, const kc::UID &pre, unsigned post)
    {
        Proj<Delta_> p{mkuid(no), pre, mkuid(post), {}};
        for (unsigned i = 0; i < 4; ++i) p.s.push_back(link(i, i, 2, 1));
        return p;
    };
    net.projs.push_back(all(10, none, 1));
    net.projs.push_back(all(11, none, 2));
    net.projs.push_back(all(12, none, 3));
    for (auto &a : net.pops) std::visit([&](auto &p) { real_net.add_population(real(p)); }, a);
    for (auto &a : net.projs) std::visit([&](auto &p) { real_net.add_projection(real(p)); }, a);
    fw::Model model(std::move(real_net));
    model.add_input_channel(mkuid(50), mkuid(10));
    km::SpikeData input;
    fw::ModelLoader::InputChannelMap gens;
    gens.emplace(mkuid(50), [&](kc::Step s) { return s == 0 ? input : km::SpikeData{}; });
    fw::ModelExecutor ex(model, std::make_shared<ST>(), gens);
    const auto uids = fw::projection::add_wta_handlers(ex, winners, groups == 1 ? std::vector<size_t>{} : std::vector<size_t>{2}, {{{mkuid(1)}, {mkuid(11)}}, {{mkuid(2)}, {mkuid(12)}}});
    c.check(uids.size() == 2 && uids[0] != uids[1], "handlers have no own UIDs");
    c.check(ex.get_message_handlers().size() == 2, ex.get_message_handlers().size(), " handlers");
    std::map<unsigned, km::SpikeData> spikes;
    std::map<unsigned, int> times;
    ex.add_observer<km::SpikeMessage>(
        [&](const std::vector<km::SpikeMessage> &m)
        {
            for (auto &x : m) spikes[uid_no(x.header_.sender_uid_)] = x.neuron_indexes_, ++times[uid_no(x.header_.sender_uid_)];
        },
        {mkuid(1), mkuid(2), mkuid(3)});
    const int mask = c.choose(16);
    for (int i = 0; i < 4; ++i)
        if (mask >> i & 1) input.push_back(i);
    c.log("input ", show(input), ", ", groups, " groups, ", winners, " winners");
    c.transition(8);
    ex.start([](kc::Step s) { return s < 8; });
    km::SpikeData before = input;
    for (unsigned p = 1; p <= 3; ++p)
    {
        auto now = spikes[p];
        std::sort(now.begin(), now.end());
        c.check(times[p] <= 1, "population ", p, " spiked ", times[p], " times");
        c.check(std::includes(before.begin(), before.end(), now.begin(), now.end()), "population ", p, " spiked without reason");
        for (int g = 0; g < groups; ++g)
        {
            auto in_group = [&](uint32_t x) { return groups == 1 || (x >= 2) == g; };
            const int a = std::count_if(before.begin(), before.end(), in_group), b = std::count_if(now.begin(), now.end(), in_group);
            c.check(b == (p == 1 ? a : std::min(a, winners)), "population ", p, " has ", b, " spikes in group ", g, " after ", a);
        }
        before = now;
    }
}

// Two handlers that listen to populations, to each other and to themselves, with UIDs of their own or a common one.
template <class B>
static mc::Body handlers(int steps)
{
    return [=](mc::Ctx &c)
    {
        Net net;
        net.pops.push_back(relays(1, 3));
        net.pops.push_back(relays(2, 3));
        const kc::UID none(false);
        const unsigned to[] = {1, 2, 2, 1};
        for (unsigned i = 0; i < 4; ++i)
        {
            Proj<Delta_> p{mkuid(10 + i), none, mkuid(to[i]), {}};
            for (unsigned k = 0; k < 3; ++k) p.s.push_back(link(k, i < 2 ? k : (k + i - 1) % 3, 2, 1));
            net.projs.push_back(p);
        }
        fw::Network real_net;
        for (auto &a : net.pops) std::visit([&](auto &p) { real_net.add_population(real(p)); }, a);
        for (auto &a : net.projs) std::visit([&](auto &p) { real_net.add_projection(real(p)); }, a);
        fw::Model model(std::move(real_net));
        model.add_input_channel(mkuid(50), mkuid(10));
        model.add_input_channel(mkuid(51), mkuid(11));
        const int kind = c.choose(3);
        auto input = [&](int i, uint64_t s) -> std::vector<uint32_t>
        {
            if (s == 0) return i == 0 ? std::vector<uint32_t>{0} : kind ? std::vector<uint32_t>{1, 2} : std::vector<uint32_t>{};
            if (s == 2 && kind == 2 && i == 0) return {1};
            return {};
        };
        fw::ModelLoader::InputChannelMap gens;
        for (int i = 0; i < 2; ++i)
            gens.emplace(mkuid(50 + i), [&, i](kc::Step s) {
                const auto d = input(i, s);
                return km::SpikeData(d.begin(), d.end());
            });
        auto backend = std::make_shared<B>();
        fw::ModelExecutor ex(model, backend, gens);
        struct H
        {
            std::vector<kc::UID> from, to;
            kc::UID uid;
            std::vector<std::vector<Seen>> got;
        } h[2];
        const bool common = c.flag();
        h[0].uid = mkuid(70);
        h[1].uid = common ? mkuid(70) : mkuid(71);
        for (int i = 0; i < 2; ++i)
        {
            const int who = c.choose(common ? 8 : 16), whom = c.choose(4);
            for (int k = 0; k < 4; ++k)
                if (who >> k & 1) h[i].from.push_back(k < 2 ? mkuid(1 + k) : k == 2 ? h[i].uid : h[1 - i].uid);
            for (int k = 0; k < 2; ++k)
                if (whom >> k & 1) h[i].to.push_back(mkuid(12 + k));
            std::string l;
            for (auto &u : h[i].from) l += " " + std::to_string(uid_no(u));
            l += " ->";
            for (auto &u : h[i].to) l += " " + std::to_string(uid_no(u));
            c.log("handler ", uid_no(h[i].uid), ": ", l);
            ex.add_spike_message_handler(
                [&h, i](std::vector<km::SpikeMessage> &m)
                {
                    h[i].got.push_back(seen(m));
                    return fw::modifier::SpikeUnionHandler()(m);
                },
                h[i].from, h[i].to, h[i].uid);
        }
        c.check(ex.get_message_handlers().size() == 2, ex.get_message_handlers().size(), " handlers");
        ex.start([&](kc::Step s) { return s < static_cast<kc::Step>(steps); });
        for (auto &x : h) c.check(x.got.size() == static_cast<size_t>(steps), "a handler was called ", x.got.size(), " times");
        std::vector<SpikeMsg> late;  // sent by handlers after the last step
        for (int s = 0; s < steps; ++s)
        {
            c.transition();
            for (int i = 0; i < 2; ++i)
                if (!input(i, s).empty()) net.to_proj[mkuid(10 + i)].push_back({mkuid(50 + i), static_cast<uint64_t>(s), input(i, s)});
            net.run();
            auto all = net.sent_spikes;
            all.insert(all.end(), late.begin(), late.end());
            late.clear();
            for (auto &x : h)
            {
                std::vector<SpikeMsg> mine;
                std::set<uint32_t> u;
                for (auto &m : all)
                    if (std::find(x.from.begin(), x.from.end(), m.from) != x.from.end())
                    {
                        mine.push_back(m);
                        std::sort(mine.back().idx.begin(), mine.back().idx.end());
                        u.insert(m.idx.begin(), m.idx.end());
                    }
                const auto want = seen(mine, {1, 2, 70, 71});
                c.check(x.got[s] == want, "step ", s, ": handler ", uid_no(x.uid), " got ", name(x.got[s]), ", expected ", name(want));
                if (!u.empty()) late.push_back({x.uid, net.step, {u.begin(), u.end()}});
            }
            for (auto &m : late)
                for (unsigned p : {12, 13})
                    if (std::any_of(std::begin(h), std::end(h), [&](auto &x) { return x.uid == m.from && std::count(x.to.begin(), x.to.end(), mkuid(p)); }))
                        net.to_proj[mkuid(p)].push_back(m);
            c.state(mc::Hash().add(s).add(net.sent_spikes.size()).add(late.size()));
        }
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C22");
    r.explain("A real model runs under a real executor, split into runs of every length; inputs are chosen when the executor asks for them. Calls, spikes, impacts and outputs are compared with a reference network step by step.");
    r.assume("the pool of the multi-threaded backend is replaced by one that runs the tasks in order (other orders and races: C10, C11)");
    const bool t = r.thorough();
    const std::string s = "runs of 0 to ";
    r.scenario("single-threaded backend", executing<ST>(t ? 4 : 3, 2, t ? 3 : 2), {4, 30, (t ? "4 " : "3 ") + s + "2 steps"});
    r.scenario("longer runs", executing<ST>(2, t ? 4 : 3, t ? 3 : 2), {4, 30, "2 " + s + (t ? "4" : "3") + " steps"});
    r.scenario("multi-threaded backend", executing<MT>(t ? 3 : 2, 2, t ? 4 : 3), {4, 30, (t ? "3 " : "2 ") + s + "2 steps"});
    r.scenario("two handlers, single-threaded backend", handlers<ST>(t ? 8 : 5), {3, 30, "all senders and receivers of both"});
    if (t) r.scenario("two handlers, multi-threaded backend", handlers<MT>(5), {3, 30, "all senders and receivers of both"});
    r.scenario("WTA handlers", wta, {2, 30, "2 handlers in a row, all inputs"});
    return r.finish();
}
