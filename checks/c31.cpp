// C31: loggers of a running model.
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/framework/monitoring/model.h>

#include "netref.hpp"

using namespace ref;
namespace fw = knp::framework;
namespace mon = knp::framework::monitoring::model;
using STB = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using LIF = nt::BLIFATNeuron;

static std::vector<std::string> words(std::string s)
{
    for (auto &x : s)
        if (x == ',') x = ' ';
    std::istringstream is(s);
    std::vector<std::string> r;
    for (std::string w; is >> w;) r.push_back(w);
    return r;
}
static std::vector<std::string> lines(const std::string &s)
{
    std::istringstream is(s);
    std::vector<std::string> r;
    for (std::string w; std::getline(is, w);) r.push_back(w);
    return r;
}

// Two input channels feed two populations that repeat what they get. Loggers are added before the run or between runs.
struct Rig
{
    Net net;
    std::unique_ptr<fw::Model> model;
    std::unique_ptr<fw::ModelExecutor> ex;
    km::SpikeData next[2];

    Rig()
    {
        const kc::UID none(false);
        for (unsigned i = 1; i <= 2; ++i)
        {
            Pop<LIF> p{mkuid(i), {}};
            for (int k = 0; k < 3; ++k)
            {
                P<LIF> x;
                x.activation_threshold_ = 1;
                x.potential_decay_ = 0;
                p.n.push_back(x);
            }
            net.pops.push_back(p);
            Proj<Delta> j{mkuid(10 + i), none, mkuid(i), {}};
            for (uint32_t k = 0; k < 3; ++k)
            {
                Syn<Delta> s;
                s.p.weight_ = 2;
                s.p.delay_ = 1;
                s.p.output_type_ = Out::EXCITATORY;
                s.from = s.to = k;
                j.s.push_back(s);
            }
            net.projs.push_back(j);
        }
        Proj<Res> r{mkuid(13), mkuid(1), kc::UID(false), {}, true};
        for (int k = 0; k < 3; ++k)
        {
            Syn<Res> s;
            s.p.weight_ = 5;
            s.p.delay_ = 1;
            s.p.rule_.synaptic_resource_ = 1.5F * (k + 1);
            s.p.rule_.w_max_ = 10;
            s.p.rule_.last_spike_step_ = k == 1 ? (1ULL << 33U) + 70000 : 0;
            s.from = (k + 1) % 3;
            s.to = k == 2 ? 0 : 1 - k;
            r.s.push_back(s);
        }
        net.projs.push_back(r);
        fw::Network n;
        for (auto &a : net.pops) std::visit([&](auto &p) { n.add_population(real(p)); }, a);
        for (auto &a : net.projs) std::visit([&](auto &p) { n.add_projection(real(p)); }, a);
        model = std::make_unique<fw::Model>(std::move(n));
        model->add_input_channel(mkuid(51), mkuid(11));
        model->add_input_channel(mkuid(52), mkuid(12));
        model->add_output_channel(mkuid(60), mkuid(1));
        fw::ModelLoader::InputChannelMap gens;
        for (int i = 0; i < 2; ++i) gens.emplace(mkuid(51 + i), [this, i](kc::Step) { return next[i]; });
        ex = std::make_unique<fw::ModelExecutor>(*model, std::make_shared<STB>(), gens);
    }
    // One step; what the populations and channels sent.
    std::vector<SpikeMsg> step(mc::Ctx &c, int kinds)
    {
        static const km::SpikeData data[] = {{}, {0}, {2, 0, 1, 0}};
        std::vector<SpikeMsg> sent;
        for (int i = 0; i < 2; ++i)
        {
            next[i] = data[i ? c.choose(2) : c.choose(kinds)];
            if (next[i].empty()) continue;
            sent.push_back({mkuid(51 + i), net.step, {next[i].begin(), next[i].end()}});
            net.to_proj[mkuid(11 + i)].push_back(sent.back());
        }
        c.log("step ", net.step, ": input ", show(next[0]), " ", show(next[1]));
        c.transition();
        net.run();
        for (auto &m : net.sent_spikes) sent.push_back(m);
        ex->start([this](kc::Step s) { return s < net.step; });
        return sent;
    }
};

static mc::Body aggregated(int steps)
{
    return [=](mc::Ctx &c)
    {
        Rig r;
        static const char *const name_sets[][4] = {{"A", "B", "C", "D"}, {"Z", "Y", "A", "B"}, {"A", "A", "B", "B"}, {"B", "A", "A", "B"}};
        const int set = c.choose(4), mask = 1 + c.choose(15);
        const size_t period = 1 + c.choose(3);
        const unsigned who[] = {1, 2, 51, 52};
        std::map<kc::UID, std::string> names;
        for (int i = 0; i < 4; ++i)
            if (mask >> i & 1) names[mkuid(who[i])] = name_sets[set][i];
        const int before = c.choose(2);
        std::map<std::string, size_t> acc{{"old", 3}};
        std::ostringstream os;
        c.log("names ", set, " mask ", mask, " period ", period);
        if (before) r.step(c, 1);
        mon::add_aggregated_spikes_logger(*r.model, names, *r.ex, acc, os, period);
        // A row at each multiple of the period has the spikes of the steps before the last one that were in no row yet.
        std::map<std::string, size_t> count;
        for (auto &[u, n] : names) count[n] = 0;
        const auto zero = count;
        std::vector<std::vector<std::string>> want{{"Index"}};
        for (auto &[n, k] : count) want[0].push_back(n);
        for (int s = 0; s < steps; ++s)
        {
            const auto sent = r.step(c, 3);
            if (r.net.step % period == 0)
            {
                want.push_back({std::to_string(r.net.step)});
                for (auto &[n, k] : count) want.back().push_back(std::to_string(k));
                count = zero;
            }
            for (auto &m : sent)
                if (names.count(m.from)) count[names[m.from]] += m.idx.size();
            c.check(acc == count, "the accumulated numbers of step ", r.net.step - 1, " are wrong");
            const auto got = lines(os.str());
            c.check(got.size() == want.size(), "after step ", r.net.step - 1, " the log has ", got.size(), " lines instead of ", want.size());
            for (size_t i = 0; i < got.size(); ++i)
            {
                std::string w;
                for (auto &x : want[i]) w += x + " ";
                c.check(words(got[i]) == want[i], "line ", i, " is '", got[i], "', expected ", w);
            }
        }
    };
}
static mc::Body spikes(int steps)
{
    return [=](mc::Ctx &c)
    {
        Rig r;
        const int mask = c.choose(16);
        const unsigned who[] = {1, 2, 51, 52};
        std::map<kc::UID, std::string> names;
        for (int i = 0; i < 4; ++i)
            if (mask >> i & 1) names[mkuid(who[i])] = i == 3 ? "first" : "sender" + std::to_string(i);
        std::ostringstream os;
        mon::add_spikes_logger(*r.ex, names, os);
        c.log("senders mask ", mask);
        for (int s = 0; s < steps; ++s)
        {
            std::multiset<std::string> want, got;
            for (auto &m : r.step(c, 3))
            {
                if (!names.count(m.from)) continue;
                std::string w = "Step: " + std::to_string(m.time) + "|Sender: " + names[m.from] + "|";
                auto d = m.idx;
                std::sort(d.begin(), d.end());
                for (auto i : d) w += std::to_string(i) + " ";
                want.insert(w);
            }
            const auto l = lines(os.str());
            os.str("");
            c.check(l.size() == 3 * want.size(), "step ", s, " logged ", l.size(), " lines instead of ", 3 * want.size());
            for (size_t i = 0; i + 2 < l.size(); i += 3)
            {
                std::vector<size_t> d;
                for (auto &w : words(l[i + 2])) d.push_back(std::stoul(w));
                std::sort(d.begin(), d.end());
                std::string g = l[i] + "|" + l[i + 1] + "|";
                for (auto x : d) g += std::to_string(x) + " ";
                got.insert(g);
                c.check(want.count(g) == 1, "step ", s, " logged '", g, "'");
            }
            c.check(got == want, "step ", s, " did not log all messages");
        }
    };
}
static mc::Body status(int steps)
{
    return [=](mc::Ctx &c)
    {
        Rig r;
        const size_t period = 1 + c.choose(3);
        std::ostringstream os;
        mon::add_status_logger(*r.ex, *r.model, os, period);
        c.log("period ", period);
        size_t count = 0;
        std::vector<std::string> want;
        for (int s = 0; s < steps; ++s)
        {
            for (auto &m : r.step(c, 2)) count += uid_no(m.from) <= 2;
            if (r.net.step % period == 0)
            {
                if (count) want.push_back(std::to_string(count));
                count = 0;
            }
            std::string all;
            for (auto &w : want) all += w + " ";
            c.check(words(os.str()) == want, "after step ", s, " the log is '", os.str(), "', expected ", all);
        }
    };
}
static mc::Body weights(int steps)
{
    return [=](mc::Ctx &c)
    {
        Rig r;
        const size_t period = 1 + c.choose(3);
        std::ostringstream os;
        mon::add_projection_weights_logger(os, *r.ex, mkuid(13), period);
        c.log("period ", period);
        for (int s = 0; s < steps; ++s)
        {
            r.step(c, 2);
            std::vector<std::string> want;
            if (r.net.step % period == 0)
            {
                want = {"Step:", std::to_string(r.net.step)};
                auto syn = std::get<Proj<Res>>(r.net.projs[2]).s;
                std::sort(syn.begin(), syn.end(), [](auto &a, auto &b) { return std::tie(a.to, a.from) < std::tie(b.to, b.from); });
                size_t last = SIZE_MAX;
                for (auto &x : syn)
                {
                    if (x.to != last) want.push_back("Neuron"), want.push_back(std::to_string(last = x.to));
                    std::ostringstream w;
                    w << x.p.rule_.synaptic_resource_ << '|' << x.p.rule_.last_spike_step_;
                    want.push_back(w.str());
                }
            }
            std::string all;
            for (auto &w : want) all += w + " ";
            c.check(words(os.str()) == want, "step ", s, " logged '", os.str(), "', expected ", all);
            os.str("");
        }
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C31");
    r.explain("A model runs step by step with inputs chosen by the explorer beside a reference network; after each step the text written by a logger is compared with what the reference sent.");
    const bool t = r.thorough();
    r.scenario("aggregated spikes", aggregated(t ? 4 : 3), {3, 30, "4 senders with equal and different names, periods 1 to 3, 3-4 steps"});
    r.scenario("spikes", spikes(t ? 4 : 3), {3, 30, "all sets of 4 senders, 3-4 steps"});
    r.scenario("status", status(t ? 7 : 5), {2, 30, "periods 1 to 3, 5-7 steps"});
    r.scenario("weights", weights(t ? 7 : 5), {2, 30, "periods 1 to 3, 5-7 steps"});
    return r.finish();
}
