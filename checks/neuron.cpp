// C14 LIF, C15 BLIFAT, C16 AltAI: populations on the single-threaded backend against reference neurons.
// Each population holds the whole product of configurations and states, so one execution decides all of them for one
// input sequence; the explorer enumerates the input sequences.
#include <knp/backends/cpu-single-threaded/backend.h>

#include "netref.hpp"

using STSim = Sim<knp::backends::single_threaded_cpu::SingleThreadedCPUBackend>;
namespace nt = knp::neuron_traits;
using ref::Impact;
using ref::Out;
template <class N>
using P = nt::neuron_parameters<N>;

using Input = std::vector<std::vector<Impact>>;  // messages of one step

template <class N>
static kc::Population<N> make_pop(const kc::UID &uid, const std::vector<P<N>> &v)
{
    return kc::Population<N>(uid, [&v](size_t i) { return v[i]; }, v.size());
}

static std::string show_input(const Input &in)
{
    std::ostringstream os;
    for (const auto &m : in)
    {
        os << '{';
        for (const auto &i : m) os << " type " << static_cast<int>(i.type) << " value " << i.value << (i.forcing ? " forcing" : "");
        os << " }";
    }
    return os.str().empty() ? "nothing" : os.str();
}

// Sends `in` to every neuron (or to those selected) and advances both sides by one step.
template <class N>
static void one_step(
    mc::Ctx &c, STSim &s, const kc::UID &uid, std::vector<P<N>> &want, const Input &in, size_t step,
    const std::function<bool(size_t neuron, size_t message)> &hit = {})
{
    for (size_t m = 0; m < in.size(); ++m)
    {
        km::SynapticImpactMessage msg{{ext_of(uid), step}, mkuid(901), uid, false, {}};
        for (const auto &i : in[m])
        {
            msg.is_forcing_ = i.forcing;
            for (size_t n = 0; n < want.size(); ++n)
                if (!hit || hit(n, m))
                    msg.impacts_.push_back({n, i.value, i.type, 0, static_cast<uint32_t>(n)});
        }
        s.ep.send_message(msg);
    }
    s.step();
    c.transition(want.size());
    std::vector<km::SpikeIndex> spiked;
    for (size_t n = 0; n < want.size(); ++n)
    {
        std::vector<Impact> mine;
        for (size_t m = 0; m < in.size(); ++m)
            if (!hit || hit(n, m)) mine.insert(mine.end(), in[m].begin(), in[m].end());
        if (ref::step<N>(want[n], mine)) spiked.push_back(n);
    }
    if constexpr (ref::is_resource<N>::value)
    {
        // No plastic projection: training only updates the neurons.
        ref::Net net;
        net.step = step;
        ref::Pop<N> p{uid, std::move(want)};
        net.train(p, spiked);
        want = std::move(p.n);
    }
    auto &pop = s.population<N>(uid);
    c.check(pop.size() == want.size(), "the population has ", pop.size(), " neurons, expected ", want.size());
    mc::Hash state;
    for (size_t n = 0; n < want.size(); ++n)
    {
        ref::Diff d;
        d.state = &state;
        ref::diff(d, pop[n], want[n]);
        c.check(d.what.empty(), "after step ", step, " neuron ", n, ": ", d.what);
    }
    c.state(state);
    auto got = s.spikes();
    if (spiked.empty())
        c.check(got.empty(), "a spike message was sent at step ", step, " though no neuron spiked");
    else
    {
        c.check(got.size() == 1, got.size(), " spike messages at step ", step, ", expected one");
        c.check(
            got[0].header_.sender_uid_ == uid && got[0].header_.send_time_ == step, "wrong header of the spike message at step ",
            step, ": send time ", got[0].header_.send_time_);
        auto idx = got[0].neuron_indexes_;
        c.check(
            std::vector<km::SpikeIndex>(idx.begin(), idx.end()) == spiked, "wrong spikes at step ", step, ": ",
            idx.size() < 40 ? show(idx) : std::to_string(idx.size()), ", expected ",
            spiked.size() < 40 ? show(spiked) : std::to_string(spiked.size()));
    }
    c.outcome(mc::Hash().add(spiked.size()));
}

template <class N>
static void start(STSim &s, const kc::UID &uid, const std::vector<P<N>> &v)
{
    s.b.load_populations({make_pop<N>(uid, v)});
    s.init();
    s.observe_spikes({uid});
    s.feed_impacts(uid);
}

template <class N>
static mc::Body sequences(const std::vector<P<N>> &neurons, const std::vector<Input> &alphabet, int depth)
{
    return [=](mc::Ctx &c)
    {
        STSim s;
        const auto uid = mkuid(1);
        auto want = neurons;
        start<N>(s, uid, want);
        for (int d = 0; d < depth; ++d)
        {
            const auto &in = alphabet[c.choose(alphabet.size())];
            c.log("step ", d, ": ", show_input(in));
            one_step<N>(c, s, uid, want, in, d);
        }
    };
}

// Different neurons get different inputs in one step: neurons do not influence each other.
template <class N>
static mc::Body independent(const std::vector<P<N>> &neurons, const std::vector<Impact> &impacts, int depth)
{
    return [=](mc::Ctx &c)
    {
        STSim s;
        const auto uid = mkuid(1);
        auto want = neurons;
        start<N>(s, uid, want);
        for (int d = 0; d < depth; ++d)
        {
            const auto &i0 = impacts[c.choose(impacts.size())];
            const auto &i1 = impacts[c.choose(impacts.size())];
            const int m0 = c.choose(1 << neurons.size()), m1 = c.choose(1 << neurons.size());
            c.log("step ", d, ": impact ", show_input({{i0}}), " to mask ", m0, ", ", show_input({{i1}}), " to mask ", m1);
            one_step<N>(c, s, uid, want, {{i0}, {i1}}, d, [&](size_t n, size_t m) { return ((m ? m1 : m0) >> n & 1) != 0; });
        }
    };
}

template <class N>
static mc::Body unsupported(const std::vector<Out> &types)
{
    return [=](mc::Ctx &c)
    {
        STSim s;
        const auto uid = mkuid(1);
        start<N>(s, uid, std::vector<P<N>>(2));
        const auto t = types[c.choose(types.size())];
        const float v = c.choose(2) ? 1.F : -1.F;
        const uint32_t n = c.choose(2);
        c.log("unsupported impact of type ", static_cast<int>(t), " to neuron ", n);
        s.ep.send_message(km::SynapticImpactMessage{{ext_of(uid), 0}, mkuid(901), uid, false, {{0, v, t, 0, n}}});
        bool thrown = false;
        try
        {
            s.step();
        }
        catch (const std::exception &)
        {
            thrown = true;
        }
        c.check(thrown, "an impact of a type the neuron does not support was ignored silently");
    };
}

// Cartesian product builder.
template <class N>
struct Grid
{
    std::vector<P<N>> v{P<N>{}};
    template <class M, class T>
    Grid &with(M member, std::initializer_list<T> vals)
    {
        std::vector<P<N>> r;
        for (const auto &n : v)
            for (const auto &x : vals)
            {
                auto m = n;
                m.*member = static_cast<std::decay_t<decltype(m.*member)>>(x);
                r.push_back(m);
            }
        v = r;
        return *this;
    }
    template <class FN>
    Grid &where(FN f)
    {
        v.erase(std::remove_if(v.begin(), v.end(), [&](const auto &n) { return !f(n); }), v.end());
        return *this;
    }
};

static std::vector<Input> singles(const std::vector<Impact> &l)
{
    std::vector<Input> r{{}};
    for (const auto &i : l) r.push_back({{i}});
    return r;
}
// All ordered pairs, in one message and in two messages.
static std::vector<Input> pairs(const std::vector<Impact> &l)
{
    auto r = singles(l);
    for (const auto &i : l)
        for (const auto &j : l)
        {
            r.push_back({{i}, {j}});
            if (i.forcing == j.forcing) r.push_back({{i, j}});
        }
    return r;
}

#if NEURON_PROP == 14
using T0 = nt::LIFNeuron;
static void scenarios(mc::Runner &r)
{
    const std::vector<Impact> imp{{Out::EXCITATORY, 1.5F},          {Out::EXCITATORY, 1.F}, {Out::EXCITATORY, 0.25F},
                                  {Out::INHIBITORY_CURRENT, 0.75F}, {Out::INHIBITORY_CURRENT, -1.5F}, {Out::EXCITATORY, -2.F}};
    auto conf = Grid<T0>()
                    .with(&P<T0>::activation_threshold_, {1.F, 0.5F, -0.25F})
                    .with(&P<T0>::leak_coefficient_, {1.F, 0.5F, 0.F})
                    .with(&P<T0>::refract_period_, {0, 1, 2, 5})
                    .with(&P<T0>::potential_reset_value_, {0.F, -0.5F, 2.F})
                    .v;
    auto st = Grid<T0>()
                  .with(&P<T0>::activation_threshold_, {1.F, 0.F, -1.F})
                  .with(&P<T0>::leak_coefficient_, {1.F, 0.5F, -1.F})
                  .with(&P<T0>::refract_period_, {0, 1, 3})
                  .with(&P<T0>::potential_reset_value_, {0.F, -1.F})
                  .with(&P<T0>::refract_counter_, {0u, 1u, 2u, 7u, 4294967295u})
                  .with(&P<T0>::potential_, {-3.F, -1.F, -0.5F, 0.F, 0.5F, 1.F, 1.25F, 2.F, 64.F})
                  .v;
    r.scenario("all input sequences", sequences<T0>(conf, singles(imp), r.thorough() ? 7 : 5),
               {3, 25, std::to_string(conf.size()) + " configurations, 7 inputs, depth " + std::to_string(r.thorough() ? 7 : 5)});
    r.scenario("all states, two steps", sequences<T0>(st, pairs(imp), 2), {1, 60, std::to_string(st.size()) + " states, all input pairs, two steps"});
    std::vector<P<T0>> three{conf[0], conf[7], conf[20]};
    r.scenario("neurons are independent", independent<T0>(three, {imp[0], imp[1], imp[3]}, r.thorough() ? 2 : 1), {3, 25, "3 neurons, all assignments of two impacts"});
    r.scenario("unsupported impacts", unsupported<T0>({Out::INHIBITORY_CONDUCTANCE, Out::DOPAMINE, Out::BLOCKING}), {1, 25, "each type"});
}
#elif NEURON_PROP == 15
using T0 = nt::BLIFATNeuron;
using T1 = nt::SynapticResourceSTDPBLIFATNeuron;
template <class T>
static std::vector<P<T>> conf15(bool full)
{
    using B = P<T0>;
    auto g = Grid<T>()
                 .with(&B::activation_threshold_, {1., 0.5})
                 .with(&B::potential_decay_, {0., 0.5, 1.})
                 .with(&B::absolute_refractory_period_, {0u, 1u, 3u})
                 .with(&B::bursting_period_, {0u, 1u, 2u, 3u})
                 .with(&B::reflexive_weight_, {1.5})
                 .with(&B::threshold_decay_, {0.5})
                 .with(&B::threshold_increment_, {0., 0.5})
                 .with(&B::inhibitory_conductance_decay_, {0., 0.5})
                 .with(&B::min_potential_, {-1e9, -1.})
                 .with(&B::potential_reset_value_, {0., -2.})
                 .with(&B::postsynaptic_trace_decay_, {0.5})
                 .with(&B::postsynaptic_trace_increment_, {1.});
    size_t k = 0;
    if (!full) g.where([&k](const auto &) { return k++ % 7 == 0; });
    return g.v;
}
template <class T>
static std::vector<P<T>> states15(bool full)
{
    using B = P<T0>;
    const auto mx = std::numeric_limits<size_t>::max();
    const auto bm = std::numeric_limits<int64_t>::max();
    auto g = Grid<T>()
                 .with(&B::n_time_steps_since_last_firing_, {size_t(0), size_t(1), size_t(2), size_t(3), mx - 1, mx})
                 .with(&B::absolute_refractory_period_, {0u, 2u})
                 .with(&B::potential_, {-2., 0., 0.75, 2.})
                 .with(&B::potential_decay_, {0.5, 1.})
                 .with(&B::bursting_phase_, {0u, 1u, 2u, 5u})
                 .with(&B::bursting_period_, {0u, 2u})
                 .with(&B::reflexive_weight_, {1., -0.5})
                 .with(&B::total_blocking_period_, {int64_t(0), int64_t(1), int64_t(-1), int64_t(-2), bm})
                 .with(&B::inhibitory_conductance_, {0., 1., 2.})
                 .with(&B::inhibitory_conductance_decay_, {0.5})
                 .with(&B::dynamic_threshold_, {0., 1.})
                 .with(&B::threshold_decay_, {0.5})
                 .with(&B::threshold_increment_, {0.25})
                 .with(&B::additional_threshold_, {0., 0.5})
                 .with(&B::postsynaptic_trace_, {0.5})
                 .with(&B::postsynaptic_trace_decay_, {0.5})
                 .with(&B::postsynaptic_trace_increment_, {0.25})
                 .with(&B::reversal_inhibitory_potential_, {-0.5})
                 .with(&B::dopamine_value_, {0.5});
    size_t k = 0;
    if (!full) g.where([&k](const auto &) { return k++ % 11 == 0; });
    return g.v;
}
template <class T>
static void scen15(mc::Runner &r, const std::string &tag, bool forcing)
{
    std::vector<Impact> imp{{Out::EXCITATORY, 1.F},         {Out::EXCITATORY, 0.5F, forcing}, {Out::INHIBITORY_CURRENT, 1.5F},
                            {Out::INHIBITORY_CONDUCTANCE, 0.5F}, {Out::INHIBITORY_CONDUCTANCE, 1.F}, {Out::DOPAMINE, 0.5F},
                            {Out::BLOCKING, -2.F},          {Out::BLOCKING, 2.F}};
    const bool th = r.thorough();
    auto cf = conf15<T>(true);
    auto st = states15<T>(true);
    const int depth = 4 + th;
    r.scenario("all input sequences, " + tag, sequences<T>(cf, singles(imp), depth),
               {2, 60, std::to_string(cf.size()) + " configurations, 9 inputs, depth " + std::to_string(depth)});
    // Longer histories over fewer inputs: bursting, refractory period and blocking count over several steps.
    r.scenario("long histories, " + tag, sequences<T>(cf, {{}, {{imp[0]}}, {{imp[6]}}}, th ? 9 : 7),
               {3, 60, std::to_string(cf.size()) + " configurations, 3 inputs, depth " + std::to_string(th ? 9 : 7)});
    r.scenario("all states, one step, " + tag, sequences<T>(st, pairs(imp), 1), {1, 120, std::to_string(st.size()) + " states, all input pairs"});
    r.scenario("all states, three steps, " + tag, sequences<T>(st, {{}, {{imp[0]}}, {{imp[6], imp[0]}}}, 3), {1, 120, std::to_string(st.size()) + " states, 3 inputs, 3 steps"});
    r.scenario("neurons are independent, " + tag, independent<T>({cf[0], cf[cf.size() / 3], cf[cf.size() / 2]}, {imp[0], imp[1], imp[4], imp[6]}, 1), {3, 25, "3 neurons, all assignments of two impacts"});
}
static void scenarios(mc::Runner &r)
{
    scen15<T0>(r, "BLIFAT", true);
    scen15<T1>(r, "resource STDP BLIFAT", true);
}
#else
using T0 = nt::AltAILIF;
using T1 = nt::SynapticResourceSTDPAltAILIFNeuron;
template <class T>
static void scen16(mc::Runner &r, const std::string &tag)
{
    using B = P<T0>;
    const bool th = r.thorough();
    std::vector<Impact> imp{{Out::EXCITATORY, 2.F}, {Out::EXCITATORY, 0.5F, true}, {Out::INHIBITORY_CURRENT, 3.F}, {Out::DOPAMINE, 0.5F},
                            {Out::BLOCKING, -2.F},  {Out::BLOCKING, 2.F},    {Out::BLOCKING, -1.F},          {Out::BLOCKING, 0.F}};
    auto flags = Grid<T>()
                     .with(&B::is_diff_, {false, true})
                     .with(&B::is_reset_, {false, true})
                     .with(&B::leak_rev_, {false, true})
                     .with(&B::saturate_, {false, true})
                     .with(&B::do_not_save_, {false, true});
    auto cf = flags;
    cf.with(&B::activation_threshold_, {1, 3}).with(&B::negative_activation_threshold_, {2, 0, 30000}).with(&B::potential_leak_, {0, 1, -1}).with(&B::potential_reset_value_, {0, 1});
    if (false)
    {
        size_t k = 0;
        cf.where([&k](const auto &) { return k++ % 5 != 0; });
    }
    auto st = flags;
    const auto mx = std::numeric_limits<int64_t>::max();
    st.with(&B::activation_threshold_, {0, 2})
        .with(&B::negative_activation_threshold_, {0, 2})
        .with(&B::potential_leak_, {0, 1, -2})
        .with(&B::potential_reset_value_, {0, 1})
        .with(&B::potential_, {-65536.F, -3.F, -2.5F, -2.F, -0.5F, 0.F, 0.5F, 1.F, 1.5F, 2.F, 3.F, 40000.F})
        .with(&B::additional_threshold_, {0., 1.5})
        .with(&B::activity_time_, {int64_t(0), int64_t(1), int64_t(2), int64_t(-1), int64_t(-2), mx})
        .with(&B::dopamine_value_, {0.25});
    if (false)
    {
        size_t k = 0;
        st.where([&k](const auto &) { return k++ % 5 == 0; });
    }
    const int depth = 4 + th;
    r.scenario("all input sequences, " + tag, sequences<T>(cf.v, singles(imp), depth),
               {2, 60, std::to_string(cf.v.size()) + " configurations, 9 inputs, depth " + std::to_string(depth)});
    r.scenario("all states, one step, " + tag, sequences<T>(st.v, pairs(imp), 1), {1, 120, std::to_string(st.v.size()) + " states, all input pairs"});
    r.scenario("all states, three steps, " + tag, sequences<T>(st.v, {{}, {{imp[0]}}, {{imp[4], imp[2]}}}, 3), {1, 120, std::to_string(st.v.size()) + " states, 3 inputs, 3 steps"});
    r.scenario("neurons are independent, " + tag, independent<T>({cf.v[0], cf.v[cf.v.size() / 3], cf.v[cf.v.size() / 2]}, {imp[0], imp[1], imp[2], imp[4]}, 1), {3, 25, "3 neurons, all assignments of two impacts"});
    r.scenario("unsupported impacts, " + tag, unsupported<T>({Out::INHIBITORY_CONDUCTANCE}), {1, 25, "one type"});
}
static void scenarios(mc::Runner &r)
{
    scen16<T0>(r, "AltAI");
    scen16<T1>(r, "resource STDP AltAI");
}
#endif

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C" + std::to_string(NEURON_PROP));
    r.explain(
        "Each execution loads one population holding the whole product of configurations (or states) on the real "
        "single-threaded backend, applies one enumerated sequence of impact messages and compares every field of every "
        "neuron and the spike message with the reference neuron after each step. Transitions count neuron steps.");
    r.assume("values are dyadic so that both sides compute exactly; fields are compared with a relative tolerance of 1e-9");
    r.assume("blocking values fit the integer they are converted to");
    scenarios(r);
    return r.finish();
}
