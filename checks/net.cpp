// C12 synaptic delivery, C13 locked projections, C17 resource STDP, C18 additive STDP: small networks on the
// single-threaded backend against the reference network, step by step.
// C11: the same networks on the multi-threaded backend, with the order of the pool's tasks decided by the explorer.
#include "netref.hpp"

using namespace ref;
#if NET_PROP == 11
#    include <knp/backends/cpu-multi-threaded/backend.h>
using TheSim = Sim<knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend>;
static int setups = 4;
struct STPair : Pair<TheSim>
{
    using Stub = knp::backends::cpu_executors::StubSchedule;
    static std::array<size_t, 2> parts(mc::Ctx &c)
    {
        const int k = c.choose(setups);
        static const char *const names[] = {"at once", "last first", "first first", "in turns"};
        static const std::array<size_t, 2> sizes[] = {{1, 2}, {2, 3}, {1, 1}, {1000, 1000}};
        c.log("tasks run ", names[k], ", part sizes ", sizes[k][0], " and ", sizes[k][1]);
        Stub::at_post = [k] { return k == 0; };
        Stub::pick = [k, turn = size_t{0}](size_t n) mutable { return k == 1 ? n - 1 : k == 2 ? 0 : (turn += 7) % n; };
        return sizes[k];
    }
    STPair(mc::Ctx &c, Net n) : STPair(std::move(n), parts(c)) {}
    STPair(Net n, std::array<size_t, 2> sizes) : Pair(std::move(n), size_t{1}, sizes[0], sizes[1]) { order_free = merged = true; }
};
#else
#    include <knp/backends/cpu-single-threaded/backend.h>
using TheSim = Sim<knp::backends::single_threaded_cpu::SingleThreadedCPUBackend>;
struct STPair : Pair<TheSim>
{
    STPair(mc::Ctx &, Net n) : Pair(std::move(n)) {}
};
#endif
using BL = nt::BLIFATNeuron;
using LIF = nt::LIFNeuron;
using RBL = nt::SynapticResourceSTDPBLIFATNeuron;
using RAL = nt::SynapticResourceSTDPAltAILIFNeuron;

// A LIF neuron that spikes exactly when its input exceeds 1 in one step.
static P<LIF> relay()
{
    P<LIF> n;
    n.leak_coefficient_ = 0;
    n.activation_threshold_ = 1;
    return n;
}
// A BLIFAT neuron that only accumulates.
static P<BL> accumulator()
{
    P<BL> n;
    n.potential_decay_ = 1;
    n.inhibitory_conductance_decay_ = 0.5;
    n.activation_threshold_ = 1e9;
    return n;
}

template <class S>
static Syn<S> syn(uint32_t from, uint32_t to, float w, uint32_t delay, Out t = Out::EXCITATORY)
{
    Syn<S> s;
    s.p.weight_ = w;
    s.p.delay_ = delay;
    s.p.output_type_ = t;
    s.from = from;
    s.to = to;
    return s;
}

#if NET_PROP == 12 || NET_PROP == 11
// One projection fed from outside, all synapses of the catalogue at once.
template <class S>
static mc::Body external(int depth, std::vector<uint32_t> delays)
{
    return [=](mc::Ctx &c)
    {
        Net n;
        n.pops.push_back(Pop<BL>{mkuid(1), {accumulator(), accumulator()}});
        Proj<S> p{mkuid(10), mkuid(0, 7), mkuid(1), {}};
        int k = 0;
        const Out types[] = {Out::EXCITATORY, Out::INHIBITORY_CURRENT, Out::INHIBITORY_CONDUCTANCE, Out::DOPAMINE};
        for (uint32_t f : {0u, 1u})
            for (uint32_t t : {0u, 1u})
                for (auto d : delays) p.s.push_back(syn<S>(f, t, 0.5F * (1 + k % 5), d, types[k % 4])), ++k;
        p.s.push_back(syn<S>(1, 1, 0.25F, delays[0]));  // a second synapse between the same neurons
        p.s.push_back(syn<S>(1, 0, 0.25F, delays.back()));
        n.projs.push_back(p);
        STPair x(c, n);
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(7);
            c.log("step ", d, ": spikes ", k == 0 ? "none" : k == 1 ? "0" : k == 2 ? "1" : k == 3 ? "0 1" : k == 4 ? "1 and 1 0 in two messages" : k == 5 ? "5 (no synapse)" : "0 three times, 1 twice");
            if (k == 6) x.send_spikes(mkuid(10), {0, 1, 0, 0, 1});
            if (k == 1) x.send_spikes(mkuid(10), {0});
            if (k == 2 || k == 4) x.send_spikes(mkuid(10), {1});
            if (k == 4) x.send_spikes(mkuid(10), {1, 0});
            if (k == 3) x.send_spikes(mkuid(10), {0, 1});
            if (k == 5) x.send_spikes(mkuid(10), {5});
            x.step(c);
        }
        for (uint32_t d = 0; d < delays.back() + 1; ++d) x.step(c);
    };
}

// Few synapses, every choice of endpoints, delays and types.
template <class S>
static mc::Body catalogue(int depth)
{
    return [=](mc::Ctx &c)
    {
        Net n;
        n.pops.push_back(Pop<BL>{mkuid(1), {accumulator(), accumulator()}});
        Proj<S> p{mkuid(10), mkuid(0, 7), mkuid(1), {}};
        for (int i = 0; i < 2; ++i)
        {
            const int f = c.choose(2), t = c.choose(2), d = c.choose(3), o = c.choose(3);
            p.s.push_back(syn<S>(f, t, i ? 0.5F : 1.F, 1 + d, o == 0 ? Out::EXCITATORY : o == 1 ? Out::INHIBITORY_CURRENT : Out::BLOCKING));
            c.log("synapse ", f, "->", t, " delay ", 1 + d, " type ", o);
        }
        n.projs.push_back(p);
        STPair x(c, n);
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(4);
            c.log("step ", d, ": spike mask ", k);
            std::vector<uint32_t> idx;
            if (k & 1) idx.push_back(0);
            if (k & 2) idx.push_back(1);
            if (k) x.send_spikes(mkuid(10), idx);
            x.step(c);
        }
        for (int d = 0; d < 3; ++d) x.step(c);
    };
}

// Populations that excite each other, one of them fed from outside.
static mc::Body networks(int depth)
{
    return [=](mc::Ctx &c)
    {
        const int kind = c.choose(4), da = 1 + c.choose(3), db = 1 + c.choose(2);
        c.log("network kind ", kind, " delays ", da, " and ", db);
        Net n;
        n.pops.push_back(Pop<LIF>{mkuid(1), {relay(), relay()}});
        n.pops.push_back(Pop<LIF>{mkuid(2), {relay(), relay(), relay()}});
        // Feed-forward.
        n.projs.push_back(Proj<Delta>{mkuid(10), mkuid(1), mkuid(2), {syn<Delta>(0, 0, 2, da), syn<Delta>(1, 1, 2, da), syn<Delta>(0, 2, 0.75F, da), syn<Delta>(1, 2, 0.75F, db)}});
        if (kind == 1)  // back to the first population
            n.projs.push_back(Proj<Delta>{mkuid(11), mkuid(2), mkuid(1), {syn<Delta>(0, 1, 2, db), syn<Delta>(2, 0, 2, db)}});
        if (kind == 2)  // onto itself
            n.projs.push_back(Proj<Delta>{mkuid(11), mkuid(2), mkuid(2), {syn<Delta>(0, 1, 2, db), syn<Delta>(1, 0, 2, 1, Out::INHIBITORY_CURRENT)}});
        if (kind == 3)  // two parallel projections and one without a target population
        {
            n.projs.push_back(Proj<Delta>{mkuid(11), mkuid(1), mkuid(2), {syn<Delta>(0, 0, 2, db, Out::INHIBITORY_CURRENT)}});
            n.projs.push_back(Proj<Delta>{mkuid(12), mkuid(2), kc::UID{false}, {syn<Delta>(0, 0, 1, db), syn<Delta>(2, 5, 1, 1)}});
        }
        STPair x(c, n);
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(4);
            c.log("step ", d, ": input mask ", k);
            std::vector<AnyImpact> in;
            if (k & 1) in.push_back({0, 2, Out::EXCITATORY, 0, 0});
            if (k & 2) in.push_back({1, 2, Out::EXCITATORY, 0, 1});
            if (k) x.send_impacts(mkuid(1), in, false);
            x.step(c);
        }
        for (int d = 0; d < 4; ++d) x.step(c);
    };
}

#endif

#if NET_PROP == 12
static void scenarios(mc::Runner &r)
{
    const int d = r.thorough() ? 7 : 5;
    const std::string b = "26 synapses, 6 spike patterns per step, depth " + std::to_string(d);
    r.scenario("external spikes, delta", external<Delta>(d, {1, 2, 3, 4, 6, 7}), {2, 25, b});
    r.scenario("external spikes, resource STDP", external<Res>(d, {1, 2, 3, 4, 6, 7}), {2, 25, b});
    r.scenario("external spikes, additive STDP", external<Add>(d, {1, 2, 3, 4, 6, 7}), {2, 25, b});
    r.scenario("long delays, delta", external<Delta>(r.thorough() ? 4 : 3, {1, 300, 65537 % 1000, 1000}), {2, 25, "delays up to 1000"});
    r.scenario("very long delays, delta", external<Delta>(1, {2, 70000}), {2, 25, "delays up to 70000"});
    const int e = r.thorough() ? 4 : 3;
    r.scenario("every pair of synapses, delta", catalogue<Delta>(e), {3, 25, "1296 pairs of synapses, all spike sequences of depth " + std::to_string(e)});
    r.scenario("every pair of synapses, resource STDP", catalogue<Res>(e - 1), {3, 25, "1296 pairs of synapses, all spike sequences of depth " + std::to_string(e - 1)});
    r.scenario("networks of populations", networks(r.thorough() ? 8 : 6), {3, 25, "4 network shapes, 6 delay pairs, all input sequences of depth " + std::to_string(r.thorough() ? 8 : 6)});
}
#endif

#if NET_PROP == 13 || NET_PROP == 17 || NET_PROP == 11
// A plastic population: every neuron has its own parameters and its own synapses from the presynaptic neurons 0 and 1.
template <class N>
static void tune(P<N> &n, int k)
{
    n.free_synaptic_resource_ = k % 2 ? 1.F : -2.F;
    n.synaptic_resource_threshold_ = k % 3 == 0 ? 0.5F : k % 3 == 1 ? 1e9F : 2.F;
    n.resource_drain_coefficient_ = k % 4;
    n.stability_ = k % 5 == 0 ? 0.F : k % 5 == 1 ? 1.F : 2.F;
    n.stability_change_parameter_ = k % 2 ? 1.F : 0.F;
    n.stability_change_at_isi_ = k % 3 == 2 ? 1.F : 0.F;
    n.isi_max_ = 1 + k % 4;
    n.d_h_ = 0.5F;
    n.dopamine_plasticity_time_ = k % 4;
    n.synapse_sum_threshold_coefficient_ = k % 7 == 3 ? 0.125F : 0.F;
}
template <class N>
static Net plastic(int count, bool locked, int variant)
{
    Net n;
    Pop<N> pop{mkuid(1), {}};
    Proj<Res> a{mkuid(10), mkuid(0, 7), mkuid(1), {}, locked}, b{mkuid(11), mkuid(0, 8), mkuid(1), {}, locked};
    for (int k = 0; k < count; ++k)
    {
        P<N> x;
        tune(x, k + variant);
        if constexpr (std::is_same_v<N, RBL>)
        {
            x.potential_decay_ = 0.5;
            x.activation_threshold_ = 0.9173F;  // no sum of weights comes near it
            x.absolute_refractory_period_ = k % 5 == 4;
        }
        else
        {
            x.activation_threshold_ = 0.9173F;  // no sum of weights comes near it
            x.do_not_save_ = k % 2;
        }
        pop.n.push_back(x);
        for (int j = 0; j < 2; ++j)
        {
            auto s = syn<Res>(j, k, 1.5F, 1 + (k / 2 + j) % 3);
            auto &u = s.p.rule_;
            u.w_min_ = k % 3 == 1 ? -1.F : 0.F;
            u.w_max_ = 2.F;
            u.synaptic_resource_ = j ? 2.F : 6.F;
            u.d_u_ = k % 2 ? 0.25F : 0.F;
            u.dopamine_plasticity_period_ = (k + j) % 4;
            s.p.weight_ = u.w_min_ + (2 - u.w_min_) * u.synaptic_resource_ / ((2 - u.w_min_) + u.synaptic_resource_);
            (j ? b : a).s.push_back(s);
        }
    }
    n.pops.push_back(pop);
    n.projs.push_back(a);
    n.projs.push_back(b);
    return n;
}
template <class N>
static void drive(mc::Ctx &c, STPair &x, int count, int spikes, int extra)
{
    c.log("step ", x.net.step, ": spike mask ", spikes, extra == 0 ? "" : extra == 1 ? ", forcing excitation" : extra == 2 ? ", reward" : extra == 3 ? ", punishment" : ", forcing and reward");
    if (spikes & 1) x.send_spikes(mkuid(10), {0});
    if (spikes & 2) x.send_spikes(mkuid(11), {1});
    std::vector<AnyImpact> in;
    for (uint32_t k = 0; k < static_cast<uint32_t>(count); ++k)
    {
        if (extra == 1 || extra == 4) in.push_back({k, 4, Out::EXCITATORY, 0, k});
        if (extra == 2 || extra == 4) in.push_back({k, 0.5F, Out::DOPAMINE, 0, k});
        if (extra == 3) in.push_back({k, -0.5F, Out::DOPAMINE, 0, k});
    }
    if (extra) x.send_impacts(mkuid(1), in, extra == 1 || extra == 4);
    x.step(c);
}
#endif

#if NET_PROP == 17 || NET_PROP == 11
template <class N>
static mc::Body training(int count, int depth, bool few)
{
    return [=](mc::Ctx &c)
    {
        const int variant = few ? 0 : c.choose(2) * 5;
        STPair x(c, plastic<N>(count, false, variant));
        for (int d = 0; d < depth; ++d)
        {
            const int spikes = c.choose(few ? 2 : 4) * (few ? 3 : 1), extra = c.choose(5);
            drive<N>(c, x, count, spikes, extra);
        }
        for (int d = 0; d < 2; ++d) x.step(c);
    };
}
// Several impact messages in one step, forcing and not, in every order.
template <class N>
static mc::Body messages(int most, int depth)
{
    return [=](mc::Ctx &c)
    {
        STPair x(c, plastic<N>(2, false, 1));
        for (int d = 0; d < depth; ++d)
        {
            std::ostringstream o;
            const int n = c.choose(most + 1);
            for (int i = 0; i < n; ++i)
            {
                const int kind = c.choose(6);
                const bool forcing = kind % 2 == 0;
                o << (forcing ? " forcing" : " plain");
                switch (kind / 2)
                {
                    case 0:
                        o << " excitation";
                        x.send_impacts(mkuid(1), {{0, 4, Out::EXCITATORY, 0, 0}, {1, d ? -0.25F : 0.F, Out::EXCITATORY, 0, 1}}, forcing);
                        break;
                    case 1:
                        o << " reward";
                        x.send_impacts(mkuid(1), {{0, 0.5F, Out::DOPAMINE, 0, 0}, {1, -0.25F, Out::DOPAMINE, 0, 1}}, forcing);
                        break;
                    case 2:
                        o << " excitation of the other neuron, inhibition";
                        x.send_impacts(mkuid(1), {{0, 4, Out::EXCITATORY, 0, 1}, {1, 0.25F, Out::INHIBITORY_CURRENT, 0, 0}}, forcing);
                        break;
                }
            }
            c.log("step ", x.net.step, ":", o.str());
            if (d == 0) x.send_spikes(mkuid(10), {0});
            x.step(c);
        }
        for (int d = 0; d < 2; ++d) x.step(c);
    };
}
// Synapses of one neuron from several projections, locked or not, and a fixed projection that forces.
template <class N>
static mc::Body mixed(int depth)
{
    return [=](mc::Ctx &c)
    {
        Net n = plastic<N>(3, false, 1);
        const int m = c.choose(4);
        std::get<Proj<Res>>(n.projs[0]).locked = m & 1;
        std::get<Proj<Res>>(n.projs[1]).locked = m & 2;
        // A plastic projection of another population must stay out of the training.
        n.projs.push_back(Proj<Res>{mkuid(12), mkuid(0, 9), mkuid(2), {syn<Res>(0, 0, 1, 1)}, false});
        n.projs.push_back(Proj<Delta>{mkuid(13), mkuid(1), mkuid(1), {syn<Delta>(0, 1, 4, 1), syn<Delta>(2, 0, 0.5F, 2, Out::DOPAMINE)}});
        c.log("locked mask ", m);
        STPair x(c, n);
        for (int d = 0; d < depth; ++d)
        {
            const int spikes = c.choose(4), extra = c.choose(3);
            drive<N>(c, x, 3, spikes, extra);
        }
    };
}
#endif

#if NET_PROP == 17
static void scenarios(mc::Runner &r)
{
    const int d = r.thorough() ? 4 : 3;
    const std::string b = "24 neuron and 48 synapse configurations in two variants, 20 inputs per step, depth ";
    r.scenario("all inputs, BLIFAT", training<RBL>(24, d, false), {2, 60, b + std::to_string(d)});
    r.scenario("all inputs, AltAI", training<RAL>(24, d, false), {2, 60, b + std::to_string(d)});
    r.scenario("longer histories, BLIFAT", training<RBL>(24, r.thorough() ? 6 : 4, true), {2, 60, "24 configurations, 10 inputs per step, depth " + std::to_string(r.thorough() ? 6 : 4)});
    r.scenario("longer histories, AltAI", training<RAL>(24, r.thorough() ? 6 : 4, true), {2, 60, "24 configurations, 10 inputs per step, depth " + std::to_string(r.thorough() ? 6 : 4)});
    r.scenario("several projections, BLIFAT", mixed<RBL>(d), {2, 60, "4 lock masks, 12 inputs per step, depth " + std::to_string(d)});
    r.scenario("several projections, AltAI", mixed<RAL>(d), {2, 60, "4 lock masks, 12 inputs per step, depth " + std::to_string(d)});
    const int most = r.thorough() ? 4 : 3;
    const std::string mb = "up to " + std::to_string(most) + " impact messages of 6 kinds per step, every order, depth 2";
    r.scenario("several messages per step, BLIFAT", messages<RBL>(most, 2), {2, 60, mb});
    r.scenario("several messages per step, AltAI", messages<RAL>(most, 2), {2, 60, mb});
}
#endif

#if NET_PROP == 13 || NET_PROP == 11
template <class N>
static mc::Body learning(int depth)
{
    return [=](mc::Ctx &c)
    {
        const int count = 6;
        Net n = plastic<N>(count, true, 1);
        STPair x(c, n);
        auto lock = [&](int which, bool l)
        {
            for (int i = 0; i < 2; ++i)
                if (which == i || which == 2) std::get<Proj<Res>>(x.net.projs[i]).locked = l;
        };
        for (int d = 0; d < depth; ++d)
        {
            const int op = c.choose(10);
            if (op == 0)
            {
                c.log("start_learning");
                x.sim.b.start_learning();
                lock(2, false);
            }
            else if (op == 1)
            {
                c.log("stop_learning");
                x.sim.b.stop_learning();
                lock(2, true);
            }
            else if (op < 4)
            {
                auto &p = x.sim.template projection<Res>(mkuid(op == 2 ? 10 : 11));
                c.log(p.is_locked() ? "unlock" : "lock", " projection ", op - 2);
                const bool l = !p.is_locked();
                if (l)
                    p.lock_weights();
                else
                    p.unlock_weights();
                lock(op - 2, l);
            }
            else
            {
                // Independent of the reference: a step changes nothing in a locked projection but the spike times.
                std::vector<std::vector<SP<Res>>> before(2);
                for (int i = 0; i < 2; ++i)
                    for (auto &s : x.sim.template projection<Res>(mkuid(10 + i))) before[i].push_back(std::get<0>(s));
                const int in = op - 4;
                drive<N>(c, x, count, in == 0 ? 0 : in == 5 ? 1 : 3, in < 5 ? in : 0);
                for (int i = 0; i < 2; ++i)
                {
                    auto &p = x.sim.template projection<Res>(mkuid(10 + i));
                    if (!p.is_locked()) continue;
                    for (size_t k = 0; k < p.size(); ++k)
                    {
                        const auto &s = std::get<0>(p[k]);
                        c.check(
                            s.weight_ == before[i][k].weight_ && s.rule_.synaptic_resource_ == before[i][k].rule_.synaptic_resource_,
                            "a step changed the weight of synapse ", k, " of a locked projection from ", before[i][k].weight_, " to ", s.weight_);
                    }
                }
            }
        }
    };
}

#endif

#if NET_PROP == 13
// Delta and additive STDP projections.
static mc::Body fixed_weights(int depth)
{
    return [=](mc::Ctx &c)
    {
        Net n;
        n.pops.push_back(Pop<LIF>{mkuid(1), {relay(), relay()}});
        n.projs.push_back(Proj<Delta>{mkuid(10), mkuid(1), mkuid(1), {syn<Delta>(0, 1, 0.5F, 1), syn<Delta>(1, 0, 0.5F, 2)}});
        Proj<Add> a{mkuid(11), mkuid(1), mkuid(1), {syn<Add>(0, 0, 0.25F, 1), syn<Add>(1, 1, 0.25F, 1)}};
        for (auto &s : a.s) s.p.rule_.tau_plus_ = s.p.rule_.tau_minus_ = 1;
        a.stdp[mkuid(1)] = true;
        n.projs.push_back(a);
        STPair x(c, n);
        for (int d = 0; d < depth; ++d)
        {
            const int op = c.choose(6);
            if (op < 2)
            {
                c.log(op ? "stop_learning" : "start_learning");
                if (op)
                    x.sim.b.stop_learning();
                else
                    x.sim.b.start_learning();
                for (auto &p : x.net.projs) std::visit([&](auto &q) { q.locked = op; }, p);
                continue;
            }
            const int k = op - 2;
            c.log("step ", x.net.step, ": input mask ", k);
            std::vector<AnyImpact> in;
            if (k & 1) in.push_back({0, 2, Out::EXCITATORY, 0, 0});
            if (k & 2) in.push_back({1, 2, Out::EXCITATORY, 0, 1});
            if (k) x.send_impacts(mkuid(1), in, false);
            std::vector<float> before;
            for (auto &s : x.sim.projection<Add>(mkuid(11))) before.push_back(std::get<0>(s).weight_);
            x.step(c);
            auto &p = x.sim.projection<Add>(mkuid(11));
            if (p.is_locked())
                for (size_t i = 0; i < p.size(); ++i)
                    if (std::get<0>(p[i]).weight_ != before[i])
                        c.known("additive-ignores-lock", "a step changed the weight of synapse ", i, " of a locked additive STDP projection from ", before[i], " to ", std::get<0>(p[i]).weight_);
        }
    };
}
static void scenarios(mc::Runner &r)
{
    const int d = r.thorough() ? 6 : 5;
    r.scenario("locking and unlocking, BLIFAT", learning<RBL>(d), {3, 60, "10 operations, depth " + std::to_string(d)});
    r.scenario("locking and unlocking, AltAI", learning<RAL>(d), {3, 60, "10 operations, depth " + std::to_string(d)});
    r.scenario("delta and additive STDP", fixed_weights(d + 1), {3, 60, "6 operations, depth " + std::to_string(d + 1)});
}
#endif

#if NET_PROP == 18
static mc::Body additive(int depth, int kinds)
{
    return [=](mc::Ctx &c)
    {
        const int kind = c.choose(kinds);
        Net n;
        n.pops.push_back(Pop<LIF>{mkuid(1), {relay(), relay()}});
        n.pops.push_back(Pop<LIF>{mkuid(2), {relay(), relay()}});
        Proj<Add> a{mkuid(10), mkuid(1), kind == 3 ? mkuid(1) : mkuid(2), {}};
        const float taus[][2] = {{1, 1}, {2, 1}, {0.5F, 0.5F}, {1, 2}};
        for (int i = 0; i < 4; ++i)
        {
            auto s = syn<Add>(i % 2, i / 2, 0.125F, 1 + i % 3);
            s.p.rule_.tau_plus_ = taus[i][0];
            s.p.rule_.tau_minus_ = taus[i][1];
            a.s.push_back(s);
            s.p.delay_ = 1;
            s.p.rule_.tau_plus_ = taus[3 - i][0];
            a.s.push_back(s);
        }
        // Kinds: nothing recorded; the target only recorded; both populations; recurrent; source only.
        if (kind == 1 || kind == 2) a.stdp[mkuid(2)] = false;
        if (kind == 2 || kind == 3 || kind == 4) a.stdp[mkuid(1)] = true;
        if (kind == 5) a.stdp[mkuid(1)] = false;
        n.projs.push_back(a);
        c.log("kind ", kind);
        STPair x(c, n);
        x.tol = 2e-5;
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(8);
            c.log("step ", d, ": spikes of A mask ", k & 3, ", of B mask ", k >> 2);
            std::vector<AnyImpact> in;
            if (k & 1) in.push_back({0, 8, Out::EXCITATORY, 0, 0});
            if (k & 2) in.push_back({1, 8, Out::EXCITATORY, 0, 1});
            if (k & 3) x.send_impacts(mkuid(1), in, false);
            if (k & 4) x.send_impacts(mkuid(2), {{0, 8, Out::EXCITATORY, 0, 0}, {0, 8, Out::EXCITATORY, 0, 1}}, false);
            x.step(c);
        }
        x.step(c);
    };
}
static void scenarios(mc::Runner &r)
{
    const int d = r.thorough() ? 6 : 5;
    r.scenario("all spike histories", additive(d, 6), {2, 60, "6 ways of recording, 8 synapses, all spike patterns of depth " + std::to_string(d)});
}
#endif

#if NET_PROP == 11
// Every order of the tasks of every round.
template <class S>
static mc::Body orders(int depth)
{
    return [=](mc::Ctx &c)
    {
        const size_t pop_part = depth > 3 ? 1 : 1 + c.choose(2), proj_part = 1 + c.choose(3);
        c.log("part sizes ", pop_part, " and ", proj_part);
        using Stub = knp::backends::cpu_executors::StubSchedule;
        Stub::at_post = [] { return false; };
        Stub::pick = [&c](size_t n) { return n > 1 ? static_cast<size_t>(c.choose(static_cast<int>(n))) : 0; };
        struct Reset
        {
            ~Reset() { Stub::pick = [](size_t) { return size_t{0}; }; }
        } reset;
        Net n;
        n.pops.push_back(Pop<LIF>{mkuid(1), {relay(), relay()}});
        n.projs.push_back(Proj<S>{mkuid(10), mkuid(1), mkuid(1), {syn<S>(0, 1, 2, 1), syn<S>(1, 0, 2, 2), syn<S>(0, 0, 0.5F, 2, Out::INHIBITORY_CURRENT)}});
        STPair x(n, {pop_part, proj_part});
        for (int d = 0; d < depth; ++d)
        {
            const int k = d == 0 ? 3 : c.choose(2);
            c.log("step ", d, ": input mask ", k);
            if (k) x.send_impacts(mkuid(1), {{0, 2, Out::EXCITATORY, 0, 0}, {1, 2, Out::EXCITATORY, 0, 1}}, false);
            x.step(c);
        }
    };
}
static void scenarios(mc::Runner &r)
{
    const bool t = r.thorough();
    const std::string s = "4 task orders and part sizes; ";
    r.scenario("every task order, delta", orders<Delta>(t ? 4 : 3), {8, 60, std::string(t ? "3" : "6") + " part sizes, every order of the tasks of each round, depth " + std::to_string(t ? 4 : 3)});
    r.scenario("every task order, resource STDP", orders<Res>(t ? 4 : 3), {8, 60, std::string(t ? "3" : "6") + " part sizes, every order of the tasks of each round, depth " + std::to_string(t ? 4 : 3)});
    r.scenario("external spikes, delta", external<Delta>(t ? 5 : 3, {1, 2, 3, 4, 6, 7}), {2, 25, s + "26 synapses, 6 spike patterns per step"});
    r.scenario("external spikes, resource STDP", external<Res>(t ? 5 : 3, {1, 2, 3, 4, 6, 7}), {2, 25, s + "26 synapses, 6 spike patterns per step"});
    r.scenario("every pair of synapses, delta", catalogue<Delta>(t ? 3 : 1), {3, 25, s + "1296 pairs of synapses, all spike sequences"});
    r.scenario("networks of populations", networks(t ? 6 : 4), {3, 25, s + "4 network shapes, 6 delay pairs, all input sequences"});
    r.scenario("resource STDP, BLIFAT", training<RBL>(24, t ? 3 : 2, false), {2, 60, s + "24 neuron and 48 synapse configurations in two variants, 20 inputs per step"});
    r.scenario("resource STDP, longer histories", training<RBL>(24, t ? 4 : 3, true), {2, 60, s + "24 configurations, 10 inputs per step"});
    r.scenario("several projections", mixed<RBL>(t ? 3 : 2), {2, 60, s + "4 lock masks, 12 inputs per step"});
    r.scenario("several messages per step", messages<RBL>(t ? 3 : 2, 2), {2, 60, s + "impact messages of 6 kinds per step, every order"});
    r.scenario("locking and unlocking", learning<RBL>(t ? 5 : 3), {3, 60, s + "10 operations per step"});
}
#endif

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C" + std::to_string(NET_PROP));
    r.explain(
        NET_PROP == 11 ? "Each execution runs a small network on the real multi-threaded backend beside a reference network. The thread pool is replaced by one that runs the tasks in the order the explorer decides. Every spike message, impact message, neuron field and synapse field is compared after each step."
                       : "Each execution runs a small network on the real single-threaded backend beside a reference network. Every spike "
        "message, impact message, neuron field and synapse field is compared after each step of each enumerated input sequence.");
    r.assume("delays are at least 1; w_max is above w_min; isi_max is at least 1");
    r.assume("weights are compared with a relative tolerance of 1e-5 (single precision)");
    scenarios(r);
    return r.finish();
}
