// C24: a backend holds exactly the network loaded into it, gives it back, and entities can be removed while it runs.
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/framework/synchronization.h>

#include "netref.hpp"

using namespace ref;
using BL = nt::BLIFATNeuron;
using LIF = nt::LIFNeuron;
using RBL = nt::SynapticResourceSTDPBLIFATNeuron;
using AL = nt::AltAILIF;
using RAL = nt::SynapticResourceSTDPAltAILIFNeuron;
using STB = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using MTB = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;

template <class N>
static P<N> relay()
{
    P<N> n;
    n.activation_threshold_ = 1;
    if constexpr (std::is_same_v<N, LIF>) n.leak_coefficient_ = 0;
    return n;
}
template <class S>
static Syn<S> syn(uint32_t from, uint32_t to, float w, uint32_t delay)
{
    Syn<S> s;
    s.p.weight_ = w;
    s.p.delay_ = delay;
    s.p.output_type_ = Out::EXCITATORY;
    s.from = from;
    s.to = to;
    return s;
}

template <class N>
static AnyPop make_pop(unsigned no, int size)
{
    Pop<N> p{mkuid(no), {}};
    for (int i = 0; i < size; ++i)
    {
        P<N> n = relay<N>();
        n.potential_ = static_cast<decltype(n.potential_)>(no + i);
        p.n.push_back(n);
    }
    return p;
}
static AnyPop any_pop(int type, unsigned no, int size)
{
    return type == 0 ? make_pop<BL>(no, size) : type == 1 ? make_pop<RBL>(no, size) : type == 2 ? make_pop<AL>(no, size) : type == 3 ? make_pop<RAL>(no, size) : make_pop<LIF>(no, size);
}
template <class S>
static AnyProj make_proj(unsigned no, int size, bool locked)
{
    Proj<S> p{mkuid(10 + no), no % 2 ? mkuid(1) : kc::UID{false}, mkuid(2), {}, locked};
    for (int i = 0; i < size; ++i) p.s.push_back(syn<S>(i, i + no, 0.5F * (no + i), 1 + i));
    return p;
}
static AnyProj any_proj(int type, unsigned no, int size, bool locked)
{
    return type == 0 ? make_proj<Delta>(no, size, locked) : type == 1 ? make_proj<Res>(no, size, locked) : make_proj<Add>(no, size, locked);
}

// The network data of a backend against a list of populations and projections.
static void same_data(mc::Ctx &c, const std::vector<kc::AllPopulationsVariant> &pops, const std::vector<kc::AllProjectionsVariant> &projs, const Net &net)
{
    c.check(pops.size() == net.pops.size(), pops.size(), " populations, expected ", net.pops.size());
    c.check(projs.size() == net.projs.size(), projs.size(), " projections, expected ", net.projs.size());
    for (size_t k = 0; k < pops.size(); ++k)
        std::visit(
            [&](const auto &p)
            {
                using N = typename std::decay_t<decltype(p)>::Neuron;
                auto *r = std::get_if<kc::Population<N>>(&pops[k]);
                c.check(r, "population ", k, " has another type");
                c.check(r->get_uid() == p.uid, "population ", k, " has UID ", std::string(r->get_uid()));
                c.check(r->size() == p.n.size(), "population ", k, " has ", r->size(), " neurons");
                for (size_t i = 0; i < p.n.size(); ++i)
                {
                    Diff d;
                    auto copy = p.n[i];
                    diff(d, (*r)[i], copy);
                    c.check(d.what.empty(), "population ", k, " neuron ", i, ": ", d.what);
                }
            },
            net.pops[k]);
    for (size_t k = 0; k < projs.size(); ++k)
        std::visit(
            [&](const auto &p)
            {
                using S = typename std::decay_t<decltype(p)>::Synapse;
                auto *r = std::get_if<kc::Projection<S>>(&projs[k]);
                c.check(r, "projection ", k, " has another type");
                c.check(r->get_uid() == p.uid, "projection ", k, " has UID ", std::string(r->get_uid()));
                c.check(r->get_presynaptic() == p.pre && r->get_postsynaptic() == p.post, "projection ", k, " connects other populations");
                c.check(r->is_locked() == p.locked, "projection ", k, p.locked ? " is not locked" : " is locked");
                c.check(r->size() == p.s.size(), "projection ", k, " has ", r->size(), " synapses");
                for (size_t i = 0; i < p.s.size(); ++i)
                {
                    Diff d;
                    diff(d, std::get<0>((*r)[i]), p.s[i].p);
                    c.check(d.what.empty(), "projection ", k, " synapse ", i, ": ", d.what);
                    c.check(std::get<1>((*r)[i]) == p.s[i].from && std::get<2>((*r)[i]) == p.s[i].to, "projection ", k, " synapse ", i, " connects other neurons");
                }
            },
            net.projs[k]);
}
static void same_data(mc::Ctx &c, const kc::Backend &b, const Net &net)
{
    const auto copy = knp::framework::synchronization::get_network_copy(b);
    same_data(c, copy.get_populations(), copy.get_projections(), net);
}
static std::vector<kc::AllPopulationsVariant> real_pops(const Net &n)
{
    std::vector<kc::AllPopulationsVariant> r;
    for (auto &a : n.pops) std::visit([&](const auto &p) { r.emplace_back(real(p)); }, a);
    return r;
}
static std::vector<kc::AllProjectionsVariant> real_projs(const Net &n)
{
    std::vector<kc::AllProjectionsVariant> r;
    for (auto &a : n.projs) std::visit([&](const auto &p) { r.emplace_back(real(p)); }, a);
    return r;
}
template <class F>
static bool throws(F f)
{
    try
    {
        f();
    }
    catch (std::exception &)
    {
        return true;
    }
    return false;
}

// Networks of every combination of types; loading replaces what was there.
template <class B>
static mc::Body round_trip(int max_pops, int max_projs, int loads)
{
    return [=](mc::Ctx &c)
    {
        B b;
        const auto pop_ok = static_cast<kc::Backend &>(b).get_supported_population_indexes();
        const auto proj_ok = static_cast<kc::Backend &>(b).get_supported_projection_indexes();
        auto in = [](const std::vector<size_t> &v, size_t x) { return std::find(v.begin(), v.end(), x) != v.end(); };
        auto names = [&](std::vector<std::string> s, const std::vector<size_t> &ok, auto all)
        {
            std::multiset<std::string> want;
            for (auto i : ok) want.insert(all.at(i));
            c.check(std::multiset<std::string>(s.begin(), s.end()) == want, "the names and the indexes of the supported types differ");
        };
        auto strings = [](auto... x) { return std::vector<std::string>{x...}; };
        names(b.get_supported_neurons(), pop_ok, std::apply(strings, nt::neurons_names));
        names(b.get_supported_synapses(), proj_ok, std::apply(strings, sy::synapses_names));
        for (int l = 0; l < loads; ++l)
        {
            c.transition();
            Net n;
            const int np = c.choose(max_pops + 1), nj = c.choose(max_projs + 1);
            for (int i = 0; i < np; ++i)
            {
                const int t = c.choose(5), size = 2 - (t + i + l) % 3;
                c.log("population of type ", t, " with ", size, " neurons");
                n.pops.push_back(any_pop(t, 1 + i + 3 * l, size));
            }
            for (int i = 0; i < nj; ++i)
            {
                const int t = c.choose(3), locked = c.choose(2), size = (t + i + l + 1) % 3;
                c.log("projection of type ", t, " with ", size, " synapses", locked ? ", locked" : "");
                n.projs.push_back(any_proj(t, i + 3 * l, size, locked));
            }
            const auto rp = real_pops(n);
            const auto rj = real_projs(n);
            bool pok = true, jok = true;
            for (auto &p : rp) pok = pok && in(pop_ok, p.index());
            for (auto &p : rj) jok = jok && in(proj_ok, p.index());
            // The interface of the particular backend takes entities of its types only.
            if (pok && jok && c.choose(2))
            {
                c.log("loaded through the interface of the backend");
                std::vector<typename B::PopulationVariants> tp;
                std::vector<typename B::ProjectionVariants> tj;
                for (auto &v : rp)
                    std::visit(
                        [&](auto &p)
                        {
                            if constexpr (std::is_constructible_v<typename B::PopulationVariants, decltype(p)>) tp.emplace_back(p);
                        },
                        v);
                for (auto &v : rj)
                    std::visit(
                        [&](auto &p)
                        {
                            if constexpr (std::is_constructible_v<typename B::ProjectionVariants, decltype(p)>) tj.emplace_back(p);
                        },
                        v);
                b.load_populations(tp);
                b.load_projections(tj);
                same_data(c, b, n);
                continue;
            }
            c.check(throws([&] { b.load_all_populations(rp); }) == !pok, pok ? "supported populations were refused" : "an unsupported population was accepted");
            c.check(throws([&] { b.load_all_projections(rj); }) == !jok, jok ? "supported projections were refused" : "an unsupported projection was accepted");
            if (!pok || !jok) return;
            same_data(c, b, n);
        }
    };
}

// Stepping, copying and removing, beside the reference network.
template <class B>
static mc::Body running(int depth)
{
    return [=](mc::Ctx &c)
    {
        Net n;
        n.pops.push_back(make_pop<LIF>(1, 2));
        n.pops.push_back(make_pop<LIF>(2, 2));
        Pop<RBL> learner{mkuid(3), {relay<RBL>()}};
        learner.n[0].potential_decay_ = 0.5F;
        learner.n[0].d_h_ = 0.5F;
        learner.n[0].isi_max_ = 3;
        n.pops.push_back(learner);
        for (auto &a : n.pops)
            if (auto *p = std::get_if<Pop<LIF>>(&a))
                for (auto &x : p->n) x.potential_ = 0;
        n.projs.push_back(Proj<Delta>{mkuid(10), mkuid(1), mkuid(2), {syn<Delta>(0, 0, 2, 1), syn<Delta>(1, 1, 2, 2)}});
        n.projs.push_back(Proj<Delta>{mkuid(11), mkuid(2), mkuid(1), {syn<Delta>(0, 1, 2, 1)}});
        Proj<Res> plastic{mkuid(12), mkuid(1), mkuid(3), {syn<Res>(0, 0, 1.5F, 1), syn<Res>(1, 0, 0.5F, 2)}, false};
        for (auto &s : plastic.s)
        {
            s.p.rule_.w_max_ = 2;
            s.p.rule_.synaptic_resource_ = 6;
            s.p.rule_.d_u_ = 0.25F;
            s.p.rule_.dopamine_plasticity_period_ = 2;
        }
        n.projs.push_back(plastic);
        n.projs.push_back(Proj<Delta>{mkuid(13), mkuid(2), mkuid(2), {syn<Delta>(1, 0, 2, 3)}});
        Pair<Sim<B>> x(n);
        x.order_free = std::is_same_v<B, MTB>;
        x.tol = 1e-4;
        std::unique_ptr<knp::framework::Network> kept;
        Net kept_ref;
        // Nothing is kept for what was removed.
        std::vector<kc::UID> removed;
        auto forgotten = [&]
        {
            for (auto &u : removed)
            {
                auto &e = static_cast<kc::Backend &>(x.sim.b).get_message_endpoint();
                c.check(e.unload_messages<km::SpikeMessage>(u).empty(), "spikes wait for the removed projection ", std::string(u));
                c.check(e.unload_messages<km::SynapticImpactMessage>(u).empty(), "impacts wait for the removed population ", std::string(u));
            }
        };
        auto pop_gone = [&](unsigned no) { return std::none_of(x.net.pops.begin(), x.net.pops.end(), [&](auto &a) { return std::visit([&](auto &p) { return p.uid == mkuid(no); }, a); }); };
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(9);
            if (k < 3)
            {
                c.log("step", k ? " with input to population 1, neuron " : "", k ? std::to_string(k - 1) : "");
                if (k && !pop_gone(1)) x.send_impacts(mkuid(1), {{0, 2, Out::EXCITATORY, 0, static_cast<uint32_t>(k - 1)}}, false);
                x.step(c);
                forgotten();
                continue;
            }
            if (k < 6)
            {
                static const std::vector<unsigned> which[] = {{1}, {2}, {3, 1, 77, 10}};
                std::vector<kc::UID> u;
                for (auto w : which[k - 3])
                {
                    u.push_back(mkuid(w));
                    x.net.pops.erase(std::remove_if(x.net.pops.begin(), x.net.pops.end(), [&](auto &a) { return std::visit([&](auto &p) { return p.uid == mkuid(w); }, a); }), x.net.pops.end());
                    if (w < 10) x.net.to_pop.erase(mkuid(w)), removed.push_back(mkuid(w));
                }
                c.log("remove populations ", show(which[k - 3]));
                x.sim.b.remove_populations(u);
            }
            else if (k < 8)
            {
                static const std::vector<unsigned> which[] = {{10}, {12, 2, 13, 12}};
                std::vector<kc::UID> u;
                for (auto w : which[k - 6])
                {
                    u.push_back(mkuid(w));
                    x.net.projs.erase(std::remove_if(x.net.projs.begin(), x.net.projs.end(), [&](auto &a) { return std::visit([&](auto &p) { return p.uid == mkuid(w); }, a); }), x.net.projs.end());
                    if (w >= 10) x.net.to_proj.erase(mkuid(w)), removed.push_back(mkuid(w));
                }
                c.log("remove projections ", show(which[k - 6]));
                x.sim.b.remove_projections(u);
            }
            else
            {
                c.log("copy the network");
                kept = std::make_unique<knp::framework::Network>(knp::framework::synchronization::get_network_copy(x.sim.b));
                kept_ref = x.net;
            }
            c.transition();
            same_data(c, x.sim.b, x.net);
        }
        x.step(c);
        forgotten();
        same_data(c, x.sim.b, x.net);
        if (kept) same_data(c, kept->get_populations(), kept->get_projections(), kept_ref);
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C24");
    r.explain("Networks are loaded into the real backends and read back; while they run beside a reference network, entities are removed and copies are taken at every possible moment.");
    r.assume("the pool of the multi-threaded backend is replaced by one that runs the tasks in order (other orders and races: C10, C11)");
    const bool t = r.thorough();
    r.scenario("load and read back, single-threaded", round_trip<STB>(2, 2, 1), {3, 30, "up to 2 populations of 5 types and 2 projections of 3 types, locked or not"});
    r.scenario("load and read back, multi-threaded", round_trip<MTB>(2, 2, 1), {3, 30, "up to 2 populations of 5 types and 2 projections of 3 types, locked or not"});
    r.scenario("load again, single-threaded", round_trip<STB>(1, 1, t ? 3 : 2), {3, 30, "up to 1 population and 1 projection, loaded repeatedly"});
    r.scenario("load again, multi-threaded", round_trip<MTB>(1, 1, t ? 3 : 2), {3, 30, "up to 1 population and 1 projection, loaded repeatedly"});
    const int d = t ? 6 : 5;
    r.scenario("removal, single-threaded", running<STB>(d), {3, 30, "9 operations, depth " + std::to_string(d)});
    r.scenario("removal, multi-threaded", running<MTB>(d), {3, 30, "9 operations, depth " + std::to_string(d)});
    return r.finish();
}
