// Network as a container of populations and projections: operation sequences against plain lists.
#include <knp/framework/model.h>
#include <knp/framework/network.h>

#include "util.hpp"

using namespace knp::core;
namespace nt = knp::neuron_traits;
namespace sy = knp::synapse_traits;
using knp::framework::Network;

using A = nt::BLIFATNeuron;
using B = nt::LIFNeuron;
using S = sy::DeltaSynapse;
using T = sy::SynapticResourceSTDPDeltaSynapse;

struct RefPop
{
    UID uid;
    int type;
    std::vector<unsigned> ids;
};
struct RefProj
{
    UID uid, pre, post;
    int type;
    // weight id, source, target
    std::vector<std::array<unsigned, 3>> syn;
};

template <class N>
static auto neuron(unsigned id)
{
    nt::neuron_parameters<N> p{};
    p.activation_threshold_ = id;
    return p;
}
template <class N>
static Population<N> population(UID u, const std::vector<unsigned> &ids)
{
    return Population<N>(u, [&](size_t i) { return std::optional(neuron<N>(ids[i])); }, ids.size());
}
template <class X>
static typename Projection<X>::Synapse synapse(const std::array<unsigned, 3> &s)
{
    typename Projection<X>::SynapseParameters p;
    p.weight_ = s[0];
    return {p, s[1], s[2]};
}
template <class X>
static Projection<X> projection(const RefProj &r)
{
    return Projection<X>(
        r.uid, r.pre, r.post, [&](size_t i) { return std::optional(synapse<X>(r.syn[i])); }, r.syn.size());
}

template <class E, class F>
static bool throws(F &&f)
{
    try
    {
        f();
    }
    catch (const E &)
    {
        return true;
    }
    return false;
}

struct World
{
    mc::Ctx &c;
    Network net{mkuid(77)};
    std::vector<RefPop> pops;
    std::vector<RefProj> projs;
    UID net_uid = mkuid(77);

    RefPop *fpop(UID u)
    {
        for (auto &p : pops)
            if (p.uid == u) return &p;
        return nullptr;
    }
    RefProj *fproj(UID u)
    {
        for (auto &p : projs)
            if (p.uid == u) return &p;
        return nullptr;
    }

    template <class N>
    void same_pop(const Population<N> &p, const RefPop &r)
    {
        c.check(p.get_uid() == r.uid && p.size() == r.ids.size(), "population ", std::string(r.uid), " is altered");
        for (size_t i = 0; i < r.ids.size(); ++i)
            c.check(
                static_cast<unsigned>(p[i].activation_threshold_) == r.ids[i], "neuron ", i, " of a population is altered");
    }
    template <class X>
    void same_proj(const Projection<X> &p, const RefProj &r)
    {
        c.check(
            p.get_uid() == r.uid && p.get_presynaptic() == r.pre && p.get_postsynaptic() == r.post &&
                p.size() == r.syn.size(),
            "projection ", std::string(r.uid), " is altered");
        for (size_t i = 0; i < r.syn.size(); ++i)
            c.check(
                static_cast<unsigned>(std::get<synapse_data>(p[i]).weight_) == r.syn[i][0] &&
                    std::get<source_neuron_id>(p[i]) == r.syn[i][1] && std::get<target_neuron_id>(p[i]) == r.syn[i][2],
                "synapse ", i, " of a projection is altered");
    }
    template <class N>
    void typed_pop(UID u, int type)
    {
        auto *r = fpop(u);
        const Network &cn = net;
        if (!r)
        {
            c.check(
                throws<std::logic_error>([&] { (void)net.get_population<N>(u); }) &&
                    throws<std::logic_error>([&] { (void)cn.get_population<N>(u); }) &&
                    throws<std::logic_error>([&] { (void)net.get_population(u); }) &&
                    throws<std::logic_error>([&] { net.remove_population(u); }),
                "a missing population is not refused with logic_error");
        }
        else if (r->type == type)
        {
            same_pop(net.get_population<N>(u), *r);
            same_pop(cn.get_population<N>(u), *r);
            same_pop(std::get<Population<N>>(net.get_population(u)), *r);
            c.check(&net.get_population<N>(u) == &cn.get_population<N>(u), "get_population returns a copy");
        }
        else
            c.check(
                throws<std::bad_variant_access>([&] { (void)net.get_population<N>(u); }),
                "a population is returned as another type");
    }
    template <class X>
    void typed_proj(UID u, int type)
    {
        auto *r = fproj(u);
        const Network &cn = net;
        if (!r)
        {
            c.check(
                throws<std::logic_error>([&] { (void)net.get_projection<X>(u); }) &&
                    throws<std::logic_error>([&] { (void)cn.get_projection<X>(u); }) &&
                    throws<std::logic_error>([&] { (void)net.get_projection(u); }) &&
                    throws<std::logic_error>([&] { net.remove_projection(u); }),
                "a missing projection is not refused with logic_error");
        }
        else if (r->type == type)
        {
            same_proj(net.get_projection<X>(u), *r);
            same_proj(cn.get_projection<X>(u), *r);
            same_proj(std::get<Projection<X>>(net.get_projection(u)), *r);
            c.check(&net.get_projection<X>(u) == &cn.get_projection<X>(u), "get_projection returns a copy");
        }
        else
            c.check(
                throws<std::bad_variant_access>([&] { (void)net.get_projection<X>(u); }),
                "a projection is returned as another type");
    }

    void compare()
    {
        const Network &cn = net;
        c.check(net.get_uid() == net_uid, "network UID changed");
        c.check(cn.populations_count() == pops.size(), "populations_count() is ", cn.populations_count());
        c.check(cn.projections_count() == projs.size(), "projections_count() is ", cn.projections_count());
        c.check(cn.get_populations().size() == pops.size() && cn.get_projections().size() == projs.size(), "containers");
        c.check(
            static_cast<size_t>(std::distance(cn.begin_populations(), cn.end_populations())) == pops.size() &&
                static_cast<size_t>(std::distance(cn.begin_projections(), cn.end_projections())) == projs.size() &&
                static_cast<size_t>(std::distance(net.begin_populations(), net.end_populations())) == pops.size() &&
                static_cast<size_t>(std::distance(net.begin_projections(), net.end_projections())) == projs.size(),
            "iteration length");
        size_t i = 0;
        for (auto it = cn.begin_populations(); it != cn.end_populations(); ++it, ++i)
        {
            UID u = std::visit([](const auto &p) { return p.get_uid(); }, *it);
            c.check(u == pops[i].uid, "population ", i, " of the iteration is another one");
        }
        i = 0;
        for (auto it = cn.begin_projections(); it != cn.end_projections(); ++it, ++i)
        {
            UID u = std::visit([](const auto &p) { return p.get_uid(); }, *it);
            c.check(u == projs[i].uid, "projection ", i, " of the iteration is another one");
        }
        for (unsigned u = 1; u <= 3; ++u)
        {
            c.check(cn.is_population_exists(mkuid(u)) == (fpop(mkuid(u)) != nullptr), "is_population_exists");
            c.check(cn.is_projection_exists(mkuid(u, 1)) == (fproj(mkuid(u, 1)) != nullptr), "is_projection_exists");
            c.check(!cn.is_projection_exists(mkuid(u)) && !cn.is_population_exists(mkuid(u, 1)), "kinds are mixed up");
            typed_pop<A>(mkuid(u), 0);
            typed_pop<B>(mkuid(u), 1);
            typed_proj<S>(mkuid(u, 1), 0);
            typed_proj<T>(mkuid(u, 1), 1);
        }
        for (auto &r : projs)
            if (r.type == 0)
                typed_proj<S>(r.uid, 0);
            else
                typed_proj<T>(r.uid, 1);
    }

    template <class N>
    void add_pop(UID u, int type, int how, std::vector<unsigned> ids)
    {
        const bool dup = fpop(u) != nullptr;
        auto p = population<N>(u, ids);
        auto act = [&]
        {
            switch (how)
            {
                case 0:
                    net.add_population(AllPopulationsVariant(std::move(p)));
                    break;
                case 1:
                    net.add_population<Population<N>>(std::move(p));
                    break;
                case 2:
                    net.add_population<Population<N>>(p);
                    same_pop(p, RefPop{u, type, ids});
                    break;
                case 3:
                    net.add_population(std::move(p));
                    break;
            }
        };
        c.log("add population ", std::string(u).substr(34), " type ", type, " way ", how, dup ? " (duplicate)" : "");
        if (dup)
            c.check(throws<std::logic_error>(act), "a second population with the same UID is accepted");
        else
        {
            act();
            pops.push_back({u, type, ids});
        }
    }
    template <class X>
    void add_proj(int how, RefProj r)
    {
        const bool dup = fproj(r.uid) != nullptr;
        auto p = projection<X>(r);
        auto act = [&]
        {
            switch (how)
            {
                case 0:
                    net.add_projection(AllProjectionsVariant(std::move(p)));
                    break;
                case 1:
                    net.add_projection<Projection<X>>(std::move(p));
                    break;
                case 2:
                    net.add_projection<Projection<X>>(p);
                    same_proj(p, r);
                    break;
                case 3:
                    net.add_projection<X>(
                        r.uid, r.pre, r.post, [&](size_t i) { return std::optional(synapse<X>(r.syn[i])); },
                        r.syn.size());
                    break;
            }
        };
        c.log("add projection ", std::string(r.uid).substr(34), " type ", r.type, " way ", how, dup ? " (duplicate)" : "");
        if (dup)
            c.check(throws<std::logic_error>(act), "a second projection with the same UID is accepted");
        else
        {
            act();
            projs.push_back(r);
        }
    }

    template <class N, class M>
    void connect(const Population<N> &a, const Population<M> &b, int how, const RefPop &ra, const RefPop &rb)
    {
        RefProj r{UID(false), a.get_uid(), b.get_uid(), 0, {}};
        const bool ok = fpop(a.get_uid()) && fpop(b.get_uid());
        auto act = [&]
        {
            if (how == 0)
            {
                r.uid = net.connect_populations<S>(
                    a, b,
                    [](size_t x, size_t y)
                    {
                        typename Projection<S>::SynapseParameters p;
                        p.weight_ = 100 + 10 * x + y;
                        return p;
                    });
                for (size_t y = 0; y < rb.ids.size(); ++y)
                    for (size_t x = 0; x < ra.ids.size(); ++x)
                        r.syn.push_back({static_cast<unsigned>(100 + 10 * x + y), static_cast<unsigned>(x), static_cast<unsigned>(y)});
            }
            else
            {
                r.uid = net.connect_populations<T>(
                    a, b, [](size_t i) -> std::optional<Projection<T>::Synapse>
                    { return i == 1 ? std::nullopt : std::optional(synapse<T>({unsigned(200 + i), 0, 0})); },
                    3);
                r.type = 1;
                r.syn = {{200, 0, 0}, {202, 0, 0}};
            }
        };
        c.log("connect populations way ", how, ok ? "" : " (one is missing)");
        if (!ok)
            c.check(throws<std::logic_error>(act), "populations outside the network are connected");
        else
        {
            act();
            c.check(!fproj(r.uid), "connect_populations returned the UID of another projection");
            projs.push_back(r);
        }
    }
};

static mc::Body body(int depth, bool wide)
{
    return [depth, wide](mc::Ctx &c)
    {
        World w{c};
        w.compare();
        unsigned next = 10;
        for (int d = 0; d < depth; ++d)
        {
            const int op = c.choose(8);
            c.transition();
            if (op == 0)
            {
                const int u = 1 + c.choose(2);
                const int type = c.choose(2);
                const int how = c.choose(4);
                // Populations of different sizes, also empty ones.
                std::vector<unsigned> ids{next, next + 1};
                ids.resize((how + u) % 4 == 3 ? 0 : (how + u) % 4 == 2 ? 1 : 2);
                next += 2;
                if (type == 0)
                    w.add_pop<A>(mkuid(u), 0, how, ids);
                else
                    w.add_pop<B>(mkuid(u), 1, how, ids);
            }
            else if (op == 1)
            {
                const UID u = mkuid(1 + c.choose(2));
                if (!w.fpop(u)) c.prune();
                c.log("remove population");
                w.net.remove_population(u);
                w.pops.erase(w.pops.begin() + (w.fpop(u) - w.pops.data()));
            }
            else if (op == 2)
            {
                const int u = 1 + c.choose(2);
                const int type = c.choose(2);
                const int how = c.choose(4);
                // Also projections of a population to itself, without synapses and without a source.
                const int shape = (how + u + type) % 4;
                RefProj r{mkuid(u, 1), shape == 3 ? UID(false) : mkuid(1), mkuid(shape == 1 ? 1 : 2), type, {{next, 0, 1}, {next + 1, 1, 0}}};
                if (shape == 2) r.syn.clear();
                next += 2;
                if (type == 0)
                    w.add_proj<S>(how, r);
                else
                    w.add_proj<T>(how, r);
            }
            else if (op == 3)
            {
                const UID u = mkuid(1 + c.choose(2), 1);
                if (!w.fproj(u)) c.prune();
                c.log("remove projection");
                w.net.remove_projection(u);
                w.projs.erase(w.projs.begin() + (w.fproj(u) - w.projs.data()));
            }
            else if (op == 4)
            {
                const int how = c.choose(2);
                const int from = c.choose(2);
                RefPop ra{mkuid(1 + from), 0, {5, 6}}, rb{mkuid(2 - from), 0, {7}};
                auto a = population<A>(ra.uid, ra.ids);
                auto b = population<B>(rb.uid, rb.ids);
                w.connect(a, b, how, ra, rb);
            }
            else if (op == 5)
            {
                if (w.pops.empty() || w.pops.back().ids.empty()) c.prune();
                c.log("change the last population through the network");
                auto &r = w.pops.back();
                if (r.type == 0)
                    w.net.get_population<A>(r.uid)[0].activation_threshold_ = next;
                else
                    std::get<Population<B>>(w.net.get_population(r.uid))[0].activation_threshold_ = next;
                r.ids[0] = next++;
            }
            else if (op == 6)
            {
                if (w.projs.empty() || w.projs.front().syn.empty()) c.prune();
                c.log("change the first projection through the network");
                auto &r = w.projs.front();
                if (r.type == 0)
                    std::get<synapse_data>(w.net.get_projection<S>(r.uid)[0]).weight_ = next;
                else
                    std::get<synapse_data>(std::get<Projection<T>>(w.net.get_projection(r.uid))[0]).weight_ = next;
                r.syn[0][0] = next++;
            }
            else
            {
                c.log("move the network away and a copy back");
                Network a(std::move(w.net));
                Network b(a);
                // A change of the copied-from network may not be seen in the copy.
                if (!w.pops.empty()) a.remove_population(w.pops[0].uid);
                if (!w.projs.empty()) a.remove_projection(w.projs[0].uid);
                w.net = std::move(b);
            }
            w.compare();
            mc::Hash h;
            for (auto &p : w.pops) h.add(std::hash<std::string>()(std::string(p.uid))).add(p.type).adds(p.ids);
            for (auto &p : w.projs) h.add(p.type).add(p.syn.size());
            c.state(h);
        }
        c.outcome(w.pops.size() * 16 + w.projs.size());
    };
}

// The order of many entities: a network of four populations and four projections, removals and additions only.
static mc::Body order(int depth)
{
    return [depth](mc::Ctx &c)
    {
        World w{c};
        auto add_pop = [&](unsigned u)
        {
            if (u % 2)
                w.add_pop<A>(mkuid(u), 0, u % 4, {10 * u, 10 * u + 1});
            else
                w.add_pop<B>(mkuid(u), 1, u % 4, {10 * u});
        };
        auto add_proj = [&](unsigned u)
        {
            RefProj r{mkuid(u, 1), mkuid(1), mkuid(2), static_cast<int>(u % 2), {{10 * u, 0, 1}, {10 * u + 1, 1, 0}}};
            if (u % 2)
                w.add_proj<T>(u % 4, r);
            else
                w.add_proj<S>(u % 4, r);
        };
        for (unsigned u = 1; u <= 4; ++u)
        {
            add_pop(u);
            add_proj(u);
        }
        w.compare();
        for (int d = 0; d < depth; ++d)
        {
            const bool is_pop = c.flag();
            const unsigned u = 1 + c.choose(4);
            const UID uid = is_pop ? mkuid(u) : mkuid(u, 1);
            c.transition();
            if (is_pop)
            {
                if (auto *r = w.fpop(uid))
                {
                    c.log("remove population ", u);
                    w.net.remove_population(uid);
                    w.pops.erase(w.pops.begin() + (r - w.pops.data()));
                }
                else
                    add_pop(u);
            }
            else if (auto *r = w.fproj(uid))
            {
                c.log("remove projection ", u);
                w.net.remove_projection(uid);
                w.projs.erase(w.projs.begin() + (r - w.projs.data()));
            }
            else
                add_proj(u);
            w.compare();
            mc::Hash h;
            for (auto &p : w.pops) h.add(std::hash<std::string>()(std::string(p.uid)));
            h.add(77);
            for (auto &p : w.projs) h.add(std::hash<std::string>()(std::string(p.uid)));
            c.state(h);
        }
    };
}

// Channels of a model.
static void channels(mc::Ctx &c)
{
    Network n(mkuid(9));
    n.add_population(population<A>(mkuid(1), {1}));
    n.add_population(population<B>(mkuid(2), {1}));
    n.add_projection(projection<S>({mkuid(1, 1), UID(false), mkuid(1), 0, {{1, 0, 0}}}));
    n.add_projection(projection<T>({mkuid(2, 1), UID(false), mkuid(2), 1, {{1, 0, 0}}}));
    knp::framework::Model m(std::move(n));
    std::multiset<std::pair<std::string, std::string>> in, out;
    for (int d = 0; d < 4; ++d)
    {
        const int op = c.choose(4);
        const UID ch = mkuid(1 + c.choose(2), 2);
        const unsigned target = 1 + c.choose(3);
        c.transition();
        const UID pop = mkuid(target), proj = mkuid(target, 1);
        const bool ok = target < 3;
        auto act = [&]
        {
            if (op == 0) m.add_input_channel(ch, proj);
            if (op == 1) m.add_output_channel(ch, pop);
            if (op == 2) m.connect_input_projection(ch, projection<S>({proj, UID(false), pop, 0, {}}));
            if (op == 3) m.connect_output_population(ch, population<B>(pop, {}));
        };
        if (!ok)
            c.check(throws<std::logic_error>(act), "a channel is attached to an entity that is not in the network");
        else
        {
            act();
            if (op % 2 == 0)
                in.insert({std::string(ch), std::string(proj)});
            else
                out.insert({std::string(ch), std::string(pop)});
        }
        decltype(in) in2, out2;
        for (auto &[a, b] : m.get_input_channels()) in2.insert({std::string(a), std::string(b)});
        for (auto &[a, b] : m.get_output_channels()) out2.insert({std::string(a), std::string(b)});
        c.check(in == in2, "input channels differ from those added");
        c.check(out == out2, "output channels differ from those added");
        c.check(m.get_network().populations_count() == 2 && m.get_network().projections_count() == 2, "network altered");
    }
    mc::Hash h;
    h.add(in.size()).add(out.size());
    c.outcome(h);
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C19");
    r.explain(
        "Every sequence of network operations up to the depth (adding populations and projections in all ways, duplicates "
        "included, removing, connecting, changing in place, copying and moving the network) is executed on the real "
        "Network and compared after each step, through all accessors, with plain lists; the same for channels of a model.");
    const bool th = r.thorough();
    mc::ScenarioOptions o;
    o.bound = th ? "8 kinds of operation, depth 4" : "8 kinds of operation, depth 3";
    r.scenario("network", body(th ? 4 : 3, th), o);
    o.bound = th ? "4 populations and 4 projections, removals and additions, depth 6" : "4 populations and 4 projections, removals and additions, depth 4";
    r.scenario("order", order(th ? 6 : 4), o);
    o.bound = "4 channel operations, depth 4";
    r.scenario("model channels", channels, o);
    return r.finish();
}
