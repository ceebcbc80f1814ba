// Projection as a container: all operation sequences up to a depth against a plain vector.
#include "util.hpp"

using namespace knp::core;
namespace st = knp::synapse_traits;

struct Ref
{
    unsigned id, from, to;
};

template <class S>
static typename Projection<S>::Synapse make(unsigned id, unsigned from, unsigned to)
{
    typename st::synapse_parameters<S> p;
    p.weight_ = static_cast<float>(id);
    p.delay_ = 1 + id % 3;
    return {p, from, to};
}

template <class S>
static void compare(mc::Ctx &c, const Projection<S> &p, const std::vector<Ref> &ref)
{
    c.check(p.size() == ref.size(), "size is ", p.size(), ", expected ", ref.size());
    size_t i = 0;
    for (const auto &s : p)
    {
        c.check(i < ref.size(), "iteration visits more synapses than size()");
        const auto &r = ref[i];
        c.check(
            std::get<0>(s).weight_ == static_cast<float>(r.id) && std::get<0>(s).delay_ == 1 + r.id % 3 &&
                std::get<1>(s) == r.from && std::get<2>(s) == r.to,
            "synapse at position ", i, " is ", std::get<0>(s).weight_, ":", std::get<1>(s), "->", std::get<2>(s),
            ", expected ", r.id, ":", r.from, "->", r.to);
        const auto &t = p[i];
        c.check(std::get<0>(t).weight_ == static_cast<float>(r.id), "operator[] disagrees with iteration at ", i);
        ++i;
    }
    c.check(i == ref.size(), "iteration visits fewer synapses than size()");
}

template <class S>
static void check_find(mc::Ctx &c, const Projection<S> &p, const std::vector<Ref> &ref, unsigned n, bool pre)
{
    auto got = p.find_synapses(n, pre ? Projection<S>::Search::by_presynaptic : Projection<S>::Search::by_postsynaptic);
    std::sort(got.begin(), got.end());
    std::vector<size_t> want;
    for (size_t i = 0; i < ref.size(); ++i)
        if ((pre ? ref[i].from : ref[i].to) == n) want.push_back(i);
    c.check(
        got == want, "find_synapses(", n, pre ? ", by_presynaptic" : ", by_postsynaptic", ") returned ", show(got),
        ", the synapses with that neuron are at ", show(want));
}

template <class S>
static mc::Body body(int depth, bool small)
{
    return [depth, small](mc::Ctx &c)
    {
        unsigned next = 1;
        std::vector<Ref> ref;
        const unsigned N = 2;
        auto gen_list = [&](const std::vector<std::pair<unsigned, unsigned>> &l)
        {
            const unsigned base = next;
            next += l.size();
            for (size_t i = 0; i < l.size(); ++i)
                if (l[i].first <= 9) ref.push_back({static_cast<unsigned>(base + i), l[i].first, l[i].second});
            return [&c, base, l](size_t i) -> std::optional<typename Projection<S>::Synapse>
            {
                c.check(i < l.size(), "generator called with index ", i, " of ", l.size());
                if (l[i].first > 9) return std::nullopt;
                return make<S>(base + i, l[i].first, l[i].second);
            };
        };
        // Starting states: empty, or constructed from a generator (index built by the constructor).
        const int start = c.choose(3);
        std::unique_ptr<Projection<S>> pp;
        if (start == 0)
            pp = std::make_unique<Projection<S>>(mkuid(1), mkuid(2), mkuid(3));
        else if (start == 1)
            pp = std::make_unique<Projection<S>>(
                mkuid(1), mkuid(2), mkuid(3), gen_list({{0, 1}, {1, 0}, {10, 10}, {0, 0}}), 4);
        else
            pp = std::make_unique<Projection<S>>(mkuid(2), mkuid(3), gen_list({{0, 1}, {10, 10}, {1, 1}, {1, 0}, {0, 1}}), 5);
        c.log("construct variant ", start);
        Projection<S> &p = *pp;
        c.check(p.get_presynaptic() == mkuid(2) && p.get_postsynaptic() == mkuid(3), "endpoint populations are wrong");
        if (start != 2) c.check(p.get_uid() == mkuid(1), "UID is wrong");
        compare(c, p, ref);
        const auto uid = p.get_uid();
        for (int d = 0; d < depth; ++d)
        {
            // ops: 4 single adds, 1 multi add, find x4, remove_synapse (first/last/middle), remove_if(odd), rm pre x2,
            // rm post x3 (one unknown neuron), clear
            const int op = c.choose(small ? 15 : 18);
            c.transition();
            switch (op)
            {
                case 0:
                case 1:
                {
                    const unsigned f = op, t = 1 - op;
                    size_t n = p.add_synapses(gen_list({{f, t}}), 1);
                    c.log("add ", f, "->", t);
                    c.check(n == 1, "add_synapses returned ", n, " for one synapse");
                    break;
                }
                case 2:
                {
                    const size_t before = ref.size();
                    size_t n = p.add_synapses(gen_list({{0, 0}, {10, 10}, {1, 1}}), 3);
                    c.log("add 0->0, none, 1->1");
                    c.check(n == ref.size() - before, "add_synapses returned ", n, " for two synapses");
                    break;
                }
                case 3:
                    c.log("find pre 0");
                    check_find<S>(c, p, ref, 0, true);
                    break;
                case 4:
                    c.log("find post 0");
                    check_find<S>(c, p, ref, 0, false);
                    break;
                case 5:
                case 6:
                case 7:
                {
                    if (ref.empty()) c.prune();
                    const size_t i = op == 5 ? 0 : (op == 6 ? ref.size() - 1 : ref.size() / 2);
                    if (op == 6 && ref.size() < 2) c.prune();
                    if (op == 7 && ref.size() < 3) c.prune();
                    c.log("remove_synapse ", i);
                    p.remove_synapse(i);
                    ref.erase(ref.begin() + i);
                    break;
                }
                case 8:
                {
                    size_t n = p.remove_synapse_if(
                        [](const typename Projection<S>::Synapse &s)
                        { return static_cast<int>(std::get<0>(s).weight_) % 2 == 1; });
                    size_t b = ref.size();
                    ref.erase(
                        std::remove_if(ref.begin(), ref.end(), [](const Ref &r) { return r.id % 2 == 1; }), ref.end());
                    c.log("remove_synapse_if odd -> ", n);
                    c.check(n == b - ref.size(), "remove_synapse_if returned ", n, ", removed ", b - ref.size());
                    break;
                }
                case 9:
                case 10:
                {
                    const unsigned neuron = op - 9;
                    size_t n = p.remove_presynaptic_neuron_synapses(neuron);
                    size_t b = ref.size();
                    ref.erase(
                        std::remove_if(ref.begin(), ref.end(), [&](const Ref &r) { return r.from == neuron; }),
                        ref.end());
                    c.log("remove_presynaptic ", neuron, " -> ", n);
                    c.check(n == b - ref.size(), "returned ", n, ", removed ", b - ref.size());
                    break;
                }
                case 11:
                case 12:
                case 13:
                {
                    const unsigned neuron = op - 11;
                    size_t n = p.remove_postsynaptic_neuron_synapses(neuron);
                    size_t b = ref.size();
                    ref.erase(
                        std::remove_if(ref.begin(), ref.end(), [&](const Ref &r) { return r.to == neuron; }), ref.end());
                    c.log("remove_postsynaptic ", neuron, " -> ", n);
                    c.check(n == b - ref.size(), "returned ", n, ", removed ", b - ref.size());
                    break;
                }
                case 14:
                    c.log("clear");
                    p.clear();
                    ref.clear();
                    break;
                case 15:
                {
                    c.log("add 1->2 twice");
                    p.add_synapses(gen_list({{1, 2}, {1, 2}}), 2);
                    break;
                }
                case 16:
                    c.log("find post 1");
                    check_find<S>(c, p, ref, 1, false);
                    break;
                case 17:
                {
                    c.log("copy");
                    auto q = std::make_unique<Projection<S>>(p);
                    compare(c, *q, ref);
                    pp = std::move(q);
                    // The copy replaces the original.
                    break;
                }
            }
            compare(c, *pp, ref);
            if (op == 17)
            {
                // `p` is gone: continue on the copy only at the last position.
                break;
            }
            mc::Hash h;
            h.add(ref.size());
            for (auto &r : ref) h.add(r.id * 16 + r.from * 4 + r.to);
            c.state(h);
        }
        for (unsigned n = 0; n < 3; ++n)
            for (bool pre : {true, false}) check_find<S>(c, *pp, ref, n, pre);
        c.check(pp->get_uid() == uid && pp->get_postsynaptic() == mkuid(3), "UIDs changed");
        mc::Hash h;
        for (auto &r : ref) h.add(r.id * 16 + r.from * 4 + r.to);
        c.outcome(h);
        (void)N;
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C07");
    r.explain(
        "Every sequence of projection operations up to the depth, from three kinds of initial projection, is executed on "
        "the real Projection and compared after each step with a plain list of synapses (size, order, iteration, "
        "indexing, returned counts, find_synapses both ways). states = distinct contents reached.");
    const bool th = r.thorough();
    mc::ScenarioOptions o;
    o.bound = th ? "18 operations, depth 5" : "18 operations, depth 4";
    r.scenario("delta", body<st::DeltaSynapse>(th ? 5 : 4, false), o);
    o.bound = th ? "18 operations, depth 4" : "18 operations, depth 3";
    r.scenario("additive_stdp", body<st::AdditiveSTDPDeltaSynapse>(th ? 4 : 3, false), o);
    r.scenario("resource_stdp", body<st::SynapticResourceSTDPDeltaSynapse>(th ? 4 : 3, false), o);
    return r.finish();
}
