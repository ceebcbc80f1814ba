// Population as a container: all operation sequences up to a depth against a plain list.
#include "util.hpp"

using namespace knp::core;
namespace nt = knp::neuron_traits;

// An identification of a neuron that is stored in a parameter of every neuron type.
template <class N>
static auto make(unsigned id)
{
    nt::neuron_parameters<N> p{};
    if constexpr (std::is_same_v<N, nt::LIFNeuron>)
        p.potential_ = id;
    else
        p.potential_ = static_cast<decltype(p.potential_)>(id);
    p.activation_threshold_ = id + 0.5;
    return p;
}
template <class P>
static unsigned id_of(const P &p)
{
    return static_cast<unsigned>(p.potential_);
}

template <class N>
static mc::Body body(int depth, const std::vector<std::vector<size_t>> &removals)
{
    return [depth, removals](mc::Ctx &c)
    {
        std::vector<unsigned> ref;
        unsigned next = 1;
        auto gen = [&](std::vector<int> mask)
        {
            const unsigned base = next;
            next += mask.size();
            for (size_t i = 0; i < mask.size(); ++i)
                if (mask[i]) ref.push_back(base + i);
            return [&c, base, mask](size_t i) -> std::optional<nt::neuron_parameters<N>>
            {
                c.check(i < mask.size(), "generator called with index ", i, " of ", mask.size());
                if (!mask[i]) return std::nullopt;
                return make<N>(base + i);
            };
        };
        std::unique_ptr<Population<N>> pp;
        const int start = c.choose(3);
        if (start == 0)
            pp = std::make_unique<Population<N>>(mkuid(1), gen({}), 0);
        else if (start == 1)
            pp = std::make_unique<Population<N>>(mkuid(1), gen({1, 0, 1, 1}), 4);
        else
            pp = std::make_unique<Population<N>>(gen({1, 1, 1, 1}), 4);
        c.log("construct variant ", start);
        const UID uid = pp->get_uid();
        if (start < 2) c.check(uid == mkuid(1), "UID differs from the given one");
        auto compare = [&]
        {
            const Population<N> &cp = *pp;
            c.check(cp.size() == ref.size(), "size ", cp.size(), " instead of ", ref.size());
            c.check(cp.get_neurons_parameters().size() == ref.size(), "get_neurons_parameters().size() is wrong");
            size_t i = 0;
            for (const auto &n : cp)
            {
                c.check(i < ref.size(), "iteration is too long");
                c.check(
                    id_of(n) == ref[i] && static_cast<double>(n.activation_threshold_) ==
                                              static_cast<double>(make<N>(ref[i]).activation_threshold_),
                    "neuron ", i, " is ", id_of(n), " instead of ", ref[i]);
                c.check(
                    id_of(cp[i]) == ref[i] && id_of(cp.get_neuron_parameters(i)) == ref[i] &&
                        id_of(cp.get_neurons_parameters()[i]) == ref[i],
                    "accessors disagree at ", i);
                ++i;
            }
            c.check(i == ref.size(), "iteration is too short");
            c.check(cp.get_uid() == uid, "UID changed");
        };
        compare();
        for (int d = 0; d < depth; ++d)
        {
            const int fixed = 9;
            const int op = c.choose(fixed + static_cast<int>(removals.size()));
            c.transition();
            if (op == 0)
            {
                c.log("add 1");
                pp->add_neurons(gen({1}), 1);
            }
            else if (op == 1)
            {
                c.log("add 3 (second omitted)");
                pp->add_neurons(gen({1, 0, 1}), 3);
            }
            else if (op == 2)
            {
                if (ref.empty()) c.prune();
                c.log("remove_neuron 0");
                pp->remove_neuron(0);
                ref.erase(ref.begin());
            }
            else if (op == 3)
            {
                if (ref.size() < 2) c.prune();
                c.log("remove_neuron last");
                pp->remove_neuron(ref.size() - 1);
                ref.pop_back();
            }
            else if (op == 4)
            {
                if (ref.size() < 2) c.prune();
                c.log("set_neuron_parameters 1");
                pp->set_neuron_parameters(1, make<N>(next));
                ref[1] = next++;
            }
            else if (op == 5)
            {
                c.log("set_neurons_parameters (copy, 2 neurons)");
                std::vector<nt::neuron_parameters<N>> v{make<N>(next), make<N>(next + 1)};
                ref = {next, next + 1};
                next += 2;
                pp->set_neurons_parameters(v);
                c.check(v.size() == 2, "argument was modified");
            }
            else if (op == 6)
            {
                c.log("set_neurons_parameters (move, 3 neurons)");
                std::vector<nt::neuron_parameters<N>> v{make<N>(next), make<N>(next + 1), make<N>(next + 2)};
                ref = {next, next + 1, next + 2};
                next += 3;
                pp->set_neurons_parameters(std::move(v));
            }
            else if (op == 7)
            {
                if (ref.empty()) c.prune();
                c.log("write through operator[] and iterators");
                (*pp)[0] = make<N>(next);
                ref[0] = next++;
                for (auto &n : *pp)
                    if (&n == &(*pp)[ref.size() - 1])
                    {
                        n = make<N>(next);
                        ref.back() = next++;
                    }
            }
            else if (op == 8)
            {
                c.log("copy, change the copy, keep the original");
                Population<N> q(*pp);
                c.check(q.size() == ref.size() && q.get_uid() == uid, "copy differs");
                q.add_neurons([](size_t) { return make<N>(200); }, 1);
                if (!ref.empty()) q[0] = make<N>(201);
            }
            else
            {
                const auto &idx = removals[op - fixed];
                std::set<size_t> s(idx.begin(), idx.end());
                if (!s.empty() && *s.rbegin() >= ref.size()) c.prune();
                c.log("remove_neurons ", show(idx));
                pp->remove_neurons(idx);
                for (auto i = s.rbegin(); i != s.rend(); ++i) ref.erase(ref.begin() + *i);
            }
            compare();
            mc::Hash h;
            h.adds(ref);
            c.state(h);
        }
        mc::Hash h;
        h.adds(ref);
        c.outcome(h);
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C08");
    r.explain(
        "Every sequence of population operations up to the depth, from three kinds of initial population and for every "
        "neuron type, is executed on the real Population and compared after each step with a plain list of neurons.");
    const bool th = r.thorough();
    std::vector<std::vector<size_t>> all{{}};
    for (size_t i = 0; i < 4; ++i) all.push_back({i});
    for (size_t i = 0; i < 4; ++i)
        for (size_t j = 0; j < 4; ++j) all.push_back({i, j});
    for (size_t i = 0; i < 4; ++i)
        for (size_t j = 0; j < 4; ++j)
            for (size_t k = 0; k < 4; ++k)
                if (i != j && j != k && i != k) all.push_back({i, j, k});
    std::vector<std::vector<size_t>> few{{0}, {1, 3}, {3, 1}, {2, 0, 1}, {1, 2}};
    mc::ScenarioOptions o;
    o.bound = "all removal lists over 4 indexes up to 3 long, depth " + std::to_string(th ? 5 : 4);
    r.scenario("blifat", body<nt::BLIFATNeuron>(th ? 5 : 4, all), o);
    o.bound = "14 operations, depth " + std::to_string(th ? 6 : 5);
    r.scenario("stdp_blifat", body<nt::SynapticResourceSTDPBLIFATNeuron>(th ? 6 : 5, few), o);
    r.scenario("altai", body<nt::AltAILIF>(th ? 6 : 5, few), o);
    r.scenario("stdp_altai", body<nt::SynapticResourceSTDPAltAILIFNeuron>(th ? 6 : 5, few), o);
    r.scenario("lif", body<nt::LIFNeuron>(th ? 6 : 5, few), o);
    return r.finish();
}
