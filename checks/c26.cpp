// Creators of projections and populations: every size and parameter within the bound, against the defining sets.
#include <knp/framework/population/creators.h>
#include <knp/framework/projection/connectors.h>
#include <knp/framework/projection/creators.h>

#include <deque>

#include "util.hpp"

// The random source of the creators: std::random_device is replaced, its value is enumerated by the explorer.
static unsigned seed_value = 0;
namespace std
{
random_device::result_type random_device::_M_getval() { return seed_value; }
}  // namespace std

using namespace knp::core;
namespace nt = knp::neuron_traits;
namespace sy = knp::synapse_traits;
namespace pc = knp::framework::projection::creators;
namespace popc = knp::framework::population::creators;

template <class X>
using Param = typename Projection<X>::SynapseParameters;
using Triple = std::array<size_t, 3>;  // source, target, weight

template <class X>
static Param<X> par(size_t w)
{
    Param<X> p;
    p.weight_ = static_cast<float>(w);
    return p;
}

template <class X>
static std::multiset<Triple> content(const Projection<X> &p)
{
    std::multiset<Triple> r;
    for (const auto &s : p)
        r.insert(
            {std::get<source_neuron_id>(s), std::get<target_neuron_id>(s),
             static_cast<size_t>(std::get<synapse_data>(s).weight_)});
    return r;
}

static std::string show3(const std::multiset<Triple> &s)
{
    std::ostringstream os;
    for (auto &t : s) os << t[0] << "->" << t[1] << '/' << t[2] << ' ';
    return os.str();
}

template <class X>
static void projections(mc::Ctx &c, int max)
{
    const UID a = mkuid(1), b = mkuid(2);
    const int kind = c.choose(12);
    const size_t n = c.choose(max + 1), m = c.choose(max + 1);
    const bool own = c.flag();
    // The parameters tell which connection they were made for.
    auto g2 = [](size_t i, size_t j) { return par<X>(1000 + 50 * i + j); };
    auto g1 = [](size_t i) { return par<X>(1000 + i); };
    auto w2 = [&](size_t i, size_t j) { return own ? 1000 + 50 * i + j : static_cast<size_t>(Param<X>().weight_); };
    auto w1 = [&](size_t i) { return own ? 1000 + i : static_cast<size_t>(Param<X>().weight_); };
    std::multiset<Triple> want;
    std::optional<Projection<X>> p;
    c.transition();
    UID wa = a, wb = b;
    switch (kind)
    {
        case 0:
        {
            c.log("all_to_all ", n, "x", m);
            if (own)
                p.emplace(pc::all_to_all<X>(a, b, n, m, g2));
            else
                p.emplace(pc::all_to_all<X>(a, b, n, m));
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < m; ++j) want.insert({i, j, w2(i, j)});
            break;
        }
        case 1:
        {
            if (!n || !m) c.prune();
            c.log("aligned ", n, "x", m);
            if (own)
                p.emplace(pc::aligned<X>(a, b, n, m, g2));
            else
                p.emplace(pc::aligned<X>(a, b, n, m));
            // The neurons of the larger population in order, each connected once; the neurons of the smaller one get
            // consecutive runs whose lengths differ at most by one.
            const size_t big = std::max(n, m), small = std::min(n, m);
            auto got = content(*p);
            c.check(got.size() == big, "aligned: ", got.size(), " synapses instead of ", big);
            std::vector<size_t> runs(small, 0);
            size_t last = 0, k = 0;
            std::map<size_t, size_t> by_big;
            for (auto &t : got)
            {
                c.check(t[0] < n && t[1] < m, "aligned: connection ", t[0], "->", t[1], " is outside the populations");
                const size_t x = n >= m ? t[0] : t[1], y = n >= m ? t[1] : t[0];
                c.check(by_big.emplace(x, y).second, "aligned: neuron ", x, " of the larger population is connected twice");
                c.check(t[2] == w2(t[0], t[1]), "aligned: parameters were made for another connection");
                ++runs[y];
            }
            for (auto &[x, y] : by_big)
            {
                c.check(y >= last, "aligned: runs are not consecutive");
                last = y;
                ++k;
            }
            auto [mn, mx] = std::minmax_element(runs.begin(), runs.end());
            c.check(*mx - *mn <= 1, "aligned: uneven distribution");
            want = got;
            break;
        }
        case 2:
        {
            if (m) c.prune();
            c.log("exclusive ", n);
            if (own)
                p.emplace(pc::exclusive<X>(a, b, n, g2));
            else
                p.emplace(pc::exclusive<X>(a, b, n));
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (i != j) want.insert({i, j, w2(i, j)});
            break;
        }
        case 3:
        {
            if (m) c.prune();
            c.log("one_to_one ", n);
            if (own)
                p.emplace(pc::one_to_one<X>(a, b, n, g1));
            else
                p.emplace(pc::one_to_one<X>(a, b, n));
            for (size_t i = 0; i < n; ++i) want.insert({i, i, w1(i)});
            break;
        }
        case 4:
        {
            c.log("from_container ", n);
            std::vector<typename Projection<X>::Synapse> v;
            std::deque<typename Projection<X>::Synapse> q;
            for (size_t i = 0; i < n; ++i)
            {
                v.emplace_back(par<X>(5 + i), i * m, i);
                q.push_back(v.back());
                want.insert({i * m, i, 5 + i});
            }
            if (own)
                p.emplace(pc::from_container<X, std::vector>(a, b, v));
            else
                p.emplace(pc::from_container<X, std::deque>(a, b, q));
            for (size_t i = 0; i < n; ++i)
                c.check(std::get<target_neuron_id>((*p)[i]) == i, "from_container: order is not kept");
            break;
        }
        case 5:
        {
            c.log("from_map ", n, "x", m);
            std::map<std::tuple<size_t, size_t>, Param<X>> mp;
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < m; ++j)
                    if (own || i != j)
                    {
                        mp[{i, j}] = par<X>(7 + i * 50 + j);
                        want.insert({i, j, 7 + i * 50 + j});
                    }
            p.emplace(pc::from_map<X, std::map>(a, b, mp));
            break;
        }
        case 6:
        {
            // The two certain probabilities.
            const double pr = c.flag() ? 1 : 0;
            seed_value = c.choose(4);
            c.log("fixed_probability ", n, "x", m, " p=", pr);
            if (own)
                p.emplace(pc::fixed_probability<X>(a, b, n, m, pr, g2));
            else
                p.emplace(pc::fixed_probability<X>(a, b, n, m, pr));
            if (pr == 1)
                for (size_t i = 0; i < n; ++i)
                    for (size_t j = 0; j < m; ++j) want.insert({i, j, w2(i, j)});
            break;
        }
        case 7:
        {
            seed_value = c.choose(16);
            c.log("fixed_probability ", n, "x", m, " p=0.5 seed ", seed_value);
            p.emplace(pc::fixed_probability<X>(a, b, n, m, 0.5, g2));
            // At most the full set, each pair at most once, parameters of the pair.
            std::multiset<Triple> got = content(*p);
            for (auto &t : got)
            {
                c.check(t[0] < n && t[1] < m && t[2] == 1000 + 50 * t[0] + t[1], "fixed_probability: wrong synapse");
                c.check(got.count(t) == 1, "fixed_probability: a pair is connected twice");
            }
            want = got;
            for (double bad : {-0.25, 1.25})
            {
                bool thrown = false;
                try
                {
                    (void)pc::fixed_probability<X>(a, b, n, m, bad, g2);
                }
                catch (const std::logic_error &)
                {
                    thrown = true;
                }
                c.check(thrown, "fixed_probability accepts probability ", bad);
            }
            break;
        }
        case 8:
        {
            c.log("index_based ", n, "x", m);
            auto rule = [&](size_t i, size_t j) { return own ? (i + j) % 2 == 0 : i < j; };
            p.emplace(pc::index_based<X>(
                a, b, n, m, [&](size_t i, size_t j) -> std::optional<Param<X>>
                { return rule(i, j) ? std::optional(par<X>(1000 + 50 * i + j)) : std::nullopt; }));
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < m; ++j)
                    if (rule(i, j)) want.insert({i, j, 1000 + 50 * i + j});
            break;
        }
        case 9:
        case 10:
        {
            if (!n || !m) c.prune();
            const size_t count = c.choose(4);
            seed_value = c.choose(8);
            const bool post = kind == 9;
            c.log(post ? "fixed_number_post " : "fixed_number_pre ", n, "x", m, " count ", count, " seed ", seed_value);
            if (own)
                p.emplace(post ? pc::fixed_number_post<X>(a, b, n, m, count, g2) : pc::fixed_number_pre<X>(a, b, n, m, count, g2));
            else
                p.emplace(post ? pc::fixed_number_post<X>(a, b, n, m, count) : pc::fixed_number_pre<X>(a, b, n, m, count));
            std::map<size_t, size_t> per;
            want = content(*p);
            for (auto &t : want)
            {
                c.check(t[0] < n && t[1] < m, "connection ", t[0], "->", t[1], " is outside the populations");
                c.check(t[2] == w2(t[0], t[1]), "parameters were made for another connection");
                ++per[post ? t[0] : t[1]];
            }
            for (size_t i = 0; i < (post ? n : m); ++i)
                c.check(per[i] == count, "neuron ", i, " has ", per[i], " connections instead of ", count);
            break;
        }
        case 11:
        {
            c.log("clone_projection ", n, "x", m);
            Projection<sy::AdditiveSTDPDeltaSynapse> src(
                mkuid(5), mkuid(6),
                [&](size_t i) -> std::optional<typename Projection<sy::AdditiveSTDPDeltaSynapse>::Synapse>
                { return std::make_tuple(par<sy::AdditiveSTDPDeltaSynapse>(i), i % 3, i * m); },
                n);
            const int over = c.choose(4);
            std::optional<UID> oa, ob;
            if (over & 1) oa = a;
            if (over & 2) ob = b;
            wa = oa.value_or(mkuid(5));
            wb = ob.value_or(mkuid(6));
            if (own)
                p.emplace(pc::clone_projection<X, sy::AdditiveSTDPDeltaSynapse>(src, g1, oa, ob));
            else
                p.emplace(pc::clone_projection<X, sy::AdditiveSTDPDeltaSynapse>(
                    src, knp::framework::projection::parameters_generators::default_synapse_gen_1param<X>, oa, ob));
            for (size_t i = 0; i < n; ++i) want.insert({i % 3, i * m, w1(i)});
            c.check(src.size() == n && src.get_uid() != p->get_uid(), "clone_projection altered or reused the source");
            break;
        }
    }
    const auto got = content(*p);
    c.check(got == want, "creator made ", show3(got), "instead of ", show3(want));
    c.check(p->get_presynaptic() == wa && p->get_postsynaptic() == wb, "populations of the projection are wrong");
    // The search index agrees.
    for (size_t i = 0; i < n; ++i)
    {
        size_t k = 0;
        for (auto &t : want) k += t[0] == i;
        c.check(p->find_synapses(i, Projection<X>::Search::by_presynaptic).size() == k, "search disagrees");
    }
    mc::Hash h;
    h.add(kind);
    for (auto &t : got) h.add(t[0]).add(t[1]).add(t[2]);
    c.state(h);
    c.outcome(h);
}

template <class N>
static void populations(mc::Ctx &c, int max)
{
    const size_t n = c.choose(max + 1);
    const int kind = c.choose(5);
    using Pr = typename Population<N>::NeuronParameters;
    auto make = [](unsigned i)
    {
        Pr p{};
        p.activation_threshold_ = 100 + i;
        p.potential_ = i;
        return p;
    };
    auto same = [&](const Pr &x, const Pr &y)
    { return x.activation_threshold_ == y.activation_threshold_ && x.potential_ == y.potential_; };
    c.transition();
    c.log("population creator ", kind, " size ", n);
    std::optional<Population<N>> p;
    std::vector<Pr> want;
    if (kind == 0 || kind == 1)
    {
        for (size_t i = 0; i < n; ++i) want.push_back(make(i * 3 + 1));
        if (kind == 0)
            p.emplace(popc::from_container<N, std::vector>(want));
        else
            p.emplace(popc::from_container<N, std::deque>(std::deque<Pr>(want.begin(), want.end())));
    }
    else if (kind == 2)
    {
        p.emplace(popc::make_default<N>(n));
        want.assign(n, Pr());
    }
    else if (kind == 3)
    {
        p.emplace(popc::make_clone<N>(n, make(9)));
        want.assign(n, make(9));
    }
    else
    {
        seed_value = c.choose(4);
        p.emplace(popc::make_random<N>(n));
        c.check(p->size() == n, "make_random made ", p->size(), " neurons instead of ", n);
        return;
    }
    c.check(p->size() == want.size(), "creator made ", p->size(), " neurons instead of ", want.size());
    for (size_t i = 0; i < n; ++i) c.check(same((*p)[i], want[i]), "neuron ", i, " has other parameters");
    mc::Hash h;
    h.add(kind).add(n);
    c.state(h);
    c.outcome(h);
}

// Structured creators with large populations.
static void large(mc::Ctx &c, int max)
{
    using X = sy::DeltaSynapse;
    const UID a = mkuid(1), b = mkuid(2);
    const size_t n = 1 + c.choose(max), m = 1 + c.choose(max);
    c.transition();
    c.log("aligned ", n, "x", m);
    const auto p = pc::aligned<X>(a, b, n, m, [](size_t i, size_t j) { return par<X>(1000 * i + j); });
    const size_t big = std::max(n, m), small = std::min(n, m);
    c.check(p.size() == big, "aligned: ", p.size(), " synapses instead of ", big);
    std::vector<size_t> runs(small, 0), partner(big, small);
    for (const auto &s : p)
    {
        const size_t i = std::get<source_neuron_id>(s), j = std::get<target_neuron_id>(s);
        c.check(i < n && j < m, "aligned: connection ", i, "->", j, " is outside the populations");
        c.check(std::get<synapse_data>(s).weight_ == 1000 * i + j, "aligned: parameters were made for another connection");
        const size_t x = n >= m ? i : j, y = n >= m ? j : i;
        c.check(partner[x] == small, "aligned: neuron ", x, " of the larger population is connected twice");
        partner[x] = y;
        ++runs[y];
    }
    for (size_t x = 1; x < big; ++x) c.check(partner[x - 1] <= partner[x], "aligned: runs are not consecutive");
    const auto [mn, mx] = std::minmax_element(runs.begin(), runs.end());
    c.check(*mx - *mn <= 1, "aligned: uneven distribution: between ", *mn, " and ", *mx, " connections");
    if (m == 1)
    {
        auto q = pc::one_to_one<X>(a, b, n, [](size_t i) { return par<X>(i); });
        c.check(q.size() == n, "one_to_one: ", q.size(), " synapses instead of ", n);
        for (size_t i = 0; i < n; ++i)
            c.check(
                std::get<source_neuron_id>(q[i]) == i && std::get<target_neuron_id>(q[i]) == i &&
                    std::get<synapse_data>(q[i]).weight_ == i,
                "one_to_one: synapse ", i, " is another one");
        auto e = pc::exclusive<X>(a, b, n);
        std::vector<bool> seen(n * n, false);
        c.check(e.size() == n * (n - 1), "exclusive: ", e.size(), " synapses");
        for (const auto &s : e)
        {
            const size_t i = std::get<source_neuron_id>(s), j = std::get<target_neuron_id>(s);
            c.check(i < n && j < n && i != j && !seen[i * n + j], "exclusive: wrong connection ", i, "->", j);
            seen[i * n + j] = true;
        }
    }
    if (n == 1 || m == 1 || n == m || n + 1 == m)
    {
        auto t = pc::all_to_all<X>(a, b, n, m);
        std::vector<bool> seen(n * m, false);
        c.check(t.size() == n * m, "all_to_all: ", t.size(), " synapses");
        for (const auto &s : t)
        {
            const size_t i = std::get<source_neuron_id>(s), j = std::get<target_neuron_id>(s);
            c.check(i < n && j < m && !seen[i * m + j], "all_to_all: wrong connection ", i, "->", j);
            seen[i * m + j] = true;
        }
    }
}

// Two creations in one program never share a UID.
int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C26");
    r.explain(
        "Every creator with every pair of population sizes up to the bound, own and default synapse parameters and, for the "
        "random ones, an enumerated seed in place of std::random_device, is executed and its connections compared with "
        "the set that its documentation defines.");
    const bool th = r.thorough();
    const int max = th ? 24 : 9;
    mc::ScenarioOptions o;
    o.bound = "12 creators, population sizes up to " + std::to_string(max);
    r.scenario("projections delta", [=](mc::Ctx &c) { projections<sy::DeltaSynapse>(c, max); }, o);
    r.scenario("projections stdp", [=](mc::Ctx &c) { projections<sy::SynapticResourceSTDPDeltaSynapse>(c, max); }, o);
    const int lmax = th ? 256 : 100;
    o.bound = "structured creators, all pairs of population sizes up to " + std::to_string(lmax);
    r.scenario("large populations", [=](mc::Ctx &c) { large(c, lmax); }, o);
    o.bound = "5 creators, sizes up to " + std::to_string(max);
    r.scenario("populations blifat", [=](mc::Ctx &c) { populations<nt::BLIFATNeuron>(c, max); }, o);
    r.scenario("populations lif", [=](mc::Ctx &c) { populations<nt::LIFNeuron>(c, max); }, o);
    r.scenario("populations altai", [=](mc::Ctx &c) { populations<nt::AltAILIF>(c, max); }, o);
    r.scenario("populations stdp", [=](mc::Ctx &c) { populations<nt::SynapticResourceSTDPBLIFATNeuron>(c, max); }, o);
    return r.finish();
}
