// Normalisation of neuron and synapse parameters of a network.
#include <knp/framework/network.h>
#include <knp/framework/normalization/neuron_accessors.h>
#include <knp/framework/normalization/neuron_normalizer.h>
#include <knp/framework/normalization/normalizers.h>
#include <knp/framework/normalization/synapse_accessors.h>
#include <knp/framework/normalization/synapse_normalizer.h>

#include "util.hpp"

using namespace knp::core;
namespace nt = knp::neuron_traits;
namespace sy = knp::synapse_traits;
namespace nm = knp::framework::normalization;
using knp::framework::Network;

template <class V>
static void rescaler(mc::Ctx &c, const std::vector<V> &grid)
{
    const V a = c.pick(grid), b = c.pick(grid), p = c.pick(grid), q = c.pick(grid);
    if (a == b) c.prune();
    c.transition();
    nm::Rescaler<V> r(a, b, p, q);
    c.log("rescale [", a, ",", b, "] to [", p, ",", q, "]");
    for (int k = -4; k <= 12; ++k)
    {
        const double t = k / 8.0;
        const V x = a + (b - a) * static_cast<V>(t);
        const double want = p + (static_cast<double>(q) - p) * ((static_cast<double>(x) - a) / (static_cast<double>(b) - a));
        const double got = r(x);
        const double tol = 1e-4 * (1 + std::abs(static_cast<double>(p)) + std::abs(static_cast<double>(q)) + std::abs(want));
        c.check(std::abs(got - want) <= tol, "value ", x, " becomes ", got, " instead of ", want);
    }
    mc::Hash h;
    h.addf(a).addf(b).addf(p).addf(q);
    c.state(h);
    c.outcome(h);
}

template <class N>
static Population<N> population(UID u, std::vector<int> v)
{
    return Population<N>(
        u,
        [&](size_t i)
        {
            nt::neuron_parameters<N> p{};
            p.potential_ = v[i];
            p.activation_threshold_ = 40 + i;
            return std::optional(p);
        },
        v.size());
}
template <class X>
static Projection<X> projection(UID u, std::vector<int> v)
{
    return Projection<X>(
        u, UID(false), mkuid(1),
        [&](size_t i) -> std::optional<typename Projection<X>::Synapse>
        {
            typename Projection<X>::SynapseParameters p;
            p.weight_ = v[i];
            p.delay_ = 2 + i;
            return std::make_tuple(p, i, 1 + i);
        },
        v.size());
}

template <class T>
struct Tag
{
    using type = T;
};

static std::vector<double> potentials(const Network &n)
{
    std::vector<double> r;
    for (auto &v : n.get_populations())
        std::visit(
            [&](const auto &p)
            {
                r.push_back(-999);
                for (const auto &x : p) r.push_back(static_cast<double>(x.potential_));
                for (const auto &x : p) r.push_back(static_cast<double>(x.activation_threshold_));
            },
            v);
    return r;
}
static std::vector<double> weights(const Network &n)
{
    std::vector<double> r;
    for (auto &v : n.get_projections())
        std::visit(
            [&](const auto &p)
            {
                r.push_back(-999);
                for (const auto &x : p) r.push_back(std::get<synapse_data>(x).weight_);
                for (const auto &x : p)
                {
                    r.push_back(std::get<synapse_data>(x).delay_);
                    r.push_back(std::get<source_neuron_id>(x));
                    r.push_back(std::get<target_neuron_id>(x));
                }
            },
            v);
    return r;
}

static void network(mc::Ctx &c)
{
    const int np = c.choose(4), nj = c.choose(4);
    Network n(mkuid(50));
    std::vector<double> wp, ww;
    const std::vector<int> vals{3, 0, 7, 2};
    // The corrector counts its calls: every value is corrected exactly once.
    unsigned calls = 0;
    const int kind = c.choose(3);
    auto corrected = [kind](double x) { return kind == 0 ? 2 * x + 5 : kind == 1 ? x - 0.5 : 3 - x; };
    auto corr = [&calls, corrected](const double &x) -> double
    {
        ++calls;
        return corrected(x);
    };
    unsigned values = 0;
    auto addp = [&](auto tag, unsigned u, bool unused)
    {
        using N = typename decltype(tag)::type;
        std::vector<int> v(vals.begin(), vals.begin() + c.choose(4));
        n.add_population(population<N>(mkuid(u), v));
        wp.push_back(-999);
        for (int x : v) wp.push_back(corrected(x));
        for (size_t i = 0; i < v.size(); ++i) wp.push_back(40 + i);
        values += v.size();
    };
    if (np > 0) addp(Tag<nt::BLIFATNeuron>{}, 1, false);
    if (np > 1) addp(Tag<nt::AltAILIF>{}, 2, false);
    if (np > 2) addp(Tag<nt::SynapticResourceSTDPBLIFATNeuron>{}, 3, false);
    const unsigned pvalues = values;
    auto addj = [&](auto tag, unsigned u)
    {
        using X = typename decltype(tag)::type;
        std::vector<int> v(vals.begin(), vals.begin() + c.choose(4));
        n.add_projection(projection<X>(mkuid(u, 1), v));
        ww.push_back(-999);
        for (int x : v) ww.push_back(corrected(x));
        for (size_t i = 0; i < v.size(); ++i)
        {
            ww.push_back(2 + i);
            ww.push_back(i);
            ww.push_back(1 + i);
        }
        values += v.size();
    };
    if (nj > 0) addj(Tag<sy::DeltaSynapse>{}, 1);
    if (nj > 1) addj(Tag<sy::SynapticResourceSTDPDeltaSynapse>{}, 2);
    if (nj > 2) addj(Tag<sy::AdditiveSTDPDeltaSynapse>{}, 3);
    const auto p0 = potentials(n), w0 = weights(n);
    const int mode = c.choose(4);
    c.transition();
    c.log("normalise: ", np, " populations, ", nj, " projections, mode ", mode);
    const nm::ValueCorrector<double> cf = corr;
    if (mode == 0)
    {
        nm::normalize_neurons<nm::PotentialAccessor, nm::PotentialAccessor>(n, corr);
        c.check(potentials(n) == wp, "potentials after normalize_neurons are ", show(potentials(n)), " instead of ", show(wp));
        c.check(weights(n) == w0, "normalize_neurons altered projections");
        c.check(calls == pvalues, "the corrector was called ", calls, " times for ", pvalues, " neurons");
    }
    else if (mode == 1)
    {
        const Network m =
            nm::normalize_neurons<nm::PotentialAccessor, nm::PotentialAccessor, nm::ValueCorrector<double>>(std::as_const(n), cf);
        c.check(potentials(m) == wp && weights(m) == w0, "normalised copy is wrong: ", show(potentials(m)));
        c.check(potentials(n) == p0 && weights(n) == w0, "normalising a const network altered it");
    }
    else if (mode == 2)
    {
        nm::normalize_synapses<nm::WeightAccessor, nm::WeightAccessor>(n, corr);
        c.check(weights(n) == ww, "weights after normalize_synapses are ", show(weights(n)), " instead of ", show(ww));
        c.check(potentials(n) == p0, "normalize_synapses altered populations");
        c.check(calls == values - pvalues, "the corrector was called ", calls, " times");
    }
    else
    {
        const Network m =
            nm::normalize_synapses<nm::WeightAccessor, nm::WeightAccessor, nm::ValueCorrector<double>>(std::as_const(n), cf);
        c.check(weights(m) == ww && potentials(m) == p0, "normalised copy is wrong: ", show(weights(m)));
        c.check(potentials(n) == p0 && weights(n) == w0, "normalising a const network altered it");
    }
    mc::Hash h;
    for (double d : potentials(n)) h.addf(d);
    for (double d : weights(n)) h.addf(d);
    c.state(h);
    c.outcome(h);
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C30");
    r.explain(
        "Rescaler on every combination of interval ends of a grid against the affine map that takes the one interval to the "
        "other, and both normalisers, in place and copying, on every network within the bound: every value corrected once, "
        "nothing else touched.");
    mc::ScenarioOptions o;
    std::vector<double> g{-100, -1.5, 0, 0.25, 1, 255};
    std::vector<float> gf{-10, -1.5, 0, 0.5, 255};
    o.bound = "interval ends from a grid of 6 values";
    r.scenario("rescaler double", [=](mc::Ctx &c) { rescaler<double>(c, g); }, o);
    o.bound = "interval ends from a grid of 5 values";
    r.scenario("rescaler float", [=](mc::Ctx &c) { rescaler<float>(c, gf); }, o);
    o.bound = "up to 3 populations and 3 projections of different types with up to 3 elements each";
    r.scenario("network", network, o);
    return r.finish();
}
