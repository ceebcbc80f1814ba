// C38: a network saved in the SONATA format is loaded back as it was.
#include <knp/core/population.h>
#include <knp/core/projection.h>
#include <knp/framework/network.h>
#include <knp/framework/sonata/network_io.h>
#include <rapidjson/document.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

#include "util.hpp"

namespace kc = knp::core;
namespace kn = knp::neuron_traits;
namespace ks = knp::synapse_traits;
namespace fs = std::filesystem;
using knp::framework::Network;

// All parameters of neurons and synapses.
template <class F> void fields(kn::neuron_parameters<kn::BLIFATNeuron> &n, F f)
{
#define X(m) f(#m, n.m);
    X(n_time_steps_since_last_firing_) X(activation_threshold_) X(additional_threshold_) X(dynamic_threshold_) X(threshold_decay_)
    X(threshold_increment_) X(postsynaptic_trace_) X(postsynaptic_trace_decay_) X(postsynaptic_trace_increment_) X(inhibitory_conductance_)
    X(inhibitory_conductance_decay_) X(potential_) X(pre_impact_potential_) X(potential_decay_) X(bursting_phase_) X(bursting_period_)
    X(reflexive_weight_) X(reversal_inhibitory_potential_) X(absolute_refractory_period_) X(potential_reset_value_) X(min_potential_)
    X(total_blocking_period_) X(dopamine_value_) X(stochastic_stimulation_) X(random_number_generator_state_)
}
template <class F> void fields(kn::neuron_parameters<kn::AltAILIF> &n, F f)
{
    X(is_diff_) X(is_reset_) X(leak_rev_) X(saturate_) X(do_not_save_) X(potential_) X(pre_impact_potential_) X(activation_threshold_)
    X(negative_activation_threshold_) X(potential_leak_) X(potential_reset_value_) X(dopamine_value_) X(additional_threshold_) X(activity_time_)
}
template <class F> void fields(kn::neuron_parameters<kn::LIFNeuron> &n, F f)
{
    X(potential_) X(potential_reset_value_) X(activation_threshold_) X(leak_coefficient_) X(refract_counter_) X(refract_period_)
}
template <class N, class F> void fields(kn::neuron_parameters<kn::SynapticResourceSTDPNeuron<N>> &n, F f)
{
    fields(static_cast<kn::neuron_parameters<N> &>(n), f);
    X(synapse_sum_threshold_coefficient_) X(dopamine_plasticity_time_) X(free_synaptic_resource_) X(synaptic_resource_threshold_)
    X(resource_drain_coefficient_) X(stability_) X(stability_change_parameter_) X(stability_change_at_isi_) X(isi_max_) X(d_h_) X(isi_status_)
    X(last_step_) X(last_spike_step_) X(first_isi_spike_) X(is_being_forced_)
}
template <class F> void fields(ks::synapse_parameters<ks::DeltaSynapse> &n, F f)
{
    X(weight_) X(delay_) X(output_type_)
}
template <class F> void fields(ks::synapse_parameters<ks::SynapticResourceSTDPDeltaSynapse> &n, F f)
{
    X(weight_) X(delay_) X(output_type_)
    X(rule_.synaptic_resource_) X(rule_.w_min_) X(rule_.w_max_) X(rule_.d_u_) X(rule_.dopamine_plasticity_period_) X(rule_.last_spike_step_)
    X(rule_.had_hebbian_update_) X(rule_.has_contributed_)
}
#undef X

// 0: default; 1: a small value of its own for each field and element; 2: greatest; 3: least; 4: in between, with all digits.
template <class T>
T value(int how, unsigned n, T def)
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_enum_v<T>)
        return std::is_same_v<T, kn::ISIPeriodType> ? T((how + n) % 4) : T((how + n) % 4 == 3 ? 0 : (how + n) % 4);
    else if constexpr (std::is_same_v<T, bool>)
        return how == 0 ? def : how == 1 ? n % 2 : how == 2 ? !def : how == 3 ? def : n % 3 == 0;
    else if constexpr (std::is_integral_v<T>)
        return how == 0 ? def : how == 1 ? T(n + 2) : how == 2 ? L::max() : how == 3 ? L::min() : T(L::max() / 3 + n);
    else
        return how == 0 ? def : how == 1 ? T(n) + T(0.5) : how == 2 ? L::max() : how == 3 ? L::lowest() : T(-1) / T(n + 3);
}
template <class P>
P params(int how, unsigned element, int only = -1)
{
    P p;
    int i = 0;
    fields(p, [&](const char *, auto &x)
    {
        if (only < 0 || i == only) x = value(how, element * 40 + i, x);
        ++i;
    });
    return p;
}
template <class P>
int count_fields()
{
    P p;
    int i = 0;
    fields(p, [&](const char *, auto &) { ++i; });
    return i;
}
template <class P>
void same_params(mc::Ctx &c, P a, P b, const std::string &what)
{
    std::vector<std::string> x;
    const auto text = [](auto v)
    {
        std::ostringstream os;
        os.precision(20);
        if constexpr (std::is_enum_v<decltype(v)>) os << int(v);
        else os << +v;
        return os.str();
    };
    fields(a, [&](const char *, auto &v) { x.push_back(text(v)); });
    size_t i = 0;
    fields(b, [&](const char *name, auto &v)
    {
        c.check(text(v) == x[i], what, ": ", name, " was ", x[i], ", is ", text(v), " after loading");
        ++i;
    });
}

using Pops = std::vector<kc::AllPopulationsVariant>;
using Projs = std::vector<kc::AllProjectionsVariant>;

static void same(mc::Ctx &c, const Network &was, const Network &is)
{
    c.check(was.get_uid() == is.get_uid(), "another UID of the network");
    c.check(was.populations_count() == is.populations_count(), is.populations_count(), " populations instead of ", was.populations_count());
    c.check(was.projections_count() == is.projections_count(), is.projections_count(), " projections instead of ", was.projections_count());
    for (auto i = was.begin_populations(); i != was.end_populations(); ++i)
        std::visit([&](const auto &p)
        {
            using P = std::decay_t<decltype(p)>;
            const P *q = nullptr;
            for (auto j = is.begin_populations(); j != is.end_populations(); ++j)
                std::visit([&](const auto &o)
                {
                    if constexpr (std::is_same_v<std::decay_t<decltype(o)>, P>)
                        if (o.get_uid() == p.get_uid()) q = &o;
                }, *j);
            const std::string what = "population " + std::string(p.get_uid());
            c.check(q, what, " of this type is not in the loaded network");
            c.check(q->size() == p.size(), what, " has ", q->size(), " neurons instead of ", p.size());
            for (size_t k = 0; k < p.size(); ++k) same_params(c, p[k], (*q)[k], what + ", neuron " + std::to_string(k));
        }, *i);
    for (auto i = was.begin_projections(); i != was.end_projections(); ++i)
        std::visit([&](const auto &p)
        {
            using P = std::decay_t<decltype(p)>;
            if constexpr (!std::is_same_v<P, kc::Projection<ks::AdditiveSTDPDeltaSynapse>>)
            {
                const P *q = nullptr;
                for (auto j = is.begin_projections(); j != is.end_projections(); ++j)
                    std::visit([&](const auto &o)
                    {
                        if constexpr (std::is_same_v<std::decay_t<decltype(o)>, P>)
                            if (o.get_uid() == p.get_uid()) q = &o;
                    }, *j);
                const std::string what = "projection " + std::string(p.get_uid());
                c.check(q, what, " of this type is not in the loaded network");
                c.check(q->get_presynaptic() == p.get_presynaptic() && q->get_postsynaptic() == p.get_postsynaptic(), what, " connects other populations");
                c.check(q->is_locked() == p.is_locked(), what, q->is_locked() ? " is locked" : " is not locked");
                c.check(q->size() == p.size(), what, " has ", q->size(), " synapses instead of ", p.size());
                for (size_t k = 0; k < p.size(); ++k)
                {
                    c.check(std::get<1>(p[k]) == std::get<1>((*q)[k]) && std::get<2>(p[k]) == std::get<2>((*q)[k]), what, ": synapse ", k, " connects ", std::get<1>((*q)[k]), " and ", std::get<2>((*q)[k]), " instead of ",
                            std::get<1>(p[k]), " and ", std::get<2>(p[k]));
                    same_params(c, std::get<0>(p[k]), std::get<0>((*q)[k]), what + ", synapse " + std::to_string(k));
                }
            }
        }, *i);
}

// Lines of a table of types: the types of the network, each once.
static void types(mc::Ctx &c, const fs::path &path, const std::string &header, const std::set<std::string> &want, bool exact)
{
    std::ifstream f(path);
    std::string line;
    std::map<std::string, int> ids;
    c.check(bool(std::getline(f, line)) || want.empty(), path.filename(), " is missing");
    c.check(want.empty() || line == header, path.filename(), " begins with ", line);
    while (std::getline(f, line)) ++ids[line.substr(0, line.find(' '))];
    for (auto &x : ids) c.check(x.second == 1, path.filename(), " lists type ", x.first, " ", x.second, " times");
    for (auto &x : want) c.check(ids.count(x), path.filename(), " does not list type ", x);
    (void)exact;
}
static rapidjson::Document json(mc::Ctx &c, const fs::path &path)
{
    std::ifstream f(path);
    std::ostringstream os;
    os << f.rdbuf();
    rapidjson::Document d;
    d.Parse(os.str().c_str());
    c.check(!d.HasParseError() && d.IsObject(), path.filename(), " is not JSON: ", os.str());
    return d;
}
static void files(mc::Ctx &c, const fs::path &dir, const Network &n)
{
    const auto base = json(c, dir / "config.json");
    c.check(base.HasMember("networks") && base["networks"].IsArray() && base["networks"].Size() == 1 && base["networks"][0].IsString() && base["networks"][0].GetString() == (dir / "network" / "network_config.json").string(),
            "config.json does not name the configuration of the network");
    const auto d = json(c, dir / "network" / "network_config.json");
    c.check(d.HasMember("networks") && d["networks"].IsObject(), "network_config.json has no networks");
    for (int e = 0; e < 2; ++e)
    {
        const auto &nets = d["networks"];
        const char *key = e ? "edges" : "nodes";
        c.check(nets.HasMember(key) && nets[key].IsArray() && nets[key].Size() == 1, "network_config.json has no ", key);
        const auto &x = nets[key][0];
        std::set<std::string> uids, listed;
        if (e)
            for (auto i = n.begin_projections(); i != n.end_projections(); ++i) std::visit([&](const auto &p) { uids.insert(std::string(p.get_uid())); }, *i);
        else
            for (auto i = n.begin_populations(); i != n.end_populations(); ++i) std::visit([&](const auto &p) { uids.insert(std::string(p.get_uid())); }, *i);
        c.check(x.HasMember("populations") && x["populations"].IsObject(), "network_config.json has no populations of ", key);
        for (auto m = x["populations"].MemberBegin(); m != x["populations"].MemberEnd(); ++m) c.check(listed.insert(m->name.GetString()).second, m->name.GetString(), " is listed twice");
        c.check(listed == uids, "network_config.json lists other ", key);
        for (int t = 0; t < 2; ++t)
        {
            const std::string f = std::string(e ? "edge" : "node") + (t ? "_types_file" : "s_file");
            c.check(x.HasMember(f.c_str()) && x[f.c_str()].IsString(), "network_config.json does not name ", f);
            std::string path = x[f.c_str()].GetString();
            const std::string prefix = "$NETWORK_DIR/";
            c.check(path.rfind(prefix, 0) == 0, f, " is ", path);
            if (t && uids.empty()) continue;
            c.check(fs::is_regular_file(dir / "network" / path.substr(prefix.size())), f, " is ", path, ", which does not exist");
        }
    }
    // Numbers of types: their places in the lists of types.
    std::set<std::string> neurons, synapses;
    for (auto i = n.begin_populations(); i != n.end_populations(); ++i) neurons.insert(std::to_string(100 + i->index()));
    for (auto i = n.begin_projections(); i != n.end_projections(); ++i) synapses.insert(std::to_string(100 + i->index()));
    types(c, dir / "network" / "neurons.csv", "node_type_id model_type model_template model_name", neurons, false);
    types(c, dir / "network" / "synapses.csv", "edge_type_id dynamics_params model_template", synapses, false);
}

static fs::path scratch(const char *name)
{
    const char *base = getenv("KNP_VERIF_SCRATCH");
    return fs::path(base ? base : "/tmp") / ("c38." + std::to_string(getpid()) + "." + name);
}
struct Dir
{
    fs::path path;
    explicit Dir(const char *name) : path(scratch(name))
    {
        fs::remove_all(path);
        fs::create_directories(path);
    }
    ~Dir()
    {
        std::error_code e;
        fs::remove_all(path, e);
    }
};
static void round_trip(mc::Ctx &c, const fs::path &dir, const Network &n)
{
    knp::framework::sonata::save_network(n, dir);
    files(c, dir, n);
    const Network m = knp::framework::sonata::load_network(dir);
    same(c, n, m);
    c.transition();
}

template <class N>
kc::AllPopulationsVariant population(const kc::UID &uid, size_t size, int how, int only = -1)
{
    return kc::Population<N>(uid, [=](size_t i) { return std::make_optional(params<kn::neuron_parameters<N>>(how, i, only)); }, size);
}
template <class S>
kc::AllProjectionsVariant projection(const kc::UID &uid, const kc::UID &from, const kc::UID &to, size_t size, int how, int locked, int only = -1)
{
    kc::Projection<S> p(uid, from, to, [=](size_t i) { return std::make_optional(std::make_tuple(params<ks::synapse_parameters<S>>(how, i, only), how == 2 ? SIZE_MAX - i : size_t(i * 7 % 3), how == 4 ? size_t(70000 + i) << (i * 8 % 40) : size_t(i))); }, size);
    if (locked == 1) p.lock_weights();
    if (locked == 2) p.unlock_weights();
    return p;
}
static kc::AllPopulationsVariant make_population(int type, const kc::UID &uid, size_t size, int how, int only = -1)
{
    switch (type)
    {
        case 0: return population<kn::BLIFATNeuron>(uid, size, how, only);
        case 1: return population<kn::SynapticResourceSTDPBLIFATNeuron>(uid, size, how, only);
        case 2: return population<kn::AltAILIF>(uid, size, how, only);
        case 3: return population<kn::SynapticResourceSTDPAltAILIFNeuron>(uid, size, how, only);
        default: return population<kn::LIFNeuron>(uid, size, how, only);
    }
}
static kc::AllProjectionsVariant make_projection(int type, const kc::UID &uid, const kc::UID &from, const kc::UID &to, size_t size, int how, int locked, int only = -1)
{
    return type ? projection<ks::SynapticResourceSTDPDeltaSynapse>(uid, from, to, size, how, locked, only) : projection<ks::DeltaSynapse>(uid, from, to, size, how, locked, only);
}
static int neuron_fields(int type)
{
    switch (type)
    {
        case 0: return count_fields<kn::neuron_parameters<kn::BLIFATNeuron>>();
        case 1: return count_fields<kn::neuron_parameters<kn::SynapticResourceSTDPBLIFATNeuron>>();
        case 2: return count_fields<kn::neuron_parameters<kn::AltAILIF>>();
        case 3: return count_fields<kn::neuron_parameters<kn::SynapticResourceSTDPAltAILIFNeuron>>();
        default: return count_fields<kn::neuron_parameters<kn::LIFNeuron>>();
    }
}
static void add(Network &n, kc::AllPopulationsVariant p)
{
    std::visit([&](auto &x) { n.add_population(x); }, p);
}
static void add(Network &n, kc::AllProjectionsVariant p)
{
    std::visit([&](auto &x) { n.add_projection(x); }, p);
}

// One population, each value of each of its parameters alone and all together.
static mc::Body neurons(size_t most)
{
    return [=](mc::Ctx &c)
    {
        const int type = c.choose(5), how = c.choose(5);
        const size_t size = c.choose(most + 1);
        const int only = size == 1 ? c.choose(neuron_fields(type) + 1) - 1 : -1;
        c.log("population of type ", type, ", ", size, " neurons, values ", how, " of field ", only);
        Dir d("n");
        Network n(mkuid(9));
        add(n, make_population(type, mkuid(1), size, how, only));
        round_trip(c, d.path, n);
    };
}
static mc::Body synapses(size_t most)
{
    return [=](mc::Ctx &c)
    {
        const int type = c.choose(2), how = c.choose(5), locked = c.choose(3);
        const size_t size = c.choose(most + 1);
        const int fields = type ? count_fields<ks::synapse_parameters<ks::SynapticResourceSTDPDeltaSynapse>>() : count_fields<ks::synapse_parameters<ks::DeltaSynapse>>();
        const int only = size == 1 ? c.choose(fields + 1) - 1 : -1;
        const auto from = c.choose(2) ? kc::UID(false) : mkuid(1);
        c.log("projection of type ", type, ", ", size, " synapses, lock ", locked, ", values ", how, " of field ", only);
        Dir d("s");
        Network n(mkuid(9));
        if (c.choose(2)) add(n, make_population(0, mkuid(1), 2, 1));
        add(n, make_projection(type, mkuid(2), from, mkuid(1), size, how, locked, only));
        round_trip(c, d.path, n);
    };
}
static Network any_network(mc::Ctx &c, int pops, int projs, unsigned first, bool few = false)
{
    Network n(mkuid(200 + first));
    const int np = c.choose(pops + 1);
    for (int i = 0; i < np; ++i)
    {
        const int type = few ? c.choose(2) * 4 : c.choose(5), size = few ? c.choose(2) * 2 : c.choose(3);
        c.log("population of type ", type, ", ", size, " neurons");
        // UIDs in another order than the one of adding.
        add(n, make_population(type, mkuid(first + 9 - i), size, 1 + (i + size) % 2 * 3));
    }
    const int nj = c.choose(projs + 1);
    for (int i = 0; i < nj; ++i)
    {
        const int type = c.choose(2), size = few ? c.choose(2) * 2 : c.choose(3), from = few ? i % (np + 1) : c.choose(np + 1), to = few ? np : c.choose(np + 1);
        c.log("projection of type ", type, " from ", from, " to ", to, ", ", size, " synapses");
        add(n, make_projection(type, mkuid(first + 19 - i), from ? mkuid(first + 10 - from) : kc::UID(false), mkuid(first + 10 - to), size, 1 + i % 2 * 3, (i + size) % 3));
    }
    return n;
}
// Networks of several populations and projections.
static mc::Body networks(int pops, int projs, bool few)
{
    return [=](mc::Ctx &c)
    {
        Dir d("w");
        round_trip(c, d.path, any_network(c, pops, projs, 1, few));
    };
}
// Networks of many populations and projections.
static mc::Body many(int most)
{
    return [=](mc::Ctx &c)
    {
        Dir d("m");
        Network n(mkuid(9));
        const int pops = c.choose(most + 1), projs = c.choose(most + 1), shift = c.choose(5);
        c.log(pops, " populations and ", projs, " projections, types from ", shift);
        for (int i = 0; i < pops; ++i) add(n, make_population((i + shift) % 5, mkuid(i * 5 % 13 + 1), i % 3, 1));
        for (int i = 0; i < projs; ++i) add(n, make_projection((i + shift) % 2, mkuid(i * 7 % 13 + 20), mkuid(i % (pops + 1)), mkuid(i * 3 % (pops + 1)), i % 3, 1, i % 3));
        round_trip(c, d.path, n);
    };
}
// A network saved over another one replaces it; a loaded network is saved and loaded again.
static mc::Body again(int pops, int projs, bool few)
{
    return [=](mc::Ctx &c)
    {
        Dir d("a");
        const int mode = c.choose(2);
        const Network first = any_network(c, pops, projs, 1, few);
        round_trip(c, d.path, first);
        if (mode)
        {
            c.log("the loaded network is saved again");
            Dir e("b");
            const Network m = knp::framework::sonata::load_network(d.path);
            round_trip(c, e.path, m);
            same(c, first, knp::framework::sonata::load_network(e.path));
            return;
        }
        c.log("another network is saved over it");
        const bool same_uids = c.choose(2);
        round_trip(c, d.path, any_network(c, pops, projs, same_uids ? 1 : 40, few));
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C38");
    r.explain("Every execution builds one network, saves it with the real code, reads the text files it writes and loads it back with the real code. HighFive and csv2, which are not installed, are replaced by stand-ins that keep data sets in memory.");
    r.assume("HighFive, HDF5 and csv2 keep what is written into them");
    r.assume("networks without projections of additive STDP synapses, which the code declares not to support");
    r.assume("order of populations and projections and tags are not part of a saved network");
    const bool t = r.thorough();
    r.scenario("neurons", neurons(t ? 5 : 3), {3, 30, "5 types of neurons, every parameter alone and all together, default, small, least, greatest and fractional values, up to 3 (5) neurons"});
    r.scenario("synapses", synapses(t ? 5 : 3), {3, 30, "2 types of synapses, every parameter alone and all together, 5 kinds of values, up to 3 (5) synapses, 3 ways of locking"});
    r.scenario("networks", networks(2, 1, false), {3, 30, "up to 2 populations of 5 types and 1 projection of 2 types, of up to 2 neurons and synapses, between all of them"});
    if (t) r.scenario("two projections", networks(2, 2, true), {3, 30, "up to 2 populations of 2 types and 2 projections of 2 types between all of them"});
    r.scenario("many", many(t ? 12 : 6), {2, 30, "up to 6 (12) populations and as many projections, of alternating types and sizes"});
    r.scenario("again", again(t ? 2 : 1, 1, true), {4, 30, "two networks of up to 1 (2) populations of 2 types and 1 projection each, one saved over the other or saved again"});
    return r.finish();
}
