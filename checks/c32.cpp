// C32: validation of networks.
#include <knp/framework/network_validation/executor.h>
#include <knp/framework/network_validation/validators/connectivity.h>

#include "util.hpp"

namespace kc = knp::core;
namespace fw = knp::framework;
namespace nv = knp::framework::network_validation;
using Pop = kc::Population<knp::neuron_traits::BLIFATNeuron>;
using Pop2 = kc::Population<knp::neuron_traits::AltAILIF>;
using Delta = kc::Projection<knp::synapse_traits::DeltaSynapse>;
using Res = kc::Projection<knp::synapse_traits::SynapticResourceSTDPDeltaSynapse>;

static void add_pop(fw::Network &n, int i)
{
    if (i & 1)
        n.add_population(Pop2(mkuid(1 + i), [](size_t) { return Pop2::NeuronParameters{}; }, 1));
    else
        n.add_population(Pop(mkuid(1 + i), [](size_t) { return Pop::NeuronParameters{}; }, 1));
}
static void add_proj(fw::Network &n, int i, const kc::UID &from, const kc::UID &to, size_t size = 1)
{
    auto gen = [](auto *p) { return [](size_t) -> std::optional<typename std::remove_pointer_t<decltype(p)>::Synapse> { return typename std::remove_pointer_t<decltype(p)>::Synapse{{}, 0, 0}; }; };
    if (i & 1)
        n.add_projection(Res(mkuid(11 + i), from, to, gen(static_cast<Res *>(nullptr)), size));
    else
        n.add_projection(Delta(mkuid(11 + i), from, to, gen(static_cast<Delta *>(nullptr)), size));
}

// Every network of so many populations and projections with every choice of ends.
static mc::Body connectivity(int pops, int projs)
{
    return [=](mc::Ctx &c)
    {
        fw::Network n;
        const int np = c.choose(pops + 1), nj = c.choose(projs + 1);
        for (int i = 0; i < np; ++i) add_pop(n, i);
        std::vector<bool> linked(np);
        std::multiset<std::string> want;
        for (int i = 0; i < nj; ++i)
        {
            const int a = c.choose(np + 1), b = c.choose(np + 1);  // the last one: no population
            const int size = c.choose(2);
            c.log("projection ", i, " from ", a == np ? -1 : a, " to ", b == np ? -1 : b, " with ", size, " synapses");
            add_proj(n, i, a == np ? kc::UID(false) : mkuid(1 + a), b == np ? kc::UID(false) : mkuid(1 + b), size);
            if (a < np) linked[a] = true;
            if (b < np) linked[b] = true;
            if (a == np && b == np) want.insert("projection " + std::string(mkuid(11 + i)));
        }
        for (int i = 0; i < np; ++i)
            if (!linked[i]) want.insert("population " + std::string(mkuid(1 + i)));
        c.transition();
        const auto check = [&](const nv::Report &r)
        {
            std::multiset<std::string> got;
            for (auto &i : r)
            {
                const bool pop = i.code_ == nv::Connectivity::make_error_code(nv::Connectivity::population_not_connected);
                c.check(pop || i.code_ == nv::Connectivity::make_error_code(nv::Connectivity::projection_not_connected), "an unknown error code");
                c.check(i.code_.category() == nv::Connectivity::error_category() && !i.code_.message().empty(), "category of the error");
                c.check(i.severity_ == nv::IssueSeverity::error, "an issue is no error");
                std::string found;
                for (int k = 0; k < 30; ++k)
                    if (i.message_.find(std::string(mkuid(1 + k))) != std::string::npos) found = std::string(mkuid(1 + k));
                got.insert((pop ? "population " : "projection ") + found);
            }
            c.check(got == want, got.size(), " issues instead of ", want.size(), " or about other entities");
        };
        nv::Connectivity v;
        check(v(n));
        if (c.choose(2)) check(v(n));
        nv::Executor e;
        const auto uid = e.add_validator(nv::NetworkValidator(v));
        const auto all = e.run_validators(n);
        c.check(all.size() == 1 && all[0].uid_ == uid, all.size(), " results");
        check(all[0].report_);
    };
}

// Validators are added between runs; each one sees each entity once.
static mc::Body executor(int depth)
{
    return [=](mc::Ctx &c)
    {
        fw::Network n;
        const int np = c.choose(3), nj = c.choose(3);
        for (int i = 0; i < np; ++i) add_pop(n, i);
        for (int i = 0; i < nj; ++i) add_proj(n, i, kc::UID(false), kc::UID(false));
        nv::Executor e;
        struct V
        {
            int kind;
            std::string name;
            kc::UID uid{false};
            std::vector<std::string> seen;
        };
        std::vector<std::shared_ptr<V>> vs;
        std::set<kc::UID> uids;
        size_t number[3] = {};
        static const nv::IssueSeverity sev[] = {nv::IssueSeverity::info, nv::IssueSeverity::warning, nv::IssueSeverity::error};
        auto uid_of = [](const auto &x) { return std::string(std::visit([](const auto &y) { return y.get_uid(); }, x)); };
        auto report = [](const V &v, const std::string &about)
        {
            nv::Report r;
            // Some reports are empty.
            for (size_t i = (v.name.size() + about.back()) % 3; i > 0; --i) r.push_back({sev[i % 3], about + v.name, std::make_error_code(std::errc::io_error)});
            return r;
        };
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(7);
            c.transition();
            if (k < 6)
            {
                auto v = std::make_shared<V>();
                v->kind = k % 3;
                static const char *const kinds[] = {"Population", "Projection", "Network"};
                const bool named = k >= 3;
                v->name = named ? (d % 2 ? "same" : "own name " + std::to_string(d)) : std::string(kinds[v->kind]) + " validator #" + std::to_string(number[v->kind]);
                ++number[v->kind];
                c.log("add ", named ? "named " : "", kinds[v->kind], " validator");
                auto add = [&](auto f) { v->uid = named ? e.add_validator(v->name, f) : e.add_validator(f); };
                if (v->kind == 0)
                    add(nv::PopulationValidator([=](const auto &p) { return v->seen.push_back(uid_of(p)), report(*v, v->seen.back()); }));
                else if (v->kind == 1)
                    add(nv::ProjectionValidator([=](const auto &p) { return v->seen.push_back(uid_of(p)), report(*v, v->seen.back()); }));
                else
                    add(nv::NetworkValidator([=, net = &n](const fw::Network &x) { return v->seen.push_back(net == &x ? "network" : "other network"), report(*v, "network"); }));
                c.check(uids.insert(v->uid).second, "two validators have the same UID");
                vs.push_back(v);
            }
            else
            {
                c.log("run");
                for (auto &v : vs) v->seen.clear();
                const auto all = e.run_validators(n);
                size_t total = 0;
                for (auto &v : vs)
                {
                    std::vector<std::string> want;
                    if (v->kind == 0)
                        for (int i = 0; i < np; ++i) want.push_back(std::string(mkuid(1 + i)));
                    if (v->kind == 1)
                        for (int i = 0; i < nj; ++i) want.push_back(std::string(mkuid(11 + i)));
                    if (v->kind == 2) want.push_back("network");
                    c.check(std::multiset<std::string>(v->seen.begin(), v->seen.end()) == std::multiset<std::string>(want.begin(), want.end()), "validator '", v->name, "' saw ", v->seen.size(), " entities instead of ", want.size());
                    // Its results, in any order.
                    std::multiset<std::string> got, expect;
                    auto text = [](const nv::Report &r)
                    {
                        std::string s;
                        for (auto &i : r) s += std::to_string(int(i.severity_)) + i.message_ + i.code_.message() + ";";
                        return s;
                    };
                    for (auto &w : want) expect.insert(text(report(*v, w)));
                    for (auto &a : all)
                        if (a.uid_ == v->uid)
                        {
                            c.check(a.validator_name_ == v->name, "validator '", v->name, "' is called '", a.validator_name_, "'");
                            got.insert(text(a.report_));
                        }
                    c.check(got == expect, "validator '", v->name, "' has other reports");
                    total += want.size();
                }
                c.check(all.size() == total, all.size(), " results instead of ", total);
            }
        }
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C32");
    r.explain("Every network within the bound is validated by the real connectivity validator; every sequence of additions and runs of validators of the three kinds is made on a real executor.");
    r.assume("projections name only populations of the network");
    const bool t = r.thorough();
    r.scenario("connectivity", connectivity(3, t ? 4 : 3), {4, 30, "up to 3 populations and 3-4 projections, every choice of ends"});
    r.scenario("executor", executor(t ? 6 : 5), {3, 30, "up to 2 populations and projections, 7 operations, depth 5-6"});
    return r.finish();
}
