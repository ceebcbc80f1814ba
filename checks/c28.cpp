// UIDs, tags, names and coordinates: the identification layer every other part relies on.
#include <knp/framework/coordinates/cartesian.h>
#include <knp/framework/coordinates/polar.h>
#include <knp/framework/tags/name.h>

#include <any>
#include <optional>

#include "util.hpp"

using namespace knp::core;

namespace
{
std::vector<UID> universe()
{
    std::vector<UID> v;
    auto add = [&](std::array<uint8_t, 16> d) { v.push_back(UID(d)); };
    add({});
    for (int i = 0; i < 16; ++i)
        for (int b : {1, 0x7f, 0x80, 0xff})
        {
            std::array<uint8_t, 16> d{};
            d[i] = b;
            add(d);
        }
    std::array<uint8_t, 16> f;
    f.fill(0xff);
    add(f);
    f[15] = 0;
    add(f);
    for (int i = 0; i < 16; ++i) f[i] = 16 * i + i;
    add(f);
    return v;
}

void uid_pairs(mc::Ctx &c)
{
    static const auto u = universe();
    const size_t i = c.choose(u.size()), j = c.choose(u.size());
    c.transition();
    const UID &a = u[i], &b = u[j];
    c.log(std::string(a), " ", std::string(b));
    const bool same = i == j;
    c.check((a == b) == same, "equality is wrong");
    c.check((a != b) == !same, "inequality is wrong");
    c.check(!(a < b && b < a) && ((a < b || b < a) == !same), "ordering is not total");
    c.check((std::string(a) == std::string(b)) == same, "text forms: equality is wrong");
    if (same) c.check(uid_hash()(a) == uid_hash()(UID(b)), "hash of equal UIDs differs");
    c.check(static_cast<bool>(a) == (i != 0), "bool conversion is wrong");
    std::stringstream s;
    s << a << ' ' << b;
    UID x(false), y(false);
    c.check(!x, "UID(false) is not nil");
    s >> x >> y;
    c.check(x == a && y == b, "text round trip changes UIDs");
    UID z(a), t(b);
    std::swap(z, t);
    c.check(z == b && t == a, "copies are wrong");
    c.check(static_cast<const boost::uuids::uuid &>(a) == a.tag && UID(a.tag) == a, "conversion from/to uuid is wrong");
    c.outcome(i * 1000 + j);
    c.state(i * 1000 + j);
}

void uid_order(mc::Ctx &c)
{
    static const auto u = universe();
    const size_t i = c.choose(u.size()), j = c.choose(u.size());
    for (const auto &x : u)
    {
        c.transition();
        if (u[i] < u[j] && u[j] < x) c.check(u[i] < x, "ordering is not transitive");
    }
    std::set<UID> s(u.begin(), u.end());
    c.check(s.size() == u.size(), "a set of UIDs loses elements");
    c.check(s.count(u[i]) == 1, "a set of UIDs does not find its element");
    std::unordered_set<UID, uid_hash> h(u.begin(), u.end());
    c.check(h.size() == u.size() && h.count(u[j]) == 1, "a hash set of UIDs loses elements");
}

void generator(mc::Ctx &c)
{
    const std::vector<uint64_t> starts{1, 0, 250, 65530, 0xfffffff0ULL, 0xfffffffffff0ULL, 0xffffffffffff00ULL, 77};
    const uint64_t s = c.pick(starts);
    const int n = c.pick(std::vector<int>{1, 20, 700});
    const uint64_t s2 = c.pick(starts);
    c.log("reset to ", s, ", ", n, " UIDs, then to ", s2);
    std::vector<boost::uuids::uuid> first, second;
    auto run = [&](uint64_t start, std::vector<boost::uuids::uuid> &out)
    {
        continuously_uid_generator::reset(start);
        for (int i = 0; i < n; ++i) out.push_back(continuously_uid_generator()());
        c.transition(n);
    };
    run(s, first);
    run(s2, second);
    std::set<boost::uuids::uuid> distinct(first.begin(), first.end());
    c.check(distinct.size() == first.size(), "the generator repeats a UID");
    std::vector<boost::uuids::uuid> again;
    run(s, again);
    c.check(first == again, "the generator is not reproducible after reset");
    for (auto &x : second)
    {
        const uint64_t lo = std::max(s, s2), hi = std::min(s, s2) + n;
        if (lo >= hi) c.check(!distinct.count(x), "generators started apart produced one UID");
    }
    continuously_uid_generator::reset();
    c.check(continuously_uid_generator()() != boost::uuids::nil_uuid(), "default generator starts with nil");
    c.outcome(s ^ n);
}

void random_uids(mc::Ctx &c)
{
    // Not an enumeration of randomness: a default UID is never nil and two are never equal.
    UID a, b, n(false), t(true);
    c.transition();
    c.check(static_cast<bool>(a) && static_cast<bool>(t) && a != b && a != t, "default UIDs are nil or equal");
    c.check(!n, "UID(false) is not nil");
}

using Value = std::variant<int, std::string, std::vector<int>>;

void tag_histories(mc::Ctx &c)
{
    TagMap map;
    std::map<std::string, std::optional<Value>> ref;
    const std::vector<std::string> names{"a", "b", ""};
    auto verify = [&](const TagMap &m)
    {
        c.check(m.empty() == ref.empty(), "empty() is wrong");
        for (auto &n : names)
        {
            auto it = ref.find(n);
            c.check(m.exists(n) == (it != ref.end()), "exists(", n, ") is wrong");
            if (it == ref.end())
            {
                bool thrown = false;
                try
                {
                    (void)m.get_tag(n);
                }
                catch (const std::out_of_range &)
                {
                    thrown = true;
                }
                c.check(thrown, "reading a missing tag of a constant map does not fail");
                continue;
            }
            if (!it->second)
            {
                c.check(!m.get_tag(n).has_value(), "a tag has a value nobody set");
                continue;
            }
            const auto &v = *it->second;
            bool bad = false;
            if (v.index() == 0)
            {
                c.check(m.get_tag<int>(n) == std::get<int>(v), "tag ", n, " has another value");
                try
                {
                    (void)m.get_tag<std::string>(n);
                    bad = true;
                }
                catch (const std::bad_any_cast &)
                {
                }
            }
            else if (v.index() == 1)
            {
                c.check(m.get_tag<std::string>(n) == std::get<std::string>(v), "tag ", n, " has another value");
                try
                {
                    (void)m.get_tag<int>(n);
                    bad = true;
                }
                catch (const std::bad_any_cast &)
                {
                }
            }
            else
                c.check(m.get_tag<std::vector<int>>(n) == std::get<std::vector<int>>(v), "tag ", n, " has another value");
            c.check(!bad, "a tag is readable as another type");
            c.check(std::any(m[n]).has_value(), "operator[] disagrees");
        }
    };
    for (int d = 0; d < 4; ++d)
    {
        const std::string &n = names[c.choose(3)];
        c.transition();
        switch (c.choose(6))
        {
            case 0: map[n] = d; ref[n] = d; c.log(n, " = int"); break;
            case 1: map.get_tag(n) = std::string("v") + std::to_string(d); ref[n] = std::string("v") + std::to_string(d); c.log(n, " = string"); break;
            case 2: map[n] = std::vector<int>(d, d); ref[n] = std::vector<int>(d, d); c.log(n, " = vector"); break;
            case 3:
            {
                auto it = ref.find(n);
                if (it == ref.end() || !it->second || it->second->index() != 0) c.prune();
                map.get_tag<int>(n) += 10;
                it->second = std::get<int>(*it->second) + 10;
                c.log(n, " += 10");
                break;
            }
            case 4:
                (void)map[n].has_value();
                if (!ref.count(n)) ref[n] = std::nullopt;
                c.log("touch ", n);
                break;
            case 5:
            {
                TagMap copy(map);
                copy["a"] = 1000;
                copy["b"] = 1000;
                copy[""] = 1000;
                c.log("copy, change the copy");
                break;
            }
        }
        verify(map);
        mc::Hash h;
        for (auto &r : ref) h.adds(r.first).add(r.second ? r.second->index() : 9);
        c.state(h);
    }
    TagMap copy(map);
    verify(copy);
    TagMap moved(std::move(copy));
    verify(moved);
    c.outcome(ref.size());
}

template <class Object>
void name_of(mc::Ctx &c, Object &o, const UID &uid)
{
    namespace ft = knp::framework::tags;
    const std::vector<std::string> names{"pop", "", std::string("with\0zero", 9), std::string(500, 'x')};
    std::optional<std::string> ref;
    for (int i = 0; i < 3; ++i)
    {
        c.transition();
        const Object &co = o;
        c.check(ft::get_name(co) == (ref ? *ref : std::string(uid)), "get_name returned '", ft::get_name(co), "'");
        c.check(co.get_tags().exists("name") == ref.has_value(), "reading the name created a tag");
        const int k = c.choose(5);
        if (k < 4)
        {
            ft::set_name(o, names[k]);
            ref = names[k];
        }
        else
            o.get_tags()["other"] = std::string("zzz");
    }
    c.check(ft::get_name(o) == (ref ? *ref : std::string(uid)), "get_name is wrong at the end");
}

void names(mc::Ctx &c)
{
    using N = knp::neuron_traits::LIFNeuron;
    using S = knp::synapse_traits::DeltaSynapse;
    if (c.flag())
    {
        Population<N> p(mkuid(5), [](size_t) { return knp::neuron_traits::neuron_parameters<N>{}; }, 2);
        name_of(c, p, mkuid(5));
    }
    else
    {
        Projection<S> p(mkuid(6), mkuid(1), mkuid(2));
        name_of(c, p, mkuid(6));
    }
}

void neuron_tags(mc::Ctx &c)
{
    using N = knp::neuron_traits::LIFNeuron;
    Population<N> p(mkuid(5), [](size_t) { return knp::neuron_traits::neuron_parameters<N>{}; }, 3);
    p.get_tags()["neuron_tags"] = std::vector<TagMap>(3);
    const int a = c.choose(3), b = c.choose(3);
    p.get_neuron_tags(a)["x"] = 1;
    p.get_neuron_tags(b)["y"] = 2;
    for (int i = 0; i < 3; ++i)
    {
        c.transition();
        c.check(p.get_neuron_tags(i).exists("x") == (i == a) && p.get_neuron_tags(i).exists("y") == (i == b),
                "tags of neuron ", i, " are wrong");
    }
}

void coordinates(mc::Ctx &c)
{
    namespace co = knp::framework::coordinates;
    const std::vector<double> v{0, -1.5, 3.25, 1e300};
    const double x = c.pick(v), y = c.pick(v), z = c.pick(v), n = c.pick(v);
    c.transition();
    co::radial::d2::coordinate<double> p(x, y);
    c.check(p.radius() == x && p.phi() == y, "polar coordinate");
    p.radius(n);
    c.check(p.radius() == n && p.phi() == y, "polar radius");
    p.phi(z);
    c.check(p.radius() == n && p.phi() == z, "polar phi");
    co::radial::d3::coordinate<double> s(x, y, z);
    c.check(s.radius() == x && s.theta() == y && s.phi() == z, "spherical coordinate");
    s.theta(n);
    c.check(s.radius() == x && s.theta() == n && s.phi() == z, "spherical theta");
    s.phi(n);
    s.radius(y);
    c.check(s.radius() == y && s.theta() == n && s.phi() == n, "spherical set");
    co::cartesian::d2::coordinate<double> a(x, y);
    co::cartesian::d3::coordinate<double> b(x, y, z);
    c.check(a.x() == x && a.y() == y && b.x() == x && b.y() == y && b.z() == z, "cartesian coordinate");
}
}  // namespace

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C28");
    r.explain(
        "All pairs and triples of 67 boundary UIDs; all short histories of tag operations; all short histories of naming; "
        "generator restarts around every byte boundary of its counter.");
    r.assume("uniqueness of random UIDs rests on boost's random generator and is not enumerated");
    mc::ScenarioOptions o;
    o.bound = "67 UIDs, all pairs";
    o.split = 1;
    r.scenario("uid_pairs", uid_pairs, o);
    o.bound = "67 UIDs, all triples";
    r.scenario("uid_order", uid_order, o);
    o.bound = "8 starting values x 3 lengths x 8 restarts";
    r.scenario("uid_generator", generator, o);
    mc::ScenarioOptions one;
    one.split = 1;
    r.scenario("uid_default", random_uids, one);
    o.bound = "18 operations, depth 4";
    o.split = 3;
    r.scenario("tags", tag_histories, o);
    o.bound = "5 operations, depth 3, population and projection";
    r.scenario("names", names, o);
    o.split = 1;
    r.scenario("neuron_tags", neuron_tags, o);
    r.scenario("coordinates", coordinates, o);
    return r.finish();
}
