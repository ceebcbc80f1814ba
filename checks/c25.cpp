// C25: message handlers between populations.
#include <knp/framework/message_handlers.h>

#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace md = knp::framework::modifier;

using Data = km::SpikeData;
using Msgs = std::vector<km::SpikeMessage>;

static Data sorted(Data d)
{
    std::sort(d.begin(), d.end());
    return d;
}
// a - b as multisets; ok is cleared when b is not a part of a.
static Data minus(const Data &a, const Data &b, bool &ok)
{
    std::multiset<uint32_t> s(a.begin(), a.end());
    for (auto x : b)
    {
        auto i = s.find(x);
        if (i == s.end())
            ok = false;
        else
            s.erase(i);
    }
    return Data(s.begin(), s.end());
}
// Every set of spikes out of n neurons, in order or in reverse order.
static Data pick_spikes(mc::Ctx &c, int n)
{
    const int mask = c.choose(1 << n);
    Data d;
    for (int i = 0; i < n; ++i)
        if (mask >> i & 1) d.push_back(i);
    if (d.size() > 1 && c.choose(2)) std::reverse(d.begin(), d.end());
    return d;
}
static km::SpikeMessage msg(int from, const Data &d) { return {{mkuid(from), 3}, d}; }
static size_t group_of(const std::vector<size_t> &borders, size_t spike)
{
    size_t g = 0;
    for (auto b : borders) g += b <= spike;
    return g;
}
static std::vector<size_t> pick_borders(mc::Ctx &c, int n, int most)
{
    const int k = c.choose(most + 1);
    std::vector<size_t> b;
    for (int i = 0; i < k; ++i) b.push_back(c.choose(n + 1));  // any order, repeated ones too
    return b;
}

// Up to k spikes of the first message survive, whichever seed; calls follow each other on one handler.
static mc::Body kwta(int neurons, int seeds, int calls)
{
    return [=](mc::Ctx &c)
    {
        const size_t k = c.choose(neurons + 2);
        const int seed = c.choose(seeds);
        md::KWtaRandomHandler h(k, seed), twin(k, seed);
        for (int i = 0; i < calls; ++i)
        {
            const Data d = pick_spikes(c, neurons);
            const int others = c.choose(2);
            Msgs m{msg(1, d)};
            if (others) m.push_back(msg(2, {100, 101}));
            if (c.choose(2) == 0) m.clear();
            Msgs m2 = m;
            c.transition();
            const bool none = m.empty();
            c.log("k=", k, " seed=", seed, " spikes ", show(d), none ? " (no message)" : "");
            const Data r = h(m);
            bool ok = true;
            minus(none ? Data{} : d, r, ok);
            c.check(ok, "passed ", show(r), " of ", show(d));
            c.check(r.size() == (none ? 0 : std::min(k, d.size())), "passed ", r.size(), " of ", d.size(), " spikes with ", k, " winners");
            c.check(twin(m2) == r, "the same seed gave other winners");
        }
    };
}
static mc::Body per_group(int neurons, int seeds)
{
    return [=](mc::Ctx &c)
    {
        const auto borders = pick_borders(c, neurons, 3);
        const size_t k = c.choose(4);
        const int seed = c.choose(seeds);
        md::KWtaPerGroup h(borders, k, seed);
        for (int i = 0; i < 2; ++i)
        {
            const Data d = i ? Data{0, 1, 2} : pick_spikes(c, neurons);
            Msgs m{msg(1, d)};
            const bool none = c.choose(2) == 0;
            if (none) m.clear();
            c.transition();
            c.log("borders ", show(borders), " k=", k, " seed=", seed, " spikes ", show(d), none ? " (no message)" : "");
            const Data r = h(m);
            bool ok = true;
            minus(none ? Data{} : d, r, ok);
            c.check(ok, "passed ", show(r), " of ", show(d));
            for (size_t g = 0; g <= borders.size(); ++g)
            {
                size_t in = 0, out = 0;
                if (!none)
                    for (auto x : d) in += group_of(borders, x) == g;
                for (auto x : r) out += group_of(borders, x) == g;
                c.check(out == std::min(in, k), "group ", g, " passed ", out, " of ", in, " spikes with ", k, " winners per group");
            }
        }
    };
}
static mc::Body group_wta(int neurons, int seeds)
{
    return [=](mc::Ctx &c)
    {
        const auto borders = pick_borders(c, neurons, 3);
        const size_t k = c.choose(6);
        const int seed = c.choose(seeds);
        md::GroupWtaRandomHandler h(borders, k, seed);
        for (int i = 0; i < 2; ++i)
        {
            const Data d = i ? Data{0, 1, 3} : pick_spikes(c, neurons);
            Msgs m{msg(1, d)};
            const bool none = c.choose(2) == 0;
            if (none) m.clear();
            c.transition();
            c.log("borders ", show(borders), " winners=", k, " seed=", seed, " spikes ", show(d), none ? " (no message)" : "");
            const Data r = h(m);
            std::vector<Data> in(borders.size() + 1), out(borders.size() + 1);
            if (!none)
                for (auto x : d) in[group_of(borders, x)].push_back(x);
            for (auto x : r) out[group_of(borders, x)].push_back(x);
            size_t winners = 0, weakest = SIZE_MAX, strongest_loser = 0, nonempty = 0;
            for (size_t g = 0; g < in.size(); ++g)
            {
                nonempty += !in[g].empty();
                c.check(out[g].empty() || sorted(out[g]) == sorted(in[g]), "group ", g, " passed ", show(out[g]), " of ", show(in[g]));
                if (!out[g].empty())
                    ++winners, weakest = std::min(weakest, in[g].size());
                else
                    strongest_loser = std::max(strongest_loser, in[g].size());
            }
            c.check(winners == std::min(k, nonempty), winners, " groups passed their spikes, ", k, " may, ", nonempty, " have some");
            c.check(strongest_loser <= weakest, "a group with ", strongest_loser, " spikes lost against one with ", weakest);
        }
    };
}
static mc::Body spike_union(int messages, int neurons)
{
    return [=](mc::Ctx &c)
    {
        md::SpikeUnionHandler h;
        Msgs m;
        std::set<uint32_t> want;
        const int n = c.choose(messages + 1), late = n > 1 ? c.choose(3) : 0;
        for (int i = 0; i < n; ++i)
        {
            auto d = pick_spikes(c, neurons);
            if (!d.empty() && c.choose(2)) d.push_back(d[0]);
            m.push_back(msg(1 + i % 2, d));
            if (late) m.back().header_.send_time_ = late == 1 ? 5 * i : 100 - 5 * i;
            want.insert(d.begin(), d.end());
            c.log("message ", show(d));
        }
        c.transition();
        const Data r = h(m);
        c.check(sorted(r) == Data(want.begin(), want.end()), "union is ", show(sorted(r)), " instead of ", show(want));
    };
}
// Random means that each of the possible outcomes occurs for some seed.
static mc::Body choice(int which)
{
    return [=](mc::Ctx &c)
    {
        const int n = 2 + c.choose(3), k = 1 + c.choose(n - 1);
        std::set<Data> seen;
        Data d;
        for (int i = 0; i < n; ++i) d.push_back(i);
        std::vector<size_t> borders;
        for (int i = 1; i < n; ++i) borders.push_back(i);
        for (int seed = 0; seed < 400; ++seed)
        {
            Msgs m{msg(1, d)};
            c.transition();
            if (which == 0) seen.insert(sorted(md::KWtaRandomHandler(k, seed)(m)));
            if (which == 1) seen.insert(sorted(md::GroupWtaRandomHandler(borders, k, seed)(m)));
            if (which == 2) seen.insert(sorted(md::KWtaPerGroup({99}, k, seed)(m)));
        }
        size_t all = 1;
        for (int i = 0; i < k; ++i) all = all * (n - i) / (i + 1);
        c.check(seen.size() == all, seen.size(), " of ", all, " outcomes occur with ", k, " winners of ", n);
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C25");
    r.explain("Every execution gives real handlers a sequence of messages; what they pass on is compared with what the number of winners, the groups and the spikes allow, for each of a range of seeds.");
    r.assume("the random handlers look only at the first message, as documented");
    const bool t = r.thorough();
    r.scenario("k winners", kwta(t ? 5 : 4, t ? 8 : 4, 2), {2, 30, "2 messages of all spike sets, 0 to all+1 winners, 4 to 8 seeds"});
    r.scenario("k winners per group", per_group(t ? 5 : 4, t ? 8 : 3), {3, 30, "up to 3 borders in any order, 0 to 3 winners per group"});
    r.scenario("winning groups", group_wta(t ? 5 : 4, t ? 8 : 3), {3, 30, "up to 3 borders in any order, 0 to 5 winners"});
    r.scenario("union", spike_union(3, t ? 5 : 4), {2, 30, "up to 3 messages of all spike sets, repeated spikes"});
    r.scenario("choice of k winners", choice(0), {1, 30, "2 to 4 spikes, 400 seeds"});
    r.scenario("choice of winning groups", choice(1), {1, 30, "2 to 4 groups, 400 seeds"});
    r.scenario("choice of winners in a group", choice(2), {1, 30, "2 to 4 spikes, 400 seeds"});
    return r.finish();
}
