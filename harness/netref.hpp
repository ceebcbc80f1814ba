// Reference model of a whole network: populations, projections with delays, resource STDP and additive STDP.
#pragma once
#include <map>
#include <variant>

#include "sim.hpp"

namespace ref
{
struct Spec;  // forward

struct AnyImpact
{
    uint64_t conn;
    float value;
    Out type;
    uint32_t from, to;
    bool operator<(const AnyImpact &o) const
    {
        return std::tie(conn, from, to, type, value) < std::tie(o.conn, o.from, o.to, o.type, o.value);
    }
    bool operator==(const AnyImpact &o) const
    {
        return conn == o.conn && near(value, o.value, 1e-5) && type == o.type && from == o.from && to == o.to;
    }
};
struct ImpactMsg
{
    kc::UID from;
    bool forcing = false;
    std::vector<AnyImpact> impacts;
};
struct SpikeMsg
{
    kc::UID from;
    uint64_t time;
    std::vector<uint32_t> idx;
};

using Delta = sy::DeltaSynapse;
using Res = sy::SynapticResourceSTDPDeltaSynapse;
using Add = sy::AdditiveSTDPDeltaSynapse;
template <class S>
using SP = sy::synapse_parameters<S>;

template <class S>
struct Syn
{
    SP<S> p;
    uint32_t from, to;
};

template <class N>
struct Pop
{
    using Neuron = N;
    kc::UID uid;
    std::vector<P<N>> n;
};
template <class S>
struct Proj
{
    using Synapse = S;
    kc::UID uid, pre, post;
    std::vector<Syn<S>> s;
    bool locked = true;
    std::map<kc::UID, bool> stdp{};  // additive: population -> also propagates its spikes
    std::map<uint64_t, std::vector<AnyImpact>> queue{};
};

using AnyPop = std::variant<
    Pop<nt::BLIFATNeuron>, Pop<nt::SynapticResourceSTDPBLIFATNeuron>, Pop<nt::AltAILIF>,
    Pop<nt::SynapticResourceSTDPAltAILIFNeuron>, Pop<nt::LIFNeuron>>;
using AnyProj = std::variant<Proj<Delta>, Proj<Res>, Proj<Add>>;

template <class N>
struct is_resource : std::false_type
{
};
template <class N>
struct is_resource<nt::SynapticResourceSTDPNeuron<N>> : std::true_type
{
};

struct Net
{
    std::vector<AnyPop> pops;
    std::vector<AnyProj> projs;
    uint64_t step = 0;
    std::map<kc::UID, std::vector<ImpactMsg>> to_pop;  // messages waiting for a population
    std::map<kc::UID, std::vector<SpikeMsg>> to_proj;  // spikes waiting for a projection
    // What the last step sent.
    std::vector<SpikeMsg> sent_spikes;
    std::vector<ImpactMsg> sent_impacts;

    static void weight(SP<Res> &s)
    {
        const double r = std::max<double>(s.rule_.synaptic_resource_, 0), d = static_cast<double>(s.rule_.w_max_) - s.rule_.w_min_;
        s.weight_ = static_cast<float>(s.rule_.w_min_ + d * r / (d + r));
    }
    template <class N>
    static double damp(const P<N> &n)
    {
        return std::min(std::exp2(-static_cast<double>(n.stability_)), 1.0);
    }

    template <class N>
    void train(Pop<N> &pop, const std::vector<uint32_t> &spiked)
    {
        using IT = nt::ISIPeriodType;
        std::vector<std::vector<SP<Res> *>> syn(pop.n.size());
        for (auto &ap : projs)
            if (auto *pr = std::get_if<Proj<Res>>(&ap))
                if (!pr->locked && pr->post == pop.uid)
                    for (auto &s : pr->s)
                        if (s.to < syn.size()) syn[s.to].push_back(&s.p);
        for (auto i : spiked)
        {
            auto &n = pop.n[i];
            n.last_spike_step_ = step;
            if (n.is_being_forced_)
                n.isi_status_ = IT::is_forced;
            else
            {
                const uint64_t gap = step - n.last_step_;
                if (n.isi_status_ == IT::period_started)
                {
                    if (gap < n.isi_max_) n.isi_status_ = IT::period_continued;
                }
                else if (n.isi_status_ != IT::period_continued || gap >= n.isi_max_ || n.dopamine_value_ != 0)
                {
                    n.isi_status_ = IT::period_started;
                    n.first_isi_spike_ = step;
                }
                n.last_step_ = step;
            }
            if (n.isi_status_ == IT::period_started) n.stability_ -= n.stability_change_at_isi_;
            double sum = 0;
            for (auto *s : syn[i])
            {
                if (s->weight_ > 0) sum += s->weight_;
                const uint64_t arrived = s->rule_.last_spike_step_ + s->delay_ - 1;
                const bool recent = arrived <= step && arrived + s->rule_.dopamine_plasticity_period_ >= step;
                if (recent)
                    s->rule_.has_contributed_ = true;
                else if (n.isi_status_ != IT::period_continued)
                    s->rule_.has_contributed_ = false;
            }
            n.additional_threshold_ = sum * n.synapse_sum_threshold_coefficient_;
            for (auto *s : syn[i])
            {
                auto &r = s->rule_;
                if (n.isi_status_ != IT::period_continued) r.had_hebbian_update_ = false;
                if (n.isi_status_ != IT::is_forced)
                {
                    r.synaptic_resource_ -= r.d_u_;
                    n.free_synaptic_resource_ += r.d_u_;
                    if (r.has_contributed_ && !r.had_hebbian_update_)
                    {
                        const float h = static_cast<float>(n.d_h_ * damp<N>(n));
                        r.synaptic_resource_ += h;
                        n.free_synaptic_resource_ -= h;
                        r.had_hebbian_update_ = true;
                    }
                }
                weight(*s);
            }
        }
        for (size_t i = 0; i < pop.n.size(); ++i)
        {
            auto &n = pop.n[i];
            if (n.dopamine_value_ == 0 || (n.dopamine_value_ < 0 && n.isi_status_ == IT::is_forced)) continue;
            for (auto *s : syn[i])
                if (s->rule_.has_contributed_ && step <= n.last_spike_step_ + n.dopamine_plasticity_time_)
                {
                    const float ch = static_cast<float>(n.dopamine_value_ * damp<N>(n));
                    s->rule_.synaptic_resource_ += ch;
                    n.free_synaptic_resource_ -= ch;
                }
            const double d = n.dopamine_value_;
            if (n.is_being_forced_ || d < 0)
                n.stability_ = std::max(static_cast<float>(n.stability_ - d * n.stability_change_parameter_), 0.F);
            else
            {
                const double t = static_cast<double>(step) - static_cast<double>(n.first_isi_spike_), isi = n.isi_max_;
                n.stability_ += static_cast<float>(n.stability_change_parameter_ * d * std::max(2.0 - std::fabs(t - isi) / isi, -1.0));
            }
            for (auto *s : syn[i]) weight(*s);
        }
        for (size_t i = 0; i < pop.n.size(); ++i)
        {
            auto &n = pop.n[i];
            const bool in_period = step <= n.last_step_ + n.isi_max_ && n.isi_status_ != IT::is_forced;
            if (in_period || std::fabs(n.free_synaptic_resource_) < n.synaptic_resource_threshold_) continue;
            const double part = static_cast<double>(n.free_synaptic_resource_) / (syn[i].size() + n.resource_drain_coefficient_);
            for (auto *s : syn[i])
            {
                s->rule_.synaptic_resource_ += static_cast<float>(part);
                weight(*s);
            }
            n.free_synaptic_resource_ = 0;
        }
    }

    template <class N>
    std::vector<uint32_t> population(Pop<N> &pop)
    {
        auto msgs = std::move(to_pop[pop.uid]);
        to_pop[pop.uid].clear();
        std::vector<std::vector<Impact>> in(pop.n.size());
        for (const auto &m : msgs)
            for (const auto &i : m.impacts) in.at(i.to).push_back({i.type, i.value, m.forcing});
        std::vector<uint32_t> spiked;
        for (size_t i = 0; i < pop.n.size(); ++i)
            if (ref::step<N>(pop.n[i], in[i])) spiked.push_back(i);
        if constexpr (is_resource<N>::value) train(pop, spiked);
        return spiked;
    }

    template <class S>
    void projection(Proj<S> &pr)
    {
        auto msgs = std::move(to_proj[pr.uid]);
        to_proj[pr.uid].clear();
        for (auto &m : msgs)
        {
            bool propagate = true;
            if constexpr (std::is_same_v<S, Add>)
            {
                auto it = pr.stdp.find(m.from);
                if (it != pr.stdp.end())
                {
                    propagate = it->second;
                    for (auto i : m.idx)
                        for (auto &s : pr.s)
                        {
                            auto &r = s.p.rule_;
                            const float cap = r.tau_plus_ + r.tau_minus_;
                            if (s.to == i && r.postsynaptic_spike_times_.size() < cap) r.postsynaptic_spike_times_.push_back(m.time);
                            if (propagate && s.from == i && r.presynaptic_spike_times_.size() < cap)
                                r.presynaptic_spike_times_.push_back(m.time);
                        }
                }
            }
            if (!propagate) m.idx.clear();
        }
        for (auto &m : msgs)
            for (auto i : m.idx)
                for (size_t k = 0; k < pr.s.size(); ++k)
                {
                    auto &s = pr.s[k];
                    if (s.from != i) continue;
                    if constexpr (std::is_same_v<S, Res>) s.p.rule_.last_spike_step_ = step;
                    pr.queue[step + s.p.delay_ - 1].push_back({k, s.p.weight_, s.p.output_type_, s.from, s.to});
                }
        if constexpr (std::is_same_v<S, Add>)
            for (auto &s : pr.s)
            {
                auto &r = s.p.rule_;
                const float cap = r.tau_plus_ + r.tau_minus_;
                auto &a = r.presynaptic_spike_times_, &b = r.postsynaptic_spike_times_;
                if (a.size() < cap || b.size() < cap) continue;
                double w = 0;
                for (auto x : a)
                    for (auto y : b)
                    {
                        const double d = static_cast<double>(y) - static_cast<double>(x);
                        w += d > 0 ? std::exp(-d / r.tau_plus_) : std::exp(d / r.tau_minus_);
                    }
                s.p.weight_ += static_cast<float>(w);
                a.clear();
                b.clear();
            }
        auto q = pr.queue.find(step);
        if (q == pr.queue.end()) return;
        ImpactMsg m{pr.uid, std::is_same_v<S, Delta>, std::move(q->second)};
        pr.queue.erase(q);
        std::sort(m.impacts.begin(), m.impacts.end());
        sent_impacts.push_back(m);
        if (pr.post) to_pop[pr.post].push_back(m);
    }

    void run()
    {
        sent_spikes.clear();
        sent_impacts.clear();
        for (auto &ap : pops)
            std::visit(
                [&](auto &p)
                {
                    auto sp = population(p);
                    if (!sp.empty()) sent_spikes.push_back({p.uid, step, sp});
                },
                ap);
        for (const auto &m : sent_spikes)
            for (auto &ap : projs)
                std::visit(
                    [&](auto &p)
                    {
                        if (p.pre == m.from || p.stdp.count(m.from)) to_proj[p.uid].push_back(m);
                    },
                    ap);
        for (auto &ap : projs) std::visit([&](auto &p) { projection(p); }, ap);
        ++step;
    }
};

inline void diff(Diff &d, const SP<Delta> &g, const SP<Delta> &w)
{
    d.f("weight_", g.weight_, w.weight_);
    d.f("delay_", g.delay_, w.delay_);
    d.f("output_type_", g.output_type_, w.output_type_);
}
inline void diff(Diff &d, const SP<Res> &g, const SP<Res> &w)
{
    diff(d, static_cast<const SP<Delta> &>(g), static_cast<const SP<Delta> &>(w));
#define F(x) d.f(#x, g.rule_.x, w.rule_.x)
    F(synaptic_resource_);
    F(w_min_);
    F(w_max_);
    F(d_u_);
    F(dopamine_plasticity_period_);
    F(last_spike_step_);
    F(had_hebbian_update_);
    F(has_contributed_);
#undef F
}
inline void diff(Diff &d, const SP<Add> &g, const SP<Add> &w)
{
    diff(d, static_cast<const SP<Delta> &>(g), static_cast<const SP<Delta> &>(w));
    d.f("tau_plus_", g.rule_.tau_plus_, w.rule_.tau_plus_);
    d.f("tau_minus_", g.rule_.tau_minus_, w.rule_.tau_minus_);
    auto cmp = [&](const char *name, auto a, auto b)
    {
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b && d.what.empty()) d.what = std::string(name) + " is " + show(a) + ", expected " + show(b);
    };
    cmp("presynaptic_spike_times_", g.rule_.presynaptic_spike_times_, w.rule_.presynaptic_spike_times_);
    cmp("postsynaptic_spike_times_", g.rule_.postsynaptic_spike_times_, w.rule_.postsynaptic_spike_times_);
}

// Builders of the real objects.
template <class N>
kc::Population<N> real(const Pop<N> &p)
{
    return kc::Population<N>(p.uid, [&p](size_t i) { return p.n[i]; }, p.n.size());
}
template <class S>
kc::Projection<S> real(const Proj<S> &p)
{
    kc::Projection<S> r(
        p.uid, p.pre, p.post,
        [&p](size_t i) -> std::optional<typename kc::Projection<S>::Synapse>
        { return typename kc::Projection<S>::Synapse{p.s[i].p, p.s[i].from, p.s[i].to}; },
        p.s.size());
    if constexpr (std::is_same_v<S, Add>)
    {
        using PT = typename kc::Projection<S>::SharedSynapseParameters::ProcessingType;
        for (const auto &[u, both] : p.stdp) r.get_shared_parameters().stdp_populations_[u] = both ? PT::STDPAndSpike : PT::STDPOnly;
    }
    if (!p.locked) r.unlock_weights();
    return r;
}

// A network on a real backend beside its reference.
template <class S>
struct Pair
{
    S sim;
    Net net;
    double tol = 1e-5;
    bool merged = false;      // the impacts of one synapse may come as one impact with their sum (multi-threaded backend)
    bool order_free = false;  // the order inside messages is not specified (multi-threaded backend)

    // Adjacent impacts of the same synapse become one.
    static void merge(std::vector<AnyImpact> &v)
    {
        std::vector<AnyImpact> r;
        for (const auto &i : v)
            if (!r.empty() && r.back().conn == i.conn && r.back().from == i.from && r.back().to == i.to && r.back().type == i.type)
                r.back().value += i.value;
            else
                r.push_back(i);
        v = std::move(r);
    }

    template <class... A>
    explicit Pair(Net n, A &&...a) : sim(std::forward<A>(a)...), net(std::move(n))
    {
        using AnyRealPop = std::decay_t<decltype(*sim.b.begin_populations())>;
        using AnyRealProj = std::decay_t<decltype(sim.b.begin_projections()->arg_)>;
        std::vector<AnyRealPop> ps;
        std::vector<AnyRealProj> js;
        std::vector<kc::UID> pu, ju;
        for (const auto &ap : net.pops)
            std::visit(
                [&](const auto &p)
                {
                    if constexpr (std::is_constructible_v<AnyRealPop, decltype(real(p))>) ps.push_back(real(p));
                    pu.push_back(p.uid);
                },
                ap);
        for (const auto &ap : net.projs)
            std::visit(
                [&](const auto &p)
                {
                    using T = kc::Projection<typename std::decay_t<decltype(p)>::Synapse>;
                    if constexpr (std::is_constructible_v<AnyRealProj, T>) js.push_back(real(p));
                    ju.push_back(p.uid);
                },
                ap);
        sim.b.load_populations(ps);
        sim.b.load_projections(js);
        sim.init();
        sim.observe_spikes(pu);
        if (!ju.empty()) sim.observe_impacts(ju);
        for (const auto &u : pu) sim.feed_impacts(u);
        for (const auto &u : ju) sim.feed_spikes(u);
    }

    void send_impacts(const kc::UID &pop, const std::vector<AnyImpact> &v, bool forcing)
    {
        km::SynapticImpactMessage m{{ext_of(pop), net.step}, mkuid(902), pop, forcing, {}};
        for (const auto &i : v) m.impacts_.push_back({i.conn, i.value, i.type, i.from, i.to});
        sim.ep.send_message(m);
        net.to_pop[pop].push_back({ext_of(pop), forcing, v});
    }
    void send_spikes(const kc::UID &proj, const std::vector<uint32_t> &idx)
    {
        sim.ep.send_message(km::SpikeMessage{{ext_of(proj), net.step}, km::SpikeData(idx.begin(), idx.end())});
        net.to_proj[proj].push_back({ext_of(proj), net.step, idx});
    }
    void step(mc::Ctx &c)
    {
        sim.step();
        net.run();
        c.transition();
        compare(c);
    }

    void compare(mc::Ctx &c)
    {
        const uint64_t st = net.step - 1;
        mc::Hash state;
        c.check(sim.b.get_step() == net.step, "the backend is at step ", sim.b.get_step(), ", expected ", net.step);
        auto sp = sim.spikes();
        auto im = sim.impacts();
        // Spikes: at most one message per population.
        for (const auto &ap : net.pops)
            std::visit(
                [&](const auto &p)
                {
                    std::vector<km::SpikeMessage> mine;
                    for (auto &m : sp)
                        if (m.header_.sender_uid_ == p.uid) mine.push_back(m);
                    const SpikeMsg *want = nullptr;
                    for (auto &m : net.sent_spikes)
                        if (m.from == p.uid) want = &m;
                    c.check(
                        mine.size() == (want ? 1u : 0u), "step ", st, ": ", mine.size(), " spike messages of population ",
                        uid_no(p.uid), ", expected ", want ? 1 : 0, want ? " with " + show(want->idx) : std::string());
                    if (!want) return;
                    std::vector<uint32_t> got(mine[0].neuron_indexes_.begin(), mine[0].neuron_indexes_.end());
                    if (order_free) std::sort(got.begin(), got.end());
                    c.check(
                        got == want->idx, "step ", st, ": spikes ", show(got), " of population ", uid_no(p.uid),
                        ", expected ", show(want->idx));
                    c.check(mine[0].header_.send_time_ == st, "spike message has time ", mine[0].header_.send_time_, " at step ", st);
                },
                ap);
        c.check(sp.size() == net.sent_spikes.size(), "step ", st, ": spike messages of unknown senders");
        for (const auto &ap : net.projs)
            std::visit(
                [&](const auto &p)
                {
                    std::vector<km::SynapticImpactMessage> mine;
                    for (auto &m : im)
                        if (m.header_.sender_uid_ == p.uid) mine.push_back(m);
                    const ImpactMsg *want = nullptr;
                    for (auto &m : net.sent_impacts)
                        if (m.from == p.uid) want = &m;
                    c.check(
                        mine.size() == (want ? 1u : 0u), "step ", st, ": ", mine.size(), " impact messages of projection ",
                        uid_no(p.uid), ", expected ", want ? 1 : 0);
                    if (want)
                    {
                        const auto &m = mine[0];
                        c.check(
                            m.presynaptic_population_uid_ == p.pre && m.postsynaptic_population_uid_ == p.post,
                            "step ", st, ": the impact message of projection ", uid_no(p.uid), " names the wrong populations");
                        c.check(m.is_forcing_ == want->forcing, "step ", st, ": wrong forcing flag ", m.is_forcing_);
                        std::vector<AnyImpact> got;
                        for (const auto &i : m.impacts_)
                            got.push_back({i.connection_index_, i.impact_value_, i.synapse_type_, i.presynaptic_neuron_index_, i.postsynaptic_neuron_index_});
                        std::sort(got.begin(), got.end());
                        auto expected = want->impacts;
                        if (merged) merge(got), merge(expected);
                        std::ostringstream os;
                        for (const auto &i : got) os << " #" << i.conn << ' ' << i.from << "->" << i.to << '=' << i.value << " type " << (int)i.type;
                        std::ostringstream ow;
                        for (const auto &i : expected) ow << " #" << i.conn << ' ' << i.from << "->" << i.to << '=' << i.value << " type " << (int)i.type;
                        c.check(
                            got == expected, "step ", st, ": projection ", uid_no(p.uid), " sent", os.str(), ", expected", ow.str());
                    }
                    using S2 = typename std::decay_t<decltype(p)>::Synapse;
                    if constexpr (std::is_constructible_v<std::decay_t<decltype(sim.b.begin_projections()->arg_)>, kc::Projection<S2>>)
                    {
                        auto &r = sim.template projection<S2>(p.uid);
                        c.check(r.size() == p.s.size(), "the projection changed its size");
                        c.check(r.is_locked() == p.locked, "the projection is ", r.is_locked() ? "" : "not ", "locked");
                        for (size_t i = 0; i < p.s.size(); ++i)
                        {
                            Diff d;
                            d.tol = tol;
                        d.adopt = true;
                        d.state = &state;
                            diff(d, std::get<0>(r[i]), p.s[i].p);
                            c.check(d.what.empty(), "step ", st, ": projection ", uid_no(p.uid), " synapse ", i, ": ", d.what);
                            c.check(std::get<1>(r[i]) == p.s[i].from && std::get<2>(r[i]) == p.s[i].to, "a synapse was rewired");
                        }
                    }
                },
                ap);
        c.check(im.size() == net.sent_impacts.size(), "step ", st, ": impact messages of unknown senders");
        for (const auto &ap : net.pops)
            std::visit(
                [&](const auto &p)
                {
                    using N = typename std::decay_t<decltype(p)>::Neuron;
                    if constexpr (std::is_constructible_v<std::decay_t<decltype(*sim.b.begin_populations())>, kc::Population<N>>)
                    {
                        auto &r = sim.template population<N>(p.uid);
                        c.check(r.size() == p.n.size(), "the population changed its size");
                        for (size_t i = 0; i < p.n.size(); ++i)
                        {
                            Diff d;
                            d.tol = tol;
                            d.adopt = true;
                            d.state = &state;
                            diff(d, r[i], p.n[i]);
                            c.check(d.what.empty(), "step ", st, ": population ", uid_no(p.uid), " neuron ", i, ": ", d.what);
                        }
                    }
                },
                ap);
        c.state(state);
    }
};
}  // namespace ref
