// Reference models of the neurons: written from the documentation and the observed rules, sharing only the parameter
// structures with the code under test.
#pragma once
#include <knp/core/messaging/messaging.h>
#include <knp/neuron-traits/all_traits.h>
#include <knp/synapse-traits/all_traits.h>

#include <cmath>
#include <limits>
#include <string>

#include "mc.hpp"

namespace ref
{
namespace nt = knp::neuron_traits;
namespace sy = knp::synapse_traits;
using Out = sy::OutputType;
template <class N>
using P = nt::neuron_parameters<N>;

struct Impact
{
    Out type;
    float value;
    bool forcing = false;
};

struct Unsupported
{
};

// ---- LIF
inline void pre(P<nt::LIFNeuron> &n)
{
    if (n.refract_counter_ == 0) n.potential_ = n.potential_ * n.leak_coefficient_;
}
inline void impact(P<nt::LIFNeuron> &n, const Impact &i)
{
    if (i.type != Out::EXCITATORY && i.type != Out::INHIBITORY_CURRENT) throw Unsupported{};
    if (n.refract_counter_ != 0) return;
    n.potential_ += i.type == Out::EXCITATORY ? i.value : -i.value;
}
inline bool post(P<nt::LIFNeuron> &n)
{
    if (n.refract_counter_ != 0)
    {
        n.refract_counter_ -= 1;
        return false;
    }
    if (!(n.potential_ > n.activation_threshold_)) return false;
    n.potential_ = n.potential_reset_value_;
    n.refract_counter_ = n.refract_period_;
    return true;
}

// ---- BLIFAT
inline void pre_blifat(P<nt::BLIFATNeuron> &n)
{
    if (n.n_time_steps_since_last_firing_ != std::numeric_limits<size_t>::max()) n.n_time_steps_since_last_firing_ += 1;
    n.dynamic_threshold_ = n.threshold_decay_ * n.dynamic_threshold_;
    n.postsynaptic_trace_ = n.postsynaptic_trace_decay_ * n.postsynaptic_trace_;
    n.inhibitory_conductance_ = n.inhibitory_conductance_decay_ * n.inhibitory_conductance_;
    n.potential_ = n.potential_decay_ * n.potential_;
    if (n.bursting_phase_ != 0)
    {
        n.bursting_phase_ -= 1;
        if (n.bursting_phase_ == 0) n.potential_ += n.reflexive_weight_;
    }
    n.pre_impact_potential_ = n.potential_;
}
inline void pre(P<nt::BLIFATNeuron> &n) { pre_blifat(n); }
inline void pre(P<nt::SynapticResourceSTDPBLIFATNeuron> &n)
{
    pre_blifat(n);
    n.dopamine_value_ = 0;
    n.is_being_forced_ = false;
}
inline void impact(P<nt::BLIFATNeuron> &n, const Impact &i)
{
    switch (i.type)
    {
        case Out::EXCITATORY:
            n.potential_ += static_cast<double>(i.value);
            return;
        case Out::INHIBITORY_CURRENT:
            n.potential_ -= static_cast<double>(i.value);
            return;
        case Out::INHIBITORY_CONDUCTANCE:
            n.inhibitory_conductance_ += static_cast<double>(i.value);
            return;
        case Out::DOPAMINE:
            n.dopamine_value_ += static_cast<double>(i.value);
            return;
        case Out::BLOCKING:
            n.total_blocking_period_ = static_cast<int64_t>(i.value);
            return;
    }
    throw Unsupported{};
}
inline void impact(P<nt::SynapticResourceSTDPBLIFATNeuron> &n, const Impact &i)
{
    impact(static_cast<P<nt::BLIFATNeuron> &>(n), i);
    if (i.type == Out::EXCITATORY && i.forcing) n.is_being_forced_ = true;
}
inline bool post(P<nt::BLIFATNeuron> &n)
{
    int64_t &b = n.total_blocking_period_;
    // Positive: active for so many steps; zero: blocked for good; negative: blocked for so many steps, then active.
    if (b > 0)
        b -= 1;
    else
    {
        n.potential_ = n.pre_impact_potential_;
        if (b < 0 && ++b == 0) b = std::numeric_limits<int64_t>::max();
    }
    const double g = n.inhibitory_conductance_;
    if (g >= 1)
        n.potential_ = n.reversal_inhibitory_potential_;
    else
        n.potential_ += g * (n.reversal_inhibitory_potential_ - n.potential_);
    bool spike = n.n_time_steps_since_last_firing_ > n.absolute_refractory_period_ &&
                 n.potential_ >= n.activation_threshold_ + n.dynamic_threshold_ + n.additional_threshold_;
    if (spike)
    {
        n.n_time_steps_since_last_firing_ = 0;
        n.bursting_phase_ = n.bursting_period_;
        n.potential_ = n.potential_reset_value_;
        n.postsynaptic_trace_ += n.postsynaptic_trace_increment_;
        n.dynamic_threshold_ += n.threshold_increment_;
    }
    n.potential_ = std::max(n.potential_, n.min_potential_);
    return spike;
}

// ---- AltAI
inline void pre_altai(P<nt::AltAILIF> &n)
{
    if (n.do_not_save_)
        n.potential_ = n.potential_reset_value_;
    else
        n.potential_ = std::copysign(std::floor(std::fabs(n.potential_) + 0.5F), n.potential_);
    n.pre_impact_potential_ = n.potential_;
}
inline void pre(P<nt::AltAILIF> &n) { pre_altai(n); }
inline void pre(P<nt::SynapticResourceSTDPAltAILIFNeuron> &n)
{
    pre_altai(n);
    n.dopamine_value_ = 0;
    n.is_being_forced_ = false;
}
inline void impact(P<nt::AltAILIF> &n, const Impact &i)
{
    switch (i.type)
    {
        case Out::EXCITATORY:
            n.potential_ += i.value;
            return;
        case Out::INHIBITORY_CURRENT:
            n.potential_ -= i.value;
            return;
        case Out::DOPAMINE:
            n.dopamine_value_ += i.value;
            return;
        case Out::BLOCKING:
        {
            // A request of the other sign always wins, of the same sign only if it lasts at least as long.
            const bool neg_now = n.activity_time_ < 0, neg_new = std::signbit(i.value);
            const double now = std::fabs(static_cast<double>(n.activity_time_)), req = std::fabs(i.value);
            if (neg_now != neg_new || now <= req) n.activity_time_ = static_cast<int64_t>(i.value);
            return;
        }
        default:
            throw Unsupported{};
    }
}
inline void impact(P<nt::SynapticResourceSTDPAltAILIFNeuron> &n, const Impact &i)
{
    impact(static_cast<P<nt::AltAILIF> &>(n), i);
    if (i.type == Out::EXCITATORY && i.forcing) n.is_being_forced_ = true;
}
inline bool post(P<nt::AltAILIF> &n)
{
    if (n.leak_rev_ && n.potential_ < 0)
        n.potential_ -= n.potential_leak_;
    else
        n.potential_ += n.potential_leak_;
    int64_t &a = n.activity_time_;
    if (a < 0)
        ++a;
    else if (a > 0)
        --a;
    if (a == 0) a = std::numeric_limits<int64_t>::max();
    bool spike = false, reset = false;
    const double thr = n.activation_threshold_ + n.additional_threshold_;
    if (n.potential_ >= thr)
    {
        spike = a > 0;
        if (n.is_reset_)
        {
            n.potential_ = n.potential_reset_value_;
            reset = true;
        }
        else if (n.is_diff_)
            n.potential_ -= thr;
    }
    const float low = -static_cast<float>(n.negative_activation_threshold_);
    if (!reset && n.potential_ <= low)
    {
        if (n.saturate_)
            n.potential_ = low;
        else if (n.is_reset_)
            n.potential_ = -static_cast<float>(n.potential_reset_value_);
        else if (n.is_diff_)
            n.potential_ -= low;
    }
    return spike;
}

// ---- field comparison
inline bool near(double a, double b, double tol = 1e-9)
{
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
struct Diff
{
    double tol = 1e-9;
    bool adopt = false;  // take over floating-point values within the tolerance, so that rounding never accumulates
    mc::Hash *state = nullptr;  // collects the reference state
    std::string what;
    template <class T>
    void f(const char *name, const T &got, const T &want)
    {
        if (!what.empty()) return;
        bool same;
        if constexpr (std::is_floating_point_v<T>)
        {
            same = near(got, want, tol);
            if (same && adopt) const_cast<T &>(want) = got;
        }
        else
            same = got == want;
        if (state) state->addf(static_cast<double>(want));
        if (!same)
        {
            std::ostringstream os;
            os.precision(17);
            if constexpr (std::is_enum_v<T>)
                os << name << " is " << static_cast<int>(got) << ", expected " << static_cast<int>(want);
            else
                os << name << " is " << got << ", expected " << want;
            what = os.str();
        }
    }
};
#define F(x) d.f(#x, g.x, w.x)
inline void diff(Diff &d, const P<nt::LIFNeuron> &g, const P<nt::LIFNeuron> &w)
{
    F(potential_);
    F(potential_reset_value_);
    F(activation_threshold_);
    F(leak_coefficient_);
    F(refract_counter_);
    F(refract_period_);
}
inline void diff(Diff &d, const P<nt::BLIFATNeuron> &g, const P<nt::BLIFATNeuron> &w)
{
    F(n_time_steps_since_last_firing_);
    F(activation_threshold_);
    F(additional_threshold_);
    F(dynamic_threshold_);
    F(threshold_decay_);
    F(threshold_increment_);
    F(postsynaptic_trace_);
    F(postsynaptic_trace_decay_);
    F(postsynaptic_trace_increment_);
    F(inhibitory_conductance_);
    F(inhibitory_conductance_decay_);
    F(potential_);
    F(pre_impact_potential_);
    F(potential_decay_);
    F(bursting_phase_);
    F(bursting_period_);
    F(reflexive_weight_);
    F(reversal_inhibitory_potential_);
    F(absolute_refractory_period_);
    F(potential_reset_value_);
    F(min_potential_);
    F(total_blocking_period_);
    F(dopamine_value_);
}
inline void diff(Diff &d, const P<nt::AltAILIF> &g, const P<nt::AltAILIF> &w)
{
    F(is_diff_);
    F(is_reset_);
    F(leak_rev_);
    F(saturate_);
    F(do_not_save_);
    F(potential_);
    F(pre_impact_potential_);
    F(activation_threshold_);
    F(negative_activation_threshold_);
    F(potential_leak_);
    F(potential_reset_value_);
    F(dopamine_value_);
    F(additional_threshold_);
    F(activity_time_);
}
template <class N>
void diff(Diff &d, const P<nt::SynapticResourceSTDPNeuron<N>> &g, const P<nt::SynapticResourceSTDPNeuron<N>> &w)
{
    diff(d, static_cast<const P<N> &>(g), static_cast<const P<N> &>(w));
    F(synapse_sum_threshold_coefficient_);
    F(dopamine_plasticity_time_);
    F(free_synaptic_resource_);
    F(synaptic_resource_threshold_);
    F(resource_drain_coefficient_);
    F(stability_);
    F(stability_change_parameter_);
    F(stability_change_at_isi_);
    F(isi_max_);
    F(d_h_);
    F(isi_status_);
    F(last_step_);
    F(last_spike_step_);
    F(first_isi_spike_);
    F(is_being_forced_);
}
#undef F

// One full step of one neuron.
template <class N>
bool step(P<N> &n, const std::vector<Impact> &in)
{
    pre(n);
    for (const auto &i : in) impact(n, i);
    return post(n);
}
}  // namespace ref
