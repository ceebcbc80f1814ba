// Driver of a CPU backend: loads a network, injects spikes and impacts, steps and observes every message.
#pragma once
#include <knp/core/backend.h>
#include <knp/core/message_bus.h>

#include "ref.hpp"
#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;

// Every entity has its own external sender.
inline kc::UID ext_of(const kc::UID &u)
{
    std::array<uint8_t, 16> d{};
    std::copy(u.tag.begin(), u.tag.end(), d.begin());
    d[0] = 0xEE;
    return kc::UID(d);
}
inline unsigned uid_no(const kc::UID &u) { return *(u.tag.begin() + 15); }

template <class B>
struct Sim
{
    B b;
    kc::MessageEndpoint ep;
    const kc::UID out = mkuid(901);

    template <class... A>
    explicit Sim(A &&...a) : b(std::forward<A>(a)...), ep(b.get_message_bus().create_endpoint())
    {
    }
    void init() { static_cast<kc::Backend &>(b)._init(); }
    void observe_spikes(const std::vector<kc::UID> &from) { ep.subscribe<km::SpikeMessage>(out, from); }
    void observe_impacts(const std::vector<kc::UID> &from) { ep.subscribe<km::SynapticImpactMessage>(out, from); }
    // Allow the external sender to reach a population (impacts) or a projection (spikes).
    void feed_impacts(const kc::UID &pop) { b.template subscribe<km::SynapticImpactMessage>(pop, {ext_of(pop)}); }
    void feed_spikes(const kc::UID &proj) { b.template subscribe<km::SpikeMessage>(proj, {ext_of(proj)}); }
    void step() { static_cast<kc::Backend &>(b)._step(); }
    std::vector<km::SpikeMessage> spikes()
    {
        ep.receive_all_messages();
        return ep.unload_messages<km::SpikeMessage>(out);
    }
    std::vector<km::SynapticImpactMessage> impacts()
    {
        ep.receive_all_messages();
        return ep.unload_messages<km::SynapticImpactMessage>(out);
    }
    template <class N>
    kc::Population<N> &population(const kc::UID &uid)
    {
        for (auto i = b.begin_populations(); i != b.end_populations(); ++i)
            if (auto *p = std::get_if<kc::Population<N>>(&*i))
                if (p->get_uid() == uid) return *p;
        throw std::runtime_error("no such population");
    }
    template <class S>
    kc::Projection<S> &projection(const kc::UID &uid)
    {
        for (auto i = b.begin_projections(); i != b.end_projections(); ++i)
            if (auto *p = std::get_if<kc::Projection<S>>(&i->arg_))
                if (p->get_uid() == uid) return *p;
        throw std::runtime_error("no such projection");
    }
};

