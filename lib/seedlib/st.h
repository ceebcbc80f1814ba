#pragma once
#include <knp/backends/cpu-single-threaded/backend.h>

#include "demo.h"

// A single-threaded backend with an endpoint that sees everything.
struct Run : knp::backends::single_threaded_cpu::SingleThreadedCPUBackend
{
    kc::MessageEndpoint ep = get_message_bus().create_endpoint();
    using ST = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
    void see(std::vector<kc::UID> v)
    {
        ep.subscribe<km::SpikeMessage>(U(9999), v);
        ep.subscribe<km::SynapticImpactMessage>(U(9999), v);
    }
    void init() { _init(); }
    void step() { _step(); }
    std::vector<km::SpikeMessage> spikes()
    {
        ep.receive_all_messages();
        return ep.unload_messages<km::SpikeMessage>(U(9999));
    }
    std::vector<km::SynapticImpactMessage> impacts()
    {
        ep.receive_all_messages();
        return ep.unload_messages<km::SynapticImpactMessage>(U(9999));
    }
    template <class T>
    T &pop(size_t i = 0)
    {
        return std::get<T>(*(begin_populations() + i));
    }
    template <class T>
    T &proj(size_t i = 0)
    {
        return std::get<T>((begin_projections() + i)->arg_);
    }
};
