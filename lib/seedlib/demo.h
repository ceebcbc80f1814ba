#pragma once
#include <knp/core/message_bus.h>
#include <knp/core/population.h>
#include <knp/core/projection.h>
#include <knp/framework/model.h>
#include <knp/framework/network.h>

#include <cstdlib>
#include <iostream>
#include <sstream>

namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace nt = knp::neuron_traits;
namespace sy = knp::synapse_traits;

// The UID number n.
inline kc::UID U(unsigned n)
{
    std::array<uint8_t, 16> d{};
    d[14] = n >> 8;
    d[15] = n;
    return kc::UID(d);
}
#define EXPECT(c)                                                           \
    do                                                                      \
    {                                                                       \
        if (!(c))                                                           \
        {                                                                   \
            std::cerr << "line " << __LINE__ << ": " << #c << " is false\n"; \
            std::exit(1);                                                   \
        }                                                                   \
    } while (0)
