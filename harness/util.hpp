#pragma once
#include <knp/core/projection.h>
#include <knp/core/population.h>
#include <knp/core/uid.h>

#include <string>
#include <vector>

#include "mc.hpp"

// A fixed UID: no randomness in any harness.
inline knp::core::UID mkuid(unsigned a, unsigned kind = 0)
{
    std::array<uint8_t, 16> d{};
    d[0] = kind;
    d[13] = 1;
    d[14] = a >> 8;
    d[15] = a & 255;
    return knp::core::UID(d);
}

template <class V>
std::string show(const V &v)
{
    std::ostringstream os;
    os << '[';
    bool first = true;
    for (const auto &x : v)
    {
        if (!first) os << ' ';
        first = false;
        os << +x;
    }
    os << ']';
    return os.str();
}
