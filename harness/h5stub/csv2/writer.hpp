// Stand-in for csv2: writes rows as they are.
#pragma once
#include <fstream>
#include <string>
#include <utility>

#include "reader.hpp"

namespace csv2
{
template <class D = delimiter<','>, class S = std::ofstream>
class Writer
{
public:
    template <class X> explicit Writer(X &&s) : s_(s) {}
    template <class C> void write_row(C &&row)
    {
        bool first = true;
        for (const auto &x : row)
        {
            if (!first) s_ << D::value;
            first = false;
            s_ << x;
        }
        s_ << "\n";
    }
    template <class C> void write_rows(C &&rows)
    {
        for (const auto &r : rows) write_row(r);
    }

private:
    S &s_;
};
}  // namespace csv2
