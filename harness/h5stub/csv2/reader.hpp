// Stand-in for csv2 (which this sandbox lacks): rows of cells divided by a character, with quotes.
#pragma once
#include <algorithm>
#include <cstddef>
#include <fstream>
#include <functional>
#include <iterator>
#include <sstream>
#include <string>
#include <vector>

namespace csv2
{
template <char c> struct delimiter { constexpr static char value = c; };
template <char c> struct quote_character { constexpr static char value = c; };
template <bool f> struct first_row_is_header { constexpr static bool value = f; };
namespace trim_policy
{
struct no_trimming
{
    static std::string trim(std::string s) { return s; }
};
template <char... cs>
struct trim_characters
{
    static std::string trim(std::string s)
    {
        const auto drop = [](char x) { return ((x == cs) || ...); };
        while (!s.empty() && drop(s.back())) s.pop_back();
        size_t i = 0;
        while (i < s.size() && drop(s[i])) ++i;
        return s.substr(i);
    }
};
using trim_whitespace = trim_characters<' ', '\t'>;
}  // namespace trim_policy

template <class D = delimiter<','>, class Q = quote_character<'"'>, class H = first_row_is_header<true>, class T = trim_policy::trim_whitespace>
class Reader
{
public:
    class Cell
    {
    public:
        explicit Cell(const std::string &s) : s_(s) {}
        template <class C> void read_raw_value(C &to) const { to.insert(to.end(), s_.begin(), s_.end()); }
        template <class C> void read_value(C &to) const
        {
            std::string s = T::trim(s_);
            for (size_t i = 0; i < s.size(); ++i)
            {
                to.push_back(s[i]);
                if (s[i] == Q::value && i + 1 < s.size() && s[i + 1] == Q::value) ++i;
            }
        }

    private:
        std::string s_;
    };
    class Row
    {
    public:
        Row() = default;
        explicit Row(const std::string &line) : line_(line)
        {
            std::string cell;
            bool quoted = false;
            for (char c : line)
            {
                if (c == Q::value) quoted = !quoted;
                if (c == D::value && !quoted)
                {
                    cells_.emplace_back(cell);
                    cell.clear();
                }
                else cell += c;
            }
            if (!cell.empty()) cells_.emplace_back(cell);
        }
        auto begin() const { return cells_.begin(); }
        auto end() const { return cells_.end(); }
        size_t length() const { return line_.size(); }
        template <class C> void read_raw_value(C &to) const { to.insert(to.end(), line_.begin(), line_.end()); }

    private:
        std::string line_;
        std::vector<Cell> cells_;
    };
    template <class S> bool mmap(S &&path)
    {
        std::ifstream f(path, std::ios::binary);
        std::ostringstream os;
        os << f.rdbuf();
        return bool(f) && parse(os.str());
    }
    template <class S> bool parse(S &&text)
    {
        rows_.clear();
        std::istringstream is(text);
        std::string line;
        while (std::getline(is, line)) rows_.emplace_back(line);
        return !rows_.empty();
    }
    Row header() const { return H::value && !rows_.empty() ? rows_[0] : Row(); }
    auto begin() const { return H::value && !rows_.empty() ? rows_.begin() + 1 : rows_.begin(); }
    auto end() const { return rows_.end(); }
    size_t rows(bool = false) const { return end() - begin(); }
    size_t cols() const
    {
        const Row r = header();
        return r.end() - r.begin();
    }

private:
    std::vector<Row> rows_;
};
}  // namespace csv2
