// C27: converters between streams, spikes and results.
#include <knp/framework/io/in_converters/index_converter.h>
#include <knp/framework/io/in_converters/sequence_converter.h>
#include <knp/framework/io/input_interpreters.h>
#include <knp/framework/io/out_converters/convert_bitwise.h>
#include <knp/framework/io/out_converters/convert_count.h>
#include <knp/framework/io/out_converters/convert_set.h>

#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace in = knp::framework::io::input;
namespace out = knp::framework::io::output;

// Values separated by blanks; the stream ends after them, with a word or in the middle.
template <class T>
static mc::Body sequence(int values, int calls)
{
    return [=](mc::Ctx &c)
    {
        const T v[] = {0, 1, 2, -1};
        std::string text;
        std::vector<T> data;
        const int n = c.choose(values + 1);
        for (int i = 0; i < n; ++i)
        {
            const int k = c.choose(4);
            data.push_back(v[k]);
            text += (i ? (i & 1 ? " " : "\n") : "") + std::to_string(static_cast<int>(v[k]));
        }
        const int tail = c.choose(4);
        text += tail == 1 ? "\n" : tail == 2 ? "\n\n  " : tail == 3 ? " word" : "";
        const int how = c.choose(3);
        const T threshold = how == 1 ? 1 : how == 2 ? 2 : 0;
        size_t size = c.choose(4), at = 0;
        c.log("stream '", text, "', interpretation ", how, ", size ", size);
        in::SequenceConverter<T> conv(
            std::make_unique<std::istringstream>(text), how ? std::function<bool(T)>(in::interpret_with_threshold<T>(threshold)) : std::function<bool(T)>(in::interpret_as_bool<T>), size);
        for (int i = 0; i < calls; ++i)
        {
            if (i && c.choose(2))
            {
                size = size == 1 ? 3 : 1;
                conv.set_size(size);
                c.log("set size ", size);
            }
            km::SpikeData want;
            for (size_t k = 0; k < size && at < data.size(); ++k, ++at)
                if (how ? data[at] >= threshold : data[at] != 0) want.push_back(k);
            c.transition();
            const auto got = conv(i);
            c.log("converted to ", show(got));
            c.check(got == want, "call ", i, " gave ", show(got), ", expected ", show(want));
        }
    };
}
// Lines of numbers.
static mc::Body index(int per_line, int lines)
{
    return [=](mc::Ctx &c)
    {
        static const uint32_t v[] = {0, 7, 12, 4294967295U};
        const char delim = ",; "[c.choose(3)];
        const bool standard = delim == ',' && c.choose(2);
        std::string text;
        std::vector<km::SpikeData> want;
        const int n = c.choose(lines + 1);
        for (int l = 0; l < n; ++l)
        {
            want.emplace_back();
            const int k = c.choose(per_line + 1);
            for (int i = 0; i < k; ++i)
            {
                const auto x = v[c.choose(4)];
                want.back().push_back(x);
                text += (i ? std::string(1, delim) : "") + std::to_string(x);
            }
            if (l + 1 < n || k == 0 || c.choose(2)) text += "\n";
        }
        c.log("lines '", text, "'");
        auto stream = std::make_unique<std::istringstream>(text);
        const in::IndexConverter conv = standard ? in::IndexConverter(std::move(stream)) : in::IndexConverter(std::move(stream), delim);
        for (int l = 0; l < n + 2; ++l)
        {
            c.transition();
            const auto got = conv(l);
            const auto w = l < n ? want[l] : km::SpikeData{};
            c.check(got == w, "line ", l, " gave ", show(got), ", expected ", show(w));
        }
    };
}
static mc::Body results(int messages, int spikes)
{
    return [=](mc::Ctx &c)
    {
        static const uint32_t v[] = {0, 1, 2, 3, 4294967295U};
        std::vector<km::SpikeMessage> m;
        std::map<uint32_t, size_t> count;
        const int n = c.choose(messages + 1);
        for (int i = 0; i < n; ++i)
        {
            km::SpikeData d;
            const int k = c.choose(spikes + 1);
            for (int j = 0; j < k; ++j)
            {
                const auto x = v[c.choose(5)];
                d.push_back(x);
                ++count[x];
            }
            c.log("message ", show(d));
            m.push_back({{mkuid(1 + i), static_cast<kc::Step>(i)}, d});
        }
        for (size_t size : {0, 1, 2, 3, 4, 7})
        {
            c.transition();
            const auto bits = out::converter_bitwise(m, size);
            const auto counts = out::converter_count(m, size);
            out::ConvertToSet conv(size);
            const auto set = conv(m);
            c.check(bits.size() == size && counts.size() == size, "results of size ", bits.size(), " and ", counts.size(), " instead of ", size);
            size_t in_range = 0;
            for (size_t i = 0; i < size; ++i)
            {
                const size_t k = count.count(i) ? count[i] : 0;
                c.check(bits[i] == (k > 0), "size ", size, ": bit ", i, " is ", bits[i]);
                c.check(counts[i] == k, "size ", size, ": count ", i, " is ", counts[i], " instead of ", k);
                c.check(set.count(i) == (k > 0), "size ", size, ": the set ", k ? "lacks " : "contains ", i);
                in_range += k > 0;
            }
            c.check(set.size() == in_range, "the set contains neurons outside of ", size);
        }
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C27");
    r.explain("Every execution feeds real converters one stream or list of messages, in consecutive calls, and compares all results.");
    r.assume("lines of indexes are well formed");
    const bool t = r.thorough();
    r.scenario("sequence of integers", sequence<int>(t ? 6 : 4, 4), {3, 30, "streams of up to 4-6 values, 4 calls, changing sizes"});
    r.scenario("sequence of floating-point values", sequence<float>(t ? 6 : 4, 4), {3, 30, "streams of up to 4-6 values, 4 calls, changing sizes"});
    r.scenario("lines of indexes", index(t ? 4 : 3, t ? 3 : 2), {3, 30, "lines of up to 3-4 numbers, 3 delimiters, calls past the end"});
    r.scenario("longer lines of indexes", index(t ? 7 : 6, 1), {3, 30, "one line of up to 6-7 numbers, 3 delimiters"});
    r.scenario("results", results(t ? 3 : 2, 3), {2, 30, "messages with up to 3 spikes, sizes 0 to 7"});
    return r.finish();
}
