// Message serialisation. MSG_PROP=5: binary envelope; 6: text streams. Exhaustive over small value alphabets.
#include <knp/core/messaging/message_envelope.h>
#include <knp/core/messaging/messaging.h>

#include <limits>

#include "util.hpp"

using namespace knp::core;
using namespace knp::core::messaging;
using knp::synapse_traits::OutputType;

namespace
{
UID uid_of(int i)
{
    std::array<uint8_t, 16> d{};
    if (i == 1) d.fill(0xff);
    if (i == 2)
        for (int k = 0; k < 16; ++k) d[k] = static_cast<uint8_t>(k * 17 + 1);
    if (i == 3) d[15] = 0x80;
    return UID(d);
}
const std::vector<uint64_t> times{0, 1, 0x100000000ULL, 0xffffffffffffffffULL};
const std::vector<uint32_t> idx{0, 1, 0x80000000U, 0xffffffffU};
const std::vector<float> finite_values{0.F,     -0.F,    1.5F,   0.1F,        -1.0F / 3, 16777217.F, 1e-38F, 3.4028235e38F,
                                1e-45F,  -2.7182817F};
std::vector<float> with_special()
{
    auto v = finite_values;
    v.push_back(std::numeric_limits<float>::infinity());
    v.push_back(-std::numeric_limits<float>::infinity());
    return v;
}
const std::vector<OutputType> types{
    OutputType::EXCITATORY, OutputType::INHIBITORY_CURRENT, OutputType::INHIBITORY_CONDUCTANCE, OutputType::DOPAMINE,
    OutputType::BLOCKING};

bool same_bits(float a, float b) { return memcmp(&a, &b, 4) == 0; }

bool same(const SpikeMessage &a, const SpikeMessage &b)
{
    return a.header_.sender_uid_ == b.header_.sender_uid_ && a.header_.send_time_ == b.header_.send_time_ &&
           a.neuron_indexes_ == b.neuron_indexes_;
}
std::string diff(const SynapticImpact &x, const SynapticImpact &y)
{
    if (x.connection_index_ != y.connection_index_) return "connection index";
    if (!same_bits(x.impact_value_, y.impact_value_))
    {
        std::ostringstream os;
        os.precision(9);
        os << "impact value " << x.impact_value_ << " became " << y.impact_value_;
        return os.str();
    }
    if (x.synapse_type_ != y.synapse_type_) return "synapse type";
    if (x.presynaptic_neuron_index_ != y.presynaptic_neuron_index_) return "presynaptic index";
    if (x.postsynaptic_neuron_index_ != y.postsynaptic_neuron_index_) return "postsynaptic index";
    return "";
}
std::string diff(const SynapticImpactMessage &a, const SynapticImpactMessage &b)
{
    if (a.header_.sender_uid_ != b.header_.sender_uid_) return "sender";
    if (a.header_.send_time_ != b.header_.send_time_) return "send time";
    if (a.presynaptic_population_uid_ != b.presynaptic_population_uid_) return "presynaptic population";
    if (a.postsynaptic_population_uid_ != b.postsynaptic_population_uid_) return "postsynaptic population";
    if (a.is_forcing_ != b.is_forcing_) return "forcing flag";
    if (a.impacts_.size() != b.impacts_.size()) return "number of impacts";
    for (size_t i = 0; i < a.impacts_.size(); ++i)
    {
        auto d = diff(a.impacts_[i], b.impacts_[i]);
        if (!d.empty()) return d;
    }
    return "";
}
std::string diff(const SpikeMessage &a, const SpikeMessage &b)
{
    if (a.header_.sender_uid_ != b.header_.sender_uid_) return "sender";
    if (a.header_.send_time_ != b.header_.send_time_) return "send time";
    if (a.neuron_indexes_ != b.neuron_indexes_)
        return "spikes " + show(a.neuron_indexes_) + " became " + show(b.neuron_indexes_);
    return "";
}

SpikeMessage spikes(mc::Ctx &c, int max_n)
{
    SpikeMessage m{{uid_of(c.choose(4)), c.pick(times)}, {}};
    const int n = c.choose(max_n + 1);
    for (int i = 0; i < n; ++i) m.neuron_indexes_.push_back(c.pick(idx));
    c.log("spike message time ", m.header_.send_time_, " spikes ", show(m.neuron_indexes_));
    return m;
}
// Every field of one impact over its alphabet, for messages with n impacts the other impacts are fixed.
SynapticImpact impact(mc::Ctx &c, const std::vector<float> &values)
{
    SynapticImpact i;
    i.connection_index_ = c.pick(times);
    i.impact_value_ = c.pick(values);
    i.synapse_type_ = c.pick(types);
    i.presynaptic_neuron_index_ = c.pick(idx);
    i.postsynaptic_neuron_index_ = c.pick(idx);
    return i;
}
SynapticImpact fixed(int k)
{
    SynapticImpact i;
    i.connection_index_ = 100 + k;
    i.impact_value_ = 0.25F * k;
    i.synapse_type_ = types[k % 5];
    i.presynaptic_neuron_index_ = 10 + k;
    i.postsynaptic_neuron_index_ = 20 + k;
    return i;
}
SynapticImpactMessage impacts_header(mc::Ctx &c, int max_n)
{
    SynapticImpactMessage m{{uid_of(c.choose(4)), c.pick(times)}, uid_of(c.choose(4)), uid_of(c.choose(4)), c.flag(), {}};
    const int n = c.choose(max_n + 1);
    for (int i = 0; i < n; ++i) m.impacts_.push_back(fixed(i + c.choose(2)));
    c.log("impact message time ", m.header_.send_time_, " impacts ", n, " forcing ", m.is_forcing_);
    return m;
}
SynapticImpactMessage impacts_fields(mc::Ctx &c, const std::vector<float> &values)
{
    SynapticImpactMessage m{{uid_of(2), 7}, uid_of(1), uid_of(3), true, {}};
    const int n = 1 + c.choose(3), at = c.choose(n);
    for (int i = 0; i < n; ++i) m.impacts_.push_back(i == at ? impact(c, values) : fixed(i));
    c.log("impact message with ", n, " impacts, varied at ", at);
    return m;
}

template <class M>
void envelope(mc::Ctx &c, const M &m)
{
    c.transition();
    const M copy = m;
    const auto buf = pack_to_envelope(m);
    c.check(diff(copy, m).empty(), "packing changed the message");
    // Three ways of reading, twice, from an independent copy of the bytes.
    std::vector<uint8_t> other(buf);
    for (int k = 0; k < 3; ++k)
    {
        const MessageVariant v = k == 0   ? extract_from_envelope(buf)
                                 : k == 1 ? extract_from_envelope(static_cast<const void *>(other.data()))
                                          : extract_from_envelope(other);
        const M *r = std::get_if<M>(&v);
        c.check(r, "the message came back as another type");
        const auto d = diff(m, *r);
        c.check(d.empty(), "after the envelope differs: ", d);
        c.check(*r == m, "the equality operator says that the message changed");
    }
    c.check(pack_to_envelope(m) == buf, "packing is not deterministic");
    mc::Hash h;
    h.adds(buf);
    c.state(h);
    c.outcome(h);
}

template <class M>
void dirty(M &m, int k);
template <>
void dirty(SpikeMessage &m, int k)
{
    if (k) m = SpikeMessage{{uid_of(1), 99}, {7, 8, 9, 10, 11}};
}
template <>
void dirty(SynapticImpactMessage &m, int k)
{
    if (k) m = SynapticImpactMessage{{uid_of(1), 99}, uid_of(1), uid_of(1), true, {fixed(1), fixed(2), fixed(3), fixed(4)}};
}

template <class M>
void text(mc::Ctx &c, const M &m)
{
    c.transition();
    const int target = c.choose(2);
    std::stringstream s;
    s << m;
    s << ' ' << 12345;
    c.log("text: ", s.str());
    M r{};
    dirty(r, target);
    s >> r;
    c.check(!s.fail(), "reading failed");
    const auto d = diff(m, r);
    c.check(d.empty(), "read from its text into ", target ? "a used" : "a new", " message differs: ", d);
    int sentinel = 0;
    s >> sentinel;
    c.check(sentinel == 12345, "reading consumed too much or too little");
    mc::Hash h;
    h.adds(s.str());
    c.state(h);
    c.outcome(h);
}

// Several messages one after another through one buffer/stream.
template <class M>
std::vector<M> several(mc::Ctx &c);
template <>
std::vector<SpikeMessage> several(mc::Ctx &c)
{
    std::vector<SpikeMessage> v;
    for (int i = 0; i < 3; ++i)
    {
        SpikeMessage m{{uid_of(i), times[c.choose(2)]}, {}};
        const int n = c.choose(4);
        for (int k = 0; k < n; ++k) m.neuron_indexes_.push_back(k + 10 * i);
        v.push_back(m);
    }
    return v;
}
template <>
std::vector<SynapticImpactMessage> several(mc::Ctx &c)
{
    std::vector<SynapticImpactMessage> v;
    for (int i = 0; i < 3; ++i)
    {
        SynapticImpactMessage m{{uid_of(i), 5}, uid_of(i + 1), uid_of(0), c.flag(), {}};
        const int n = c.choose(4);
        for (int k = 0; k < n; ++k) m.impacts_.push_back(fixed(k + i));
        v.push_back(m);
    }
    return v;
}

template <class M>
void sequence(mc::Ctx &c, bool binary)
{
    auto v = several<M>(c);
    c.transition(v.size());
    if (binary)
    {
        std::vector<std::vector<uint8_t>> b;
        for (auto &m : v) b.push_back(pack_to_envelope(m));
        for (size_t i = v.size(); i-- > 0;)
        {
            auto r = extract_from_envelope(b[i]);
            c.check(std::holds_alternative<M>(r), "another type");
            c.check(diff(v[i], std::get<M>(r)).empty(), "message ", i, " of a sequence changed: ", diff(v[i], std::get<M>(r)));
        }
        // A big one.
        return;
    }
    std::stringstream s;
    for (auto &m : v) s << m << '\n';
    c.log(s.str());
    M r{};
    for (size_t i = 0; i < v.size(); ++i)
    {
        s >> r;
        c.check(!s.fail(), "reading failed");
        c.check(diff(v[i], r).empty(), "message ", i, " of a sequence read from one stream changed: ", diff(v[i], r));
    }
    mc::Hash h;
    h.adds(s.str());
    c.state(h);
}

template <class M>
void big(mc::Ctx &c)
{
    const std::vector<size_t> sizes{5, 63, 64, 255, 256, 1000, 4096, 70000};
    const size_t n = c.pick(sizes);
    M m{};
    m.header_.sender_uid_ = uid_of(2);
    m.header_.send_time_ = n;
    if constexpr (std::is_same_v<M, SpikeMessage>)
        for (size_t i = 0; i < n; ++i) m.neuron_indexes_.push_back(i * 2654435761U);
    else
    {
        m.presynaptic_population_uid_ = uid_of(1);
        m.postsynaptic_population_uid_ = uid_of(3);
        for (size_t i = 0; i < n; ++i) m.impacts_.push_back(fixed(i % 1000));
    }
    c.log("big message ", n);
#if MSG_PROP == 5
    envelope(c, m);
#else
    text(c, m);
#endif
}

// Equality distinguishes messages that differ in any one field.
void equality(mc::Ctx &c)
{
    SynapticImpactMessage a{{uid_of(1), 5}, uid_of(2), uid_of(3), false, {fixed(0), fixed(1)}}, b = a;
    SpikeMessage s{{uid_of(1), 5}, {1, 2}}, t = s;
    c.transition();
    c.check(a == b && s == t, "equal messages compare different");
    const int f = c.choose(15);
    c.log("field ", f);
    switch (f)
    {
        case 0: b.header_.sender_uid_ = uid_of(0); break;
        case 1: b.header_.send_time_ = 6; break;
        case 2: b.presynaptic_population_uid_ = uid_of(0); break;
        case 3: b.postsynaptic_population_uid_ = uid_of(0); break;
        case 4: b.is_forcing_ = true; break;
        case 5: b.impacts_[1].connection_index_ = 0; break;
        case 6: b.impacts_[1].impact_value_ = 77; break;
        case 7: b.impacts_[0].synapse_type_ = OutputType::BLOCKING; break;
        case 8: b.impacts_[0].presynaptic_neuron_index_ = 5; break;
        case 9: b.impacts_[0].postsynaptic_neuron_index_ = 5; break;
        case 10: b.impacts_.pop_back(); break;
        case 11: t.header_.sender_uid_ = uid_of(0); break;
        case 12: t.header_.send_time_ = 6; break;
        case 13: t.neuron_indexes_[0] = 6; break;
        case 14: t.neuron_indexes_.pop_back(); break;
    }
    c.outcome(f);
    if (f < 11)
        c.check(!(a == b) && !(b == a), "messages that differ in field ", f, " compare equal");
    else
        c.check(!(s == t) && !(t == s), "messages that differ in field ", f, " compare equal");
}

// Equality of all pairs of messages with up to three elements of two kinds.
void pairs(mc::Ctx &c)
{
    const bool spikes = c.choose(2);
    std::vector<int> x[2];
    for (auto &v : x)
    {
        v.resize(c.choose(4));
        for (int &e : v) e = c.choose(2);
    }
    bool equal, back;
    if (spikes)
    {
        SpikeMessage m[2];
        for (int k = 0; k < 2; ++k)
        {
            m[k].header_ = {uid_of(1), 5};
            for (int e : x[k]) m[k].neuron_indexes_.push_back(e);
        }
        equal = m[0] == m[1], back = m[1] == m[0];
    }
    else
    {
        SynapticImpactMessage m[2];
        for (int k = 0; k < 2; ++k)
        {
            m[k] = SynapticImpactMessage{{uid_of(1), 5}, uid_of(2), uid_of(3), false, {}};
            for (int e : x[k]) m[k].impacts_.push_back(fixed(e));
        }
        equal = m[0] == m[1], back = m[1] == m[0];
    }
    c.transition();
    c.outcome(equal);
    c.check(equal == (x[0] == x[1]), "messages with ", x[0].size(), " and ", x[1].size(), " elements compare ",
            equal ? "equal" : "different");
    c.check(equal == back, "equality is not symmetric");
}
}  // namespace

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, MSG_PROP == 5 ? "C05" : "C06");
    const bool th = r.thorough();
    mc::ScenarioOptions o;
    o.bound = "4 UIDs, 4 times, boundary indexes, 10-12 float values, all output types, 0-5 elements, sizes to 70000";
#if MSG_PROP == 5
    r.explain("Every message over the value alphabet is packed and extracted by the real code and compared bit by bit.");
    r.scenario("spikes", [&](mc::Ctx &c) { envelope(c, spikes(c, th ? 5 : 4)); }, o);
    r.scenario("impact_headers", [&](mc::Ctx &c) { envelope(c, impacts_header(c, th ? 5 : 3)); }, o);
    const auto v = with_special();
    r.scenario("impact_fields", [&](mc::Ctx &c) { envelope(c, impacts_fields(c, v)); }, o);
    r.scenario("spike_sequences", [](mc::Ctx &c) { sequence<SpikeMessage>(c, true); }, o);
    r.scenario("impact_sequences", [](mc::Ctx &c) { sequence<SynapticImpactMessage>(c, true); }, o);
    r.scenario("equality", equality, o);
    r.scenario("pairs", pairs, o);
#else
    r.explain("Every message over the value alphabet is written as text and read back, into new and used messages.");
    r.scenario("spikes", [&](mc::Ctx &c) { text(c, spikes(c, th ? 5 : 4)); }, o);
    r.scenario("impact_headers", [&](mc::Ctx &c) { text(c, impacts_header(c, th ? 5 : 3)); }, o);
    r.scenario("impact_fields", [&](mc::Ctx &c) { text(c, impacts_fields(c, finite_values)); }, o);
    r.scenario("spike_sequences", [](mc::Ctx &c) { sequence<SpikeMessage>(c, false); }, o);
    r.scenario("impact_sequences", [](mc::Ctx &c) { sequence<SynapticImpactMessage>(c, false); }, o);
#endif
    mc::ScenarioOptions o1 = o;
    o1.split = 1;
    r.scenario("big_spikes", big<SpikeMessage>, o1);
    r.scenario("big_impacts", big<SynapticImpactMessage>, o1);
    return r.finish();
}
