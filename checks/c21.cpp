// C21: input and output channels.
#include <knp/core/message_bus.h>
#include <knp/framework/io/input_channel.h>
#include <knp/framework/io/output_channel.h>

#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace io = knp::framework::io;

static std::string name(const std::vector<km::SpikeMessage> &v)
{
    std::ostringstream os;
    for (auto &m : v) os << '(' << +*(m.header_.sender_uid_.tag.begin() + 15) << '@' << m.header_.send_time_ << ' ' << show(m.neuron_indexes_) << ')';
    return os.str();
}
// The order of the messages of one sender counts.
static bool same(std::vector<km::SpikeMessage> a, std::vector<km::SpikeMessage> b)
{
    auto by_sender = [](auto &x, auto &y) { return x.header_.sender_uid_ < y.header_.sender_uid_; };
    std::stable_sort(a.begin(), a.end(), by_sender);
    std::stable_sort(b.begin(), b.end(), by_sender);
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto &x, auto &y) {
        return x.header_.sender_uid_ == y.header_.sender_uid_ && x.header_.send_time_ == y.header_.send_time_ && x.neuron_indexes_ == y.neuron_indexes_;
    });
}

// Populations 1 and 2 spike as time goes on; 3 is not connected.
static mc::Body output(int depth, int intervals, bool zmq)
{
    return [=](mc::Ctx &c)
    {
        auto bus = zmq ? kc::MessageBus::construct_zmq_bus() : kc::MessageBus::construct_cpu_bus();
        auto sender = bus->create_endpoint();
        auto ep = bus->create_endpoint();
        const auto me = mkuid(60);
        ep.subscribe<km::SpikeMessage>(me, {mkuid(1), mkuid(2)});
        auto ch = std::make_unique<io::output::OutputChannel>(me, std::move(ep));
        constexpr kc::Step MAX = std::numeric_limits<kc::Step>::max();
        kc::Step now = 0;
        uint32_t serial = 0;
        std::vector<km::SpikeMessage> sent, buffer;  // not yet read by the channel; in its buffer
        auto upd = [&]
        {
            std::stable_sort(sent.begin(), sent.end(), [](auto &a, auto &b) { return a.header_.send_time_ < b.header_.send_time_; });
            buffer.insert(buffer.end(), sent.begin(), sent.end());
            sent.clear();
        };
        auto take = [&](kc::Step from, kc::Step to)
        {
            std::vector<km::SpikeMessage> want, rest;
            for (auto &m : buffer) (from <= m.header_.send_time_ && m.header_.send_time_ <= to ? want : rest).push_back(m);
            buffer = rest;
            return want;
        };
        auto range = [&]() -> std::pair<kc::Step, kc::Step>
        {
            static constexpr kc::Step REL = 1ULL << 63;
            switch (c.choose(intervals))
            {
                case 0: return {0, now};
                case 1: return {0, MAX};
                case 2: return {now, now};
                case 3: return {now ? now - 1 : 0, now ? now - 1 : 0};
                case 4: return {0, 0};
                case 5: return {now + 1, 0};
                case 6: return {MAX, MAX};
                case 7: return {1, REL};
                default: return {1, now};
            }
        };
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(8);
            c.transition();
            if (k < 3)
            {
                km::SpikeMessage m{{mkuid(1 + k), now}, {serial++, 5}};
                if (serial % 3 == 0) m.neuron_indexes_ = {serial};
                c.log("population ", k + 1, " spikes at step ", now);
                sender.send_message(m);
                bus->route_messages();
                if (k < 2) sent.push_back(m);
            }
            else if (k == 3)
                c.log("step ", ++now);
            else if (k == 4)
            {
                upd();
                c.log("update");
                auto got = ch->update();
                c.check(same(got, buffer), "update returned ", name(got), ", expected ", name(buffer));
            }
            else if (k == 5)
            {
                auto [from, to] = range();
                c.log("read steps ", from, " to ", to);
                auto got = ch->read_some_from_buffer(from, to);
                auto want = take(from, to);
                c.check(same(got, want), "read ", name(got), ", expected ", name(want));
            }
            else if (k == 6)
            {
                auto [from, to] = range();
                c.log("update and convert steps ", from, " to ", to);
                upd();
                auto want = take(from, to);
                int calls = 0;
                const io::output::OutputConverter<size_t> conv = [&](const std::vector<km::SpikeMessage> &got)
                {
                    ++calls;
                    c.check(same(got, want), "the converter got ", name(got), ", expected ", name(want));
                    return got.size() + 1000;
                };
                c.check(io::output::output_channel_get(*ch, conv, from, to) == want.size() + 1000 && calls == 1, "the converter's result was not returned");
            }
            else
            {
                c.log("move the channel");
                ch = std::make_unique<io::output::OutputChannel>(std::move(*ch));
                c.check(ch->get_uid() == me, "a moved channel has another UID");
            }
        }
        upd();
        auto got = ch->update();
        c.check(same(got, buffer), "in the end update returned ", name(got), ", expected ", name(buffer));
    };
}

static mc::Body input(int depth, bool zmq)
{
    return [=](mc::Ctx &c)
    {
        auto bus = zmq ? kc::MessageBus::construct_zmq_bus() : kc::MessageBus::construct_cpu_bus();
        auto target = bus->create_endpoint();
        int calls[2] = {};
        kc::Step asked = 0;
        km::SpikeData data;
        std::vector<std::unique_ptr<io::input::InputChannel>> ch;
        bool linked[2][2] = {};
        std::vector<km::SpikeMessage> want[2];
        for (int i = 0; i < 2; ++i)
        {
            io::input::DataGenerator g = [&, i](kc::Step s)
            {
                ++calls[i];
                asked = s;
                return data;
            };
            if (i)
                ch.push_back(std::make_unique<io::input::InputChannel>(mkuid(50 + i), bus->create_endpoint(), g));
            else
                ch.push_back(std::make_unique<io::input::InputChannel>(mkuid(50 + i), bus->create_endpoint(), std::move(g)));
        }
        for (int d = 0; d < depth; ++d)
        {
            const int k = c.choose(9);
            c.transition();
            if (k < 4)
            {
                const int i = k & 1, r = k >> 1;
                c.log("connect channel ", i, " to receiver ", r);
                io::input::connect_input(*ch[i], target, mkuid(10 + r));
                linked[i][r] = true;
            }
            else if (k < 6)
            {
                const int i = k - 4;
                static const km::SpikeData all[] = {{}, {0}, {7, 7, 3}, {0xFFFFFFFF, 0}};
                static const kc::Step steps[] = {0, 1, 1ULL << 40};
                data = all[c.choose(4)];
                const kc::Step s = steps[d % 3];
                c.log("channel ", i, " sends ", show(data), " at step ", s);
                const int before = calls[i], other = calls[1 - i];
                const bool r = ch[i]->send(s);
                c.check(calls[i] == before + 1 && calls[1 - i] == other && asked == s, "the generator was not asked once for step ", s);
                c.check(r == !data.empty(), "send returned ", r);
                for (int k2 = 0; k2 < 2; ++k2)
                    if (linked[i][k2] && !data.empty()) want[k2].push_back({{mkuid(50 + i), s}, data});
                bus->route_messages();
                target.receive_all_messages();
            }
            else if (k < 8)
            {
                const int r = k - 6;
                auto got = target.unload_messages<km::SpikeMessage>(mkuid(10 + r));
                c.log("receiver ", r, " reads");
                c.check(same(got, want[r]), "receiver ", r, " got ", name(got), ", expected ", name(want[r]));
                want[r].clear();
            }
            else
            {
                c.log("move channel 0");
                ch[0] = std::make_unique<io::input::InputChannel>(std::move(*ch[0]));
                c.check(ch[0]->get_uid() == mkuid(50), "a moved channel has another UID");
            }
        }
        for (int r = 0; r < 2; ++r)
        {
            auto got = target.unload_messages<km::SpikeMessage>(mkuid(10 + r));
            c.check(same(got, want[r]), "in the end receiver ", r, " got ", name(got), ", expected ", name(want[r]));
        }
    };
}

// Many messages between updates and reads.
static void many(mc::Ctx &c)
{
    auto bus = kc::MessageBus::construct_cpu_bus();
    auto sender = bus->create_endpoint();
    auto ep = bus->create_endpoint();
    ep.subscribe<km::SpikeMessage>(mkuid(60), {mkuid(1), mkuid(2)});
    io::output::OutputChannel ch(mkuid(60), std::move(ep));
    const int count = c.pick(std::vector<int>{9, 70, 3000}), update_every = c.pick(std::vector<int>{1, 7, 5000}), reads = c.choose(3);
    c.log(count, " messages, update after ", update_every, ", ", reads, " reads before the last");
    std::vector<km::SpikeMessage> buffer;
    for (int i = 0; i < count; ++i)
    {
        km::SpikeMessage m{{mkuid(1 + i % 2), static_cast<kc::Step>(i)}, {static_cast<uint32_t>(i), 5}};
        sender.send_message(m);
        bus->route_messages();
        buffer.push_back(m);
        if ((i + 1) % update_every == 0)
        {
            c.transition();
            // The whole buffer is returned and stays there.
            auto got = ch.update();
            c.check(got.size() == buffer.size(), "update returned ", got.size(), " messages, the buffer has ", buffer.size());
            if (count <= 70) c.check(same(got, buffer), "update returned ", name(got), ", expected ", name(buffer));
        }
        if (reads && i == count * (2 - reads % 2) / 3)
        {
            ch.update();
            auto got = ch.read_some_from_buffer(0, i / 2);
            c.check(got.size() == static_cast<size_t>(i / 2 + 1), "read ", got.size(), " messages");
            std::vector<km::SpikeMessage> want(buffer.begin(), buffer.begin() + i / 2 + 1);
            c.check(same(got, want), "other messages were read");
            buffer.erase(buffer.begin(), buffer.begin() + i / 2 + 1);
        }
    }
    ch.update();
    auto got = ch.read_some_from_buffer(0, count);
    c.check(same(got, buffer), "read ", got.size(), " messages, expected ", buffer.size());
    c.check(ch.read_some_from_buffer(0, count).empty(), "messages were read twice");
    c.state(mc::Hash().add(count).add(update_every).add(reads));
    c.outcome(got.size());
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C21");
    r.explain("Every execution is a sequence of operations on real channels on a real bus beside lists of messages.");
    r.assume("the messages of an output channel are sent in the order of their steps");
    const bool t = r.thorough();
    const int d = t ? 6 : 5;
    const auto s = std::to_string(d);
    r.scenario("output channel, CPU bus", output(d - 1, 9, false), {3, 30, "8 operations, depth " + std::to_string(d - 1) + ", 9 intervals"});
    r.scenario("longer histories", output(d, t ? 4 : 3, false), {3, 30, "8 operations, depth " + s + ", 3 to 4 intervals"});
    r.scenario("many messages", many, {2, 30, "up to 3000 messages, updates after every 1, 7 or none, up to one earlier read"});
    r.scenario("output channel, ZMQ bus", output(3, t ? 9 : 6, true), {2, 60, "8 operations, 6 to 9 intervals, depth 3"});
    r.scenario("input channels, CPU bus", input(d, false), {3, 30, "2 channels, 2 receivers, depth " + s});
    r.scenario("input channels, ZMQ bus", input(d - 2, true), {2, 60, "2 channels, 2 receivers, depth " + std::to_string(d - 2)});
    return r.finish();
}
