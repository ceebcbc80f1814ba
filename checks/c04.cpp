// C04: endpoints used by different threads while another thread routes messages (CPU bus), and identifiers generated
// by several threads, under every explored schedule.
#include <knp/core/message_bus.h>
#include <knp/core/message_endpoint.h>

#include <thread>

#include "sched.hpp"
#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;

static km::SpikeMessage spike(unsigned sender, uint32_t no) { return km::SpikeMessage{{mkuid(sender), no}, {no, no + 100}}; }
static km::SynapticImpactMessage impact(unsigned sender, uint32_t no)
{
    return km::SynapticImpactMessage{{mkuid(sender), no}, mkuid(7), mkuid(8), false, {{no, 1.F * no, knp::synapse_traits::OutputType::EXCITATORY, 1, 2}}};
}

struct Endpoint
{
    kc::MessageEndpoint ep;
    std::vector<uint64_t> got;  // times of the received spikes, in order
    std::vector<uint64_t> impacts;
    explicit Endpoint(kc::MessageBus &b) : ep(b.create_endpoint()) {}
    void listen(std::vector<unsigned> senders)
    {
        std::vector<kc::UID> s;
        for (auto x : senders) s.push_back(mkuid(x));
        ep.subscribe<km::SpikeMessage>(mkuid(50), s);
        ep.subscribe<km::SynapticImpactMessage>(mkuid(50), s);
    }
    void receive(mc::Ctx &c)
    {
        ep.receive_all_messages();
        for (const auto &m : ep.unload_messages<km::SpikeMessage>(mkuid(50)))
        {
            c.check(m.neuron_indexes_.size() == 2 && m.neuron_indexes_[1] == m.header_.send_time_ % 100 + 100, "a message was damaged");
            got.push_back(m.header_.send_time_);
        }
        for (const auto &m : ep.unload_messages<km::SynapticImpactMessage>(mkuid(50)))
        {
            c.check(m.impacts_.size() == 1 && m.impacts_[0].impact_value_ == m.header_.send_time_, "a message was damaged");
            impacts.push_back(m.header_.send_time_);
        }
    }
};
static std::string show(const std::vector<uint64_t> &v)
{
    std::ostringstream os;
    for (auto x : v) os << x << ' ';
    return os.str();
}
static km::SpikeMessage tagged(unsigned sender, uint32_t no) { return km::SpikeMessage{{mkuid(sender), sender * 100 + no}, {no, no + 100}}; }

// Every sender's messages exactly once and in order.
static void complete(mc::Ctx &c, const std::vector<uint64_t> &got, const std::vector<unsigned> &senders, unsigned each)
{
    c.check(got.size() == senders.size() * each, "received ", show(got), "of ", senders.size(), " senders with ", each, " messages each");
    for (auto s : senders)
    {
        std::vector<uint64_t> mine, want;
        for (auto x : got)
            if (x / 100 == s) mine.push_back(x);
        for (unsigned i = 0; i < each; ++i) want.push_back(s * 100 + i);
        c.check(mine == want, "messages of sender ", s, " were received as ", show(mine), "expected ", show(want));
    }
}

// Threads: a sender per endpoint, routers, and the main thread that receives.
static mc::Body traffic(unsigned senders, unsigned routers, unsigned each, sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        sched::run(
            c, o,
            [&]
            {
                auto bus = kc::MessageBus::construct_cpu_bus();
                Endpoint in(*bus);
                std::vector<unsigned> names;
                std::vector<Endpoint> out;
                for (unsigned s = 1; s <= senders; ++s)
                {
                    names.push_back(s);
                    out.emplace_back(*bus);
                }
                in.listen(names);
                std::vector<std::thread> th;
                for (unsigned s = 0; s < senders; ++s)
                    th.emplace_back(
                        [&, s]
                        {
                            for (unsigned i = 0; i < each; ++i) out[s].ep.send_message(tagged(s + 1, i));
                        });
                for (unsigned r = 0; r < routers; ++r) th.emplace_back([&] { bus->route_messages(); });
                in.receive(c);
                for (auto &t : th) t.join();
                bus->route_messages();
                in.receive(c);
                complete(c, in.got, names, each);
                c.outcome(mc::Hash().adds(in.got));
            });
    };
}
// An endpoint that receives and sends while others do: two threads talk to each other through a routing third.
static mc::Body dialogue(sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        sched::run(
            c, o,
            [&]
            {
                auto bus = kc::MessageBus::construct_cpu_bus();
                Endpoint a(*bus), b(*bus);
                a.listen({2});
                b.listen({1, 2});
                auto talk = [&](Endpoint &e, unsigned name)
                {
                    e.ep.send_message(tagged(name, 0));
                    e.receive(c);
                    e.ep.send_message(impact(name, name));
                };
                std::thread t([&] { talk(b, 2); });
                std::thread r([&] { bus->route_messages(); });
                talk(a, 1);
                t.join();
                r.join();
                bus->route_messages();
                a.receive(c);
                b.receive(c);
                complete(c, a.got, {2}, 1);
                complete(c, b.got, {1, 2}, 1);
                c.check(a.impacts == std::vector<uint64_t>{2} && b.impacts.size() == 2, "an impact message was lost or doubled");
            });
    };
}
// Endpoints come and go while messages are routed.
static mc::Body lifetimes(sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        sched::run(
            c, o,
            [&]
            {
                auto bus = kc::MessageBus::construct_cpu_bus();
                Endpoint in(*bus), out(*bus);
                auto old = std::make_unique<Endpoint>(*bus);
                in.listen({1});
                old->listen({1, 2});
                std::thread t(
                    [&]
                    {
                        Endpoint brief(*bus);
                        brief.ep.send_message(tagged(2, 0));
                        old.reset();
                    });
                std::thread r([&] { bus->route_messages(); });
                out.ep.send_message(tagged(1, 0));
                out.ep.send_message(tagged(1, 1));
                r.join();
                t.join();
                bus->route_messages();
                in.receive(c);
                complete(c, in.got, {1}, 2);
            });
    };
}
// The bus ends before its endpoints.
static mc::Body orphan(sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        sched::run(
            c, o,
            [&]
            {
                auto bus = kc::MessageBus::construct_cpu_bus();
                Endpoint in(*bus), out(*bus);
                in.listen({1});
                out.ep.send_message(tagged(1, 0));
                std::thread t([&] { in.receive(c); });
                bus->route_messages();
                bus.reset();
                t.join();
                in.receive(c);
                out.ep.send_message(tagged(1, 1));
                complete(c, in.got, {1}, 1);
            });
    };
}
static mc::Body identifiers(unsigned threads, unsigned each, sched::Options o)
{
    return [=](mc::Ctx &c)
    {
        sched::run(
            c, o,
            [&]
            {
                kc::continuously_uid_generator::reset(250);
                std::vector<std::vector<kc::UID>> got(threads);
                std::vector<std::thread> th;
                for (unsigned t = 0; t < threads; ++t)
                    th.emplace_back(
                        [&, t]
                        {
                            kc::continuously_uid_generator g;
                            for (unsigned i = 0; i < each; ++i) got[t].push_back(kc::UID(g()));
                        });
                for (auto &t : th) t.join();
                std::set<std::string> all;
                for (auto &v : got)
                    for (auto &u : v) all.insert(std::string(u));
                c.check(all.size() == threads * each, "only ", all.size(), " different identifiers of ", threads * each, " generated");
            });
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C04");
    r.explain("Threads send, route and receive on the real CPU message bus under a controlled scheduler: every interleaving of its locks and threads with a bounded number of preemptions is executed, every memory access is checked for data races, and every mailbox is compared with what was sent.");
    r.assume("an endpoint is used by one thread at a time and is subscribed before the concurrent phase");
    const bool t = r.thorough();
    sched::Options o;
    o.preemptions = t ? 6 : 4;
    auto b = [&](const std::string &s) { return s + ", at most " + std::to_string(o.preemptions) + " preemptions"; };
    r.scenario("sender, router, receiver", traffic(1, 1, 2, o), {4, 60, b("1 sender with 2 messages, 1 router, 1 receiver")});
    r.scenario("two senders", traffic(2, 1, 2, o), {4, 60, b("2 senders with 2 messages each, 1 router, 1 receiver")});
    r.scenario("two routers", traffic(1, 2, 2, o), {4, 60, b("1 sender with 2 messages, 2 routers, 1 receiver")});
    r.scenario("dialogue", dialogue(o), {4, 60, b("2 endpoints that send and receive, 1 router")});
    r.scenario("endpoint lifetimes", lifetimes(o), {4, 60, b("1 sender, 1 router, 1 endpoint created and destroyed")});
    r.scenario("bus destroyed first", orphan(o), {4, 60, b("1 receiver")});
    sched::Options a = o;
    a.atomic_points = true;
    r.scenario("identifiers", identifiers(3, 2, a), {4, 60, b("3 threads with 2 identifiers each, scheduling at atomic operations")});
    return r.finish();
}
