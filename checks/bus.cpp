// Message bus and endpoints (CPU and ZMQ implementations): all histories of bus operations up to a depth.
// Built three times: BUS_PROP=1 (delivery), 2 (order), 3 (subscription lifecycle).
#include <knp/core/message_bus.h>

#include <deque>

#include "util.hpp"

using namespace knp::core;
using namespace knp::core::messaging;

#ifndef BUS_PROP
#define BUS_PROP 1
#endif

namespace
{
enum Type
{
    SPIKE = 0,
    IMPACT = 1
};

struct Sub
{
    std::set<int> senders;
    // For every message id: was the sender subscribed here without interruption since the message was sent?
    std::map<int, int> box;                 // id -> 0 may be in the mailbox, 1 must be
    std::map<int, bool> broken;             // sender -> (unused)
    std::map<int, int> since;               // sender -> time of the last moment it became subscribed
};

struct Msg
{
    int id, sender, type, ep, t;
    bool routed = false;
    std::set<int> drained;                  // endpoints that certainly have processed it (or never will)
    int payload;
};

struct Ep
{
    std::unique_ptr<MessageEndpoint> ep;
    std::map<std::pair<int, int>, Sub> subs;                 // (type, receiver)
    std::map<std::pair<int, int>, std::set<int>> delivered;  // survives unsubscription
    int born = 0;
};

struct World
{
    mc::Ctx &c;
    bool zmq;
    std::shared_ptr<MessageBus> bus;
    std::vector<Ep> eps;
    std::vector<Msg> msgs;
    int time = 0;

    World(mc::Ctx &ctx, bool z) : c(ctx), zmq(z)
    {
        bus = zmq ? MessageBus::construct_zmq_bus() : MessageBus::construct_cpu_bus();
    }
    ~World()
    {
        for (auto &e : eps) e.ep.reset();
        bus.reset();
    }

    void create()
    {
        c.log("create endpoint ", eps.size());
        Ep e;
        e.ep = std::make_unique<MessageEndpoint>(bus->create_endpoint());
        e.born = ++time;
        eps.push_back(std::move(e));
    }
    void move(int e)
    {
        c.log("move endpoint ", e);
        auto n = std::make_unique<MessageEndpoint>(std::move(*eps[e].ep));
        eps[e].ep = std::move(n);
    }
    void destroy(int e)
    {
        c.log("destroy endpoint ", e);
        eps[e].ep.reset();
        eps[e].subs.clear();
    }
    static UID sender(int s) { return mkuid(s, 1); }
    static UID receiver(int r) { return mkuid(r, 2); }

    void subscribe(int e, int type, int r, const std::vector<int> &snd)
    {
        std::vector<UID> u;
        for (int s : snd) u.push_back(sender(s));
        ++time;
        c.log("endpoint ", e, " subscribe type ", type, " receiver ", r, " senders ", show(snd));
        auto &sub = eps[e].subs[{type, r}];
        for (int s : snd)
            if (sub.senders.insert(s).second) sub.since[s] = time;
        if (type == SPIKE)
            check_sub(eps[e].ep->subscribe<SpikeMessage>(receiver(r), u), sub, r);
        else
            check_sub(eps[e].ep->subscribe<SynapticImpactMessage>(receiver(r), u), sub, r);
    }
    template <class S>
    void check_sub(const S &s, const Sub &ref, int r)
    {
        c.check(s.get_receiver_uid() == receiver(r), "subscription has a wrong receiver");
        c.check(s.get_senders().size() == ref.senders.size(), "subscription has ", s.get_senders().size(),
                " senders instead of ", ref.senders.size());
        for (int x = 0; x < 3; ++x)
            c.check(s.has_sender(sender(x)) == (ref.senders.count(x) == 1), "has_sender(", x, ") is wrong");
    }
    void check_subscriptions(int e)
    {
        const auto &m = eps[e].ep->get_endpoint_subscriptions();
        c.check(m.size() == eps[e].subs.size(), "endpoint ", e, " has ", m.size(), " subscriptions instead of ",
                eps[e].subs.size());
        for (auto &kv : eps[e].subs)
        {
            bool found = false;
            for (auto &s : m)
            {
                if (MessageEndpoint::get_receiver_uid(s.second) != receiver(kv.first.second)) continue;
                if (kv.first.first == SPIKE)
                {
                    if (auto *p = std::get_if<Subscription<SpikeMessage>>(&s.second))
                        found = true, check_sub(*p, kv.second, kv.first.second);
                }
                else if (auto *p = std::get_if<Subscription<SynapticImpactMessage>>(&s.second))
                    found = true, check_sub(*p, kv.second, kv.first.second);
            }
            c.check(found, "a subscription of endpoint ", e, " disappeared");
        }
    }
    void unsubscribe(int e, int type, int r)
    {
        ++time;
        const bool had = eps[e].subs.count({type, r});
        bool got;
        if (type == SPIKE)
            got = eps[e].ep->unsubscribe<SpikeMessage>(receiver(r));
        else
            got = eps[e].ep->unsubscribe<SynapticImpactMessage>(receiver(r));
        c.log("endpoint ", e, " unsubscribe type ", type, " receiver ", r, " -> ", got);
        c.check(got == had, "unsubscribe returned ", got, ", subscription existed: ", had);
        eps[e].subs.erase({type, r});
    }
    void remove_receiver(int e, int r)
    {
        ++time;
        c.log("endpoint ", e, " remove_receiver ", r);
        eps[e].ep->remove_receiver(receiver(r));
        eps[e].subs.erase({SPIKE, r});
        eps[e].subs.erase({IMPACT, r});
    }
    // The send time identifies the message and does not grow with it.
    static uint64_t stamp(int id) { return static_cast<uint64_t>(id) * 13 % 31; }
    static int id_of(uint64_t stamp) { return static_cast<int>(stamp * 12 % 31); }
    MessageVariant build(const Msg &m)
    {
        MessageHeader h{sender(m.sender), stamp(m.id)};
        if (m.type == SPIKE)
        {
            SpikeMessage s{h, {}};
            for (int i = 0; i < m.payload; ++i) s.neuron_indexes_.push_back(m.id * 3 + i);
            return s;
        }
        SynapticImpactMessage s{h, mkuid(m.id, 7), mkuid(m.id, 8), m.id % 2 == 1, {}};
        for (int i = 0; i < m.payload; ++i)
        {
            SynapticImpact im;
            im.connection_index_ = i;
            im.impact_value_ = static_cast<float>(m.id) + 0.25F;
            im.synapse_type_ = knp::synapse_traits::OutputType::INHIBITORY_CURRENT;
            im.presynaptic_neuron_index_ = 5 + i;
            im.postsynaptic_neuron_index_ = m.id;
            s.impacts_.push_back(im);
        }
        return s;
    }
    void send(int e, int type, int s)
    {
        Msg m;
        m.id = static_cast<int>(msgs.size()) + 1;
        m.sender = s;
        m.type = type;
        m.ep = e;
        m.t = ++time;
        m.payload = m.id % 3;
        c.log("endpoint ", e, " sends #", m.id, " type ", type, " as sender ", s);
        auto v = build(m);
        eps[e].ep->send_message(v);
        msgs.push_back(m);
    }
    void route()
    {
        ++time;
        const size_t n = bus->route_messages();
        c.log("route -> ", n);
        for (auto &m : msgs) m.routed = true;
    }
    bool unrouted(int e)
    {
        for (auto &m : msgs)
            if (m.ep == e && !m.routed) return true;
        return false;
    }
    bool pending(int e)
    {
        for (auto &m : msgs)
            if (m.routed && !m.drained.count(e)) return true;
        return false;
    }
    // The endpoint surely processed everything that had been routed.
    void note_received(int e, bool all)
    {
        for (auto &m : msgs)
        {
            if (!m.routed || m.drained.count(e)) continue;
            for (auto &kv : eps[e].subs)
            {
                if (kv.first.first != m.type || !kv.second.senders.count(m.sender)) continue;
                const bool continuous = kv.second.since[m.sender] < m.t;
                int &b = kv.second.box[m.id];
                if (all && continuous) b = 1;
            }
            if (all) m.drained.insert(e);
        }
    }
    void receive_all(int e)
    {
        ++time;
        const size_t n = eps[e].ep->receive_all_messages();
        c.log("endpoint ", e, " receive_all -> ", n);
        note_received(e, true);
    }
    void receive_one(int e)
    {
        ++time;
        const bool got = eps[e].ep->receive_message();
        c.log("endpoint ", e, " receive_message -> ", got);
        note_received(e, !got);
    }
    template <class M>
    void verify(int e, int type, int r, const std::vector<M> &list)
    {
        auto it = eps[e].subs.find({type, r});
        if (it == eps[e].subs.end())
        {
            c.check(list.empty(), "unload for a receiver without subscription returned ", list.size(), " messages");
            return;
        }
        auto &sub = it->second;
        auto &seen = eps[e].delivered[{type, r}];
        std::vector<int> ids;
        for (auto &m : list)
        {
            const int id = id_of(m.header_.send_time_);
            ids.push_back(id);
            c.check(id >= 1 && id <= (int)msgs.size(), "a message nobody sent was delivered");
            const Msg &ref = msgs[id - 1];
            c.check(ref.type == type, "#", id, " of another type was delivered");
            c.check(MessageVariant(m) == build(ref) && m.header_.send_time_ == stamp(ref.id) &&
                        m.header_.sender_uid_ == sender(ref.sender),
                    "content of #", id, " changed on the way");
            c.check(ref.routed, "#", id, " was delivered before it was routed");
            c.check(sub.box.count(id) == 1, "#", id, " of sender ", ref.sender, " was delivered to receiver ", r,
                    " of endpoint ", e, " that was not subscribed to it");
            c.check(seen.insert(id).second, "#", id, " was delivered twice to receiver ", r, " of endpoint ", e);
        }
        for (auto &b : sub.box)
            if (b.second == 1 && !seen.count(b.first))
                c.fail("#", b.first, " was not delivered to receiver ", r, " of endpoint ", e, " (unloaded ", show(ids),
                       ")");
        sub.box.clear();
        // Messages not drained yet may still come.
        for (auto &m : msgs)
            if (m.routed && !m.drained.count(e) && m.type == type && sub.senders.count(m.sender) && !seen.count(m.id))
                sub.box[m.id] = 0;
        // Order: messages of one sender sent through one endpoint come in the order of sending.
        for (size_t i = 0; i < ids.size(); ++i)
            for (size_t j = i + 1; j < ids.size(); ++j)
            {
                const Msg &a = msgs[ids[i] - 1], &b = msgs[ids[j] - 1];
                if (a.sender == b.sender && a.ep == b.ep)
                    c.check(a.id < b.id, "#", a.id, " was delivered before #", b.id, " of the same sender");
            }
        int &last = last_id[{e, type * 8 + r}];
        (void)last;
        for (int id : ids)
            for (int old : order[{e, type * 8 + r}])
                if (msgs[old - 1].sender == msgs[id - 1].sender && msgs[old - 1].ep == msgs[id - 1].ep)
                    c.check(old < id, "#", old, " was delivered before #", id, " of the same sender");
        for (int id : ids) order[{e, type * 8 + r}].push_back(id);
    }
    std::map<std::pair<int, int>, int> last_id;
    std::map<std::pair<int, int>, std::vector<int>> order;

    void unload(int e, int type, int r)
    {
        ++time;
        if (type == SPIKE)
        {
            auto v = eps[e].ep->unload_messages<SpikeMessage>(receiver(r));
            c.log("endpoint ", e, " unload spikes for ", r, " -> ", ids_of(v));
            verify(e, type, r, v);
        }
        else
        {
            auto v = eps[e].ep->unload_messages<SynapticImpactMessage>(receiver(r));
            c.log("endpoint ", e, " unload impacts for ", r, " -> ", ids_of(v));
            verify(e, type, r, v);
        }
    }
    template <class V>
    static std::string ids_of(const V &v)
    {
        std::vector<int> i;
        for (auto &m : v) i.push_back(id_of(m.header_.send_time_));
        return show(i);
    }
    void state()
    {
        mc::Hash h;
        for (auto &e : eps)
        {
            h.add(e.ep ? 1 : 0);
            for (auto &s : e.subs)
            {
                h.add(s.first.first * 8 + s.first.second).adds(s.second.senders);
                for (auto &b : s.second.box) h.add(b.first * 2 + b.second);
            }
        }
        for (auto &m : msgs) h.add(m.sender * 64 + m.type * 32 + m.ep * 4 + m.routed).adds(m.drained);
        c.state(h);
        c.transition();
    }
    // Brings every pending message to its mailbox and checks everything.
    void finish()
    {
        route();
        for (size_t e = 0; e < eps.size(); ++e)
            if (eps[e].ep)
            {
                receive_all(e);
                for (int t = 0; t < 2; ++t)
                    for (int r = 0; r < 3; ++r) unload(e, t, r);
                check_subscriptions(e);
                c.check(!eps[e].ep->receive_message(), "a message remains after receive_all_messages");
            }
        mc::Hash h;
        for (auto &e : eps)
            for (auto &d : e.delivered) h.add(d.first.first * 8 + d.first.second).adds(d.second);
        c.outcome(h);
    }
};

// Delivery: two endpoints with fixed subscriptions and a third one that may appear, move and disappear.
mc::Body delivery(bool zmq, int depth)
{
    return [zmq, depth](mc::Ctx &c)
    {
        World w(c, zmq);
        w.create();
        w.create();
        w.subscribe(0, SPIKE, 0, {0, 1});
        w.subscribe(1, SPIKE, 0, {0});
        w.subscribe(1, SPIKE, 1, {0, 2});
        w.subscribe(1, IMPACT, 1, {0});
        w.check_subscriptions(1);
        for (int i = 0; i < depth; ++i)
        {
            const bool third = w.eps.size() > 2 && w.eps[2].ep;
            const int op = c.choose(15);
            if (!w.eps[0].ep && (op == 0 || op == 4 || op == 5 || op == 7)) c.prune();
            switch (op)
            {
                case 0: w.send(0, SPIKE, 0); break;
                case 1: w.route(); break;
                case 2: w.receive_all(1); break;
                case 3: w.send(1, SPIKE, 0); break;
                case 4: w.receive_all(0); break;
                case 5: w.send(0, IMPACT, 0); break;
                case 6: w.send(1, SPIKE, 1); break;
                case 7: w.send(0, SPIKE, 2); break;
                case 8: w.receive_one(1); break;
                case 9: w.unload(1, SPIKE, 0); break;
                case 10:
                    if (w.eps.size() > 2) c.prune();
                    w.create();
                    w.subscribe(2, SPIKE, 2, {0, 1});
                    break;
                case 11:
                    if (!third) c.prune();
                    // Only messages already routed have to outlive their endpoint.
                    if (w.unrouted(2)) c.prune();
                    w.destroy(2);
                    break;
                case 12:
                    w.move(third ? 2 : 1);
                    break;
                case 13:
                    if (!third) c.prune();
                    w.send(2, SPIKE, 0);
                    break;
                case 14:
                    // The oldest endpoint goes, unless it has messages that were not routed.
                    if (!w.eps[0].ep || w.unrouted(0)) c.prune();
                    w.destroy(0);
                    break;
            }
            w.state();
        }
        w.finish();
    };
}

mc::Body order(bool zmq, int depth)
{
    return [zmq, depth](mc::Ctx &c)
    {
        World w(c, zmq);
        w.create();
        w.create();
        w.subscribe(0, SPIKE, 0, {0, 1});
        w.subscribe(1, SPIKE, 1, {0, 1});
        w.subscribe(1, IMPACT, 1, {0});
        for (int i = 0; i < depth; ++i)
        {
            switch (c.choose(8))
            {
                case 0: w.send(0, SPIKE, 0); break;
                case 1: w.route(); break;
                case 2: w.receive_one(1); break;
                case 3: w.receive_all(1); break;
                case 4: w.send(0, SPIKE, 1); break;
                case 5: w.send(1, SPIKE, 0); break;
                case 6: w.unload(1, SPIKE, 1); break;
                case 7: w.send(0, IMPACT, 0); break;
            }
            w.state();
        }
        w.finish();
    };
}

mc::Body lifecycle(bool zmq, int depth)
{
    return [zmq, depth](mc::Ctx &c)
    {
        World w(c, zmq);
        w.create();
        w.create();
        const int start = c.choose(3);
        if (start >= 1)
        {
            w.subscribe(1, SPIKE, 0, {0});
            w.subscribe(1, SPIKE, 1, {0, 1});
        }
        if (start == 2)
        {
            w.subscribe(1, IMPACT, 0, {0});
            w.subscribe(1, IMPACT, 1, {0});
        }
        for (int i = 0; i < depth; ++i)
        {
            switch (c.choose(14))
            {
                case 0: w.send(0, SPIKE, 0); break;
                case 1: w.route(); w.receive_all(1); break;
                case 2: w.subscribe(1, SPIKE, 0, {0}); break;
                case 3: w.unsubscribe(1, SPIKE, 0); break;
                case 4: w.remove_receiver(1, 0); break;
                case 5: w.subscribe(1, SPIKE, 0, {1, 2}); break;
                case 6: w.send(0, SPIKE, 1); break;
                case 7: w.unload(1, SPIKE, 0); break;
                case 8: w.subscribe(1, IMPACT, 0, {0}); break;
                case 9: w.send(0, IMPACT, 0); break;
                case 10: w.unsubscribe(1, IMPACT, 0); break;
                case 11: w.route(); break;
                case 12: w.unload(1, SPIKE, 1); break;
                case 13: w.subscribe(1, SPIKE, 0, {}); break;
            }
            if (w.eps[1].ep) w.check_subscriptions(1);
            w.state();
        }
        w.finish();
    };
}

// Senders added and removed through the subscription object.
mc::Body subscription_object(bool zmq, int depth)
{
    return [zmq, depth](mc::Ctx &c)
    {
        World w(c, zmq);
        w.create();
        w.create();
        w.subscribe(1, SPIKE, 0, {0, 1});
        auto &sub = w.eps[1].ep->subscribe<SpikeMessage>(World::receiver(0), {});
        auto &ref = w.eps[1].subs[{SPIKE, 0}];
        bool extended = false;
        for (int i = 0; i < depth; ++i)
        {
            switch (c.choose(7))
            {
                case 0: w.send(0, SPIKE, 0); break;
                case 1: w.route(); w.receive_all(1); break;
                case 2:
                {
                    ++w.time;
                    const size_t n = sub.remove_sender(World::sender(0));
                    c.log("remove_sender 0 -> ", n);
                    c.check(n == ref.senders.erase(0), "remove_sender returned ", n);
                    break;
                }
                case 3:
                {
                    ++w.time;
                    const size_t n = sub.add_sender(World::sender(0));
                    c.log("add_sender 0 -> ", n);
                    const bool ins = ref.senders.insert(0).second;
                    if (ins) ref.since[0] = w.time;
                    c.check(n == (ins ? 1U : 0U), "add_sender returned ", n);
                    break;
                }
                case 4: w.unload(1, SPIKE, 0); break;
                case 5:
                {
                    ++w.time;
                    const size_t n = sub.add_senders({World::sender(1), World::sender(0)});
                    c.log("add_senders 1 0 -> ", n);
                    size_t want = 0;
                    for (int s : {1, 0})
                        if (ref.senders.insert(s).second) ref.since[s] = w.time, ++want;
                    c.check(n == want, "add_senders returned ", n, " instead of ", want);
                    break;
                }
                case 6: w.send(0, SPIKE, 1); break;
            }
            w.check_subscriptions(1);
            w.state();
        }
        (void)extended;
        w.finish();
    };
}

// A sender that was not in the subscription when it was made is added through the subscription object.
mc::Body added_sender(bool zmq)
{
    return [zmq](mc::Ctx &c)
    {
        World w(c, zmq);
        w.create();
        w.create();
        w.subscribe(1, SPIKE, 0, {0});
        auto &sub = w.eps[1].ep->subscribe<SpikeMessage>(World::receiver(0), {});
        const bool plural = c.flag();
        if (plural)
            sub.add_senders({World::sender(1)});
        else
            sub.add_sender(World::sender(1));
        w.send(0, SPIKE, 0);
        w.send(0, SPIKE, 1);
        w.bus->route_messages();
        w.eps[1].ep->receive_all_messages();
        auto v = w.eps[1].ep->unload_messages<SpikeMessage>(World::receiver(0));
        c.transition(4);
        c.log("received ", World::ids_of(v));
        c.outcome(v.size());
        c.check(!v.empty() && World::id_of(v[0].header_.send_time_) == 1, "the message of the first sender is missing");
        if (v.size() == 1)
            c.known("added-sender-ignored", "a sender added with Subscription::add_sender is never received on this bus");
        else
            c.check(v.size() == 2, "received ", v.size(), " messages");
    };
}
// Messages that equal each other are as many as were sent.
mc::Body equal(bool zmq, int depth)
{
    return [zmq, depth](mc::Ctx &c)
    {
        auto bus = zmq ? MessageBus::construct_zmq_bus() : MessageBus::construct_cpu_bus();
        auto from = bus->create_endpoint(), to = bus->create_endpoint();
        to.subscribe<SpikeMessage>(World::receiver(0), {World::sender(0), World::sender(1)});
        to.subscribe<SpikeMessage>(World::receiver(1), {World::sender(1)});
        to.subscribe<SynapticImpactMessage>(World::receiver(0), {World::sender(0)});
        const SpikeMessage spikes[] = {{{World::sender(0), 3}, {1, 2}}, {{World::sender(0), 3}, {}}, {{World::sender(1), 3}, {1, 2}}};
        const SynapticImpactMessage impacts{{World::sender(0), 3}, mkuid(7), mkuid(8), false, {{1, 2.F, knp::synapse_traits::OutputType::EXCITATORY, 3, 4}}};
        int sent[4] = {}, got[2][4] = {};
        const auto unload = [&]()
        {
            for (int r = 0; r < 2; ++r)
                for (auto &m : to.unload_messages<SpikeMessage>(World::receiver(r)))
                {
                    int k = 0;
                    while (k < 3 && !(m.header_.sender_uid_ == spikes[k].header_.sender_uid_ && m.header_.send_time_ == 3 && m.neuron_indexes_ == spikes[k].neuron_indexes_)) ++k;
                    c.check(k < 3, "receiver ", r, " got a message nobody sent");
                    ++got[r][k];
                }
            got[0][3] += to.unload_messages<SynapticImpactMessage>(World::receiver(0)).size();
        };
        const auto compare = [&](bool end)
        {
            for (int r = 0; r < 2; ++r)
                for (int k = 0; k < 4; ++k)
                {
                    const int want = r == 0 || k == 2 ? sent[k] : 0;
                    c.check(got[r][k] <= want && (!end || got[r][k] == want), "receiver ", r, " got ", got[r][k], " of the ", want, " equal messages ", k);
                }
        };
        for (int i = 0; i < depth; ++i)
        {
            const int op = c.choose(8);
            c.transition();
            c.log(op < 4 ? "send message " : op == 4 ? "route " : op == 5 ? "receive one " : op == 6 ? "receive all " : "unload ", op < 4 ? std::to_string(op) : "");
            if (op < 3) from.send_message(spikes[op]), ++sent[op];
            else if (op == 3) from.send_message(impacts), ++sent[3];
            else if (op == 4) bus->route_messages();
            else if (op == 5) to.receive_message();
            else if (op == 6) to.receive_all_messages();
            else unload(), compare(false);
        }
        bus->route_messages();
        to.receive_all_messages();
        unload();
        compare(true);
        c.state(mc::Hash().add(sent[0]).add(sent[1]).add(sent[2]).add(sent[3]));
    };
}
// Volume: many messages between two routing calls or between two receptions, long messages, many receivers.
mc::Body volume(bool zmq)
{
    return [zmq](mc::Ctx &c)
    {
        auto bus = zmq ? MessageBus::construct_zmq_bus() : MessageBus::construct_cpu_bus();
        const int count = c.pick(std::vector<int>{40, 1100, 2600});
        const int route_every = c.pick(std::vector<int>{count, 1, 700});
        const bool receive_each = c.flag();
        const bool two_endpoints = c.flag();
        const size_t length = c.pick(std::vector<size_t>{1, count == 40 ? 70000u : 3u});
        const bool impacts = c.flag();
        const int receivers = c.pick(std::vector<int>{1, 12});
        if (route_every > count) c.prune();
        c.log(count, " messages of ", length, impacts ? " impacts" : " spikes", ", routed every ", route_every, ", received ",
              receive_each ? "after each routing" : "at the end", ", ", receivers, " receivers, ", two_endpoints ? 2 : 1, " receiving endpoints");
        auto from = bus->create_endpoint(), to = bus->create_endpoint(), to2 = bus->create_endpoint();
        for (int r = 0; r < receivers; ++r)
            for (auto *e : {&to, &to2})
                if (e == &to || two_endpoints)
                {
                    e->subscribe<SpikeMessage>(World::receiver(r), {World::sender(r % 3), World::sender(0)});
                    e->subscribe<SynapticImpactMessage>(World::receiver(r), {World::sender(0)});
                }
        auto receive = [&]()
        {
            to.receive_all_messages();
            to2.receive_all_messages();
        };
        auto fill = [&](auto &v, int i)
        {
            v.resize(length);
            if constexpr (std::is_same_v<std::decay_t<decltype(v[0])>, SynapticImpact>)
                for (size_t k = 0; k < length; ++k) v[k] = {k, float(i), knp::synapse_traits::OutputType::EXCITATORY, uint32_t(i), uint32_t(k)};
            else
                for (size_t k = 0; k < length; ++k) v[k] = static_cast<SpikeIndex>(i + k);
        };
        for (int i = 0; i < count; ++i)
        {
            // Every third message is of the other type, every fourth one of a sender nobody listens to.
            const UID &sender = World::sender(i % 4 == 3 ? 7 : 0);
            if (impacts != (i % 3 == 2))
            {
                SynapticImpactMessage m;
                m.header_ = {sender, static_cast<Step>(i)};
                fill(m.impacts_, i);
                from.send_message(m);
            }
            else
            {
                SpikeMessage m{{sender, static_cast<Step>(i)}, {}};
                fill(m.neuron_indexes_, i);
                from.send_message(m);
            }
            if ((i + 1) % route_every == 0)
            {
                bus->route_messages();
                if (receive_each) receive();
            }
        }
        bus->route_messages();
        receive();
        c.transition(count);
        auto verify = [&](auto &&got, bool impact, int e, int r)
        {
            size_t k = 0;
            for (int i = 0; i < count; ++i)
            {
                if (i % 4 == 3 || (impacts != (i % 3 == 2)) != impact) continue;
                c.check(k < got.size(), "receiver ", r, " of endpoint ", e, " got ", got.size(), " messages, message ", i, " is missing");
                c.check(got[k].header_.send_time_ == static_cast<Step>(i) && got[k].header_.sender_uid_ == World::sender(0),
                        "receiver ", r, " of endpoint ", e, " got message ", got[k].header_.send_time_, " instead of ", i);
                auto expected = got[k];
                if constexpr (std::is_same_v<std::decay_t<decltype(got[0])>, SpikeMessage>)
                {
                    fill(expected.neuron_indexes_, i);
                    c.check(expected.neuron_indexes_ == got[k].neuron_indexes_, "the spikes of message ", i, " were changed");
                }
                else
                {
                    fill(expected.impacts_, i);
                    c.check(expected.impacts_ == got[k].impacts_, "the impacts of message ", i, " were changed");
                }
                ++k;
            }
            c.check(k == got.size(), "receiver ", r, " of endpoint ", e, " got ", got.size(), " messages instead of ", k);
        };
        for (int r = 0; r < receivers; ++r)
            for (int e = 0; e < (two_endpoints ? 2 : 1); ++e)
            {
                auto &ep = e ? to2 : to;
                verify(ep.unload_messages<SpikeMessage>(World::receiver(r)), false, e, r);
                verify(ep.unload_messages<SynapticImpactMessage>(World::receiver(r)), true, e, r);
            }
        c.state(mc::Hash().add(count).add(route_every).add(receive_each).add(receivers));
        c.outcome(count);
    };
}
}  // namespace

int main(int argc, char **argv)
{
    static const char *ids[] = {"", "C01", "C02", "C03"};
    mc::Runner r(argc, argv, ids[BUS_PROP]);
    r.explain(
        "Every history of bus operations up to the depth (send, route, receive one/all, unload, subscribe, unsubscribe, "
        "remove receiver, create/move/destroy endpoints) is executed on the real message bus; a reference model of "
        "subscriptions decides for every message and receiver whether it must, may or must not be delivered, and each "
        "unloaded list is checked for loss, duplication, foreign messages, altered content and order.");
    r.assume("one thread (concurrent use of the bus is checked separately)");
    const bool th = r.thorough();
    mc::ScenarioOptions o;
    auto bound = [&](int ops, int d) { o.bound = std::to_string(ops) + " operations, depth " + std::to_string(d); };
#if BUS_PROP == 1
    bound(15, th ? 6 : 5), r.scenario("cpu_delivery", delivery(false, th ? 6 : 5), o);
    bound(15, th ? 4 : 3), r.scenario("zmq_delivery", delivery(true, th ? 4 : 3), o);
    bound(8, th ? 7 : 5), r.scenario("cpu_equal", equal(false, th ? 7 : 5), o);
    bound(8, th ? 4 : 3), r.scenario("zmq_equal", equal(true, th ? 4 : 3), o);
    o.bound = "2 endpoints, up to 2600 messages between two routings, messages of up to 70000 entries, 12 receivers";
    r.scenario("cpu_volume", volume(false), o);
    r.scenario("zmq_volume", volume(true), o);
#elif BUS_PROP == 2
    bound(8, th ? 8 : 6), r.scenario("cpu_order", order(false, th ? 8 : 6), o);
    bound(8, th ? 6 : 5), r.scenario("zmq_order", order(true, th ? 6 : 5), o);
    o.bound = "2 endpoints, up to 2600 messages between two routings, messages of up to 70000 entries, 12 receivers";
    r.scenario("cpu_volume", volume(false), o);
    r.scenario("zmq_volume", volume(true), o);
#else
    bound(14, th ? 6 : 5), r.scenario("cpu_lifecycle", lifecycle(false, th ? 6 : 5), o);
    bound(7, th ? 8 : 6), r.scenario("cpu_subscription", subscription_object(false, th ? 8 : 6), o);
    bound(14, th ? 4 : 3), r.scenario("zmq_lifecycle", lifecycle(true, th ? 4 : 3), o);
    bound(2, 1), r.scenario("cpu_added_sender", added_sender(false), o);
    bound(2, 1), r.scenario("zmq_added_sender", added_sender(true), o);
#endif
    return r.finish();
}
