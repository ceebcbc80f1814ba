// C10: the multi-threaded backend under every explored thread schedule: no data race, no deadlock, and the results of
// the reference network whatever the schedule.
#include <knp/backends/cpu-multi-threaded/backend.h>

#include "netref.hpp"
#include "sched.hpp"

using namespace ref;
using MTPair = Pair<Sim<knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend>>;
using BL = nt::BLIFATNeuron;
using LIF = nt::LIFNeuron;
using RBL = nt::SynapticResourceSTDPBLIFATNeuron;

template <class S>
static Syn<S> syn(uint32_t from, uint32_t to, float w, uint32_t delay, Out t = Out::EXCITATORY)
{
    Syn<S> s;
    s.p.weight_ = w;
    s.p.delay_ = delay;
    s.p.output_type_ = t;
    s.from = from;
    s.to = to;
    return s;
}
static P<LIF> relay()
{
    P<LIF> n;
    n.leak_coefficient_ = 0;
    n.activation_threshold_ = 1;
    return n;
}
static P<BL> accumulator()
{
    P<BL> n;
    n.potential_decay_ = 1;
    n.inhibitory_conductance_decay_ = 0.5;
    n.activation_threshold_ = 1e9;
    return n;
}
static P<RBL> learner(bool ready)
{
    P<RBL> n;
    n.potential_decay_ = 0.5;
    n.activation_threshold_ = 0.9173F;
    n.free_synaptic_resource_ = 1;
    n.synaptic_resource_threshold_ = ready ? 0.5F : 1e9F;
    n.resource_drain_coefficient_ = 1;
    n.stability_ = 1;
    n.isi_max_ = 2;
    n.d_h_ = 0.5F;
    n.dopamine_plasticity_time_ = 2;
    return n;
}

enum Kind
{
    RECURRENT,
    FAN_OUT,
    LEARNING
};
static Net network(Kind k)
{
    Net n;
    if (k == RECURRENT)
    {
        // Two parts of one population, two parts of a projection onto itself.
        n.pops.push_back(Pop<LIF>{mkuid(1), {relay(), relay()}});
        n.projs.push_back(Proj<Delta>{mkuid(10), mkuid(1), mkuid(1), {syn<Delta>(0, 1, 2, 1), syn<Delta>(1, 0, 2, 1)}});
    }
    else if (k == FAN_OUT)
    {
        // Two populations, two projections of one population, delays that meet in one message queue.
        n.pops.push_back(Pop<LIF>{mkuid(1), {relay(), relay()}});
        n.pops.push_back(Pop<BL>{mkuid(2), {accumulator()}});
        n.projs.push_back(Proj<Delta>{mkuid(10), mkuid(1), mkuid(2), {syn<Delta>(0, 0, 1, 2), syn<Delta>(1, 0, 0.5F, 1, Out::INHIBITORY_CURRENT)}});
        n.projs.push_back(Proj<Delta>{mkuid(11), mkuid(1), mkuid(1), {syn<Delta>(0, 0, 2, 1)}});
    }
    else
    {
        n.pops.push_back(Pop<RBL>{mkuid(1), {learner(true), learner(false)}});
        for (int j = 0; j < 2; ++j)
        {
            Proj<Res> p{mkuid(10 + j), mkuid(0, 7), mkuid(1), {}, false};
            for (uint32_t t = 0; t < (j ? 1u : 2u); ++t)
            {
                auto s = syn<Res>(0, t, 1.5F, 1);
                s.p.rule_.w_min_ = 0;
                s.p.rule_.w_max_ = 2;
                s.p.rule_.synaptic_resource_ = 6;
                s.p.rule_.d_u_ = 0.25F;
                s.p.rule_.dopamine_plasticity_period_ = 2;
                p.s.push_back(s);
            }
            n.projs.push_back(p);
        }
    }
    return n;
}

static mc::Body steps(Kind kind, int workers, int count, sched::Options o, size_t pop_part = 1, size_t proj_part = 1)
{
    return [=](mc::Ctx &c)
    {
        sched::run(
            c, o,
            [&]
            {
                MTPair x(network(kind), static_cast<size_t>(workers), pop_part, proj_part);
                x.order_free = true;
                for (int s = 0; s < count; ++s)
                {
                    if (kind == LEARNING)
                    {
                        x.send_spikes(mkuid(10), {0});
                        if (s) x.send_spikes(mkuid(11), {0});
                        x.send_impacts(mkuid(1), {{0, 0.5F, Out::DOPAMINE, 0, 0}, {0, 0.5F, Out::DOPAMINE, 0, 1}}, false);
                    }
                    else if (s == 0)
                        x.send_impacts(mkuid(1), {{0, 2, Out::EXCITATORY, 0, 0}, {1, 2, Out::EXCITATORY, 0, 1}}, false);
                    x.step(c);
                }
            });
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C10");
    r.explain(
        "The real multi-threaded backend with its real thread pool runs small networks under a controlled scheduler: every interleaving of "
        "its synchronisation operations with a bounded number of preemptions is executed, every memory access is checked for data races, "
        "and all messages and states are compared with a reference network after each step.");
    r.assume("one thread drives the backend; its pool provides the others");
    const bool t = r.thorough();
    sched::Options o;
    o.preemptions = t ? 3 : 2;
    auto b = [&](int w, int s) { return std::to_string(w) + " workers, " + std::to_string(s) + " steps, parts of one neuron and one synapse, at most " + std::to_string(o.preemptions) + " preemptions"; };
    r.scenario("recurrent, one worker", steps(RECURRENT, 1, 2, o), {4, 60, b(1, 2)});
    r.scenario("fan-out, one worker", steps(FAN_OUT, 1, 2, o), {4, 60, b(1, 2)});
    r.scenario("learning, one worker", steps(LEARNING, 1, 2, o), {4, 60, b(1, 2)});
    o.preemptions = t ? 2 : 1;
    r.scenario("recurrent, two workers", steps(RECURRENT, 2, 1, o), {4, 60, b(2, 1)});
    r.scenario("fan-out, two workers", steps(FAN_OUT, 2, 2, o), {4, 60, b(2, 2)});
    r.scenario("learning, two workers", steps(LEARNING, 2, 2, o), {4, 60, b(2, 2)});
    return r.finish();
}
