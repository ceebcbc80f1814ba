// C20: loading a model connects exactly the channels that were added to it.
#include <knp/core/message_bus.h>
#include <knp/framework/model_loader.h>

#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace fw = knp::framework;

// The parts of a backend that derived classes provide.
struct TestBackend : kc::Backend
{
    std::vector<kc::AllPopulationsVariant> pops;
    std::vector<kc::AllProjectionsVariant> projs;
    int pop_loads = 0, proj_loads = 0;

    explicit TestBackend(std::shared_ptr<kc::MessageBus> bus) : kc::Backend(std::move(bus)) {}
    bool plasticity_supported() const override { return true; }
    std::vector<std::string> get_supported_neurons() const override { return {}; }
    std::vector<std::string> get_supported_synapses() const override { return {}; }
    std::vector<size_t> get_supported_population_indexes() const override { return {}; }
    std::vector<size_t> get_supported_projection_indexes() const override { return {}; }
    void load_all_projections(const std::vector<kc::AllProjectionsVariant> &p) override { projs = p, ++proj_loads; }
    void load_all_populations(const std::vector<kc::AllPopulationsVariant> &p) override { pops = p, ++pop_loads; }
    void remove_projections(const std::vector<kc::UID> &) override {}
    void remove_populations(const std::vector<kc::UID> &) override {}
    std::vector<std::unique_ptr<kc::Device>> get_devices() const override { return {}; }
    void stop_learning() override {}
    void start_learning() override {}
    DataRanges get_network_data() const override { return {}; }
    void _init() override {}
    void _step() override {}
};

using Pop = kc::Population<knp::neuron_traits::BLIFATNeuron>;
using Proj = kc::Projection<knp::synapse_traits::DeltaSynapse>;

static constexpr int POPS = 3, PROJS = 3;
static kc::UID pop_uid(int i) { return mkuid(1 + i); }
static kc::UID proj_uid(int i) { return mkuid(11 + i); }
static kc::UID channel_uid(int i) { return mkuid(100 + 37 * i, i & 1); }

template <class F>
static bool throws(F f)
{
    try
    {
        f();
    }
    catch (std::exception &)
    {
        return true;
    }
    return false;
}
template <class M>
static std::vector<M> drop_to(kc::MessageEndpoint &e, const kc::UID &u)
{
    e.receive_all_messages();
    return e.unload_messages<M>(u);
}
template <class E>
static bool is_tagged(E &e, kc::tags::IOType want)
{
    auto &tags = std::visit([](auto &x) -> auto & { return x.get_tags(); }, e);
    return std::any_cast<kc::tags::IOType>(tags[kc::tags::io_type_tag]) == want;
}

// links: sequence of links from a channel to a projection (input) or population (output), any order, repeated ones too.
static mc::Body loading(int channels, int max_in, int max_out, bool zmq)
{
    return [=](mc::Ctx &c)
    {
        auto bus = zmq ? kc::MessageBus::construct_zmq_bus() : kc::MessageBus::construct_cpu_bus();
        auto b = std::make_shared<TestBackend>(bus);
        fw::Network net;
        for (int i = 0; i < POPS; ++i) net.add_population(Pop(pop_uid(i), [](size_t) { return Pop::NeuronParameters{}; }, 2));
        for (int i = 0; i < PROJS; ++i)
            net.add_projection(Proj(
                proj_uid(i), kc::UID(false), pop_uid(i), [](size_t k) -> std::optional<Proj::Synapse> { return Proj::Synapse{{}, k, k}; }, 2));
        // Tags that a former use of the network left.
        std::visit([](auto &p) { p.get_tags()[kc::tags::io_type_tag] = kc::tags::IOType::input; }, net.get_population(pop_uid(0)));
        std::visit([](auto &p) { p.get_tags()[kc::tags::io_type_tag] = kc::tags::IOType::output; }, net.get_projection(proj_uid(0)));
        fw::Model model(std::move(net));
        std::map<int, std::set<int>> in, out;
        const int ni = c.choose(max_in + 1), no = c.choose(max_out + 1);
        // The channels of this execution: which ones collide in a hash table depends on their UIDs.
        for (int i = 0; i < ni; ++i)
        {
            const int ch = c.choose(channels), p = c.choose(PROJS);
            c.log("input channel ", ch, " to projection ", p);
            model.add_input_channel(channel_uid(ch), proj_uid(p));
            in[ch].insert(p);
        }
        for (int i = 0; i < no; ++i)
        {
            const int ch = c.choose(channels), p = c.choose(POPS);
            c.log("output channel ", ch, " of population ", p);
            model.add_output_channel(channel_uid(50 + ch), pop_uid(p));
            out[ch].insert(p);
        }
        c.check(throws([&] { model.add_input_channel(channel_uid(0), pop_uid(0)); }), "an input channel to a missing projection was accepted");
        c.check(throws([&] { model.add_output_channel(channel_uid(0), proj_uid(0)); }), "an output channel of a missing population was accepted");
        // Generators: each channel has its own. Without one for a channel the model is refused.
        const bool missing = !in.empty() && c.choose(4) == 0;
        fw::ModelLoader::InputChannelMap gens;
        for (auto &[ch, ps] : in)
        {
            if (missing && ch == in.rbegin()->first) continue;
            const int n = ch;
            gens.emplace(channel_uid(ch), [n](kc::Step s) { return km::SpikeData{static_cast<uint32_t>(n), static_cast<uint32_t>(100 + s)}; });
        }
        fw::ModelLoader loader(b, gens);
        c.transition();
        const bool refused = throws([&] { loader.load(model); });
        c.check(refused == missing, missing ? "a channel without a generator was accepted" : "the model was refused");
        if (missing) return;
        c.check(b->pop_loads == 1 && b->proj_loads == 1, "entities were loaded ", b->pop_loads, "/", b->proj_loads, " times");
        c.check(b->pops.size() == POPS && b->projs.size() == PROJS, b->pops.size(), " populations and ", b->projs.size(), " projections were loaded");
        for (int i = 0; i < POPS; ++i)
        {
            const auto *p = std::get_if<Pop>(&b->pops[i]);
            c.check(p && p->get_uid() == pop_uid(i) && p->size() == 2, "population ", i, " was not loaded as it is");
            bool is_out = false;
            for (auto &[ch, ps] : out) is_out = is_out || ps.count(i);
            if (is_out) c.check(is_tagged(model.get_network().get_population(pop_uid(i)), kc::tags::IOType::output), "output population ", i, " has no tag");
        }
        for (int i = 0; i < PROJS; ++i)
        {
            const auto *p = std::get_if<Proj>(&b->projs[i]);
            c.check(p && p->get_uid() == proj_uid(i) && p->size() == 2 && p->get_postsynaptic() == pop_uid(i), "projection ", i, " was not loaded as it is");
            bool is_in = false;
            for (auto &[ch, ps] : in) is_in = is_in || ps.count(i);
            if (is_in) c.check(is_tagged(model.get_network().get_projection(proj_uid(i)), kc::tags::IOType::input), "input projection ", i, " has no tag");
        }
        c.check(loader.get_inputs().size() == in.size(), loader.get_inputs().size(), " input channels instead of ", in.size());
        c.check(loader.get_outputs().size() == out.size(), loader.get_outputs().size(), " output channels instead of ", out.size());
        // Every input channel sends what its generator makes to exactly its projections.
        for (int ch = 0; ch < channels; ++ch)
        {
            auto find = [&] { (void)loader.get_input_channel(channel_uid(ch)); };
            c.check(throws(find) == !in.count(ch), "lookup of input channel ", ch);
            if (!in.count(ch)) continue;
            c.check(loader.get_input_channel(channel_uid(ch)).get_uid() == channel_uid(ch), "another input channel was found");
            c.check(loader.get_input_channel(channel_uid(ch)).send(7 + ch), "input channel ", ch, " sent nothing");
            bus->route_messages();
            for (int p = 0; p < PROJS; ++p)
            {
                auto got = drop_to<km::SpikeMessage>(b->get_message_endpoint(), proj_uid(p));
                c.check(got.size() == in[ch].count(p), "projection ", p, " got ", got.size(), " messages of input channel ", ch, " instead of ", in[ch].count(p));
                for (auto &m : got)
                {
                    c.check(m.header_.sender_uid_ == channel_uid(ch) && m.header_.send_time_ == uint64_t(7 + ch), "header of the message of input channel ", ch);
                    c.check(m.neuron_indexes_ == km::SpikeData{static_cast<uint32_t>(ch), static_cast<uint32_t>(107 + ch)}, "input channel ", ch, " sent ", show(m.neuron_indexes_));
                }
            }
        }
        // Every output channel gets the spikes of exactly its populations.
        for (int ch = 0; ch < channels; ++ch)
        {
            auto find = [&] { (void)loader.get_output_channel(channel_uid(50 + ch)); };
            c.check(throws(find) == !out.count(ch), "lookup of output channel ", ch);
            if (out.count(ch)) c.check(loader.get_output_channel(channel_uid(50 + ch)).get_uid() == channel_uid(50 + ch), "another output channel was found");
        }
        for (int p = 0; p < POPS; ++p)
        {
            b->get_message_endpoint().send_message(km::SpikeMessage{{pop_uid(p), static_cast<kc::Step>(p)}, {static_cast<uint32_t>(p)}});
            bus->route_messages();
        }
        for (auto &[ch, ps] : out)
        {
            auto got = loader.get_output_channel(channel_uid(50 + ch)).update();
            std::vector<int> from;
            for (auto &m : got) from.push_back(m.neuron_indexes_.empty() ? -1 : static_cast<int>(m.neuron_indexes_[0]));
            c.check(from == std::vector<int>(ps.begin(), ps.end()), "output channel ", ch, " got the spikes of populations ", show(from), " instead of ", show(ps));
        }
        c.state(mc::Hash().add(in.size()).add(out.size()));
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C20");
    r.explain("Every execution adds a sequence of channel links to a real model, loads it and sends one message through every channel; which channels exist, whom they reach, what was loaded and what is tagged are checked.");
    const bool t = r.thorough();
    const int i = t ? 5 : 4;
    r.scenario("input channels, CPU bus", loading(5, i, 0, false), {4, 30, std::to_string(i) + " links from 5 channels to 3 projections"});
    r.scenario("output channels, CPU bus", loading(5, 0, i, false), {4, 30, std::to_string(i) + " links from 3 populations to 5 channels"});
    r.scenario("both, CPU bus", loading(2, 2, 2, false), {4, 30, "2 input and 2 output links of 2 channels"});
    if (t) r.scenario("more channels, CPU bus", loading(9, 3, 0, false), {4, 30, "3 links from 9 channels"});
    r.scenario("both, ZMQ bus", loading(t ? 4 : 3, 1, t ? 2 : 1, true), {4, 60, "1 input link, 1 to 2 output links"});
    return r.finish();
}
