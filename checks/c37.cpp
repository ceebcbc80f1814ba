// C37: the network graph, its parts, printed description, layout and drawing.
#include <knp/framework/network.h>
#include <knp/framework/tags/name.h>
#include <knp/framework/visualizer/visualize_network.h>
#include <knp/neuron-traits/altai_lif.h>
#include <knp/neuron-traits/blifat.h>
#include <knp/neuron-traits/lif.h>
#include <knp/neuron-traits/stdp_synaptic_resource_rule.h>
#include <knp/synapse-traits/delta.h>
#include <knp/synapse-traits/stdp_add_rule.h>
#include <knp/synapse-traits/stdp_synaptic_resource_rule.h>

#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>

#include "util.hpp"

namespace kc = knp::core;
namespace fw = knp::framework;

// What is drawn. The drawing functions of OpenCV are replaced: there is no screen here.
namespace
{
struct Label
{
    std::string text;
    cv::Point at;
};
struct Disc
{
    cv::Point at;
    int radius;
    bool filled;
};
struct Line
{
    cv::Point from, to;
};
std::vector<Label> labels;
std::vector<Disc> discs;
std::vector<Line> lines;
int triangles = 0, shows = 0, keys = 0;
cv::Size shown;
void forget()
{
    labels.clear(), discs.clear(), lines.clear();
    triangles = 0;
}
std::vector<std::vector<Label>> frames_labels;
std::vector<std::vector<Disc>> frames_discs;
std::vector<std::vector<Line>> frames_lines;
}  // namespace

namespace cv
{
void putText(InputOutputArray, const String &text, Point at, int, double, Scalar, int, int, bool) { labels.push_back({text, at}); }
void circle(InputOutputArray, Point at, int radius, const Scalar &, int thickness, int, int) { discs.push_back({at, radius, thickness < 0}); }
void line(InputOutputArray, Point a, Point b, const Scalar &, int, int, int) { lines.push_back({a, b}); }
void fillConvexPoly(InputOutputArray, InputArray, const Scalar &, int, int) { ++triangles; }
void imshow(const String &, InputArray m)
{
    shown = m.size();
    ++shows;
    frames_labels.push_back(labels), frames_discs.push_back(discs), frames_lines.push_back(lines);
    forget();
}
int waitKey(int) { return ++keys >= 3 ? 27 : 255; }
}  // namespace cv

// The layout shown on a screen starts from the time.
extern "C" time_t time(time_t *t) noexcept
{
    if (t) *t = 1234567;
    return 1234567;
}

namespace
{
struct E
{
    int from, to;  // Node or -1: not in the network.
};

struct Case
{
    int nodes = 0;
    std::vector<E> edges;
    std::string show() const
    {
        std::ostringstream s;
        s << nodes << " populations, projections";
        for (const auto &e : edges) s << ' ' << e.from << "->" << e.to;
        return s.str();
    }
};

const char *node_names[] = {"alpha", "", "gamma", "delta"};

template <class T>
struct Type
{
    using type = T;
};

// Some populations and projections have names, some names are of a wrong type, some are empty.
fw::Network make(const Case &k)
{
    fw::Network net;
    for (int i = 0; i < k.nodes; ++i)
    {
        auto add = [&](auto type)
        {
            using N = typename decltype(type)::type;
            kc::Population<N> p(mkuid(i, 5), [](size_t) { return typename kc::Population<N>::NeuronParameters{}; }, i == 2 ? 0 : i + 3);
            if (node_names[i][0]) fw::tags::set_name(p, node_names[i]);
            net.add_population(kc::AllPopulationsVariant(std::move(p)));
        };
        if (i % 2)
            add(Type<knp::neuron_traits::AltAILIF>{});
        else
            add(Type<knp::neuron_traits::BLIFATNeuron>{});
    }
    for (size_t i = 0; i < k.edges.size(); ++i)
    {
        auto add = [&](auto type)
        {
            using S = typename decltype(type)::type;
            const auto uid = [&](int n) { return n < 0 ? mkuid(77 + i, 6) : mkuid(n, 5); };
            kc::Projection<S> p(mkuid(i, 7), uid(k.edges[i].from), uid(k.edges[i].to),
                                [](size_t n) { return typename kc::Projection<S>::Synapse{{}, n, n}; }, i % 3);
            if (i % 3 == 0) fw::tags::set_name(p, "projection " + std::to_string(i));
            if (i % 3 == 1) p.get_tags()["name"] = 5;
            net.add_projection(kc::AllProjectionsVariant(std::move(p)));
        };
        if (i % 2)
            add(Type<knp::synapse_traits::AdditiveSTDPDeltaSynapse>{});
        else
            add(Type<knp::synapse_traits::DeltaSynapse>{});
    }
    return net;
}

std::string short_uid(const kc::UID &u) { return std::string(u).substr(0, 8); }
std::string node_name(int i) { return node_names[i][0] ? node_names[i] : short_uid(mkuid(i, 5)); }

void check_graph(mc::Ctx &c, const Case &k, const fw::NetworkGraph &g)
{
    c.check(g.nodes_.size() == static_cast<size_t>(k.nodes), "the graph has ", g.nodes_.size(), " nodes");
    for (int i = 0; i < k.nodes; ++i)
    {
        const auto &n = g.nodes_[i];
        const kc::AllPopulationsVariant even = kc::Population<knp::neuron_traits::BLIFATNeuron>(nullptr, 0),
                                        odd = kc::Population<knp::neuron_traits::AltAILIF>(nullptr, 0);
        c.check(n.uid_ == mkuid(i, 5), "node ", i, " has another UID");
        c.check(n.size_ == static_cast<size_t>(i == 2 ? 0 : i + 3), "node ", i, " has size ", n.size_);
        c.check(n.name_ == node_name(i), "node ", i, " has name ", n.name_);
        c.check(n.type_ == (i % 2 ? odd : even).index(), "node ", i, " has type ", n.type_);
    }
    c.check(g.edges_.size() == k.edges.size(), "the graph has ", g.edges_.size(), " edges");
    for (size_t i = 0; i < k.edges.size(); ++i)
    {
        const auto &e = g.edges_[i];
        c.check(e.uid_ == mkuid(i, 7), "edge ", i, " has another UID");
        c.check(e.size_ == i % 3, "edge ", i, " has size ", e.size_);
        c.check(e.index_from_ == k.edges[i].from && e.index_to_ == k.edges[i].to, "edge ", i, " goes from ", e.index_from_, " to ", e.index_to_);
        c.check(e.name_ == (i % 3 == 0 ? "projection " + std::to_string(i) : short_uid(mkuid(i, 7))), "edge ", i, " has name ", e.name_);
        const kc::AllProjectionsVariant delta = kc::Projection<knp::synapse_traits::DeltaSynapse>(kc::UID{}, kc::UID{}),
                                        additive = kc::Projection<knp::synapse_traits::AdditiveSTDPDeltaSynapse>(kc::UID{}, kc::UID{});
        c.check(e.type_ == (i % 2 ? additive : delta).index(), "edge ", i, " has type ", e.type_);
    }
}

std::set<std::vector<int>> components(const Case &k)
{
    std::vector<int> comp(k.nodes);
    for (int i = 0; i < k.nodes; ++i) comp[i] = i;
    for (int r = 0; r < k.nodes; ++r)
        for (const auto &e : k.edges)
            if (e.from >= 0 && e.to >= 0) comp[e.from] = comp[e.to] = std::min(comp[e.from], comp[e.to]);
    std::map<int, std::vector<int>> m;
    for (int i = 0; i < k.nodes; ++i) m[comp[i]].push_back(i);
    std::set<std::vector<int>> r;
    for (auto &x : m) r.insert(x.second);
    return r;
}

std::set<std::vector<int>> check_parts(mc::Ctx &c, const Case &k, const fw::NetworkGraph &g)
{
    const auto parts = fw::divide_graph_by_connectivity(g);
    std::set<std::vector<int>> got(parts.begin(), parts.end());
    c.check(got.size() == parts.size(), "a part is listed twice");
    c.check(got == components(k), "the graph of ", k.show(), " is divided in ", parts.size(), " parts");
    return got;
}

// Numbers of "#<n>" and "#INPUT" (-1) in a text.
std::vector<int> numbers(const std::string &s)
{
    std::vector<int> r;
    for (size_t i = 0; (i = s.find('#', i)) != std::string::npos; ++i) r.push_back(s.compare(i, 6, "#INPUT") ? atoi(s.c_str() + i + 1) : -1);
    std::sort(r.begin(), r.end());
    return r;
}

void check_description(mc::Ctx &c, const Case &k, const fw::NetworkGraph &g)
{
    std::ostringstream text;
    auto *old = std::cout.rdbuf(text.rdbuf());
    try
    {
        fw::print_network_description(g);
    }
    catch (...)
    {
        std::cout.rdbuf(old);
        throw;
    }
    std::cout.rdbuf(old);
    std::istringstream in(text.str());
    std::string s;
    std::set<int> seen;
    std::set<std::vector<int>> groups;
    std::vector<int> group;
    while (std::getline(in, s))
    {
        if (s.empty())
        {
            groups.insert(group);
            group.clear();
            continue;
        }
        const auto receive = s.find("receive from"), send = s.find("send to");
        c.check(receive != std::string::npos && send != std::string::npos && receive < send, "strange line ", s);
        const auto self = numbers(s.substr(0, receive));
        c.check(self.size() == 1 && self[0] < k.nodes && seen.insert(self[0]).second, "population printed twice or unknown: ", s);
        const int n = self[0];
        group.push_back(n);
        std::vector<int> from, to;
        for (const auto &e : k.edges)
        {
            if (e.to == n) from.push_back(e.from);
            if (e.from == n && e.to >= 0) to.push_back(e.to);
        }
        std::sort(from.begin(), from.end());
        std::sort(to.begin(), to.end());
        c.check(s.find(" size " + std::to_string(g.nodes_[n].size_) + ":") != std::string::npos, "size of population ", n, ": ", s);
        c.check(numbers(s.substr(receive, send - receive)) == from, "sources of population ", n, " in ", k.show(), ": ", s);
        c.check(numbers(s.substr(send)) == to, "targets of population ", n, " in ", k.show(), ": ", s);
    }
    c.check(seen.size() == static_cast<size_t>(k.nodes), "only ", seen.size(), " populations printed");
    c.check(groups == components(k), "printed in other groups");
}

// All networks: every pair of ends has 0 or 1 projection, or there are some that are doubled.
mc::Body graphs(int nodes, int most_edges)
{
    return [=](mc::Ctx &c)
    {
        Case k;
        k.nodes = nodes;
        const int n = c.choose(most_edges + 1);
        for (int i = 0; i < n; ++i)
        {
            const int from = c.choose(nodes + 1) - 1, to = c.choose(nodes + 1) - 1;
            k.edges.push_back({from, to});
        }
        c.log(k.show());
        c.transition(n + nodes);
        const auto net = make(k);
        const fw::NetworkGraph g(net);
        check_graph(c, k, g);
        check_parts(c, k, g);
        check_description(c, k, g);
        c.state(mc::Hash().adds(k.show()));
        mc::Hash h;
        for (const auto &x : components(k)) h.adds(x);
        c.outcome(h);
    };
}

// Layouts: a point for every node of a subset, inside of the screen; only projections between these nodes matter.
mc::Body layouts(int nodes, int most_edges)
{
    return [=](mc::Ctx &c)
    {
        Case k;
        k.nodes = nodes;
        std::vector<int> subset;
        const int mask = 1 + c.choose((1 << nodes) - 1);
        for (int i = 0; i < nodes; ++i)
            if (mask >> i & 1) subset.push_back(i);
        const bool reversed = c.flag();
        if (reversed) std::reverse(subset.begin(), subset.end());
        const auto size = c.pick(std::vector<cv::Size>{{800, 600}, {300, 1000}});
        const int margin = c.pick(std::vector<int>{0, 50}), iterations = c.pick(std::vector<int>{0, 1, 30});
        const int n = c.choose(most_edges + 1);
        for (int i = 0; i < n; ++i)
        {
            const int from = c.choose(nodes + 1) - 1, to = c.choose(nodes + 1) - 1;
            k.edges.push_back({from, to});
        }
        c.log(k.show(), ", subset ", show(subset), ", ", size.width, "x", size.height, ", margin ", margin, ", ", iterations, " iterations");
        c.transition(iterations + 1);
        const fw::NetworkGraph g(make(k));
        cv::theRNG().state = 4711;
        const auto points = fw::position_network(g, subset, size, margin, iterations);
        c.check(points.size() == subset.size(), points.size(), " points");
        for (const auto &p : points)
            c.check(p.x >= margin && p.y >= margin && p.x <= size.width - margin && p.y <= size.height - margin, "a point at ", p.x, ",", p.y);
        // The network of the subset alone.
        Case part;
        part.nodes = subset.size();
        std::map<int, int> position;
        for (size_t i = 0; i < subset.size(); ++i) position[subset[i]] = i;
        for (const auto &e : k.edges)
            if (position.count(e.from) && position.count(e.to)) part.edges.push_back({position[e.from], position[e.to]});
        std::vector<int> all(subset.size());
        for (size_t i = 0; i < all.size(); ++i) all[i] = i;
        cv::theRNG().state = 4711;
        const auto alone = fw::position_network(fw::NetworkGraph(make(part)), all, size, margin, iterations);
        c.check(points == alone, "the layout of a part depends on something outside of it");
        c.state(mc::Hash().adds(k.show()).add(mask).add(reversed));
        mc::Hash h;
        for (const auto &p : points) h.add(p.x).add(p.y);
        c.outcome(h);
    };
}

// Drawings: every node of the subset has a disc and its own name, every projection between them an arrow.
mc::Body drawings(int nodes, int most_edges)
{
    return [=](mc::Ctx &c)
    {
        Case k;
        k.nodes = nodes;
        std::vector<int> subset;
        const int mask = 1 + c.choose((1 << nodes) - 1);
        for (int i = 0; i < nodes; ++i)
            if (mask >> i & 1) subset.push_back(i);
        if (c.flag()) std::reverse(subset.begin(), subset.end());
        const int n = c.choose(most_edges + 1);
        for (int i = 0; i < n; ++i)
        {
            const int from = c.choose(nodes + 1) - 1, to = c.choose(nodes + 1) - 1;
            k.edges.push_back({from, to});
        }
        const bool tight = c.flag();
        c.log(k.show(), ", subset ", show(subset), tight ? ", no margin" : "");
        const fw::NetworkGraph g(make(k));
        forget();
        frames_labels.clear(), frames_discs.clear(), frames_lines.clear();
        keys = shows = 0;
        const cv::Size size = tight ? c.pick(std::vector<cv::Size>{{200, 150}, {170, 150}, {150, 200}}) : cv::Size{1400, 1200};
        fw::position_network_test(g, subset, size, tight ? 0 : 200);
        c.check(shows == 3 && keys == 3, shows, " frames shown before the key was pressed");
        c.check(shown == size, "an image of another size");
        for (int f = 0; f < shows; ++f)
        {
            c.transition();
            std::vector<cv::Point> nodes_at;
            std::vector<Disc> loops;
            for (const auto &d : frames_discs[f])
                if (d.filled)
                    nodes_at.push_back(d.at);
                else
                    loops.push_back(d);
            c.check(nodes_at.size() == subset.size(), nodes_at.size(), " nodes drawn");
            c.check(frames_labels[f].size() == subset.size(), frames_labels[f].size(), " names drawn");
            // The node nearest to a name.
            std::map<std::string, cv::Point> where;
            for (const auto &l : frames_labels[f])
            {
                int base = 0;
                const auto text = cv::getTextSize(l.text, cv::FONT_HERSHEY_SIMPLEX, 0.7, 2, &base);
                const cv::Point center = l.at + cv::Point(text.width / 2, -text.height / 2);
                c.check(l.at.x >= 5 && l.at.x + text.width <= size.width - 5 && l.at.y - text.height >= 0 && l.at.y <= size.height,
                        "a name of ", text.width, "x", text.height, " is drawn at ", l.at.x, ",", l.at.y);
                if (tight)
                {
                    where[l.text] = {};
                    continue;
                }
                auto nearest = std::min_element(nodes_at.begin(), nodes_at.end(),
                                                [&](const cv::Point &a, const cv::Point &b) { return cv::norm(a - center) < cv::norm(b - center); });
                c.check(cv::norm(*nearest - center) < 60, "a name far from every node");
                c.check(where.emplace(l.text, *nearest).second, "name ", l.text, " drawn twice");
            }
            std::map<int, cv::Point> at;
            // Nodes are drawn in the order of the subset.
            for (size_t i = 0; i < subset.size(); ++i) at[subset[i]] = nodes_at[i];
            for (int s : subset)
            {
                c.check(where.count(node_name(s)), "the name of node ", s, " is not drawn");
                c.check(tight || where[node_name(s)] == at[s], "the name of node ", s, " is drawn at another node");
            }
            std::multiset<std::tuple<int, int, int, int>> got, expected;
            std::multiset<std::pair<int, int>> got_inputs, inputs;
            size_t expected_loops = 0;
            for (const auto &l : frames_lines[f])
            {
                // Arrows of inputs come from above.
                bool from_node = false;
                for (const auto &p : nodes_at) from_node |= p == l.from;
                if (from_node)
                    got.insert({l.from.x, l.from.y, l.to.x, l.to.y});
                else
                    got_inputs.insert({l.to.x, l.to.y});
            }
            for (const auto &e : k.edges)
            {
                if (!at.count(e.to)) continue;
                if (e.from < 0)
                    inputs.insert({at[e.to].x, at[e.to].y});
                else if (at.count(e.from) && e.from != e.to)
                    expected.insert({at[e.from].x, at[e.from].y, at[e.to].x, at[e.to].y});
                else if (e.from == e.to)
                    ++expected_loops;
            }
            c.check(got == expected, got.size(), " arrows between nodes drawn for ", k.show(), ", subset ", show(subset), " instead of ", expected.size());
            c.check(got_inputs == inputs, got_inputs.size(), " input arrows drawn for ", k.show(), ", subset ", show(subset), " instead of ", inputs.size());
            c.check(loops.size() == expected_loops, loops.size(), " loops drawn instead of ", expected_loops);
        }
        c.state(mc::Hash().adds(k.show()).add(mask));
        c.outcome(mc::Hash().add(frames_lines[0].size()).add(frames_discs[0].size()));
    };
}
}  // namespace

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C37");
    r.explain(
        "All networks of up to the given numbers of populations and projections (also with ends outside of the network, loops and several "
        "projections between the same populations) are turned into graphs, divided, printed, laid out and drawn by the real code and compared with "
        "the network: nodes, edges, connected parts, printed lists; layouts of every subset against the layout of the network of that subset "
        "alone, from the same random numbers; recorded drawing calls against the projections.");
    r.assume("OpenCV's drawing and window functions are replaced by ones that record their arguments");
    const bool th = r.thorough();
    for (int n = 0; n <= (th ? 4 : 3); ++n)
        r.scenario("graphs of " + std::to_string(n) + " populations", graphs(n, n < 3 ? (th ? 5 : 4) : n == 3 ? (th ? 4 : 3) : 3), {3, 25, "all projections, up to 3-5"});
    for (int n = 1; n <= (th ? 4 : 3); ++n)
        r.scenario("layouts of " + std::to_string(n) + " populations", layouts(n, n < 3 ? 3 : 2), {3, 25, "all subsets, all projections up to 2-3"});
    for (int n = 1; n <= (th ? 4 : 3); ++n)
        r.scenario("drawings of " + std::to_string(n) + " populations", drawings(n, n < 3 ? 3 : 2), {3, 25, "all subsets, all projections up to 2-3"});
    return r.finish();
}
