// C33: evaluation of classification.
#include <knp/framework/inference_evaluation/classification/processor.h>
#include <knp/framework/inference_evaluation/perfomance_metrics.h>

#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace ie = knp::framework::inference_evaluation;
using Base = knp::framework::data_processing::classification::Dataset;

struct Data : Base
{
    Data(const std::vector<unsigned> &labels, size_t training, size_t steps, size_t classes)
    {
        for (auto l : labels) dataset_.push_back({l, {}});
        steps_per_frame_ = steps;
        classes_amount_ = classes;
        split(training, labels.size() - training);
    }
};

static double ratio(double a, double b) { return b == 0 ? 0 : a / b; }
static double f(double p, double r) { return p * r == 0 ? 0 : 2 * p * r / (p + r); }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-5 * std::max(1.0, std::fabs(b)); }

static void metrics(mc::Ctx &c)
{
    static const size_t v[] = {0, 1, 2, 3, 7, 1000, 16777217};
    const size_t tp = v[c.choose(7)], fn = v[c.choose(7)], fp = v[c.choose(7)], tn = v[c.choose(7)];
    const double all = static_cast<double>(tp) + fn + fp + tn;
    c.transition();
    c.check(near(ie::get_precision(tp, fp), ratio(tp, static_cast<double>(tp) + fp)), "precision of ", tp, " ", fp);
    c.check(near(ie::get_recall(tp, fn), ratio(tp, static_cast<double>(tp) + fn)), "recall of ", tp, " ", fn);
    c.check(near(ie::get_prevalence(tp, fn, fp, tn), ratio(static_cast<double>(tp) + fn, all)), "prevalence of ", tp, " ", fn, " ", fp, " ", tn);
    c.check(near(ie::get_accuracy(tp, fn, fp, tn), ratio(static_cast<double>(tp) + tn, all)), "accuracy of ", tp, " ", fn, " ", fp, " ", tn);
    const float p = ie::get_precision(tp, fp), r = ie::get_recall(tp, fn);
    c.check(near(ie::get_f_score(p, r), f(p, r)), "F-score of ", p, " ", r);
}

static std::vector<std::string> split_line(const std::string &s, char delim)
{
    std::vector<std::string> r;
    std::string x;
    std::istringstream is(s);
    while (std::getline(is, x, delim)) r.push_back(x);
    return r;
}

// Votes of every frame: none, for one class, for several, equal ones; neurons beyond the classes vote for index % classes.
static mc::Body evaluation(int most_frames, int kinds)
{
    return [=](mc::Ctx &c)
    {
        const size_t classes = 1 + c.choose(3), steps = 1 + c.choose(2), training = c.choose(2);
        const int n = 1 + c.choose(most_frames);
        std::vector<unsigned> labels;
        for (size_t i = 0; i < training; ++i) labels.push_back(classes - 1);
        for (int i = 0; i < n; ++i) labels.push_back(c.choose(classes));
        Data d(labels, training, steps, classes);
        std::vector<km::SpikeMessage> spikes;
        struct Count
        {
            size_t tp = 0, fn = 0, fp = 0;
        };
        std::vector<Count> want(classes);
        for (int i = 0; i < n; ++i)
        {
            std::vector<km::SpikeData> sent(steps);
            const int kind = c.choose(kinds);
            const uint32_t x = labels[training + i], y = (x + 1) % classes, k = classes;
            switch (kind)
            {
                case 0: break;
                case 1: sent[0] = {x}; break;
                case 2: sent[steps - 1] = {y}; break;
                case 3: sent[0] = {x, y, static_cast<uint32_t>(x + k)}; break;
                case 4: sent[0] = {y}, sent[steps - 1].push_back(x); break;
                case 5: sent[0] = {static_cast<uint32_t>(y + 2 * k), y, x}; break;
            }
            c.log("frame ", i, " of class ", x, ": votes ", kind);
            std::vector<size_t> votes(classes);
            for (size_t s = 0; s < steps; ++s)
            {
                const kc::Step t = i * steps + s;
                // In one message or one message for each spike.
                if (sent[s].size() > 1 && c.choose(2))
                    for (auto v : sent[s]) spikes.push_back({{mkuid(1), t}, {v}});
                else if (!sent[s].empty())
                    spikes.push_back({{mkuid(1), t}, sent[s]});
                for (auto v : sent[s]) ++votes[v % classes];
            }
            const size_t best = std::max_element(votes.begin(), votes.end()) - votes.begin();  // the first of equal ones
            auto &w = want[x];
            ++(votes[best] == 0 ? w.fn : best == x ? w.tp : w.fp);
        }
        c.transition(n);
        ie::classification::InferenceResultsProcessor p;
        if (c.choose(2)) p.process_inference_results({{{mkuid(1), 0}, {0}}}, d);  // results are replaced
        p.process_inference_results(spikes, d);
        const auto &got = p.get_inference_results();
        c.check(got.size() == classes, got.size(), " classes instead of ", classes);
        std::ostringstream os;
        p.write_inference_results_to_stream_as_csv(os);
        const auto lines = split_line(os.str(), '\n');
        c.check(lines.size() == classes + 1, "the table has ", lines.size(), " lines");
        c.check(lines[0] == "CLASS,TOTAL_VOTES,TRUE_POSITIVES,FALSE_NEGATIVES,FALSE_POSITIVES,TRUE_NEGATIVES,PRECISION,RECALL,PREVALENCE,ACCURACY,F_SCORE", "header ", lines[0]);
        for (size_t k = 0; k < classes; ++k)
        {
            const auto &w = want[k];
            const size_t tn = n - w.tp - w.fn - w.fp;
            c.check(got[k].true_positives_ == w.tp && got[k].false_negatives_ == w.fn && got[k].false_positives_ == w.fp && got[k].true_negatives_ == tn, "class ", k, " has ", got[k].true_positives_, "/", got[k].false_negatives_, "/", got[k].false_positives_, "/", got[k].true_negatives_,
                    " instead of ", w.tp, "/", w.fn, "/", w.fp, "/", tn);
            c.check(got[k].get_total_votes() == w.tp + w.fn + w.fp, "total votes of class ", k);
            const auto col = split_line(lines[k + 1], ',');
            c.check(col.size() == 11, "line ", k + 1, " has ", col.size(), " columns");
            std::vector<double> v;
            for (auto &s : col) v.push_back(std::stod(s));
            const double numbers[] = {double(k), double(w.tp + w.fn + w.fp), double(w.tp), double(w.fn), double(w.fp), double(tn), ratio(w.tp, w.tp + w.fp)};
            for (int i = 0; i < 7; ++i) c.check(near(v[i], numbers[i]), "class ", k, ": column ", i, " is ", v[i], " instead of ", numbers[i]);
            const double recall = ratio(w.tp, w.tp + w.fn), listed = ratio(w.tp, w.tp + w.fp);
            if (near(v[7], listed) && !near(v[7], recall))
                c.known("csv-recall", "class ", k, ": recall is ", v[7], " instead of ", recall);
            else
                c.check(near(v[7], recall), "class ", k, ": recall is ", v[7], " instead of ", recall);
            c.check(near(v[8], ratio(w.tp + w.fn, n)), "class ", k, ": prevalence is ", v[8]);
            c.check(near(v[9], ratio(w.tp + tn, n)), "class ", k, ": accuracy is ", v[9]);
            c.check(near(v[10], f(v[6], v[7])), "class ", k, ": F-score is ", v[10], " for precision ", v[6], " and recall ", v[7]);
        }
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C33");
    r.explain("Every execution evaluates one history of votes with the real processor and reads the table it writes.");
    r.assume("spikes are given in the order of their steps, counted from the start of inference");
    const bool t = r.thorough();
    r.scenario("metrics", metrics, {2, 30, "all counts from 7 values"});
    r.scenario("evaluation", evaluation(t ? 4 : 3, 6), {4, 30, "up to 3 classes, 3-4 frames, 6 ways to vote, whole or single messages"});
    return r.finish();
}
