// C34: image datasets: reading, splitting, spikes and labels of every step.
#include <knp/framework/data_processing/classification/image.h>

#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace im = knp::framework::data_processing::classification::images;
using Frame = im::Dataset::Frame;

struct Image
{
    unsigned label;
    std::vector<uint8_t> pixels;
};

// What a generator of spikes must give for a step of looped frames.
static km::SpikeData expected(const std::vector<std::vector<bool>> &frames, size_t from, size_t count, size_t steps, size_t size, kc::Step step)
{
    const auto &f = frames[from + step / steps % count];
    km::SpikeData r;
    for (size_t i = 0; i < size; ++i)
        if (f[step % steps * size + i]) r.push_back(i);
    return r;
}
template <class P>
static void same(mc::Ctx &c, P range, const std::vector<Image> &images, const std::vector<std::vector<bool>> &frames, size_t from, size_t count, const char *what)
{
    c.check(size_t(range.second - range.first) == count, what, " has ", range.second - range.first, " frames instead of ", count);
    for (size_t i = 0; i < count; ++i)
    {
        c.check(range.first[i].first == images[from + i].label, what, " frame ", i, " has label ", range.first[i].first);
        c.check(range.first[i].second.spikes_ == frames[from + i], what, " frame ", i, " has other spikes");
    }
}

// Streams with images and labels that end together or not, cut off at any byte.
static mc::Body dataset(int most, int loops)
{
    return [=](mc::Ctx &c)
    {
        const size_t size = 1 + c.choose(2), steps = 1 + c.choose(2), n = c.choose(most + 1);
        std::vector<Image> images;
        std::string pixels, labels;
        for (size_t i = 0; i < n; ++i)
        {
            Image m{static_cast<unsigned>(c.choose(2) * 11 + i), {}};
            for (size_t k = 0; k < size; ++k) m.pixels.push_back((i * 83 + k * 127 + 1) & 255);
            images.push_back(m);
            pixels.append(m.pixels.begin(), m.pixels.end());
            labels += std::to_string(m.label) + "\n";
        }
        // 0: both complete; 1: no newline in the end; 2: a label less; 3: a byte less; 4: a byte more
        const int cut = n ? c.choose(5) : 0;
        size_t have = n;
        if (cut == 1) labels.pop_back();
        if (cut == 2) labels = labels.substr(0, labels.size() - std::to_string(images.back().label).size() - 1), --have;
        if (cut == 3) pixels.pop_back(), --have;
        if (cut == 4) pixels += 'x';
        const size_t limit = 1 + c.choose(most + 1);
        have = std::min(have, limit);
        c.log(n, " images of ", size, " bytes, labels '", labels, "', ", pixels.size(), " bytes, limit ", limit, ", ", steps, " steps per image");
        // The converter of this test: bit s of the pixel at step s.
        size_t calls = 0;
        auto convert = [&](const std::vector<uint8_t> &p) -> Frame
        {
            c.check(p.size() == size, "an image has ", p.size(), " pixels");
            if (calls < have) c.check(p == images[calls].pixels, "image ", calls, " has other pixels");
            ++calls;
            Frame f;
            for (size_t s = 0; s < steps; ++s)
                for (auto x : p) f.spikes_.push_back(x >> s & 1);
            return f;
        };
        std::istringstream ps(pixels), ls(labels);
        auto d = std::make_unique<im::Dataset>();
        d->process_labels_and_images(ps, ls, limit, 3 + size, size, steps, convert);
        std::vector<std::vector<bool>> frames;
        for (size_t i = 0; i < have; ++i)
        {
            frames.emplace_back();
            for (size_t s = 0; s < steps; ++s)
                for (auto x : images[i].pixels) frames.back().push_back(x >> s & 1);
        }
        c.check(d->get_image_size() == size && d->get_steps_per_frame() == steps && d->get_amount_of_classes() == 3 + size, "sizes of the data set");
        // Split in every way; a refused split changes nothing.
        const size_t a = c.choose(have + 1), b = c.choose(have + 2 - a);
        c.log("split ", a, " + ", b, " of ", have);
        bool threw = false;
        try
        {
            d->split(a, b);
        }
        catch (std::runtime_error &)
        {
            threw = true;
        }
        c.check(threw == (a + b > have), threw ? "the split was refused" : "a split of more frames than there are was accepted", ": ", have, " frames must have been read");
        if (threw)
        {
            c.check(d->get_steps_amount_for_training() == 0 && d->get_steps_amount_for_inference() == 0, "a refused split changed the data set");
            return;
        }
        c.check(d->get_steps_amount_for_training() == a * steps && d->get_steps_amount_for_inference() == b * steps, "number of steps");
        same(c, d->get_data_for_training(), images, frames, 0, a, "training data");
        same(c, d->get_data_for_inference(), images, frames, a, b, "inference data");
        const auto labels_gen = d->make_training_labels_generator();
        const auto train = d->make_training_images_spikes_generator();
        const auto infer = d->make_inference_images_spikes_generator();
        for (kc::Step s = 0; s < (loops + 1) * most * steps; ++s)
        {
            c.transition();
            // Steps in an order that is not monotonic.
            const kc::Step step = s % 3 == 2 ? s / 2 : s;
            if (a)
            {
                const auto want = expected(frames, 0, a, steps, size, step);
                const auto got = train(step);
                c.check(got == want, "step ", step, " of training gives ", show(got), ", expected ", show(want));
                const auto l = labels_gen(step);
                c.check(l == km::SpikeData{images[step / steps % a].label}, "step ", step, " of training has labels ", show(l));
            }
            if (b)
            {
                const auto want = expected(frames, a, b, steps, size, step);
                const auto got = infer(step);
                c.check(got == want, "step ", step, " of inference gives ", show(got), ", expected ", show(want));
            }
        }
    };
}

// The incrementing converter over a series of images: its states go on from image to image.
static mc::Body incrementing(int images, int max_steps)
{
    return [=](mc::Ctx &c)
    {
        static const uint8_t values[] = {0, 1, 3, 128, 255};
        static const float factors[] = {0.25F, 1.F, 1.F / 256, 1.F / 4, 0.5F, 3.F};
        const size_t size = 2, steps = 1 + c.choose(max_steps), active = c.choose(steps + 1);
        const float factor = factors[c.choose(6)];
        const int n = 1 + c.choose(images);
        std::string pixels, labels;
        for (int i = 0; i < n; ++i)
        {
            pixels += static_cast<char>(values[c.choose(5)]);
            pixels += static_cast<char>(values[(i + 2) % 5]);
            labels += "0\n";
        }
        im::Dataset d;
        std::istringstream ps(pixels), ls(labels);
        d.process_labels_and_images(ps, ls, n, 2, size, steps, d.make_incrementing_image_to_spikes_converter(active, factor));
        d.split(n, 0);
        double state[2] = {};
        c.log(n, " images, ", steps, " steps, ", active, " active, factor ", factor);
        for (int i = 0; i < n; ++i)
        {
            const auto &got = d.get_data_for_training().first[i].second.spikes_;
            c.check(got.size() == steps * size, "frame ", i, " has ", got.size(), " values");
            for (size_t s = 0; s < steps; ++s)
                for (size_t k = 0; k < size; ++k)
                {
                    bool want = false;
                    if (s < active)
                    {
                        state[k] += static_cast<double>(factor) * static_cast<uint8_t>(pixels[i * size + k]);
                        if (state[k] >= 1) want = true, state[k] -= 1;
                    }
                    c.transition();
                    c.check(got[s * size + k] == want, "frame ", i, " step ", s, " pixel ", k, want ? " has no spike" : " has a spike");
                }
        }
    };
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C34");
    r.explain("Every execution reads a real data set from streams, splits it and asks the generators for the spikes of all steps of several rounds, out of order.");
    r.assume("the limit on images is positive, labels are numbers, factors are such that float arithmetic is exact");
    const bool t = r.thorough();
    r.scenario("data set", dataset(t ? 5 : 4, 2), {3, 30, "up to 4-5 images, streams that end in 5 ways, all limits and splits"});
    r.scenario("incrementing converter", incrementing(t ? 5 : 4, t ? 5 : 4), {3, 30, "up to 4-5 images, up to 4-5 steps, all numbers of active steps"});
    return r.finish();
}
