// C39: saved spike messages are loaded back; files of another format are refused.
#include <knp/framework/io/storage/native/data_storage_hdf5.h>
#include <knp/framework/io/storage/native/data_storage_json.h>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <highfive/highfive.hpp>

#include "util.hpp"

namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace ns = knp::framework::io::storage::native;
namespace fs = std::filesystem;
using Messages = std::vector<km::SpikeMessage>;

struct File
{
    fs::path path;
    explicit File(const char *name)
    {
        const char *base = getenv("KNP_VERIF_SCRATCH");
        path = fs::path(base ? base : "/tmp") / ("c39." + std::to_string(getpid()) + "." + name);
    }
    ~File()
    {
        std::error_code e;
        fs::remove(path, e);
    }
};

// What must be loaded: one message for each step with spikes. The indexes of one message keep their order; which of
// several messages of the same step comes first is left open.
static void expect(mc::Ctx &c, const Messages &saved, const Messages &got, const kc::UID &uid)
{
    std::map<kc::Step, std::vector<std::vector<km::SpikeIndex>>> want;
    for (auto &m : saved)
        if (!m.neuron_indexes_.empty()) want[m.header_.send_time_].push_back(m.neuron_indexes_);
    c.check(got.size() == want.size(), got.size(), " messages were loaded instead of ", want.size());
    auto g = got.begin();
    for (auto &w : want)
    {
        c.check(g->header_.send_time_ == w.first, "step ", w.first, " became ", g->header_.send_time_);
        c.check(g->header_.sender_uid_ == uid, "a loaded message has another sender");
        auto parts = w.second;
        std::sort(parts.begin(), parts.end());
        bool ok = false;
        do
        {
            std::vector<km::SpikeIndex> all;
            for (auto &p : parts) all.insert(all.end(), p.begin(), p.end());
            ok = all == km::SpikeData(g->neuron_indexes_.begin(), g->neuron_indexes_.end());
        } while (!ok && std::next_permutation(parts.begin(), parts.end()));
        c.check(ok, "spikes of step ", w.first, " became ", show(g->neuron_indexes_));
        ++g;
    }
}
static const float times[] = {1.F, 0.01F, 0.5F, 3.F, 7.3F, 0.001F, 0.7F};

static mc::Body round_trip(size_t most)
{
    return [=](mc::Ctx &c)
    {
        static const kc::Step steps[] = {0, 1, 15, 16777217, (kc::Step(1) << 40) + 3};
        static const std::vector<std::vector<km::SpikeIndex>> spikes = {{0}, {}, {5, 2, 5}, {2147483648U, 4294967295U, 2147483647U}};
        const int format = c.choose(1 + 3);
        const float time = format < 2 ? 1.F : times[format - 1];
        Messages m(c.choose(most + 1));
        for (auto &x : m)
        {
            x.header_ = {mkuid(c.choose(2)), steps[c.choose(5)]};
            x.neuron_indexes_ = spikes[c.choose(4)];
            c.log("step ", x.header_.send_time_, ": ", show(x.neuron_indexes_));
        }
        const Messages saved = m;
        const File f("rt");
        Messages got;
        if (format == 0)
        {
            ns::save_messages_to_json(m, f.path);
            got = ns::load_messages_from_json(f.path, mkuid(7));
        }
        else
        {
            ns::save_messages_to_h5(m, f.path, time);
            got = ns::load_messages_from_h5(f.path, mkuid(7), time);
        }
        c.log(format ? "HDF5, time per step " : "JSON ", time);
        c.check(m == saved, "saving changed the messages");
        expect(c, saved, got, mkuid(7));
        c.transition();
    };
}
// Every step for each time per step.
static mc::Body all_steps(unsigned blocks, unsigned size)
{
    return [=](mc::Ctx &c)
    {
        const int format = c.choose(8), block = c.choose(blocks);
        Messages m;
        for (unsigned i = 0; i < size; ++i) m.push_back({{mkuid(1), block * size + i}, {i}});
        const File f("st");
        c.log(format ? "HDF5, time per step " : "JSON ", format ? times[format - 1] : 1, ", steps from ", block * size, " to ", block * size + size - 1);
        Messages got;
        if (format)
        {
            ns::save_messages_to_h5(m, f.path, times[format - 1]);
            got = ns::load_messages_from_h5(f.path, mkuid(7), times[format - 1]);
        }
        else
        {
            ns::save_messages_to_json(m, f.path);
            got = ns::load_messages_from_json(f.path, mkuid(7));
        }
        expect(c, m, got, mkuid(7));
        c.transition(size);
    };
}
// HDF5 files of other programs: other names and groups, missing parts, times within a step.
static void foreign(mc::Ctx &c)
{
    using H = HighFive::File;
    const File f("fo");
    const int magic = c.choose(4), version = c.choose(5), internal = c.choose(2), name = c.choose(3), stamps = c.choose(3), strict = c.choose(2), spikes = c.choose(2);
    const float time = times[c.choose(3)];
    const std::string path = f.path.string();
    H h(path, H::Create | H::Overwrite);
    if (magic) h.createAttribute("magic", magic == 1 ? 2682 : magic == 2 ? 2683 : 0);
    if (version == 1) h.createAttribute("version", std::array<int, 2>{0, 1});
    if (version == 2) h.createAttribute("version", std::array<int, 2>{1, 0});
    if (version == 3) h.createAttribute("version", std::vector<int>{0, 1, 5});
    if (version == 4) h.createAttribute("version", std::vector<int>{0});
    h.createGroup("other");
    const std::vector<int64_t> nodes{3, 1, 2};
    const std::vector<double> when{double(time) * 4.5, 0, double(time) * 4};
    if (spikes)
    {
        auto g = h.createGroup("spikes");
        if (internal) g = g.createGroup("internal");
        if (name) g.createDataSet(name == 1 ? "node_ids" : "gids", nodes);
        if (stamps == 1) g.createDataSet("timestamps", when);
        if (stamps == 2) g.createDataSet("timestamps", std::vector<float>{0, 1});
    }
    const bool good = spikes && name && stamps == 1 && (!strict || magic == 1);
    c.log("magic ", magic, ", version ", version, ", spikes ", spikes, ", internal ", internal, ", nodes ", name, ", timestamps ", stamps, strict ? ", strict" : "");
    bool threw = false;
    Messages got;
    try
    {
        got = ns::load_messages_from_h5(f.path, mkuid(7), time, strict);
    }
    catch (const std::exception &)
    {
        threw = true;
    }
    c.transition();
    c.check(threw != good, good ? "a good file is refused" : "a wrong file is accepted");
    if (!good) return;
    Messages want(2);
    want[0].header_ = {mkuid(1), 4};
    want[0].neuron_indexes_ = {3, 2};
    want[1].header_ = {mkuid(1), 0};
    want[1].neuron_indexes_ = {1};
    expect(c, want, got, mkuid(7));
}

// Every value within a JSON document.
static void places(rapidjson::Value &v, std::vector<std::vector<int>> &out, std::vector<int> at)
{
    out.push_back(at);
    const int n = v.IsObject() ? v.MemberCount() : v.IsArray() ? v.Size() : 0;
    for (int i = 0; i < n; ++i)
    {
        at.push_back(i);
        places(v.IsObject() ? (v.MemberBegin() + i)->value : v[i], out, at);
        at.pop_back();
    }
}
static rapidjson::Value &go(rapidjson::Document &d, const std::vector<int> &at, size_t n)
{
    rapidjson::Value *v = &d;
    for (size_t i = 0; i < n; ++i) v = v->IsObject() ? &(v->MemberBegin() + at[i])->value : &(*v)[at[i]];
    return *v;
}
static std::string name_of(rapidjson::Document &d, const std::vector<int> &at)
{
    std::string r;
    rapidjson::Value *v = &d;
    for (int i : at)
    {
        if (v->IsObject()) r += std::string(".") + (v->MemberBegin() + i)->name.GetString(), v = &(v->MemberBegin() + i)->value;
        else r += "[" + std::to_string(i) + "]", v = &(*v)[i];
    }
    return r;
}
// Every value of a file replaced by another one, left out or doubled; the file cut off at any byte.
static void malformed(mc::Ctx &c)
{
    const File f("mf");
    Messages m(2);
    m[0].header_ = {mkuid(1), 3};
    m[0].neuron_indexes_ = {4, 1};
    m[1].header_ = {mkuid(1), 5};
    m[1].neuron_indexes_ = {0};
    ns::save_messages_to_json(m, f.path);
    std::ifstream in(f.path);
    std::ostringstream os;
    os << in.rdbuf();
    in.close();
    std::string text = os.str();
    const bool strict = c.choose(2);
    std::string what, where;
    bool must_throw = false, must_load = false;
    if (c.choose(2) == 0)
    {
        rapidjson::Document d;
        d.Parse(text.c_str());
        c.check(!d.HasParseError(), "the saved file is not JSON");
        std::vector<std::vector<int>> all;
        places(d, all, {});
        const auto at = all[c.choose(all.size())];
        where = name_of(d, at);
        static const char *values[] = {"null", "1", "-1", "1.5", "\"x\"", "[]", "[1]", "[[]]", "{}", "{\"name\":\"magic\"}", "true", "3000000000", "18446744073709551615", "1e300", "[{}]", "{\"value\":7}", "[null]", "[\"magic\"]"};
        const int how = c.choose(18 + (at.empty() ? 0 : 2));
        if (how < 18)
        {
            rapidjson::Document x(&d.GetAllocator());
            x.Parse(values[how]);
            what = values[how];
            go(d, at, at.size()) = static_cast<rapidjson::Value &>(x);
        }
        else
        {
            auto &up = go(d, at, at.size() - 1);
            what = how == 18 ? "nothing" : "two of it";
            if (how == 18 && up.IsObject()) up.EraseMember(up.MemberBegin() + at.back());
            else if (how == 18) up.Erase(up.Begin() + at.back());
            else if (up.IsArray()) up.PushBack(rapidjson::Value(up[at.back()], d.GetAllocator()), d.GetAllocator());
            else c.prune();
        }
        rapidjson::StringBuffer sb;
        rapidjson::Writer<rapidjson::StringBuffer> w(sb);
        d.Accept(w);
        text = sb.GetString();
        const bool replaced = how < 18;
        const auto is = [&](const char *p) { return where == p; };
        // The number of the format.
        if (strict && replaced && is(".attributes[0].value")) must_throw = true;
        if (strict && replaced && (is(".attributes[0].name") || (is(".attributes[0]") && how != 9))) must_throw = true;
        if (strict && (is("") || is(".attributes"))) must_throw = true;
        if (replaced && (is("") || is(".spikes"))) must_throw = true;
        if (how == 18 && (is(".spikes") || is(".spikes.node_ids") || is(".spikes.timestamps") || is(".spikes.node_ids.value") || is(".spikes.timestamps.value"))) must_throw = true;
        if (replaced && what[0] != '{' && (is(".spikes.node_ids") || is(".spikes.timestamps"))) must_throw = true;
        if (replaced && what[0] != '[' && (is(".spikes.node_ids.value") || is(".spikes.timestamps.value"))) must_throw = true;
        if ((how == 18 || how == 19) && (where.rfind(".spikes.node_ids.value[", 0) == 0 || where.rfind(".spikes.timestamps.value[", 0) == 0)) must_throw = true;  // sizes differ
        // Descriptions do not matter.
        if (where.rfind(".spikes.attributes", 0) == 0 || where.find(".shape") != std::string::npos || (where.find("].type") != std::string::npos) || where.rfind(".spikes.node_ids.type", 0) == 0 ||
            where.rfind(".spikes.timestamps.attributes", 0) == 0 || where.rfind(".spikes.timestamps.type", 0) == 0)
            must_load = true;
        // The version is not binding.
        if (where.rfind(".attributes[1]", 0) == 0 && where.find(".name") == std::string::npos && !must_throw && is(".attributes[1].value")) must_load = true;
        if (!strict && where.rfind(".attributes[0].value", 0) == 0) must_load = true;
    }
    else
    {
        const size_t cut = c.choose(text.size());
        what = "the end";
        where = "byte " + std::to_string(cut);
        const std::string end = text.substr(cut);
        must_throw = end.find('}') != std::string::npos;
        must_load = !must_throw;
        text = text.substr(0, cut);
    }
    c.log("in place of ", where, ": ", what, strict ? ", strict" : "");
    std::ofstream(f.path) << text;
    bool threw = false;
    Messages got;
    try
    {
        got = ns::load_messages_from_json(f.path, mkuid(7), strict);
    }
    catch (const std::exception &e)
    {
        threw = true;
        c.log("refused: ", e.what());
    }
    c.transition();
    c.check(!must_throw || threw, "the file is accepted");
    c.check(!must_load || !threw, "the file is refused");
    if (must_load) expect(c, m, got, mkuid(7));
}

// Members and attributes of a file in any order.
static void reorder(mc::Ctx &c, rapidjson::Value &v, rapidjson::Document &d, const std::string &where)
{
    const bool attributes = v.IsArray() && where.size() > 10 && where.compare(where.size() - 10, 10, "attributes") == 0;
    if (v.IsObject() && v.MemberCount() > 1)
    {
        const int shift = c.choose(std::min<int>(v.MemberCount(), 3));
        if (shift) c.log("members of ", where, " moved by ", shift);
        for (int i = 0; i < shift; ++i)
        {
            rapidjson::Value name(v.MemberBegin()->name, d.GetAllocator()), value(v.MemberBegin()->value, d.GetAllocator());
            v.EraseMember(v.MemberBegin());
            v.AddMember(name, value, d.GetAllocator());
        }
    }
    if (attributes)
    {
        const int shift = c.choose(v.Size() + 1);
        if (shift == static_cast<int>(v.Size()))
        {
            c.log("attributes of ", where, " follow another one");
            rapidjson::Value first(rapidjson::kObjectType);
            first.AddMember("name", "comment", d.GetAllocator());
            first.AddMember("value", "magic", d.GetAllocator());
            v.PushBack(first, d.GetAllocator());
            for (rapidjson::SizeType i = v.Size() - 1; i > 0; --i) v[i].Swap(v[i - 1]);
        }
        else if (shift)
        {
            c.log("attributes of ", where, " moved by ", shift);
            for (int i = 0; i < shift; ++i)
                for (rapidjson::SizeType k = 0; k + 1 < v.Size(); ++k) v[k].Swap(v[k + 1]);
        }
    }
    if (v.IsObject())
        for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m)
            if (std::string(m->name.GetString()) != "type") reorder(c, m->value, d, where + "." + m->name.GetString());
}
static void reordered(mc::Ctx &c)
{
    const File f("ro");
    Messages m(2);
    m[0].header_ = {mkuid(1), 3};
    m[0].neuron_indexes_ = {4, 1};
    m[1].header_ = {mkuid(1), 5};
    m[1].neuron_indexes_ = {0};
    ns::save_messages_to_json(m, f.path);
    std::ifstream in(f.path);
    std::ostringstream os;
    os << in.rdbuf();
    in.close();
    const bool strict = c.choose(2);
    rapidjson::Document d;
    d.Parse(os.str().c_str());
    c.check(!d.HasParseError(), "the saved file is not JSON");
    reorder(c, d, d, "");
    rapidjson::StringBuffer sb;
    rapidjson::Writer<rapidjson::StringBuffer> w(sb);
    d.Accept(w);
    std::ofstream(f.path) << sb.GetString();
    expect(c, m, ns::load_messages_from_json(f.path, mkuid(7), strict), mkuid(7));
    c.transition();
}

int main(int argc, char **argv)
{
    mc::Runner r(argc, argv, "C39");
    r.explain("Every execution saves messages with the real code and loads them back, or loads a file with one part changed. HighFive is replaced by a stand-in that keeps data sets in memory; rapidjson is real and aborts when a value is used as of another type.");
    r.assume("HighFive and HDF5 keep what is written into them");
    const bool t = r.thorough();
    r.scenario("round trip", round_trip(t ? 3 : 2), {3, 30, "up to 2 (3) messages, 5 steps up to 2^40, 4 lists of spikes, JSON and HDF5 with 3 times per step"});
    r.scenario("steps", all_steps(t ? 512 : 8, 4096), {2, 60, "all steps below 32768 (2 millions) for JSON and 7 times per step"});
    r.scenario("foreign", foreign, {3, 30, "HDF5 files with every combination of missing, other and wrong parts"});
    r.scenario("malformed", malformed, {3, 30, "every value of a JSON file replaced by 18 others, left out or doubled; every prefix of it"});
    r.scenario("reordered", reordered, {3, 30, "members and attributes of a JSON file in other orders, with another attribute before them"});
    return r.finish();
}
