// Stateless explicit enumeration of every choice vector of a bounded scenario, run against the real code.
//
// A scenario is a function void(mc::Ctx&). Everything nondeterministic in it is taken from ctx.choose(n). The explorer
// runs the scenario once for every possible vector of choices (depth first, simplest value first); no vector is sampled
// or skipped. The space is partitioned between forked worker processes by a hash of the first `split` choices. A crash
// or hang of the code under test in a worker is attributed to the vector being executed, replayed alone and reported.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc
{
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 31;
    h *= 0x7fb5d329728ea185ULL;
    h ^= h >> 27;
    return h;
}

// Hash accumulator for canonical state descriptions.
struct Hash
{
    uint64_t h = 0x1234567;
    Hash &add(uint64_t v)
    {
        h = mix(h, v);
        return *this;
    }
    Hash &addf(double d)
    {
        uint64_t u;
        memcpy(&u, &d, 8);
        return add(u);
    }
    template <class C>
    Hash &adds(const C &c)
    {
        add(c.size());
        for (const auto &x : c) add(static_cast<uint64_t>(x));
        return *this;
    }
    Hash &adds(const std::string &s)
    {
        add(s.size());
        for (char c : s) add(static_cast<unsigned char>(c));
        return *this;
    }
};

struct Violation
{
    std::string msg;
};
struct Prune
{
};

constexpr size_t max_choices = 1 << 16;

struct Slot
{
    volatile uint64_t execs;
    volatile uint32_t len;
    volatile uint32_t done;
    volatile uint16_t vec[max_choices];
};

struct Choice
{
    uint16_t v, n;
};

class Runner;

class Ctx
{
public:
    // Nondeterministic choice of a value 0..n-1.
    int choose(int n, const char * = nullptr)
    {
        if (n <= 0) hard("choose(0)");
        if (n == 1) return 0;
        if (pos_ < stack_.size())
        {
            if (replay_)
            {
                if (stack_[pos_].v >= n) hard("replayed choice out of range");
                stack_[pos_].n = n;
            }
            else if (stack_[pos_].n != n)
                hard("divergence: a choice point has another arity than in the previous execution");
        }
        else
        {
            if (pos_ >= max_choices) hard("too many choices in one execution");
            stack_.push_back({0, static_cast<uint16_t>(n)});
        }
        const int r = stack_[pos_].v;
        if (slot_)
        {
            slot_->vec[pos_] = r;
            slot_->len = pos_ + 1;
        }
        prefix_hash_ = mix(prefix_hash_, r + 1);
        ++pos_;
        if (!replay_ && pos_ == split_)
        {
            if (!owned()) throw Prune{};
        }
        return r;
    }
    bool flag() { return choose(2) == 1; }
    template <class T>
    const T &pick(const std::vector<T> &v)
    {
        return v[choose(static_cast<int>(v.size()))];
    }

    bool verbose() const { return verbose_; }
    template <class... A>
    void log(const A &...a)
    {
        if (!verbose_) return;
        std::ostringstream os;
        (os << ... << a);
        log_.push_back(os.str());
    }
    void transition(uint64_t n = 1) { transitions_ += n; }
    void state(uint64_t h)
    {
        if (states_->size() < 3000000) states_->insert(mix(h, scen_hash_));
    }
    void state(const Hash &h) { state(h.h); }
    void outcome(uint64_t h) { outcomes_->insert(mix(h, scen_hash_)); }
    void outcome(const Hash &h) { outcome(h.h); }

    template <class... A>
    [[noreturn]] void fail(const A &...a)
    {
        std::ostringstream os;
        (os << ... << a);
        throw Violation{os.str()};
    }
    template <class... A>
    void check(bool ok, const A &...a)
    {
        if (!ok) fail(a...);
    }
    // The behaviour described by a listed known finding was observed. Fails if the finding is not listed.
    template <class... A>
    void known(const std::string &key, const A &...a)
    {
        std::ostringstream os;
        (os << ... << a);
        if (!listed_->count(key)) throw Violation{os.str()};
        known_hits_->insert(key);
        log("known finding ", key);
    }
    bool is_listed(const std::string &key) const { return listed_->count(key) != 0; }
    [[noreturn]] void prune() { throw Prune{}; }
    bool thorough() const { return thorough_; }
    // Depth in choices made so far.
    size_t position() const { return pos_; }

private:
    friend class Runner;
    bool owned()
    {
        owned_known_ = true;
        owned_ = (mix(prefix_hash_, 77) % workers_) == worker_;
        return owned_;
    }
    [[noreturn]] void hard(const char *m)
    {
        fprintf(stderr, "MC-HARD-ERROR: %s\n", m);
        fflush(stderr);
        _exit(70);
    }
    void begin()
    {
        pos_ = 0;
        prefix_hash_ = 99;
        owned_known_ = false;
        owned_ = false;
        log_.clear();
        transitions_ = 0;
        if (slot_) slot_->len = 0;
    }
    std::vector<Choice> stack_;
    size_t pos_ = 0;
    bool replay_ = false;
    bool verbose_ = false;
    bool thorough_ = false;
    bool owned_known_ = false, owned_ = false;
    uint64_t prefix_hash_ = 0, scen_hash_ = 0;
    uint32_t split_ = 3, workers_ = 1, worker_ = 0;
    uint64_t transitions_ = 0;
    Slot *slot_ = nullptr;
    std::vector<std::string> log_;
    std::unordered_set<uint64_t> *states_ = nullptr, *outcomes_ = nullptr;
    const std::set<std::string> *listed_ = nullptr;
    std::set<std::string> *known_hits_ = nullptr;
};

using Body = std::function<void(Ctx &)>;

struct ScenarioOptions
{
    uint32_t split = 3;        // choices in the prefix that decides the owning worker
    double hang_s = 25;        // no execution finishing for so long is suspected to be a hang
    std::string bound;         // description of the bound for the evidence
};

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string json_escape(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o;
}

class Runner
{
public:
    Runner(int argc, char **argv, const std::string &property) : property_(property), t0_(now())
    {
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--tier")
                thorough_ = next() == "thorough";
            else if (a == "--seed")
                seed_ = atoll(next().c_str());
            else if (a == "--evidence")
                evidence_ = next();
            else if (a == "--known")
                known_file_ = next();
            else if (a == "--replays")
                replay_dir_ = next();
            else if (a == "--replay")
                replay_file_ = next();
            else if (a == "--workers")
                nworkers_ = atoi(next().c_str());
            else if (a == "--only")
                only_ = next();
            else if (a == "--trace")
                trace_ = next();
            else if (a == "--deadline")
                deadline_s_ = atof(next().c_str());
        }
        if (!deadline_s_) deadline_s_ = thorough_ ? 3000 : 500;
        load_known();
        signal(SIGPIPE, SIG_IGN);
    }
    bool thorough() const { return thorough_; }
    void assume(const std::string &s) { assumptions_.push_back(s); }
    void explain(const std::string &s) { explanation_ = s; }
    // Extra models/coverage counters for the evidence.
    void extra(const std::string &k, uint64_t v) { extra_[k] = v; }

    void scenario(const std::string &name, const Body &body, ScenarioOptions opt = {})
    {
        if (!only_.empty() && name.find(only_) == std::string::npos) return;
        if (!replay_file_.empty())
        {
            replay_mode(name, body, opt);
            return;
        }
        if (!trace_.empty())
        {
            trace_mode(name, body, opt);
            return;
        }
        // What is found already is enough when the rest could take long.
        if (violations_ >= 3 || (violations_ && (hang_found_ || now() - t0_ > 150))) return;
        explore(name, body, opt);
    }

    int finish()
    {
        if (!replay_file_.empty() || !trace_.empty()) return replay_rc_;
        for (const auto &k : hits_)
            printf("KNOWN-FINDING: property=%s %s: %s\n", property_.c_str(), k.c_str(), listed_desc_[k].c_str());
        write_evidence();
        printf(
            "%s: executions=%llu transitions=%llu states=%llu outcomes=%llu exhaustive=%s wall=%.1fs\n",
            property_.c_str(), (unsigned long long)execs_, (unsigned long long)transitions_,
            (unsigned long long)states_.size(), (unsigned long long)outcomes_.size(), capped_ || violations_ || error_ ? "no" : "yes",
            now() - t0_);
        fflush(stdout);
        if (error_) return violations_ ? 1 : 3;
        return violations_ ? 1 : 0;
    }

private:
    struct WorkerResult
    {
        uint64_t execs = 0, transitions = 0, finals = 0;
        bool capped = false, violated = false, crashed = false, hung = false, hard = false;
        std::string msg;
        std::vector<uint16_t> vec;
        std::vector<std::vector<uint16_t>> samples;
        std::string kind;  // of a hang that was replayed already
        std::vector<std::string> log;
    };

    void load_known()
    {
        std::ifstream f(known_file_);
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string kind, prop, key;
            is >> kind >> prop >> key;
            if (kind != "known:" || prop != "property=" + property_ || key.rfind("key=", 0) != 0) continue;
            std::string rest;
            std::getline(is, rest);
            if (!rest.empty() && rest[0] == ' ') rest = rest.substr(1);
            listed_.insert(key.substr(4));
            listed_desc_[key.substr(4)] = rest;
        }
    }

    static uint64_t name_hash(const std::string &n)
    {
        Hash h;
        h.adds(n);
        return h.h;
    }

    // Runs one execution. Returns true if complete (not pruned).
    static bool run_one(Ctx &c, const Body &body, std::string &viol, bool &violated)
    {
        c.begin();
        violated = false;
        try
        {
            body(c);
        }
        catch (const Prune &)
        {
            return false;
        }
        catch (const Violation &v)
        {
            violated = true;
            viol = v.msg;
            return true;
        }
        catch (const std::exception &e)
        {
            violated = true;
            viol = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
            return true;
        }
        if (!c.replay_ && c.pos_ != c.stack_.size()) c.hard("divergence: execution made fewer choices than its prefix");
        return true;
    }

    static std::vector<uint16_t> vec_of(const Ctx &c)
    {
        std::vector<uint16_t> v;
        for (size_t i = 0; i < c.pos_ && i < c.stack_.size(); ++i) v.push_back(c.stack_[i].v);
        return v;
    }

    void setup(Ctx &c, const std::string &name, const ScenarioOptions &opt)
    {
        c.scen_hash_ = name_hash(name);
        c.split_ = opt.split;
        c.workers_ = nworkers_;
        c.thorough_ = thorough_;
        c.states_ = &states_;
        c.outcomes_ = &outcomes_;
        c.listed_ = &listed_;
        c.known_hits_ = &hits_;
    }

    std::string tmp(const std::string &s)
    {
        return replay_dir_ + "/." + property_ + "." + std::to_string(getpid()) + "." + s;
    }

    static void dump_set(FILE *f, const std::unordered_set<uint64_t> &s)
    {
        uint64_t n = s.size();
        fwrite(&n, 8, 1, f);
        for (uint64_t v : s) fwrite(&v, 8, 1, f);
    }
    static void dump_str(FILE *f, const std::string &s)
    {
        uint64_t n = s.size();
        fwrite(&n, 8, 1, f);
        fwrite(s.data(), 1, n, f);
    }
    static void dump_vec(FILE *f, const std::vector<uint16_t> &s)
    {
        uint64_t n = s.size();
        fwrite(&n, 8, 1, f);
        fwrite(s.data(), 2, n, f);
    }
    static uint64_t rd(FILE *f)
    {
        uint64_t n = 0;
        if (fread(&n, 8, 1, f) != 1) return 0;
        return n;
    }
    static std::string rd_str(FILE *f)
    {
        std::string s(rd(f), 0);
        if (fread(&s[0], 1, s.size(), f) != s.size()) return "";
        return s;
    }
    static std::vector<uint16_t> rd_vec(FILE *f)
    {
        std::vector<uint16_t> s(rd(f));
        if (fread(s.data(), 2, s.size(), f) != s.size()) return {};
        return s;
    }

    void redirect_stderr(const std::string &file)
    {
        int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(fd, 2);
        close(fd);
    }

    static std::string tail(const std::string &file, size_t n = 3000)
    {
        std::ifstream f(file);
        std::stringstream s;
        s << f.rdbuf();
        std::string t = s.str();
        // The first part of a sanitizer report is the useful one.
        auto p = t.find("ERROR: AddressSanitizer");
        if (p != std::string::npos) t = t.substr(p);
        return t.size() > n ? t.substr(0, n) : t;
    }

    // stop_at: stop after this many executions (session replay).
    void worker(
        int w, const std::string &name, const Body &body, const ScenarioOptions &opt, Slot *slot,
        const std::string &out, double deadline, const std::vector<uint16_t> *watch)
    {
        redirect_stderr(out + ".err");
        states_.clear();
        outcomes_.clear();
        hits_.clear();
        Ctx c;
        setup(c, name, opt);
        c.worker_ = w;
        c.slot_ = slot;
        WorkerResult r;
        uint64_t n = 0;
        std::vector<std::string> log;
        for (;;)
        {
            std::string msg;
            bool violated;
            if (watch)
            {
                // Verbose exactly for the watched vector.
                c.verbose_ = c.stack_.size() <= watch->size() &&
                             std::equal(c.stack_.begin(), c.stack_.end(), watch->begin(),
                                        [](const Choice &a, uint16_t b) { return a.v == b; });
            }
            const bool complete = run_one(c, body, msg, violated);
            slot->execs = ++n;
            if (complete)
            {
                const bool mine = c.owned_known_ ? c.owned_ : c.owned();
                if (mine || violated)
                {
                    ++r.execs;
                    r.transitions += c.transitions_;
                    if ((r.execs & (r.execs - 1)) == 0 && r.samples.size() < 40) r.samples.push_back(vec_of(c));
                    if (violated)
                    {
                        r.violated = true;
                        r.msg = msg;
                        r.vec = vec_of(c);
                        log = c.log_;
                        break;
                    }
                }
            }
            else
                r.transitions += 0;
            c.stack_.resize(c.pos_);
            while (!c.stack_.empty() && c.stack_.back().v + 1 >= c.stack_.back().n) c.stack_.pop_back();
            if (c.stack_.empty()) break;
            ++c.stack_.back().v;
            if (now() > deadline)
            {
                r.capped = true;
                break;
            }
        }
        slot->done = 1;
        FILE *f = fopen(out.c_str(), "wb");
        uint64_t hdr[4] = {r.execs, r.transitions, r.capped, r.violated};
        fwrite(hdr, 8, 4, f);
        dump_str(f, r.msg);
        dump_vec(f, r.vec);
        uint64_t ns = r.samples.size();
        fwrite(&ns, 8, 1, f);
        for (auto &s : r.samples) dump_vec(f, s);
        dump_set(f, states_);
        dump_set(f, outcomes_);
        uint64_t nh = hits_.size();
        fwrite(&nh, 8, 1, f);
        for (auto &k : hits_) dump_str(f, k);
        uint64_t nl = log.size();
        fwrite(&nl, 8, 1, f);
        for (auto &k : log) dump_str(f, k);
        fclose(f);
        fflush(stdout);
        _exit(0);
    }

    struct ReplayResult
    {
        bool violated = false, crashed = false, hung = false;
        std::string msg;
        std::vector<std::string> log;
    };

    // Replays one vector, verbosely, alone in a fresh process.
    ReplayResult replay(
        const std::string &name, const Body &body, const ScenarioOptions &opt, const std::vector<uint16_t> &vec,
        double limit)
    {
        const std::string out = tmp("replay");
        unlink(out.c_str());
        fflush(stdout);
        pid_t p = fork();
        if (!p)
        {
            redirect_stderr(out + ".err");
            Ctx c;
            setup(c, name, opt);
            c.replay_ = true;
            c.verbose_ = true;
            for (auto v : vec) c.stack_.push_back({v, static_cast<uint16_t>(v + 1)});
            std::string msg;
            bool violated;
            // Log lines are also written eagerly so that they survive a crash.
            run_one(c, body, msg, violated);
            FILE *f = fopen(out.c_str(), "wb");
            uint64_t v = violated;
            fwrite(&v, 8, 1, f);
            dump_str(f, msg);
            uint64_t nl = c.log_.size();
            fwrite(&nl, 8, 1, f);
            for (auto &k : c.log_) dump_str(f, k);
            fclose(f);
            _exit(0);
        }
        ReplayResult r;
        const double end = now() + limit;
        int st = 0;
        for (;;)
        {
            pid_t q = waitpid(p, &st, WNOHANG);
            if (q == p) break;
            if (now() > end)
            {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                r.hung = true;
                r.msg = "the execution does not terminate (hang)";
                break;
            }
            usleep(2000);
        }
        if (!r.hung)
        {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            {
                FILE *f = fopen(out.c_str(), "rb");
                if (f)
                {
                    r.violated = rd(f);
                    r.msg = rd_str(f);
                    uint64_t nl = rd(f);
                    for (uint64_t i = 0; i < nl; ++i) r.log.push_back(rd_str(f));
                    fclose(f);
                }
            }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 70)
                r.msg = tail(out + ".err");
            else
            {
                r.crashed = true;
                r.msg = "the code under test crashed (" +
                        (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                         : "exit " + std::to_string(WEXITSTATUS(st))) +
                        ")\n" + tail(out + ".err");
            }
        }
        unlink(out.c_str());
        unlink((out + ".err").c_str());
        return r;
    }

    void report(
        const std::string &name, const ScenarioOptions &opt, const std::vector<uint16_t> &vec, const std::string &kind,
        const std::string &msg, const std::vector<std::string> &log)
    {
        ++violations_;
        Hash h;
        h.adds(name).adds(vec);
        char id[32];
        snprintf(id, sizeof id, "%016llx", (unsigned long long)h.h);
        const std::string path = replay_dir_ + "/" + property_ + "-" + id + ".replay";
        std::ofstream f(path);
        f << "property " << property_ << "\nscenario " << name << "\ntier " << (thorough_ ? "thorough" : "quick")
          << "\nkind " << kind << "\nvector";
        for (auto v : vec) f << ' ' << v;
        f << "\n\nwhat: " << msg << "\n\nhistory:\n";
        for (auto &l : log) f << "  " << l << "\n";
        f.close();
        printf("scenario %s: %s\n", name.c_str(), msg.c_str());
        for (size_t i = 0; i < log.size() && i < 60; ++i) printf("    %s\n", log[i].c_str());
        printf("VIOLATION property=%s replay=%s\n", property_.c_str(), path.c_str());
        fflush(stdout);
    }

    void explore(const std::string &name, const Body &body, const ScenarioOptions &opt)
    {
        const double t_start = now();
        if (now() - t0_ > deadline_s_)
        {
            capped_ = true;
            scen_json_.push_back("{\"scenario\":\"" + json_escape(name) + "\",\"skipped\":\"deadline\"}");
            return;
        }
        Slot *slots = static_cast<Slot *>(mmap(
            nullptr, sizeof(Slot) * nworkers_, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        const double deadline = t0_ + deadline_s_;
        std::vector<pid_t> pids(nworkers_);
        std::vector<WorkerResult> res(nworkers_);
        std::vector<double> last(nworkers_, now());
        std::vector<uint64_t> last_n(nworkers_, 0);
        const std::string base = tmp("w");
        fflush(stdout);
        auto spawn = [&](int w)
        {
            unlink((base + std::to_string(w)).c_str());
            slots[w].execs = 0;
            slots[w].done = 0;
            slots[w].len = 0;
            last[w] = now();
            last_n[w] = 0;
            pid_t p = fork();
            if (!p) worker(w, name, body, opt, &slots[w], base + std::to_string(w), deadline, nullptr);
            pids[w] = p;
        };
        std::vector<double> limit(nworkers_, opt.hang_s);
        for (int w = 0; w < nworkers_; ++w) spawn(w);
        int alive = nworkers_;
        while (alive)
        {
            bool any = false;
            for (int w = 0; w < nworkers_; ++w)
            {
                if (!pids[w]) continue;
                int st;
                pid_t q = waitpid(pids[w], &st, WNOHANG);
                if (q == pids[w])
                {
                    any = true;
                    pids[w] = 0;
                    --alive;
                    WorkerResult &r = res[w];
                    const std::string file = base + std::to_string(w);
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                    {
                        FILE *f = fopen(file.c_str(), "rb");
                        if (f)
                        {
                            uint64_t hdr[4];
                            if (fread(hdr, 8, 4, f) == 4)
                            {
                                r.execs = hdr[0];
                                r.transitions = hdr[1];
                                r.capped = hdr[2];
                                r.violated = hdr[3];
                                r.msg = rd_str(f);
                                r.vec = rd_vec(f);
                                uint64_t ns = rd(f);
                                for (uint64_t i = 0; i < ns; ++i) r.samples.push_back(rd_vec(f));
                                uint64_t n = rd(f);
                                for (uint64_t i = 0; i < n; ++i) states_.insert(rd(f));
                                n = rd(f);
                                for (uint64_t i = 0; i < n; ++i) outcomes_.insert(rd(f));
                                n = rd(f);
                                for (uint64_t i = 0; i < n; ++i) hits_.insert(rd_str(f));
                                n = rd(f);
                                std::vector<std::string> log;
                                for (uint64_t i = 0; i < n; ++i) log.push_back(rd_str(f));
                            }
                            fclose(f);
                        }
                    }
                    else
                    {
                        r.crashed = true;
                        if (WIFEXITED(st) && WEXITSTATUS(st) == 70)
                        {
                            r.hard = true;
                        }
                        r.msg = tail(file + ".err");
                        for (uint32_t i = 0; i < slots[w].len; ++i) r.vec.push_back(uint16_t(slots[w].vec[i]));
                        r.execs = slots[w].execs;
                    }
                    continue;
                }
                if (slots[w].execs != last_n[w])
                {
                    last_n[w] = slots[w].execs;
                    last[w] = now();
                }
                else if (!slots[w].done && now() - last[w] > limit[w])
                {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    std::vector<uint16_t> vec;
                    for (uint32_t i = 0; i < slots[w].len; ++i) vec.push_back(uint16_t(slots[w].vec[i]));
                    // Alone and with a longer limit, before calling it a hang.
                    ReplayResult rr = replay(name, body, opt, vec, 4 * opt.hang_s);
                    if (rr.hung || rr.violated || rr.crashed || limit[w] > opt.hang_s)
                    {
                        res[w].hung = true;
                        res[w].vec = vec;
                        res[w].msg = rr.msg.empty() ? "the execution does not terminate (hang)" : rr.msg;
                        res[w].log = rr.log;
                        if (rr.hung || rr.violated || rr.crashed) res[w].kind = rr.violated ? "check" : rr.crashed ? "crash" : "hang";
                        pids[w] = 0;
                        --alive;
                        break;  // the others may hang too
                    }
                    else
                    {
                        limit[w] = 6 * opt.hang_s;
                        spawn(w);
                    }
                }
            }
            if (!any) usleep(1000);
            // Stop early once a violation is known.
            bool bad = false;
            for (auto &r : res) bad |= r.violated || r.crashed || r.hung;
            if (bad)
                for (int w = 0; w < nworkers_; ++w)
                    if (pids[w])
                    {
                        kill(pids[w], SIGKILL);
                        int st2;
                        waitpid(pids[w], &st2, 0);
                        pids[w] = 0;
                        --alive;
                    }
        }
        for (int w = 0; w < nworkers_; ++w)
        {
            unlink((base + std::to_string(w)).c_str());
            unlink((base + std::to_string(w) + ".err").c_str());
        }
        munmap(slots, sizeof(Slot) * nworkers_);
        uint64_t ex = 0, tr = 0;
        bool cap = false;
        std::vector<std::vector<uint16_t>> samples;
        int best = -1;
        for (int w = 0; w < nworkers_; ++w)
        {
            ex += res[w].execs;
            tr += res[w].transitions;
            cap |= res[w].capped;
            for (auto &s : res[w].samples) samples.push_back(s);
            if (res[w].violated || res[w].crashed || res[w].hung)
                if (best < 0 || res[w].vec.size() < res[best].vec.size()) best = w;
        }
        execs_ += ex;
        transitions_ += tr;
        capped_ |= cap;
        if (best >= 0)
        {
            WorkerResult &r = res[best];
            if (r.hard)
            {
                error_ = true;
                printf("ERROR scenario %s: %s\n", name.c_str(), r.msg.c_str());
            }
            else if (!r.kind.empty())
            {
                hang_found_ = true;
                report(name, opt, r.vec, r.kind, r.msg, r.log);
            }
            else
            {
                ReplayResult rr = replay(name, body, opt, r.vec, 4 * opt.hang_s);
                if (rr.violated || rr.crashed || rr.hung)
                    report(name, opt, r.vec, rr.violated ? "check" : (rr.crashed ? "crash" : "hang"), rr.msg, rr.log);
                else if (r.hung)
                {
                    error_ = true;
                    printf("ERROR scenario %s: suspected hang did not reproduce\n", name.c_str());
                }
                else
                {
                    // Not reproduced alone: depends on state left by earlier executions of the same process.
                    report(
                        name, opt, r.vec, "session",
                        "(only after the executions that precede it in one process: state leaks between "
                        "executions) " + r.msg,
                        rr.log);
                }
            }
        }
        // Determinism: the first sample twice, and a few samples for the evidence.
        std::vector<std::string> sample_json;
        std::sort(samples.begin(), samples.end());
        samples.erase(std::unique(samples.begin(), samples.end()), samples.end());
        if (best < 0 && !samples.empty())
        {
            for (size_t k : {size_t(0), samples.size() / 2, samples.size() - 1})
            {
                ReplayResult a = replay(name, body, opt, samples[k], 8 * opt.hang_s);
                if (k == samples.size() / 2)
                {
                    ReplayResult b = replay(name, body, opt, samples[k], 8 * opt.hang_s);
                    if (a.log != b.log || a.violated != b.violated)
                    {
                        error_ = true;
                        printf("ERROR scenario %s: an execution is not deterministic\n", name.c_str());
                        for (size_t i = 0; i < a.log.size() || i < b.log.size(); ++i)
                        {
                            std::string x = i < a.log.size() ? a.log[i] : "<none>", y = i < b.log.size() ? b.log[i] : "<none>";
                            if (x != y)
                            {
                                printf("  first : %s\n  second: %s\n", x.c_str(), y.c_str());
                                break;
                            }
                        }
                    }
                }
                std::string j = "{\"scenario\":\"" + json_escape(name) + "\",\"choices\":[";
                for (size_t i = 0; i < samples[k].size() && i < 60; ++i)
                    j += (i ? "," : "") + std::to_string(samples[k][i]);
                j += "],\"history\":[";
                for (size_t i = 0; i < a.log.size() && i < 25; ++i)
                    j += std::string(i ? "," : "") + "\"" + json_escape(a.log[i].substr(0, 300)) + "\"";
                j += "]}";
                if (sample_json.size() < 2 || sample_json.back() != j) sample_json.push_back(j);
                if (samples.size() == 1) break;
            }
        }
        for (size_t i = 0; i < sample_json.size(); ++i)
            if (samples_json_.size() < 24) samples_json_.push_back(sample_json[i]);
        std::ostringstream os;
        os << "{\"scenario\":\"" << json_escape(name) << "\",\"executions\":" << ex << ",\"transitions\":" << tr
           << ",\"complete\":" << (cap || best >= 0 ? "false" : "true") << ",\"bound\":\"" << json_escape(opt.bound)
           << "\"}";
        scen_json_.push_back(os.str());
        printf(
            "scenario %-28s executions=%-9llu transitions=%-10llu %s %.1fs\n", name.c_str(), (unsigned long long)ex,
            (unsigned long long)tr, cap ? "CAPPED" : (best >= 0 ? "VIOLATED" : "complete"), now() - t_start);
        fflush(stdout);
    }

    void replay_mode(const std::string &name, const Body &body, const ScenarioOptions &opt)
    {
        std::ifstream f(replay_file_);
        std::string line, scen;
        std::vector<uint16_t> vec;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "scenario") is >> scen;
            if (k == "vector")
            {
                int v;
                while (is >> v) vec.push_back(v);
            }
            if (line.empty()) break;
        }
        if (scen != name) return;
        ReplayResult r = replay(name, body, opt, vec, 4 * opt.hang_s);
        for (auto &l : r.log) printf("  %s\n", l.c_str());
        if (r.violated || r.crashed || r.hung)
        {
            printf("REPRODUCED: %s\n", r.msg.c_str());
            replay_rc_ = 1;
        }
        else
            printf("not reproduced %s\n", r.msg.c_str());
    }

    void trace_mode(const std::string &name, const Body &body, const ScenarioOptions &opt)
    {
        std::vector<uint16_t> vec;
        std::istringstream is(trace_);
        int v;
        while (is >> v) vec.push_back(v);
        ReplayResult r = replay(name, body, opt, vec, 4 * opt.hang_s);
        printf("scenario %s\n", name.c_str());
        for (auto &l : r.log) printf("  %s\n", l.c_str());
        printf("%s\n", r.msg.c_str());
    }

    void write_evidence()
    {
        if (evidence_.empty()) return;
        std::ofstream f(evidence_ + ".tmp");
        f << "{\n\"property\":\"" << property_ << "\",\n\"tier\":\"" << (thorough_ ? "thorough" : "quick")
          << "\",\n\"seed\":" << seed_ << ",\n\"level\":\"model_checking\",\n\"coverage\":{\n\"states\":"
          << states_.size() << ",\n\"transitions\":" << transitions_
          << ",\n\"traces_validated_against_impl\":" << execs_ << ",\n\"distinct_outcomes\":" << outcomes_.size()
          << ",\n\"exhaustive\":" << (capped_ || violations_ ? "false" : "true") << ",\n\"explanation\":\""
          << json_escape(explanation_) << "\"";
        for (auto &e : extra_) f << ",\n\"" << e.first << "\":" << e.second;
        f << ",\n\"scenarios\":[";
        for (size_t i = 0; i < scen_json_.size(); ++i) f << (i ? ",\n" : "\n") << scen_json_[i];
        f << "],\n\"samples\":[";
        for (size_t i = 0; i < samples_json_.size(); ++i) f << (i ? ",\n" : "\n") << samples_json_[i];
        f << "]},\n\"assumptions\":[";
        for (size_t i = 0; i < assumptions_.size(); ++i)
            f << (i ? "," : "") << "\"" << json_escape(assumptions_[i]) << "\"";
        f << "],\n\"wall_s\":" << (now() - t0_) << ",\n\"violations\":" << violations_ << "\n}\n";
        f.close();
        rename((evidence_ + ".tmp").c_str(), evidence_.c_str());
    }

    std::string property_, evidence_, known_file_, replay_dir_ = "/tmp", replay_file_, only_, trace_, explanation_;
    bool thorough_ = false, capped_ = false, error_ = false;
    long long seed_ = 1;
    int nworkers_ = 8, violations_ = 0, replay_rc_ = 0;
    bool hang_found_ = false;
    double deadline_s_ = 0, t0_;
    uint64_t execs_ = 0, transitions_ = 0;
    std::unordered_set<uint64_t> states_, outcomes_;
    std::set<std::string> listed_, hits_;
    std::map<std::string, std::string> listed_desc_;
    std::map<std::string, uint64_t> extra_;
    std::vector<std::string> assumptions_, scen_json_, samples_json_;
};

}  // namespace mc
