// Choice-sequence property-based testing core: deterministic generation from a seed, crash/hang
// isolation in forked workers, shrinking on the recorded choice sequence, replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

struct Failure { std::string msg; };          // property violated
struct Discard { std::string why; };          // case outside the domain

// ---- source of choices ------------------------------------------------------------------------
class Src {
public:
    static constexpr size_t MAXC = 1 << 16;
    Src(uint64_t seed, uint32_t *log, volatile uint32_t *nlog) : s_(seed), log_(log), nlog_(nlog) { *nlog_ = 0; }
    Src(const std::vector<uint32_t> &replay, uint32_t *log, volatile uint32_t *nlog)
        : replaying_(true), rep_(replay), log_(log), nlog_(nlog) { *nlog_ = 0; }
    // uniform in [0,bound); 0 is the simplest choice
    uint32_t draw(uint32_t bound) {
        if (bound <= 1) return 0;
        uint32_t v;
        if (replaying_) v = pos_ < rep_.size() ? rep_[pos_] : 0;
        else v = (uint32_t)((next() >> 32) % bound);
        if (v >= bound) v = v % bound;
        pos_++;
        if (*nlog_ < MAXC) { log_[*nlog_] = v; *nlog_ = *nlog_ + 1; } else v = 0;
        return v;
    }
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }      // 0 -> false
    int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }   // inclusive; lo simplest
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }
    // weighted index; index 0 is the simplest
    int weighted(std::initializer_list<int> w) {
        int tot = 0; for (int x : w) tot += x;
        int r = (int)draw(tot), i = 0;
        for (int x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    bool exhausted() const { return *nlog_ >= MAXC; }
private:
    uint64_t next() { uint64_t z = (s_ += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t s_ = 0; bool replaying_ = false; std::vector<uint32_t> rep_; size_t pos_ = 0;
    uint32_t *log_; volatile uint32_t *nlog_;
};

// ---- one generated case -----------------------------------------------------------------------
struct Case {
    bool nontrivial = false;
    std::string desc;                       // canonical, human readable description of the case
    std::map<std::string, int> labels;      // feature counters
    uint64_t sub = 0;                       // extra evaluations inside the case (e.g. fault points)
    uint64_t index = 0;                     // index of the case in the run
    bool verbose = false;                   // replaying
    int tier = 0;                           // 0 quick 1 thorough
    void label(const std::string &s, int n = 1) { labels[s] += n; }
    [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
    [[noreturn]] void discard(const std::string &m) { throw Discard{m}; }
    void check(bool c, const std::string &m) { if (!c) fail(m); }
    void eq(const std::string &what, const std::string &got, const std::string &want);
};

struct Prop {
    const char *id;
    const char *rule;                       // how cases are made, what is non-trivial
    std::function<void(Src &, Case &)> run;
    uint64_t quick_cases, thorough_cases;   // fixed number of cases per tier
    std::function<void()> worker_init;      // optional, once per worker process
};
std::vector<Prop> &registry();
struct Reg { Reg(Prop p) { registry().push_back(std::move(p)); } };

std::string quote(const std::string &s);    // printable rendering
uint64_t hash64(const std::string &s);
extern std::string g_tmpdir;                // scratch directory of this run (removed by the driver)
extern std::string g_cli;                   // path of the command line tool built for the checks
