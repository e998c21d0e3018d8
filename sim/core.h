// Cases (one seeded scenario each), their replay files, and the context a property check runs in.
#pragma once
#include <functional>
#include <set>
#include <unordered_set>

#include "rt.h"

struct Case {
    std::string prop;
    u64 seed = 0;                              // PRNG seed this case was generated from
    u64 index = 0;
    Fs fs;                                     // simulated file system at the start
    std::vector<RunSpec> runs;                 // the scripted runs
    std::map<std::string, std::string> kv;     // property specific parameters (model side)
};

std::string case_write(const Case &c);
bool case_read(const std::string &text, Case &c);
std::string esc(const std::string &s);          // printable form
std::string esc_short(const std::string &s, size_t max = 400);
std::string fault_str(const Fault &f);
std::vector<std::string> split_lines(const std::string &s);   // at \n; the last element has no newline
std::string hex(u64 v);

struct Violation {
    std::string kind;       // stable class of the violation, used by minimiser and known-findings
    std::string msg;
    std::string narrowed;   // replay text of a smaller case that shows the same violation, or empty
};

struct Stats {
    u64 cases = 0, nontrivial = 0, runs = 0, steps = 0, simus = 0, allocs = 0;
    u64 fired[OP_NUM][ACT_NUM] = {};
    std::map<std::string, u64> probes;          // "this condition was reached"
    std::map<std::string, u64> errnos;          // injected errno values that fired, by operation
    std::map<std::string, u64> exits;           // how simulated processes ended
    std::unordered_set<u64> hashes;             // distinct histories (event log + outcome)
    std::unordered_set<u64> nthashes;           // distinct non-trivial cases
    std::vector<std::string> samples;
    std::string ser() const;
    void merge(const std::string &s);
};

struct Ctx {
    Stats *st;
    bool verbose = false;
    std::vector<Violation> viol;
    u64 hash = 14695981039346656037ull;        // over all runs of this case, for exact-replay checks
    bool nontrivial = false;
    int tier = 0;                              // 0 quick, 1 thorough
    Outcome run(const RunSpec &r, const Fs &fs);
    const Case *narrow = nullptr;              // set while one element of a sweep is evaluated
    void fail(const std::string &kind, const std::string &msg) { viol.push_back({kind, msg, narrow ? case_write(*narrow) : ""}); }
    void probe(const std::string &name) { if (st) ++st->probes[name]; }
};

// what the minimiser may touch
enum { MIN_FAULTS = 1, MIN_KNOBS = 2, MIN_ARGS = 4, MIN_ENV = 8, MIN_FS = 16, MIN_TEXT = 32, MIN_STDIN = 64, MIN_KV = 128,
       MIN_RUNS = 256,
       MIN_LOCK = 512 };     // the runs belong together: arguments and environment are removed from all of them at once

struct Prop {
    const char *id;
    void (*gen)(Case &c, Rng &r, int tier);
    void (*check)(const Case &c, Ctx &x);
    int min_flags;
    u64 quick_cases, thorough_cases;
    const char *level;      // exploration | fault_enumeration
    const char *rule;       // how cases are made / what counts as non-trivial
};
extern const Prop props[];
extern const int num_props;
const Prop *find_prop(const std::string &id);
Case make_case(const Prop &p, u64 seed, u64 index, int tier);
void run_check(const Prop &p, const Case &c, Ctx &x);
Case minimise(const Prop &p, const Case &c, const std::string &kind, int budget, int *used, int tier);
