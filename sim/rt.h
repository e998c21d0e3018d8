// Simulated operating system for one boxes process.
//
// Every call boxes makes that reaches outside its own address space (files, directories, standard streams, memory,
// clock, randomness, process identity, terminal database) ends in rt.cpp, which answers it from the RunSpec alone.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- PRNG (splitmix64 / one seed decides everything)
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64) below((u64) (hi - lo + 1)); }  // inclusive
    bool chance(int pct) { return (int) below(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
u64 mix(u64 a, u64 b);
u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull);
inline u64 hash_str(const std::string &s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

// ---------------------------------------------------------------- simulated file system
struct FNode {
    char type = 'f';        // 'f' regular file, 'd' directory
    std::string data;
    int openerr = 0;        // errno of every attempt to open it (0: opens normally)
    int staterr = 0;        // errno of every attempt to stat it
    i64 mtime = 0;          // last change (wall clock); 0: some time before the run, derived from its seed and the path
    bool operator==(const FNode &o) const { return type == o.type && data == o.data; }
};
typedef std::map<std::string, FNode> Fs;

// ---------------------------------------------------------------- operations, faults, environment events
enum Op { OP_ANY, OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_OPENDIR, OP_ALLOC, OP_SEEK, OP_MUTATE, OP_CLOCK, OP_TERM,
          OP_MISC, OP_CONV, OP_NUM };
extern const char *op_names[OP_NUM];

enum Act {
    ACT_ERR,      // fail with errno a
    ACT_SHORT,    // transfer at most a bytes (a >= 1)
    ACT_KILL,     // the process is killed (SIGKILL) before the operation takes place
    ACT_STALL,    // the operation takes a simulated seconds
    ACT_FSOP,     // the environment changes the file system just before the operation: see FsEvent s
    ACT_NUM
};
extern const char *act_names[ACT_NUM];

struct Fault {
    Op op = OP_ANY;
    std::string obj = "*";  // path, <stdin>, <stdout>, <stderr>, or * for all
    i64 n = 0;              // zero-based occurrence of (op,obj) at which it starts to fire
    i64 cnt = 1;            // how many times it fires; -1: for ever
    i64 off = -1;           // >= 0: fire once the stream position has reached this byte (n is ignored)
    Act act = ACT_ERR;
    i64 a = 0;
    // ACT_FSOP only
    std::string fsop;       // remove | replace | truncate | create | rename
    std::string path;
    std::string data;
};

enum StdinKind { SIN_DATA, SIN_NEVER, SIN_CLOSED };

struct RunSpec {
    std::vector<std::string> argv;              // without argv[0]
    std::map<std::string, std::string> env;
    StdinKind stdin_kind = SIN_DATA;
    std::string stdin_data;
    std::string stdin_from;                     // not empty: standard input delivers the content of this file
    bool stdin_eof = true;                      // false: after the data the producer stays connected and silent
    bool tty_out = false, tty_in = false, tty_err = false;
    // knobs
    int rchunk = 0;          // max bytes one read() delivers; 0: no limit; < 0: pseudo-random up to -rchunk
    int wchunk = 0;          // same for write()
    int inbuf = 4096;        // stdio buffer size of streams opened for reading
    int outbuf = 4096;       // stdio buffer size of output streams; 0: unbuffered; -1: line buffered
    int heapfill = 0;        // byte pattern of fresh memory; 0..255, 256+: pseudo-random from that seed
    int freefill = 0xDD;     // pattern written over released memory; -1: leave the old content
    int reuse = 0;           // 1: released blocks are handed out again, last released first
    int heapskew = 0;        // bytes (times 16) of padding between blocks / start offset
    int guard = 0;           // 1: every block ends at an inaccessible page; released blocks become inaccessible
                             // 2: the same, but every block starts directly behind an inaccessible page
    int stackfill = 0;       // pattern put on the stack below main()
    int stackskew = 0;       // shifts the stack by this many 16-byte units
    int fdlimit = 1024;
    bool sigpipe_ign = false;
    i64 clock0 = 1700000000; // simulated wall clock at start
    int pid = 4242;
    u64 lat = 0;             // seed of operation latencies
    std::string cwd = "/work";
    std::map<std::string, int> termdb;          // TERM -> number of colours, absent: unknown terminal
    bool no_stderr = false;                     // started with descriptor 2 closed: the next file opened may get it
    u64 envnoise = 0;        // not 0: variables which boxes does not document have pseudo-random values
    bool termdb_broken = false;                 // terminal database unreadable
    std::vector<Fault> faults;
};

// ---------------------------------------------------------------- what one simulated run did
struct Rec {                 // one entry of the event log
    uint32_t step;
    uint16_t op;
    uint16_t obj;
    i64 arg, res;
    i64 simt;                // simulated microseconds since start
    std::string data;        // bytes actually written
    i64 off;                 // position before the operation
    i64 ino = 0;
};

enum Special { SP_NONE, SP_BLOCKED, SP_RUNAWAY, SP_CPU, SP_KILLED };

struct Outcome {
    bool exited = false;
    int code = -1;           // exit code
    int sig = 0;             // terminating signal
    Special special = SP_NONE;
    std::string out, err;    // bytes accepted by stdout / stderr
    Fs fs;                   // file system afterwards
    std::vector<std::string> objs;
    std::vector<Rec> log;
    u64 hash = 0;            // hash over log, output and result
    u64 steps = 0, allocs = 0, simus = 0;
    int maxfd = 0;           // highest number of simultaneously open descriptors beyond the three standard ones
    u64 fired[OP_NUM][ACT_NUM] = {};
    std::map<std::string, u64> fired_named;
    unsigned heapflags = 0;  // HEAP_*
    std::string heapmsg;
    std::vector<std::string> mutated;     // every path whose content or existence boxes changed or tried to change
    std::vector<std::string> opened_w, opened_r;
    bool spawned = false;
    bool close_err = false;  // a close() of a file opened for writing was made to fail
    bool werr(const std::string &obj) const;   // any write to obj failed or was cut off for ever
    std::string brief() const;
};

#define HEAP_OVERFLOW 1u
#define HEAP_DOUBLEFREE 2u
#define HEAP_BADFREE 4u
#define HEAP_UAFWRITE 8u
#define HEAP_GUARD 16u

// Execute one simulated run in a forked child.
Outcome sim_run(const RunSpec &spec, const Fs &fs);
void sim_init();            // once per worker process, before the first sim_run
extern const std::vector<const char *> conv_encodings;      // besides UTF-8
