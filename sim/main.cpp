// boxsim: seeded search, minimisation, replay and evidence.
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "core.h"

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double) ts.tv_sec + ts.tv_nsec / 1e9;
}
static std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static void spit(const std::string &p, const std::string &d) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << d;
}

struct Known {
    std::string kind, what;
};
static std::vector<Known> load_known(const std::string &file, const std::string &prop) {
    std::vector<Known> r;
    std::ifstream f(file);
    std::string line;
    while (std::getline(f, line)) {
        std::string pre = "finding: property=" + prop + " kind=";
        if (line.compare(0, pre.size(), pre) != 0) continue;
        std::string rest = line.substr(pre.size());
        size_t sp = rest.find(' ');
        r.push_back({rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1)});
    }
    return r;
}

struct Shared {
    volatile u64 min_viol;          // lowest case index with an unlisted violation so far
    volatile u64 done;
};

struct Result {
    Stats st;
    std::map<u64, std::vector<Violation>> viol;
    std::map<u64, u64> hashes;      // case index -> hash of the whole case
    std::map<std::string, u64> known_hits;
    bool crashed = false;
};

static Result sweep(const Prop &p, u64 seed, int tier, u64 first, u64 ncases, int workers, double deadline,
                    const std::vector<Known> &known, const std::string &tmpdir, u64 hash_every) {
    Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->min_viol = ~0ull;
    sh->done = 0;
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < workers; ++w) {
        pid_t pid = fork();
        if (pid == 0) {
            sim_init();
            Stats st;
            std::ostringstream extra;
            for (u64 i = first + (u64) w; i < first + ncases; i += (u64) workers) {
                if (now() > deadline) break;
                if (i > sh->min_viol) break;
                Case c = make_case(p, seed, i, tier);
                Ctx x;
                x.st = &st;
                x.tier = tier;
                run_check(p, c, x);
                ++st.cases;
                ++sh->done;
                if (x.nontrivial) {
                    ++st.nontrivial;
                    st.nthashes.insert(x.hash);
                }
                if (hash_every && (i - first) % hash_every == 0) extra << "H " << i << " " << x.hash << "\n";
                if (st.samples.size() < 2 && x.nontrivial) {
                    std::ostringstream s;
                    s << "case " << i << " (seed " << c.seed << "):";
                    for (auto &r : c.runs) {
                        s << " | boxes";
                        for (auto &a : r.argv) s << " " << esc_short(a, 60);
                        if (!r.stdin_data.empty()) s << " <<< " << esc_short(r.stdin_data, 80);
                        for (auto &f : r.faults) s << " {" << fault_str(f) << "}";
                    }
                    for (auto &k : c.kv) s << " " << k.first << "=" << esc_short(k.second, 60);
                    st.samples.push_back(s.str());
                }
                bool unlisted = false;
                for (auto &v : x.viol) {
                    bool kn = false;
                    for (auto &k : known)
                        if (k.kind == v.kind) kn = true;
                    if (kn) extra << "K " << esc(v.kind) << "\n";
                    else {
                        unlisted = true;
                        extra << "V " << i << " " << esc(v.kind) << " " << esc(v.msg) << "\n";
                    }
                }
                if (unlisted) {
                    u64 cur = sh->min_viol;
                    while (i < cur && !__sync_bool_compare_and_swap(&sh->min_viol, cur, i)) cur = sh->min_viol;
                    break;
                }
            }
            spit(tmpdir + "/w" + std::to_string(w), st.ser() + extra.str() + "OK\n");
            _exit(0);
        }
        pids.push_back(pid);
    }
    Result r;
    for (int w = 0; w < workers; ++w) {
        int status;
        waitpid(pids[w], &status, 0);
        std::string f = tmpdir + "/w" + std::to_string(w);
        std::string t = slurp(f);
        unlink(f.c_str());
        if (t.size() < 3 || t.compare(t.size() - 3, 3, "OK\n") != 0) {
            fprintf(stderr, "boxsim: worker %d ended abnormally (status %d)\n", w, status);
            r.crashed = true;
            continue;
        }
        r.st.merge(t);
        std::istringstream in(t);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            std::string k, a, b;
            u64 i, h;
            l >> k;
            if (k == "V") {
                l >> i >> a >> b;
                // a and b are escaped
                Case tmp;
                std::string enc = "kv " + a + " " + b + "\nend\n";
                case_read(enc, tmp);
                r.viol[i].push_back({tmp.kv.begin()->first, tmp.kv.begin()->second, ""});
            } else if (k == "K") {
                l >> a;
                ++r.known_hits[a];
            } else if (k == "H") {
                l >> i >> h;
                r.hashes[i] = h;
            }
        }
    }
    munmap(sh, sizeof(Shared));
    return r;
}

static std::string js(const std::string &s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char) s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else r += (char) c;
    }
    return r + "\"";
}

static Ctx replay_case(const Prop &p, const Case &c, bool verbose, int tier) {
    Ctx x;
    x.st = nullptr;
    x.verbose = verbose;
    x.tier = tier;
    run_check(p, c, x);
    return x;
}

// run one case in a forked process of its own; returns kinds and hash
static bool isolated(const Prop &p, const Case &c, int tier, std::vector<std::string> &kinds, u64 &hash,
                     std::string *narrowed = nullptr) {
    int fd[2];
    if (pipe(fd) != 0) return false;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        Ctx x = replay_case(p, c, false, tier);
        std::string s = std::to_string(x.hash) + "\n";
        for (auto &v : x.viol) s += v.kind + " " + esc(v.narrowed) + "\n";
        s += "END\n";
        if (write(fd[1], s.data(), s.size()) < 0) _exit(1);
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char b[4096];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, (size_t) n);
    close(fd[0]);
    waitpid(pid, nullptr, 0);
    auto v = split_lines(s);
    if (v.size() < 2 || v[v.size() - 2] != "END") return false;
    hash = strtoull(v[0].c_str(), nullptr, 10);
    kinds.clear();
    for (size_t i = 1; i + 2 < v.size(); ++i) {
        size_t sp = v[i].find(' ');
        kinds.push_back(v[i].substr(0, sp));
        if (i == 1 && narrowed) *narrowed = v[i].substr(sp + 1);
    }
    return true;
}

static int cmd_replay(const std::string &file, bool verbose) {
    std::string text = slurp(file);
    Case c;
    if (!case_read(text, c)) {
        fprintf(stderr, "boxsim: cannot read replay file %s\n", file.c_str());
        return 2;
    }
    const Prop *p = find_prop(c.prop);
    if (!p) {
        fprintf(stderr, "boxsim: unknown property %s\n", c.prop.c_str());
        return 2;
    }
    std::string kind, hash;
    for (auto &l : split_lines(text))
        if (l.compare(0, 9, "# expect ") == 0) {
            std::istringstream s(l.substr(9));
            s >> kind >> hash;
        }
    sim_init();
    Ctx x = replay_case(*p, c, verbose, 0);
    bool hit = false;
    for (auto &v : x.viol) {
        printf("%s: %s\n", v.kind.c_str(), v.msg.c_str());
        if (v.kind == kind || kind.empty()) hit = true;
    }
    printf("history hash %s%s\n", hex(x.hash).c_str(),
           hash.empty() ? "" : hash == hex(x.hash) ? " (as recorded)" : " (DIFFERS from the recorded one)");
    if (!hit) {
        printf("not reproduced\n");
        return 0;
    }
    if (!hash.empty() && hash != hex(x.hash)) return 3;
    printf("VIOLATION property=%s replay=%s\n", c.prop.c_str(), file.c_str());
    return 1;
}

int main(int argc, char **argv) {
    // same address-space layout in every process
    int pers = personality(0xffffffff);
    bool aslr_off = pers >= 0 && (pers & ADDR_NO_RANDOMIZE);
    if (!aslr_off && !getenv("BOXSIM_REEXEC")) {
        if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("BOXSIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    unsetenv("BOXSIM_REEXEC");

    std::string cmd = argc > 1 ? argv[1] : "";
    u64 seed = 1, only = ~0ull, cases = 0, first = 0;
    int tier = 0, workers = (int) sysconf(_SC_NPROCESSORS_ONLN);
    double wall = 0;
    std::string verif = "/verif", prop;
    bool verbose = false;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") tier = val() == "thorough";
        else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--first") first = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--index") only = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--wall") wall = atof(val().c_str());
        else if (a == "--verif") verif = val();
        else if (a == "-v") verbose = true;
        else pos.push_back(a);
    }
    if (workers < 1) workers = 1;
    if (workers > 64) workers = 64;
    if (cmd == "replay" && pos.size() == 1) return cmd_replay(pos[0], verbose);
    if (cmd == "list") {
        for (int i = 0; i < num_props; ++i) printf("%s %s\n", props[i].id, props[i].level);
        return 0;
    }
    const Prop *p = pos.empty() ? nullptr : find_prop(pos[0]);
    if (!p) {
        fprintf(stderr, "usage: boxsim check|show|hashes PROPERTY [--seed N] [--tier quick|thorough] [--index N] | replay FILE\n");
        return 2;
    }
    if (cmd == "show") {
        sim_init();
        Case c = make_case(*p, seed, only == ~0ull ? 0 : only, tier);
        printf("%s", case_write(c).c_str());
        Ctx x = replay_case(*p, c, verbose, tier);
        for (auto &v : x.viol) printf("VIOL %s: %s\n", v.kind.c_str(), v.msg.c_str());
        printf("nontrivial=%d hash %s\n", x.nontrivial, hex(x.hash).c_str());
        return 0;
    }
    char tmpl[] = "/tmp/boxsim.XXXXXX";
    std::string tmpdir = mkdtemp(tmpl) ? tmpl : "/tmp";
    struct Cleaner {
        std::string d;
        ~Cleaner() { rmdir(d.c_str()); }
    } cleaner{tmpdir};
    u64 ncases = cases ? cases : tier ? p->thorough_cases : p->quick_cases;
    if (wall <= 0) wall = tier ? 3600 : 240;

    if (cmd == "hashes") {      // determinism check: print one hash per case
        Result r = sweep(*p, seed, tier, first, ncases, workers, now() + wall, {}, tmpdir, 1);
        for (auto &h : r.hashes) printf("%llu %s\n", (unsigned long long) h.first, hex(h.second).c_str());
        return 0;
    }
    if (cmd != "check") return 2;

    double t0 = now();
    std::vector<Known> known = load_known(verif + "/known-findings.txt", p->id);
    Result r = sweep(*p, seed, tier, first, ncases, workers, t0 + wall, known, tmpdir, 1);
    double sweep_s = now() - t0;
    if (r.crashed) {
        fprintf(stderr, "boxsim: simulator worker crashed\n");
        return 3;
    }
    int rc = 0;
    std::string viol_line;
    u64 nviol = r.viol.size();
    // determinism: run a sample again, other worker count, other processes; the histories must be identical
    u64 redo = std::min<u64>(ncases, tier ? 400 : 120);
    u64 mismatches = 0, compared = 0;
    if (r.viol.empty()) {
        Result q = sweep(*p, seed, tier, first, redo, workers > 2 ? workers / 2 + 1 : 1, now() + wall / 2, known, tmpdir, 1);
        for (auto &h : q.hashes) {
            auto it = r.hashes.find(h.first);
            if (it == r.hashes.end()) continue;
            ++compared;
            if (it->second != h.second) {
                ++mismatches;
                fprintf(stderr, "boxsim: case %llu did not repeat exactly\n", (unsigned long long) h.first);
            }
        }
        if (mismatches) rc = 3;
    } else {
        u64 idx = r.viol.begin()->first;
        std::string kind = r.viol.begin()->second[0].kind, msg = r.viol.begin()->second[0].msg;
        Case c = make_case(*p, seed, idx, tier);
        printf("%s: case %llu (seed %llu) violates: %s: %s\n", p->id, (unsigned long long) idx, (unsigned long long) c.seed,
               kind.c_str(), msg.c_str());
        fflush(stdout);
        std::vector<std::string> k1, k2;
        u64 h1 = 0, h2 = 1;
        std::string nar;
        bool ok = isolated(*p, c, tier, k1, h1, &nar) && isolated(*p, c, tier, k2, h2) && h1 == h2 && k1 == k2;
        bool has = false;
        for (auto &k : k1) has |= k == kind;
        if (ok && has && nar != "\\0") {          // one element of a sweep shows it: go on with that one
            Case nc, dec;
            std::vector<std::string> kn;
            u64 hn;
            case_read("kv x " + nar + "\nend\n", dec);
            if (case_read(dec.kv["x"], nc) && isolated(*p, nc, tier, kn, hn) && !kn.empty() && kn[0] == kind) c = nc;
        }
        if (!ok || !has) {
            fprintf(stderr, "boxsim: the violation did not repeat exactly (hash %s / %s)\n", hex(h1).c_str(), hex(h2).c_str());
            return 3;
        }
        int used = 0;
        // the minimiser runs in its own process so that nothing it does can affect the gate
        std::string mfile = tmpdir + "/min";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(tier ? 300 : 120);
            sim_init();
            Case m = minimise(*p, c, kind, tier ? 3000 : 800, &used, tier);
            spit(mfile, case_write(m));
            _exit(0);
        }
        int status;
        waitpid(pid, &status, 0);
        Case m;
        if (!WIFEXITED(status) || !case_read(slurp(mfile), m)) m = c;
        unlink(mfile.c_str());
        std::vector<std::string> km;
        u64 hm = 0;
        bool okm = isolated(*p, m, 0, km, hm);
        has = false;
        for (auto &k : km) has |= k == kind;
        if (!okm || !has) m = c, isolated(*p, m, 0, km, hm);
        mkdir((verif + "/replays").c_str(), 0755);
        std::string file = verif + "/replays/" + p->id + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".case";
        spit(file, "# boxsim replay file: /verif/bin/replay " + file + "\n# " + esc_short(msg, 1000) + "\n# expect " + kind + " " +
                       hex(hm) + "\n" + case_write(m));
        fflush(nullptr);
        pid = fork();
        if (pid == 0) {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            execl("/proc/self/exe", "boxsim", "replay", file.c_str(), (char *) nullptr);
            _exit(2);
        }
        waitpid(pid, &status, 0);
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 1) {
            fprintf(stderr, "boxsim: replay of %s in a fresh process did not reproduce the violation\n", file.c_str());
            return 3;
        }
        viol_line = std::string("VIOLATION property=") + p->id + " replay=" + file;
        rc = 1;
    }
    double total = now() - t0;
    for (auto &k : known) {
        u64 n = r.known_hits.count(k.kind) ? r.known_hits[k.kind] : 0;
        printf("KNOWN-FINDING: property=%s %s (kind %s, met %llu times in this run)\n", p->id, k.what.c_str(), k.kind.c_str(),
               (unsigned long long) n);
    }

    // ------------------------------------------------------------------------------------------------ evidence
    std::ostringstream e;
    e.precision(6);
    Stats &s = r.st;
    e << "{\n \"property\": " << js(p->id) << ",\n \"tier\": \"" << (tier ? "thorough" : "quick") << "\",\n \"seed\": "
      << seed % 2147483648ull << ",\n \"level\": " << js(p->level) << ",\n \"coverage\": {\n";
    e << "  \"evaluations\": " << s.cases << ",\n  \"distinct_nontrivial\": " << s.nthashes.size() << ",\n";
    e << "  \"rule\": " << js(std::string(p->rule) + " Distinct: different hash over the complete event logs and outcomes of all runs of the case.") << ",\n";
    e << "  \"samples\": [";
    for (size_t i = 0; i < s.samples.size() && i < 6; ++i) e << (i ? ",\n   " : "\n   ") << js(s.samples[i]);
    e << "],\n";
    e << "  \"simulated_runs\": " << s.runs << ",\n  \"simulated_runs_per_hour\": " << (u64) (s.runs * 3600 / (sweep_s + 1e-6))
      << ",\n  \"seeds_per_hour\": " << (u64) (s.cases * 3600 / (sweep_s + 1e-6)) << ",\n  \"simulated_seconds\": " << s.simus / 1e6
      << ",\n  \"simulated_system_calls\": " << s.steps << ",\n  \"allocations_by_boxes_and_its_libraries\": " << s.allocs << ",\n";
    e << "  \"distinct_histories\": " << s.hashes.size()
      << ",\n  \"distinct_histories_measure\": \"hash of the event log (every simulated call with arguments, result, position, bytes) plus outcome of one run\",\n";
    e << "  \"faults_fired\": {";
    bool f1 = true;
    for (int i = 0; i < OP_NUM; ++i)
        for (int j = 0; j < ACT_NUM; ++j)
            if (s.fired[i][j]) {
                e << (f1 ? "" : ", ") << js(std::string(op_names[i]) + "/" + act_names[j]) << ": " << s.fired[i][j];
                f1 = false;
            }
    e << "},\n  \"failing_calls_seen_by_boxes\": {";
    f1 = true;
    for (auto &k : s.errnos) { e << (f1 ? "" : ", ") << js(k.first) << ": " << k.second; f1 = false; }
    e << "},\n  \"process_endings\": {";
    f1 = true;
    for (auto &k : s.exits) { e << (f1 ? "" : ", ") << js(k.first) << ": " << k.second; f1 = false; }
    e << "},\n  \"probes\": {";
    f1 = true;
    for (auto &k : s.probes) { e << (f1 ? "" : ", ") << js(k.first) << ": " << k.second; f1 = false; }
    e << "},\n";
    e << "  \"determinism\": {\"cases_repeated_in_other_processes\": " << compared << ", \"mismatches\": " << mismatches
      << ", \"workers\": " << workers << ", \"fixed_address_layout\": " << (aslr_off ? "true" : "false") << "},\n";
    e << "  \"components\": {\"real\": [\"all of /repo/src (C files, flex lexer, bison grammar) compiled from the working tree\", "
         "\"glibc stdio buffering on top of simulated descriptors\", \"glibc getopt, locale, regex of the C library\", "
         "\"libunistring\", \"libpcre2-32\"], \"stub\": [\"files, directories, standard streams, descriptors\", "
         "\"heap\", \"clock, process identity, randomness\", \"terminal database (setupterm/tigetnum)\", "
         "\"process creation (recorded and refused)\"]},\n";
    e << "  \"known_findings_met\": " << r.known_hits.size() << "\n },\n";
    e << " \"assumptions\": [\"the simulated descriptors, file system and heap behave as POSIX and glibc specify\", "
         "\"seeded sampling: a clean run is evidence, not proof\"],\n";
    e << " \"wall_s\": " << total << ",\n \"violations\": " << nviol << "\n}\n";
    mkdir((verif + "/evidence").c_str(), 0755);
    spit(verif + "/evidence/" + p->id + ".json", e.str());
    printf("%s: %llu cases, %llu simulated runs, %llu distinct histories, %.1f s, %llu violation(s)\n", p->id,
           (unsigned long long) s.cases, (unsigned long long) s.runs, (unsigned long long) s.hashes.size(), total,
           (unsigned long long) nviol);
    if (!viol_line.empty()) printf("%s\n", viol_line.c_str());
    return rc;
}
