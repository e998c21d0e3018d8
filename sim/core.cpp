#include "core.h"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sstream>

std::string hex(u64 v) {
    char b[32];
    snprintf(b, sizeof b, "%016llx", (unsigned long long) v);
    return b;
}

std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\t') r += "\\t";
        else if (c == '\\') r += "\\\\";
        else if (c == ' ') r += "\\s";
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else r += (char) c;
    }
    return r.empty() ? "\\0" : r;
}
static std::string unesc(const std::string &s) {
    std::string r;
    if (s == "\\0") return r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' || i + 1 >= s.size()) {
            r += s[i];
            continue;
        }
        char c = s[++i];
        if (c == 'n') r += '\n';
        else if (c == 'r') r += '\r';
        else if (c == 't') r += '\t';
        else if (c == 's') r += ' ';
        else if (c == 'x' && i + 2 < s.size()) {
            r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        } else r += c;
    }
    return r;
}
std::string esc_short(const std::string &s, size_t max) {
    std::string e = esc(s.size() > max ? s.substr(0, max) : s);
    std::string r;
    for (size_t i = 0; i < e.size(); ++i) {
        if (e[i] == '\\' && i + 1 < e.size() && e[i + 1] == 's') {
            r += ' ';
            ++i;
        } else if (e[i] == '\\' && i + 1 < e.size()) {
            r += e[i];
            r += e[++i];
        } else r += e[i];
    }
    if (s.size() > max) r += "...[" + std::to_string(s.size()) + " bytes]";
    return r;
}

std::vector<std::string> split_lines(const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    for (;;) {
        size_t j = s.find('\n', i);
        if (j == std::string::npos) {
            v.push_back(s.substr(i));
            return v;
        }
        v.push_back(s.substr(i, j - i));
        i = j + 1;
    }
}

std::string fault_str(const Fault &f) {
    std::ostringstream o;
    o << op_names[f.op] << " on " << f.obj;
    if (f.off >= 0) o << " once position reaches byte " << f.off;
    else o << " occurrence #" << f.n;
    if (f.cnt < 0) o << " (and every later one)";
    else if (f.cnt != 1) o << " (" << f.cnt << " times)";
    o << ": ";
    switch (f.act) {
        case ACT_ERR: o << "fails with " << strerrorname_np((int) f.a); break;
        case ACT_SHORT: o << "transfers at most " << f.a << " byte(s)"; break;
        case ACT_KILL: o << "process is killed first"; break;
        case ACT_STALL: o << "takes " << f.a << " s"; break;
        case ACT_FSOP: o << "environment does " << f.fsop << " " << f.path << " first"; break;
        default: break;
    }
    return o.str();
}

// ----------------------------------------------------------------------------------------------- replay file
std::string case_write(const Case &c) {
    std::ostringstream o;
    o << "prop " << c.prop << "\nseed " << c.seed << "\nindex " << c.index << "\n";
    for (auto &k : c.kv) o << "kv " << esc(k.first) << " " << esc(k.second) << "\n";
    for (auto &n : c.fs) {
        o << "node " << n.second.type << " " << n.second.openerr << " " << n.second.staterr << " " << esc(n.first) << " "
          << esc(n.second.data) << "\n";
    }
    for (auto &r : c.runs) {
        o << "run\n";
        for (auto &a : r.argv) o << "arg " << esc(a) << "\n";
        for (auto &e : r.env) o << "env " << esc(e.first) << " " << esc(e.second) << "\n";
        o << "stdin " << (int) r.stdin_kind << " " << r.stdin_eof << " " << esc(r.stdin_data) << " "
          << esc(r.stdin_from) << "\n";
        o << "knobs " << r.tty_out << " " << r.tty_in << " " << r.rchunk << " " << r.wchunk << " " << r.inbuf << " " << r.outbuf
          << " " << r.heapfill << " " << r.freefill << " " << r.reuse << " " << r.heapskew << " " << r.stackfill << " "
          << r.stackskew << " " << r.fdlimit << " " << r.sigpipe_ign << " " << r.clock0 << " " << r.pid << " " << r.lat << " "
          << r.termdb_broken << " " << esc(r.cwd) << " " << r.guard << " " << r.envnoise << " " << r.tty_err << " " << r.no_stderr << "\n";
        for (auto &t : r.termdb) o << "term " << esc(t.first) << " " << t.second << "\n";
        for (auto &f : r.faults) {
            o << "fault " << op_names[f.op] << " " << esc(f.obj) << " " << f.n << " " << f.cnt << " " << f.off << " "
              << act_names[f.act] << " " << f.a;
            if (f.act == ACT_FSOP) o << " " << f.fsop << " " << esc(f.path) << " " << esc(f.data);
            o << "\n";
        }
    }
    o << "end\n";
    return o.str();
}

bool case_read(const std::string &text, Case &c) {
    std::istringstream in(text);
    std::string line;
    c = Case();
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string k, s, t, u;
        l >> k;
        if (k == "prop") l >> c.prop;
        else if (k == "seed") l >> c.seed;
        else if (k == "index") l >> c.index;
        else if (k == "kv") {
            l >> s >> t;
            c.kv[unesc(s)] = unesc(t);
        } else if (k == "node") {
            FNode n;
            l >> n.type >> n.openerr >> n.staterr >> s >> t;
            n.data = unesc(t);
            c.fs[unesc(s)] = n;
        } else if (k == "run") c.runs.emplace_back();
        else if (k == "end") return true;
        else if (c.runs.empty()) continue;
        else {
            RunSpec &r = c.runs.back();
            if (k == "arg") {
                l >> s;
                r.argv.push_back(unesc(s));
            } else if (k == "env") {
                l >> s >> t;
                r.env[unesc(s)] = unesc(t);
            } else if (k == "stdin") {
                int kind;
                l >> kind >> r.stdin_eof >> s >> t;
                r.stdin_kind = (StdinKind) kind;
                r.stdin_data = unesc(s);
                r.stdin_from = unesc(t);
            } else if (k == "knobs") {
                l >> r.tty_out >> r.tty_in >> r.rchunk >> r.wchunk >> r.inbuf >> r.outbuf >> r.heapfill >> r.freefill >>
                    r.reuse >> r.heapskew >> r.stackfill >> r.stackskew >> r.fdlimit >> r.sigpipe_ign >> r.clock0 >> r.pid >>
                    r.lat >> r.termdb_broken >> s;
                r.cwd = unesc(s);
                if (!(l >> r.guard)) r.guard = 0;
                if (!(l >> r.envnoise)) r.envnoise = 0;
                if (!(l >> r.tty_err)) r.tty_err = false;
                if (!(l >> r.no_stderr)) r.no_stderr = false;
            } else if (k == "term") {
                int n;
                l >> s >> n;
                r.termdb[unesc(s)] = n;
            } else if (k == "fault") {
                Fault f;
                l >> s >> t >> f.n >> f.cnt >> f.off >> u >> f.a;
                for (int i = 0; i < OP_NUM; ++i)
                    if (s == op_names[i]) f.op = (Op) i;
                for (int i = 0; i < ACT_NUM; ++i)
                    if (u == act_names[i]) f.act = (Act) i;
                f.obj = unesc(t);
                if (f.act == ACT_FSOP) {
                    std::string p, d;
                    l >> f.fsop >> p >> d;
                    f.path = unesc(p);
                    f.data = unesc(d);
                }
                r.faults.push_back(f);
            }
        }
    }
    return false;
}

// ----------------------------------------------------------------------------------------------- statistics
std::string Stats::ser() const {
    std::ostringstream o;
    o << "n " << cases << " " << nontrivial << " " << runs << " " << steps << " " << simus << " " << allocs << "\n";
    for (int i = 0; i < OP_NUM; ++i)
        for (int j = 0; j < ACT_NUM; ++j)
            if (fired[i][j]) o << "f " << i << " " << j << " " << fired[i][j] << "\n";
    for (auto &p : probes) o << "p " << esc(p.first) << " " << p.second << "\n";
    for (auto &p : errnos) o << "e " << esc(p.first) << " " << p.second << "\n";
    for (auto &p : exits) o << "x " << esc(p.first) << " " << p.second << "\n";
    for (auto h : hashes) o << "h " << h << "\n";
    for (auto h : nthashes) o << "t " << h << "\n";
    for (auto &s : samples) o << "s " << esc(s) << "\n";
    return o.str();
}
void Stats::merge(const std::string &s) {
    std::istringstream in(s);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k, a;
        l >> k;
        u64 v;
        if (k == "n") {
            u64 b[6];
            for (auto &q : b) l >> q;
            cases += b[0];
            nontrivial += b[1];
            runs += b[2];
            steps += b[3];
            simus += b[4];
            allocs += b[5];
        } else if (k == "f") {
            int i, j;
            l >> i >> j >> v;
            fired[i][j] += v;
        } else if (k == "h") {
            l >> v;
            hashes.insert(v);
        } else if (k == "t") {
            l >> v;
            nthashes.insert(v);
        } else if (k == "s") {
            l >> a;
            samples.push_back(unesc(a));
        } else if (k == "p" || k == "e" || k == "x") {
            l >> a >> v;
            (k == "p" ? probes : k == "e" ? errnos : exits)[unesc(a)] += v;
        }
    }
}

Outcome Ctx::run(const RunSpec &r, const Fs &fs) {
    Outcome o = sim_run(r, fs);
    hash = mix(hash, o.hash);
    if (st) {
        ++st->runs;
        st->steps += o.steps;
        st->simus += o.simus;
        st->allocs += o.allocs;
        for (int i = 0; i < OP_NUM; ++i)
            for (int j = 0; j < ACT_NUM; ++j) st->fired[i][j] += o.fired[i][j];
        for (auto &rec : o.log)
            if (rec.res < 0 && rec.op < OP_NUM) {
                const char *n = strerrorname_np((int) -rec.res);
                ++st->errnos[std::string(op_names[rec.op]) + ":" + (n ? n : "?")];
            }
        st->hashes.insert(o.hash);
        std::string e = o.special == SP_BLOCKED ? "blocked on stdin" : o.special == SP_RUNAWAY ? "runaway"
                        : o.special == SP_CPU ? "cpu limit" : o.exited ? "exit " + std::to_string(o.code)
                        : "signal " + std::to_string(o.sig);
        ++st->exits[e];
    }
    if (verbose) {
        printf("--- run: boxes");
        for (auto &a : r.argv) printf(" %s", esc_short(a, 200).c_str());
        printf("\n");
        for (auto &e : r.env) printf("    env %s=%s\n", e.first.c_str(), esc_short(e.second).c_str());
        for (auto &f : r.faults) printf("    fault: %s\n", fault_str(f).c_str());
        printf("    stdin: %s\n", r.stdin_kind == SIN_DATA ? (r.stdin_from.empty() ? esc_short(r.stdin_data) : "from " + r.stdin_from).c_str()
                                  : r.stdin_kind == SIN_NEVER ? "(never delivers anything)" : "(closed)");
        for (auto &rec : o.log) {
            if (rec.op >= OP_NUM) {
                printf("    %5u %9lldus environment changes %s (kind %lld)\n", rec.step, (long long) rec.simt,
                       o.objs[rec.obj].c_str(), (long long) rec.arg);
                continue;
            }
            printf("    %5u %9lldus %-8s %-24s arg=%lld res=%lld off=%lld\n", rec.step, (long long) rec.simt, op_names[rec.op],
                   o.objs[rec.obj].c_str(), (long long) rec.arg, (long long) rec.res, (long long) rec.off);
        }
        printf("    => %s  hash %s\n", o.brief().c_str(), hex(o.hash).c_str());
        printf("    stdout: %s\n    stderr: %s\n", esc_short(o.out, 1500).c_str(), esc_short(o.err, 600).c_str());
        for (auto &m : o.mutated)
            if (o.fs.count(m)) printf("    file %s: %s\n", m.c_str(), esc_short(o.fs[m].data, 1500).c_str());
            else printf("    file %s: removed\n", m.c_str());
        if (o.heapflags) printf("    heap: %s\n", o.heapmsg.c_str());
    }
    return o;
}

const Prop *find_prop(const std::string &id) {
    for (int i = 0; i < num_props; ++i)
        if (id == props[i].id) return &props[i];
    return nullptr;
}

Case make_case(const Prop &p, u64 seed, u64 index, int tier) {
    Case c;
    c.prop = p.id;
    c.index = index;
    c.seed = mix(mix(seed, hash_str(p.id)), index + 1);
    Rng r(c.seed);
    p.gen(c, r, tier);
    return c;
}

void run_check(const Prop &p, const Case &c, Ctx &x) {
    p.check(c, x);
}

// ----------------------------------------------------------------------------------------------- minimiser
struct Mini {
    const Prop &p;
    std::string kind;
    int budget, used = 0, tier;
    time_t until = 0;
    bool still(const Case &c) {
        if (!until) until = time(nullptr) + (tier ? 240 : 90);
        if (used >= budget || time(nullptr) > until) return false;
        ++used;
        Ctx x;
        x.st = nullptr;
        x.tier = tier;
        run_check(p, c, x);
        for (auto &v : x.viol)
            if (v.kind == kind) return true;
        return false;
    }
    bool attempt(Case &cur, const std::function<bool(Case &)> &f) {
        Case n = cur;
        if (!f(n)) return false;
        if (!still(n)) return false;
        cur = n;
        return true;
    }
    template <class T> bool shrink_vec(Case &cur, const std::function<std::vector<T> *(Case &)> &get) {
        bool any = false;
        for (size_t chunk = std::max<size_t>(1, get(cur)->size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < get(cur)->size();) {
                bool ok = attempt(cur, [&](Case &n) {
                    auto *v = get(n);
                    if (i >= v->size()) return false;
                    v->erase(v->begin() + (long) i, v->begin() + (long) std::min(v->size(), i + chunk));
                    return true;
                });
                if (ok) any = true;
                else i += chunk;
            }
            if (chunk == 1) break;
        }
        return any;
    }
    bool shrink_text(Case &cur, const std::function<std::string *(Case &)> &get) {
        bool any = false;
        auto lines = [&](Case &c) { return split_lines(*get(c)); };
        auto join = [](const std::vector<std::string> &v) {
            std::string s;
            for (size_t i = 0; i < v.size(); ++i) s += (i ? "\n" : "") + v[i];
            return s;
        };
        for (size_t chunk = std::max<size_t>(1, lines(cur).size() / 2);; chunk /= 2) {
            for (size_t i = 0; i < lines(cur).size();) {
                bool ok = attempt(cur, [&](Case &n) {
                    auto v = lines(n);
                    if (i >= v.size() || v.size() <= 1) return false;
                    v.erase(v.begin() + (long) i, v.begin() + (long) std::min(v.size(), i + chunk));
                    *get(n) = join(v);
                    return true;
                });
                if (ok) any = true;
                else i += chunk;
                if (used >= budget) return any;
            }
            if (chunk <= 1) break;
        }
        for (size_t i = 0; i < lines(cur).size() && i < 20; ++i) {      // shorten lines
            for (int round = 0; round < 8; ++round) {
                bool ok = attempt(cur, [&](Case &n) {
                    auto v = lines(n);
                    if (i >= v.size() || v[i].size() < 2) return false;
                    size_t cut = v[i].size() / 2;
                    while (cut > 0 && ((unsigned char) v[i][cut] & 0xC0) == 0x80) --cut;
                    if (cut == 0) return false;
                    v[i] = v[i].substr(0, cut);
                    *get(n) = join(v);
                    return true;
                });
                if (!ok) break;
                any = true;
            }
        }
        return any;
    }
    bool lockstep(Case &cur) {
        bool any = false;
        for (int len = 2; len >= 1; --len)
            for (size_t i = 0; i < cur.runs[0].argv.size();) {
                size_t back = cur.runs[0].argv.size() - i;           // distance from the end: options may differ at the front
                bool ok = attempt(cur, [&](Case &n) {
                    auto first = n.runs[0].argv;
                    if (back < (size_t) len) return false;
                    for (auto &q : n.runs) {
                        if (q.argv.size() < back) return false;
                        size_t at = q.argv.size() - back;
                        for (size_t k = 0; k < (size_t) len; ++k)
                            if (q.argv[at + k] != first[i + k]) return false;
                        q.argv.erase(q.argv.begin() + (long) at, q.argv.begin() + (long) at + len);
                    }
                    return true;
                });
                if (ok) any = true;
                else ++i;
            }
        auto env = cur.runs[0].env;
        for (auto &e : env) {
            if (e.first == "LC_ALL") continue;
            any |= attempt(cur, [&](Case &n) {
                for (auto &q : n.runs) q.env.erase(e.first);
                return true;
            });
        }
        while (!cur.runs[0].faults.empty())
            if (!attempt(cur, [&](Case &n) {
                    for (auto &q : n.runs)
                        if (!q.faults.empty()) q.faults.pop_back();
                    return true;
                })) break;
            else any = true;
        if (cur.runs.size() > 2 && (p.min_flags & MIN_RUNS))
            for (size_t i = 1; i < cur.runs.size() && cur.runs.size() > 2;)
                if (!attempt(cur, [&](Case &n) { n.runs.erase(n.runs.begin() + (long) i); return true; })) ++i;
                else any = true;
        return any;
    }
    void go(Case &cur) {
        for (int pass = 0; pass < 4 && used < budget; ++pass) {
            bool any = false;
            if ((p.min_flags & MIN_RUNS) && !(p.min_flags & MIN_LOCK)) any |= shrink_vec<RunSpec>(cur, [](Case &c) { return &c.runs; });
            for (size_t ri = 0; ri < cur.runs.size(); ++ri) {
                if (p.min_flags & MIN_FAULTS) {
                    if (!(p.min_flags & MIN_LOCK)) any |= shrink_vec<Fault>(cur, [ri](Case &c) { return &c.runs[ri].faults; });
                    for (size_t fi = 0; fi < cur.runs[ri].faults.size() && !(p.min_flags & MIN_LOCK); ++fi) {
                        auto num = [&](i64 Fault::*m, i64 lo) {
                            for (int k = 0; k < 12; ++k) {
                                i64 v = cur.runs[ri].faults[fi].*m;
                                if (v <= lo) break;
                                bool ok = attempt(cur, [&](Case &n) {
                                    n.runs[ri].faults[fi].*m = k == 0 ? lo : lo + (v - lo) / 2;
                                    return true;
                                });
                                if (!ok && k > 0) break;
                                any |= ok;
                            }
                        };
                        num(&Fault::n, 0);
                        num(&Fault::off, 0);
                        num(&Fault::cnt, 1);
                    }
                }
                if (p.min_flags & MIN_LOCK) {
                    if (ri == 0) any |= lockstep(cur);
                } else if (p.min_flags & MIN_ARGS) any |= shrink_vec<std::string>(cur, [ri](Case &c) { return &c.runs[ri].argv; });
                if ((p.min_flags & MIN_ENV) && !(p.min_flags & MIN_LOCK)) {
                    auto env = cur.runs[ri].env;
                    for (auto &e : env) {
                        if (e.first == "LC_ALL") continue;
                        any |= attempt(cur, [&](Case &n) { return n.runs[ri].env.erase(e.first) > 0; });
                    }
                }
                if (p.min_flags & MIN_STDIN) any |= shrink_text(cur, [ri](Case &c) { return &c.runs[ri].stdin_data; });
                if (p.min_flags & MIN_KNOBS) {
                    RunSpec def;
                    any |= pass == 0 && attempt(cur, [&](Case &n) {
                        RunSpec &q = n.runs[ri];
                        q.rchunk = q.wchunk = 0;
                        q.inbuf = q.outbuf = 4096;
                        q.heapfill = 0;
                        q.freefill = 0xDD;
                        q.reuse = q.guard = q.heapskew = q.stackfill = q.stackskew = 0;
                        q.clock0 = def.clock0;
                        q.pid = def.pid;
                        q.lat = q.envnoise = 0;
                        q.tty_out = q.tty_in = q.tty_err = false;
                        return true;
                    });
#define KNOB(f) any |= attempt(cur, [&](Case &n) { if (n.runs[ri].f == def.f) return false; n.runs[ri].f = def.f; return true; })
                    KNOB(rchunk); KNOB(wchunk); KNOB(inbuf); KNOB(outbuf); KNOB(heapfill); KNOB(freefill); KNOB(reuse); KNOB(guard);
                    KNOB(heapskew); KNOB(stackfill); KNOB(stackskew); KNOB(clock0); KNOB(pid); KNOB(lat); KNOB(tty_out); KNOB(envnoise); KNOB(no_stderr);
                    KNOB(tty_in);
                    KNOB(tty_err);
#undef KNOB
                }
            }
            if (p.min_flags & MIN_FS) {
                auto fs = cur.fs;
                for (auto &n : fs)
                    any |= attempt(cur, [&](Case &m) { return m.fs.erase(n.first) > 0; });
            }
            if (p.min_flags & MIN_TEXT) {
                auto it = cur.kv.find("text");                 // path of the input text file in the FS
                std::string path = it == cur.kv.end() ? "/work/in.txt" : it->second;
                if (cur.fs.count(path)) any |= shrink_text(cur, [path](Case &c) { return &c.fs[path].data; });
            }
            if (p.min_flags & MIN_KV) {
                auto kv = cur.kv;
                for (auto &k : kv)
                    if (k.first.compare(0, 2, "t:") == 0)
                        any |= shrink_text(cur, [&](Case &c) { return &c.kv[k.first]; });
            }
            if (!any) break;
        }
    }
};

Case minimise(const Prop &p, const Case &c, const std::string &kind, int budget, int *used, int tier) {
    Mini m{p, kind, budget, 0, tier};
    Case cur = c;
    m.go(cur);
    if (used) *used = m.used;
    return cur;
}
