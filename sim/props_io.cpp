// Properties about input, output, faults and crashes: C01 C02 C03 C05 C07 C09 C10 C11 C13 C14 C18
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <sstream>

#include "props.h"

// ----------------------------------------------------------------------------------------------- shared oracle pieces
bool touches(const RunSpec &s, const std::string &obj) {
    for (auto &f : s.faults)
        if (f.obj == obj || f.obj == "*") return true;
    return false;
}
u64 fired_on(const Outcome &o, int op) {
    u64 n = 0;
    for (int j = 0; j < ACT_NUM; ++j) n += o.fired[op][j];
    return n;
}
std::string first_diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    if (i == a.size() && i == b.size()) return "identical";
    size_t from = i > 30 ? i - 30 : 0;
    return "differ at byte " + std::to_string(i) + ": \"" + esc_short(a.substr(from, 80)) + "\" vs \"" + esc_short(b.substr(from, 80)) + "\"";
}
std::string show(const std::string &label, const Outcome &o, const std::string &out_obj) {
    return label + " " + o.brief() + " output \"" + esc_short(outcome_output(o, out_obj), 160) + "\" stderr \"" + esc_short(o.err, 160) + "\"";
}
void sweep(const Case &c, Ctx &x, const std::vector<std::vector<Fault>> &cands,
           const std::function<void(const Case &, Ctx &)> &eval) {
    for (auto &fl : cands) {
        Case n = c;
        n.kv.erase("sweep");
        n.runs[0].faults = fl;
        x.narrow = &n;
        eval(n, x);
        x.narrow = nullptr;
        if (!x.viol.empty()) return;
    }
}

static std::string joinv(const std::vector<std::string> &v) {
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "\t" : "") + v[i];
    return s;
}
static std::vector<std::string> splitv(const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    for (;;) {
        size_t j = s.find('\t', i);
        v.push_back(s.substr(i, j == std::string::npos ? j : j - i));
        if (j == std::string::npos) return v;
        i = j + 1;
    }
}
std::string design_ser(const Design &d) {
    std::string s = d.name;
    for (auto *v : {&d.nw, &d.n, &d.ne, &d.sw, &d.s, &d.se}) s += "\n" + joinv(*v);
    s += "\n" + d.w + "\n" + d.e + "\n" + std::to_string(d.pl) + "\t" + std::to_string(d.pt) + "\t" + std::to_string(d.pr) + "\t" +
         std::to_string(d.pb) + "\n" + d.indent;
    return s;
}
Design design_de(const std::string &s) {
    Design d;
    auto l = split_lines(s);
    if (l.size() < 11) return d;
    d.name = l[0];
    std::vector<std::string> *vs[] = {&d.nw, &d.n, &d.ne, &d.sw, &d.s, &d.se};
    for (size_t i = 0; i < 6; ++i) *vs[i] = splitv(l[1 + i]);
    d.w = l[7];
    d.e = l[8];
    auto p = splitv(l[9]);
    d.pl = atoi(p[0].c_str());
    d.pt = atoi(p[1].c_str());
    d.pr = atoi(p[2].c_str());
    d.pb = atoi(p[3].c_str());
    d.indent = l[10];
    return d;
}

Txt txt_of(const std::string &bytes) {
    Txt t;
    t.lines = split_lines(bytes);
    t.final_nl = !bytes.empty() && bytes.back() == '\n';
    if (t.lines.back().empty()) t.lines.pop_back();
    return t;
}
std::vector<std::string> norm_lines(const std::string &text, bool &final_nl) {
    Txt t = txt_of(text);
    final_nl = t.final_nl;
    for (auto &l : t.lines) l = rtrim(expand_tabs(rtrim(l), 8));
    return t.lines;
}
static void unindent(std::vector<std::string> &v) {
    size_t m = std::string::npos;
    for (auto &l : v) {
        if (rtrim(l).empty()) continue;
        size_t k = l.find_first_not_of(' ');
        m = std::min(m, k);
    }
    if (m == std::string::npos) m = 0;
    for (auto &l : v) l = rtrim(l).empty() ? "" : l.substr(m);
}

// Does `out` contain every line of `text` exactly once, complete, in order, inside a box of design d? Tolerant about everything else
// (position of the right side, padding columns).
bool extract_drawn(const std::string &out, const Design &d, const std::string &eol, const std::string &text, std::string &why) {
    bool fnl;
    std::vector<std::string> want = norm_lines(text, fnl);
    if (want.empty()) {
        if (out.empty()) return true;
        why = "output for an empty text";
        return false;
    }
    std::string o = out;
    if (eol != "\n") {
        std::string n;
        for (size_t i = 0; i < o.size();) {
            if (o.compare(i, eol.size(), eol) == 0) {
                n += '\n';
                i += eol.size();
            } else n += o[i++];
        }
        o = n;
    }
    Txt t = txt_of(o);
    if (t.final_nl != fnl) {
        why = fnl ? "final line break is missing" : "final line break was added";
        return false;
    }
    size_t ht = d.nw.size(), hb = d.sw.size();
    if (t.lines.size() != ht + hb + (size_t) d.pt + (size_t) d.pb + want.size()) {
        why = "box has " + std::to_string(t.lines.size()) + " lines, expected " + std::to_string(ht + hb + (size_t) d.pt + (size_t) d.pb + want.size());
        return false;
    }
    std::vector<std::string> got;
    for (size_t i = 0; i < want.size(); ++i) {
        std::string l = t.lines[ht + (size_t) d.pt + i];
        size_t k = l.find_first_not_of(' ');
        std::string wt = d.w;
        size_t wlead = wt.find_first_not_of(' ');
        wt = wt.substr(wlead);
        if (k == std::string::npos || l.compare(k, wt.size(), wt) != 0) {
            why = "line " + std::to_string(i + 1) + " of the text has no left side: \"" + esc_short(l, 100) + "\"";
            return false;
        }
        l = l.substr(k + wt.size());
        std::string e = rtrim(d.e);
        l = rtrim(l);
        if (!e.empty()) {
            if (l.size() < e.size() || l.compare(l.size() - e.size(), e.size(), e) != 0) {
                why = "line " + std::to_string(i + 1) + " of the text has no right side: \"" + esc_short(l, 100) + "\"";
                return false;
            }
            l.resize(l.size() - e.size());
        }
        got.push_back(rtrim(l));
    }
    unindent(got);
    unindent(want);
    for (size_t i = 0; i < want.size(); ++i)
        if (got[i] != want[i]) {
            why = "line " + std::to_string(i + 1) + " is \"" + esc_short(got[i], 120) + "\" in the box but \"" + esc_short(want[i], 120) + "\" in the text";
            return false;
        }
    return true;
}

static std::vector<std::string> lines_kv(const Case &c, const char *k) {
    auto it = c.kv.find(k);
    std::vector<std::string> v;
    if (it == c.kv.end() || it->second.empty()) return v;
    return split_lines(it->second);
}
static std::string kvs(const Case &c, const char *k) {
    auto it = c.kv.find(k);
    return it == c.kv.end() ? "" : it->second;
}
static bool changed_fs_except(const Fs &before, const Fs &after, const std::string &except, std::string &which) {
    for (auto &kv : before) {
        if (kv.first == except) continue;
        auto it = after.find(kv.first);
        if (it == after.end() || !(it->second == kv.second)) {
            which = kv.first;
            return true;
        }
    }
    for (auto &kv : after)
        if (kv.first != except && !before.count(kv.first)) {
            which = kv.first;
            return true;
        }
    return false;
}
// bytes this run wrote to its output
static u64 wrote(const Outcome &o, const std::string &obj) {
    u64 n = 0;
    for (auto &r : o.log)
        if (r.op == OP_WRITE && r.res > 0 && o.objs[r.obj] == obj) n += (u64) r.res;
    return n;
}
static bool crash_free(const Case &c, Ctx &x, const Outcome &o, const char *what) {
    (void) c;
    if (o.special == SP_RUNAWAY || o.special == SP_CPU || o.special == SP_BLOCKED) {
        x.fail("hang", std::string(what) + ": " + o.brief());
        return false;
    }
    if (!o.exited && o.special != SP_KILLED) {
        x.fail("crash", std::string(what) + ": " + o.brief());
        return false;
    }
    return true;
}

// =============================================================================================== C01
static void deliver(RunSpec &s, Rng &r, int channel, const std::string &path) {
    switch (channel) {
        case 0: s.stdin_from = path; break;
        case 1: s.argv.push_back("-"); s.stdin_from = path; break;
        case 2: s.argv.push_back(path); s.stdin_data = "NOT THE INPUT\n"; break;
        case 3: s.argv.push_back("in.txt"); s.stdin_kind = SIN_CLOSED; break;
        case 4: s.argv.push_back("-"); s.argv.push_back("/work/out.txt"); s.stdin_from = path; break;
        case 5: s.argv.push_back(path); s.argv.push_back("/work/out.txt"); break;
        default: s.argv.push_back("-"); s.argv.push_back("-"); s.stdin_from = path; break;
    }
    random_knobs(r, s, true, false);
    if (r.chance(20)) {       // slow producer
        Fault f;
        f.op = OP_READ;
        f.obj = channel == 2 || channel == 3 || channel == 5 ? path : "<stdin>";
        f.n = r.range(0, 4);
        f.act = ACT_STALL;
        f.a = r.range(1, 3600);
        s.faults.push_back(f);
    }
}

// Is every line of the text, told by its mark, in the output exactly once, complete, and at the same vertical distance from the others?
static bool marks_in_place(const std::string &text, const std::string &output, const std::vector<std::string> &argv, std::string &why) {
    std::string out;
    for (size_t i = 0; i < output.size(); ++i) {
        if (output[i] == '\r') {
            if (i + 1 < output.size() && output[i + 1] == '\n') continue;
            out += '\n';
        } else if (output[i] == '\x1b') {
            while (i < output.size() && !isalpha((unsigned char) output[i])) ++i;
        } else out += output[i];
    }
    (void) argv;
    std::vector<std::string> rows = split_lines(out), want = split_lines(text);
    bool have = false;
    size_t base = 0;
    for (size_t i = 0; i < want.size(); ++i) {
        std::string w = trim(want[i]);
        if (w.empty() || w[0] != 'z') continue;
        std::string mark = w.substr(0, w.find(' '));
        if (mark != "z" + std::to_string(i) + "z") continue;
        mark += w.size() > mark.size() ? " " : "";
        size_t n = 0, at = 0;
        for (size_t k = 0; k < rows.size(); ++k)
            for (size_t p = rows[k].find(mark); p != std::string::npos; p = rows[k].find(mark, p + 1)) {
                ++n;
                at = k;
            }
        if (n != 1) {
            why = "line " + std::to_string(i + 1) + " of the text is in the output " + std::to_string(n) + " times";
            return false;
        }
        if (rows[at].find(w) == std::string::npos) {
            why = "line " + std::to_string(i + 1) + " of the text is changed: \"" + esc_short(rows[at], 200) + "\"";
            return false;
        }
        if (have && at - base != i) {
            why = "line " + std::to_string(i + 1) + " of the text is " + std::to_string((long) (at - base) - (long) i) + " rows away from its place";
            return false;
        }
        if (!have) base = at - i;
        have = true;
    }
    return true;
}

void gen_C01(Case &c, Rng &r, int tier) {
    (void) tier;
    RunSpec base;
    base_env(r, base);
    bool huge = r.below(700) == 0;      // more lines than 16 bits can count
    if (!huge && r.chance(30)) {
        // any design and layout option; every line is told from the others by a mark of its own
        std::string name = "gbox", cfg;
        if (r.chance(65)) {
            do {
                name = r.pick(corpus_names());
                cfg = corpus_design(name);
            } while (lower(cfg).find("replace") != std::string::npos || lower(cfg).find("reverse") != std::string::npos);
        } else {
            Design d = gen_design(r, name);
            if (r.chance(25)) d.indent = r.pick(std::vector<std::string>{"box", "text", "none"});
            cfg = d.config();
        }
        c.fs["/cfg/main.cfg"].data = cfg;
        base.argv = {"-f", "/cfg/main.cfg", "-d", name};
        std::vector<std::string> lo;
        layout_opts(r, lo, false);
        for (size_t i = 0; i < lo.size(); ++i)
            if (lo[i] == "-n") lo.erase(lo.begin() + (long) i, lo.begin() + (long) i + 2), --i;
        base.argv.insert(base.argv.end(), lo.begin(), lo.end());
        c.kv["model"] = "marks";
        std::string m = r.pick(std::vector<std::string>{"draw", "draw", "remove", "mend"});
        c.kv["marks"] = m;
        TxtOpt to;
        to.big = 10;
        to.max_small = 12;
        to.flags = TX_UTF8 | TX_WIDE | TX_INDENT | TX_TRAIL | TX_BLANKEDGE | TX_CRLF;
        Txt t = gen_text(r, to);
        bool tabs = r.chance(25);
        for (size_t i = 0; i < t.lines.size(); ++i) {
            std::string &l = t.lines[i];
            size_t k = l.find_first_not_of(' ');
            if (k == std::string::npos || l.size() > 16000) continue;
            l.insert(k, "z" + std::to_string(i) + "z ");
            if (tabs && r.chance(50)) l.insert(0, (size_t) r.range(1, 2), '\t');
        }
        c.fs["/work/in.txt"].data = t.bytes();
        c.kv["text"] = "/work/in.txt";
        if (m != "draw") {
            c.kv["first"] = "";
            for (auto &a : base.argv) c.kv["first"] += a + "\n";      // how the box is drawn before
            base.argv = {"-f", "/cfg/main.cfg", "-d", name, m == "remove" ? "-r" : "-m"};
        }
    } else if (huge || r.chance(65)) {
        // text conservation, judged by a model
        Design d = gen_design(r, "pbox");
        if (r.chance(25)) d.indent = r.pick(std::vector<std::string>{"box", "text", "none"});
        c.fs["/cfg/main.cfg"].data = d.config();
        c.kv["design"] = design_ser(d);
        base.argv = {"-f", "/cfg/main.cfg"};
        if (r.chance(70)) base.argv.insert(base.argv.end(), {"-d", "pbox"});
        std::string m = r.pick(std::vector<std::string>{"draw", "draw", "draw", "draw", "remove", "mend"});
        c.kv["model"] = m;
        TxtOpt to;
        to.big = 25;
        to.flags = TX_UTF8 | TX_TABS | TX_INDENT | TX_TRAIL | TX_CRLF | TX_EMPTYOK;
        if (m == "draw") to.flags |= TX_WIDE | TX_BLANKEDGE;
        Txt t = gen_text(r, to);
        if (huge) {
            t = Txt();
            int n = r.pick(std::vector<int>{32767, 32768, 32769, 33000, 65535, 65536, 65537, 70000});
            for (int i = 0; i < n; ++i) t.lines.push_back(std::to_string(i));
            t.final_nl = r.chance(80);
        }
        if (m != "draw")                       // with the box around it a line must still be below the limit
            for (auto &l : t.lines)
                if (l.size() > 16350) l = rtrim(l.substr(0, 16350));
        if (m == "draw") {
            c.fs["/work/in.txt"].data = t.bytes();
            c.kv["text"] = "/work/in.txt";
            if (r.chance(15)) {
                base.argv.push_back("-e");
                base.argv.push_back(r.pick(std::vector<std::string>{"CRLF", "CR", "LF"}));
                c.kv["eol"] = base.argv.back() == "CRLF" ? "\r\n" : base.argv.back() == "CR" ? "\r" : "\n";
            }
        } else {
            // boxes must be able to recognise the box: the text is wider than the corners' ambiguity
            c.kv["t:plain"] = t.bytes();
            base.argv.push_back(m == "remove" ? "-r" : "-m");
        }
    } else {
        ScnOpt o;
        o.modes = SC_FILTER;
        o.outfile = o.infile = 0;
        o.big = 12;
        o.debug = 0;
        Scn s = gen_scenario(r, o);
        base = s.run;
        while (!base.argv.empty() && base.argv.back() == "-") base.argv.pop_back();
        base.stdin_from.clear();
        c.fs = s.fs;
        c.kv["text"] = "/work/in.txt";
    }
    c.fs["/work/out.txt"].data = "previous content\n";
    c.runs.push_back(base);
    c.runs[0].stdin_from = "/work/in.txt";
    if (huge) c.runs[0].reuse = 1;
    int n = (int) r.range(2, 4);
    for (int i = 0; i < n; ++i) {
        RunSpec s = base;
        deliver(s, r, (int) r.below(7), "/work/in.txt");
        if (huge) {
            s.inbuf = s.outbuf = 65536;
            s.rchunk = s.wchunk = r.chance(50) ? 0 : -60000;
            s.tty_in = s.tty_out = s.tty_err = false;
            s.reuse = 1;
        }
        c.runs.push_back(s);
    }
}

void check_C01(const Case &c, Ctx &x) {
    Fs fs = c.fs;
    std::string model = kvs(c, "model");
    Design d;
    if (!model.empty() && model != "marks") d = design_de(kvs(c, "design"));
    std::string marked = text_of(fs, "/work/in.txt");
    if (c.kv.count("first")) {              // the box to be removed or mended is drawn by boxes
        RunSpec b;
        b.env = c.runs[0].env;
        b.termdb = c.runs[0].termdb;
        b.argv = lines_kv(c, "first");
        b.argv.push_back("--no-color");
        b.stdin_data = marked;
        Outcome o = x.run(b, fs);
        if (!o.exited || o.code != 0) return;
        std::string e, t = o.out;
        for (size_t i = 0; i + 1 < b.argv.size(); ++i)
            if (b.argv[i] == "-e") e = b.argv[i + 1];
        if (e == "CR") {
            x.probe("box with CR only");
            return;
        }
        fs["/work/in.txt"].data = t;
    }
    bool boxed = model == "remove" || model == "mend";
    Txt plain;
    if (boxed) {
        plain = txt_of(kvs(c, "t:plain"));
        fs["/work/in.txt"].data = plain.lines.empty() ? "" : draw_model(d, plain);
    }
    std::string want, first;
    int code = -1;
    for (size_t i = 0; i < c.runs.size(); ++i) {
        const RunSpec &s = c.runs[i];
        Outcome o = x.run(s, fs);
        std::string to = !s.argv.empty() && s.argv.back() == "/work/out.txt" ? "/work/out.txt" : "<stdout>";
        std::string out = outcome_output(o, to);
        if (o.special != SP_NONE) {
            x.fail("hang", "run " + std::to_string(i) + " did not end: " + o.brief());
            return;
        }
        if (i == 0) {
            first = out;
            code = o.exited ? o.code : 1000 + o.sig;
            if (!o.exited) x.probe("reference run ended by a signal");
            if (o.code != 0 || out.empty()) {
                if (model.empty() || text_of(fs, "/work/in.txt").empty()) x.probe("reference run without output");
            }
            if (!model.empty()) {
                if (code != 0) {
                    x.fail("fails", "boxes failed on a plain text: "+ show("", o, to));
                    return;
                }
                std::string why;
                if (model == "marks") {
                    if (!marks_in_place(marked, out, s.argv, why)) {
                        x.fail("conservation", why + "; text \"" + esc_short(marked, 300) + "\" output \"" + esc_short(out, 600) + "\"");
                        return;
                    }
                } else if (model == "draw") {
                    if (!extract_drawn(out, d, c.kv.count("eol") ? kvs(c, "eol") : "\n", text_of(fs, "/work/in.txt"), why)) {
                        x.fail("conservation", why + "; text \"" + esc_short(text_of(fs, "/work/in.txt"), 300) + "\" output \"" + esc_short(out, 500) + "\"");
                        return;
                    }
                } else if (model == "mend") {
                    if (out != text_of(fs, "/work/in.txt")) {
                        x.fail("conservation", "mending an intact box changed it: " + first_diff(out, text_of(fs, "/work/in.txt")));
                        return;
                    }
                } else {
                    bool a, b;
                    auto got = norm_lines(out, a), exp = norm_lines(plain.bytes(), b);
                    unindent(got);
                    unindent(exp);
                    if (got != exp || (a != b && !exp.empty())) {
                        x.fail("conservation", "removal of the box does not return the text: \"" + esc_short(out, 300) + "\" instead of \"" +
                                                   esc_short(plain.bytes(), 300) + "\"");
                        return;
                    }
                }
            }
            x.nontrivial = !out.empty();
            if (split_lines(out).size() > 100) x.probe("more than 100 output lines");
            if (split_lines(out).size() > 32767) x.probe("more than 32767 output lines");
            if (out.size() > 4096) x.probe("output larger than a stdio buffer");
            continue;
        }
        int k = o.exited ? o.code : 1000 + o.sig;
        if (k != code || (code < 1000 && out != first)) {
            x.fail("delivery", "the same bytes delivered differently (run " + std::to_string(i) + ") give another result: exit " +
                                   std::to_string(code) + "/" + std::to_string(k) + ", " + first_diff(first, out));
            return;
        }
    }
}

// =============================================================================================== C02
static const std::vector<i64> READ_ERRS = {EIO, EIO, EISDIR, ESTALE, EBADF, EAGAIN, EINTR, ENOMEM, ENXIO, ETIMEDOUT, EINVAL, EOVERFLOW};

static std::vector<i64> positions(Rng &r, const std::string &data, size_t k) {
    std::set<i64> p = {0, (i64) data.size()};
    if (data.size() > 1) p.insert((i64) data.size() - 1);
    std::vector<i64> nl;
    for (size_t i = 0; i < data.size(); ++i)
        if (data[i] == '\n') nl.push_back((i64) i);
    for (int j = 0; j < 4 && !nl.empty(); ++j) p.insert(r.pick(nl) + (i64) r.range(0, 1));
    for (int j = 0; p.size() < k && j < 40; ++j) p.insert(r.range(0, (i64) data.size()));
    return std::vector<i64>(p.begin(), p.end());
}

void gen_C02(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.modes = SC_FILTER;
    o.big = 6;
    o.debug = 1;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, true, false);
    if (s.in_obj == "/work/in.txt" && r.chance(6)) {      // input is a directory
        s.fs["/work/in.txt"].type = 'd';
        s.fs["/work/in.txt"].data = "";
    } else if (s.in_obj == "<stdin>" && r.chance(4)) {
        s.run.stdin_kind = SIN_CLOSED;
    }
    put_scenario(c, s);
    c.kv["sweep"] = std::to_string(r.next() >> 1);
    c.kv["sweepn"] = tier ? "40" : "10";
}
static void eval_C02(const Case &c, Ctx &x, const Outcome &ref) {
    const RunSpec &s = c.runs[0];
    std::string in = kvs(c, "in"), out = kvs(c, "out");
    Outcome o = x.run(s, c.fs);
    bool err = false;
    for (auto &r : o.log)
        if (r.op == OP_READ && r.res < 0 && o.objs[r.obj] == in) err = true;
    if (!err) {
        x.probe("read fault not reached");
        return;
    }
    x.nontrivial = true;
    if (!crash_free(c, x, o, "read error on the input")) return;
    bool same = ref.exited && o.exited && o.code == ref.code && outcome_output(o, out) == outcome_output(ref, out);
    if (o.code == 0) {
        bool refbad = false;      // the fault-free run itself met an unreadable input (directory, closed stdin)
        for (auto &r : ref.log)
            if (r.op == OP_READ && r.res < 0 && ref.objs[r.obj] == in) refbad = true;
        if (same && !refbad && ref.code == 0) {
            x.probe("transient read error overcome");
            return;
        }
        x.fail("silent", "a read error on the input was ignored: exit 0, output \"" + esc_short(outcome_output(o, out), 200) + "\"");
        return;
    }
    if (o.err.empty() && !touches(s, "<stderr>")) x.fail("nodiag", "failure without a diagnostic after a read error: " + o.brief());
    if (wrote(o, "<stdout>") || (out != "<stdout>" && wrote(o, out)))
        x.fail("partial", "output after a read error: \"" + esc_short(o.out + outcome_output(o, out), 200) + "\"");
}
void check_C02(const Case &c, Ctx &x) {
    Outcome ref = x.run(without_faults(c.runs[0]), c.fs);
    if (ref.exited && ref.code == 0) x.probe("reference exit 0");
    if (!c.kv.count("sweep")) {
        eval_C02(c, x, ref);
        return;
    }
    std::string in = kvs(c, "in");
    Rng r(strtoull(kvs(c, "sweep").c_str(), nullptr, 10));
    std::vector<std::vector<Fault>> cands;
    if (c.runs[0].stdin_kind == SIN_CLOSED || (c.fs.count(in) && c.fs.at(in).type == 'd')) cands.push_back({});
    for (i64 p : positions(r, text_of(c.fs, "/work/in.txt"), (size_t) atoi(kvs(c, "sweepn").c_str()))) {
        Fault f;
        f.op = OP_READ;
        f.obj = in;
        f.off = p;
        f.cnt = r.chance(50) ? -1 : r.range(1, 2);
        f.act = ACT_ERR;
        f.a = r.pick(READ_ERRS);
        std::vector<Fault> fl = {f};
        if (r.chance(15)) {          // a second, unrelated fault
            Fault g;
            g.op = OP_WRITE;
            g.obj = "<stdout>";
            g.n = 0;
            g.act = ACT_SHORT;
            g.a = 1;
            fl.push_back(g);
        }
        cands.push_back(fl);
    }
    sweep(c, x, cands, [&](const Case &n, Ctx &y) { eval_C02(n, y, ref); });
}

// =============================================================================================== C03
static const std::vector<i64> WRITE_ERRS = {ENOSPC, ENOSPC, EIO, EIO, EPIPE, EPIPE, EDQUOT, EFBIG, EINTR, EBADF, EAGAIN, EPERM};

void gen_C03(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.big = 6;
    o.debug = 1;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, true, false);
    s.run.sigpipe_ign = r.chance(40);
    put_scenario(c, s);
    c.kv["sweep"] = std::to_string(r.next() >> 1);
    c.kv["sweepn"] = tier ? "40" : "10";
}
static void eval_C03(const Case &c, Ctx &x, const Outcome &ref) {
    const RunSpec &s = c.runs[0];
    std::string out = kvs(c, "out");
    Outcome o = x.run(s, c.fs);
    if (fired_on(o, OP_WRITE) + fired_on(o, OP_CLOSE) == 0) {
        x.probe("write fault not reached");
        return;
    }
    x.nontrivial = true;
    bool epipe = false, sticky = false, lost = o.close_err;
    for (auto &f : s.faults) {
        if (f.act == ACT_ERR && f.op == OP_WRITE && f.a == EPIPE) epipe = true;
        if (f.act == ACT_ERR && f.op == OP_WRITE && f.cnt < 0 && f.obj == out) sticky = true;
    }
    if (o.special != SP_NONE) {
        x.fail("hang", "write fault: " + o.brief());
        return;
    }
    std::string got = outcome_output(o, out), want = outcome_output(ref, out);
    if (sticky && want.compare(0, got.size(), got) != 0)
        x.fail("noprefix", "the output accepted before a lasting write error is not a prefix of the complete output: " + first_diff(got, want));
    if (!o.exited) {
        if (o.sig == SIGPIPE && epipe && !s.sigpipe_ign) {
            x.probe("ended by SIGPIPE");
            return;
        }
        x.fail("crash", "write fault: " + o.brief());
        return;
    }
    if (o.code == 0) {
        if (got != want) x.fail("silent", "exit status 0 although the output is incomplete: " + first_diff(got, want));
        else if (lost) x.fail("silent-close", "exit status 0 although closing the output failed");
        else if (out != "<stdout>" && o.out != ref.out) x.fail("silent", "exit status 0 but standard output differs: " + first_diff(o.out, ref.out));
        return;
    }
    if (ref.code == 0) x.probe("write error reported");
    if (ref.code == 0 && !touches(s, "<stderr>") && (o.err.empty() || o.err == ref.err))
        x.fail("nodiag", "failure without a diagnostic after a write error: exit " + std::to_string(o.code));
}
void check_C03(const Case &c, Ctx &x) {
    Outcome ref = x.run(without_faults(c.runs[0]), c.fs);
    if (!c.kv.count("sweep")) {
        eval_C03(c, x, ref);
        return;
    }
    std::string out = kvs(c, "out"), full = outcome_output(ref, out);
    if (full.empty()) return;
    Rng r(strtoull(kvs(c, "sweep").c_str(), nullptr, 10));
    std::vector<std::vector<Fault>> cands;
    for (i64 p : positions(r, full, (size_t) atoi(kvs(c, "sweepn").c_str()))) {
        Fault f;
        f.op = OP_WRITE;
        f.obj = out;
        f.off = p;
        f.cnt = r.chance(60) ? -1 : r.range(1, 3);
        f.act = ACT_ERR;
        f.a = r.pick(WRITE_ERRS);
        std::vector<Fault> fl = {f};
        if (r.chance(15)) {
            Fault g = f;
            g.off = -1;
            g.n = r.range(0, 6);
            g.cnt = r.range(1, 30);
            g.act = ACT_SHORT;
            g.a = r.range(1, 40);
            if (r.chance(50)) fl = {g};
            else fl.push_back(g);
        }
        cands.push_back(fl);
    }
    Fault k;
    k.op = OP_CLOSE;
    k.obj = out;
    k.act = ACT_ERR;
    k.a = r.pick(std::vector<i64>{EIO, ENOSPC, EDQUOT});
    cands.push_back({k});
    sweep(c, x, cands, [&](const Case &n, Ctx &y) { eval_C03(n, y, ref); });
}

// =============================================================================================== C05
void gen_C05(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.modes = SC_FILTER | SC_INFO;
    o.cld = 0;
    o.parents = 45;
    o.fullcorpus = 2;
    o.debug = 1;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, true, false);
    bool mandatory = s.run.env.count("BOXES") || std::find(s.run.argv.begin(), s.run.argv.end(), "-f") != s.run.argv.end();
    if (mandatory && r.chance(60)) {      // somebody else's designs wait in the places which are not to be searched
        for (auto *p : {"/usr/share/boxes", "/home/u/.boxes", "/home/u/.config/boxes/boxes-config"})
            if (!s.fs.count(p) && r.chance(70)) s.fs[p].data = decoy_config();
    }
    put_scenario(c, s);
    c.kv["sweep"] = std::to_string(r.next() >> 1);
    c.kv["sweepn"] = tier ? "24" : "8";
}
static void eval_C05(const Case &c, Ctx &x, const Outcome &ref) {
    const RunSpec &s = c.runs[0];
    std::string out = kvs(c, "out");
    Outcome o = x.run(s, c.fs);
    bool harmless = true;
    u64 fired = fired_on(o, OP_READ) + fired_on(o, OP_OPEN) + fired_on(o, OP_STAT) + fired_on(o, OP_SEEK);
    for (auto &f : s.faults)
        if (f.act == ACT_ERR) harmless = false;
    if (fired == 0) {
        x.probe("configuration fault not reached");
        if (s.faults.size()) return;
    } else x.nontrivial = true;
    if (!crash_free(c, x, o, "fault on a configuration file")) return;
    bool same = o.code == ref.code && outcome_output(o, out) == outcome_output(ref, out) && o.out == ref.out;
    if (same && (o.code == 0 || wrote(ref, out))) return;
    if (harmless) {
        if (!same || ref.code != o.code)
            x.fail("delivery", "chunking or interruption of reading the configuration changes the result: exit " + std::to_string(ref.code) +
                                   "/" + std::to_string(o.code) + ", " + first_diff(outcome_output(ref, out), outcome_output(o, out)));
        return;
    }
    if (o.code == 0) {
        x.fail("halfused", "a failing configuration file was used in part: exit 0, " + first_diff(outcome_output(ref, out), outcome_output(o, out)));
        return;
    }
    if (o.err.empty() && !touches(s, "<stderr>")) x.fail("nodiag", "failure without a diagnostic: " + o.brief());
    if (wrote(o, "<stdout>") || (out != "<stdout>" && wrote(o, out)))
        x.fail("partial", "output in spite of a failing configuration file: \"" + esc_short(o.out + outcome_output(o, out), 200) + "\"");
    else x.probe("configuration failure reported");
}
void check_C05(const Case &c, Ctx &x) {
    RunSpec plain = without_faults(c.runs[0]);
    RunSpec def;
    plain.rchunk = 0;
    plain.inbuf = def.inbuf;
    Outcome ref = x.run(plain, c.fs);
    if (!ref.exited) {
        x.probe("reference run ended by a signal");
        return;
    }
    if (!c.kv.count("sweep")) {
        eval_C05(c, x, ref);
        return;
    }
    Rng r(strtoull(kvs(c, "sweep").c_str(), nullptr, 10));
    auto cfgs = lines_kv(c, "cfgs");
    std::vector<std::vector<Fault>> cands;
    cands.push_back({});                       // only the delivery differs
    for (size_t k = 0; k < cfgs.size(); ++k) {
        std::string data = text_of(c.fs, cfgs[k]);
        for (i64 p : positions(r, data, (size_t) atoi(kvs(c, "sweepn").c_str()) / cfgs.size() + 1)) {
            Fault f;
            f.op = OP_READ;
            f.obj = cfgs[k];
            f.off = p;
            f.cnt = r.chance(50) ? -1 : r.range(1, 2);
            f.act = ACT_ERR;
            f.a = r.chance(20) ? EINTR : r.pick(READ_ERRS);
            if (f.a == EINTR) f.cnt = r.range(1, 3);        // a signal storm without end is no configuration fault
            cands.push_back({f});
        }
    }
    for (int j = 0; j < 3; ++j) {
        Fault f;
        f.op = r.pick(std::vector<Op>{OP_OPEN, OP_OPEN, OP_STAT});
        f.obj = cfgs[0];
        f.n = r.range(0, 2);
        f.cnt = r.chance(50) ? -1 : 1;
        f.act = ACT_ERR;
        f.a = r.pick(std::vector<i64>{EACCES, EMFILE, ENFILE, EIO, ENOENT, ELOOP, ENOMEM, ESTALE});
        cands.push_back({f});
    }
    sweep(c, x, cands, [&](const Case &n, Ctx &y) { eval_C05(n, y, ref); });
}

// =============================================================================================== C07
void gen_C07(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.big = 1;
    o.fullcorpus = 1;
    o.corpus = 25;
    o.debug = 1;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, false, true);
    if (s.mode == "draw" && r.chance(20)) {       // tabs to be kept, or restored
        std::string &t = s.fs["/work/in.txt"].data;
        if (t.size() < 5000) {
            std::string n;
            for (auto &l : split_lines(t)) n += (r.chance(60) ? std::string((size_t) r.range(1, 3), '\t') : "") + l + "\n";
            t = n;
        }
        s.run.argv.insert(s.run.argv.begin(), {"-t", r.pick(std::vector<std::string>{"8k", "4k", "2k", "8u", "4u", "8"})});
    }
    put_scenario(c, s);
    c.kv["sweep"] = std::to_string(r.next() >> 1);
    c.kv["sweepn"] = tier ? "80" : "25";
}
static void eval_C07(const Case &c, Ctx &x, const Outcome &ref) {
    const RunSpec &s = c.runs[0];
    std::string out = kvs(c, "out");
    Outcome o = x.run(s, c.fs);
    if (fired_on(o, OP_ALLOC) == 0) return;
    x.nontrivial = true;
    if (o.special != SP_NONE) {
        x.fail("hang", "allocation failure: " + o.brief());
        return;
    }
    if (!o.exited) {
        x.probe("allocation failure ends in a signal");
        return;
    }
    if (o.code != 0) {
        x.probe("allocation failure reported");
        return;
    }
    x.probe("allocation failure survived");
    if (outcome_output(o, out) != outcome_output(ref, out) || o.out != ref.out)
        x.fail("wrong", "exit 0 after a failed allocation, but the output is wrong: " + first_diff(outcome_output(ref, out) + o.out, outcome_output(o, out) + ref.out));
}
void check_C07(const Case &c, Ctx &x) {
    Outcome ref = x.run(without_faults(c.runs[0]), c.fs);
    if (!ref.exited || ref.code != 0) {
        x.probe("reference run fails");
        return;
    }
    if (!c.kv.count("sweep")) {
        eval_C07(c, x, ref);
        return;
    }
    Rng r(strtoull(kvs(c, "sweep").c_str(), nullptr, 10));
    std::vector<std::vector<Fault>> cands;
    int n = atoi(kvs(c, "sweepn").c_str());
    for (int i = 0; i < n; ++i) {
        Fault f;
        f.op = OP_ALLOC;
        u64 total = ref.allocs;
        if (!total) break;
        // some of the first (options, discovery), of the last (output), and of all allocations
        int where = (int) r.below(4);
        if (where == 0) f.n = r.range(0, (i64) std::min<u64>(total, 60) - 1);
        else if (where == 1) f.n = (i64) total - 1 - r.range(0, (i64) (total / 10));
        else f.n = r.range(0, (i64) total - 1);
        f.cnt = r.chance(60) ? 1 : -1;
        f.act = ACT_ERR;
        f.a = ENOMEM;
        cands.push_back({f});
    }
    sweep(c, x, cands, [&](const Case &m, Ctx &y) { eval_C07(m, y, ref); });
}

// =============================================================================================== C09
static Fault random_fault(Rng &r, const Case &c, const Outcome &ref) {
    Fault f;
    int k = (int) r.below(100);
    if (k < 25) {
        f.op = OP_ANY;
        f.n = r.range(0, (i64) std::max<u64>(ref.steps, 1));
        f.act = r.chance(50) ? ACT_KILL : ACT_ERR;
        f.a = r.pick(std::vector<i64>{EIO, ENOSPC, EMFILE, EACCES});
    } else if (k < 45) {
        f.op = OP_WRITE;
        f.obj = r.chance(80) ? kvs(c, "out") : "<stderr>";
        f.n = r.range(0, 5);
        f.act = ACT_ERR;
        f.a = r.pick(WRITE_ERRS);
    } else if (k < 65) {
        f.op = OP_READ;
        f.n = r.range(0, 8);
        f.act = ACT_ERR;
        f.a = r.pick(READ_ERRS);
    } else if (k < 80) {
        f.op = r.pick(std::vector<Op>{OP_OPEN, OP_STAT, OP_OPENDIR, OP_CLOSE});
        f.n = r.range(0, 6);
        f.act = ACT_ERR;
        f.a = r.pick(std::vector<i64>{EACCES, ENOENT, EMFILE, EIO, ELOOP});
    } else {
        f.op = OP_ALLOC;
        f.n = r.range(0, (i64) std::max<u64>(ref.allocs, 1));
        f.act = r.chance(85) ? ACT_ERR : ACT_KILL;
        f.a = ENOMEM;
    }
    if (f.op != OP_CLOSE) f.cnt = r.chance(70) ? 1 : -1;
    return f;
}
void gen_C09(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.outfile = 50;
    o.debug = 4;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, true, false);
    if (r.chance(10)) {        // unusable command lines
        s.run.argv.insert(s.run.argv.begin(), r.pick(std::vector<std::string>{"--bogus", "-Z", "-s0", "-pq", "-t0", "-akk", "-ix", "-ezz", "-kmaybe", "-xnope"}));
    }
    if (r.chance(12)) {        // no configuration anywhere
        for (auto &f : s.cfgs) s.fs.erase(f);
        s.fs.erase("/usr/share/boxes");
        s.fs.erase("/home/u/.boxes");
        if (r.chance(50)) {
            auto &a = s.run.argv;
            auto f = std::find(a.begin(), a.end(), "-f");
            if (f != a.end()) a.erase(f, f + 2);
            s.run.env.erase("BOXES");
        }
        s.cfgs.clear();
    }
    if (r.chance(30)) {
        s.run.env["XDG_CONFIG_HOME"] = "/home/u/xdg";
        s.fs["/home/u/xdg/other"].data = "o\n";
        if (r.chance(30)) s.fs["/home/u/xdg/boxes/readme"].data = "r\n";
    }
    // bystanders
    s.fs["/work/other.txt"].data = "do not touch\n";
    s.fs["/home/u/notes"].data = "n\n";
    if (!s.in_obj.empty() && s.in_obj[0] == '/' && r.chance(3)) s.fs.erase(s.in_obj);
    put_scenario(c, s);
    c.kv["sweep"] = std::to_string(r.next() >> 1);
    c.kv["sweepn"] = tier ? "20" : "6";
}
static void eval_C09(const Case &c, Ctx &x) {
    std::string out = kvs(c, "out");
    Outcome o = x.run(c.runs[0], c.fs);
    x.nontrivial = true;
    if (o.special == SP_KILLED) x.probe("killed in the middle");
    for (auto &p : o.opened_w)
        if (p != out) x.fail("open", "opened for writing although it is not the output file: " + p);
    for (auto &p : o.mutated)
        if (p != out) x.fail("change", "changed although it is not the output file: " + p);
    std::string which;
    if (changed_fs_except(c.fs, o.fs, out, which)) x.fail("change", "file system differs after the run: " + which);
    if (o.fs.count(out) == 0 && c.fs.count(out)) x.fail("remove", "the output file was removed");
    if (o.spawned) x.fail("spawn", "tried to start another program or connection");
}
void check_C09(const Case &c, Ctx &x) {
    Outcome ref = x.run(without_faults(c.runs[0]), c.fs);
    if (!c.kv.count("sweep")) {
        eval_C09(c, x);
        return;
    }
    Rng r(strtoull(kvs(c, "sweep").c_str(), nullptr, 10));
    std::vector<std::vector<Fault>> cands;
    cands.push_back({});
    int n = atoi(kvs(c, "sweepn").c_str());
    for (int i = 0; i < n; ++i) {
        std::vector<Fault> fl = {random_fault(r, c, ref)};
        if (r.chance(25)) fl.push_back(random_fault(r, c, ref));
        cands.push_back(fl);
    }
    sweep(c, x, cands, eval_C09);
}

// =============================================================================================== C10
static void drop_opt(std::vector<std::string> &a, const std::string &opt) {
    for (size_t i = 0; i + 1 < a.size();)
        if (a[i] == opt) a.erase(a.begin() + (long) i, a.begin() + (long) i + 2);
        else ++i;
}
void gen_C10(Case &c, Rng &r, int tier) {
    (void) tier;
    int k = (int) r.below(100);
    ScnOpt o;
    if (k < 30) {                     // information modes
        o.modes = SC_INFO | SC_HELP | SC_VERSION;
        o.debug = 5;
        Scn s = gen_scenario(r, o);
        s.run.stdin_kind = r.chance(85) ? SIN_NEVER : SIN_CLOSED;
        s.run.stdin_from.clear();
        put_scenario(c, s);
        c.kv["what"] = "no input needed: " + s.mode;
        c.kv["noread"] = "1";
    } else if (k < 50) {              // named input
        o.modes = SC_FILTER;
        o.infile = 100;
        Scn s = gen_scenario(r, o);
        s.run.stdin_kind = r.chance(85) ? SIN_NEVER : SIN_CLOSED;
        put_scenario(c, s);
        c.kv["what"] = "named input file";
        c.kv["noread"] = "1";
    } else if (k < 75) {              // runs that must fail early
        o.modes = SC_FILTER;
        o.infile = r.chance(50) ? 100 : 0;
        o.outfile = 40;
        o.exotic = r.chance(50);
        Scn s = gen_scenario(r, o);
        s.run.stdin_kind = SIN_NEVER;
        s.run.stdin_from.clear();
        c.kv["what"] = "early failure: ";
        switch (r.below(6)) {
            case 0: {
                bool last;
                char opt;
                auto b = gen_bad_option(r, last, opt);
                if (opt == 'x')           // undocumented option: only its first occurrence is validated
                    drop_opt(s.run.argv, "-x");
                if (last) {           // missing argument of the last option: no files behind it
                    while (!s.run.argv.empty() && (s.run.argv.back() == "-" || s.run.argv.back().find(".txt") != std::string::npos)) s.run.argv.pop_back();
                    s.run.argv.insert(s.run.argv.end(), b.begin(), b.end());
                } else s.run.argv.insert(s.run.argv.begin(), b.begin(), b.end());
                c.kv["what"] += "bad option";
                break;
            }
            case 1:
                for (auto &f : s.cfgs) s.fs.erase(f);
                s.fs.erase("/usr/share/boxes");
                s.fs.erase("/home/u/.boxes");
                if (s.cfgs.empty()) s.run.argv.insert(s.run.argv.begin(), "--bogus");
                c.kv["what"] += "no configuration";
                break;
            case 2:
                if (s.cfgs.empty()) s.run.argv.insert(s.run.argv.begin(), "--bogus");
                for (auto &f : s.cfgs) s.fs[f].data = r.pick(std::vector<std::string>{"", "# nothing\n", "this is no configuration\n", "BOX broken\n"});
                c.kv["what"] += "no usable design";
                break;
            case 3:
                if (s.cfgs.empty()) s.run.argv.insert(s.run.argv.begin(), "--bogus");
                s.run.argv.insert(s.run.argv.begin(), {"-d", "no-such-design"});
                for (size_t i = 2; i + 1 < s.run.argv.size(); ++i)
                    if (s.run.argv[i] == "-d" || s.run.argv[i] == "--design") s.run.argv[i + 1] = "no-such-design";
                c.kv["what"] += "unknown design";
                break;
            case 4:
                while (!s.run.argv.empty() && (s.run.argv.back() == "-" || s.run.argv.back().find(".txt") != std::string::npos)) s.run.argv.pop_back();
                s.run.argv.push_back("/work/missing.txt");
                c.kv["what"] += "missing input file";
                break;
            default:
                while (!s.run.argv.empty() && (s.run.argv.back() == "-" || s.run.argv.back().find(".txt") != std::string::npos)) s.run.argv.pop_back();
                s.run.argv.push_back("-");
                s.run.argv.push_back("/nonexistent-dir/out.txt");
                c.kv["what"] += "unopenable output file";
        }
        put_scenario(c, s);
        c.kv["noread"] = "1";
        c.kv["mustfail"] = "1";
    } else {                          // promptness after the end of the input
        o.modes = SC_FILTER;
        o.big = 10;
        Scn s = gen_scenario(r, o);
        random_knobs(r, s.run, true, false);
        for (int i = 0; i < 3; ++i) {
            Fault f;
            f.op = OP_READ;
            f.obj = s.in_obj;
            f.n = r.range(0, 6);
            f.act = ACT_STALL;
            f.a = r.range(1, 100000);
            s.run.faults.push_back(f);
        }
        put_scenario(c, s);
        c.kv["what"] = "prompt end";
        c.kv["prompt"] = "1";
    }
    if (r.chance(35)) {
        c.runs[0].tty_in = true;
        c.runs[0].tty_err = r.chance(60);
        c.runs[0].tty_out = r.chance(50);
    }
}
void check_C10(const Case &c, Ctx &x) {
    Outcome o = x.run(c.runs[0], c.fs);
    if (c.runs[0].tty_in) x.probe("standard input is a terminal");
    x.nontrivial = true;
    std::string what = kvs(c, "what");
    x.probe(what);
    if (o.special == SP_RUNAWAY || o.special == SP_CPU) {
        x.fail("endless", what + ": " + o.brief());
        return;
    }
    if (c.kv.count("noread")) {
        bool rd = o.special == SP_BLOCKED;
        for (auto &r : o.log)
            if (r.op == OP_READ && o.objs[r.obj] == "<stdin>") rd = true;
        if (rd) x.fail("reads-stdin", "standard input is read although it is not needed (" + what + "): " + o.brief());
        if (c.kv.count("mustfail") && o.special == SP_NONE && !rd && o.exited && o.code == 0)
            x.probe("run expected to fail exits 0");
    }
    if (c.kv.count("prompt")) {
        std::string in = kvs(c, "in"), out = kvs(c, "out");
        if (o.special == SP_BLOCKED) {
            x.fail("endless", "waits for input after the end of the input: " + o.brief());
            return;
        }
        bool eof = false;
        u64 after = 0;
        for (auto &r : o.log) {
            if (eof) ++after;
            if (r.op == OP_READ && r.res == 0 && o.objs[r.obj] == in) eof = true;
        }
        u64 bound = 60 + text_of(c.fs, "/work/in.txt").size() + o.out.size() + o.err.size() + outcome_output(o, out).size();
        if (after > bound) x.fail("slow", std::to_string(after) + " system calls after the end of the input, bound " + std::to_string(bound));
    }
}

// =============================================================================================== C11
void gen_C11(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.modes = SC_FILTER | SC_INFO;
    o.outfile = 100;
    o.infile = 60;
    o.big = 8;
    o.debug = 0;
    Scn s;
    for (int i = 0; i < 20; ++i) {
        s = gen_scenario(r, o);
        if (s.out_obj == "/work/out.txt") break;
    }
    random_knobs(r, s.run, true, false);
    if (r.chance(60)) s.run.outbuf = r.pick(std::vector<int>{0, 1, 16, 64, -1});
    put_scenario(c, s);
    if (s.out_obj != "/work/out.txt") {
        c.kv["skip"] = "1";
        return;
    }
    c.kv["sweep"] = std::to_string(r.next() >> 1);
    c.kv["sweepn"] = tier ? "40" : "10";
}
static void eval_C11(const Case &c, Ctx &x, const Outcome &ref) {
    std::string out = kvs(c, "out"), full = outcome_output(ref, out), old = text_of(c.fs, out);
    bool existed = c.fs.count(out);
    Fs fs = c.fs;
    int later = 0;                             // minutes between the attempts
    for (auto &f : c.runs[0].faults) {         // each kill is one crash; the next one starts from what was left
        RunSpec s = c.runs[0];
        s.faults = {f};
        s.clock0 += 60 * ++later;
        Outcome o = x.run(s, fs);
        std::string which;
        if (changed_fs_except(fs, o.fs, out, which)) {
            x.fail("other", "a file other than the output file changed: " + which);
            return;
        }
        if (o.special == SP_KILLED) {
            x.nontrivial = true;
            auto it = o.fs.find(out);
            if (it == o.fs.end()) {
                if (fs.count(out)) x.fail("gone", "the output file disappeared after a kill");
            } else {
                const std::string &d = it->second.data;
                bool prefix = full.compare(0, d.size(), d) == 0;
                bool keeps = fs.count(out) && d == fs.at(out).data;
                if (!prefix && !keeps && !(existed && d == old))
                    x.fail("torn", "after a kill the output file is neither its old content nor a prefix of the result: \"" + esc_short(d, 200) + "\"");
                if (!d.empty() && d.size() < full.size() && prefix) x.probe("killed with a partial output file");
                if (keeps && !d.empty() && d != full) x.probe("killed before the output file was opened");
            }
        }
        fs = o.fs;
        if (!x.viol.empty()) return;
    }
    RunSpec again = without_faults(c.runs[0]);
    again.clock0 += 60 * ++later;
    Outcome o = x.run(again, fs);
    if (!o.exited || o.code != ref.code || outcome_output(o, out) != full)
        x.fail("rerun", "running the same command again after a kill does not give the complete result: " + o.brief() + ", " +
                            first_diff(outcome_output(o, out), full));
}
void check_C11(const Case &c, Ctx &x) {
    if (c.kv.count("skip")) return;
    Fs clean = c.fs;
    clean.erase(kvs(c, "out"));
    // the complete result must not depend on what was in the output file before
    Outcome ref = x.run(without_faults(c.runs[0]), clean);
    if (!ref.exited || ref.code != 0) {
        x.probe("reference run fails without any kill");
        return;
    }
    if (!c.kv.count("sweep")) {
        eval_C11(c, x, ref);
        return;
    }
    Rng r(strtoull(kvs(c, "sweep").c_str(), nullptr, 10));
    std::vector<std::vector<Fault>> cands;
    cands.push_back({});
    int n = atoi(kvs(c, "sweepn").c_str());
    auto kill = [&]() {
        Fault f;
        f.act = ACT_KILL;
        if (r.chance(50)) {
            f.op = OP_ANY;
            f.n = r.range(0, (i64) ref.steps);
        } else if (r.chance(70)) {
            f.op = OP_WRITE;
            f.obj = kvs(c, "out");
            f.off = r.range(0, (i64) outcome_output(ref, kvs(c, "out")).size());
        } else {
            f.op = OP_ALLOC;
            f.n = r.range(0, (i64) ref.allocs);
        }
        return f;
    };
    for (int i = 0; i < n; ++i) {
        std::vector<Fault> fl = {kill()};
        while (fl.size() < 3 && r.chance(25)) fl.push_back(kill());
        cands.push_back(fl);
    }
    sweep(c, x, cands, [&](const Case &m, Ctx &y) { eval_C11(m, y, ref); });
}

// =============================================================================================== C13
void gen_C13(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.modes = SC_FILTER | SC_INFO;
    o.cld = 5;
    o.parents = 35;
    o.big = 8;
    o.debug = 0;
    o.outfile = 20;
    o.fullcorpus = 2;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, true, false);
    std::vector<std::string> targets = s.cfgs;
    bool reads = s.in_obj == "/work/in.txt";
    if (reads) targets.push_back("/work/in.txt");
    if (targets.empty()) {
        c.kv["skip"] = "1";
        put_scenario(c, s);
        return;
    }
    put_scenario(c, s);
    std::string t = reads && r.chance(40) ? "/work/in.txt" : r.pick(targets);
    c.kv["target"] = t;
    if (r.chance(20)) c.kv["op"] = "remove";
    else {
        c.kv["op"] = "replace";
        std::string now = s.fs[t].data, next;
        if (t == "/work/in.txt") {
            TxtOpt to;
            to.big = 15;
            next = gen_text(r, to).bytes();
        } else {
            // same design names, other looks; or more designs; shorter or longer file
            std::vector<std::string> names;
            for (auto &l : split_lines(now))
                if (l.compare(0, 4, "BOX ") == 0) {
                    std::string nm = l.substr(4);
                    names.push_back(nm.substr(0, nm.find_first_of(", ")));
                }
            if (names.size() > 6) names.resize(6);
            if (names.empty()) names = {"pbox"};
            for (auto &l : split_lines(now))
                if (l.compare(0, 7, "parent ") == 0) next += l + "\n";
            size_t pad = r.chance(40) ? (size_t) r.range(1000, 40000) : 0;
            while (next.size() < pad) next += "# longer file ................................................................\n";
            for (auto &nm : names) next += gen_design(r, nm).config() + "\n";
            if (r.chance(30)) next += gen_design(r, "newone").config();
        }
        c.kv["data"] = next;
    }
    c.kv["sweep"] = std::to_string(r.next() >> 1);
    c.kv["sweepn"] = tier ? "40" : "12";
}
static void eval_C13(const Case &c, Ctx &x, const Outcome &a, const Outcome &b) {
    std::string out = kvs(c, "out");
    Outcome o = x.run(c.runs[0], c.fs);
    bool swapped = false;
    for (int i = 0; i < OP_NUM; ++i) swapped |= o.fired[i][ACT_FSOP] > 0;
    if (!swapped) return;
    x.nontrivial = true;
    if (!crash_free(c, x, o, "file replaced during the run")) return;
    // the listing of all designs first names the configuration files; a parent that vanished after it was looked up may or may
    // not be named there
    bool list = kvs(c, "mode") == "list" && kvs(c, "op") == "remove";
    auto body = [&](const Outcome &p) {
        std::string t = outcome_output(p, out);
        if (!list) return t;
        std::string u;
        for (auto &l : split_lines(t))
            if (!l.empty() && l.find("Available Style") == std::string::npos && l.find_first_not_of("-\r") != std::string::npos &&
                l.find("Configuration Files:") != 0 && l.find("    - /") != 0)
                u += l + "\n";
        return u;
    };
    auto eq = [&](const Outcome &p) { return p.exited && p.code == o.code && body(p) == body(o) && (list || p.out == o.out); };
    bool ea = eq(a), eb = eq(b);
    if (ea && !eb) x.probe("saw the old version");
    if (eb && !ea) x.probe("saw the new version");
    if (ea || eb) return;
    if (o.code != 0 && !wrote(o, "<stdout>") && (out == "<stdout>" || !wrote(o, out))) {
        x.probe("failed cleanly");
        if (o.err.empty()) x.fail("nodiag", "failure without a diagnostic: " + o.brief());
        return;
    }
    x.fail("mixture", "result fits neither the old nor the new version of " + kvs(c, "target") + ": " + o.brief() + " output \"" +
                          esc_short(outcome_output(o, out), 200) + "\" old \"" + esc_short(outcome_output(a, out), 200) + "\" new \"" +
                          esc_short(outcome_output(b, out), 200) + "\"");
}
void check_C13(const Case &c, Ctx &x) {
    if (c.kv.count("skip")) return;
    Outcome a = x.run(without_faults(c.runs[0]), c.fs);
    Fs after = c.fs;
    std::string t = kvs(c, "target");
    if (kvs(c, "op") == "remove") after.erase(t);
    else after[t].data = kvs(c, "data");
    Outcome b = x.run(without_faults(c.runs[0]), after);
    if (!c.kv.count("sweep")) {
        eval_C13(c, x, a, b);
        return;
    }
    Rng r(strtoull(kvs(c, "sweep").c_str(), nullptr, 10));
    std::vector<std::vector<Fault>> cands;
    int n = atoi(kvs(c, "sweepn").c_str());
    for (int i = 0; i < n; ++i) {
        Fault f;
        f.act = ACT_FSOP;
        f.fsop = kvs(c, "op");
        f.path = t;
        f.data = kvs(c, "data");
        int k = (int) r.below(100);
        if (k < 45) {
            f.op = OP_ANY;
            f.n = r.range(0, (i64) a.steps);
        } else if (k < 65) {
            f.op = OP_READ;
            f.obj = t;
            f.n = r.range(0, 6);
        } else if (k < 80) {
            f.op = OP_OPEN;
            f.obj = t;
            f.n = r.range(0, 2);
        } else if (k < 90) {
            f.op = OP_STAT;
            f.obj = t;
            f.n = r.range(0, 2);
        } else {
            f.op = OP_READ;
            f.obj = t;
            f.off = r.range(0, (i64) text_of(c.fs, t).size());
        }
        cands.push_back({f});
    }
    sweep(c, x, cands, [&](const Case &m, Ctx &y) { eval_C13(m, y, a, b); });
}

// =============================================================================================== C14
void gen_C14(Case &c, Rng &r, int tier) {
    (void) tier;
    ScnOpt o;
    o.modes = SC_FILTER | SC_LIST | SC_QUERY;
    o.infile = 80;
    o.outfile = 80;
    o.exotic = r.chance(60);
    o.debug = 3;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, true, false);
    auto &a = s.run.argv;
    auto drop_files = [&]() {
        while (!a.empty() && (a.back() == "-" || a.back().find(".txt") != std::string::npos)) a.pop_back();
    };
    auto files = [&](const std::string &in, const std::string &out) {
        drop_files();
        a.push_back(in);
        if (!out.empty()) a.push_back(out);
    };
    std::string target = "/work/out.txt";
    if (r.chance(70)) s.fs[target].data = "precious old content\n" + std::string(r.below(3000), 'x');
    else s.fs.erase(target);
    bool toutf = r.chance(75);
    switch (r.below(5)) {
        case 0: {
            bool last;
            char opt;
            auto b = gen_bad_option(r, last, opt);
            if (opt == 'x') drop_opt(a, "-x");       // undocumented option: only its first occurrence is validated
            if (last) {
                drop_files();
                if (r.chance(50)) a.insert(a.begin(), {"/work/in.txt", target});     // files may precede options
                a.insert(a.end(), b.begin(), b.end());
            } else {
                // behind the options there are, before them, or behind the files; a valid use of the same option does not heal it
                files(r.chance(70) ? "/work/in.txt" : "-", toutf ? target : "");
                size_t at = r.chance(50) ? 0 : (r.chance(50) ? a.size() - (toutf ? 2 : 1) : a.size());
                a.insert(a.begin() + (long) at, b.begin(), b.end());
                if (opt && r.chance(20)) {
                    static const std::map<char, std::string> good = {{'a', "hc"}, {'e', "LF"}, {'i', "box"}, {'k', "yes"}, {'p', "a1"}, {'s', "20x5"}, {'t', "4e"}, {'c', "#"}};
                    auto g = good.find(opt);
                    if (g != good.end()) {
                        at = r.chance(50) ? 0 : at + b.size();
                        a.insert(a.begin() + (long) at, {std::string("-") + opt, g->second});
                    }
                }
            }
            c.kv["what"] = "bad option";
            break;
        }
        case 1:
            files(r.chance(70) ? "/work/in.txt" : "-", target);
            a.push_back(r.pick(std::vector<std::string>{"/work/third.txt", "-", "x"}));
            if (r.chance(30)) a.push_back("/work/fourth.txt");
            c.kv["what"] = "too many files";
            break;
        case 2:
            files(r.pick(std::vector<std::string>{"/work/missing.txt", "/nodir/in.txt", "/work/in.txt/x", "", "missing.txt", "../work/missing.txt", "/work/in.txt.", "/work/in.txt/", "/dev/nosuch"}), toutf ? target : "");
            c.kv["what"] = "missing input file";
            break;
        case 3: {
            files("/work/in.txt", toutf ? target : "");
            Fault f;
            f.op = OP_OPEN;
            f.obj = "/work/in.txt";
            f.cnt = r.chance(50) ? -1 : 1;
            f.act = ACT_ERR;
            f.a = r.pick(std::vector<i64>{EACCES, EPERM, EMFILE, ENFILE, EIO, ELOOP, ENOMEM, ESTALE, ETXTBSY, EINTR, ENXIO, EOVERFLOW});
            s.run.faults.push_back(f);
            c.kv["what"] = "unopenable input file";
            break;
        }
        default: {
            std::string t = r.pick(std::vector<std::string>{"/nodir/out.txt", "/work/in.txt/out", "/cfg", "/work/out.txt", "/work/out.txt", "/dev/nosuch/x", "/work/out.txt/", "../nodir/o", "/", "", "nodir/nodir/out.txt", "/tmp"});
            files(r.chance(60) ? "/work/in.txt" : "-", t);
            if (t.empty()) a.push_back(t);
            if (t == "/work/out.txt") {
                Fault f;
                f.op = OP_OPEN;
                f.obj = t;
                f.cnt = r.chance(50) ? -1 : 1;
                f.act = ACT_ERR;
                f.a = r.pick(std::vector<i64>{EACCES, EROFS, EMFILE, ENOSPC, EIO, ETXTBSY, EDQUOT, EISDIR, EINTR});
                s.run.faults.push_back(f);
            }
            s.fs["/cfg/keep"].data = "";
            s.fs["/tmp/keep"].data = "";
            target = t;
            c.kv["what"] = "unopenable output file";
        }
    }
    s.out_obj = target;
    put_scenario(c, s);
}
void check_C14(const Case &c, Ctx &x) {
    Outcome o = x.run(c.runs[0], c.fs);
    std::string what = kvs(c, "what");
    x.nontrivial = true;
    x.probe(what);
    if (!crash_free(c, x, o, what.c_str())) return;
    if (o.code == 0) {
        x.fail("accepted", what + ", but exit status 0");
        return;
    }
    if (o.err.empty()) x.fail("nodiag", what + ": failure without a diagnostic");
    if (!o.out.empty()) x.fail("output", what + ": text on standard output: \"" + esc_short(o.out, 200) + "\"");
    std::string which;
    if (changed_fs_except(c.fs, o.fs, "", which)) x.fail("touched", what + ": " + which + " was changed or created");
    for (auto &p : o.mutated) x.fail("touched", what + ": " + p + " was changed");
    for (auto &p : o.opened_w) x.fail("touched", what + ": " + p + " was opened for writing");
}

// =============================================================================================== C18
void gen_C18(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.modes = SC_FILTER | SC_INFO;
    o.cld = 8;
    o.debug = 10;
    o.parents = 30;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, true, false);
    // make boxes complain: run 1 is the same task with something to complain about that must not affect the output
    RunSpec noisy = s.run;
    std::string kind = "none";
    bool filter = s.mode == "draw" || s.mode == "remove" || s.mode == "mend";
    Fs fs = s.fs;
    std::string body;
    if (filter && !s.cfgs.empty()) {
        bool auto_ = true;                    // without -d further designs could be picked up
        for (auto &a : s.run.argv)
            if (a == "-d" || a == "--design") auto_ = false;
        switch (r.below(8)) {
            case 5:
                kind = "ignored entry";
                c.kv["insert"] = r.pick(std::vector<std::string>{"padding { nonsense 3 }\n", "padding { left -4 }\n", "padding { top -1 below 2 }\n",
                                                                  "tags (\"dupl\", \"dupl\")\n", "tags (\"y z!\")\n", "tags (\"x,\")\n"});
                break;
            case 6:
            case 7: {
                // an error which is found only when the design is used
                kind = "bad rule";
                std::string verb = s.mode == "draw" ? "replace" : "reverse", prep = s.mode == "draw" ? "with" : "to";
                static const std::vector<std::pair<std::string, std::string>> BAD{
                    {"(", "x"}, {"[a", "x"}, {"*", ""}, {"a{2,1}", "y"}, {"(?<n", "z"}, {".", "$9"}, {"^", "${"}, {"[A-Za-z]", "${nope}"}, {"x)", "q"}, {".", "$"}};
                auto &b = r.pick(BAD);
                c.kv["insert"] = verb + (r.chance(30) ? " global" : r.chance(30) ? " once" : "") + " \"" + b.first + "\" " + prep + " \"" + b.second + "\"\n";
                break;
            }
            case 0:
                kind = "missing parent";
                body = "parent /cfg/no-such-file.cfg\n";
                break;
            case 1:
                if (!auto_) {
                    kind = "broken design";
                    body = "BOX brokendesign\nsample\nx\nends\nshapes { w (\"a\") ne (\"abc\", \"d\") }\nEND brokendesign\n\n";
                }
                break;
            case 2:
                if (!auto_) {
                    kind = "syntax error";
                    body = "BOX ( oops ] { \nEND\n\n";
                }
                break;
            case 3: kind = "encoding"; break;
            default: kind = "debug";
        }
    } else if (filter) kind = r.chance(50) ? "encoding" : "debug";
    else if ((s.mode == "list" || s.mode == "listone" || s.mode == "query") && !s.cfgs.empty()) {
        switch (r.below(3)) {
            case 0:
                kind = "missing parent";
                body = "parent /cfg/no-such-file.cfg\n";
                break;
            default:
                kind = "ignored entry";
                c.kv["insert"] = r.pick(std::vector<std::string>{"padding { nonsense 3 }\n", "padding { left -4 }\n", "padding { top -1 below 2 }\n"});
        }
    }
    bool has_n = false, has_x = false;
    for (auto &a : s.run.argv) {
        if (a == "-n") has_n = true;
        if (a == "-x") has_x = true;
    }
    if (kind == "encoding") {
        if (has_n) kind = "none";
        else noisy.argv.insert(noisy.argv.begin(), {"-n", "no-such-charset"});
    } else if (kind == "debug") {
        if (has_x || s.fs["/work/in.txt"].data.size() > 3000) kind = "none";
        else noisy.argv.insert(noisy.argv.begin(), {"-x", r.pick(std::vector<std::string>{"debug", "debug:ALL", "debug:PARSER", "debug:REGEXP,MAIN", "debug:LEXER,DISCOVERY"})});
    }
    put_scenario(c, s);
    c.kv["noise"] = kind;
    c.kv["body"] = body;
    if (kind != "none") c.runs.push_back(noisy);
    c.kv["sweep"] = std::to_string(r.next() >> 1);
    c.kv["sweepn"] = tier ? "16" : "5";
}
static bool same_result(const Outcome &a, const Outcome &b, const std::string &out) {
    return a.exited == b.exited && a.code == b.code && a.sig == b.sig && a.out == b.out && outcome_output(a, out) == outcome_output(b, out);
}
static void eval_C18(const Case &c, Ctx &x, const Outcome &ref, const Fs &fs) {
    std::string out = kvs(c, "out");
    RunSpec s = c.runs.back();
    s.faults = c.runs[0].faults;
    Outcome o = x.run(s, fs);
    if (fired_on(o, OP_WRITE) == 0) return;
    x.nontrivial = true;
    if (!same_result(ref, o, out))
        x.fail("depends", "a failing standard error changes the result: " + ref.brief() + " vs " + o.brief() + ", " +
                              first_diff(outcome_output(ref, out), outcome_output(o, out)));
}
// add text at the end of every design of a configuration file that uses the default string delimiters
static std::string insert_in_designs(const std::string &text, const std::string &ins) {
    std::string res;
    size_t i = 0;
    bool odd = false;
    while (i < text.size()) {
        size_t e = text.find('\n', i);
        e = e == std::string::npos ? text.size() : e + 1;
        std::string line = text.substr(i, e - i), low;
        for (char ch : line) low += (char) tolower((unsigned char) ch);
        size_t b = low.find_first_not_of(" \t");
        std::string w = b == std::string::npos ? "" : low.substr(b);
        if (w.compare(0, 4, "box ") == 0) odd = false;
        if (w.find("delim") != std::string::npos) odd = true;
        if (w.compare(0, 4, "end ") == 0 && !odd) res += ins;
        res += line;
        i = e;
    }
    return res;
}
// A run that fails without any injected fault has produced no text on the output.
static void no_output_on_failure(const Outcome &o, const std::string &out, const std::string &what, Ctx &x) {
    if (o.special != SP_NONE || !o.exited || o.code == 0) return;
    if (!o.out.empty())
        x.fail("diag", what + ": the run fails and leaves text on standard output: \"" + esc_short(o.out, 160) + "\", " + o.brief());
    else if (out != "<stdout>" && !outcome_output(o, out).empty() && wrote(o, out))
        x.fail("diag", what + ": the run fails and leaves text in the output file: \"" + esc_short(outcome_output(o, out), 160) + "\", " + o.brief());
}
void check_C18(const Case &c, Ctx &x) {
    std::string out = kvs(c, "out");
    Fs fs = c.fs;
    auto cfgs = lines_kv(c, "cfgs");
    if (!kvs(c, "body").empty() && !cfgs.empty() && fs.count(cfgs[0])) fs[cfgs[0]].data = kvs(c, "body") + fs[cfgs[0]].data;
    if (!kvs(c, "insert").empty())
        for (auto &f : cfgs)
            if (fs.count(f)) fs[f].data = insert_in_designs(fs[f].data, kvs(c, "insert"));
    Outcome clean = x.run(without_faults(c.runs[0]), c.fs);
    Outcome ref = x.run(without_faults(c.runs.back()), fs);
    if (ref.special != SP_NONE || !ref.exited) {
        x.probe("reference run ended by a signal");
        return;
    }
    std::string noise = kvs(c, "noise");
    x.probe("noise: " + noise);
    if (!ref.err.empty()) x.probe("reference run writes diagnostics");
    bool filter = kvs(c, "mode") == "draw" || kvs(c, "mode") == "remove" || kvs(c, "mode") == "mend";
    if (filter) {
        no_output_on_failure(clean, out, "without noise", x);
        no_output_on_failure(ref, out, noise, x);
        if (!x.viol.empty()) return;
    }
    if (noise == "bad rule") {
        if (ref.code != 0 && clean.exited && clean.code == 0) x.nontrivial = true, x.probe("failing run because of a rule");
    } else if (noise == "ignored entry" && ref.err.find("syntax error") != std::string::npos) {
        x.probe("the added entry is a syntax error");
    } else if (noise != "none" && clean.exited && clean.code == 0) {
        x.nontrivial = true;
        if (!same_result(clean, ref, out))
            x.fail("output", "diagnostics (" + noise + ") change the output: " + clean.brief() + " vs " + ref.brief() + ", " +
                                 first_diff(outcome_output(clean, out), outcome_output(ref, out)));
        if (!x.viol.empty()) return;
    }
    if (ref.code != 0 && (wrote(ref, "<stdout>") || (out != "<stdout>" && wrote(ref, out))) && kvs(c, "mode") != "query")
        x.probe("failing run with output");
    if (!c.kv.count("sweep")) {
        eval_C18(c, x, ref, fs);
        return;
    }
    Rng r(strtoull(kvs(c, "sweep").c_str(), nullptr, 10));
    if (!ref.err.empty() && r.chance(50)) {       // standard error is not even open: files get its descriptor
        RunSpec v = without_faults(c.runs.back());
        v.no_stderr = true;
        Outcome o = x.run(v, fs);
        x.nontrivial = true;
        x.probe("descriptor 2 closed");
        if (!same_result(ref, o, out)) {
            x.fail("closed", "started with standard error closed: " + ref.brief() + " vs " + o.brief() + ", " + first_diff(outcome_output(ref, out), outcome_output(o, out)));
            return;
        }
    }
    std::vector<std::vector<Fault>> cands;
    int n = atoi(kvs(c, "sweepn").c_str());
    if (ref.err.empty() || ref.err.size() > 300000) n = 0;
    for (int i = 0; i < n; ++i) {
        Fault f;
        f.op = OP_WRITE;
        f.obj = "<stderr>";
        if (r.chance(50)) f.off = i == 0 ? 0 : r.range(0, (i64) ref.err.size());
        else f.n = i == 0 ? 0 : r.range(0, 20);
        f.cnt = r.chance(60) ? -1 : r.range(1, 4);
        f.act = r.chance(75) ? ACT_ERR : r.chance(50) ? ACT_SHORT : ACT_STALL;
        f.a = f.act == ACT_ERR ? r.pick(std::vector<i64>{EIO, ENOSPC, EBADF, EAGAIN, EINTR, EDQUOT}) : r.range(1, 20);
        cands.push_back({f});
    }
    sweep(c, x, cands, [&](const Case &m, Ctx &y) { eval_C18(m, y, ref, fs); });
}
