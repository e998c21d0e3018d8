// Properties about damaged storage: C19
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <csignal>
#include <functional>
#include <set>

#include "props.h"

static std::string kvs(const Case &c, const std::string &k) {
    auto it = c.kv.find(k);
    return it == c.kv.end() ? "" : it->second;
}

// Changes the bytes of a file the way storage does. Returns the name of the damage and the first byte that is not as before.
std::string damage(Rng &r, std::string &d, size_t &first) {
    std::string old = d, kind;
    if (d.empty()) d = " ";
    static const std::vector<size_t> sizes = {1, 4, 16, 16, 64, 64, 256, 512, 512, 4096};
    size_t bs = r.pick(sizes);
    while (bs > 16 && bs > d.size()) bs /= 4;
    size_t nb = (d.size() + bs - 1) / bs;
    size_t k = r.below(nb) * bs;
    std::string blk = d.substr(k, bs);
    // a shape which has got wider or higher: the places of the string lists of a configuration file
    std::vector<std::pair<size_t, size_t>> shapes;
    if (r.chance(15))
        for (size_t a = d.find("(\""); a != std::string::npos; a = d.find("(\"", a + 1)) {
            size_t e = d.find("\")", a + 1), nl = d.find('\n', a);
            if (e != std::string::npos && e > a + 1 && e < nl) shapes.push_back({a + 1, e + 1});
        }
    switch (shapes.empty() ? r.below(10) : 10) {
        case 10: {
            kind = "changed shapes";
            int n = (int) r.range(1, 4);
            std::set<size_t, std::greater<size_t>> at;         // from the end, so that the places stay
            size_t base = r.below(shapes.size());
            for (int i = 0; i < n; ++i) at.insert((base + r.below(10)) % shapes.size());
            for (size_t i : at) {
                std::string lst = d.substr(shapes[i].first, shapes[i].second - shapes[i].first), res;
                if (r.chance(50)) {
                    std::string more(r.range(1, 3), '=');
                    bool in = false;
                    for (size_t j = 0; j < lst.size(); ++j) {
                        res += lst[j];
                        if (lst[j] == '\\' && in && j + 1 < lst.size()) res += lst[++j];
                        else if (lst[j] == '"') {
                            in = !in;
                            if (in) res += more;
                        }
                    }
                } else {
                    size_t q = lst.rfind('"', lst.size() - 2);
                    res = lst;
                    for (i64 j = r.range(1, 3); j > 0 && q != std::string::npos; --j) res += ", " + lst.substr(q);
                }
                d.replace(shapes[i].first, shapes[i].second - shapes[i].first, res);
            }
            break;
        }
        case 0:
            kind = "torn off";
            d.resize(r.below(d.size() + 1));
            break;
        case 1:
            kind = "zeroed block";
            std::fill(d.begin() + (long) k, d.begin() + (long) (k + blk.size()), '\0');
            break;
        case 2: {
            kind = "stale block";
            size_t o = r.below(nb) * bs;
            std::string b = d.substr(o, bs);
            d.replace(k, std::min(bs, b.size()), b);
            break;
        }
        case 3:
            kind = "lost block";
            d.erase(k, bs);
            break;
        case 4:
            kind = "doubled block";
            d.insert(k, blk);
            break;
        case 5: {
            kind = "flipped bits";
            int n = (int) r.range(1, 6);
            for (int i = 0; i < n; ++i) d[r.below(d.size())] ^= (char) (1 << r.below(8));
            break;
        }
        case 6: {
            kind = "foreign bytes";
            std::string g;
            for (size_t i = 0; i < blk.size(); ++i) g += (char) r.below(256);
            d.replace(k, blk.size(), g);
            break;
        }
        case 7: {
            kind = "changed characters";
            static const std::string sig = std::string(2, '\0') + "\"\\(){},\n\r\t #$~'`!@%&*=:;<>?/|.\x1b\x7f\xef\xbb\xbf\xc3\xe2\xf0" "aBnwse019-_";
            int n = (int) r.range(1, 4);
            for (int i = 0; i < n; ++i) {
                size_t at = r.below(d.size());
                if (r.chance(25)) {                 // the first or last character of a line
                    size_t nl = d.find('\n', at);
                    if (nl != std::string::npos) at = nl + 1 < d.size() && r.chance(60) ? nl + 1 : nl ? nl - 1 : 0;
                }
                d[at] = sig[r.below(sig.size())];
            }
            break;
        }
        case 8: {
            kind = "lost characters";
            int n = (int) r.range(1, 4);
            for (int i = 0; i < n && !d.empty(); ++i) d.erase(r.below(d.size()), 1);
            break;
        }
        default: {
            kind = "foreign words";
            static const std::vector<std::string> w = {"\"", "\\", "(", ")", "{", "}", ",", "\n", "end", "ends", "\nends\n", "box", "BOX x", "parent /cfg/main.cfg\n",
                "sample", "shapes", "elastic", "delim ab\n", "delimiter \\\"\n", "delim aa", "tags", "tags (", "padding { all 100 }\n", "padding { left 70 right 70 top 7 bottom 7 }\n", "padding { vertical -3 }\n", "padding { left -2 top -1 }\n", "padding { all -1 }\n", "padding { horizontal -9 bottom -2 }\n",
                "replace once \"(\" with \"$1\"\n", "replace \"\" with \"x\"\n", "reverse \"(.*)\" to \"\\\\9\"\n", "replace global \".\" with \"\"\n", "indent \"x\"\n", "indent none",
                "author \"\"\n", "ne (\"\")", "nw ()", "w (\"\x1b[31m\")\n", "n (\"\t\")", "s (\"\xf0\x9f\x98\x80\")", "e (\"a\", \"b\", \"c\", \"d\")",
                "elastic ()\n", "elastic (nw,ne,sw,se)\n", "elastic (n,nnw,nne,e,ene,ese,s,ssw,sse,w,wnw,wsw)\n", "#", "# ", "0", "-1", "300", "\"unterminated", "END", "end x\n"};
            int n = (int) r.range(1, 3);
            for (int i = 0; i < n; ++i) {
                // whole lines or any place
                size_t at = r.below(d.size() + 1);
                if (r.chance(50)) {
                    size_t nl = d.find('\n', at);
                    if (nl != std::string::npos) at = nl + 1;
                }
                d.insert(at, r.pick(w));
            }
        }
    }
    first = 0;
    while (first < old.size() && first < d.size() && old[first] == d[first]) ++first;
    if (first == old.size() && first == d.size()) first = std::string::npos;
    return kind;
}

// =============================================================================================== C19
void gen_C19(Case &c, Rng &r, int tier) {
    bool claim = r.chance(45);        // also compare the designs before the damage
    Scn s;
    std::string target, name;
    size_t safe_end = 0;
    if (claim) {
        base_env(r, s.run);
        s.mode = "draw";
        s.in_obj = "/work/in.txt";
        s.out_obj = "<stdout>";
        std::string body;
        int n = (int) r.range(2, tier ? 8 : 5), sel = (int) r.below((u64) n);
        std::set<std::string> used;
        for (int i = 0; i < n; ++i) {
            std::string d, nm;
            if (r.chance(40)) {
                nm = r.pick(corpus_names());
                if (!used.insert(nm).second) nm.clear();
                else d = corpus_design(nm);
            }
            if (nm.empty()) {
                nm = std::string(3, (char) ('p' + i)) + "-box";
                Design x = gen_design(r, nm);
                if (r.chance(30)) x.tags = {"tag", "other"};
                if (r.chance(30)) x.extra += "replace \"a(l|b)\" with \"<\\\\1>\"\n";
                if (r.chance(30)) x.indent = "box";
                d = x.config();
            }
            if (r.chance(20)) body += "# comment\n\n";
            body += d;
            if (body.back() != '\n') body += "\n";
            if (i == sel) {
                name = nm;
                safe_end = body.size();
            }
        }
        bool par = r.chance(25);
        std::string head;
        target = "/cfg/main.cfg";
        if (par) {
            head = "parent /cfg/more.cfg\n";
            s.fs["/cfg/more.cfg"].data = "# more\n" + gen_design(r, "morebox").config() + gen_design(r, "evenmore").config();
            if (r.chance(50)) {
                target = "/cfg/more.cfg";
                safe_end = 0;          // the main file stands before the whole parent
            }
        }
        s.fs["/cfg/main.cfg"].data = head + body;
        if (target == "/cfg/main.cfg") safe_end += head.size();
        TxtOpt to;
        to.big = 1;
        to.flags = TX_UTF8 | TX_WIDE | TX_INDENT | TX_TRAIL;
        s.fs["/work/in.txt"].data = gen_text(r, to).bytes();
        s.run.argv = {"-f", "/cfg/main.cfg", "-d", name, "/work/in.txt"};
    } else {
        ScnOpt o;
        o.modes = SC_FILTER | SC_INFO;
        o.corpus = 50;
        o.fullcorpus = 2;
        o.debug = 3;
        o.big = 2;
        s = gen_scenario(r, o);
        std::vector<std::string> t = s.cfgs;
        if (!s.text_path.empty()) t.push_back(s.text_path);
        target = r.pick(t);
        if (target != s.text_path && r.chance(25)) {
            // several damaged places
            size_t f;
            damage(r, s.fs[target].data, f);
        }
        if (r.chance(15) && !s.text_path.empty()) {
            size_t f;
            damage(r, s.fs[s.text_path].data, f);
        }
    }
    random_knobs(r, s.run, r.chance(30), false);
    put_scenario(c, s);
    c.kv["target"] = target;
    std::string d = c.fs[target].data;
    size_t first;
    std::string kind;
    for (int i = 0; i < 5; ++i) {
        d = c.fs[target].data;
        kind = damage(r, d, first);
        if (!claim || first == std::string::npos || first >= safe_end) break;
    }
    c.kv["kind"] = kind;
    c.fs["/damaged"].data = d;         // takes the place of the target in the damaged runs
    if (claim && first != std::string::npos && first >= safe_end) c.kv["safe"] = name;
    for (int i = 0; i < 2; ++i) {
        RunSpec v = c.runs[0];
        random_knobs(r, v, false, true);
        v.lat = c.runs[0].lat;
        if (i == 1) v.guard = (int) r.range(1, 2);
        c.runs.push_back(v);
    }
}
void check_C19(const Case &c, Ctx &x) {
    std::string out = kvs(c, "out"), mode = kvs(c, "mode"), target = kvs(c, "target");
    if (c.runs.size() < 2) return;
    Fs fs = c.fs;
    auto it = fs.find("/damaged");
    if (it == fs.end()) return;
    std::string d = it->second.data;
    fs.erase("/damaged");
    Fs good = fs;
    fs[target].data = d;
    for (size_t i = 1; i < c.runs.size(); ++i) {       // the minimiser must not make the runs differ
        if (c.runs[i].argv != c.runs[0].argv || c.runs[i].env != c.runs[0].env) return;
    }
    Outcome ref;
    bool dbg = false;
    for (auto &a : c.runs[0].argv)
        if (a == "-x") dbg = true;
    x.probe("damage: " + kvs(c, "kind"));
    for (size_t i = 1; i < c.runs.size(); ++i) {
        Outcome o = x.run(c.runs[i], fs);
        if (o.heapflags) {
            x.fail("memory", "damaged " + target + ": run " + std::to_string(i) + " misuses memory: " + o.heapmsg);
            return;
        }
        if (o.special == SP_RUNAWAY || o.special == SP_CPU) {
            size_t digits = 0;         // a damaged number can ask for a huge box, which takes its time
            for (char ch : fs[target].data) {
                digits = isdigit((unsigned char) ch) ? digits + 1 : 0;
                if (digits >= 5) return;
            }
            x.fail("hang", "damaged " + target + ": boxes does not end: " + o.brief());
            return;
        }
        if (!o.exited) {
            x.fail("crash", "damaged " + target + ": boxes is ended by a signal: " + o.brief() + " stderr \"" + esc_short(o.err) + "\"");
            return;
        }
        if (o.code != 0 && o.err.empty()) {
            x.fail("silent", "damaged " + target + ": boxes fails without a diagnostic: " + o.brief());
            return;
        }
        std::string r = outcome_output(o, out);
        bool filter = mode == "draw" || mode == "remove" || mode == "mend";
        if (o.code != 0 && filter && out == "<stdout>" && !o.out.empty() && !dbg) {
            x.fail("partial", "damaged " + target + ": boxes fails, but produces output: " + o.brief() + " output \"" + esc_short(o.out) + "\"");
            return;
        }
        if (i == 1) {
            ref = o;
            x.probe(o.code ? "rejected" : "accepted");
            if (!o.err.empty()) x.nontrivial = true;
            continue;
        }
        std::string a = outcome_output(ref, out), b = r;
        if (o.code != ref.code || a != b || (!dbg && o.err != ref.err)) {
            x.fail("depends", "damaged " + target + ": the result depends on the content of memory: exit " + std::to_string(ref.code) + "/" +
                                  std::to_string(o.code) + ", " + (a != b ? first_diff(a, b) : first_diff(ref.err, o.err)));
            return;
        }
    }
    if (mode == "draw" && ref.exited && ref.code == 0) {
        // a box that is drawn holds the text: every line, in order (rules of the design may change it, so there must be none)
        bool judge = !dbg;
        for (auto &f : fs) {
            std::string l = f.second.data;
            for (auto &ch : l) ch = (char) tolower((unsigned char) ch);
            if (f.first != kvs(c, "text") && l.find("repl") != std::string::npos) judge = false;
        }
        for (auto &a : c.runs[0].argv)
            if (a == "-n" || a == "-t" || a == "-e") judge = false;
        std::string text = text_of(fs, kvs(c, "text"));
        for (char ch : text)
            if ((ch < 32 && ch != '\n') || ch == 127) judge = false;       // bytes above 127 are negative: plain ASCII only
        if (judge) {
            x.probe("text looked for in the box");
            std::string o = outcome_output(ref, out);
            size_t at = 0;
            for (auto &l : split_lines(text)) {
                std::string w = trim(l);
                if (w.empty()) continue;
                size_t k = o.find(w, at);
                if (k == std::string::npos) {
                    x.fail("lost", "damaged " + target + ": exit status 0, but the text line \"" + esc_short(w, 80) + "\" is not in the box: \"" + esc_short(o, 300) + "\"");
                    return;
                }
                at = k + w.size();
            }
        }
    }
    if (!kvs(c, "safe").empty()) {
        if (target == "/cfg/main.cfg") {       // still true in a minimised case?
            std::string l = "\n" + good[target].data, e = "\nend ";
            for (auto &ch : l) ch = (char) tolower((unsigned char) ch);
            for (char ch : kvs(c, "safe")) e += (char) tolower((unsigned char) ch);
            size_t at = l.find(e), k = 0;
            const std::string &o = good[target].data;
            while (k < o.size() && k < d.size() && o[k] == d[k]) ++k;
            if (at == std::string::npos || k < at + e.size()) return;
        }
        Outcome g = x.run(c.runs[0], good);
        if (!g.exited || g.code != 0 || !g.err.empty()) return;
        x.nontrivial = true;
        x.probe("design before the damage compared");
        if (ref.code != 0 || ref.out != g.out) {
            x.fail("affected", "design " + kvs(c, "safe") + " stands before the damaged place, but its result changes: exit " + std::to_string(ref.code) + ", " +
                                   first_diff(g.out, ref.out) + ", stderr \"" + esc_short(ref.err) + "\"");
            return;
        }
    }
    x.probe(x.nontrivial ? "diagnosed or compared" : "damage without effect on messages");
}
