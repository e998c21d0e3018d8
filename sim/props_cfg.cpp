// Properties about configuration, environment, memory layout and histories: C04 C06 C08 C12 C15 C16 C17
#include <algorithm>
#include <cerrno>
#include <csignal>

#include "props.h"

static std::string kvs(const Case &c, const std::string &k) {
    auto it = c.kv.find(k);
    return it == c.kv.end() ? "" : it->second;
}
static bool starts(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
static std::string arg_after(const RunSpec &s, const std::string &opt) {
    for (size_t i = 0; i + 1 < s.argv.size(); ++i)
        if (s.argv[i] == opt) return s.argv[i + 1];
    return "";
}
static bool has_arg(const RunSpec &s, const std::string &opt) { return std::find(s.argv.begin(), s.argv.end(), opt) != s.argv.end(); }
static std::string parent_dir(const std::string &p) {
    size_t i = p.rfind('/');
    return i == 0 || i == std::string::npos ? "/" : p.substr(0, i);
}
// a design that marks every line of the text with its own word
static std::string marker_design(const std::string &name, const std::string &mark) {
    return "BOX " + name + "\nsample\n    s\nends\nshapes { w (\"" + mark + "\") }\nelastic (w)\nEND " + name + "\n";
}

// =============================================================================================== C04
static const std::vector<std::string> CFG_NAMES = {".boxes", "box-designs", "boxes-config", "boxes"};
static const char *GLOBAL_FILE = "/usr/share/boxes";

static std::string norm_path(const std::string &cwd, const std::string &p) {
    std::string s = p.empty() || p[0] != '/' ? cwd + "/" + p : p, r;
    size_t i = 0;
    std::vector<std::string> v;
    while (i <= s.size()) {
        size_t j = s.find('/', i);
        if (j == std::string::npos) j = s.size();
        std::string e = s.substr(i, j - i);
        if (e == "..") {
            if (!v.empty()) v.pop_back();
        } else if (!e.empty() && e != ".") v.push_back(e);
        i = j + 1;
    }
    for (auto &e : v) r += "/" + e;
    return r.empty() ? "/" : r;
}
static bool m_isdir(const Fs &fs, const std::string &p) {
    auto it = fs.find(p);
    if (it != fs.end()) return it->second.type == 'd';
    auto lb = fs.lower_bound(p + "/");
    return lb != fs.end() && starts(lb->first, p + "/");
}
static bool m_readable_file(const Fs &fs, const std::string &p) {
    auto it = fs.find(p);
    return it != fs.end() && it->second.type == 'f' && !it->second.openerr && !it->second.staterr;
}
static bool m_readable_dir(const Fs &fs, const std::string &p) {
    auto it = fs.find(p);
    if (it != fs.end() && it->second.openerr) return false;
    return m_isdir(fs, p);
}
static std::string m_in_dir(const Fs &fs, const std::string &d) {
    if (!m_readable_dir(fs, d)) return "";
    for (auto &n : CFG_NAMES)
        if (m_readable_file(fs, d + "/" + n)) return d + "/" + n;
    return "";
}
static std::string m_global(const Fs &fs) {
    if (m_readable_file(fs, GLOBAL_FILE)) return GLOBAL_FILE;
    for (auto *d : {"/etc/xdg/boxes", "/usr/local/share/boxes", "/usr/share/boxes"}) {
        std::string f = m_in_dir(fs, d);
        if (!f.empty()) return f;
    }
    return "";
}
// the documented search; "" when there is no configuration
static std::string m_discover(const RunSpec &s, const Fs &fs) {
    std::string loc;
    bool mandatory = false;
    if (has_arg(s, "-f")) {
        loc = arg_after(s, "-f");
        mandatory = true;
    } else if (s.env.count("BOXES")) {
        loc = s.env.at("BOXES");
        mandatory = true;
    }
    if (mandatory) {
        if (loc.empty()) return "";
        bool slash = loc.back() == '/';                      // can only be a directory
        loc = norm_path(s.cwd, loc);
        if (!slash && m_readable_file(fs, loc)) return loc;
        return m_in_dir(fs, loc);
    }
    std::vector<std::string> dirs;
    if (s.env.count("HOME")) dirs.push_back(s.env.at("HOME"));
    if (s.env.count("XDG_CONFIG_HOME")) dirs.push_back(s.env.at("XDG_CONFIG_HOME") + "/boxes");
    if (s.env.count("HOME")) dirs.push_back(s.env.at("HOME") + "/.config/boxes");
    for (auto &d : dirs) {
        if (d.empty()) continue;
        std::string f = m_in_dir(fs, norm_path(s.cwd, d));
        if (!f.empty()) return f;
    }
    return m_global(fs);
}

void gen_C04(Case &c, Rng &r, int tier) {
    (void) tier;
    RunSpec s;
    base_env(r, s);
    s.cwd = "/work";
    c.fs["/work/here"].data = "x\n";
    s.env.erase("HOME");
    if (r.chance(85)) s.env["HOME"] = r.chance(85) ? "/home/u" : "/home/u/";
    if (r.chance(50)) s.env["XDG_CONFIG_HOME"] = r.chance(80) ? "/home/u/xdg" : "/home/u/.config";
    bool f = r.chance(30), b = r.chance(30);
    std::string fl = r.pick(std::vector<std::string>{"/opt/cfg/one", "/opt/cfg", "/opt/empty", "sub/c.cfg", "sub", "../opt/cfg", "/opt/cfg/", "/opt/none", "/home/u/xdg/boxes"});
    std::string bl = r.pick(std::vector<std::string>{"/opt/bx/one", "/opt/bx", "/opt/bempty", "/opt/bx/", "/opt/cfg", "/opt/cfg/one", "/opt/nothing"});
    if (r.chance(10)) fl.clear();           // given, but empty
    if (r.chance(15)) bl.clear();
    if (r.chance(4)) s.env["HOME"] = "";
    if (r.chance(4)) s.env["XDG_CONFIG_HOME"] = "";
    if (f) s.argv = {"-f", fl};
    if (b) s.env["BOXES"] = bl;
    int dens = (int) r.range(5, 45);        // how many of the candidates exist at all
    int bad = r.chance(35) ? 0 : (int) r.range(10, 70);
    int id = 0;
    auto candidate = [&](const std::string &p) {
        std::string name = "k" + std::to_string(id++) + "k";
        if (!r.chance(dens) || c.fs.count(p)) return;
        FNode n;
        n.data = marker_design(name, "<" + name + ">");
        if (r.chance(bad)) {
            switch (r.below(4)) {
                case 0: n.openerr = r.pick(std::vector<int>{EACCES, ELOOP, EIO, EPERM}); break;
                case 1: n.staterr = r.pick(std::vector<int>{EACCES, EOVERFLOW, EIO}); break;
                case 2:
                    n.type = 'd';
                    n.data.clear();
                    break;
                default: n.openerr = n.staterr = EACCES;
            }
        }
        c.fs[p] = n;
    };
    auto dir = [&](const std::string &d) {
        if (c.fs.count(d)) return;
        if (r.chance(8)) {                         // not a directory at all
            if (r.chance(50)) c.fs[d].data = "BOX wrong\nsample\nx\nends\nshapes { w (\"wrong\") }\nelastic (w)\nEND wrong\n";
            return;
        }
        if (r.chance(8)) {                         // a directory nothing can be read from
            FNode n;
            n.type = 'd';
            n.openerr = EACCES;
            c.fs[d] = n;
            return;
        }
        for (auto &n : CFG_NAMES) candidate(d + "/" + n);
        if (r.chance(30)) c.fs[d + "/boxes.cfg"].data = marker_design("wrong", "<wrong>");      // not a documented name here
        if (r.chance(15)) c.fs[d + "/README"].data = "no config\n";
    };
    for (auto *p : {"/opt/cfg/one", "/work/sub/c.cfg", "/opt/bx/one"}) candidate(p);
    for (auto *d : {"/home/u", "/home/u/xdg/boxes", "/home/u/.config/boxes", "/etc/xdg/boxes", "/usr/local/share/boxes", "/opt/cfg", "/opt/bx", "/work/sub"}) dir(d);
    if (r.chance(50)) candidate(GLOBAL_FILE);
    else dir(GLOBAL_FILE);
    if (r.chance(30)) c.fs["/opt/empty/x"].data = "x\n";
    if (r.chance(30)) c.fs["/opt/bempty/x"].data = "x\n";
    if (r.chance(20)) c.fs["/work/.boxes"].data = marker_design("wrong2", "<wrong2>");          // the working directory is not searched
    if (r.chance(10) && s.env.count("HOME") && !s.env["HOME"].empty()) c.fs["/.boxes"].data = marker_design("wrong3", "<wrong3>");
    // places which sound right and are not documented
    for (auto *p : {"/home/u/.boxesrc", "/home/u/.boxes.d/boxes-config", "/home/u/.config/boxes-config", "/home/u/.config/.boxes", "/home/u/xdg/boxes-config",
                    "/home/u/xdg/.boxes", "/etc/boxes", "/etc/boxes-config", "/etc/boxes/boxes-config", "/etc/xdg/.boxes", "/usr/share/boxes-config", "/usr/share/.boxes",
                    "/usr/local/share/boxes-config", "/usr/local/etc/boxes", "/work/boxes-config", "/work/boxes", "/home/u/.local/share/boxes/boxes-config", "/noise/file",
                    "/noise/dir/boxes-config", "/noise/dir/.boxes", "/boxes-config", "/opt/boxes-config", "/opt/cfg/.boxes.bak", "/home/u/boxes.cfg", "/home/u/box-designs.cfg"})
        if (r.chance(7) && !c.fs.count(p) && !c.fs.count(parent_dir(p))) c.fs[p].data = marker_design("wrong4", "<wrong4>");
    // reference to the global configuration
    if (r.chance(25)) {
        std::string w = m_discover(s, c.fs);
        if (!w.empty()) {
            c.fs[w].data = std::string("parent ") + r.pick(std::vector<std::string>{":global:", ":GLOBAL:"}) + "\n" + c.fs[w].data;
            c.kv["global"] = "1";
        }
    }
    switch (r.below(c.kv.count("global") ? 2 : 3)) {
        case 0: s.argv.insert(s.argv.end(), {"-q", "(all)"}); break;
        case 1: s.argv.push_back("-l"); break;
        default: break;
    }
    s.stdin_data = "some text\n";
    if (r.chance(50)) random_knobs(r, s, true, false);
    c.runs.push_back(s);
}
static std::vector<std::string> words_in(const std::string &out) {     // every kNk and wrongN in the output
    std::set<std::string> w;
    for (size_t i = 0; i < out.size(); ++i) {
        if (out[i] == 'k') {
            size_t j = i + 1;
            while (j < out.size() && isdigit((unsigned char) out[j])) ++j;
            if (j > i + 1 && j < out.size() && out[j] == 'k') w.insert(out.substr(i, j - i + 1));
        }
        if (out.compare(i, 5, "wrong") == 0) w.insert("wrong");
    }
    return {w.begin(), w.end()};
}
static std::string name_of(const std::string &cfg) {
    size_t i = cfg.find("BOX ");
    if (i == std::string::npos) return "";
    return cfg.substr(i + 4, cfg.find('\n', i) - i - 4);
}
void check_C04(const Case &c, Ctx &x) {
    const RunSpec &s = c.runs[0];
    std::string w = m_discover(s, c.fs);
    Outcome o = x.run(s, c.fs);
    x.nontrivial = true;
    auto got = words_in(o.out);
    std::string gots;
    for (auto &g : got) gots += " " + g;
    if (w.empty()) {
        bool mand = has_arg(s, "-f") || s.env.count("BOXES");
        x.probe(mand ? "mandatory location without configuration" : "no configuration anywhere");
        if (!o.exited || o.code == 0)
            x.fail("accepted", std::string("no configuration in the ") + (mand ? "given location" : "search path") + ", but " + o.brief() + " using" + gots);
        else if (!o.out.empty()) x.fail("output", "output without a configuration: \"" + esc_short(o.out) + "\"");
        else if (o.err.empty()) x.fail("nodiag", "no configuration and no diagnostic");
        return;
    }
    std::set<std::string> want = {name_of(c.fs.at(w).data)};
    x.probe("configuration found: " + std::string(has_arg(s, "-f") ? "-f" : s.env.count("BOXES") ? "BOXES" : parent_dir(w) == "/usr/share" ? "global file" : parent_dir(w)));
    if (c.kv.count("global")) {
        std::string g = m_global(c.fs);
        if (!g.empty()) want.insert(name_of(c.fs.at(g).data));
        else if (o.err.empty()) x.fail("nodiag", "the global configuration cannot be found, but no diagnostic is given");
        x.probe(g.empty() ? "global reference without global configuration" : "global reference resolved");
    }
    if (!o.exited || o.code != 0) {
        x.fail("fails", "configuration " + w + " is in place, but " + o.brief() + " stderr \"" + esc_short(o.err) + "\"");
        return;
    }
    std::set<std::string> gs(got.begin(), got.end());
    if (has_arg(s, "-q")) {       // names only
    }
    if (gs != want) x.fail("wrongfile", "expected the configuration " + w + " (" + *want.begin() + "), used:" + gots);
}

// =============================================================================================== C06
// names which are easily confused: prefixes, suffixes and similar words
static std::string c06_name(int id) {
    static const char *names[] = {"name1", "name", "name10", "nam", "name-1", "othername", "eman", "name11"};
    return names[id % 8];
}
void gen_C06(Case &c, Rng &r, int tier) {
    RunSpec s;
    base_env(r, s);
    int n = (int) r.range(1, tier ? 10 : 7);
    bool lng = r.chance(3);                  // long chains and cycles
    if (lng) n = (int) r.range(12, 45);
    int names = (int) r.range(1, 8);
    std::vector<std::string> paths;
    for (int i = 0; i < n; ++i) paths.push_back("/cfg/f" + std::to_string(i) + ".cfg");
    bool glob = r.chance(25);
    if (glob) {
        std::string g = r.pick(std::vector<std::string>{"/usr/share/boxes", "/etc/xdg/boxes/boxes-config", "/usr/local/share/boxes/.boxes"});
        if (n > 1) paths[(size_t) r.range(1, n - 1)] = g;
    }
    for (int i = 1; i < n; ++i) {            // names which are almost the same
        if (paths[(size_t) i][1] != 'c' || !r.chance(12)) continue;
        std::string near = paths[r.below((u64) i)];
        if (starts(near, "/cfg/f") && near.size() < 14) {
            switch (r.below(4)) {
                case 0: near[5] = 'F'; break;
                case 1: near += r.chance(50) ? "x" : "~"; break;
                case 2: near.resize(near.size() - 1); break;
                default: near = "/cfg/sub" + near.substr(4); break;
            }
            if (std::find(paths.begin(), paths.end(), near) == paths.end()) paths[(size_t) i] = near;
        }
    }
    int dens = lng ? (int) r.range(0, 3) : (int) r.range(10, 60);
    bool faults = r.chance(45);
    for (int i = 0; i < n; ++i) {
        std::string head, body;
        std::vector<std::string> refs;
        for (int j = 0; j < n; ++j)
            if (r.chance(dens)) refs.push_back(paths[(size_t) j]);
        if (i + 1 < n && r.chance(lng ? 98 : 50)) refs.push_back(paths[(size_t) i + 1]);      // keeps long chains likely
        if (lng && i + 1 == n && r.chance(70)) refs.push_back(paths[r.below((u64) n)]);      // closes a cycle
        if (r.chance(10) && !refs.empty()) refs.push_back(refs[0]);                // repeated
        if (r.chance(faults ? 30 : 0)) refs.push_back("/cfg/missing" + std::to_string(r.below(3)) + ".cfg");
        if (glob && r.chance(30)) refs.push_back(r.pick(std::vector<std::string>{":global:", ":Global:"}));
        for (size_t k = refs.size(); k > 1; --k) std::swap(refs[k - 1], refs[r.below(k)]);
        for (auto &p : refs) {
            if (r.chance(20)) head += "# reference\n";
            head += "parent " + p + (r.chance(20) ? " " : "") + "\n";
        }
        int nd = (int) r.range(i == 0 ? 0 : 0, 3);
        std::set<int> used;
        for (int k = 0; k < nd; ++k) {
            int id = (int) r.below((u64) names);
            if (!used.insert(id).second) continue;
            std::string nm = c06_name(id);
            if (r.chance(20)) nm[0] = (char) toupper((unsigned char) nm[0]);
            if (r.chance(10)) for (auto &ch : nm) ch = (char) toupper((unsigned char) ch);
            body += marker_design(nm, "<" + std::to_string(i) + "." + std::to_string(id) + ">");
        }
        FNode f;
        f.data = (r.chance(40) ? "# file " + std::to_string(i) + "\n" : "") + head + "\n" + body;
        if (i > 0 && faults && r.chance(15)) {
            if (r.chance(50)) f.openerr = r.pick(std::vector<int>{EACCES, EIO, EMFILE});
            else {
                // found when the reference is read, gone when it is to be parsed
                Fault ft;
                ft.op = OP_OPEN;
                ft.obj = paths[(size_t) i];
                ft.n = 0;
                ft.cnt = -1;
                ft.act = ACT_ERR;
                ft.a = r.pick(std::vector<i64>{EACCES, ENOENT, EMFILE});
                if (r.chance(50)) {
                    ft.n = 1;
                    c.kv["late:" + paths[(size_t) i]] = "1";
                } else c.kv["dead:" + paths[(size_t) i]] = "1";
                s.faults.push_back(ft);
            }
        }
        c.fs[paths[(size_t) i]] = f;
    }
    s.argv = {"-f", paths[0]};
    if (starts(paths[0], "/usr")) s.argv[1] = paths[0];
    if (r.chance(35)) {
        s.argv.insert(s.argv.end(), {"-q", "(all)"});
    } else {
        std::string nm = c06_name((int) r.below((u64) names));
        if (r.chance(30)) for (auto &ch : nm) ch = (char) toupper((unsigned char) ch);
        s.argv.insert(s.argv.end(), {"-d", nm});
    }
    s.stdin_data = "text\n";
    if (r.chance(40)) random_knobs(r, s, true, false);
    c.runs.push_back(s);
}
std::string lower(std::string s) {
    for (auto &ch : s) ch = (char) tolower((unsigned char) ch);
    return s;
}
struct Def {
    int depth;
    std::string mark;
};
void check_C06(const Case &c, Ctx &x) {
    const RunSpec &s = c.runs[0];
    std::string main = arg_after(s, "-f");
    std::set<std::string> late, dead;
    for (auto &f : s.faults) {
        if (f.op != OP_OPEN) continue;
        if (f.n == 0) dead.insert(f.obj);
        else late.insert(f.obj);
    }
    // breadth first over the references; a file whose later opens fail may or may not have been read already, depending on how
    // often it is referenced, and its own definitions may or may not be there: judged as "optional"
    std::map<std::string, std::vector<Def>> defs, opt;
    std::set<std::string> seen, optseen;
    std::vector<std::pair<std::string, int>> q = {{main, 0}};
    seen.insert(main);
    bool trouble = false, unsure = false;
    auto parse = [&](const std::string &p, std::vector<std::string> &refs, std::vector<std::pair<std::string, std::string>> &ds) {
        auto it = c.fs.find(p);
        if (it == c.fs.end()) return;
        std::string nm;
        for (auto &l : split_lines(it->second.data)) {
            if (starts(l, "parent ")) refs.push_back(rtrim(l.substr(7)));
            if (starts(l, "BOX ")) nm = l.substr(4);
            size_t k = l.find("w (\"");
            if (k != std::string::npos) ds.push_back({nm, l.substr(k + 4, l.find('"', k + 4) - k - 4)});
        }
    };
    size_t reach = 0;
    for (size_t i = 0; i < q.size(); ++i) {
        std::string p = q[i].first;
        std::vector<std::string> refs;
        std::vector<std::pair<std::string, std::string>> ds;
        parse(p, refs, ds);
        ++reach;
        for (auto &d : ds) defs[lower(d.first)].push_back({q[i].second, d.second});
        for (auto &ref : refs) {
            std::string t = ref;
            if (lower(t) == ":global:") t = m_global(c.fs);
            if (t.empty() || !m_readable_file(c.fs, t) || dead.count(t)) {
                trouble = true;
                continue;
            }
            if (late.count(t)) {                       // whatever depends on it is not certain
                trouble = unsure = true;
                continue;
            }
            if (seen.insert(t).second) q.push_back({t, q[i].second + 1});
        }
    }
    // what a late failing file could contribute in addition
    if (unsure) {
        std::set<std::string> s2 = {main};
        std::vector<std::string> q2 = {main};
        for (size_t i = 0; i < q2.size(); ++i) {
            std::vector<std::string> refs;
            std::vector<std::pair<std::string, std::string>> ds;
            parse(q2[i], refs, ds);
            for (auto &d : ds) opt[lower(d.first)].push_back({0, d.second});
            for (auto &ref : refs) {
                std::string t = lower(ref) == ":global:" ? m_global(c.fs) : ref;
                if (s2.insert(t).second) q2.push_back(t);
            }
        }
    }
    Outcome o = x.run(s, c.fs);
    x.nontrivial = reach > 1 || trouble;
    if (reach > 3) x.probe("more than three files reached");
    if (reach > 20) x.probe("more than twenty files reached");
    if (trouble) x.probe("a parent is missing or fails to open");
    if (dead.count(main) || late.count(main)) return;
    if (o.special != SP_NONE || !o.exited) {
        x.fail("hang", "loading the configuration does not end normally: " + o.brief());
        return;
    }
    bool fired = false;
    for (auto &f : s.faults)
        if (f.op == OP_OPEN && f.n > 0) {
            auto it = std::find(o.objs.begin(), o.objs.end(), f.obj);
            for (auto &rec : o.log)
                if (it != o.objs.end() && rec.op == OP_OPEN && rec.obj == (uint16_t) (it - o.objs.begin()) && rec.res < 0) fired = true;
        }
    bool clear_trouble = false;       // trouble that no history can avoid
    {
        for (auto &p : q) {
            std::vector<std::string> refs;
            std::vector<std::pair<std::string, std::string>> ds;
            parse(p.first, refs, ds);
            for (auto &ref : refs) {
                std::string t = lower(ref) == ":global:" ? m_global(c.fs) : ref;
                if (t.empty() || !m_readable_file(c.fs, t) || dead.count(t)) clear_trouble = true;
            }
        }
        if (fired) clear_trouble = true;
    }
    if (defs.empty()) {
        x.probe("no design in reach");
        if (opt.empty() && o.code == 0) x.fail("accepted", "no design in reach, but exit status 0");
        return;
    }
    if (has_arg(s, "-q")) {
        std::set<std::string> got, want;
        for (auto &l : split_lines(o.out))
            if (!l.empty()) {
                if (!got.insert(lower(l)).second) x.fail("double", "design listed twice: " + l);
            }
        for (auto &d : defs) want.insert(d.first);
        bool ok = true;
        std::string why;
        for (auto &n : want)
            if (!got.count(n)) {
                ok = false;
                why += " missing " + n;
            }
        for (auto &n : got)
            if (!want.count(n) && !opt.count(n)) {
                ok = false;
                why += " unexpected " + n;
            }
        if (o.code != 0) x.fail("fails", "query fails: " + o.brief() + " stderr \"" + esc_short(o.err) + "\"");
        else if (!ok) x.fail("set", "wrong set of designs:" + why);
    } else {
        std::string nm = lower(arg_after(s, "-d"));
        auto it = defs.find(nm);
        if (it == defs.end() && !opt.count(nm)) {
            if (o.code == 0) x.fail("accepted", "design " + nm + " is not in any reachable file, but exit status 0");
            return;
        }
        if (it == defs.end()) return;
        int best = 1 << 20;
        for (auto &d : it->second) best = std::min(best, d.depth);
        std::set<std::string> okmarks;
        for (auto &d : it->second)
            if (d.depth == best) okmarks.insert(d.mark);
        if (opt.count(nm))
            for (auto &d : opt[nm]) okmarks.insert(d.mark);
        if (best == 0) {
            okmarks.clear();
            for (auto &d : it->second)
                if (d.depth == 0) okmarks.insert(d.mark);
        }
        std::string mark = o.out.substr(0, o.out.find('>') == std::string::npos ? 0 : o.out.find('>') + 1);
        if (o.code != 0) x.fail("fails", "drawing " + nm + " fails: " + o.brief() + " stderr \"" + esc_short(o.err) + "\"");
        else if (!okmarks.count(mark)) x.fail("precedence", "design " + nm + " came from " + mark + " instead of " + *okmarks.begin());
        if (it->second.size() > 1) x.probe("design defined in several reachable files");
    }
    if (clear_trouble && o.err.empty()) x.fail("nodiag", "a parent is missing or fails to open, but there is no diagnostic");
}

// Paired runs are only comparable when they have the same arguments (apart from `skip`), faults and documented environment.
static bool comparable(const Case &c, const std::vector<std::string> &skip, bool env) {
    auto strip = [&](const RunSpec &s) {
        std::vector<std::string> v;
        for (auto &a : s.argv)
            if (std::find(skip.begin(), skip.end(), a) == skip.end()) v.push_back(a);
        return v;
    };
    for (auto &q : c.runs) {
        if (strip(q) != strip(c.runs[0])) return false;
        if (!env) continue;
        for (auto *e : {"HOME", "BOXES", "XDG_CONFIG_HOME", "TERM", "LC_ALL"}) {
            auto a = q.env.find(e), b = c.runs[0].env.find(e);
            if ((a == q.env.end()) != (b == c.runs[0].env.end()) || (a != q.env.end() && a->second != b->second)) return false;
        }
        if (q.faults.size() != c.runs[0].faults.size()) return false;
    }
    return true;
}

// =============================================================================================== C08
void gen_C08(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.exotic = r.chance(75);
    o.debug = 4;
    o.big = 6;
    o.corpus = 45;
    o.fullcorpus = 3;
    Scn s = gen_scenario(r, o);
    if (s.mode == "listone" && r.chance(50)) s.run.argv.insert(s.run.argv.begin(), {"-x", "(undoc)"});
    if (r.chance(8) && (s.mode == "draw" || s.mode == "remove" || s.mode == "mend") && !s.in_obj.empty()) {
        // arbitrary bytes instead of a text
        std::string t = r.chance(15) ? std::string(1, '\0') : "";
        size_t n = (size_t) r.range(1, 300);
        for (size_t i = 0; i < n; ++i) t += r.chance(12) ? '\n' : r.chance(4) ? '\0' : r.chance(30) ? (char) r.below(256) : (char) r.range(32, 126);
        s.fs["/work/in.txt"].data = t;
    }
    if (!s.cfgs.empty()) {      // several configuration files in one directory: their order is not that of the directory
        static const std::vector<std::string> names = {".boxes", "box-designs", "boxes-config", "boxes"};
        size_t sl = s.cfgs[0].rfind('/');
        auto at = std::find(names.begin(), names.end(), s.cfgs[0].substr(sl + 1));
        if (at != names.end() && s.cfgs[0] != "/usr/share/boxes")
            while (++at != names.end()) {
                std::string p = s.cfgs[0].substr(0, sl + 1) + *at;
                if (!s.fs.count(p) && r.chance(60)) s.fs[p].data = decoy_config();
            }
    }
    random_knobs(r, s.run, true, false);
    put_scenario(c, s);
    if (r.chance(25)) {
        Fault f;
        switch (r.below(4)) {
            case 0: f.op = OP_READ; f.act = ACT_ERR; f.a = EIO; f.n = r.range(0, 6); break;
            case 1: f.op = OP_WRITE; f.act = ACT_ERR; f.a = ENOSPC; f.n = r.range(0, 3); f.obj = s.out_obj; break;
            case 2: f.op = OP_OPEN; f.act = ACT_ERR; f.a = EMFILE; f.n = r.range(0, 5); break;
            default: f.op = OP_ALLOC; f.act = ACT_ERR; f.a = ENOMEM; f.n = r.range(0, 3000); break;
        }
        c.runs[0].faults.push_back(f);
    }
    int n = tier ? 5 : 3;
    for (int i = 0; i < n; ++i) {
        RunSpec v = c.runs[0];
        random_knobs(r, v, false, true);
        v.lat = c.runs[0].lat;            // decides how much of the output a failing device still takes
        v.clock0 = r.chance(50) ? (i64) r.below(4000000000ull) : v.clock0;
        v.pid = (int) r.range(1, 4000000);
        if (r.chance(50)) v.env["UNRELATED"] = std::string((size_t) r.below(200), 'u');
        if (r.chance(30)) v.env["LINES"] = "7";
        if (r.chance(30)) v.env["COLUMNS"] = std::to_string(r.range(1, 300));
        if (r.chance(30)) v.env["USER"] = "someone";
        if (r.chance(30)) v.env["PWD"] = "/somewhere/else";
        if (r.chance(20)) v.env["TZ"] = "Asia/Tokyo";
        if (r.chance(15)) v.env[r.pick(std::vector<std::string>{"COLORTERM", "NO_COLOR", "FORCE_COLOR", "PAGER", "EDITOR", "LOGNAME", "HOSTNAME", "SHLVL", "TMPDIR", "BOXES_OPTS", "DEBUG", "OLDPWD"})] = r.pick(std::vector<std::string>{"1", "", "truecolor", "/x"});
        if (r.chance(20)) v.env["POSIXLY_CORRECT_NOT"] = "1";
        bool rel = false;
        for (auto &a : v.argv)
            if (starts(a, "in.txt") || starts(a, "./") || starts(a, "../")) rel = true;
        if (!rel && r.chance(40)) v.cwd = r.pick(std::vector<std::string>{"/", "/opt", "/tmp", "/cfg", "/cfg", "/cfg/d", "/srv/x", "/work/sub"});
        if (i == n - 1 && r.chance(tier ? 80 : 60)) v.guard = (int) r.range(1, 2);
        c.runs.push_back(v);
    }
}
void check_C08(const Case &c, Ctx &x) {
    Outcome ref;
    std::string out = kvs(c, "out");
    bool dbg = false, oom = false;
    if (!comparable(c, {}, true)) return;
    for (size_t i = 0; i + 1 < c.runs[0].argv.size(); ++i)
        if (c.runs[0].argv[i] == "-x" && starts(c.runs[0].argv[i + 1], "debug")) dbg = true;
    for (auto &f : c.runs[0].faults)
        if (f.op == OP_ALLOC) oom = true;
    for (size_t i = 0; i < c.runs.size(); ++i) {
        Outcome o = x.run(c.runs[i], c.fs);
        if (o.heapflags) {
            x.fail("memory", "run " + std::to_string(i) + " corrupts memory: " + o.heapmsg);
            return;
        }
        if (o.special == SP_RUNAWAY || o.special == SP_CPU) {
            x.fail("hang", "run " + std::to_string(i) + " does not end: " + o.brief());
            return;
        }
        if (!o.exited && !oom && o.special == SP_NONE && o.sig != SIGPIPE) {
            x.fail("crash", "run " + std::to_string(i) + " ended by a signal: " + o.brief() + " stderr \"" + esc_short(o.err) + "\"");
            return;
        }
        if (oom) {
            x.probe("memory exhausted: guard bytes checked only");
            if (o.exited != ref.exited && i) return;
        }
        if (i == 0) {
            ref = o;
            x.nontrivial = !outcome_output(o, out).empty();
            continue;
        }
        std::string a = outcome_output(ref, out), b = outcome_output(o, out);
        if (ref.exited != o.exited || ref.code != o.code || a != b || ref.out != o.out) {
            x.fail("depends", "run " + std::to_string(i) + " differs although only memory, clock, identity or unrelated environment differ: exit " +
                                  std::to_string(ref.code) + "/" + std::to_string(o.code) + ", " + first_diff(a, b));
            return;
        }
        if (!dbg && ref.err != o.err) {
            x.fail("depends", "run " + std::to_string(i) + " has other messages although only memory, clock, identity or unrelated environment differ: " + first_diff(ref.err, o.err));
            return;
        }
    }
}

// =============================================================================================== C12
void gen_C12(Case &c, Rng &r, int tier) {
    (void) tier;
    ScnOpt o;
    o.modes = SC_FILTER | SC_LIST | SC_LISTONE | SC_QUERY;
    o.corpus = 45;
    o.debug = 0;
    Scn s = gen_scenario(r, o);
    auto &a = s.run.argv;
    a.erase(std::remove_if(a.begin(), a.end(), [](const std::string &v) { return v == "--color" || v == "--no-color"; }), a.end());
    if (s.mode == "draw" && r.chance(50)) {
        // a text with escape sequences
        std::string &t = s.fs["/work/in.txt"].data;
        std::string n;
        for (auto &l : split_lines(t)) {
            if (!n.empty() || &l != &t) n += "";
            if (!l.empty() && r.chance(60)) {
                size_t k = 0;
                std::string e = r.pick(std::vector<std::string>{"\x1b[31m", "\x1b[1m", "\x1b[38;5;9m", "\x1b[0;32m"});
                if (r.chance(50)) {       // in the middle, at a character boundary
                    k = r.below(l.size());
                    while (k > 0 && ((unsigned char) l[k] & 0xC0) == 0x80) --k;
                }
                n += l.substr(0, k) + e + l.substr(k) + "\x1b[0m";
            } else n += l;
            n += "\n";
        }
        if (!n.empty()) n.pop_back();
        t = n;
    }
    random_knobs(r, s.run, true, false);
    s.run.env.erase("TERM");
    std::string term;
    switch (r.below(8)) {
        case 0: break;
        case 1: s.run.env["TERM"] = ""; break;
        case 2: s.run.env["TERM"] = r.pick(std::vector<std::string>{"no-such-terminal", "xterm-", "XTERM", "../etc", "x y"}); break;
        case 3: s.run.env["TERM"] = "vt100"; break;
        case 4: s.run.env["TERM"] = "dumb"; break;
        case 5: s.run.env["TERM"] = "xterm-256color"; break;
        case 6: s.run.env["TERM"] = "four"; break;
        default: s.run.env["TERM"] = "xterm";
    }
    s.run.termdb["four"] = 4;
    s.run.termdb["seven"] = 7;
    if (r.chance(15)) s.run.env["TERM"] = "seven";
    if (r.chance(15)) s.run.termdb_broken = true;
    auto noise = [&](RunSpec &v) {          // variables other programs look at; boxes documents none of them
        static const std::vector<std::pair<std::string, std::vector<std::string>>> vars = {
            {"COLORTERM", {"truecolor", "24bit", "", "yes", "1"}}, {"NO_COLOR", {"1", "", "0"}}, {"CLICOLOR", {"0", "1"}}, {"CLICOLOR_FORCE", {"1", "0"}},
            {"FORCE_COLOR", {"1", "3", "0"}}, {"TERM_PROGRAM", {"iTerm.app", "vscode"}}, {"COLORFGBG", {"15;0"}}, {"LS_COLORS", {"di=01;34"}},
            {"CI", {"true"}}, {"GITHUB_ACTIONS", {"true"}}, {"TERMINFO", {"/nonexistent"}}, {"TERMCAP", {"xterm:co#80:Co#256:"}}, {"COLUMNS", {"132", "0"}},
            {"WT_SESSION", {"1"}}, {"ANSICON", {"1"}}, {"TMUX", {"/tmp/x,1,0"}}, {"SSH_TTY", {"/dev/pts/3"}}, {"BOXES_COLOR", {"always"}}};
        int n = (int) r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            auto &e = r.pick(vars);
            v.env[e.first] = r.pick(e.second);
        }
    };
    if (r.chance(50)) noise(s.run);
    put_scenario(c, s);
    auto with = [&](const char *opt) {
        RunSpec v = c.runs[0];
        v.argv.insert(v.argv.begin(), opt);
        return v;
    };
    c.runs.push_back(with("--no-color"));
    c.runs.push_back(with("--color"));
    RunSpec v = with("--color");            // another terminal
    v.env["TERM"] = r.pick(std::vector<std::string>{"xterm", "vt100", "no-such-terminal", ""});
    if (r.chance(30)) v.termdb_broken = true;
    if (r.chance(40)) noise(v);
    c.runs.push_back(v);
    v = with("--no-color");
    v.env["TERM"] = "xterm-256color";
    v.termdb_broken = false;
    if (r.chance(40)) noise(v);
    c.runs.push_back(v);
    if (r.chance(30)) {                     // the last of several options counts
        c.runs[1].argv.insert(c.runs[1].argv.begin(), "--color");
        c.runs[2].argv.insert(c.runs[2].argv.begin(), "--no-color");
    }
}
static std::string strip_esc(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\x1b') {
            char n = i + 1 < s.size() ? s[i + 1] : 0;
            if (n == '[' || n == '(') {
                i += 2;
                while (i < s.size() && !(s[i] >= '@' && s[i] <= '~')) ++i;
            } else if (n >= '@' && n <= '_') ++i;       // two-character sequence; otherwise just the ESC
            continue;
        }
        r += s[i];
    }
    return r;
}
static std::string rtrim_lines(const std::string &s) {
    std::string r;
    for (auto &l : split_lines(s)) {
        std::string m = l;
        bool cr = false;
        if (!m.empty() && m.back() == '\r') cr = true, m.pop_back();
        r += rtrim(m) + (cr ? "\r" : "") + "\n";
    }
    return r;
}
void check_C12(const Case &c, Ctx &x) {
    std::string out = kvs(c, "out");
    if (c.runs.size() < 5 || !comparable(c, {"--color", "--no-color"}, false)) return;
    Outcome d = x.run(c.runs[0], c.fs), m = x.run(c.runs[1], c.fs), k = x.run(c.runs[2], c.fs), k2 = x.run(c.runs[3], c.fs), m2 = x.run(c.runs[4], c.fs);
    std::string od = outcome_output(d, out), om = outcome_output(m, out), ok = outcome_output(k, out), ok2 = outcome_output(k2, out), om2 = outcome_output(m2, out);
    const RunSpec &s = c.runs[0];
    std::string t = s.env.count("TERM") ? s.env.at("TERM") : "";
    bool colorterm = !t.empty() && !s.termdb_broken && s.termdb.count(t) && s.termdb.at(t) >= 8;
    x.nontrivial = ok != om;
    if (x.nontrivial) x.probe("output differs with and without color");
    for (auto *o : {&d, &m, &k, &k2, &m2})
        if (!o->exited) {
            if (o == &d && m.exited && k.exited) x.fail("crash", "without option: " + o->brief());
            else x.probe("a run ended by a signal");
            return;
        }
    if (k.code != k2.code || ok != ok2) {
        x.fail("terminal", "--color depends on the terminal: exit " + std::to_string(k.code) + "/" + std::to_string(k2.code) + " " + first_diff(ok, ok2));
        return;
    }
    if (m.code != m2.code || om != om2) {
        x.fail("terminal", "--no-color depends on the terminal: exit " + std::to_string(m.code) + "/" + std::to_string(m2.code) + " " + first_diff(om, om2));
        return;
    }
    if (m.code == 0 && om.find('\x1b') != std::string::npos) {
        x.fail("escape", "escape sequence in the output with --no-color: \"" + esc_short(om) + "\"");
        return;
    }
    const Outcome &w = colorterm ? k : m;
    const std::string &ow = colorterm ? ok : om;
    if (d.code != w.code || od != ow) {
        x.fail("default", "terminal type \"" + t + "\"" + (s.termdb_broken ? " (database unreadable)" : "") + ": expected the result of " +
                              (colorterm ? "--color" : "--no-color") + ", got exit " + std::to_string(d.code) + ", " + first_diff(ow, od));
        return;
    }
    if (k.code == 0 && m.code == 0 && kvs(c, "mode") == "draw") {
        if (rtrim_lines(strip_esc(ok)) != rtrim_lines(om))
            x.fail("content", "color and monochrome output differ by more than escape sequences: " + first_diff(rtrim_lines(strip_esc(ok)), rtrim_lines(om)));
        // every escape sequence of the text is there, in order
        std::string text = text_of(c.fs, kvs(c, "text"));
        // (those between the first and the last visible character of a line; leading and trailing white space are handled
        // together with what stands in front of or after it)
        size_t n1 = 0;
        for (auto &l : split_lines(text)) {
            std::string vis = rtrim(strip_esc(l));
            size_t seen = 0, lead = vis.find_first_not_of(" \t");
            for (size_t i = 0; i < l.size() && seen < vis.size(); ++i)
                if (l[i] == '\x1b') {
                    if (seen > lead) ++n1;
                    while (i + 1 < l.size() && !(l[i] >= '@' && l[i] <= '~' && l[i] != '[')) ++i;
                } else ++seen;
        }
        size_t n2 = (size_t) std::count(ok.begin(), ok.end(), '\x1b');
        if (n2 < n1) x.fail("lost", "--color loses escape sequences of the text: " + std::to_string(n1) + " in the text, " + std::to_string(n2) + " in the output");
        if (n1) x.probe("text with escape sequences");
    }
}

// =============================================================================================== C15
void gen_C15(Case &c, Rng &r, int tier) {
    ScnOpt o;
    o.modes = SC_FILTER | SC_INFO;
    o.cld = 3;
    o.parents = 30;
    o.exotic = r.chance(30);
    o.debug = 1;
    Scn s = gen_scenario(r, o);
    if (!s.cfgs.empty() && r.chance(75)) {
        int n = (int) r.range(1, tier ? 80 : 30);
        std::string &m = s.fs[s.cfgs[0]].data;
        std::string head;
        for (int i = 0; i < n; ++i) {
            std::string p = "/cfg/x" + std::to_string(i) + ".cfg";
            if (r.chance(15)) p = "/cfg/none" + std::to_string(i) + ".cfg";
            else {
                FNode f;
                f.data = marker_design("xn" + std::to_string(i), "x");
                if (r.chance(10)) f.data = "BOX broken\nsample\nx\nends\nshapes { w (\"x\") }\nelastic (q)\nEND broken\n";
                if (r.chance(8)) f.data = "this is not a configuration { \n";
                if (r.chance(8)) f.data.clear();
                if (r.chance(30)) f.data = "parent " + s.cfgs[0] + "\n" + f.data;
                if (r.chance(10)) f.openerr = EACCES;
                if (r.chance(15)) f.data = "parent :global:\n" + f.data;
                s.fs[p] = f;
            }
            head += "parent " + p + "\n";
        }
        m = head + m;
    }
    if (r.chance(40)) {            // candidates that are passed over
        for (auto *p : {"/home/u/.boxes", "/home/u/box-designs", "/home/u/boxes-config", "/home/u/boxes", "/home/u/.config/boxes/.boxes", "/usr/share/boxes/.boxes"})
            if (!s.fs.count(p) && !s.fs.count(parent_dir(p)) && r.chance(60)) {
                FNode f;
                switch (r.below(3)) {
                    case 0: f.type = 'd'; break;
                    case 1: f.staterr = EACCES; break;
                    default: f.openerr = EACCES;
                }
                s.fs[p] = f;
            }
    }
    put_scenario(c, s);
}
void check_C15(const Case &c, Ctx &x) {
    const RunSpec &s = c.runs[0];
    std::string in = kvs(c, "in"), out = kvs(c, "out");
    int room = 2;
    for (auto &a : s.argv)
        if (a.size() > 4 && a.compare(a.size() - 4, 4, ".txt") == 0) ++room;      // named input and output files
    Outcome a = x.run(s, c.fs);
    if (a.special != SP_NONE) return;
    x.nontrivial = a.steps > 6;
    size_t cfgs = 0;
    for (auto &f : c.fs)
        if (f.first.find(".cfg") != std::string::npos) ++cfgs;
    if (cfgs > 10) x.probe("more than ten configuration files");
    if (a.maxfd > room) {
        x.fail("open", std::to_string(a.maxfd) + " files open at the same time, expected at most " + std::to_string(room));
        return;
    }
    RunSpec t = s;
    t.fdlimit = 3 + room;
    Outcome b = x.run(t, c.fs);
    std::string oa = outcome_output(a, out), ob = outcome_output(b, out);
    if (a.exited != b.exited || a.code != b.code || oa != ob)
        x.fail("limit", "another result under a limit of " + std::to_string(t.fdlimit) + " descriptors: exit " + std::to_string(a.code) + "/" + std::to_string(b.code) + ", " + first_diff(oa, ob));
}

// =============================================================================================== C16
void gen_C16(Case &c, Rng &r, int tier) {
    (void) tier;
    ScnOpt o;
    o.modes = SC_FILTER;
    o.cld = 100;
    Scn s = gen_scenario(r, o);
    random_knobs(r, s.run, true, false);
    s.fs.erase("/home/u/.boxes");
    s.fs.erase("/usr/share/boxes");
    s.run.env.erase("BOXES");
    put_scenario(c, s);
    // the reference run has no configuration anywhere; the others have all sorts of them (kv st<i>)
    int n = 4;
    for (int i = 1; i <= n; ++i) {
        RunSpec v = s.run;
        std::string st;
        std::string where = r.pick(std::vector<std::string>{"/home/u/.boxes", "/usr/share/boxes", "/home/u/.config/boxes/boxes-config", "/opt/b.cfg"});
        switch (r.below(8)) {
            case 0: st = r.chance(50) ? "valid" : "rich"; break;
            case 1: st = r.chance(50) ? "rich" : "broken"; break;
            case 2: st = "unreadable"; break;
            case 3: st = "eio"; break;
            case 4: st = "nodesign"; break;
            case 5: st = "dir"; break;
            case 6: st = "none"; break;
            default: st = "nonstat"; break;
        }
        c.kv["st" + std::to_string(i)] = st + " " + where;
        if (where == "/opt/b.cfg" || r.chance(15)) v.env["BOXES"] = r.chance(80) ? where : "/nowhere";
        if (r.chance(20)) v.env.erase("HOME");
        if (r.chance(20)) v.env["XDG_CONFIG_HOME"] = "/home/u/xdg";
        if (r.chance(10)) v.env["HOME"] = "/nonexistent";
        if (st == "eio") {
            Fault f;
            f.op = OP_READ;
            f.obj = where;
            f.n = r.range(0, 1);
            f.cnt = -1;
            f.act = ACT_ERR;
            f.a = EIO;
            v.faults.push_back(f);
        }
        if (r.chance(25)) {
            Fault f;
            f.op = r.chance(50) ? OP_OPENDIR : OP_STAT;
            f.n = 0;
            f.cnt = -1;
            f.act = ACT_ERR;
            f.a = EACCES;
            if (f.op == OP_OPENDIR) v.faults.push_back(f);
        }
        // -f must not matter either
        if (r.chance(20)) v.argv.insert(v.argv.begin(), {"-f", r.chance(50) ? where : "/nowhere.cfg"});
        c.runs.push_back(v);
    }
}
void check_C16(const Case &c, Ctx &x) {
    std::string out = kvs(c, "out");
    Outcome ref = x.run(c.runs[0], c.fs);
    std::string a = outcome_output(ref, out);
    x.nontrivial = !a.empty();
    std::string text = text_of(c.fs, kvs(c, "text"));
    if (!ref.exited) {
        x.fail("crash", "without a configuration: " + ref.brief());
        return;
    }
    if (kvs(c, "mode") == "draw" && text.find_first_not_of(" \t\r\n\x1b") != std::string::npos && text.find('\x1b') == std::string::npos &&
        !has_arg(c.runs[0], "-n") && ref.code != 0) {
        x.fail("fails", "-c without any configuration file: " + ref.brief() + " stderr \"" + esc_short(ref.err) + "\"");
        return;
    }
    for (size_t i = 1; i < c.runs.size(); ++i) {
        Fs fs = c.fs;
        std::string st = kvs(c, "st" + std::to_string(i));
        size_t sp = st.find(' ');
        if (sp != std::string::npos) {
            std::string where = st.substr(sp + 1);
            st = st.substr(0, sp);
            FNode f;
            f.data = marker_design("unrelated", "UNRELATED");
            if (st == "rich")                         // every setting a design can have
                f.data = "BOX n/a\nauthor \"a\"\ndesigner \"b\"\ntags (\"t\")\nindent none\nsample\nx\nends\nshapes { nw (\"<\") n (\"-\") ne (\">\") w (\"RICH\") e (\"]\")\n"
                         "sw (\"<\") s (\"=\") se (\">\") }\nelastic (n,e,s,w)\npadding { left 4 top 1 right 2 bottom 2 }\n"
                         "replace \"[a-z]\" with \"R\"\nreverse \".\" to \"V\"\nindent none\nEND n/a\n";
            if (st == "broken") f.data = "BOX b\nsample\nx\nends\nshapes { w (\"b\" }\nEND c\nBOX \n";
            if (st == "unreadable") f.openerr = EACCES;
            if (st == "nonstat") f.staterr = EACCES;
            if (st == "nodesign") f.data = "# nothing\n";
            if (st == "dir") {
                f.type = 'd';
                f.data.clear();
            }
            if (st != "none") fs[where] = f;
        }
        x.probe("configuration " + st);
        Outcome o = x.run(c.runs[i], fs);
        std::string b = outcome_output(o, out);
        if (o.exited != ref.exited || o.code != ref.code || a != b || ref.out != o.out) {
            x.fail("depends", "-c with configuration state \"" + kvs(c, "st" + std::to_string(i)) + "\" gives another result: exit " +
                                  std::to_string(ref.code) + "/" + std::to_string(o.code) + ", " + first_diff(a, b) + " stderr \"" + esc_short(o.err) + "\"");
            return;
        }
    }
}

// =============================================================================================== C17
static const std::vector<std::string> C17_GUESS = {"dragon", "headline", "right", "xes"};
void gen_C17(Case &c, Rng &r, int tier) {
    RunSpec base;
    base_env(r, base);
    int nd = r.chance(40) ? 1 : (int) r.range(2, 3);
    std::string cfg;
    std::vector<Design> ds;
    bool blanks = r.chance(30);             // blank lines at the edges of the text must survive, too
    bool corpus = r.chance(30);             // designs as shipped
    if (corpus) {
        blanks = false;
        for (int i = 0; i < nd; ++i) {
            Design d;
            bool bad;
            do {                            // not those with rules, and not those whose sides removal can only guess
                d.name = r.pick(corpus_names());
                bad = std::find(C17_GUESS.begin(), C17_GUESS.end(), d.name) != C17_GUESS.end() || lower(corpus_design(d.name)).find("\nrepl") != std::string::npos ||
                      lower(corpus_design(d.name)).find("\nreverse") != std::string::npos;
                for (auto &e : ds) bad |= e.name == d.name;
            } while (bad);
            ds.push_back(d);
            c.kv["shipped"] += (i ? "\n" : "") + d.name;
            cfg += corpus_design(d.name) + "\n";
        }
    } else for (int i = 0; i < nd; ++i) {
        Design d = gen_design(r, "d" + std::to_string(i));
        if (blanks) d.pt = d.pb = 0;
        ds.push_back(d);
        c.kv["design" + std::to_string(i)] = design_ser(d);
        cfg += d.config() + "\n";
    }
    c.fs["/cfg/main.cfg"].data = cfg;
    TxtOpt to;
    to.flags = TX_UTF8 | TX_INDENT;
    if (blanks) to.flags |= TX_BLANKEDGE;
    to.big = 8;
    to.max_small = 10;
    Txt t = gen_text(r, to);
    if (t.lines.empty()) t.lines.push_back("text");
    for (auto &l : t.lines) {
        size_t most = corpus ? 600 : 16200;   // a coloured side takes a dozen bytes a column, and lines end at LINE_MAX_BYTES
        if (l.size() > most) {
            while (most && ((unsigned char) l[most] & 0xc0) == 0x80) --most;
            l.resize(most);
        }
        l = rtrim(l);
    }
    bool any = false;
    for (auto &l : t.lines) any |= !l.empty();
    if (!any) t.lines[0] = "text";
    if (t.lines.back().empty()) t.final_nl = true;
    t.eol = "\n";
    c.kv["t:doc"] = t.bytes();
    int steps = (int) r.range(2, tier ? 14 : 8);
    std::vector<int> stack;
    for (int i = 0; i < steps; ++i) {
        RunSpec s = base;
        s.argv = {"-f", "/cfg/main.cfg"};
        int k = (int) r.below(100);
        if (stack.empty() || (k < 30 && stack.size() < (corpus ? 1 : 4))) {
            int d = (int) r.below((u64) nd);
            s.argv.insert(s.argv.end(), {"-d", ds[(size_t) d].name});
            stack.push_back(d);
        } else {
            bool rm = k < 70;
            if (nd > 1 || r.chance(50)) s.argv.insert(s.argv.end(), {"-d", ds[(size_t) stack.back()].name});
            s.argv.push_back(rm ? "-r" : "-m");
            if (rm && blanks) s.argv.insert(s.argv.end(), {"-k", "false"});
            if (rm) stack.pop_back();
        }
        random_knobs(r, s, true, r.chance(30));
        switch (r.below(5)) {
            case 0: s.argv.insert(s.argv.end(), {"/work/doc", "/work/doc.new"}); break;
            case 1: s.argv.push_back("/work/doc"); break;
            case 2: s.argv.insert(s.argv.end(), {"-", "/work/doc.new"}); s.stdin_from = "/work/doc"; break;
            default: s.stdin_from = "/work/doc";
        }
        if (r.chance(45)) {
            Fault f;
            switch (r.below(6)) {
                case 0: f.op = OP_READ; f.obj = "/work/doc"; f.act = ACT_ERR; f.a = EIO; f.n = r.range(0, 3); break;
                case 1: f.op = OP_READ; f.obj = "<stdin>"; f.act = ACT_ERR; f.a = EIO; f.n = r.range(0, 3); break;
                case 2: f.op = OP_WRITE; f.obj = r.chance(50) ? "<stdout>" : "/work/doc.new"; f.act = r.chance(60) ? ACT_ERR : ACT_SHORT; f.a = f.act == ACT_ERR ? ENOSPC : 1; f.n = r.range(0, 3); f.cnt = r.chance(50) ? 1 : -1; break;
                case 3: f.op = OP_ANY; f.act = ACT_KILL; f.n = r.range(0, 30); break;
                case 4: f.op = OP_ALLOC; f.act = ACT_ERR; f.a = ENOMEM; f.n = r.range(0, 4000); break;
                default: f.op = OP_OPEN; f.act = ACT_ERR; f.a = EMFILE; f.n = r.range(0, 4); break;
            }
            s.faults.push_back(f);
        }
        c.runs.push_back(s);
    }
}
void check_C17(const Case &c, Ctx &x) {
    std::map<std::string, Design> ds;
    for (auto &k : c.kv)
        if (starts(k.first, "design")) {
            Design d = design_de(k.second);
            ds[d.name] = d;
        }
    for (auto &n : split_lines(kvs(c, "shipped"))) ds[n].name = n;
    struct Lvl {
        std::string doc, design;
    };
    for (auto &l : split_lines(kvs(c, "t:doc")))
        if (rtrim(l) != l) return;                      // a shortened text which boxes would trim
    std::vector<Lvl> st = {{kvs(c, "t:doc"), ""}};     // texts still inside boxes; back() is the document now
    Fs fs = c.fs;
    int removed = 0;
    for (size_t i = 0; i < c.runs.size(); ++i) {
        const RunSpec &s0 = c.runs[i];
        bool rm = has_arg(s0, "-r"), mend = has_arg(s0, "-m");
        std::string dn = arg_after(s0, "-d");
        if ((rm || mend) && st.size() < 2) continue;                          // nothing to take off (a shortened history)
        if ((rm || mend) && !dn.empty() && dn != st.back().design) continue;
        if (dn.empty() && ds.size() > 1) continue;
        std::string to = s0.argv.back() == "/work/doc.new" ? "/work/doc.new" : "<stdout>";
        for (int attempt = 0; attempt < 2; ++attempt) {
            fs["/work/doc"].data = st.back().doc;
            fs.erase("/work/doc.new");
            RunSpec s = attempt ? without_faults(s0) : s0;
            Outcome o = x.run(s, fs);
            fs = o.fs;
            if (text_of(fs, "/work/doc") != st.back().doc) {
                x.fail("source", "step " + std::to_string(i) + ": the document a run reads was changed by it");
                return;
            }
            if (!o.exited || o.code != 0) {
                if (attempt || s.faults.empty()) {
                    x.fail("fails", "step " + std::to_string(i) + (attempt ? ": the repeated run fails: " : ": ") + o.brief() + " stderr \"" + esc_short(o.err) + "\"");
                    return;
                }
                x.probe(o.special == SP_KILLED ? "killed run repeated" : "failed run repeated");
                continue;
            }
            std::string res = to == "<stdout>" ? o.out : text_of(o.fs, to);
            std::string what = "step " + std::to_string(i);
            if (mend) {
                if (res != st.back().doc) {
                    x.fail("mend", what + ": mending an intact box changed it: " + first_diff(st.back().doc, res));
                    return;
                }
            } else if (rm) {
                const std::string &want = st[st.size() - 2].doc;
                if (res != want) {
                    x.fail("remove", what + ": removal does not return the text: " + first_diff(want, res));
                    return;
                }
                st.pop_back();
                ++removed;
            } else {
                std::string why;
                auto it = ds.find(dn);
                if (it == ds.end()) it = ds.begin();
                if (c.kv.count("shipped")) {
                    size_t at = 0;
                    for (auto &l : split_lines(st.back().doc)) {
                        std::string w = trim(l);
                        size_t p = res.find(w, at);
                        if (p == std::string::npos) {
                            x.fail("draw", what + ": line \"" + esc_short(w, 100) + "\" is not in the box; output \"" + esc_short(res) + "\"");
                            return;
                        }
                        at = p + w.size();
                    }
                    x.probe("shipped design drawn");
                } else if (!extract_drawn(res, it->second, "\n", st.back().doc, why)) {
                    x.fail("draw", what + ": " + why + "; output \"" + esc_short(res) + "\"");
                    return;
                }
                st.push_back({res, it->first});
            }
            break;
        }
    }
    if (st.size() > 3) x.probe("boxes nested three deep or more");
    if (removed) x.probe("removed boxes");
    if (removed > 2) x.probe("more than two removals in one history");
    x.nontrivial = removed > 0;
}
