#include "gen.h"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <unistd.h>

// ----------------------------------------------------------------------------------------------- text
std::string Txt::bytes() const {
    std::string s;
    for (size_t i = 0; i < lines.size(); ++i) {
        s += lines[i];
        if (i + 1 < lines.size() || final_nl) s += eol;
    }
    return s;
}
int utf8_chars(const std::string &s) {
    int n = 0;
    for (unsigned char c : s)
        if ((c & 0xC0) != 0x80) ++n;
    return n;
}
std::string rtrim(const std::string &s) {
    size_t n = s.size();
    while (n > 0 && (s[n - 1] == ' ' || s[n - 1] == '\t' || s[n - 1] == '\r' || s[n - 1] == '\n')) --n;
    return s.substr(0, n);
}
std::string trim(const std::string &s) {
    std::string t = rtrim(s);
    size_t i = 0;
    while (i < t.size() && (t[i] == ' ' || t[i] == '\t')) ++i;
    return t.substr(i);
}
std::string expand_tabs(const std::string &s, int ts) {
    std::string r;
    int col = 0;
    for (unsigned char c : s) {
        if (c == '\t') {
            do {
                r += ' ';
                ++col;
            } while (col % ts);
        } else {
            r += (char) c;
            if ((c & 0xC0) != 0x80) ++col;
        }
    }
    return r;
}

static const std::vector<std::string> W_ASCII = {"alpha", "Box", "of", "x", "lorem", "ipsum", "42", "int", "main(void)", "{", "}", "a=b;",
    "return", "0x7f", "the", "quick", "don't", "\"q\"", "fox!", "e.g.", "C++", "%d", "$HOME", "\\n", "[x]", "re(gex)?", "#def", "--"};
static const std::vector<std::string> W_UTF8 = {"Gr\xc3\xbc\xc3\x9f" "e", "na\xc3\xafve", "\xd0\xb4\xd0\xbe\xd0\xbc", "\xce\xbb\xcf\x8c\xce\xb3\xce\xbf\xcf\x82",
    "\xe2\x82\xac" "5", "caf\xc3\xa9", "\xc5\x81\xc3\xb3" "d\xc5\xba", "\xe2\x80\x94",
    // characters whose bytes mean something else one by one
    "voil\xc3\xa0", "\xc3\xa0", "\xc3\x85", "\xc4\x80", "\xce\xa0", "\xd0\x8a", "\xc4\x8d", "\xc4\xa2z\xc4\xa7"};
static const std::vector<std::string> W_WIDE = {"\xe6\x97\xa5\xe6\x9c\xac", "\xed\x95\x9c", "\xf0\x9f\x98\x80", "e\xcc\x81", "\xe5\xad\x97x", "\xef\xbd\xb1",
    "\xef\xbb\xbf" "bom", "a\xe2\x80\x8b" "b", "so\xc2\xad" "ft", "\xe0\xb8\x81\xe0\xb8\xb5\xe0\xb9\x88"};
static const std::vector<std::string> W_ESC = {"\x1b[31m", "\x1b[0m", "\x1b[1;32m", "\x1b[38;5;208m", "\x1b[m", "\x1b[31m\x1b[1m", "\x1b""7", "\x1b""8", "\x1b(B", "\x1b""M", "\x1b[2~", "\x1b[1;2@", "\x1b[5`", "\x1b[?25h", "\x1b[K", "\x1b[38;2;10;20;30m", "\x1b[1 q"};

std::string gen_line(Rng &r, int flags, int maxwords) {
    std::string s;
    if ((flags & TX_INDENT) && r.chance(35)) {
        int n = (int) r.range(1, 9);
        if ((flags & TX_TABS) && r.chance(40)) s.append((size_t) (n / 4 + 1), '\t');
        else s.append((size_t) n, ' ');
    }
    int words = (int) r.range(1, maxwords);
    for (int i = 0; i < words; ++i) {
        if (i) {
            if ((flags & TX_TABS) && r.chance(8)) s += '\t';
            else s.append(r.chance(85) ? 1 : (size_t) r.range(2, 5), ' ');
        }
        int k = (int) r.below(100);
        if ((flags & TX_ESC) && k < 10) s += r.pick(W_ESC) + r.pick(W_ASCII) + "\x1b[0m";
        else if ((flags & TX_WIDE) && k < 20) s += r.pick(W_WIDE);
        else if ((flags & TX_UTF8) && k < 35) s += r.pick(W_UTF8);
        else s += r.pick(W_ASCII);
    }
    if ((flags & TX_TRAIL) && r.chance(20)) s.append((size_t) r.range(1, 3), ' ');
    return s;
}

Txt gen_text(Rng &r, const TxtOpt &o) {
    Txt t;
    int n;
    bool big = (int) r.below(100) < o.big;
    if (!big) {
        n = (int) r.range((o.flags & TX_EMPTYOK) ? 0 : 1, o.max_small);
        if (r.chance(40)) n = std::min(n, 3);
        int flags = o.flags;
        for (int b : {TX_UTF8, TX_WIDE, TX_TABS, TX_ESC, TX_INDENT, TX_TRAIL})   // swarm: each feature only in some texts
            if (r.chance(35)) flags &= ~b;
        for (int i = 0; i < n; ++i) {
            if (i > 0 && i < n - 1 && r.chance(15)) t.lines.push_back("");
            else t.lines.push_back(gen_line(r, flags, 6));
        }
    } else {
        switch (r.below(3)) {
            case 0: {       // around the growth step of the line table
                static const std::vector<int> counts = {98, 99, 100, 101, 199, 200, 201, 300, 301, 150};
                n = r.pick(counts);
                for (int i = 0; i < n; ++i) t.lines.push_back("L" + std::to_string(i) + " " + r.pick(W_ASCII));
                break;
            }
            case 1: {       // long lines
                static const std::vector<int> lens = {1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16380, 16381};
                n = (int) r.range(1, 3);
                for (int i = 0; i < n; ++i) {
                    size_t len = (size_t) r.pick(lens);
                    if (i != 0 && r.chance(60)) {
                        t.lines.push_back(gen_line(r, o.flags & TX_UTF8, 4));
                        continue;
                    }
                    std::string s;
                    while (s.size() < len) s += r.pick(W_ASCII) + " ";
                    s.resize(len);
                    if (s.back() == ' ') s.back() = '.';
                    t.lines.push_back(s);
                }
                break;
            }
            default: {      // larger than any stdio buffer
                n = (int) r.range(20, 80);
                for (int i = 0; i < n; ++i) t.lines.push_back("n" + std::to_string(i) + " " + gen_line(r, o.flags & ~TX_ESC, 14));
            }
        }
    }
    if ((o.flags & TX_BLANKEDGE) && r.chance(20)) {
        size_t k = (size_t) r.range(1, 2);
        if (r.chance(50)) t.lines.insert(t.lines.begin(), k, "");
        else t.lines.insert(t.lines.end(), k, "");
    }
    if (!t.lines.empty() && r.chance(8))          // lines which end or control the input of other programs
        t.lines[r.below(t.lines.size())] = r.pick(std::vector<std::string>{".", "..", "EOF", "END", "q", "0", "~.", "\\.", "$", "exit", "__END__"});
    if ((o.flags & TX_WIDE) && !t.lines.empty() && r.chance(4)) t.lines[0].insert(0, "\xef\xbb\xbf");
    t.final_nl = r.chance(85);
    if (!t.lines.empty() && t.lines.back().empty()) t.final_nl = true;
    if ((o.flags & TX_BLANKEDGE) && r.chance(6)) {
        t.lines.push_back(std::string((size_t) r.range(1, 4), ' '));      // nothing but blanks on a last line without end
        t.final_nl = false;
    }
    if ((o.flags & TX_CRLF) && r.chance(10)) t.eol = "\r\n";
    return t;
}

// ----------------------------------------------------------------------------------------------- designs
static std::string q(const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        r += c;
    }
    return r + "\"";
}
static std::string shape(const char *n, const std::vector<std::string> &v) {
    std::string s = std::string("  ") + n + " (";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + q(v[i]);
    return s + ")\n";
}
std::string Design::config() const {
    std::string c = "BOX " + name;
    for (auto &a : aliases) c += ", " + a;
    c += "\n";
    if (!tags.empty()) {
        c += "tags (";
        for (size_t i = 0; i < tags.size(); ++i) c += (i ? ", " : "") + q(tags[i]);
        c += ")\n";
    }
    c += "sample\n    sample of " + name + "\nends\nshapes {\n";
    c += shape("nw", nw) + shape("n", n) + shape("ne", ne) + shape("w", {w}) + shape("e", {e}) + shape("sw", sw) + shape("s", s) +
         shape("se", se) + "}\nelastic (n, e, s, w)\n";
    if (pl || pt || pr || pb) {
        c += "padding {";
        if (pl) c += " left " + std::to_string(pl);
        if (pt) c += " top " + std::to_string(pt);
        if (pr) c += " right " + std::to_string(pr);
        if (pb) c += " bottom " + std::to_string(pb);
        c += " }\n";
    }
    if (!indent.empty()) c += "indent \"" + indent + "\"\n";
    c += extra;
    c += "END " + name + "\n";
    return c;
}

Design gen_design(Rng &r, const std::string &name) {
    Design d;
    d.name = name;
    // Characters that do not occur as such in generated texts at line ends keep the models simple; all visible.
    static const std::vector<std::string> ch = {"#", "*", "=", "+", "~", ":", "@", "%", "&", "^", "|", "!", "-", "_"};
    auto str = [&](size_t n) {
        std::string s;
        for (size_t i = 0; i < n; ++i) s += r.pick(ch);
        return s;
    };
    auto block = [&](size_t h, size_t w) {
        std::vector<std::string> v;
        for (size_t i = 0; i < h; ++i) v.push_back(str(w));
        return v;
    };
    size_t wl = (size_t) r.range(1, 3), wr = (size_t) r.range(1, 3), ht = r.chance(75) ? 1 : 2, hb = r.chance(75) ? 1 : 2;
    d.nw = block(ht, wl);
    d.n = block(ht, 1);
    d.ne = block(ht, wr);
    d.sw = block(hb, wl);
    d.s = block(hb, 1);
    d.se = block(hb, wr);
    d.w = str(wl);
    d.e = str(wr);
    if (r.chance(50)) d.pl = d.pr = 1;
    if (r.chance(15)) d.pl = (int) r.range(0, 4);
    if (r.chance(15)) d.pr = (int) r.range(0, 4);
    if (r.chance(20)) d.pt = (int) r.range(0, 2);
    if (r.chance(20)) d.pb = (int) r.range(0, 2);
    return d;
}

static int indent_of(const std::string &s) {
    int n = 0;
    while (n < (int) s.size() && s[(size_t) n] == ' ') ++n;
    return n;
}

std::string draw_model(const Design &d, const Txt &t) {
    int ind = 1 << 20, maxline = 0;
    std::vector<std::string> ls;
    for (auto &l : t.lines) {
        std::string x = rtrim(expand_tabs(rtrim(l), 8));
        ls.push_back(x);
        if (!x.empty()) ind = std::min(ind, indent_of(x));
        maxline = std::max(maxline, utf8_chars(x));
    }
    if (maxline == 0) ind = 0;
    std::string pre;
    if (d.indent.empty() || d.indent == "box") pre.assign((size_t) ind, ' ');
    if (d.indent != "text") {
        for (auto &x : ls)
            if (!x.empty()) x = x.substr((size_t) ind);
        maxline -= ind;
    }
    int width = std::max(1, maxline + d.pl + d.pr);
    std::vector<std::string> out;
    auto horiz = [&](const std::vector<std::string> &a, const std::vector<std::string> &m, const std::vector<std::string> &b) {
        for (size_t i = 0; i < a.size(); ++i) {
            std::string mid;
            for (int k = 0; k < width; ++k) mid += m[i];
            out.push_back(rtrim(pre + a[i] + mid + b[i]));
        }
    };
    auto content = [&](const std::string &x) {
        std::string c = std::string((size_t) d.pl, ' ') + x;
        int fill = width - utf8_chars(c);
        if (fill > 0) c.append((size_t) fill, ' ');
        out.push_back(rtrim(pre + d.w + c + d.e));
    };
    horiz(d.nw, d.n, d.ne);
    for (int i = 0; i < d.pt; ++i) content("");
    for (auto &x : ls) content(x);
    for (int i = 0; i < d.pb; ++i) content("");
    horiz(d.sw, d.s, d.se);
    std::string res;
    for (size_t i = 0; i < out.size(); ++i) res += out[i] + (i + 1 < out.size() || t.final_nl ? "\n" : "");
    return res;
}

// ----------------------------------------------------------------------------------------------- corpus
static std::string corpus_text;
static std::vector<std::string> corpus_n;
static std::map<std::string, std::string> corpus_d;
static void load_corpus() {
    static bool done;
    if (done) return;
    done = true;
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    std::string dir(exe, n > 0 ? (size_t) n : 0);
    dir = dir.substr(0, dir.rfind('/'));
    for (const std::string &p : {dir + "/corpus.conf", dir + "/../sim/corpus.conf", std::string("/verif/sim/corpus.conf")}) {
        std::ifstream f(p, std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        corpus_text = s.str();
        if (!corpus_text.empty()) break;
    }
    std::string cur, name;
    for (auto &l : split_lines(corpus_text)) {
        if (name.empty()) {
            if (l.compare(0, 4, "BOX ") != 0) continue;
            name = rtrim(l.substr(4));
            size_t k = name.find_first_of(" ,");
            if (k != std::string::npos) name.resize(k);
            cur.clear();
        }
        cur += l + "\n";
        std::string u = l;
        for (auto &c : u) c = (char) tolower((unsigned char) c);
        std::string e = "end ";
        for (char c : name) e += (char) tolower((unsigned char) c);
        if (rtrim(u) == e) {
            corpus_n.push_back(name);
            corpus_d[name] = cur;
            name.clear();
        }
    }
    if (corpus_n.empty()) {
        fprintf(stderr, "boxsim: corpus.conf not found\n");
        _exit(2);
    }
}
std::string corpus_design(const std::string &name) {
    load_corpus();
    return corpus_d[name];
}
const std::vector<std::string> &corpus_names() {
    load_corpus();
    return corpus_n;
}
const std::string &corpus_all() {
    load_corpus();
    return corpus_text;
}

// ----------------------------------------------------------------------------------------------- scenarios
void base_env(Rng &r, RunSpec &s) {
    s.env["HOME"] = "/home/u";
    s.env["LC_ALL"] = "C.UTF-8";
    if (r.chance(70)) s.env["TERM"] = "xterm";
    s.termdb = {{"xterm", 8}, {"xterm-256color", 256}, {"vt100", -1}, {"dumb", -1}};
    s.clock0 = 1000000000 + (i64) r.below(900000000);
    s.pid = (int) r.range(2, 30000);
    s.lat = r.next();
}

void random_knobs(Rng &r, RunSpec &s, bool delivery, bool memory) {
    if (delivery) {
        static const std::vector<int> buf = {1, 2, 3, 7, 16, 64, 100, 512, 1024, 4096, 4096, 4096, 65536};
        static const std::vector<int> obuf = {0, 1, 5, 16, 64, 512, 4096, 4096, 4096, -1, 65536};
        static const std::vector<int> chunk = {0, 0, 0, 1, 2, 3, 5, 17, 100, 4096, -7, -50, -3000};
        s.inbuf = r.pick(buf);
        s.outbuf = r.pick(obuf);
        s.rchunk = r.pick(chunk);
        s.wchunk = r.pick(chunk);
        if (r.chance(15)) s.tty_out = true;
        if (r.chance(15)) s.tty_in = true;
        if (r.chance(15)) s.tty_err = true;
    }
    if (memory) {
        static const std::vector<int> fills = {0, 0xFF, 0x01, 0x20, 0x41, 0x7F, 0x80, 256, 999, 31337};
        static const std::vector<int> ffills = {-1, 0xDD, 0x00, 0xFF, 0x20};
        s.heapfill = r.pick(fills);
        s.freefill = r.pick(ffills);
        s.reuse = r.chance(50);
        s.heapskew = (int) r.below(6);
        s.stackfill = r.pick(std::vector<int>{0, 0xFF, 0x55, 0x20, 0x01});
        s.stackskew = (int) r.below(200);
        s.lat = r.next();
    }
    if (r.chance(35)) s.envnoise = r.next() | 1;
}

std::string outcome_output(const Outcome &o, const std::string &out_obj) {
    if (out_obj == "<stdout>") return o.out;
    auto it = o.fs.find(out_obj);
    return it == o.fs.end() ? "" : it->second.data;
}
std::string text_of(const Fs &fs, const std::string &p) {
    auto it = fs.find(p);
    return it == fs.end() ? "" : it->second.data;
}
RunSpec without_faults(const RunSpec &s) {
    RunSpec r = s;
    r.faults.clear();
    return r;
}
void put_scenario(Case &c, const Scn &s) {
    c.fs = s.fs;
    c.runs.push_back(s.run);
    c.kv["mode"] = s.mode;
    c.kv["in"] = s.in_obj;
    c.kv["out"] = s.out_obj;
    if (!s.text_path.empty()) c.kv["text"] = s.text_path;
    std::string l;
    for (auto &f : s.cfgs) l += (l.empty() ? "" : "\n") + f;
    c.kv["cfgs"] = l;
}

static FNode file(const std::string &d) {
    FNode n;
    n.data = d;
    return n;
}
static std::string comments(Rng &r, size_t bytes) {
    std::string s;
    while (s.size() < bytes) s += "# filler " + std::to_string(r.below(100000)) + " ................................................\n";
    return s;
}

void layout_opts(Rng &r, std::vector<std::string> &a, bool removing) {
    auto add = [&](const char *o, const std::string &v) {
        a.push_back(o);
        a.push_back(v);
    };
    if (!removing) {
        if (r.chance(25)) add("-a", r.pick(std::vector<std::string>{"c", "l", "r", "hc", "hr", "hl", "jc", "jr", "jl", "vc", "vb", "vt", "hcvcjc", "hrjl", "hcjr"}));
        if (r.chance(25)) add("-p", r.pick(std::vector<std::string>{"a1", "h2", "v1", "l3", "t2b1", "a2l0", "h1v0", "r5", "a0"}));
        if (r.chance(25)) add("-s", r.pick(std::vector<std::string>{"20", "40x10", "x8", "60x3", "7x7", "100", "30x12", "1x1"}));
        if (r.chance(15)) add("-i", r.pick(std::vector<std::string>{"box", "text", "none", "b", "t"}));
    } else {
        if (r.chance(20)) add("-k", r.pick(std::vector<std::string>{"true", "false", "yes", "no", "1", "0"}));
        if (r.chance(8)) a.push_back(r.chance(50) ? "--kill-blank" : "--no-kill-blank");
    }
    if (r.chance(20)) add("-t", r.pick(std::vector<std::string>{"4", "8e", "4u", "8u", "4k", "8k", "1e", "3u", "2k"}));
    if (r.chance(15)) add("-e", r.pick(std::vector<std::string>{"LF", "CRLF", "CR", "crlf"}));
    if (r.chance(15)) a.push_back(r.chance(60) ? "--color" : "--no-color");
    if (r.chance(15)) add("-n", r.pick(std::vector<std::string>{"UTF-8", "UTF-8", "ISO-8859-1", "US-ASCII", "bogus-charset"}));
}

// ---- option values: what the manual allows, decided independently of boxes (the few things boxes takes beyond that are not judged)
static std::string lc(std::string s) {
    for (auto &c : s) c = (char) tolower((unsigned char) c);
    return s;
}
static bool valid_align(const std::string &v0) {
    std::string v = lc(v0);
    if (v.empty()) return false;
    for (size_t i = 0; i < v.size(); ++i) {
        char n = i + 1 < v.size() ? v[i + 1] : 0;
        if (v[i] == 'h' || v[i] == 'j') {
            if (n != 'l' && n != 'c' && n != 'r') return false;
            ++i;
        } else if (v[i] == 'v') {
            if (n != 't' && n != 'c' && n != 'b') return false;
            ++i;
        } else if (v[i] != 'l' && v[i] != 'c' && v[i] != 'r') return false;
    }
    return true;
}
// 1 valid, 0 invalid, -1 not judged
static int valid_pad(const std::string &v0) {
    std::string v = lc(v0);
    if (v.empty()) return 0;
    bool sloppy = false;
    size_t i = 0;
    while (i < v.size()) {
        if (!strchr("ahvtrbl", v[i])) return 0;
        ++i;
        if (i == v.size()) return 0;                      // letter without a number at the end
        if (isspace((unsigned char) v[i]) || v[i] == '+' || !isdigit((unsigned char) v[i])) sloppy = true;
        if (v[i] == '-') return i + 1 < v.size() && isdigit((unsigned char) v[i + 1]) && v[i + 1] != '0' ? 0 : -1;
        size_t k = i;
        while (k < v.size() && isdigit((unsigned char) v[k])) ++k;
        if (k - i > 9) return k - i > 10 ? 0 : -1;
        if (k == i) {                                     // no digits: boxes reads that as zero
            if (v[k] == '+' || isspace((unsigned char) v[k])) return -1;
        }
        i = k;
    }
    return sloppy ? -1 : 1;
}
static int valid_tabs(const std::string &v) {
    size_t i = 0;
    if (!v.empty() && (isspace((unsigned char) v[0]) || v[0] == '+')) return -1;
    if (!v.empty() && v[0] == '-') return 0;
    while (i < v.size() && isdigit((unsigned char) v[i])) ++i;
    if (i == 0 || i > 9) return 0;
    int n = atoi(v.substr(0, i).c_str());
    if (n < 1 || n > 100) return 0;
    std::string rest = lc(v.substr(i));
    return rest.empty() || rest == "e" || rest == "k" || rest == "u";
}
static int valid_size(const std::string &v0) {
    std::string v = lc(v0);
    size_t x = v.find('x');
    std::string a = v.substr(0, x), b = x == std::string::npos ? "" : v.substr(x + 1);
    auto num = [](const std::string &t, bool &judged) -> long {
        if (t.empty()) return 0;
        if (isspace((unsigned char) t[0]) || t[0] == '+') judged = false;
        size_t i = t[0] == '-' ? 1 : 0, k = i;
        while (i < t.size() && isdigit((unsigned char) t[i])) ++i;
        if (i != t.size()) judged = false;                // trailing characters
        if (i == k) return 0;
        return i - k > 7 ? -1 : (t[0] == '-' ? -1 : 1) * atol(t.substr(k, i - k).c_str());
    };
    bool ja = true, jb = true;
    long w = num(a, ja), h = num(b, jb);
    if ((ja && w < 0) || (jb && h < 0)) return 0;
    if (w == 0 && h == 0) {
        // nothing that could be a number at all?
        if (v.find_first_of("123456789") == std::string::npos && v.find_first_of("+ \t") == std::string::npos) return 0;
        return -1;
    }
    return ja && jb ? 1 : -1;
}
std::vector<std::string> gen_bad_option(Rng &r, bool &last, char &opt) {
    last = false;
    if (r.chance(12)) {              // unknown option, or a missing argument at the end
        if (r.chance(50)) {
            opt = 0;
            return {r.pick(std::vector<std::string>{"--bogus", "-Z", "--no-such-option=3", "-w", "--colour", "-0", "--list=x", "--remove=yes", "-j"})};
        }
        last = true;
        opt = 0;
        return {r.pick(std::vector<std::string>{"--design", "-d", "--size", "-n", "-a", "-p", "-f", "--config", "-c", "-s", "-t", "--tabs", "-e", "-k", "-i", "-q", "-x"})};
    }
    auto rnd = [&](const char *alphabet, int lo, int hi) {
        std::string v;
        size_t n = (size_t) r.range(lo, hi), m = strlen(alphabet);
        for (size_t i = 0; i < n; ++i) v += alphabet[r.below(m)];
        return v;
    };
    auto twist = [&](const std::vector<std::string> &good, const char *extra) {      // a good value with something added or taken away
        std::string v = r.pick(good);
        switch (r.below(4)) {
            case 0: v += rnd(extra, 1, 2); break;
            case 1: v.insert(v.begin(), rnd(extra, 1, 1)[0]); break;
            case 2: v = v.substr(0, r.below(v.size() + 1)); break;
            default: v += r.pick(good);
        }
        if (r.chance(30)) v = lc(v);
        return v;
    };
    for (;;) {
        opt = "aaeeiikkppppssttttxcq"[r.below(21)];
        std::string v, lng;
        bool bad = false;
        switch (opt) {
            case 'a':
                lng = "--align";
                v = r.chance(50) ? rnd("hvjlcrtbHVJCx1 ", 0, 5) : twist({"hc", "vb", "jl", "c", "hcvcjr", "l", "r"}, "hvjtbqx1 ");
                bad = !valid_align(v);
                break;
            case 'e':
                lng = "--eol";
                v = twist({"CR", "LF", "CRLF"}, "CLRFXcrlf \n1");
                bad = lc(v) != "cr" && lc(v) != "lf" && lc(v) != "crlf";
                break;
            case 'i': {
                lng = "--indent";
                v = twist({"box", "text", "none", "b", "t", "n"}, "xsb t1-");
                std::string l = lc(v);
                bad = std::string("box").compare(0, l.size(), l) && std::string("text").compare(0, l.size(), l) && std::string("none").compare(0, l.size(), l);
                break;
            }
            case 'k': {
                v = twist({"on", "yes", "true", "1", "t", "off", "no", "false", "0", "f"}, "esn01- tf");
                if (r.chance(15)) v = r.pick(std::vector<std::string>{"auto", "automatic", "default", "always", "never", "y", "n", "yep", "nope", "enable", "disabled", "tru", "fals", "2", "-1", "00", "11", "none", "all"});
                std::string l = lc(v);
                bad = true;
                for (auto *w : {"on", "yes", "true", "1", "t", "off", "no", "false", "0", "f"}) bad &= l != w;
                break;
            }
            case 'p':
                lng = "--padding";
                v = r.chance(50) ? rnd("ahvtrbl01234-q ", 0, 6) : twist({"a1", "h2", "l3r4", "t1b2", "v0", "a3l4294967296", "a4294967297", "r-1", "b-4294967295"}, "ahvxq-9");
                bad = valid_pad(v) == 0;
                break;
            case 's':
                lng = "--size";
                v = r.chance(50) ? rnd("0x-X0a", 0, 4) : twist({"0x0", "-1", "-20x4", "12x-3", "x", "x0", "0", "x-1", "0x", "-0"}, "0x-z");
                bad = valid_size(v) == 0;
                break;
            case 't':
                lng = "--tabs";
                v = r.chance(40) ? rnd("0123456789ekuz-", 0, 4) : twist({"8e", "4u", "2k", "100", "101", "0", "1", "4294967304", "999", "-4", "16"}, "eku0z-x");
                bad = valid_tabs(v) == 0;
                break;
            case 'x':
                lng = "--extra";
                v = r.pick(std::vector<std::string>{"nonsense", "debug:NOPE", "", "undoc", "(undoc", "debugx", "debug:MAIN,FOO", "xdebug", "MAIN"});
                bad = true;
                break;
            case 'c':
                lng = "--create";
                v = "";
                bad = true;
                break;
            default:
                lng = "--tag-query";
                v = r.pick(std::vector<std::string>{"", ",", ",,", " ,", "a,a", "+a,-a", "-a,a", "a,b,+a", "?", "a,?", "tag!", "a,b*", "+", "-", "a b", "-tag_1"});
                bad = true;
        }
        if (!bad) continue;
        std::string sh = std::string("-") + opt;
        switch (r.below(4)) {
            case 0:
                if (!v.empty()) return {sh + v};
                return {sh, v};
            case 1:
                if (!lng.empty()) return {lng, v};
                return {sh, v};
            case 2:
                if (!lng.empty()) return {lng + "=" + v};
                return {sh, v};
            default: return {sh, v};
        }
    }
}

std::string decoy_config() {
    std::vector<std::string> n = {"pbox, pbox-alias", "qbox, qbox-alias", "rbox, rbox-alias"};
    for (auto &m : corpus_names()) n.push_back(m);
    std::string s;
    for (auto &m : n) s += "BOX " + m + "\nsample\nD\nends\nshapes { w (\"DECOY \") }\nelastic (w)\nEND " + m.substr(0, m.find(',')) + "\n";
    return s;
}

Scn gen_scenario(Rng &r, const ScnOpt &o) {
    Scn s;
    base_env(r, s.run);
    static const struct {
        int bit, weight;
        const char *name;
    } modes[] = {{SC_DRAW, 50, "draw"}, {SC_REMOVE, 16, "remove"}, {SC_MEND, 10, "mend"}, {SC_LIST, 6, "list"}, {SC_LISTONE, 5, "listone"},
                 {SC_QUERY, 8, "query"}, {SC_HELP, 3, "help"}, {SC_VERSION, 2, "version"}};
    int tot = 0;
    for (auto &m : modes)
        if (o.modes & m.bit) tot += m.weight;
    int k = (int) r.below((u64) tot);
    int bit = 0;
    for (auto &m : modes)
        if (o.modes & m.bit) {
            if (k < m.weight) {
                s.mode = m.name;
                bit = m.bit;
                break;
            }
            k -= m.weight;
        }
    bool filter = bit & SC_FILTER;
    s.text_path = "/work/in.txt";
    auto &a = s.run.argv;
    if (bit & (SC_HELP | SC_VERSION)) {
        a.push_back(bit == SC_HELP ? r.pick(std::vector<std::string>{"-h", "--help", "-?"}) : r.pick(std::vector<std::string>{"-v", "--version"}));
        s.out_obj = "<stdout>";
        s.run.stdin_data = "unused\n";
        s.text_path.clear();
        return s;
    }
    // ---- configuration
    bool cld = filter && r.chance(o.cld);
    std::vector<Design> ds;
    std::string chosen;              // design name used
    std::string cname;               // corpus design used
    bool named = true;
    Design md;                       // synthetic design in use
    bool have_md = false;
    if (cld) {
        std::string w = r.pick(std::vector<std::string>{"# ", "//", "> ", "* ", "--", "REM ", "% ", "#", "\xc2\xa7 "});
        a.push_back(r.chance(80) ? "-c" : "--create");
        a.push_back(w);
        if (r.chance(50)) s.fs["/home/u/.boxes"] = file("BOX unrelated\nsample\nu\nends\nshapes { w (\"u\") }\nelastic (w)\nEND unrelated\n");
        else s.fs["/usr/share/boxes"] = file("BOX unrelated\nsample\nu\nends\nshapes { w (\"u\") }\nelastic (w)\nEND unrelated\n");
    } else {
        std::string main = "/cfg/main.cfg", body, head = "# generated\n";
        if (r.chance(10)) head += comments(r, (size_t) r.range(3000, 30000));
        bool corpus = r.chance(o.corpus);
        std::vector<std::string> blocks, names;
        if (corpus && r.chance(o.fullcorpus)) {
            cname = r.pick(corpus_names());
            names = {cname};
            blocks = {corpus_all()};
        } else {
            int nd = (int) r.range(1, 3);
            for (int i = 0; i < nd; ++i) {
                if (corpus) {
                    std::string n = r.pick(corpus_names());
                    if (std::find(names.begin(), names.end(), n) != names.end()) continue;
                    names.push_back(n);
                    blocks.push_back(corpus_design(n));
                } else {
                    Design d = gen_design(r, std::string(1, (char) ('p' + i)) + "box");
                    if (r.chance(30)) d.aliases.push_back(d.name + "-alias");
                    if (r.chance(60)) d.tags = {"tag" + std::to_string(r.below(3)), "common"};
                    if (o.exotic && r.chance(20)) d.indent = r.pick(std::vector<std::string>{"box", "text", "none"});
                    if (o.exotic && r.chance(20)) d.extra += "replace \"a(l|b)\" with \"<\\\\1>\"\n";
                    if (o.exotic && r.chance(15)) d.extra += "reverse \"<(l|b)>\" to \"a\\\\1\"\n";
                    if (o.exotic && r.chance(15)) {
                        d.w = "\x1b[32m" + d.w + "\x1b[0m";
                        d.e = "\x1b[32m" + d.e + "\x1b[0m";
                    }
                    names.push_back(d.name);
                    blocks.push_back(d.config());
                    ds.push_back(d);
                }
            }
        }
        // distribute over parents
        int nparents = r.chance(o.parents) ? (int) r.range(1, 3) : 0;
        std::vector<std::string> bodies(1 + (size_t) nparents);
        for (size_t i = 0; i < blocks.size(); ++i) bodies[nparents ? r.below(bodies.size()) : 0] += blocks[i] + "\n";
        if (trim(bodies[0]).empty() && nparents == 0) bodies[0] = blocks[0];
        for (int i = 1; i <= nparents; ++i)
            if (bodies[(size_t) i].empty()) {
                Design d = gen_design(r, "extra" + std::to_string(i));
                bodies[(size_t) i] = d.config();
            }
        std::vector<std::string> paths = {main};
        for (int i = 1; i <= nparents; ++i) paths.push_back("/cfg/parent" + std::to_string(i) + ".cfg");
        int where = (int) r.below(100);
        if (where >= o.cfgf) {
            int rest = (where - o.cfgf) * 3 / std::max(1, 100 - o.cfgf);
            if (rest == 0) {
                s.run.env["BOXES"] = main;
            } else if (rest == 1) {
                paths[0] = r.chance(50) ? "/home/u/.boxes" : "/home/u/.config/boxes/box-designs";
            } else {
                paths[0] = "/usr/share/boxes";
            }
        } else {
            if (r.chance(18)) {
                paths[0] = "/cfg/d/" + r.pick(std::vector<std::string>{"boxes-config", "boxes-config", "boxes", ".boxes", "box-designs"});
                a.push_back("-f");
                a.push_back("/cfg/d");
            } else {
                a.push_back("-f");
                a.push_back(paths[0]);
            }
        }
        // chain or star of parents
        bool star = r.chance(50);
        std::vector<std::string> heads(paths.size());
        for (size_t i = 1; i < paths.size(); ++i) heads[star ? 0 : i - 1] += "parent " + paths[i] + "\n";
        for (size_t i = 0; i < paths.size(); ++i) s.fs[paths[i]] = file(heads[i] + (i == 0 ? head : "") + "\n" + bodies[i]);
        s.cfgs = paths;
        size_t pick = r.below(names.size());
        chosen = names[pick];
        if (corpus) cname = chosen;
        if (!corpus) {
            md = ds[pick];
            have_md = true;
        }
        named = r.chance(80);
        if (!named) {
            if (blocks.size() > 1 || nparents) named = true;        // keep the model simple: default design only when it is unique
            if (corpus && blocks.size() == 1 && names.size() == 1 && blocks[0].size() > 20000) named = true;
        }
        if (bit & SC_FILTER && named) {
            std::string nm = chosen;
            if (have_md && !md.aliases.empty() && r.chance(50)) nm = md.aliases[0];
            if (r.chance(15)) for (auto &c : nm) c = (char) toupper((unsigned char) c);
            bool omit = (bit & (SC_REMOVE | SC_MEND)) && r.chance(40);   // autodetection
            if (!omit) {
                a.push_back(r.chance(85) ? "-d" : "--design");
                a.push_back(nm);
            }
        }
        if (bit == SC_LISTONE) {
            a.push_back("-l");
            a.push_back("-d");
            a.push_back(chosen);
        }
    }
    if (bit == SC_LIST) a.push_back("-l");
    if (bit == SC_QUERY) {
        a.push_back(r.chance(80) ? "-q" : "--tag-query");
        a.push_back(r.pick(std::vector<std::string>{"(all)", "common", "tag0", "+common,-tag1", "tag1,tag2", "nosuchtag", "box", "undoc"}));
    }
    // ---- text
    TxtOpt to;
    to.big = o.big;
    to.flags = TX_UTF8 | TX_WIDE | TX_TABS | TX_INDENT | TX_TRAIL | TX_BLANKEDGE | TX_CRLF;
    if (o.exotic && r.chance(10)) to.flags |= TX_ESC;
    if (r.chance(3)) to.flags |= TX_EMPTYOK;
    s.txt = gen_text(r, to);
    std::string text = s.txt.bytes();
    if (bit & SC_REMOVE) a.push_back(r.chance(80) ? "-r" : "--remove");
    if (bit & SC_MEND) a.push_back(r.chance(80) ? "-m" : "--mend");
    if (o.exotic && filter) layout_opts(r, a, bit != SC_DRAW);
    if (filter && bit != SC_DRAW) {
        // the box to remove or mend: drawn by boxes itself
        RunSpec d = s.run;
        d.argv.clear();
        if (cld) d.argv = {a[0], a[1]};
        else {
            d.argv = {"-d", chosen};
            for (size_t i = 0; i + 1 < a.size(); ++i)
                if (a[i] == "-f") {
                    d.argv.push_back("-f");
                    d.argv.push_back(a[i + 1]);
                }
        }
        if (r.chance(20)) {
            d.argv.push_back("-p");
            d.argv.push_back("a1");
        }
        d.argv.push_back(r.chance(70) ? "--no-color" : "--color");
        d.stdin_data = text;
        Outcome out = sim_run(d, s.fs);
        if (out.exited && out.code == 0 && !out.out.empty()) text = out.out;
        if (r.chance(15)) text += "after the box\n";
    }
    if (r.chance(o.debug) && text.size() < 3000) {
        a.push_back("-x");
        a.push_back(r.pick(std::vector<std::string>{"debug", "debug:ALL", "debug:MAIN,REGEXP", "debug:PARSER,LEXER", "debug:DISCOVERY", "(undoc)"}));
    }
    s.fs["/work/in.txt"] = file(text);
    // ---- channels
    bool outfile = r.chance(o.outfile), infile = r.chance(o.infile);
    if (infile) {
        a.push_back("/work/in.txt");
        if (r.chance(30)) a.back() = "in.txt";
        s.in_obj = "/work/in.txt";
        s.run.stdin_data = "";
    } else {
        if (outfile || r.chance(25)) a.push_back("-");
        s.in_obj = "<stdin>";
        s.run.stdin_from = "/work/in.txt";
    }
    s.out_obj = "<stdout>";
    if (infile || (!a.empty() && a.back() == "-")) {
        if (outfile) {
            a.push_back("/work/out.txt");
            if (r.chance(20)) a.back() = "./out.txt";
            s.out_obj = "/work/out.txt";
            if (r.chance(50)) {
                std::string old = "old content\n";
                if (r.chance(40)) old += std::string((size_t) r.range(100, 6000), 'o') + "\n";
                s.fs["/work/out.txt"] = file(old);
            }
        } else if (r.chance(15)) {
            a.push_back("-");
        }
    }
    if (!filter) s.in_obj.clear();
    (void) cname;
    return s;
}
