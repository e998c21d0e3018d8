// C20: texts in any character encoding, and converters which cannot be opened.
#include <cerrno>
#include <cstring>
#include <iconv.h>

#include "props.h"

static std::string kvs(const Case &c, const std::string &k) {
    auto it = c.kv.find(k);
    return it == c.kv.end() ? "" : it->second;
}

// bytes of UTF-8 text s in encoding enc; characters which enc lacks become '?', or (strict) ok = false
static std::string encode(const std::string &s, const std::string &enc, bool strict, bool &ok) {
    ok = true;
    if (enc == "UTF-8") {
        iconv_t cd = iconv_open("UTF-32LE", "UTF-8");
        std::string tmp(s.size() * 4 + 4, 0);
        char *i = (char *) s.data(), *o = &tmp[0];
        size_t il = s.size(), ol = tmp.size();
        if (iconv(cd, &i, &il, &o, &ol) == (size_t) -1) ok = false;
        iconv_close(cd);
        return s;
    }
    iconv_t cd = iconv_open(enc.c_str(), "UTF-8");
    if (cd == (iconv_t) -1) {
        ok = false;
        return "";
    }
    std::string out;
    size_t at = 0;
    while (at < s.size()) {
        size_t len = 1;
        while (at + len < s.size() && ((unsigned char) s[at + len] & 0xc0) == 0x80) ++len;
        char buf[16], *i = (char *) s.data() + at, *o = buf;
        size_t il = len, ol = sizeof buf;
        if (iconv(cd, &i, &il, &o, &ol) != 0 || il) {
            iconv(cd, nullptr, nullptr, nullptr, nullptr);
            if (strict) ok = false;
            out += '?';
        } else out.append(buf, (size_t) (o - buf));
        at += len;
    }
    iconv_close(cd);
    return out;
}

static const std::map<std::string, std::vector<std::string>> words = {
    {"ISO-8859-1", {"Grüße", "à", "élève", "£5", "§", "Ñandú", "ÀÅø", "þ"}},
    {"ISO-8859-15", {"€", "œuvre", "Ÿ", "Grüße", "Šš", "à"}},
    {"CP1252", {"“so”", "€", "naïve", "–", "…", "Žž", "ß"}},
    {"ISO-8859-5", {"Привет", "мир", "щука", "Ёж", "я"}},
    {"KOI8-R", {"Привет", "мир", "щука", "Ёж", "я"}},
    {"ISO-8859-7", {"Καλημέρα", "κόσμε", "ώ"}},
    {"CP437", {"Äpfel", "ßß", "░▒▓", "█", "║", "éé", "½"}},
    {"EUC-JP", {"日本語", "カタカナ", "ひらがな", "表示", "能力"}},
    {"CP932", {"日本語", "ソース", "表示", "能力", "ひらがな", "十"}},
    {"GB18030", {"中文", "简体", "你好", "世界"}},
    {"EUC-CN", {"中文", "简体", "你好", "世界"}},
    {"BIG5", {"繁體", "中文", "許功蓋", "世界"}},
    {"EUC-KR", {"한국어", "안녕", "세계"}},
    {"UTF-8", {"Grüße", "日本語", "Привет", "─│", "한국어", "e\xcc\x81", "🙂", "½"}},
};
static bool cjk(const std::string &e) { return e.compare(0, 3, "EUC") == 0 || e == "CP932" || e == "GB18030" || e == "BIG5"; }
static bool ascii(const std::string &s) {
    for (unsigned char ch : s)
        if (ch >= 0x80) return false;
    return true;
}

void gen_C20(Case &c, Rng &r, int tier) {
    std::string enc = r.chance(8) ? "UTF-8" : r.pick(conv_encodings);
    auto &ws = words.at(enc);
    c.kv["enc"] = enc;
    // names of encodings are not case sensitive
    std::string name = enc;
    if (r.chance(25)) name = lower(name);
    c.kv["mode"] = r.pick(std::vector<std::string>{"draw", "draw", "draw", "remove", "mend"});
    std::string cfg, dname;
    if (r.chance(55)) {
        Design d = gen_design(r, "d");
        if (r.chance(30) && enc != "CP437" && !cjk(enc)) d.e = d.e.substr(0, d.e.size() - 1) + (enc == "KOI8-R" || enc == "ISO-8859-5" ? "ж" : enc == "ISO-8859-7" ? "λ" : "é");
        dname = "d";
        cfg = d.config();
        c.kv["model"] = "1";
    } else {
        bool ok = true;               // a design which the encoding can express
        do dname = r.pick(corpus_names());
        while ((cjk(enc) && !ascii(corpus_design(dname))) || (encode(corpus_design(dname), enc, true, ok), !ok));
        cfg = corpus_design(dname);
        if (c.kv["mode"] != "draw" && (!ascii(cfg) || lower(cfg).find("\nrepl") != std::string::npos || lower(cfg).find("\nreverse") != std::string::npos)) c.kv["mode"] = "draw";
    }
    c.fs["/cfg/main.cfg"].data = cfg;
    std::string t;
    int n = (int) r.range(1, r.chance(4) ? 130 : 6);
    for (int i = 0; i < n; ++i) {
        if (i && r.chance(10)) {
            t += "\n";
            continue;
        }
        if (r.chance(25)) t += std::string((size_t) r.range(1, 6), ' ');
        int k = (int) r.range(1, r.chance(3) ? 400 : 5);
        for (int j = 0; j < k; ++j) {
            if (j) t += r.chance(4) ? "\t" : " ";
            t += r.chance(60) ? r.pick(ws) : r.pick(std::vector<std::string>{"a", "Box", "the", "[x]", "\\", "42", "don't", "end."});
            if (r.chance(10)) t += r.pick(ws);
        }
        if (i + 1 < n || r.chance(80)) t += "\n";
    }
    RunSpec s;
    base_env(r, s);
    random_knobs(r, s, true, r.chance(30));
    s.stdin_data = t;
    s.argv = {"-f", "/cfg/main.cfg", "-d", dname};
    switch (r.below(4)) {
        case 0: s.argv.insert(s.argv.end(), {"-n", name}); break;
        case 1: s.argv.push_back("-n" + name); break;
        case 2: s.argv.push_back("--encoding=" + name); break;
        default: s.argv.insert(s.argv.begin(), {"--encoding", name});
    }
    if (c.kv["mode"] != "draw") s.argv.push_back(c.kv["mode"] == "remove" ? "-r" : "-m");
    else if (r.chance(50)) {
        std::vector<std::string> lo;
        layout_opts(r, lo, false);
        bool other = false;                   // a second -n
        for (auto &a : lo) other |= a.compare(0, 2, "-n") == 0 || a.compare(0, 4, "--en") == 0;
        if (!other) s.argv.insert(s.argv.end(), lo.begin(), lo.end());
    }
    // the locale must not matter
    for (auto v : {"LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE"}) {
        s.env.erase(v);
        if (r.chance(45)) s.env[v] = r.pick(std::vector<std::string>{"C", "POSIX", "C.UTF-8", "C.utf8", "", "en_US.ISO-8859-1", "ja_JP.eucJP", "de_DE@euro", "xx"});
    }
    if (r.chance(30)) {
        s.argv.push_back("-");
        s.argv.push_back("/work/out");
        c.kv["out"] = "/work/out";
    } else c.kv["out"] = "<stdout>";
    c.runs.push_back(s);
    c.kv["sweep"] = std::to_string(r.chance(40) ? (tier ? 30 : 8) : 0) + " " + std::to_string(r.next() >> 8);
}

void check_C20(const Case &c, Ctx &x) {
    std::string enc = kvs(c, "enc"), mode = kvs(c, "mode"), out = kvs(c, "out");
    const RunSpec &s0 = c.runs[0];
    bool ok;
    std::string text = s0.stdin_data;
    encode(text, enc, true, ok);
    if (!ok || text.find_first_not_of(" \t\n") == std::string::npos) return;
    Fs fs = c.fs;
    // the same in UTF-8
    RunSpec u = without_faults(s0);
    u.env.erase("LC_CTYPE");
    u.env.erase("LANG");
    u.env.erase("LANGUAGE");
    u.env["LC_ALL"] = "C.UTF-8";
    for (size_t i = 0; i < u.argv.size(); ++i) {
        std::string &a = u.argv[i];
        if (a == "-n" || a == "--encoding") {
            u.argv.erase(u.argv.begin() + (long) i, u.argv.begin() + (long) i + 2);
            break;
        }
        if (a.compare(0, 2, "-n") == 0 || a.compare(0, 11, "--encoding=") == 0) {
            u.argv.erase(u.argv.begin() + (long) i);
            break;
        }
    }
    if (mode != "draw") {          // the input is a box drawn in UTF-8
        RunSpec d = u;
        for (size_t i = 0; i < d.argv.size(); ++i)
            if (d.argv[i] == "-r" || d.argv[i] == "-m") {
                d.argv.erase(d.argv.begin() + (long) i);
                break;
            }
        Outcome o = x.run(d, fs);
        if (!o.exited || o.code) return;
        text = outcome_output(o, out);
        encode(text, enc, true, ok);
        if (!ok) return;
        u.stdin_data = text;
    }
    Outcome a = x.run(u, fs);
    if (!a.exited || a.code) return;
    std::string want = encode(outcome_output(a, out), enc, false, ok), in = encode(text, enc, true, ok);
    RunSpec s = without_faults(s0);
    s.stdin_data = in;
    Fault never;                    // makes the openings of converters visible
    never.op = OP_CONV;
    never.n = (i64) 1 << 40;
    never.act = ACT_ERR;
    never.a = EMFILE;
    s.faults = {never};
    Outcome b = x.run(s, fs);
    if (!b.exited || b.code) {
        x.fail("fails", "-n " + enc + ": " + b.brief() + " stderr \"" + esc_short(b.err) + "\" while the same text is processed in UTF-8");
        return;
    }
    std::string got = outcome_output(b, out);
    if (got != want) {
        x.fail("differs", "-n " + enc + " (" + mode + ") gives something else than the result in UTF-8, converted: " + first_diff(want, got));
        return;
    }
    x.nontrivial = !ascii(in);
    x.probe("compared in " + enc);
    // every converter that cannot be opened
    size_t opens = 0;
    for (auto &rec : b.log) opens += rec.op == OP_CONV;
    RunSpec fb = u;                 // an encoding that cannot be used is replaced by the one of the locale, with a diagnostic
    fb.stdin_data = in;
    for (auto v : {"LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE"}) {
        fb.env.erase(v);
        if (s0.env.count(v)) fb.env[v] = s0.env.at(v);
    }
    Outcome f = x.run(fb, fs);
    auto eval = [&](const Case &n, Ctx &x) {
        RunSpec v = n.runs[0];
        v.stdin_data = in;
        Outcome o = x.run(v, fs);
        u64 fired = fired_on(o, OP_CONV);
        if (!fired) return;
        x.nontrivial = true;
        std::string r = outcome_output(o, out), what = "-n " + enc + " (" + mode + "), opening of a converter fails: ";
        if (!o.exited) {
            x.fail("crash", what + o.brief());
            return;
        }
        if (o.code == 0) {
            if (r == want) {
                x.probe("harmless converter failure");
                return;
            }
            if (o.err.find(enc) != std::string::npos || !o.err.empty()) {
                if (f.exited && f.code == 0 && r == outcome_output(f, out)) {
                    x.probe("fell back to the locale's encoding");
                    return;
                }
            }
            x.fail("silent", what + "exit 0 with another result: " + first_diff(want, r) + " stderr \"" + esc_short(o.err) + "\"");
            return;
        }
        x.probe("failed with a diagnostic");
        if (o.err.empty()) {
            x.fail("nodiag", what + "exit " + std::to_string(o.code) + " without a diagnostic");
            return;
        }
        std::string fo = outcome_output(f, out);
        if (want.compare(0, r.size(), r) != 0 && fo.compare(0, r.size(), r) != 0)
            x.fail("garbled", what + "fails, but wrote \"" + esc_short(r) + "\"");
    };
    if (!c.kv.count("sweep")) {
        if (!s0.faults.empty()) eval(c, x);
        return;
    }
    size_t cnt = (size_t) atoi(kvs(c, "sweep").c_str());
    std::string sd = kvs(c, "sweep");
    Rng r(strtoull(sd.c_str() + sd.find(' ') + 1, nullptr, 10));
    std::vector<std::vector<Fault>> cands;
    for (size_t i = 0; i < cnt && opens; ++i) {
        Fault fl;
        fl.op = OP_CONV;
        fl.n = i == 0 ? 0 : r.chance(30) ? (i64) (opens - 1) : (i64) r.below(opens);
        fl.cnt = r.chance(60) ? 1 : -1;
        fl.act = ACT_ERR;
        fl.a = r.pick(std::vector<int>{EMFILE, ENFILE, ENOMEM, EINVAL});
        cands.push_back({fl});
    }
    if (!cands.empty()) sweep(c, x, cands, eval);
}
