// Generators shared by the property checks: texts, designs, configuration files, scenarios.
#pragma once
#include "core.h"

// A text: lines without terminators
struct Txt {
    std::vector<std::string> lines;
    bool final_nl = true;
    std::string eol = "\n";
    std::string bytes() const;
};
enum { TX_UTF8 = 1, TX_TABS = 2, TX_ESC = 4, TX_BLANKEDGE = 8, TX_TRAIL = 16, TX_CRLF = 32, TX_INDENT = 64, TX_EMPTYOK = 128, TX_WIDE = 256 };
struct TxtOpt {
    int flags = TX_UTF8 | TX_TABS | TX_INDENT;
    int big = 3;              // percent of texts that are large (many lines or long lines)
    int max_small = 8;
};
Txt gen_text(Rng &r, const TxtOpt &o);
std::string gen_line(Rng &r, int flags, int maxwords);
int utf8_chars(const std::string &s);      // code points
std::string expand_tabs(const std::string &s, int ts);   // columns = code points
std::string rtrim(const std::string &s);
std::string trim(const std::string &s);
std::string lower(std::string s);

// A design of the synthetic family whose drawing the models understand: all sides closed, N and S elastic with one
// column, W and E elastic with one line.
struct Design {
    std::string name;
    std::vector<std::string> aliases, tags;
    std::vector<std::string> nw, n, ne, sw, s, se;   // lines of the shapes
    std::string w, e;
    int pl = 0, pt = 0, pr = 0, pb = 0;
    std::string indent;        // "" = default
    std::string extra;         // further design body text (rules)
    std::string config() const;
};
Design gen_design(Rng &r, const std::string &name);
std::string draw_model(const Design &d, const Txt &t);       // default alignment, no size, no rules, no tabs left
std::string corpus_design(const std::string &name);          // config text of a design of the corpus
const std::vector<std::string> &corpus_names();              // primary names
const std::string &corpus_all();

// One scenario: a command line with everything it needs
struct Scn {
    std::string mode;          // draw, remove, mend, list, listone, query, help, version
    Fs fs;
    RunSpec run;
    std::string in_obj;        // <stdin>, a path, or "" when the mode reads no input
    std::string out_obj;       // <stdout> or a path
    std::vector<std::string> cfgs;   // configuration files (first = main), empty with -c
    std::string text_path;
    Txt txt;
};
enum { SC_DRAW = 1, SC_REMOVE = 2, SC_MEND = 4, SC_LIST = 8, SC_LISTONE = 16, SC_QUERY = 32, SC_HELP = 64, SC_VERSION = 128,
       SC_FILTER = SC_DRAW | SC_REMOVE | SC_MEND, SC_INFO = SC_LIST | SC_LISTONE | SC_QUERY, SC_ALL = 255 };
struct ScnOpt {
    int modes = SC_ALL;
    int cld = 10;              // percent of filter scenarios with -c
    int outfile = 35;          // percent with a named output file
    int infile = 45;
    int parents = 20;          // percent of configurations with parent files
    int big = 3;
    int corpus = 30;           // percent of configurations made of corpus designs
    int fullcorpus = 1;
    bool exotic = true;        // layout options, tabs, colours ...
    int debug = 2;             // percent with -x debug
    int cfgf = 60;             // percent with -f (rest: BOXES, HOME, global)
};
// designs of all names gen_scenario() uses, recognisable by a side which no other design has
std::string decoy_config();
Scn gen_scenario(Rng &r, const ScnOpt &o);
// An option with a value which no reading of the manual allows, in one of the forms getopt_long() knows. `last`: nothing may follow.
std::vector<std::string> gen_bad_option(Rng &r, bool &last, char &opt);
void layout_opts(Rng &r, std::vector<std::string> &a, bool removing);
void base_env(Rng &r, RunSpec &s);
void random_knobs(Rng &r, RunSpec &s, bool delivery, bool memory);
std::string outcome_output(const Outcome &o, const std::string &out_obj);   // bytes delivered to the output of the run
std::string text_of(const Fs &fs, const std::string &p);
RunSpec without_faults(const RunSpec &s);
// Store a scenario in a case (kv: mode, in, out)
void put_scenario(Case &c, const Scn &s);
