#pragma once
#include "gen.h"

// Shared oracle pieces ------------------------------------------------------------------------------------------
bool touches(const RunSpec &s, const std::string &obj);               // some fault is aimed at obj
u64 fired_on(const Outcome &o, int op);                               // faults that fired on operations of this kind
std::string show(const std::string &label, const Outcome &o, const std::string &out_obj);
std::string first_diff(const std::string &a, const std::string &b);
// run `eval` for every candidate fault list; the first violation narrows the case to that list
void sweep(const Case &c, Ctx &x, const std::vector<std::vector<Fault>> &cands,
           const std::function<void(const Case &, Ctx &)> &eval);
std::string design_ser(const Design &d);
Design design_de(const std::string &s);
bool extract_drawn(const std::string &out, const Design &d, const std::string &eol, const std::string &text, std::string &why);
std::vector<std::string> norm_lines(const std::string &text, bool &final_nl);   // tabs expanded, right trimmed
Txt txt_of(const std::string &bytes);

#define DECL(x) void gen_##x(Case &, Rng &, int); void check_##x(const Case &, Ctx &)
DECL(C01); DECL(C02); DECL(C03); DECL(C04); DECL(C05); DECL(C06); DECL(C07); DECL(C08); DECL(C09); DECL(C10); DECL(C11); DECL(C12);
DECL(C13); DECL(C14); DECL(C15); DECL(C16); DECL(C17); DECL(C18); DECL(C19); DECL(C20);
