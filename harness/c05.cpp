#include "gen.h"
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 16; o.must = 5; o.triple = 1; o.w_if = 3; o.w_unless = 1; o.w_each = 2; o.w_with = 1; o.section = 3; o.inv = 2; o.comment = 4; o.partial = 2; o.pblock = 1; o.raw = 2; o.specials = 0; o.depth = 3; o.nodes = 18;
    o.ws = true; o.strips = s.draw(4) != 0; o.literal_braces = s.draw(2); o.missing = 5; o.pnames = {"p1"};
    TCase t; gen_case(s, o, s.draw(4) == 0 ? F_IGNSTD : 0, t);
    // the same template without the whitespace rules, to tell whether any of them did something
    Out want = compare(c, t);
    c.nontrivial = want.ok && want.out.size() > 2 && t.r.tmpl.find_first_of(" \n\t\r") != std::string::npos && (t.r.tmpl.find("~}}") != std::string::npos || t.r.tmpl.find('\n') != std::string::npos);
}
static Reg r({"C05", "templates dense in whitespace, newlines, ~, standalone tags, comments, raw blocks and escaped mustaches; compared with the reference interpreter; non-trivial: text rendered from a template with newlines or ~", run, 120000, 1200000});
