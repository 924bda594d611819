#include "gen.h"
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 5; o.must = 14; o.triple = 6; o.amp = 5; o.w_if = 1; o.w_unless = 1; o.w_each = 2; o.w_with = 1; o.section = 2; o.inv = 1; o.comment = 0; o.partial = 2; o.pblock = 1; o.specials = 75; o.depth = 3; o.nodes = 14;
    o.safe = true; o.lambdas = true; o.hcall = 5; o.hblock = 3; o.helpers = {"id", "safe", "cat", "arr", "blk", "on", "dump"}; o.pnames = {"p1"};
    TCase t; gen_case(s, o, s.draw(4) == 0 ? F_NOESC : 0, t);
    Out want = compare(c, t);
    c.nontrivial = want.ok && want.out.find_first_of("&<>\"'`") != std::string::npos;
}
static Reg r({"C06", "templates printing values full of special characters through every kind of tag, safe strings, arrays, helpers, partials and captured blocks, with and without no-escape; compared with the reference interpreter; non-trivial: special characters or entities in the output", run, 100000, 1200000});
