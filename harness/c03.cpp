#include "gen.h"
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 6; o.must = 10; o.w_if = 5; o.w_unless = 3; o.w_each = 6; o.w_with = 4; o.section = 5; o.inv = 3; o.comment = 0; o.lookup = 1;
    o.lambdas = s.draw(2); o.specials = 3; o.depth = 4; o.nodes = 18; o.missing = 15;
    if (s.draw(2)) o.dvars = {"dv", "dobj"};
    if (s.draw(3) == 0) { o.strips = true; o.ws = true; }
    o.odd_names = s.draw(4) == 0 ? 4 : 0; o.long_list = 12; o.tower = 10; TCase t; gen_case(s, o, 0, t);
    Out want = compare(c, t);
    int blocks = 0; for (auto &f : t.in.feat) if (f.first.find(':') != std::string::npos) blocks++;
    c.nontrivial = want.ok && blocks >= 2 && want.out.size() > 2;
}
static Reg r({"C03", "nested block constructs of every kind with branches, chains, block parameters and callables over generated data; compared with the reference interpreter; non-trivial: at least two different branches or kinds of block executed and text rendered", run, 100000, 1200000});
