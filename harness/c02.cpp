#include "gen.h"
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 6; o.must = 24; o.lookup = 2; o.lambdas = true; o.safe = true; o.specials = 8; o.missing = 18;
    o.dvars = {"dv", "dobj"};
    o.odd_names = s.draw(4) == 0 ? 4 : 0; o.tower = 25; TCase t; gen_case(s, o, 0, t);
    Out want = compare(c, t);
    c.nontrivial = want.ok && t.in.feat.size() >= 2 && want.out.size() > 2;
}
static Reg r({"C02", "templates of nested value expressions over generated data, guided so that most paths exist; compared with the reference interpreter; non-trivial: renders some text and exercises at least two kinds of path", run, 150000, 1200000});
