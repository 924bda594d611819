#include "gen.h"
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 8; o.must = 8; o.w_if = 1; o.w_unless = 0; o.w_each = 2; o.w_with = 2; o.section = 2; o.inv = 1; o.comment = 1; o.partial = 9; o.pblock = 6; o.pbref = 1; o.specials = 2; o.depth = 3; o.nodes = 14;
    static const std::vector<std::string> P = {"p1", "part two", "dir/p3", "12", "q-4", "3000000000", "-7", "0", "4294967297", "1.5"};
    int n = s.range(1, 4); int at = s.draw(10);
    for (int i = 0; i < n; i++) o.pnames.push_back(P[(at + i * (at % 2 ? 1 : 3)) % 10]);
    o.ws = s.draw(3) != 0; o.strips = s.draw(4) == 0;
    if (s.draw(4) == 0) o.helpers = {"blk", "thr", "on"};
    static const unsigned long FL[] = {0, F_PREVIND, F_EXPLICIT, F_COMPAT, F_IGNSTD, F_COMPAT | F_PREVIND};
    unsigned long fl = FL[s.weighted({10, 2, 2, 4, 1, 1})];
    if (o.helpers.size()) { o.hblock = 1; o.hcall = 1; }
    TCase t; gen_case(s, o, fl, t);
    Out want = compare(c, t);
    c.label(want.ok ? "renders" : "reports an error");
    c.nontrivial = t.in.feat["partial rendered"] + t.in.feat["partial block fallback"] + t.in.feat["@partial-block"] >= 2 && (want.ok ? want.out.size() > 2 : true);
}
static Reg r({"C04", "templates calling up to four generated partials by static, numeric, quoted and computed names, with contexts, hashes, blocks and indentation, under 0 or more of prevent-indent, explicit-partial-context, compat and ignore-standalone; compared with the reference interpreter; non-trivial: at least two partials, fallbacks or @partial-blocks rendered", run, 70000, 1200000});
