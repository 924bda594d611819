#include "gen.h"
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 5; o.must = 8; o.w_if = 1; o.w_unless = 1; o.w_each = 2; o.w_with = 1; o.section = 2; o.inv = 1; o.comment = 0; o.hcall = 9; o.hblock = 7; o.raw = 1; o.specials = 6; o.depth = 3; o.nodes = 12; o.lambdas = true; o.safe = s.draw(2);
    o.helpers = {"dump", "id", "blk"};
    static const std::vector<std::string> more = {"safe", "nul", "on", "blkp", "rep", "arr", "cat", "thr"};
    for (auto &m : more) if (s.draw(2)) o.helpers.push_back(m);
    TCase t; gen_case(s, o, s.draw(8) == 0 ? F_KNOWN : 0, t);
    Out want = compare(c, t);
    c.label(want.ok ? "renders" : "reports an error");
    c.nontrivial = t.in.calls.size() >= 2;
    c.label("calls", t.in.calls.size());
}
static Reg r({"C07", "templates calling registered helpers that show their arguments, hash, name, scope and programs, as values, blocks, sub-expressions and raw blocks; outputs and the sequence of helper calls compared with the reference interpreter; non-trivial: at least two helper calls", run, 80000, 1200000});
