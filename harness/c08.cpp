#include "gen.h"
// every combination of the flags against the reference; each flag must only matter by what it names
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 8; o.must = 14; o.w_if = 2; o.w_unless = 1; o.w_each = 3; o.w_with = 3; o.section = 3; o.inv = 1; o.partial = 2; o.pblock = 1; o.hcall = 2; o.hblock = 1; o.specials = 15; o.depth = 3; o.nodes = 10;
    o.missing = 4 + 8 * s.draw(3); o.lambdas = s.draw(3) == 0; o.ws = s.draw(3) == 0; o.strips = o.ws && s.draw(2);
    o.helpers = {"dump", "id", "blk"}; o.pnames = {"p1"}; o.missing_partial = s.draw(4) == 0 ? 20 : 0;
    if (s.draw(2)) o.dvars = {"dv", "dobj"};
    static const unsigned long F[] = {F_STRICT, F_ASSUME, F_KNOWN, F_COMPAT, F_NOESC, F_IGNSTD, F_PREVIND, F_EXPLICIT};
    o.odd_names = s.draw(4) == 0 ? 5 : 0;
    unsigned long fl = F[s.draw(8)];
    for (unsigned long f : F) if (s.chance(1, 7)) fl |= f;
    TCase t;
    static const std::vector<std::string> KN = {"dump", "id", "blk", "cat"};
    for (auto &k : KN) if (s.chance(1, 3)) t.in.known.push_back(k);
    // a name in the data that a helper or a known helper has too
    gen_case(s, o, fl, t);
    if (s.chance(1, 6)) t.data->m.push_back({"dump", vstr("field")});
    if (s.chance(1, 10)) t.in.helpers = t.r.helpers = {"dump"};
    // options given to the compiler stay with the module; those that matter only while rendering may be given to the machine alone
    static const unsigned long RT[] = {F_STRICT, F_ASSUME, F_COMPAT};
    switch (s.weighted({3, 1, 1})) { case 1: t.r.modonly = true; c.label("options in the module only"); break; case 2: for (unsigned long f : RT) if (s.draw(2)) t.r.vmonly |= fl & f; if (t.r.vmonly) c.label("options on the machine only"); }
    Out want = compare(c, t);
    for (int i = 0; i < 13; i++) if (fl >> i & 1) c.label(std::string("flag ") + FLAG_NAMES[i]);
    c.label(want.ok ? "renders" : want.err.num == HANDLEBARS_UNKNOWN_HELPER ? "rejected at compile time" : "reports an error");
    // without the flags: what the library does with them must be what the reference says they change
    Interp off = t.in; off.flags = 0; Out w0 = off.run(t.body, t.data);
    if (w0.err.num == -100) c.discard(w0.err.msg);
    bool matters = w0.ok != want.ok || (want.ok && want.out != w0.out) || (!want.ok && want.err.msg != w0.err.msg);
    c.nontrivial = matters || (want.ok && want.out.size() > 6);
    if (matters) {
        c.label("outcome depends on the flags");
        for (unsigned long f : F) if (fl & f) { Interp one = t.in; one.flags = fl & ~f; Out w1 = one.run(t.body, t.data); if (w1.err.num != -100 && (w1.ok != want.ok || (want.ok ? w1.out != want.out : w1.err.msg != want.err.msg))) for (int i = 0; i < 13; i++) if (f == (1ul << i)) c.label(std::string("decided by ") + FLAG_NAMES[i]); }
    }
}
static Reg r({"C08", "templates under one to eight compile flags and lists of known helpers; outputs, errors and helper calls compared with the reference interpreter, which is also run with each flag off to see which flags decide; non-trivial: the outcome differs from that without flags, or more than six bytes are rendered", run, 90000, 1200000});
