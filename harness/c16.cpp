// C16: memory running out while a template goes through the pipeline
#include "alloc.h"
#include "gen.h"
namespace {
enum Stage { PARSE, COMPILE, SERIALIZE, RENDER, DONE };
const char *const SN[] = {"parse", "compile", "serialize", "render", "done"};
struct Plan { long at = -1; bool all = false; bool dtor = false, again = false; int fill = -1; };
struct Res { bool ok = false; std::string out; Err err; int stage = 0; long n[5] = {0, 0, 0, 0, 0}; long failed = 0; std::string trouble; };
struct Setup { const Render *r; const char **known; bool json; bool cache; };
Res pipeline(const Setup &su, const Plan &pl) {
    Res o; const Render &r = *su.r; long live = g_live;
    g_allocs = 0; g_failed = 0; g_fail_at = pl.at; g_fail_all = pl.all;
    {
        Ctx c;
        handlebars_parser *volatile p = nullptr; handlebars_compiler *volatile co = nullptr; handlebars_module *volatile m = nullptr; HS *volatile res = nullptr; volatile int st = PARSE; volatile long n1 = 0, n2 = 0, n3 = 0;
        HS *t0 = mks(c, r.tmpl);
        auto front = [&] {
            st = PARSE;
            p = handlebars_parser_ctor(c);
            HS *t = t0;
            if (r.flags & F_COMPAT) t = handlebars_preprocess_delimiters(c, t, nullptr, nullptr);
            handlebars_ast_node *ast = handlebars_parse_ex(p, t, r.flags);
            n1 = g_allocs; st = COMPILE;
            co = handlebars_compiler_ctor(c);
            handlebars_compiler_set_flags(co, r.flags);
            if (su.known) handlebars_compiler_set_known_helpers(co, su.known);
            handlebars_program *pr = handlebars_compiler_compile_ex(co, ast);
            n2 = g_allocs; st = SERIALIZE;
            m = handlebars_program_serialize(c, pr);
            n3 = g_allocs; st = RENDER;
        };
        handlebars_cache *cache = su.cache ? handlebars_cache_simple_ctor(c) : nullptr;
        g_fill = pl.fill;
        g_count = true; bool ok = guard(c, o.err, front); g_count = false;
        o.n[PARSE] = n1; o.n[COMPILE] = n2; o.n[SERIALIZE] = n3; o.stage = st;
        if (!ok) { g_fail_at = -1;
            if (pl.dtor) { if (co) handlebars_compiler_dtor(co); if (p) handlebars_parser_dtor(p); p = nullptr; co = nullptr; }
            if (pl.again) { Err e2; p = nullptr; co = nullptr; t0 = mks(c, r.tmpl); if (guard(c, e2, front)) { if (!m) o.trouble = "no module the second time"; } else if (pl.at >= 0 && o.err.num == HANDLEBARS_NOMEM) { o.trouble = "the second attempt, with memory: " + e2.str(); o.n[DONE] = e2.num; } }
        }
        if (m && !(ok && !pl.again && pl.at < n3 && pl.at >= 0 && false)) {
            if (pl.dtor && co) { handlebars_compiler_dtor(co); handlebars_parser_dtor(p); }
            handlebars_vm *vm = handlebars_vm_ctor(c); { Render r2 = r; r2.cache = cache; setup_vm(c, vm, r2); }
            {
                HVal d; std::unordered_map<const Val *, std::unique_ptr<HVal>> sh;
                if (su.json) handlebars_value_init_json_string(c, d, vjson(r.data).c_str()); else to_hbs(c, r.data, d, &sh);
                Err e; g_count = true; bool rok = guard(c, e, [&] { res = handlebars_vm_execute(vm, m, d); }); g_count = false;
                if (ok) { o.n[RENDER] = g_allocs; o.stage = rok ? DONE : RENDER; o.ok = rok && res; o.err = e; if (rok && !res) { o.err.num = -2; o.err.msg = "null result"; } if (o.ok) { o.out = sv(res); if (hbs_str_val(res)[hbs_str_len(res)]) o.trouble = "not terminated"; } }
                else { o.trouble = rok ? "out " + sv(res) : "err " + e.str(); }
                if (ok && !rok && pl.again && e.num == HANDLEBARS_NOMEM) { g_fail_at = -1; Err e2; bool b = guard(c, e2, [&] { res = handlebars_vm_execute(vm, m, d); }); o.trouble = b ? "out " + sv(res) : "err " + e2.str(); }
                if (res && pl.dtor) handlebars_string_delref(res);
            }
            handlebars_vm_dtor(vm);
        }
        if (cache && pl.dtor) handlebars_cache_dtor(cache);
        o.failed = g_failed; g_fill = -1; g_fail_at = -1;
    }
    if (g_live != live) o.trouble = "LIVE " + std::to_string(g_live - live);
    return o;
}
void run(Src &s, Case &c) {
    g_calls.clear();   // its registration allocates
    GenOpt o; o.nodes = s.range(3, 12); o.partial = 4; o.pblock = 2; o.raw = 1; o.hcall = 3; o.hblock = 2; o.comment = 1; o.bparams = true; o.depth = 3; o.strips = s.draw(2); o.ws = s.draw(3) == 2; o.lambdas = s.draw(3) == 2; o.pnames = {"p1", "p2"};
    for (auto *h : {"dump", "id", "blk", "blkp", "arr", "cat", "rep", "thr", "safe"}) if (s.draw(2)) o.helpers.push_back(h);
    unsigned long fl = 0; if (s.draw(3) == 2) { static const unsigned long F[] = {F_COMPAT, F_NOESC, F_PREVIND, F_IGNSTD, F_ASSUME, F_STRICT, F_EXPLICIT, F_SPARAMS, F_IDS}; int n = s.range(1, 3); while (n--) fl |= F[s.draw(9)]; }
    TCase t; gen_case(s, o, fl, t); t.r.flags = fl;
    if (s.draw(4) == 3) { // something wrong in the template
        static const std::vector<std::string> W = {"{{#a}}", "{{/a}}", "{{", "{{a/../b}}", "{{!--", "{{#a}}{{/b}}", "{{{{r}}}} {{{{/q}}}}", "{{> none}}", "{{x \"unclosed}}"};
        t.r.tmpl += s.pick(W);
    }
    if (fl & F_COMPAT && s.draw(3)) t.r.tmpl = "{{=<% %>=}}<%! c %>" + std::string("<%={{ }}=%>") + t.r.tmpl;
    bool lam = false; { std::function<void(const V &)> f = [&](const V &v) { if (!v) return; if (v->t == V_LAM || v->t == V_FLT) lam = true; for (auto &e : v->a) f(e); for (auto &e : v->m) f(e.second); }; f(t.r.data); }
    static const char *KNOWN[] = {"dump", "blk", "cat", nullptr};
    Setup su{&t.r, s.draw(3) == 2 ? KNOWN : nullptr, !lam && s.draw(4) == 3, s.draw(3) == 2};
    c.desc = describe(t) + "\n template given: " + quote(t.r.tmpl) + (su.json ? "\n data as JSON" : "") + (su.cache ? "\n with a cache" : "");
    Plan base; Res b = pipeline(su, base);
    if (b.trouble.size()) c.fail("without any failure: " + b.trouble);
    long total = g_allocs; (void)total;
    long bound[5] = {0, b.n[PARSE], b.n[COMPILE], b.n[SERIALIZE], b.n[RENDER]}; for (int i = 1; i < 5; i++) bound[i] = std::max(bound[i], bound[i - 1]); long all = std::max(bound[4], g_allocs);
    if (!b.ok && b.stage < RENDER) { for (int i = b.stage + 1; i < 5; i++) bound[i] = all; }
    if (all == 0) c.discard("no allocation");
    int tries = s.range(10, 60); int reported = 0, survived = 0; std::set<long> seen;
    for (int k = 0; k < tries; k++) {
        Plan pl; pl.all = s.draw(3) == 2; pl.dtor = s.draw(2); pl.again = s.draw(3) == 2; if (s.draw(4) == 3) pl.fill = s.draw(256);
        int stage = s.draw(4); if (bound[stage + 1] <= bound[stage]) stage = RENDER; long lo = bound[stage], hi = bound[stage + 1]; if (hi <= lo) { lo = 0; hi = all; }
        pl.at = lo + s.draw(hi - lo);
        if (c.verbose) fprintf(stderr, "point %ld of %ld (%s)%s%s%s\n", pl.at, all, SN[stage], pl.all ? " and all after" : "", pl.dtor ? " destroying parts" : "", pl.again ? " trying again" : "");
        Res r = pipeline(su, pl);
        std::string at = "allocation " + std::to_string(pl.at) + " of " + std::to_string(all) + " (" + SN[stage] + ")" + (pl.all ? " and all after it" : "") + " fails" + (pl.dtor ? ", parts destroyed one by one" : "") + (pl.again ? ", tried again" : "") + ": ";
        if (r.trouble.compare(0, 5, "LIVE ") == 0) c.fail(at + r.trouble.substr(5) + " blocks remain after everything is destroyed");
        bool nomem = !r.ok && r.err.num == HANDLEBARS_NOMEM;
        bool same = r.ok == b.ok && (b.ok ? r.out == b.out : r.err.num == b.err.num && r.err.msg == b.err.msg);
        if (!nomem && !same) c.fail(at + (r.ok ? "ok " + quote(r.out) : "error " + r.err.str() + " while to " + SN[r.stage]) + "\n expected an out of memory error or " + (b.ok ? "ok " + quote(b.out) : b.err.str()));
        if (nomem && !r.failed) c.fail(at + "reported, but none failed");
        if (nomem && pl.again) {
            std::string want = b.ok ? "out " + b.out : "err " + b.err.str();
            if (b.stage < RENDER) { if (r.n[DONE] != b.err.num) c.fail(at + "a second attempt with memory: " + quote(r.trouble) + "\n expected " + b.err.str()); }
            else if (r.trouble != want) c.fail(at + "a second attempt with memory: " + quote(r.trouble) + "\n expected " + quote(want));
        } else if (r.trouble.size()) c.fail(at + r.trouble);
        if (r.failed) (nomem ? reported : survived)++;
        seen.insert(pl.at);
        c.label(std::string("failed to ") + SN[stage]);
    }
    if (b.ok) c.label("renders"); else c.label("ends in an error");
    c.label("reported", reported); c.label("no effect", survived); c.label("points", (long)seen.size());
    c.nontrivial = reported >= 5;
}
Reg r({"C16", "templates with partials, helpers, blocks and flags, some malformed, through parsing, compiling, serialization and rendering, with and without a cache, on native and JSON data; the same again ten to sixty times with one allocation, or all from one on, failing at a random point of a random stage: an out of memory error or the result of the undisturbed run, no block remaining after destruction, and the result of the undisturbed run when tried again with memory; non-trivial: five failures reported", run, 10000, 170000});
}
