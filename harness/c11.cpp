#include "gen.h"
#include "faketime.h"
// machines with different flags sharing a cache, and what they render without it
static void run(Src &s, Case &c) {
    int kind = s.draw(3); static const char *KN[] = {"simple", "lmdb", "mmap"};
    g_now = 1700000000;
    Ctx ctx; Err err; handlebars_cache *cache = nullptr;
    std::string path = g_tmpdir + "/c11-" + std::to_string(getpid());
    if (kind == 1) { unlink(path.c_str()); unlink((path + "-lock").c_str()); }
    static const size_t SL[] = {509, 1, 3, 64}; size_t slots = SL[s.draw(4)], seg = 4096 * (s.draw(3) ? 60 : 2 + (slots * 8 + 4095) / 4096 + s.draw(8));
    auto open = [&] { if (!guard(ctx, err, [&] { cache = kind == 0 ? handlebars_cache_simple_ctor(ctx) : kind == 1 ? handlebars_cache_lmdb_ctor(ctx, path.c_str()) : handlebars_cache_mmap_ctor(ctx, seg, slots); })) c.fail("opening the cache: " + err.str()); };
    open();
    struct Closer { handlebars_cache *&c; std::string p; int k; ~Closer() { if (c) handlebars_cache_dtor(c); if (k == 1) { unlink(p.c_str()); unlink((p + "-lock").c_str()); } } } closer{cache, path, kind};
    std::string desc = std::string("cache: ") + KN[kind] + (kind == 2 ? " slots " + std::to_string(slots) + " segment " + std::to_string(seg) : "");
    auto limits = [&](bool say) { static double a; static size_t n, z; if (say) { a = s.draw(3) ? -1 : s.range(0, 20); n = kind == 0 && s.draw(2) ? s.range(1, 3) : 0; z = kind == 0 && s.draw(4) == 0 ? s.range(1, 4000) : 0; }
        cache->max_age = a; cache->max_entries = n; cache->max_size = z; return " max_age " + fmt_double(a) + " max_entries " + std::to_string(n) + " max_size " + std::to_string(z); };
    desc += limits(true) + "\n";
    int nu = s.range(1, 3); std::vector<std::unique_ptr<TCase>> u; std::vector<Out> want;
    for (int i = 0; i < nu; i++) {
        u.emplace_back(new TCase); TCase &t = *u.back();
        if (i && s.draw(2)) {           // the same templates under other flags
            TCase &p = *u[i - 1]; t.in = p.in; t.body = p.body; t.data = p.data; t.r = p.r;
            static const unsigned long FL[] = {0, F_NOESC, F_STRICT, F_PREVIND, F_EXPLICIT, F_IGNSTD, F_ASSUME, F_COMPAT, F_COMPAT | F_MSL, F_COMPAT | F_NOESC};
            t.r.flags = FL[s.draw(10)]; t.in.flags = t.r.flags;
        } else {
            GenOpt o; o.text = 7; o.must = 7; o.w_each = 4; o.w_with = 2; o.section = 4; o.partial = 9; o.pblock = 3; o.pbref = 1; o.hcall = 1; o.hblock = 1; o.depth = 3; o.nodes = 9; o.ws = s.draw(2); o.missing_partial = s.draw(3) ? 0 : 12; o.helpers = {"dump", "blk", "thr"}; if (s.draw(4)) o.helpers.pop_back();
            o.pnames = {"p1", "p2", "d/p3"};
            static const unsigned long FL[] = {0, F_COMPAT | F_MSL, F_COMPAT, F_NOESC, F_STRICT, F_EXPLICIT};
            unsigned long fl = FL[s.weighted({8, 4, 2, 1, 1, 1})];
            if (fl & F_MSL) { static const char *L[] = {"<{{name}}>%s", "%s%s", "{{> p1}}", "{{#obj}}{{a}}%s{{/obj}}", "|a&b|", "{{=<% %>=}}<% name %>%s"}; o.extra = {{"lam", vlam(3, vstr(L[s.draw(6)]))}}; o.lambdas = false; o.section = 8; }
            gen_case(s, o, fl, t);
            if (fl & F_MSL && s.draw(2)) { t.r.tmpl += "{{#lam}}x{{name}}{{/lam}}{{lam}}"; if (s.draw(3) == 0) t.r.tmpl += "{{=| |=}}|#lam|y|name||/lam|"; }
            if (s.chance(1, 12)) t.r.partials[s.draw(3)].second += s.draw(2) ? "{{" : "{{/x}}";
        }
        if (!(t.r.flags & F_MSL)) { Out w = t.in.run(t.body, t.data); if (w.err.num == -100) c.discard(w.err.msg); }
        // partials of one text under several names, and partials differing in one character
        if (s.chance(1, 5)) t.r.partials[1].second = t.r.partials[0].second;
        else if (s.chance(1, 6)) t.r.partials[1].second = t.r.partials[0].second + " ";
        desc += "unit " + std::to_string(i) + "\n " + describe(t) + "\n";
        if (c.verbose) fprintf(stderr, "%s", desc.c_str());
        want.push_back(render(t.r));
    }
    c.desc = desc;
    // two contexts, each with a machine per unit
    int steps = s.range(3, 10); int ren = 0; size_t hits = 0, misses = 0; bool other_flags = false; unsigned long lastfl = ~0ul;
    struct M { HC *ctx; handlebars_vm *vm; handlebars_module *m; }; std::map<int, M> ms; Ctx second;
    for (int k = 0; k < steps; k++) {
        int op = s.weighted({12, 2, 2, 1, 1, 1, 1});
        switch (op) {
        case 0: {
            int i = s.draw(nu), w = s.draw(2), keep = s.draw(2); TCase &t = *u[i];
            c.desc += " step " + std::to_string(k) + ": unit " + std::to_string(i) + (w ? " in the second context\n" : "\n");
            HC *x = w ? second.c : ctx.c; Out got;
            std::string st; M *m = nullptr; M tmp;
            if (keep && ms.count(i * 2 + w)) m = &ms[i * 2 + w];
            else { tmp.ctx = x; Err e; tmp.m = compile(x, t.r.tmpl, t.r.flags, nullptr, e, st); if (!tmp.m) { got.err = e; got.stage = st; m = nullptr; } else { tmp.vm = handlebars_vm_ctor(x); setup_vm(x, tmp.vm, t.r); handlebars_vm_set_cache(tmp.vm, cache); if (keep) { ms[i * 2 + w] = tmp; m = &ms[i * 2 + w]; } else m = &tmp; } }
            // errors inside the cache belong to the context the cache was made with, so the machines of the other one only read a good cache
            if (m) { HVal d; { std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; to_hbs(x, t.data, d, &sh); } got = exec_module(x, m->vm, m->m, d); }
            if (m == &tmp) handlebars_vm_dtor(tmp.vm);
            ren++; if (lastfl != ~0ul && lastfl != t.r.flags) other_flags = true; lastfl = t.r.flags;
            if (!got.same(want[i])) c.eq("step " + std::to_string(k) + ", unit " + std::to_string(i) + " with the cache", got.str(), want[i].str());
            break;
        }
        case 1: { int a = s.range(1, 30); g_now += a; c.desc += " step " + std::to_string(k) + ": " + std::to_string(a) + " s later\n"; break; }
        case 2: c.desc += " step " + std::to_string(k) + ": garbage collection\n"; if (!guard(ctx, err, [&] { handlebars_cache_gc(cache); })) c.fail("garbage collection failed: " + err.str()); break;
        case 3: c.desc += " step " + std::to_string(k) + ": reset\n"; if (!guard(ctx, err, [&] { handlebars_cache_reset(cache); })) c.fail("reset failed: " + err.str()); break;
        case 4: c.desc += " step " + std::to_string(k) + ": limits" + limits(true) + "\n"; break;
        case 5: break;
        default: if (kind == 1) { c.desc += " step " + std::to_string(k) + ": reopen\n"; for (auto &e : ms) handlebars_vm_dtor(e.second.vm); ms.clear(); handlebars_cache_dtor(cache); cache = nullptr; open(); limits(false); }
        }
        if (cache) { struct handlebars_cache_stat st = handlebars_cache_stat(cache); if (st.hits > hits) hits = st.hits; if (st.misses > misses) misses = st.misses; }
    }
    for (auto &e : ms) handlebars_vm_dtor(e.second.vm);
    c.label(KN[kind]); if (hits) c.label("hits"); if (other_flags) c.label("machines with different flags");
    c.nontrivial = ren >= 2 && hits;
}
static Reg r({"C11", "one to three template sets with partials, also the same set under other flags, rendered repeatedly by machines of two contexts sharing one of the three caches, with clock advances, limits, collections, resets and reopenings in between; every outcome compared with a render without a cache; non-trivial: at least two renders and a cache hit", run, 20000, 400000});
