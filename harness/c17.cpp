#include "gen.h"
// several modules, machines and data in one context, rendered in a random order
struct Unit { TCase t; handlebars_module *m = nullptr; HVal d, p, dv; std::string fresh, dsnap, psnap, dvsnap, msnap; Out want; };
static std::string bytes(const void *p, size_t n) { return std::string((const char *)p, n); }
static void run(Src &s, Case &c) {
    Ctx ctx; std::vector<std::unique_ptr<Unit>> u;
    int n = s.range(1, 3);
    std::vector<std::string> helpers = {"dump", "id", "blk", "on", "blkp", "thr"};
    HVal hv; make_helpers(ctx, helpers, hv);
    std::string desc; const void *hmap = handlebars_value_get_map(hv);
    for (int i = 0; i < n; i++) {
        u.emplace_back(new Unit); Unit &x = *u.back();
        GenOpt o; o.text = 6; o.must = 9; o.w_each = 3; o.w_with = 2; o.section = 3; o.partial = 4; o.pblock = 2; o.pbref = 1; o.hcall = 2; o.hblock = 2; o.lambdas = s.draw(2); o.safe = s.draw(2); o.depth = 3; o.nodes = 9; o.missing_partial = s.draw(2) ? 15 : 0; o.specials = 5;
        o.helpers = helpers; if (!s.chance(1, 3)) o.helpers.pop_back();
        o.pnames = {"p1", "p2"}; if (s.draw(3)) o.dvars = {"dv", "dobj"};
        static const std::vector<unsigned long> FL = {0, F_STRICT, F_ASSUME, F_COMPAT, F_NOESC, F_EXPLICIT, F_PREVIND, F_COMPAT | F_MSL};
        gen_case(s, o, s.draw(3) ? 0 : s.pick(FL), x.t);
        x.t.r.helpers = x.t.in.helpers = helpers;
        { Out w = x.t.in.run(x.t.body, x.t.data); if (c.verbose) fprintf(stderr, "model: %s\n", w.str().c_str()); if (w.err.num == -100) c.discard(w.err.msg); }
        if (s.chance(1, 12)) x.t.r.partials[0].second = s.draw(2) ? "x{{> p1}}" : "{{#if this}}{{> p1 z=1}}{{/if}}";      // runs away
        else if (s.chance(1, 10)) x.t.r.partials[0].second = "{{#if";
        desc += "unit " + std::to_string(i) + "\n " + describe(x.t) + "\n";
        if (c.verbose) fprintf(stderr, "%s", desc.c_str());
        x.want = render(x.t.r);
        { std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; to_hbs(ctx, x.t.data, x.d, &sh); }
        if (x.t.r.vmdata) to_hbs(ctx, x.t.r.vmdata, x.dv);
        handlebars_map *m = handlebars_map_ctor(ctx, 4);
        for (auto &p : x.t.r.partials) { HVal t; handlebars_value_str(t, mks(ctx, p.second)); m = handlebars_map_update(m, mks(ctx, p.first), t); }
        handlebars_value_map(x.p, m);
        x.dsnap = typed(ctx, x.d); x.psnap = typed(ctx, x.p); x.dvsnap = typed(ctx, x.dv);
        Err err; std::string st; x.m = compile(ctx, x.t.r.tmpl, x.t.r.flags, nullptr, err, st);
        if (x.m) x.msnap = bytes(x.m, handlebars_module_get_size(x.m));
    }
    handlebars_vm *vm[2]; for (auto &v : vm) { v = handlebars_vm_ctor(ctx); handlebars_vm_set_helpers(v, hv); }
    c.desc = desc;
    int steps = s.range(2, 7), good = 0, bad = 0; int last[2] = {-1, -1};
    bool after_error = false, touched[2] = {false, false}; int setf = s.draw(3); // options on the machine: before every render, never, or now and then
    auto exec = [&](Unit &x, int v) {
        // the module carries its options: setting them on the machine too is allowed and changes nothing
        if (setf == 0 || (setf == 2 && s.draw(2))) handlebars_vm_set_flags(vm[v], x.t.r.flags); else if (setf == 2 || !touched[v]) handlebars_vm_set_flags(vm[v], 0); touched[v] = true;
        handlebars_vm_set_partials(vm[v], x.p); handlebars_vm_set_data(vm[v], x.dv);
        Out o; HS *volatile r = nullptr; o.stage = "render";
        o.ok = guard(ctx, o.err, [&] { r = handlebars_vm_execute(vm[v], x.m, x.d); });
        if (o.ok) { o.out = sv(r); if (hbs_str_val(r)[o.out.size()]) c.fail("result not terminated"); handlebars_string_delref(r); }
        return o;
    };
    for (int k = 0; k < steps; k++) {
        int i = s.draw(n), v = s.weighted({4, 1}); Unit &x = *u[i];
        if (!x.m) continue;
        c.desc += " step " + std::to_string(k) + ": unit " + std::to_string(i) + " machine " + std::to_string(v) + "\n";
        Out got = exec(x, v);
        if (last[v] >= 0 && !u[last[v]]->want.ok && last[v] != i) after_error = true;
        last[v] = i; (got.ok ? good : bad)++;
        if (!got.same(x.want)) c.eq("step " + std::to_string(k) + " (compared with a fresh machine in a fresh context)", got.str(), x.want.str());
        for (int j = 0; j < n; j++) {
            Unit &y = *u[j]; std::string w = " of unit " + std::to_string(j) + " after step " + std::to_string(k);
            c.eq("data" + w, typed(ctx, y.d), y.dsnap); c.eq("partials" + w, typed(ctx, y.p), y.psnap); c.eq("data variables" + w, typed(ctx, y.dv), y.dvsnap);
            if (y.m && bytes(y.m, handlebars_module_get_size(y.m)) != y.msnap) c.fail("the module" + w + " was altered");
        }
        if (handlebars_value_get_map(hv) != hmap || handlebars_value_count(hv) != (long)helpers.size()) c.fail("the helpers were altered");
    }
    for (auto &v : vm) handlebars_vm_dtor(v);
    c.label(good ? "renders" : "no render"); if (bad) c.label("errors"); if (after_error) c.label("another module rendered after an error on the same machine");
    c.nontrivial = good + bad >= 3 && good;
}
static Reg r({"C17", "one to three modules with their own data, partials, flags and data variables in one context, rendered in random order on two machines, among them renders that end in an error; every outcome compared with a fresh machine in a fresh context, and all inputs and module bytes compared with their snapshots; non-trivial: at least three renders, one successful", run, 16000, 250000});
