// C10: serialized modules: copies, relocation, equal bytes, verification
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
#define HANDLEBARS_OPCODES_PRIVATE
#define HANDLEBARS_COMPILER_PRIVATE
#include "gen.h"
#include "faketime.h"
#include "alloc.h"
extern "C" {
#include "handlebars_opcodes.h"
#include "handlebars_opcode_serializer.h"
}
typedef handlebars_module Mod;
__attribute__((noinline)) static void dirty_stack(int fill) { char b[20000]; memset(b, fill, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
static std::string bytes(Mod *m) { return std::string((char *)m, m->size); }
static std::string where(const std::string &a, const std::string &b) {
    if (a.size() != b.size()) return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) { size_t f = ((Mod *)a.data())->opcode_count * sizeof(handlebars_opcode), p = ((Mod *)a.data())->program_count * sizeof(handlebars_module_table_entry), h = sizeof(Mod);
        return "byte " + std::to_string(i) + " of " + std::to_string(a.size()) + (i < h ? " (header)" : i < h + p ? " (programs)" : i < h + p + f ? " (opcode " + std::to_string((i - h - p) / sizeof(handlebars_opcode)) + " byte " + std::to_string((i - h - p) % sizeof(handlebars_opcode)) + ")" : " (data)"); }
    return "";
}
// memory a module is moved to: exact, so that reading past it is seen
struct Home { char *raw = nullptr; Mod *m = nullptr; void put(const std::string &b, int off) { drop(); raw = (char *)malloc(b.size() + off); m = (Mod *)(raw + off); memcpy((void *)m, b.data(), b.size()); } void drop() { if (raw) { memset(raw, 0xdb, (char *)m - raw + 8); free(raw); } raw = nullptr; m = nullptr; } ~Home() { drop(); } };
static void run(Src &s, Case &c) {
    g_now = 1700000000 + s.draw(100000); g_fill = -1;
    GenOpt o; o.text = 7; o.must = 8; o.w_each = 3; o.w_with = 3; o.section = 3; o.inv = 2; o.partial = 3; o.pblock = 2; o.pbref = 1; o.hcall = 5; o.hblock = 3; o.raw = 1; o.depth = 4; o.nodes = s.draw(3) ? 10 : 30; o.helpers = {"dump", "blk", "rep", "cat", "arr"}; o.pnames = {"p1", "p2"};
    static const unsigned long FL[] = {0, F_COMPAT, F_NOESC, F_STRICT, F_IDS, F_SPARAMS, F_IDS | F_SPARAMS, F_EXPLICIT, F_COMPAT | F_MSL, F_KNOWN, F_ASSUME, F_PREVIND};
    TCase t; gen_case(s, o, FL[s.weighted({8, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1})], t); c.desc = describe(t) + "\n";
    if (!(t.r.flags & (F_MSL | F_IDS | F_SPARAMS | F_KNOWN))) { Out w = t.in.run(t.body, t.data); if (w.err.num == -100) c.discard(w.err.msg); }
    if (c.verbose) fprintf(stderr, "%s", c.desc.c_str());
    // the program, serialized several times
    Err err; Mod *m1 = nullptr, *m2 = nullptr; Out want; std::string norm; Home home;
    int fill1 = s.draw(256), fill2 = fill1 ^ (1 + s.draw(255));
    auto norm_of = [&](Mod *m) { std::string b = bytes(m); std::string copy; Mod *k = (Mod *)malloc(b.size()); memcpy((void *)k, b.data(), b.size()); handlebars_module_patch_pointers(k); handlebars_module_normalize_pointers(k, nullptr); copy = bytes(k); free(k); return copy; };
    auto build = [&](HC *x, int fill, handlebars_program *&pr) -> Mod * {
        Mod *volatile r = nullptr; g_fill = fill; dirty_stack(fill);
        bool ok = guard(x, err, [&] {
            handlebars_parser *p = handlebars_parser_ctor(x); HS *src = mks(x, t.r.tmpl); if (t.r.flags & F_COMPAT) src = handlebars_preprocess_delimiters(x, src, nullptr, nullptr);
            handlebars_ast_node *ast = handlebars_parse_ex(p, src, t.r.flags); handlebars_compiler *co = handlebars_compiler_ctor(x); handlebars_compiler_set_flags(co, t.r.flags); if (t.r.known) handlebars_compiler_set_known_helpers(co, t.r.known);
            pr = handlebars_compiler_compile_ex(co, ast); dirty_stack(fill); r = handlebars_program_serialize(x, pr);
        });
        g_fill = -1; if (!ok) return nullptr; return r;
    };
    {
        Ctx a; handlebars_program *pr = nullptr; m1 = build(a, fill1, pr); if (!m1) c.discard("does not compile: " + err.msg);
        if (handlebars_module_get_size(m1) != talloc_get_size(m1)) c.fail("size of the module " + std::to_string(handlebars_module_get_size(m1)) + ", allocated " + std::to_string(talloc_get_size(m1)));
        if (handlebars_module_get_version(m1) != handlebars_version()) c.fail("version of the module"); if (handlebars_module_get_flags(m1) != (long)t.r.flags) c.fail("flags of the module"); if (handlebars_module_get_ts(m1) != g_now) c.fail("time of the module");
        std::string before = bytes(m1); norm = norm_of(m1);
        g_fill = fill2; dirty_stack(fill2); m2 = handlebars_program_serialize(a, pr); g_fill = -1;
        std::string n2 = norm_of(m2); if (n2 != norm) c.fail("serialized again, the bytes differ at " + where(norm, n2)); if (bytes(m1) != before) c.fail("serializing again changed the first module at " + where(before, bytes(m1)));
        { Ctx b; handlebars_program *q; Mod *m3 = build(b, fill2, q); if (!m3) c.fail("compiled again it fails: " + err.msg); std::string n3 = norm_of(m3); if (n3 != norm) c.fail("compiled again, the bytes differ at " + where(norm, n3)); }
        // hash: of modules in place, normalized, and of a copy
        handlebars_module_normalize_pointers(m2, nullptr); uint64_t h2 = handlebars_module_generate_hash(m2); if (h2 != handlebars_module_get_hash(m2)) c.fail("hash returned and stored differ"); std::string k = norm_of(m1); Home t1; t1.put(k, 0); uint64_t h1 = handlebars_module_generate_hash(t1.m); if (h1 != h2) c.fail("hashes of the same program differ");
        if (!handlebars_module_verify(m2, nullptr) || !handlebars_module_verify(t1.m, nullptr)) c.fail("an unchanged module does not verify"); handlebars_module_patch_pointers(m2);
        want = [&] { handlebars_vm *vm = handlebars_vm_ctor(a); setup_vm(a, vm, t.r); HVal d; std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; to_hbs(a, t.data, d, &sh); Out w = exec_module(a, vm, m1, d); handlebars_vm_dtor(vm); return w; }();
        if (norm_of(m1) != norm) c.fail("rendering changed the module at " + where(norm, norm_of(m1)));
        { std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; Out w2; handlebars_vm *vm = handlebars_vm_ctor(a); setup_vm(a, vm, t.r); HVal d; to_hbs(a, t.data, d, &sh); w2 = exec_module(a, vm, m2, d); handlebars_vm_dtor(vm); if (!w2.same(want)) c.eq("the second module", w2.str(), want.str()); }
        // copied away
        int how = s.draw(3), off = 8 * s.draw(9); c.desc += "first copy: " + std::string(how == 0 ? "as it is" : how == 1 ? "normalized" : "adjusted before copying") + "\n";
        if (how == 1) handlebars_module_normalize_pointers(m1, nullptr);
        std::string b = bytes(m1);
        if (how == 2) { home.put(b, off); handlebars_module_normalize_pointers(m1, home.m); b = bytes(m1); memcpy((void *)home.m, b.data(), b.size()); } else home.put(b, off);
        handlebars_module_patch_pointers(home.m);
    }
    auto use = [&](const std::string &when) {
        if (home.m->addr != (void *)home.m) c.fail(when + ": address of the module");
        Ctx x; handlebars_vm *vm = handlebars_vm_ctor(x); setup_vm(x, vm, t.r); HVal d; std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; to_hbs(x, t.data, d, &sh);
        for (int i = s.range(1, 2); i > 0; i--) { Out g = exec_module(x, vm, home.m, d); if (!g.same(want)) c.eq(when, g.str(), want.str()); if (i > 1 && !want.ok) { handlebars_vm_dtor(vm); vm = handlebars_vm_ctor(x); setup_vm(x, vm, t.r); } }
        handlebars_vm_dtor(vm);
        std::string n = norm_of(home.m); if (n != norm) c.fail(when + ": normalized bytes differ at " + where(norm, n));
    };
    use("the copy with the original gone");
    int moves = s.range(0, 3);
    for (int k = 0; k < moves; k++) {
        int how = s.draw(4), off = 8 * s.draw(9); std::string when = "move " + std::to_string(k); Home next;
        switch (how) {
        case 0: next.put(bytes(home.m), off); when += ": as it is"; break;
        case 1: handlebars_module_normalize_pointers(home.m, nullptr); next.put(bytes(home.m), off); when += ": normalized"; break;
        case 2: { next.put(bytes(home.m), off); handlebars_module_normalize_pointers(home.m, next.m); std::string b = bytes(home.m); memcpy((void *)next.m, b.data(), b.size()); when += ": adjusted before"; break; }
        case 3: handlebars_module_normalize_pointers(home.m, (void *)(0x1000ul * (1 + s.draw(1000)))); next.put(bytes(home.m), off); when += ": by way of another base"; break;
        }
        home.drop(); home.raw = next.raw; home.m = next.m; next.raw = nullptr; next.m = nullptr;
        handlebars_module_patch_pointers(home.m); if (s.draw(3) == 0) handlebars_module_patch_pointers(home.m);
        c.desc += when + "\n"; use(when);
    }
    // every change of a byte is seen
    bool inplace = s.draw(2); if (!inplace) handlebars_module_normalize_pointers(home.m, nullptr);
    uint64_t h = handlebars_module_generate_hash(home.m); if (handlebars_module_generate_hash(home.m) != h) c.fail("the hash of the module changes"); if (!handlebars_module_verify(home.m, nullptr)) c.fail("an unchanged module does not verify");
    Ctx x; if (!guard(x, err, [&] { handlebars_module_verify(home.m, x); })) c.fail("an unchanged module does not verify: " + err.str());
    size_t n = home.m->size, from = offsetof(Mod, hash); unsigned char *p = (unsigned char *)home.m; size_t tried = 0;
    auto change = [&](size_t i, unsigned char by) {
        p[i] ^= by; tried++; bool v = handlebars_module_verify(home.m, nullptr); bool t = s.draw(16) ? false : guard(x, err, [&] { if (handlebars_module_verify(home.m, x)) return; }); p[i] ^= by;
        if (v || t) c.fail("changing byte " + std::to_string(i) + " of " + std::to_string(n) + " by " + std::to_string(by) + " is not noticed");
    };
    for (size_t i = from; i < sizeof(Mod); i++) change(i, 1 + s.draw(255));
    for (size_t i = sizeof(Mod); i < n; i += n < 3000 ? 1 : 1 + s.draw(7)) change(i, 1 << s.draw(8));
    change(n - 1, 255);
    for (int k = 0; k < 20; k++) { size_t i = from + s.draw(n - from), j = from + s.draw(n - from); if (p[i] == p[j]) continue; std::swap(p[i], p[j]); bool v = handlebars_module_verify(home.m, nullptr); std::swap(p[i], p[j]); if (v) c.fail("exchanging bytes " + std::to_string(i) + " and " + std::to_string(j) + " is not noticed"); }
    if (!handlebars_module_verify(home.m, nullptr)) c.fail("the restored module does not verify");
    c.label(want.ok ? "rendered" : "ends in an error"); if (moves) c.label("moved again"); label_feats(c, t.in);
    c.nontrivial = want.ok && home.m->program_count >= 2 && want.out.size();
}
static Reg r({"C10", "generated templates (blocks, partials, helper calls with hashes, sub-expressions and block parameters, raw blocks, twelve combinations of flags) serialized twice from one program and once more from another compilation with other garbage in memory, copied to other memory up to four times in four ways with the former home destroyed, rendered there and normalized; then every byte of the header and most bytes of the rest changed; non-trivial: at least two programs and an output", run, 8000, 120000});
