// C01: anything at all goes through every stage, and what remains afterwards is nothing
#include "alloc.h"
#include "compose.h"
#include "handlebars_opcode_printer.h"
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
extern "C" {
#include "handlebars_module_printer.h"
}
namespace {
std::string rep(const std::string &x, long n) { std::string o; o.reserve(x.size() * n); while (n-- > 0) o += x; return o; }
// how deep or long: mostly around the limits of the stacks, sometimes far beyond
long size_of(Src &s, long cap) { static const std::vector<int> near = {1, 2, 5, 20, 30, 31, 32, 47, 48, 62, 63, 64, 65, 66, 95, 96, 97, 120, 200, 256, 384, 500, 1000, 2000, 3332, 3333, 3334, 4000, 5000, 10000, 20000}; long n = s.draw(4) == 3 ? 1 + s.draw(300) : s.pick(near); return std::min(n, cap); }
std::string deep(Src &s, Make &mk, std::string &what, bool part) {
    struct D { const char *name, *open, *mid, *close; };
    static const std::vector<D> ds = {
        {"blocks", "{{#a}}", "x", "{{/a}}"}, {"each", "{{#each a}}", "{{this}}", "{{/each}}"}, {"with", "{{#with this}}", "{{a}}", "{{/with}}"}, {"if", "{{#if 1}}", "x", "{{/if}}"},
        {"block params", "{{#with a as |b c|}}", "{{b}}", "{{/with}}"}, {"inverse", "{{^a}}", "x", "{{/a}}"}, {"else", "{{#a}}x{{else}}", "y", "{{/a}}"}, {"chain", "{{else if a}}x", "", ""}, {"chain params", "{{else with a as |b|}}x", "", ""},
        {"subexpressions", "(a ", "b", ")"}, {"hash subexpressions", "(a k=", "b", ")"}, {"lookups", "(lookup a ", "b", ")"}, {"raw", "{{{{a}}}}", "x", "{{{{/a}}}}"}, {"partial blocks", "{{#>p1}}", "x", "{{/p1}}"}, {"unknown partial blocks", "{{#>nope}}", "x", "{{/nope}}"},
        {"path", "a.", "b", ""}, {"parents", "../", "b", ""}, {"slashes", "a/", "b", ""}, {"params", "a ", "", ""}, {"hash", "k=1 ", "", ""}, {"statements", "{{a}}", "", ""}, {"partials", "{{>p1}}", "", ""}, {"decorators", "{{#*inline \"x\"}}", "y", "{{/inline}}"},
        {"open only", "{{", "", ""}, {"braces", "{", "", ""}, {"closings", "}", "", ""}, {"parens", "(", "", ""}, {"brackets", "[", "", ""}, {"comments", "{{!-- x --}}", "", ""}, {"tildes", "{{~a~}} ", "", ""}, {"escapes", "\\{{a}}", "", ""}, {"backslashes", "\\", "", ""}, {"newlines", "\n", "", ""},
        {"standalone", "  {{#a}}\n", "x\n", "  {{/a}}\n"}, {"delimiters", "{{=<% %>=}}<%={{ }}=%>", "", ""}, {"sections and values", "{{#a}}{{b}}{{../c}}", "x", "{{/a}}"}, {"long text", "abcdefgh", "", ""}, {"unless", "{{#unless b}}", "x", "{{else}}z{{/unless}}"}, {"block literals", "{{#\"a b\"}}", "x", "{{/\"a b\"}}"}, {"indented partials", "  {{>p1}}\n", "", ""}, {"block params list", "x ", "", ""}};
    const D &d = s.pick(ds); long n = size_of(s, part ? 300 : strlen(d.open) == 1 || !strncmp(d.open, "abc", 3) ? 40000 : *d.close ? 20000 : 2000); int closing = s.draw(3);
    std::string nm = d.name, o = rep(d.open, n) + d.mid; long m = closing == 0 ? n : closing == 1 ? s.draw(n + 1) : n; if (closing == 2 && s.draw(4) == 3) m = 0; o += rep(d.close, m);
    bool expr = nm == "subexpressions" || nm == "hash subexpressions" || nm == "lookups" || nm == "path" || nm == "parents" || nm == "slashes" || nm == "params" || nm == "hash";
    if (expr) { static const std::vector<std::pair<std::string, std::string>> W = {{"{{", "}}"}, {"{{a ", "}}"}, {"{{#if ", "}}x{{/if}}"}, {"{{>p1 ", "}}"}, {"{{{", "}}}"}, {"{{> ", "}}"}, {"{{#each ", "}}{{/each}}"}, {"{{a k=", "}}"}}; auto &w = s.pick(W); o = w.first + o + w.second; }
    if (nm == "chain" || nm == "chain params") o = "{{#a}}" + o + "{{/a}}";
    if (nm == "block params list") o = "{{#each a as |" + o + "|}}{{/each}}";
    if (s.draw(6) == 5) { std::string x = mk.body(0); o = s.draw(2) ? x + o : o + x; }
    what = nm + " x " + std::to_string(n); return o;
}
std::string soup(Src &s) {
    static const std::vector<std::string> bits = {"{{", "}}", "a", "b", " ", "\n", "#", "/", "^", "else", "{", "}", "(", ")", "=", "|", "as |", "\"", "'", "[", "]", ".", "..", "!", "--", ">", "&", "*", "~", "@", "1", "-", "true", "null", "\\", "{{{{", "}}}}", "{{#a}}", "{{/a}}", "{{=", "=}}", "{{=<% %>=}}", "<%", "%>", "{{! x }}", "{{!--", "--}}", "this", "\r\n", "\t", "{{#*inline \"q\"}}", "{{/inline}}", "{{>p1}}", "{{>@partial-block}}", "{{#>p1}}", "{{/p1}}"};
    std::string o; int n = 1 + s.draw(30); while (n--) { if (s.draw(12) == 11) o += (char)s.draw(256); else o += s.pick(bits); } return o;
}
std::string bytes(Src &s) { std::string o; int n = s.draw(60); while (n--) o += s.draw(3) ? (char)s.draw(256) : "{}#/^>&!~.()=|\"'[]@ \n\\-"[s.draw(23)]; return o; }
std::string any(Src &s, std::string &what, GenOpt &o, V &data, bool part = false) {
    Make mk{s, 12, s.draw(2) != 0}; std::string t, how;
    switch (s.weighted({4, 4, 2, 1, 3})) {
    case 0: { Gen g(s, o); if (!data) data = g.data(); Body b = gen_template(g, data); t = body_src(b); what = "generated"; break; }
    case 1: t = mk.body(0); what = "composed"; break;
    case 2: t = soup(s); what = "soup"; return t;
    case 3: t = bytes(s); what = "bytes"; return t;
    default: t = deep(s, mk, what, part); return t;
    }
    if (s.draw(2)) { t = damage(s, t, how); what += ", " + how; if (s.draw(3) == 2) t = damage(s, t, how); }
    return t;
}
bool finish(Case &c, const std::string &stage, bool ok, const Err &e) {
    if (ok) { c.label(stage); return true; }
    if (!e.num) c.fail(stage + " ended without a result and without an error");
    if (e.msg.empty()) c.fail(stage + " reported error " + std::to_string(e.num) + " without a message");
    c.label(stage + ": error " + std::to_string(e.num)); return false;
}
void text(Case &c, const std::string &stage, HS *x) { if (!x) c.fail(stage + " gave nothing"); size_t n = hbs_str_len(x); const char *v = hbs_str_val(x); if (v[n]) c.fail(stage + ": text not terminated"); unsigned h = 0; for (size_t i = 0; i < n; i++) h = h * 31 + (unsigned char)v[i]; if (h == 0x12345678) c.label("_"); }
void run(Src &s, Case &c) {
    GenOpt o; o.nodes = 12; o.partial = 3; o.pblock = 2; o.raw = 1; o.hcall = 3; o.hblock = 3; o.ws = s.draw(2); o.strips = s.draw(2); o.lambdas = s.draw(3) == 2; o.depth = 4; o.literal_braces = s.draw(4) == 3; o.pnames = {"p1", "p2", "p 3"};
    for (auto *h : {"dump", "id", "blk", "blkp", "arr", "cat", "rep", "thr", "safe", "nul", "on"}) if (s.draw(2)) o.helpers.push_back(h);
    Render r; std::string what; V data; r.tmpl = any(s, what, o, data);
    unsigned long fl = 0; if (s.draw(3)) { int n = s.range(1, 5); while (n--) fl |= 1ul << s.draw(13); } r.flags = fl;
    // partials: any text, also of themselves and of each other
    static const std::vector<std::string> cyc = {"{{>p1}}", "{{>p2}}", "x{{>p1}}{{>p2}}", "{{#each items}}{{>p1}}{{/each}}", "{{#if a}}{{>p2}}{{/if}}", "{{#>p1}}{{>@partial-block}}{{/p1}}", "{{>@partial-block}}", "{{#>p2}}{{>p1}}{{/p2}}", " {{>p1}}\n", "{{#a}}{{>p1}}{{/a}}", "{{>p1 a=this}}", "{{#with this}}{{>p1 this}}{{/with}}", "{{#>p1}}x{{/p1}}", "{{> (lookup . \"pn\")}}", "{{>p1 k=1 j=2}}", "\t{{>p2}}\n{{>p1}}\n"};
    std::string pd; int np = s.draw(4); for (int i = 0; i < np; i++) { std::string w, x = s.draw(2) ? s.pick(cyc) : any(s, w, o, data, true); std::string name = i == 0 ? "p1" : i == 1 ? "p2" : s.draw(2) ? "p 3" : ""; if (s.draw(3) == 2) x += s.pick(cyc); r.partials.push_back({name, x}); pd += " partial " + quote(name) + ": " + quote(x.substr(0, 600)) + "\n"; }
    r.has_partials = np || s.draw(4);
    if (!data) { if (s.draw(3)) { Gen g(s, o); data = g.data(); } else data = s.pick(std::vector<V>{vmap({{"a", vstr("v")}}), vnull(), vint(7), vstr("text"), varr({vint(1), vmap({{"a", vint(2)}})}), vmap({{"a", varr({vint(1), vint(2)})}, {"items", varr({vmap(), vint(1)})}}), vbool(true), vmap()}); }
    int dd = 0; if (s.draw(12) == 11) { dd = size_of(s, 2000); V x = data; for (int i = 0; i < dd; i++) { int k = s.draw(3); x = k == 2 ? varr({x}) : vmap({{k ? "items" : "a", x}}); } data = x; }
    if (fl & F_COMPAT && what.find(" x ") != std::string::npos) data = vmap({{"a", vstr("v")}, {"items", varr({vint(1)})}});   // lists found in outer scopes again and again take exponential time
    r.data = data; r.helpers = o.helpers; if (s.draw(4) == 3) r.vmdata = vmap({{"x", vint(1)}, {"root", vstr("r")}});
    static const char *KNOWN[] = {"dump", "blk", "if", "foo", nullptr}; r.known = s.draw(4) == 3 ? KNOWN : nullptr;
    int conv = dd ? 0 : s.weighted({4, 1, 1});
    bool odd = false; if (conv) { std::function<void(const V &)> f = [&](const V &v) { if (!v) return; if (v->t == V_LAM) odd = true; for (auto &e : v->a) f(e); for (auto &e : v->m) f(e.second); }; f(data); if (odd) conv = 0; }
    int stages = s.draw(2) ? 63 : 1 + s.draw(63); if (r.tmpl.size() > 8000) stages &= 32; /* printing appends in small steps, each of which copies everything under the sanitizer */ int order = s.draw(2); bool tidy = s.draw(2);
    c.desc = "template (" + what + ", " + std::to_string(r.tmpl.size()) + " bytes): " + quote(r.tmpl.substr(0, 2000)) + "\n" + pd + " flags: " + flags_str(fl) + (dd ? "\n data " + std::to_string(dd) + " levels deep" : "\n data: " + vjson(data).substr(0, 1500)) + (conv == 1 ? "\n as JSON" : conv == 2 ? "\n as YAML" : "");
    g_show_limit = 100000; std::string json = conv ? vjson(data) : ""; g_show_limit = 500;
    g_calls.clear(); long live = g_live; size_t outlen = 0; bool good = false;
    {
        Ctx x; Err e; HS *t = mks(x, r.tmpl);
        handlebars_parser *volatile p = nullptr; handlebars_compiler *volatile co = nullptr; handlebars_ast_node *volatile ast = nullptr; handlebars_program *volatile pr = nullptr; handlebars_module *volatile m = nullptr; HS *volatile res = nullptr;
        HS *volatile pt = t;
        if (fl & F_COMPAT || s.draw(6) == 5) { HS *volatile d = nullptr; if (finish(c, "preprocess", guard(x, e, [&] { d = handlebars_preprocess_delimiters(x, handlebars_string_copy_ctor(x, t), nullptr, nullptr); }), e)) { text(c, "preprocess", d); if (fl & F_COMPAT) pt = d; } }
        if (stages & 1) {
            handlebars_token **volatile tv = nullptr;
            if (finish(c, "tokenize", guard(x, e, [&] { handlebars_parser *q = handlebars_parser_ctor(x); tv = handlebars_lex_ex(q, pt); if (tidy && !HBSCTX(x)) handlebars_parser_dtor(q); }), e)) { int n = 0; for (handlebars_token **k = tv; *k && n < 200; k++, n++) { HS *volatile ps = nullptr; if (finish(c, "print token", guard(x, e, [&] { ps = handlebars_token_print(x, *k, n & 1); }), e)) text(c, "print token", ps); } }
        }
        bool parsed = finish(c, "parse", guard(x, e, [&] { p = handlebars_parser_ctor(x); ast = handlebars_parse_ex(p, pt, fl); }), e);
        if (parsed) {
            if (!ast) c.fail("parsing gave no tree");
            auto prints = [&] { if (stages & 2) { HS *volatile a = nullptr; if (finish(c, "print tree", guard(x, e, [&] { a = handlebars_ast_print(x, ast); }), e)) text(c, "print tree", a); } if (stages & 4) { HS *volatile a = nullptr; if (finish(c, "print source", guard(x, e, [&] { a = handlebars_ast_to_string(x, ast); }), e)) text(c, "print source", a); } };
            if (order) prints();
            if (finish(c, "compile", guard(x, e, [&] { co = handlebars_compiler_ctor(x); handlebars_compiler_set_flags(co, fl); if (r.known) handlebars_compiler_set_known_helpers(co, r.known); pr = handlebars_compiler_compile_ex(co, ast); }), e)) {
                if (stages & 8) { HS *volatile a = nullptr; if (finish(c, "print program", guard(x, e, [&] { a = handlebars_program_print(x, pr, s.draw(2)); }), e)) text(c, "print program", a); }
                if (finish(c, "serialize", guard(x, e, [&] { m = handlebars_program_serialize(x, pr); }), e)) {
                    if (!m) c.fail("serialization gave nothing");
                    if (stages & 16) { HS *volatile a = nullptr; if (finish(c, "print module", guard(x, e, [&] { a = handlebars_module_print(x, m); }), e)) text(c, "print module", a); }
                }
            }
            if (!order) prints();
        }
        if (tidy) { if (co) handlebars_compiler_dtor(co); if (p) handlebars_parser_dtor(p); }
        if (m && stages & 32) {
            handlebars_vm *vm = handlebars_vm_ctor(x); setup_vm(x, vm, r);
            {
                HVal d; std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; bool have = true;
                if (conv) have = finish(c, "data", guard(x, e, [&] { if (conv == 1) handlebars_value_init_json_string(x, d, json.c_str()); else handlebars_value_init_yaml_string(x, d, json.c_str()); }), e); else to_hbs(x, data, d, &sh);
                if (have) { if (finish(c, "render", guard(x, e, [&] { res = handlebars_vm_execute(vm, m, d); }), e)) { text(c, "render", res); outlen = hbs_str_len(res); good = true; if (tidy) handlebars_string_delref(res); } }
            }
            if (tidy) handlebars_vm_dtor(vm);
        }
    }
    if (g_live != live) c.fail(std::to_string(g_live - live) + " blocks remain after the context is destroyed");
    c.label("templates " + what.substr(0, what.find(" x ")).substr(0, what.find(','))); if (dd) c.label("deep data"); if (outlen > 1000) c.label("long results");
    c.nontrivial = r.tmpl.size() >= 4;
    (void)good;
}
void init() { g_from_limit = 500; g_show_limit = 500;  (void)!freopen("/dev/null", "w", stdout); time_t t = 0; (void)ctime(&t); printf(" "); fflush(stdout); fprintf(stderr, " "); Ctx c; Err e; HVal v; guard(c, e, [&] { handlebars_value_init_yaml_string(c, v, "{a: [1, 1.5]}"); handlebars_value_init_json_string(c, v, "{\"a\": [1, 1.5]}"); }); }
Reg r({"C01", "templates generated with their data, composed from the grammar, damaged, made of random tokens or bytes, and constructs of every kind up to tens of thousands of levels or items, with up to three partials (also of themselves and of each other), any flags, helpers and data (native, JSON, YAML, up to 2000 levels); every stage from delimiters to rendering and all printers; a stage gives a text or tree or reports an error with a message, the sanitizers are silent, nothing is allocated after the context is destroyed; non-trivial: templates of four bytes or more", run, 24000, 500000, init});
}
