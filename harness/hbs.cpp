#include "hbs.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
#include <sys/stat.h>

HVal::HVal() { if (HANDLEBARS_VALUE_SIZE > sizeof mem) abort(); handlebars_value_init(p()); }

static V mkv(VT t) { auto v = std::make_shared<Val>(); v->t = t; return v; }
V vnull() { return mkv(V_NULL); }
V vbool(bool b) { return mkv(b ? V_TRUE : V_FALSE); }
V vint(long i) { auto v = mkv(V_INT); v->i = i; return v; }
V vflt(double d) { auto v = mkv(V_FLT); v->d = d; return v; }
V vstr(const std::string &s, bool safe) { auto v = mkv(V_STR); v->s = s; v->safe = safe; return v; }
V varr(std::vector<V> a) { auto v = mkv(V_ARR); v->a = std::move(a); return v; }
V vmap(std::vector<std::pair<std::string, V>> m) { auto v = mkv(V_MAP); v->m = std::move(m); return v; }
V vlam(int which, V arg) { auto v = mkv(V_LAM); v->lam = which; v->lamarg = arg; return v; }

std::string fmt_double(double d) { char b[64]; snprintf(b, 64, "%g", d); return b; }
std::string html_escape(const std::string &s) {
    std::string o;
    for (char c : s) switch (c) {
        case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break;
        case '"': o += "&quot;"; break; case '\'': o += "&#x27;"; break; case '`': o += "&#x60;"; break;
        default: o += c;
    }
    return o;
}
static std::string jq(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
// shared containers may unfold to huge texts: these are cut, and the flag is set
thread_local bool g_show_over = false; static thread_local long show_left;
static void show(const V &v, bool typed, std::string &o) {
    if (--show_left < 0) { g_show_over = true; o += "..."; return; }
    switch (v->t) {
    case V_NULL: o += "null"; return; case V_TRUE: o += "true"; return; case V_FALSE: o += "false"; return;
    case V_INT: o += std::to_string(v->i); return;
    case V_FLT: { char b[64]; snprintf(b, 64, "%.17g", v->d); std::string s = b; if (s.find_first_of(".en") == std::string::npos) s += ".0"; o += s; return; }
    case V_STR: show_left -= v->s.size() / 32; if (typed && v->safe) o += "safe:"; o += jq(v->s); return;
    case V_ARR: { o += '['; bool f = true; for (auto &x : v->a) { if (!f) o += ","; f = false; show(x, typed, o); } o += ']'; return; }
    case V_MAP: { o += '{'; bool f = true; for (auto &x : v->m) { if (!f) o += ","; f = false; show_left -= x.first.size() / 32; o += jq(x.first); o += ':'; show(x.second, typed, o); } o += '}'; return; }
    case V_LAM: if (typed) { o += "fn"; return; } o += "<lambda " + std::to_string(v->lam); if (v->lamarg) { o += ' '; show(v->lamarg, false, o); } o += '>'; return;
    }
    o += '?';
}
long g_show_limit = 100000;
std::string vjson(const V &v) { show_left = g_show_limit; std::string o; show(v, false, o); return o; }
thread_local size_t g_typed = 0;
std::string vtyped(const V &v) { show_left = g_show_limit; std::string o; show(v, true, o); g_typed += o.size(); return o; }
bool vempty(const V &v) {
    switch (v->t) {
    case V_NULL: case V_FALSE: return true; case V_TRUE: return false;
    case V_INT: return v->i == 0; case V_FLT: return v->d == 0;
    case V_STR: return v->s.empty() || v->s == "0";
    case V_ARR: return v->a.empty(); case V_MAP: return v->m.empty();
    case V_LAM: return true;
    }
    return true;
}
std::string vprint(const V &v, bool escape) {
    switch (v->t) {
    case V_NULL: return ""; case V_TRUE: return "true"; case V_FALSE: return "false";
    case V_INT: return std::to_string(v->i); case V_FLT: return fmt_double(v->d);
    case V_STR: return escape && !v->safe ? html_escape(v->s) : v->s;
    case V_ARR: { std::string o; bool f = true; for (auto &x : v->a) { if (!f) o += ","; f = false; o += vprint(x, escape); } return o; }
    default: return "";
    }
}
std::string vprint_raw(const V &v) { return vprint(v, false); }
bool veq(const V &a, const V &b) { return vtyped(a) == vtyped(b); }

static HV *lambda_fn(int localc, HV *localv, int argc, HV *argv, handlebars_options *options, handlebars_vm *vm, HV *rv);

void to_hbs(HC *c, const V &v, HV *out, std::unordered_map<const Val *, std::unique_ptr<HVal>> *share) {
    if (share) { auto it = share->find(v.get()); if (it != share->end()) { handlebars_value_value(out, *it->second); return; } }
    switch (v->t) {
    case V_NULL: handlebars_value_null(out); break;
    case V_TRUE: handlebars_value_boolean(out, true); break;
    case V_FALSE: handlebars_value_boolean(out, false); break;
    case V_INT: handlebars_value_integer(out, v->i); break;
    case V_FLT: handlebars_value_float(out, v->d); break;
    case V_STR: handlebars_value_str(out, mks(c, v->s));
        if (v->safe) handlebars_value_set_flag(out, HANDLEBARS_VALUE_FLAG_SAFE_STRING);
        break;
    case V_ARR: {
        handlebars_stack *st = handlebars_stack_ctor(c, v->a.size());
        for (auto &x : v->a) { HVal t; to_hbs(c, x, t, share); st = handlebars_stack_push(st, t); }
        handlebars_value_array(out, st); break;
    }
    case V_MAP: {
        handlebars_map *m = handlebars_map_ctor(c, v->m.size());
        for (auto &x : v->m) { HVal t; to_hbs(c, x.second, t, share); m = handlebars_map_update(m, mks(c, x.first), t); }
        handlebars_value_map(out, m); break;
    }
    case V_LAM: {
        handlebars_vm *vm = handlebars_vm_ctor(c);
        HV *l = (HV *)talloc_zero_size(c, 2 * HANDLEBARS_VALUE_SIZE);
        handlebars_value_integer(HANDLEBARS_VALUE_ARRAY_AT(l, 0), v->lam);
        if (v->lamarg) to_hbs(c, v->lamarg, HANDLEBARS_VALUE_ARRAY_AT(l, 1), share);
        handlebars_value_closure(out, handlebars_closure_ctor(vm, lambda_fn, 2, l));
        break;
    }
    }
    if (share && (v->t == V_ARR || v->t == V_MAP)) {
        auto h = std::make_unique<HVal>(); handlebars_value_value(*h, out); (*share)[v.get()] = std::move(h);
    }
}
long g_from_limit = 5000000; static thread_local long g_from;
static V from_hbs_(HC *c, HV *v, int depth) {
    if (depth > 60 || ++g_from > g_from_limit) return vstr("<deep>");
    switch (handlebars_value_get_type(v)) {
    case HANDLEBARS_VALUE_TYPE_NULL: return vnull();
    case HANDLEBARS_VALUE_TYPE_TRUE: return vbool(true);
    case HANDLEBARS_VALUE_TYPE_FALSE: return vbool(false);
    case HANDLEBARS_VALUE_TYPE_INTEGER: return vint(handlebars_value_get_intval(v));
    case HANDLEBARS_VALUE_TYPE_FLOAT: return vflt(handlebars_value_get_floatval(v));
    case HANDLEBARS_VALUE_TYPE_STRING: {
        return vstr(std::string(handlebars_value_get_strval(v), handlebars_value_get_strlen(v)), handlebars_value_get_flags(v) & HANDLEBARS_VALUE_FLAG_SAFE_STRING);
    }
    case HANDLEBARS_VALUE_TYPE_ARRAY: {
        V r = varr();
        each(v, [&](handlebars_value_iterator *it) { r->a.push_back(from_hbs_(c, it->cur, depth + 1)); });
        return r;
    }
    case HANDLEBARS_VALUE_TYPE_MAP: {
        V r = vmap();
        each(v, [&](handlebars_value_iterator *it) { r->m.push_back({sv(it->key), from_hbs_(c, it->cur, depth + 1)}); });
        return r;
    }
    case HANDLEBARS_VALUE_TYPE_HELPER: case HANDLEBARS_VALUE_TYPE_CLOSURE: return vlam(-1);
    default: return vstr("<other type>");
    }
}
V from_hbs(HC *c, HV *v, int depth) { g_from = 0; return from_hbs_(c, v, depth); }
std::string typed(HC *c, HV *v) { return vtyped(from_hbs(c, v)); }
size_t ctx_bytes(HC *c) { return talloc_total_size(c); }

// what callables in the data do; the model's interpreter has the same in run_lambda
static HV *lambda_fn(int localc, HV *localv, int argc, HV *argv, handlebars_options *options, handlebars_vm *vm, HV *rv) {
    HC *c = (HC *)vm;
    long kind = handlebars_value_get_intval(HANDLEBARS_VALUE_ARRAY_AT(localv, 0));
    HV *arg = HANDLEBARS_VALUE_ARRAY_AT(localv, 1);
    switch (kind) {
    case 0: handlebars_value_value(rv, arg); break;                       // constant
    case 4: if (argc > 0) handlebars_value_value(rv, argv); else handlebars_value_null(rv); break; // what it is given
    case 1: {                                                             // member of the current context
        handlebars_value_null(rv);
        HVal t;
        if (options && options->scope && handlebars_value_get_type(options->scope) == HANDLEBARS_VALUE_TYPE_MAP) {
            HV *f = handlebars_value_map_find(options->scope, handlebars_value_get_string(arg), t);
            if (f) handlebars_value_value(rv, f);
        }
        break;
    }
    case 2: {                                                             // shows its arguments and hash
        std::string s = "L(";
        for (int i = 0; i < argc; i++) { if (i) s += ","; s += typed(c, HANDLEBARS_VALUE_ARRAY_AT(argv, i)); }
        s += ")";
        if (options && options->hash && handlebars_value_get_type(options->hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(options->hash)) { V h = from_hbs(c, options->hash); std::sort(h->m.begin(), h->m.end(), [](auto &a, auto &b) { return a.first < b.first; }); s += "#" + vtyped(h); }
        handlebars_value_str(rv, mks(c, s));
        break;
    }
    case 3: {                                                             // mustache style: text with %s replaced by the source
        std::string t(handlebars_value_get_strval(arg), handlebars_value_get_strlen(arg)), o;
        std::string src = argc > 0 && handlebars_value_get_type(argv) == HANDLEBARS_VALUE_TYPE_STRING ? std::string(handlebars_value_get_strval(argv), handlebars_value_get_strlen(argv)) : "";
        for (size_t i = 0; i < t.size(); i++) if (t[i] == '%' && i + 1 < t.size() && t[i + 1] == 's') { o += src; i++; } else o += t[i];
        handlebars_value_str(rv, mks(c, o));
        break;
    }
    default: handlebars_value_null(rv);
    }
    return rv;
}

handlebars_module *compile(HC *c, const std::string &tmpl, unsigned long flags, const char **known, Err &err, std::string &stage) {
    handlebars_module *volatile m = nullptr;
    const char *volatile st = "parse";
    guard(c, err, [&] {
        handlebars_parser *p = handlebars_parser_ctor(c);
        HS *t = mks(c, tmpl);
        if (flags & F_COMPAT) t = handlebars_preprocess_delimiters(c, t, nullptr, nullptr);
        handlebars_ast_node *ast = handlebars_parse_ex(p, t, flags);
        st = "compile";
        handlebars_compiler *co = handlebars_compiler_ctor(c);
        handlebars_compiler_set_flags(co, flags);
        if (known) handlebars_compiler_set_known_helpers(co, known);
        handlebars_program *pr = handlebars_compiler_compile_ex(co, ast);
        m = handlebars_program_serialize(c, pr);
        handlebars_compiler_dtor(co);
        handlebars_parser_dtor(p);
    });
    stage = st;
    return m;
}
void make_helpers(HC *c, const std::vector<std::string> &names, HV *out) {
    handlebars_map *m = handlebars_map_ctor(c, names.size());
    for (auto &n : names) { HVal t; HelperFn f = find_test_helper(n); if (!f) abort(); handlebars_value_helper(t, f); m = handlebars_map_update(m, mks(c, n), t); }
    handlebars_value_map(out, m);
}
void setup_vm(HC *c, handlebars_vm *vm, const Render &r) {
    handlebars_vm_set_flags(vm, r.modonly ? 0 : r.flags);
    if (r.cache) handlebars_vm_set_cache(vm, r.cache);
    if (!r.helpers.empty()) { HVal h; make_helpers(c, r.helpers, h); handlebars_vm_set_helpers(vm, h); }
    if (r.hpartials) handlebars_vm_set_partials(vm, r.hpartials);
    else if (r.has_partials) {
        handlebars_map *m = handlebars_map_ctor(c, r.partials.size());
        for (auto &p : r.partials) { HVal t; handlebars_value_str(t, mks(c, p.second)); m = handlebars_map_update(m, mks(c, p.first), t); }
        HVal h; handlebars_value_map(h, m); handlebars_vm_set_partials(vm, h);
    }
    if (r.vmdata) { HVal h; to_hbs(c, r.vmdata, h); handlebars_vm_set_data(vm, h); }
}
Out exec_module(HC *c, handlebars_vm *vm, handlebars_module *m, HV *data) {
    Out o; o.stage = "render";
    HS *volatile s = nullptr;
    o.ok = guard(c, o.err, [&] { s = handlebars_vm_execute(vm, m, data); });
    if (o.ok && !s) { o.ok = false; o.err.num = -2; o.err.msg = "null result"; }
    if (o.ok) {
        o.out = sv(s);
        if (hbs_str_val(s)[hbs_str_len(s)] != 0) { o.ok = false; o.err.num = -3; o.err.msg = "result not terminated"; }
    }
    return o;
}
Out render_in(HC *c, const Render &r) {
    Out o;
    handlebars_module *m = compile(c, r.tmpl, r.flags & ~r.vmonly, r.known, o.err, o.stage);
    if (!m) return o;
    handlebars_vm *vm = handlebars_vm_ctor(c);
    setup_vm(c, vm, r);
    {
        HVal d;
        if (r.hdata) handlebars_value_value(d, r.hdata);
        else if (r.data) { std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; to_hbs(c, r.data, d, &sh); }
        if (!r.before.empty()) { handlebars_module *b = compile(c, r.before, r.flags & ~r.vmonly, r.known, o.err, o.stage); HVal n; if (b) exec_module(c, vm, b, n); }
        o = exec_module(c, vm, m, d);
    }
    handlebars_vm_dtor(vm);
    return o;
}
Out render(const Render &r) { Ctx c; return render_in(c, r); }

std::string flags_str(unsigned long f) {
    std::string o; for (int i = 0; i < 13; i++) if (f & (1ul << i)) o += (o.empty() ? "" : ",") + std::string(FLAG_NAMES[i]);
    return o.empty() ? "none" : o;
}
std::string listing_ast(HC *c, const std::string &tmpl, unsigned long flags, Err &err) {
    HS *volatile s = nullptr;
    if (!guard(c, err, [&] {
        handlebars_parser *p = handlebars_parser_ctor(c);
        handlebars_ast_node *ast = handlebars_parse_ex(p, mks(c, tmpl), flags);
        s = handlebars_ast_print(c, ast);
    })) return "";
    return sv(s);
}
void write_file(const std::string &path, const std::string &content) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(content.data(), content.size()); if (!f.good()) { fprintf(stderr, "cannot write %s\n", path.c_str()); abort(); } }
std::string read_file(const std::string &path) { std::ifstream f(path, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
__attribute__((weak)) HelperFn find_test_helper(const std::string &) { return nullptr; }
