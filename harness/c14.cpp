// C14: values, arrays and stacks against immutable values with copy on write
#include "hbs.h"
#include <algorithm>
static int g_user_alive[64], g_user_ctor[64];
struct MyUser { handlebars_user u; int id; };
static void u_dtor(handlebars_user *u) { g_user_alive[((MyUser *)u)->id]--; }
static handlebars_value_type u_type(HV *) { return HANDLEBARS_VALUE_TYPE_USER; }
static long u_count(HV *) { return 2; }
static bool u_iter(handlebars_value_iterator *, HV *) { return false; }
static const handlebars_value_handlers U = {"test", nullptr, u_dtor, nullptr, u_type, nullptr, nullptr, u_iter, nullptr, u_count, nullptr};
static HV *clo(int localc, HV *localv, int argc, HV *argv, handlebars_options *, handlebars_vm *, HV *rv) {
    int i = argc > 0 && handlebars_value_get_type(argv) == HANDLEBARS_VALUE_TYPE_INTEGER ? (int)handlebars_value_get_intval(argv) : 0;
    handlebars_value_value(rv, HANDLEBARS_VALUE_ARRAY_AT(localv, i % localc)); return rv;
}
static HV *hlp(int, HV *, handlebars_options *, handlebars_vm *, HV *rv) { handlebars_value_integer(rv, 77); return rv; }
enum { L_CLOSURE = 1000, L_HELPER = 1001, L_USER = 2000, L_PTR = 3000 };
// contents with exact types
static std::string showm(const V &v) {
    switch (v->t) {
    case V_ARR: { std::string o = "["; for (auto &x : v->a) o += showm(x) + ","; return o + "]"; }
    case V_MAP: { std::string o = "{"; for (auto &x : v->m) o += quote(x.first) + ":" + showm(x.second) + ","; return o + "}"; }
    case V_LAM: { if (v->lam == L_CLOSURE) { std::string o = "closure"; return o; } return v->lam == L_HELPER ? "helper" : v->lam >= L_PTR ? "ptr" + std::to_string(v->lam - L_PTR) : "user" + std::to_string(v->lam - L_USER); }
    default: return vtyped(v);
    }
}
static std::string showh(HC *c, HV *v) {
    switch (handlebars_value_get_real_type(v)) {
    case HANDLEBARS_VALUE_TYPE_ARRAY: { std::string o = "["; handlebars_stack *s = handlebars_value_get_stack(v); for (size_t i = 0; i < handlebars_stack_count(s); i++) o += showh(c, handlebars_stack_get(s, i)) + ","; return o + "]"; }
    case HANDLEBARS_VALUE_TYPE_MAP: { std::string o = "{"; each(v, [&](handlebars_value_iterator *it) { o += quote(sv(it->key)) + ":" + showh(c, it->cur) + ","; }); return o + "}"; }
    case HANDLEBARS_VALUE_TYPE_CLOSURE: return "closure";
    case HANDLEBARS_VALUE_TYPE_HELPER: return "helper";
    case HANDLEBARS_VALUE_TYPE_PTR: return "ptr" + std::to_string(*(int *)handlebars_value_get_ptr_ex(v, "int"));
    case HANDLEBARS_VALUE_TYPE_USER: return "user" + std::to_string(((MyUser *)handlebars_value_get_user(v))->id);
    default: return typed(c, v);
    }
}
static std::string dumpm(const V &v, size_t depth) {
    size_t dd = (depth + 1) * 4 >= 0x80 ? 0x80 / 4 - 2 : depth; std::string in(dd * 4, ' '), in2((dd + 1) * 4, ' ');
    switch (v->t) {
    case V_NULL: return "NULL"; case V_TRUE: return "boolean(true)"; case V_FALSE: return "boolean(false)"; case V_INT: return "integer(" + std::to_string(v->i) + ")";
    case V_FLT: return "float(" + fmt_double(v->d) + ")"; case V_STR: return "string(" + v->s + ")";
    case V_ARR: { std::string o = v->a.size() ? "[\n" : "["; int i = 0; for (auto &x : v->a) o += in2 + std::to_string(i++) + " => " + dumpm(x, dd + 1) + "\n"; return o + (v->a.size() ? in : "") + "]"; }
    case V_MAP: { std::string o = v->m.size() ? "{\n" : "{"; for (auto &x : v->m) o += in2 + x.first + " => " + dumpm(x.second, dd + 1) + "\n"; return o + (v->m.size() ? in : "") + "}"; }
    default: return "?";
    }
}
static bool has_lam(const V &v) { if (v->t == V_LAM) return true; for (auto &x : v->a) if (has_lam(x)) return true; for (auto &x : v->m) if (has_lam(x.second)) return true; return false; }
static bool has_nul(const V &v) { if (v->s.find('\0') != std::string::npos) return true; for (auto &x : v->a) if (has_nul(x)) return true; for (auto &x : v->m) if (has_nul(x.second) || x.first.find('\0') != std::string::npos) return true; return false; }
static size_t weight(const V &v) { size_t n = 1; for (auto &x : v->a) n += weight(x); for (auto &x : v->m) n += weight(x.second); return n; }
static int depth(const V &v) { int d = 0; for (auto &x : v->a) d = std::max(d, depth(x)); for (auto &x : v->m) d = std::max(d, depth(x.second)); return d + 1; }
// same object or same scalar
static bool same(const V &a, const V &b) {
    if (a->t != b->t) return false;
    if (a->t == V_ARR || a->t == V_MAP) return a == b;
    if (a->t == V_LAM) return a->lam == b->lam && (a->lam != L_CLOSURE || a == b);
    if (a->t == V_STR) return a->s == b->s;
    if (a->t == V_INT) return a->i == b->i;
    if (a->t == V_FLT) return a->d == b->d;
    return true;
}
static V own(V &n) { if (n.use_count() > 1) { V c = std::make_shared<Val>(*n); n = c; } return n; }
struct Bare { handlebars_stack *st = nullptr; std::vector<V> m; size_t protect = 0, cap = 0; bool held = false, fixed = false; std::vector<std::pair<handlebars_stack_save_buf, std::pair<size_t, size_t>>> saves; void *mem = nullptr; };
static const std::vector<std::string> KEYS = {"a", "b", "key", "", "long key of some length", std::string("n\0l", 3)};

static void run(Src &s, Case &c) {
    Ctx ctx; Err err; std::string &d = c.desc;
    handlebars_vm *vm = handlebars_vm_ctor(ctx);
    memset(g_user_alive, 0, sizeof g_user_alive); int nuser = 0, nptr = 0; std::vector<bool> freed;
    const int N = 6; std::string ops; bool leaks = true, shared_mut = false, errors = false, nested = false; int muts = 0;
    auto held = [&] { return ctx_bytes(ctx) - talloc_total_size(((HC *)ctx)->e); }; size_t base = held();   // without messages of errors
    {
    HVal h[N]; V m[N]; for (auto &x : m) x = vnull();
    std::vector<Bare> bare;
    auto L = [&](const std::string &x) { d += x + "\n"; if (c.verbose) fprintf(stderr, "%s\n", x.c_str()); };
    auto update = [&](HV *map, const std::string &key, HV *v) { HS *k = mks(ctx, key); handlebars_string_addref(k); handlebars_value_map_update(map, k, v); handlebars_string_delref(k); };
    auto H = [](int i) { return "h" + std::to_string(i); };
    auto scalar = [&](HV *o) -> V {
        switch (s.weighted({4, 1, 1, 3, 1, 4})) {
        case 0: { long i = s.pick(std::vector<long>{1, 0, -5, 4294967297L, 2147483648L, (long)(~0ul >> 1), 42}); handlebars_value_integer(o, i); return vint(i); }
        case 1: handlebars_value_boolean(o, true); return vbool(true);
        case 2: handlebars_value_boolean(o, false); return vbool(false);
        case 3: { double f = s.pick(std::vector<double>{0.5, 0, -1.25, 1e20, 3}); handlebars_value_float(o, f); return vflt(f); }
        case 4: handlebars_value_null(o); return vnull();
        default: { std::string t = s.pick(std::vector<std::string>{"x", "", "0", "<b>&\"'", "some longer text that needs its own allocation", std::string("a\0b", 3), "\xc3\xbc"}); handlebars_value_str(o, mks(ctx, t)); return vstr(t); }
        }
    };
    auto equal = [&](int i, int j, const std::string &when) {               // scalars are equal by what they are, containers when they are the same one
        const Val &x = *m[i], &y = *m[j]; bool want;
        if (x.t == V_ARR || x.t == V_MAP || x.t == V_LAM || y.t == V_ARR || y.t == V_MAP || y.t == V_LAM) { if (i != j && x.t == y.t) return; want = i == j; }
        else want = x.t == y.t && (x.t == V_INT ? x.i == y.i : x.t == V_FLT ? x.d == y.d : x.t == V_STR ? x.s == y.s : true);
        if (handlebars_value_eq(h[i], h[j]) != want) c.fail(H(i) + " and " + H(j) + (want ? " are different " : " are equal ") + when + ": " + showm(m[i]) + " " + showm(m[j]));
    };
    auto compare = [&](int i, const std::string &when) { std::string a = showh(ctx, h[i]), b = showm(m[i]); if (a != b) c.eq(H(i) + " " + when, a, b); };
    int steps = s.range(4, c.tier ? 70 : 40);
    for (int k = 0; k < steps && !s.exhausted(); k++) {
        int a = s.draw(N), b = s.draw(N); std::string what;
        size_t tot = 0; for (auto &x : m) tot += weight(x);
        int op = s.weighted({6, 6, 4, 4, 10, 3, 6, 3, 4, 4, 8, 4, 4, 2, 3, 2, 2, 3, 2, 3, 3, 1, 1, 3, 3, 12, 1, 4});
        if (tot > 400 && op != 0 && op != 17 && op != 8 && op != 12 && op != 25) op = 17;
        if (depth(m[b]) > 6 && (op == 4 || op == 6 || op == 10 || op == 13)) op = 17, a = b;
        bool arr = m[a]->t == V_ARR, map = m[a]->t == V_MAP;
        if (!arr && (op == 4 || op == 5 || op == 6 || op == 7 || op == 8) && s.draw(2)) op = 2;
        if (!map && op == 10 && s.draw(2)) op = 3;
        switch (op) {
        case 0: m[a] = scalar(h[a]); what = H(a) + " = " + vtyped(m[a]); break;
        case 1: handlebars_value_value(h[a], h[b]); m[a] = V(m[b]); what = H(a) + " = " + H(b); break;
        case 2: { size_t cap = s.draw(4); handlebars_value_array(h[a], handlebars_stack_ctor(ctx, cap)); m[a] = varr(); what = H(a) + " = array(" + std::to_string(cap) + ")"; break; }
        case 3: { size_t cap = s.draw(4); handlebars_value_map(h[a], handlebars_map_ctor(ctx, cap)); m[a] = vmap(); what = H(a) + " = map(" + std::to_string(cap) + ")"; break; }
        case 4: if (!arr) continue; { if (m[a].use_count() > 1) shared_mut = true; if (m[b]->t == V_ARR || m[b]->t == V_MAP) nested = true; handlebars_value_array_push(h[a], h[b]); V x = m[b]; { V t = m[a]; } V &n = m[a]; if (a == b) { V y = std::make_shared<Val>(*x); y->a.push_back(x); n = y; } else { own(n); n->a.push_back(x); } what = H(a) + ".push(" + H(b) + ")"; muts++; break; }
        case 5: if (!arr || m[a]->a.empty()) continue; { if (m[a].use_count() > 1) shared_mut = true; size_t j = s.draw(m[a]->a.size()); handlebars_value_array_push(h[a], handlebars_stack_get(handlebars_value_get_stack(h[a]), j)); V x = m[a]->a[j]; own(m[a]); m[a]->a.push_back(x); what = H(a) + ".push(own element " + std::to_string(j) + ")"; muts++; break; }
        case 6: if (!arr) continue; {
            size_t n = m[a]->a.size(), i = s.draw(n + 3); if (m[a].use_count() > 1) shared_mut = true; what = H(a) + "[" + std::to_string(i) + "] = " + H(b);
            bool ok = guard(ctx, err, [&] { handlebars_value_array_set(h[a], i, h[b]); });
            if (ok != (i <= n)) c.fail(what + (ok ? " succeeds on " : " fails on ") + std::to_string(n) + " elements " + err.msg);
            if (ok) { V x = m[b]; if (a == b) { V y = std::make_shared<Val>(*x); if (i == n) y->a.push_back(x); else y->a[i] = x; m[a] = y; } else { own(m[a]); if (i == n) m[a]->a.push_back(x); else m[a]->a[i] = x; } } else errors = true;
            muts++; break; }
        case 7: if (!arr || m[a]->a.empty()) continue; { size_t n = m[a]->a.size(), i = s.draw(n), j = s.draw(n); if (m[a].use_count() > 1) shared_mut = true; handlebars_value_array_set(h[a], i, handlebars_stack_get(handlebars_value_get_stack(h[a]), j)); V x = m[a]->a[j]; own(m[a]); m[a]->a[i] = x; what = H(a) + "[" + std::to_string(i) + "] = own element " + std::to_string(j); muts++; break; }
        case 8: if (!arr) continue; {
            what = H(b) + " = " + H(a) + ".pop()"; if (a == b) continue;
            bool sh = m[a].use_count() > 1, em = m[a]->a.empty(); HV *r = nullptr;
            bool ok = guard(ctx, err, [&] { r = handlebars_stack_pop(handlebars_value_get_stack(h[a]), h[b]); });
            if (em) { if (!ok || r) c.fail(what + " of an empty array gives something"); }
            else if (sh) { if (ok) c.fail(what + " of a shared array succeeds"); errors = true; }
            else if (!ok && !leaks) { what += " (refused: too many holders once)"; errors = true; }
            else { if (!ok || r != h[b].p()) c.fail(what + " fails: " + err.msg); m[b] = m[a]->a.back(); m[a]->a.pop_back(); }
            muts++; break; }
        case 9: { if (!arr) continue; size_t n = m[a]->a.size(), i = s.draw(n + 2); HV *r = handlebars_value_array_find(h[a], i, h[b]); what = H(b) + " = " + H(a) + "[" + std::to_string(i) + "]"; if (!!r != (i < n)) c.fail(what + " found: " + std::to_string(!!r)); if (r) { V x = m[a]->a[i]; m[b] = x; } break; }
        case 10: if (!map) continue; { const std::string &key = s.pick(KEYS); if (m[a].use_count() > 1) shared_mut = true; if (m[b]->t == V_ARR || m[b]->t == V_MAP) nested = true; update(h[a], key, h[b]); V x = m[b]; if (a == b) { V y = std::make_shared<Val>(*x); if (V *e = y->find(key)) *e = x; else y->m.push_back({key, x}); m[a] = y; } else { own(m[a]); if (V *e = m[a]->find(key)) *e = x; else m[a]->m.push_back({key, x}); } what = H(a) + "[" + quote(key) + "] = " + H(b); muts++; break; }
        case 11: if (!map) continue; { const std::string &key = s.pick(KEYS); HV *r; if (s.draw(2)) { HS *ks = mks(ctx, key); handlebars_string_addref(ks); r = handlebars_value_map_find(h[a], ks, h[b]); handlebars_string_delref(ks); } else r = handlebars_value_map_str_find(h[a], key.data(), key.size(), h[b]); what = H(b) + " = " + H(a) + "[" + quote(key) + "]"; V *e = m[a]->find(key); if (!!r != !!e) c.fail(what + " found: " + std::to_string(!!r)); if (r) { V x = *e; m[b] = x; } break; }
        case 12: if (!arr && !map) continue; {                             // changing the holder while iterating over it
            V snap = m[a]; std::string got, want; size_t at = s.draw(3), i = 0; int mode = s.draw(3); what = "iterate " + H(a) + ", at " + std::to_string(at) + (mode == 0 ? " destroy it" : mode == 1 ? " add to it" : " assign " + H(b));
            each(h[a], [&](handlebars_value_iterator *it) {
                if (snap->t == V_MAP) got += quote(sv(it->key)) + ":"; else if (it->index != i) c.fail(what + ": index " + std::to_string(it->index) + " at element " + std::to_string(i)); got += showh(ctx, it->cur) + ",";
                if (i++ == at) {
                    if (mode == 0) { handlebars_value_dtor(h[a]); m[a] = vnull(); }
                    else if (mode == 1) { HVal t; handlebars_value_integer(t, 5); if (arr) { handlebars_value_array_push(h[a], t); own(m[a]); m[a]->a.push_back(vint(5)); } else { update(h[a], "a", t); own(m[a]); if (V *e = m[a]->find("a")) *e = vint(5); else m[a]->m.push_back({"a", vint(5)}); } }
                    else { handlebars_value_value(h[a], h[b]); V x = m[b]; m[a] = x; }
                }
            });
            for (auto &x : snap->a) want += showm(x) + ","; for (auto &x : snap->m) want += quote(x.first) + ":" + showm(x.second) + ",";
            if (got != want) c.eq(what + ": elements seen", got, want);
            muts++; break; }
        case 13: { HVal lv[1]; alignas(16) char two[256]; memset(two, 0, sizeof two); HV *l = (HV *)two; int n = s.range(1, 2); int src[2] = {b, (int)s.draw(N)}; for (int i = 0; i < n; i++) handlebars_value_value(HANDLEBARS_VALUE_ARRAY_AT(l, i), h[src[i]]); handlebars_closure *cl = handlebars_closure_ctor(vm, clo, n, l); for (int i = 0; i < n; i++) handlebars_value_dtor(HANDLEBARS_VALUE_ARRAY_AT(l, i)); V x = std::make_shared<Val>(); x->t = V_LAM; x->lam = L_CLOSURE; for (int i = 0; i < n; i++) x->a.push_back(m[src[i]]); handlebars_value_closure(h[a], cl); m[a] = x; what = H(a) + " = closure over " + H(src[0]) + (n > 1 ? "," + H(src[1]) : ""); break; }
        case 14: if (m[a]->t != V_LAM || m[a]->lam >= L_USER) continue; { HVal arg; int i = s.draw(2); handlebars_value_integer(arg, i); handlebars_options op; memset(&op, 0, sizeof op); HVal rv; HV *r = nullptr; if (!guard(ctx, err, [&] { r = handlebars_value_call(h[a], 1, arg, &op, vm, rv); })) c.fail("calling " + H(a) + " fails: " + err.msg); handlebars_value_value(h[b], r); V x = m[a]->lam == L_HELPER ? vint(77) : m[a]->a[i % m[a]->a.size()]; m[b] = x; what = H(b) + " = " + H(a) + "(" + std::to_string(i) + ")"; break; }
        case 15: if (nuser > 60) continue; { MyUser *u = (MyUser *)handlebars_talloc_zero_size(ctx, sizeof(MyUser)); handlebars_user_init(&u->u, ctx, &U); u->id = nuser; g_user_alive[nuser] = 1; handlebars_value_user(h[a], &u->u); V x = std::make_shared<Val>(); x->t = V_LAM; x->lam = L_USER + nuser++; m[a] = x; what = H(a) + " = user object"; break; }
        case 16: { int *p = (int *)handlebars_talloc_size(ctx, sizeof(int)); *p = nptr; handlebars_ptr *pp = handlebars_ptr_ctor_ex(ctx, "int", p, false); talloc_set_name_const(pp, "struct handlebars_ptr"); handlebars_value_ptr(h[a], pp); V x = std::make_shared<Val>(); x->t = V_LAM; x->lam = L_PTR + nptr++; m[a] = x; what = H(a) + " = pointer"; break; }
        case 17: handlebars_value_dtor(h[a]); m[a] = vnull(); what = "destroy " + H(a); break;
        case 18: if (m[a]->t != V_STR) continue; { handlebars_value_set_flag(h[a], HANDLEBARS_VALUE_FLAG_SAFE_STRING); V x = std::make_shared<Val>(*m[a]); x->safe = true; m[a] = x; what = H(a) + " is a safe string"; break; }
        case 19: if (m[a]->t != V_STR) continue; {                            // an own reference to the string, then changing that
            HS *x = handlebars_value_get_string(h[a]); handlebars_string_addref(x); std::string t = m[a]->s;
            int kind = s.draw(3); if (kind == 0) { x = handlebars_string_append(ctx, x, HBS_STRL("+more")); t += "+more"; } else if (kind == 1) { x = handlebars_string_append_str(ctx, x, handlebars_value_get_string(h[a])); t += m[a]->s; } else { x = handlebars_string_append(ctx, x, HBS_STRL("")); }
            if (s.draw(2)) { HVal t; handlebars_value_value(t, h[a]); }
            handlebars_value_str(h[b], x); handlebars_string_delref(x); m[b] = vstr(t); what = H(b) + " = " + H(a) + (kind == 0 ? " + \"+more\"" : kind == 1 ? " + itself" : " + nothing"); break; }
        case 20: if (arr) { size_t cap = s.draw(6); handlebars_value_array(h[b], handlebars_stack_copy_ctor(handlebars_value_get_stack(h[a]), cap)); V x = std::make_shared<Val>(*m[a]); m[b] = x; } else if (map) { size_t cap = s.draw(9); handlebars_value_map(h[b], handlebars_map_copy_ctor(handlebars_value_get_map(h[a]), cap)); V x = std::make_shared<Val>(*m[a]); m[b] = x; } else continue; what = H(b) + " = copy of " + H(a); break;
        case 21: handlebars_value_convert_ex(h[a], s.draw(2)); what = "convert " + H(a); break;
        case 22: { int n = s.pick(std::vector<int>{10, 100, 260, 300}); if (weight(m[b]) > 3 || s.draw(4)) continue; handlebars_value_array(h[a], handlebars_stack_ctor(ctx, s.draw(2) ? n : 1)); if (a == b) { m[a] = varr(); } V x = m[b]; V y = varr(); if (a == b) { handlebars_value_integer(h[(a + 1) % N], 9); m[(a + 1) % N] = x = vint(9); } HV *src = a == b ? h[(a + 1) % N].p() : h[b].p(); for (int i = 0; i < n; i++) { handlebars_value_array_push(h[a], src); y->a.push_back(x); } m[a] = y; if (n > 50) leaks = false; what = H(a) + " = array of " + std::to_string(n) + " times " + H(b); c.label("more holders than are counted", n > 250); break; }
        case 23: { if (arr && m[a]->a.size()) { size_t j = s.draw(m[a]->a.size()); handlebars_value_value(h[a], handlebars_stack_get(handlebars_value_get_stack(h[a]), j)); V x = m[a]->a[j]; m[a] = x; what = H(a) + " = its own element " + std::to_string(j); } else if (map && m[a]->m.size()) { size_t j = s.draw(m[a]->m.size()); std::string key = m[a]->m[j].first; V x = m[a]->m[j].second; handlebars_value_value(h[a], handlebars_map_str_find(handlebars_value_get_map(h[a]), key.data(), key.size())); m[a] = x; what = H(a) + " = its own member " + quote(key); } else continue; muts++; break; }
        case 24: if (!map || m[a]->m.empty()) continue; { size_t j = s.draw(m[a]->m.size()); std::string key = m[a]->m[j].first; const std::string &to = s.pick(KEYS); if (m[a].use_count() > 1) shared_mut = true; update(h[a], to, handlebars_map_str_find(handlebars_value_get_map(h[a]), key.data(), key.size())); V x = m[a]->m[j].second; own(m[a]); if (V *e = m[a]->find(to)) *e = x; else m[a]->m.push_back({to, x}); what = H(a) + "[" + quote(to) + "] = own member " + quote(key); muts++; break; }
        case 27: {                                                          // setting a part of what is held, perhaps by the same value
            what = H(a) + " = content of " + H(b);
            if (m[b]->t == V_STR) { handlebars_value_str(h[a], handlebars_value_get_string(h[b])); m[a] = vstr(m[b]->s); }
            else if (m[b]->t == V_MAP) { handlebars_value_map(h[a], handlebars_value_get_map(h[b])); m[a] = V(m[b]); }
            else if (m[b]->t == V_ARR) { handlebars_value_array(h[a], handlebars_value_get_stack(h[b])); m[a] = V(m[b]); }
            else continue;
            break; }
        case 26: handlebars_value_helper(h[a], hlp); { V x = std::make_shared<Val>(); x->t = V_LAM; x->lam = L_HELPER; m[a] = x; } what = H(a) + " = helper"; break;
        case 25: {                                                          // stacks not held by a value
            if (bare.empty() || (bare.size() < 3 && !s.draw(4))) { Bare x; x.cap = s.draw(6); x.fixed = s.draw(3) == 2; if (x.fixed) { x.mem = malloc(handlebars_stack_size(x.cap)); x.st = handlebars_stack_init(ctx, (handlebars_stack *)x.mem, x.cap); } else { x.st = handlebars_stack_ctor(ctx, x.cap); x.held = s.draw(2); if (x.held) handlebars_stack_addref(x.st); } what = "stack " + std::to_string(bare.size()) + " of " + std::to_string(x.cap) + (x.fixed ? " in own memory" : x.held ? " held" : ""); bare.push_back(x); break; }
            size_t bi = s.draw(bare.size()); Bare &x = bare[bi]; std::string B = "stack " + std::to_string(bi); bool ok; size_t n = x.m.size();
            switch (s.weighted({8, 4, 3, 2, 2, 2, 2, 2})) {
            case 0: { HV *src = h[b]; V mv = m[b]; what = B + " push " + H(b); if (n && s.draw(4) == 3) { size_t j = s.draw(n); src = handlebars_stack_get(x.st, j); mv = x.m[j]; what = B + " push own element " + std::to_string(j); }
                ok = guard(ctx, err, [&] { x.st = handlebars_stack_push(x.st, src); });
                if (ok == (x.fixed && n >= x.cap)) c.fail(what + (ok ? " beyond its capacity succeeds" : " fails: " + err.msg)); if (ok) x.m.push_back(mv); else { errors = true; } break; }
            case 1: { what = B + " pop to " + H(b); HV *r = nullptr; ok = guard(ctx, err, [&] { r = handlebars_stack_pop(x.st, h[b]); });
                if (!n) { if (!ok || r) c.fail(what + ": an empty stack gives something"); } else if (n <= x.protect) { if (ok) c.fail(what + ": " + std::to_string(n) + " elements of which " + std::to_string(x.protect) + " are protected, yet popped"); errors = true; } else { if (!ok || !r) c.fail(what + " fails: " + err.msg); m[b] = x.m.back(); x.m.pop_back(); } break; }
            case 2: { size_t i = s.draw(n + 2); HV *src = h[b]; V mv = m[b]; what = B + " set " + std::to_string(i) + " to " + H(b); if (n && s.draw(4) == 3) { size_t j = s.draw(n); src = handlebars_stack_get(x.st, j); mv = x.m[j]; what += " (own " + std::to_string(j) + ")"; }
                ok = guard(ctx, err, [&] { x.st = handlebars_stack_set(x.st, i, src); });
                bool want = i < n ? i >= x.protect : i == n && !(x.fixed && n >= x.cap);
                if (ok != want) c.fail(what + (ok ? " succeeds" : " fails") + " with " + std::to_string(n) + " elements, " + std::to_string(x.protect) + " protected");
                if (ok) { if (i == n) x.m.push_back(mv); else x.m[i] = mv; } else { errors = true; } break; }
            case 3: { size_t p = s.draw(n + 1); size_t old = handlebars_stack_protect(x.st, p); what = B + " protect " + std::to_string(p); if (old != x.protect) c.fail(what + ": previous protection " + std::to_string(old) + ", expected " + std::to_string(x.protect)); x.protect = p; break; }
            case 4: { size_t to = s.draw(n + 2); what = B + " truncate to " + std::to_string(to); if (to < x.protect && to < n) continue; handlebars_stack_truncate(x.st, to); if (to < n) x.m.resize(to); break; }
            case 5: { what = B + " save"; x.saves.push_back({handlebars_stack_save(x.st), {n, x.protect}}); x.protect = n; break; }
            case 6: { if (x.saves.empty()) continue; auto sv = x.saves.back(); x.saves.pop_back(); what = B + " restore"; if (n < sv.second.first || (sv.second.first < sv.second.second)) { x.saves.clear(); continue; } handlebars_stack_restore(x.st, sv.first); x.m.resize(sv.second.first); x.protect = sv.second.second; break; }
            case 7: { if (x.fixed || x.held) { what = H(a) + " = copy of " + B; size_t cap = s.draw(8); handlebars_value_array(h[a], handlebars_stack_copy_ctor(x.st, cap)); V y = varr(x.m); m[a] = y; }
                else { what = H(a) + " = " + B; handlebars_stack_protect(x.st, 0); handlebars_value_array(h[a], x.st); V y = varr(x.m); m[a] = y; bare.erase(bare.begin() + bi); bi = 99; } break; }
            }
            if (bi != 99) { Bare &y = bare[bi]; std::string g, w; for (size_t i = 0; i < handlebars_stack_count(y.st); i++) g += showh(ctx, handlebars_stack_get(y.st, i)) + ","; for (auto &e : y.m) w += showm(e) + ","; if (g != w) c.eq(B + " after " + what, g, w); if (handlebars_stack_get(y.st, y.m.size())) c.fail(B + " has an element after the last"); HV *t = handlebars_stack_top(y.st); if (!!t != !y.m.empty() || (t && showh(ctx, t) != showm(y.m.back()))) c.fail(B + ": wrong top after " + what); }
            break; }
        }
        L(what);
        for (int i = 0; i < N; i++) compare(i, "after step " + std::to_string(k) + ": " + what);
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) equal(i, j, "after step " + std::to_string(k) + ": " + what);
        for (int i = 0; i < nuser; i++) if (g_user_alive[i] < 0) c.fail("user object " + std::to_string(i) + " was released twice");
        // observations of one holder
        int i = s.draw(N); V &v = m[i]; HV *x = h[i];
        handlebars_value_type ty = handlebars_value_get_type(x); static const handlebars_value_type T[] = {HANDLEBARS_VALUE_TYPE_NULL, HANDLEBARS_VALUE_TYPE_TRUE, HANDLEBARS_VALUE_TYPE_FALSE, HANDLEBARS_VALUE_TYPE_INTEGER, HANDLEBARS_VALUE_TYPE_FLOAT, HANDLEBARS_VALUE_TYPE_STRING, HANDLEBARS_VALUE_TYPE_ARRAY, HANDLEBARS_VALUE_TYPE_MAP};
        if (v->t != V_LAM && ty != T[v->t]) c.fail("type of " + H(i));
        if (handlebars_value_is_callable(x) != (v->t == V_LAM && v->lam <= L_HELPER)) c.fail(H(i) + " is callable: wrong");
        if (handlebars_value_is_scalar(x) != (v->t != V_LAM && v->t != V_ARR && v->t != V_MAP)) c.fail(H(i) + " is scalar: wrong");
        if (v->t != V_LAM) {
            bool em = v->t == V_STR ? v->s.empty() || v->s == "0" : v->t == V_INT ? v->i == 0 : v->t == V_FLT ? v->d == 0 : v->t == V_ARR ? v->a.empty() : v->t == V_MAP ? v->m.empty() : v->t != V_TRUE;
            if (handlebars_value_is_empty(x) != em || handlebars_value_get_boolval(x) == em) c.fail(H(i) + " is empty: wrong for " + showm(v));
            long cnt = v->t == V_ARR ? (long)v->a.size() : v->t == V_MAP ? (long)v->m.size() : -1; if (handlebars_value_count(x) != cnt) c.fail("count of " + H(i) + " is " + std::to_string(handlebars_value_count(x)) + ", expected " + std::to_string(cnt));
            if (handlebars_value_get_intval(x) != (v->t == V_INT ? v->i : 0) || handlebars_value_get_floatval(x) != (v->t == V_FLT ? v->d : 0)) c.fail("number in " + H(i));
            if (handlebars_value_get_strlen(x) != (v->t == V_STR ? v->s.size() : 0) || !handlebars_value_get_strval(x) == (v->t == V_STR)) c.fail("string in " + H(i));
            if (!has_lam(v)) {
                HS *st = handlebars_value_to_string(x, ctx); std::string w = v->t == V_ARR || v->t == V_MAP || v->t == V_NULL ? "" : vprint_raw(v); if (sv(st) != w) c.eq(H(i) + " as a string", sv(st), w); handlebars_string_delref(st);
                for (int e = 0; e < 2; e++) { HS *ex = handlebars_value_expression(ctx, x, e); if (sv(ex) != vprint(v, e)) c.eq(H(i) + " printed" + (e ? " escaped" : ""), sv(ex), vprint(v, e)); handlebars_talloc_free(ex); }
                if (!has_nul(v)) { char *dm = handlebars_value_dump(x, ctx, 0); std::string g = dm; handlebars_talloc_free(dm); if (g != dumpm(v, 0)) c.eq("dump of " + H(i), g, dumpm(v, 0)); }
            }
        }
        int j = s.draw(N); if (handlebars_value_eq(h[i], h[j]) != same(m[i], m[j])) c.fail(H(i) + " and " + H(j) + " equal: " + std::to_string(handlebars_value_eq(h[i], h[j])) + " for " + showm(m[i]) + " and " + showm(m[j]));
        for (int q = 0; q < N; q++) compare(q, "after looking at " + H(i));
    }
    // destroy in any order
    std::vector<int> order; for (int i = 0; i < N; i++) order.push_back(i); for (int i = N; i > 1; i--) std::swap(order[i - 1], order[s.draw(i)]);
    size_t bn = bare.size(); d += "destroy";
    for (int i : order) { d += " " + H(i); handlebars_value_dtor(h[i]); m[i] = vnull(); for (int q = 0; q < N; q++) compare(q, "after destroying " + H(i)); if (bn && s.draw(2)) { Bare &x = bare[--bn]; if (x.held) handlebars_stack_delref(x.st); else handlebars_stack_dtor(x.st); free(x.mem); x.st = nullptr; x.mem = nullptr; } }
    while (bn) { Bare &x = bare[--bn]; if (x.held) handlebars_stack_delref(x.st); else handlebars_stack_dtor(x.st); free(x.mem); }
    }
    if (leaks) {
        for (int i = 0; i < nuser; i++) if (g_user_alive[i]) c.fail("user object " + std::to_string(i) + " was not released when its last holder was");
        size_t now = held(); if (now != base) c.fail(std::to_string(now - base) + " bytes are still held after the last holder was destroyed");
        c.label("release checked");
    }
    handlebars_vm_dtor(vm);
    if (errors) c.label("refused operations"); if (shared_mut) c.label("a shared container changed"); if (nested) c.label("containers in containers");
    c.nontrivial = muts >= 3 && (shared_mut || nested);
}
static Reg r({"C14", "sequences of up to 40 (thorough: 70) operations on six value holders and three stacks: assignment, arrays, maps, elements of the holder itself, closures, helpers, user objects, pointers, shared strings, iteration with changes, copies, more holders than are counted, protection and saved states of stacks, refused operations; all holders compared with a copy-on-write model after every step, then destroyed in random order and the memory of the context compared with the start; non-trivial: three changes of containers, a shared or nested one among them", run, 250000, 2500000});
