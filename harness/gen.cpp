#include "gen.h"

static const std::vector<std::string> KEYS = {"a", "b", "foo", "bar", "items", "name", "obj", "x", "list", "y_1", "k-2", "Zed"};
static const std::vector<std::string> ODD = {"a b", "0", "12", "a.b", "x/y", "\xc3\xa9t\xc3\xa9", "@at", "#h", "", "if x", "a=b", "&amp", "1st", "x'y", "~t", "(p)", "|", "a\"b"};
static bool plain_id(const std::string &k) {
    if (k.empty() || k == "true" || k == "false" || k == "null" || k == "undefined" || k == "as" || k == "else" || isdigit((unsigned char)k[0])) return false;
    for (unsigned char ch : k) if (!(isalnum(ch) || ch == '_' || ch == '-' || ch == '$' || ch == ':' || ch >= 128)) return false;
    return k[0] != '-' && k.find("this") == std::string::npos;
}
Seg seg(const std::string &name) { Seg g; g.name = name; g.br = !plain_id(name); return g; }
E ex_segs(const std::vector<std::string> &names, int depth, bool data) {
    E e = std::make_shared<Expr>(); e->depth = depth; e->data = data;
    for (auto &n : names) e->parts.push_back(seg(n));
    return e;
}
static const std::vector<std::string> BUILTIN = {"lookup", "if", "each", "with", "unless"};
std::string Gen::key() { if (o.odd_names && pct(o.odd_names)) return s.pick(BUILTIN); return o.odd_keys && pct(12) ? s.pick(ODD) : s.pick(KEYS); }
std::string Gen::str() {
    static const std::vector<std::string> w = {"v", "hello", "A", "0", "", "two words", "x1", "-", "n\nl", "tab\t", "\xc3\xbc\xe2\x82\xac", "00", " ", "false"};
    static const std::vector<std::string> sp = {"<b>", "a&b", "\"q\"", "it's", "`t`", "&amp;", "<>&\"'`", "&lt;x&gt;", "{{no}}", "x<y", "\\", "=", "/"};
    return pct(o.specials) ? s.pick(sp) + (pct(20) ? s.pick(sp) : "") : s.pick(w);
}
V Gen::scalar() {
    switch (s.weighted({40, 20, o.floats ? 6 : 0, 8, 8, 8, o.lambdas ? 8 : 0})) {
    case 0: return vstr(str(), o.safe && pct(25));
    case 1: return vint(s.pick(std::vector<int>{1, 0, 2, -1, 7, 42, 1000000, -2147483647}));
    case 2: return vflt(s.pick(std::vector<double>{0.5, 0.0, -1.25, 3.14159, 1e10, 1e21, 100.0, 1e-7, 123456789.0}));
    case 3: return vbool(true); case 4: return vbool(false); case 5: return vnull();
    default: switch (s.draw(4)) { case 3: return vlam(4); case 0: { V a = value(1); while (a->t == V_LAM) a = vstr("lv"); return vlam(0, a); } case 1: return vlam(1, vstr(s.pick(KEYS))); default: return vlam(2); }
    }
}
V Gen::object(int d, int mink) {
    V m = vmap(); int n = s.range(mink, mink + 4);
    for (int i = 0; i < n; i++) { std::string k = key(); if (!m->find(k)) m->m.push_back({k, value(d - 1)}); }
    return m;
}
V Gen::value(int d) {
    if (d <= 0) return scalar();
    switch (s.weighted({10, 5, 5})) {
    case 0: return scalar();
    case 1: return object(d, s.draw(6) ? 1 : 0);
    default: {
        V a = varr(); int n = s.weighted({2, 3, 4, 4, 1}); if (n == 4) n = 9;
        int kind = s.draw(3);
        for (int i = 0; i < n; i++) a->a.push_back(kind == 0 ? object(d - 1, 1) : kind == 1 ? scalar() : value(d - 1));
        if (n >= 2 && pct(15)) a->a[n - 1] = a->a[0];          // the same object twice
        return a;
    }
    }
}
V Gen::data() {
    V v = object(3, 3);
    // make sure there is something to iterate and to enter
    V arr = varr(), obj = object(2, 2); int n = s.range(1, 3);
    for (int i = 0; i < n; i++) arr->a.push_back(object(2, 1));
    if (!v->find("items")) v->m.push_back({"items", arr});
    if (!v->find("obj")) v->m.push_back({"obj", obj});
    if (pct(15) && !v->find("name")) v->m.push_back({"name", v->m[0].second});
    if (o.long_list && s.chance(o.long_list, 1000)) { V l = varr(); int k = s.range(250, 530); bool mp = s.draw(4) == 0; if (mp) l = vmap(); V x = scalar(); for (int i = 0; i < k; i++) if (mp) l->m.push_back({"k" + std::to_string(i), i % 7 ? x : vint(i)}); else l->a.push_back(i % 7 ? x : vint(i)); std::string nm = s.draw(2) ? "items" : "list"; if (V *f = v->find(nm)) *f = l; else v->m.push_back({nm, l}); }
    return v;
}
E Gen::literal() {
    switch (s.weighted({6, 5, 2, 1, 1})) {
    case 0: { static const std::vector<std::string> L = {"s", "two words", "", "a'b", "<x>", "a&b", "0", "x.y", "\xc3\xa9", "a\\b", "}} x", "it|s", "a\"q"}; return ex_str(s.pick(L), s.draw(2) ? '\'' : '"'); }
    case 1: { static const std::vector<std::string> L = {"1", "0", "12", "-3", "1.5", "-0.25", "100", "2.0", "2147483648", "5000000000", "-4294967295", "9007199254740993", "9223372036854775807", "99999999999999999999", "-0", "0.0", "255", "65536", "-1"}; return ex_num(s.pick(L)); }
    case 2: return ex_bool(s.draw(2));
    case 3: { E e = std::make_shared<Expr>(); e->k = E_NUL; return e; }
    default: { E e = std::make_shared<Expr>(); e->k = E_UNDEF; return e; }
    }
}
static void sub_paths(const V &v, std::vector<std::string> &cur, int d, std::vector<std::pair<std::vector<std::string>, V>> &out) {
    if (out.size() > 80) return;
    if (v->t == V_MAP) { for (auto &e : v->m) { cur.push_back(e.first); out.push_back({cur, e.second}); if (d > 1) sub_paths(e.second, cur, d - 1, out); cur.pop_back(); } }
    else if (v->t == V_ARR) for (size_t i = 0; i < v->a.size() && i < 4; i++) { cur.push_back(std::to_string(i)); out.push_back({cur, v->a[i]}); if (d > 1) sub_paths(v->a[i], cur, d - 1, out); cur.pop_back(); }
}
static bool wanted(const V &v, int want) { return want == 0 || (v->t == V_LAM && v->lam == 4) || (want == 1 && (v->t == V_ARR || v->t == V_MAP)) || (want == 2 && v->t == V_MAP) || (want == 3 && v->t == V_ARR); }
E Gen::path(int want, V *val) {
    V dummy; if (!val) val = &dummy;
    *val = vnull();
    E e = std::make_shared<Expr>();
    std::vector<std::pair<std::string, V>> bps;
    for (size_t i = st.size(); i-- > 0;) for (auto &b : st[i].bp) bps.push_back(b);
    bool each = false; for (auto &x : st) each |= x.each;
    int mode = s.weighted({50, st.size() > 1 ? 18 : 2, bps.empty() ? 0 : 25, o.datavars ? (each ? 12 : 6) : 0, 6});
    V base;
    if (mode == 4) {                              // the context itself
        switch (s.draw(3)) { case 0: e->thisp = true; break; case 1: e->dot = true; break; default: if (st.size() > 1) e->depth = 1; else e->thisp = true; }
        if (e->depth && s.draw(2)) e->depth = s.range(1, 2);
        size_t dd = e->depth; *val = dd < st.size() ? st[st.size() - 1 - dd].ctx : vnull();
        return e;
    }
    if (mode == 2) {
        auto &b = s.pick(bps);
        e->parts.push_back(seg(b.first)); base = b.second; *val = base;
        if (!(base->t == V_MAP || base->t == V_ARR) || s.chance(1, 3)) { if (pct(o.missing)) e->parts.push_back(seg(key())); return e; }
    } else if (mode == 3) {
        e->data = true;
        std::vector<std::string> nm = {"root", "index", "key", "first", "last", "nope"};
        for (auto &d : o.dvars) { nm.push_back(d); nm.push_back(d); }
        std::string n = s.pick(nm);
        if (n != "root") { e->parts.push_back(seg(n)); if (each && pct(25)) e->depth = s.range(1, 2); if (pct(6)) e->parts.push_back(seg(key())); *val = vstr("0"); return e; }
        e->parts.push_back(seg("root")); base = st[0].ctx;
    } else {
        if (mode == 1) e->depth = s.range(1, st.size() > 1 ? std::min<int>(3, st.size()) : 1);
        base = (size_t)e->depth < st.size() ? st[st.size() - 1 - e->depth].ctx : vnull();
        if (!e->depth && pct(10)) { if (s.draw(2)) e->thisp = true; else e->dot = true; }
        else if (e->depth && pct(8)) e->thisp = true;
    }
    std::vector<std::pair<std::vector<std::string>, V>> c; std::vector<std::string> cur;
    sub_paths(base, cur, s.draw(4) ? 2 : 4, c);
    std::vector<std::pair<std::vector<std::string>, V>> good;
    for (auto &x : c) if (wanted(x.second, want)) good.push_back(x);
    if (good.empty()) good = c;
    std::vector<std::string> names;
    if (good.empty()) { names.push_back(key()); }
    else { auto &x = s.pick(good); names = x.first; *val = x.second; }
    if (pct(o.missing)) {                        // one wrong step
        switch (s.draw(4)) {
        case 0: names.push_back(s.draw(2) ? key() : std::to_string(s.range(0, 3))); break;
        case 1: names[s.draw(names.size())] = key(); break;
        case 2: names[s.draw(names.size())] = "nokey"; break;
        default: names.insert(names.begin() + s.draw(names.size()), key()); break;
        }
        *val = vnull();
    }
    for (auto &n : names) {
        Seg g = seg(n); if (!g.br && pct(6)) g.br = true;
        if (e->parts.size() && pct(12)) g.sep = '/';
        e->parts.push_back(g);
    }
    if (e->thisp && e->parts.size()) e->parts[0].sep = pct(70) ? '.' : '/';
    // what the language reads differently: names of helpers and builtins, index segments with leading zeros
    for (auto &p : e->parts) if (p.name.size() > 1 && p.name[0] == '0') p.name = "1";
    return e;
}
E Gen::expr(int want, int d, V *val) {
    V dummy; if (!val) val = &dummy;
    if (o.literals && want == 0 && pct(20)) { *val = vstr("s"); return literal(); }
    if (o.subexprs && d > 0 && pct(want ? 6 : 14)) {
        if (o.lookup && pct(40)) {
            Call c; c.head = ex_path("lookup"); V a; c.params.push_back(path(1, &a));
            c.params.push_back(a->t == V_ARR ? ex_num(std::to_string(s.range(0, 3))) : a->t == V_MAP && a->m.size() ? ex_str([&] { std::string k = a->m[s.draw(a->m.size())].first; return k.find_first_of("\"\\") == std::string::npos ? k : std::string("a"); }()) : path(0, nullptr));
            *val = vnull();
            if (a->t == V_MAP && a->m.size() && c.params[1]->k == E_STR) { V *f = a->find(c.params[1]->s); if (f) *val = *f; }
            return ex_sub(c);
        }
        if (!o.helpers.empty()) { *val = vnull(); return ex_sub(call_of(s.pick(o.helpers), 0, 2, d - 1)); }
    }
    return path(want, val);
}
Call Gen::call_of(const std::string &name, int minp, int maxp, int d) {
    Call c; c.head = ex_segs({name});
    int n = s.range(minp, maxp);
    for (int i = 0; i < n; i++) c.params.push_back(expr(0, d, nullptr));
    if (pct(30)) { int h = s.range(1, 3); for (int i = 0; i < h; i++) { static const std::vector<std::string> H = {"h", "foo", "x", "a", "includeZero", "k-1"}; c.hash.push_back({s.pick(H), expr(0, d, nullptr)}); } }
    return c;
}
std::string Gen::tagws() {
    if (!o.ws) return pct(8) ? " " : "";
    switch (s.weighted({20, 3, 1, o.one_line_tags ? 0 : 1})) { case 1: return " "; case 2: return "\t "; case 3: return " \n "; default: return ""; }
}
void Gen::strips(const N &n) {
    n->ws = tagws();
    if (!o.strips) return;
    auto one = [&](Strip &x) { if (pct(14)) x.l = true; if (pct(14)) x.r = true; };
    one(n->open); one(n->inv); one(n->close);
}
std::string Gen::text() {
    static const std::vector<std::string> W = {"x", "text", "-", ".", "<p>", "&", "'", "1", ",", "=", "[", "é", "}", "\"", "|"};
    std::string t;
    if (!o.ws) { int n = s.range(1, 2); for (int i = 0; i < n; i++) t += s.pick(W); if (pct(12)) t += " "; if (pct(8)) t += "\n"; if (pct(4)) t = "\n  " + t; }
    else {
        static const std::vector<std::string> S = {" ", "\n", "\n  ", "  ", "\n\n", "\t", "\r\n", " \n", "\n\t", "\r", "\v"};
        int n = s.range(1, 4);
        for (int i = 0; i < n; i++) {
            if (s.draw(5) < 3) t += s.weighted({12, 1}) ? S[s.draw(S.size())] : S[s.draw(5)];
            else if (o.literal_braces && pct(15) && (t.empty() || t.back() != '\\')) t += s.pick(std::vector<std::string>{"{{lit}}", "{{#no}} ", "{{{q}}} ", "{ ", "\\", "a\\b", "\\\\"});
            else t += s.pick(W);
        }
    }
    if (t[0] == '}') t = "x" + t;
    return t;
}
void Gen::block_common(const N &n, int d, const V &ctx, bool iter, bool bpok, const V &) {
    strips(n);
    Sc sc; sc.ctx = ctx; sc.each = iter;
    if (bpok && o.bparams && pct(35)) {
        static const std::vector<std::string> B = {"p", "q", "foo", "it", "a", "r"};
        int k = s.range(1, 2); std::vector<V> vals = {ctx, vint(0)};
        for (int i = 0; i < k; i++) { std::string b = o.odd_names && pct(8) ? s.pick(BUILTIN) : s.pick(B); n->bp.push_back(b); sc.bp.push_back({b, i < 2 ? vals[i] : vnull()}); }
    }
    bool same = st.size() && st.back().ctx == ctx && sc.bp.empty();
    if (same) { bool e = st.back().each; st.back().each |= iter; n->prog = body(d - 1); st.back().each = e; }
    else { st.push_back(sc); n->prog = body(d - 1); st.pop_back(); }
    if (pct(35)) {
        n->has_inv = true;
        if (o.chains && pct(40) && d > 0) {
            N b = std::make_shared<Node>(); b->k = N_BLOCK;
            V v; static const std::vector<std::string> C = {"if", "unless", "with", "each", ""};
            const std::string &h = C[s.weighted({8, 2, 2, 2, 2})];
            if (h.empty()) { b->call.head = path(0, &v); }
            else { b->call.head = ex_segs({h}); b->call.params.push_back(expr(h == "each" ? 1 : 0, 1, &v)); }
            V nc = st.back().ctx;
            if (h == "with") nc = v; if (h == "each") nc = v->t == V_ARR && v->a.size() ? v->a[0] : v->t == V_MAP && v->m.size() ? v->m[0].second : vnull();
            block_common(b, d - 1, nc, h == "each", h == "with" || h == "each", v);
            b->close = Strip();
            n->chain = true; n->inverse.push_back(b);
        } else { n->caret = pct(25); n->inverse = body(d - 1); }
    }
}
static N with_call(NK k, Call c) { N n = std::make_shared<Node>(); n->k = k; n->call = c; return n; }
N Gen::stmt(int d) {
    left--;
    bool deep = d > 0 && left > 0, hp = !o.helpers.empty();
    int k = s.weighted({o.text, o.must, o.triple, o.amp, o.comment, deep ? o.w_if : 0, deep ? o.w_unless : 0, deep ? o.w_each : 0, deep ? o.w_with : 0, deep ? o.section : 0, deep ? o.inv : 0,
                        o.pnames.empty() ? 0 : o.partial, deep && o.pnames.size() ? o.pblock : 0, deep ? o.raw : 0, hp ? o.hcall : 0, hp && deep ? o.hblock : 0, o.lookup, o.pbref});
    switch (k) {
    case 0: return nd_text(text());
    case 1: case 2: case 3: {
        Call c;
        if (o.literals && pct(4)) { c.head = literal(); if (c.head->k == E_STR && (c.head->s.empty() || c.head->s.find_first_of(".\\") != std::string::npos)) c.head = ex_num("12"); }
        else c.head = path(0, nullptr);
        // a block parameter is not called whatever it is given
        if (c.head->k == E_PATH && c.head->parts.size() == 1 && !c.head->data && !c.head->depth && !c.head->thisp && !c.head->dot && pct(10)) for (auto &x : st) for (auto &b : x.bp) if (b.first == c.head->parts[0].name) { c.params = {expr(0, 1, nullptr)}; goto params; }
        params:
        N n = with_call(k == 1 ? N_MUST : k == 2 ? N_TRIPLE : N_AMP, c); strips(n); return n;
    }
    case 4: {
        N n = std::make_shared<Node>(); n->k = N_COMMENT;
        static const std::vector<std::string> C = {" c ", "note", "", " a -- b ", " {{x}} ", " multi\nline ", " }} ", "-", "#x", " a > b "};
        n->text = s.pick(C); n->longc = s.draw(2) || n->text.find("}}") != std::string::npos || n->text.find("--") != std::string::npos;
        if (o.one_line_tags && n->text.find('\n') != std::string::npos) n->text = "c";
        if (!n->longc && n->text == "-") n->text = "m";
        if (n->longc && (n->text.empty() || n->text == "-")) n->text = " ";
        strips(n); n->ws.clear(); return n;
    }
    case 5: case 6: {
        N n = with_call(N_BLOCK, Call()); n->call.head = ex_segs({k == 5 ? "if" : "unless"}); n->call.params.push_back(expr(0, 1, nullptr));
        if (pct(10)) n->call.hash.push_back({"includeZero", pct(70) ? ex_bool(true) : expr(0, 0, nullptr)});
        block_common(n, d, st.back().ctx, false, false, nullptr); return n;
    }
    case 7: {
        V v; N n = with_call(N_BLOCK, Call()); n->call.head = ex_segs({"each"}); n->call.params.push_back(expr(1, 1, &v));
        V el = v->t == V_ARR && v->a.size() ? v->a[0] : v->t == V_MAP && v->m.size() ? v->m[0].second : vnull();
        block_common(n, d, el, true, true, v); return n;
    }
    case 8: { V v; N n = with_call(N_BLOCK, Call()); n->call.head = ex_segs({"with"}); n->call.params.push_back(expr(2, 1, &v)); block_common(n, d, v, false, true, v); return n; }
    case 9: case 10: {
        V v; N n = with_call(k == 9 ? N_BLOCK : N_INVBLOCK, Call()); n->call.head = path(s.draw(2), &v);
        V c = st.back().ctx; if (k == 9) { if (v->t == V_ARR) c = v->a.size() ? v->a[0] : vnull(); else if (v->t != V_TRUE) c = v; }
        block_common(n, d, c, v->t == V_ARR, v->t == V_ARR, v);
        // inverted sections run their program when the value is empty
        return n;
    }
    case 11: case 12: {
        N n = with_call(k == 11 ? N_PARTIAL : N_PBLOCK, Call());
        std::string nm = pct(o.missing_partial) ? "nopartial" : s.pick(o.pnames);
        int how = s.weighted({10, 2, o.dyn_partials ? 2 : 0});
        if (how == 2 && k == 11 && o.lookup) { Call l; l.head = ex_path("lookup"); l.params = {ex_path("@root"), ex_str("pn")}; l.params[0] = ex_segs({"root"}, 0, true); n->call.head = ex_sub(l); }
        else {
            bool num = nm.find_first_not_of(nm[0] == '1' ? "0123456789." : "0123456789", nm[0] == '-' && nm.size() > 1) == std::string::npos;
            if (how == 1 || !(plain_id(nm) || num || nm.find('/') != std::string::npos)) n->call.head = ex_str(nm, s.draw(2) ? '\'' : '"');
            else if (num) n->call.head = ex_num(nm);
            else { std::vector<std::string> parts; std::string cur; for (char ch : nm + "/") if (ch == '/') { parts.push_back(cur); cur.clear(); } else cur += ch; n->call.head = ex_segs(parts); for (auto &p : n->call.head->parts) p.sep = '/'; }
        }
        if (pct(35)) n->call.params.push_back(expr(2, 1, nullptr));
        if (o.partial_hash && pct(30)) { int h = s.range(1, 2); for (int i = 0; i < h; i++) { static const std::vector<std::string> H = {"foo", "x", "a", "name", "h1"}; n->call.hash.push_back({s.pick(H), expr(0, 1, nullptr)}); } }
        strips(n);
        if (k == 12) { bool o2 = in_pblock; n->prog = body(d - 1); in_pblock = o2; }
        return n;
    }
    case 13: {
        N n = with_call(N_RAW, Call());
        static const std::vector<std::string> C = {"raw", " {{x}} ", "", "a\n{{#if}}\nb", " <b>&", "{{{y}}} ", "\n  two\n lines\n"};
        n->text = s.pick(C);
        if (hp && pct(70)) n->call = call_of(s.pick(o.helpers), 0, 1, 0); else n->call.head = path(0, nullptr);
        if (n->call.head->dot || n->call.head->thisp || n->call.head->depth || n->call.head->data) n->call.head = ex_segs({"name"});
        n->call.hash.clear();
        if (n->call.head->parts.size() != 1 || n->call.head->parts[0].br) n->call.head = ex_segs({"name"});
        return n;
    }
    case 14: { static const NK K[] = {N_MUST, N_TRIPLE, N_AMP}; N n = with_call(K[s.weighted({5, 2, 1})], call_of(s.pick(o.helpers), 0, 3, 2)); strips(n); return n; }
    case 15: {
        N n = with_call(N_BLOCK, call_of(s.pick(o.helpers), 0, 2, 1)); V v = st.back().ctx;
        if (pct(12)) n->k = N_INVBLOCK;
        block_common(n, d, v, false, true, v); return n;
    }
    case 16: {
        V v; Call c; c.head = ex_path("lookup"); c.params.push_back(path(1, &v));
        if (v->t == V_ARR && pct(70)) c.params.push_back(ex_num(std::to_string(s.range(0, 3)))); else if (v->t == V_MAP && v->m.size() && pct(80)) { std::string kk = v->m[s.draw(v->m.size())].first; if (kk.find_first_of("\"\\") != std::string::npos) kk = "a"; c.params.push_back(ex_str(kk)); } else c.params.push_back(path(0, nullptr));
        N n = with_call(N_MUST, c); strips(n); return n;
    }
    default: { N n = with_call(N_PARTIAL, Call()); n->call.head = ex_segs({"partial-block"}, 0, true); if (pct(20)) n->call.params.push_back(expr(2, 0, nullptr)); strips(n); return n; }
    }
}
Body Gen::body(int d, bool top) {
    Body b;
    int n = top ? s.range(2, 7) : s.range(0, 4);
    for (int i = 0; i < n && left > 0; i++) {
        b.push_back(stmt(d));
        // a backslash directly before a literal mustache cannot be written
        if (i && b[i]->k == N_TEXT && b[i - 1]->k == N_TEXT && b[i - 1]->text.size() && b[i - 1]->text.back() == '\\') b[i]->text = "x" + b[i]->text;
    }
    return b;
}
Body gen_template(Gen &g, const V &data) { g.st.clear(); Gen::Sc sc; sc.ctx = data; g.st.push_back(sc); g.left = g.o.nodes; return g.body(g.o.depth, true); }
void label_feats(Case &c, const Interp &in) { for (auto &f : in.feat) c.label(f.first); }

// many blocks in one another, each naming its value, with references from the innermost to all of them
static N tower(Src &s, const V &data) {
    std::vector<std::string> keys, lists; std::vector<std::string> names;
    for (auto &e : data->m) {
        if (!plain_id(e.first)) continue;
        if (e.second->t == V_MAP && e.second->m.size()) keys.push_back(e.first);
        if (e.second->t == V_STR && e.second->s.size()) keys.push_back(e.first);
        if (e.second->t == V_ARR && e.second->a.size() && e.second->a.size() <= 2) lists.push_back(e.first);
    }
    if (keys.empty()) return nullptr;
    int n = s.range(9, 15), loops = 0; std::vector<N> lv;
    for (int i = 0; i < n; i++) {
        bool each = lists.size() && loops < 3 && s.chance(1, 4); loops += each;
        N b = std::make_shared<Node>(); b->k = N_BLOCK; b->call.head = ex_segs({each ? "each" : "with"});
        b->call.params.push_back(ex_segs({"root", s.pick(each ? lists : keys)}, 0, true));
        b->bp.push_back("v" + std::to_string(i)); names.push_back(b->bp[0]);
        if (each && s.draw(2)) { b->bp.push_back("i" + std::to_string(i)); names.push_back(b->bp[1]); }
        lv.push_back(b);
    }
    Body in;
    for (int i = 0, k = s.range(4, 9); i < k; i++) {
        N m; std::string sub; if (data->m.size()) sub = s.pick(data->m).first; if (!plain_id(sub)) sub = "name";
        switch (s.weighted({5, 3, 2, 2})) {
        case 0: m = nd_must(ex_segs({names[s.draw(names.size())]})); break;
        case 1: m = nd_must(ex_segs({names[s.draw(names.size())], sub})); break;
        case 2: m = nd_must(ex_segs({sub}, s.range(0, n + 1))); break;
        default: m = nd_must(ex_segs({s.draw(2) ? "index" : "key"}, s.range(0, n + 1), true)); break;
        }
        in.push_back(m); in.push_back(nd_text(","));
    }
    for (int i = n; i--;) { lv[i]->prog = in; in = {lv[i]}; }
    return in[0];
}
void gen_case(Src &s, GenOpt o, unsigned long flags, TCase &t) {
    if (flags & F_COMPAT) o.one_line_tags = true;
    Gen g(s, o);
    t.data = g.data();
    for (auto &e : o.extra) if (!t.data->find(e.first)) t.data->m.push_back(e);
    t.in.flags = t.r.flags = flags;
    if (!o.dvars.empty()) { t.in.vmdata = vmap(); for (auto &d : o.dvars) t.in.vmdata->m.push_back({d, s.draw(2) ? g.object(2, 2) : g.scalar()}); }
    if (!o.pnames.empty() && o.dyn_partials && !t.data->find("pn")) t.data->m.push_back({"pn", vstr(s.pick(o.pnames))});
    t.body = gen_template(g, t.data);
    if (o.long_list) for (auto &e : t.data->m) if (e.second->a.size() + e.second->m.size() >= 250) {        // its positions
        auto at = [](const char *n) { E x = ex_path(n); x->data = true; return x; };
        Call c, f; c.head = ex_path("each"); c.params = {ex_path(e.first)}; f.head = ex_path("if"); f.params = {at(s.draw(2) ? "last" : "first")};
        t.body.push_back(nd_block(c, {nd_must(at("index")), nd_text(":"), nd_must(at("key")), nd_block(f, {nd_text("!")}), nd_text(" ")}));
    }
    if (o.tower && s.chance(o.tower, 1000)) { N w = tower(s, t.data); if (w) t.body.push_back(w); }
    for (size_t i = 0; i < o.pnames.size(); i++) {
        GenOpt po = o; po.nodes = 6; po.depth = 2; po.pbref = o.pblock ? o.pbref + 3 : 0;
        po.partial = po.pblock = 0;
        // partials may call the partials before them, and (guarded by data running out) themselves
        po.pnames.assign(o.pnames.begin(), o.pnames.begin() + i);
        if (i) { po.partial = 2; po.pblock = o.pblock ? 1 : 0; }
        po.missing_partial = 1;
        Gen pg(s, po);
        V ctx = t.data;
        if (s.chance(1, 2)) { std::vector<V> m; for (auto &e : t.data->m) { if (e.second->t == V_MAP) m.push_back(e.second); if (e.second->t == V_ARR) for (auto &x : e.second->a) if (x->t == V_MAP) m.push_back(x); } if (m.size()) ctx = s.pick(m); }
        Gen::Sc root; root.ctx = ctx; pg.st.push_back(root);
        if (s.chance(1, 3)) { Gen::Sc z; z.ctx = t.data; pg.st.insert(pg.st.begin(), z); }
        pg.left = po.nodes;
        Body pb = s.chance(1, 12) ? Body() : pg.body(po.depth, true);
        t.in.partials.push_back({o.pnames[i], pb});
        t.r.partials.push_back({o.pnames[i], body_src(pb)});
    }
    t.in.helpers = t.r.helpers = o.helpers;
    t.r.tmpl = body_src(t.body); t.r.data = t.data; t.r.vmdata = t.in.vmdata;
}
std::string describe(const TCase &t) {
    std::string d = "template: " + quote(t.r.tmpl) + "\n flags: " + flags_str(t.r.flags) + (t.r.modonly ? " (not on the machine)" : t.r.vmonly ? " (on the machine only: " + flags_str(t.r.vmonly) + ")" : "") + "\n data: " + vjson(t.data);
    if (t.in.vmdata) d += "\n data variables: " + vjson(t.in.vmdata);
    for (auto &p : t.r.partials) d += "\n partial " + quote(p.first) + ": " + quote(p.second);
    if (!t.r.helpers.empty()) { d += "\n helpers:"; for (auto &h : t.r.helpers) d += " " + h; }
    if (!t.in.known.empty()) { d += "\n known helpers:"; for (auto &h : t.in.known) d += " " + h; }
    return d;
}
Out compare(Case &c, TCase &t) {
    c.desc = describe(t);
    Out want = t.in.run(t.body, t.data);
    if (want.err.num == -100) c.discard(want.err.msg);
    label_feats(c, t.in);
    std::vector<const char *> kn; for (auto &k : t.in.known) kn.push_back(k.c_str()); kn.push_back(nullptr);
    t.r.known = t.in.known.empty() ? nullptr : kn.data();
    g_calls.clear();
    Out got = render(t.r);
    t.r.known = nullptr;
    if (want.ok != got.ok || (want.ok ? want.out != got.out : want.err.num != got.err.num || want.err.msg != got.err.msg)) c.eq("rendering", got.str(), want.str());
    if (!t.r.helpers.empty() && want.err.num != HANDLEBARS_STACK_OVERFLOW) {
        std::string a, b; for (auto &x : g_calls) a += x + "\n"; for (auto &x : t.in.calls) b += x + "\n";
        c.eq("helper calls", a, b);
    }
    return want;
}
