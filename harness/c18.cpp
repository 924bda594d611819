// C18: JSON and YAML documents against the native values they denote
#include "gen.h"
#include <json.h>
#include <algorithm>
extern "C" {
#include "handlebars_json.h"
#include "handlebars_yaml.h"
}
static std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); std::string o = b; if (o.find_first_of(".e") == std::string::npos) o += ".0"; return o; }
static void utf8(std::string &o, unsigned cp) { if (cp < 0x80) o += (char)cp; else if (cp < 0x800) { o += (char)(0xc0 | cp >> 6); o += (char)(0x80 | (cp & 63)); } else if (cp < 0x10000) { o += (char)(0xe0 | cp >> 12); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); } else { o += (char)(0xf0 | cp >> 18); o += (char)(0x80 | (cp >> 12 & 63)); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); } }
static std::vector<unsigned> points(const std::string &s) { std::vector<unsigned> r; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; unsigned cp = n == 1 ? c : c & (0xff >> (n + 1)); for (int k = 1; k < n; k++) cp = cp << 6 | (s[i + k] & 63); r.push_back(cp); i += n; } return r; }
static std::string anystr(Src &s, bool key) {
    static const std::vector<std::string> W = {"x", "true", "null", "12", "0", "-3.5", "1e3", "a b", " lead", "trail ", "k: v", "# no", "a #b", "- i", "?", "~", "{", "}", "[", "]", ",", "&a", "*a", "!t", "|", ">", "%", "@", "`", "'", "\"", "\\", "\n", "a\nb\n", "\n\n", "\t", "\r", "<b>", "&amp;", "=", "nan", "inf", "0x1F", "1_0", "yes", "<<", ".5", "+1", "010", ":", "é", "ü€", "\xf0\x9f\x98\x80", "\x01", "\x1f", "\x7f", "/", "\b\f", "---", "..."};
    std::string o; for (int n = s.weighted({1, 6, 3, 2}); n > 0; n--) { if (s.draw(10) == 9) { static const unsigned R[][2] = {{1, 0x7e}, {0xa1, 0x7ff}, {0x800, 0xd7ff}, {0xe000, 0xfffd}, {0x10000, 0x10ffff}}; int k = s.draw(5); utf8(o, R[k][0] + s.draw(R[k][1] - R[k][0] + 1)); } else if (!key && s.draw(25) == 24) o += '\0'; else o += s.pick(W); }
    if (s.draw(60) == 59) { int n = s.range(20, 300); while ((int)o.size() < n) o += "long "[o.size() % 5]; if (o.back() == ' ') o += 'x'; }
    return o;
}
static V anyval(Src &s, int d, std::vector<V> &pool) {
    if (pool.size() && s.draw(12) == 11) return s.pick(pool);
    switch (d <= 0 ? s.draw(6) : s.weighted({2, 1, 1, 4, 3, 7, 4, 4})) {
    case 0: return vnull(); case 1: return vbool(true); case 2: return vbool(false);
    case 3: return vint(s.pick(std::vector<long>{0, 1, -1, 42, 2147483647, 2147483648L, -2147483649L, 9223372036854775807L, -9223372036854775807L - 1, 1000000, 9007199254740993L}));
    case 4: return vflt(s.draw(3) ? s.pick(std::vector<double>{0.5, -0.0, 0.0, 1.0, 3.14159, -2.5e-7, 1e21, 1e20, 123456789012345680.0, 1.7976931348623157e308, 5e-324, 0.1, 100}) : (double)(long)s.draw(1u << 31) / (double)(1 + s.draw(1000)));
    case 5: return vstr(anystr(s, false));
    case 6: { V v = varr(); for (int n = s.draw(5); n > 0; n--) v->a.push_back(anyval(s, d - 1, pool)); pool.push_back(v); return v; }
    default: { V v = vmap(); for (int n = s.draw(5); n > 0; n--) { std::string k = anystr(s, true); if (!v->find(k)) v->m.push_back({k, anyval(s, d - 1, pool)}); } pool.push_back(v); return v; }
    }
}
static int depth(const V &v) { int d = 0; for (auto &x : v->a) d = std::max(d, depth(x)); for (auto &x : v->m) d = std::max(d, depth(x.second)); return d + 1; }
static size_t weight(const V &v) { size_t n = 1; for (auto &x : v->a) n += weight(x); for (auto &x : v->m) n += weight(x.second); return n; }
static bool nulkey(const V &v) { for (auto &x : v->a) if (nulkey(x)) return true; for (auto &x : v->m) if (x.first.find('\0') != std::string::npos || nulkey(x.second)) return true; return false; }

// ---- JSON ---------------------------------------------------------------------------------------
static std::string js(Src &s, const std::string &x) {
    std::string o = "\""; char b[16];
    for (unsigned cp : points(x)) {
        const char *e = cp == '"' ? "\\\"" : cp == '\\' ? "\\\\" : cp == '\n' ? "\\n" : cp == '\r' ? "\\r" : cp == '\t' ? "\\t" : cp == '\b' ? "\\b" : cp == '\f' ? "\\f" : cp == '/' && s.draw(2) ? "\\/" : nullptr;
        if (e && s.draw(4)) o += e;
        else if (e || cp < 0x20 || (s.draw(12) == 11 && (cp & 0xf800) != 0xd800)) { // json-c 0.17 misreads an escaped pair whose low sixteen bits look like a surrogate
            if (cp == '/' && e) o += e; else if (cp >= 0x10000) { snprintf(b, 16, "\\u%04x\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff)); o += b; } else { snprintf(b, 16, s.draw(2) ? "\\u%04x" : "\\u%04X", cp); o += b; } }
        else utf8(o, cp);
    }
    return o + "\"";
}
static std::string ws(Src &s, int w) { std::string o; if (w) for (int n = s.weighted({4, 2, 1}); n > 0; n--) o += " \n\t\r"[s.draw(4)]; return o; }
static std::string json(Src &s, const V &v, int w) {
    switch (v->t) {
    case V_NULL: return "null"; case V_TRUE: return "true"; case V_FALSE: return "false"; case V_INT: return std::to_string(v->i);
    case V_FLT: { std::string o = num(v->d); if (s.draw(3) == 0) std::replace(o.begin(), o.end(), 'e', 'E'); return o; }
    case V_STR: return js(s, v->s);
    case V_ARR: { std::string o = "[" + ws(s, w); bool f = true; for (auto &x : v->a) { if (!f) o += "," + ws(s, w); f = false; o += json(s, x, w) + ws(s, w); } return o + "]"; }
    default: { std::string o = "{" + ws(s, w); bool f = true; for (auto &x : v->m) { if (!f) o += "," + ws(s, w); f = false; o += js(s, x.first) + ws(s, w) + ":" + ws(s, w) + json(s, x.second, w) + ws(s, w); } return o + "}"; }
    }
}
// ---- YAML ---------------------------------------------------------------------------------------
static bool plain_ok(const std::string &x) {
    if (x.empty() || !isalpha((unsigned char)x[0]) || x.back() == ' ') return false;
    for (char ch : x) if (!isalnum((unsigned char)ch) && ch != '_' && ch != ' ' && ch != '-' && ch != '/' && ch != '.') return false;
    static const char *R[] = {"null", "true", "false", "yes", "no", "on", "off", "y", "n", "nan", "inf", "infinity"}; std::string l = x; for (auto &ch : l) ch = tolower(ch); for (auto r : R) if (l == r) return false;
    return true;
}
static bool printable(const std::string &x) { for (unsigned cp : points(x)) if (cp < 0x20 || cp == 0x7f || (cp >= 0x80 && cp < 0xa0) || cp == 0x2028 || cp == 0x2029 || cp == 0xfeff || cp == 0xfffe || cp == 0xffff || cp >= 0x10000) return false; return true; }
static std::string ydq(Src &s, const std::string &x) {
    std::string o = "\""; char b[16];
    for (unsigned cp : points(x)) {
        static const char *E = "\0a\ab\bt\tn\nv\vf\fr\re\x1b\"\"\\\\"; (void)E;
        if (cp == '"' || cp == '\\') { o += '\\'; o += (char)cp; }
        else if (cp == 0 && s.draw(2)) o += "\\0"; else if (cp == '\n' && s.draw(2)) o += "\\n"; else if (cp == '\t' && s.draw(2)) o += "\\t"; else if (cp == '\r' && s.draw(2)) o += "\\r"; else if (cp == '/' && s.draw(4) == 3) o += "/";
        else if (cp < 0x20 || cp == 0x7f || (cp >= 0x80 && cp < 0xa0) || cp == 0x2028 || cp == 0x2029 || cp == 0xfeff || cp >= 0xfffe || s.draw(15) == 14) { if (cp < 0x100) snprintf(b, 16, "\\x%02x", cp); else if (cp < 0x10000) snprintf(b, 16, "\\u%04x", cp); else snprintf(b, 16, "\\U%08x", cp); o += b; }
        else utf8(o, cp);
    }
    return o + "\"";
}
static std::string ysq(const std::string &x) { std::string o = "'"; for (char ch : x) { o += ch; if (ch == '\'') o += ch; } return o + "'"; }
struct Y {
    Src &s; std::map<const Val *, std::string> names; std::map<const Val *, int> seen; int anchors = 0, aliases = 0; bool on;
    std::string scalar(const V &v, bool key, bool block, int ind) {
        switch (v->t) {
        case V_NULL: return block && !key && s.draw(3) == 0 ? "" : s.draw(2) ? "~" : "null"; case V_TRUE: return "true"; case V_FALSE: return "false";
        case V_INT: return (v->i >= 0 && s.draw(6) == 5 ? "+" : "") + std::to_string(v->i); case V_FLT: return num(v->d);
        default: break;
        }
        bool pr = printable(v->s);
        if (block && !key && s.draw(2) && v->s.find('\n') != std::string::npos) {   // literal block
            bool ok = v->s[0] != '\n' && v->s[0] != ' '; for (unsigned cp : points(v->s)) if (cp != '\n' && (cp < 0x20 || (cp >= 0x7f && cp < 0xa0) || cp == 0x2028 || cp == 0x2029 || cp == 0xfeff || cp >= 0xfffe)) ok = false;
            size_t e = v->s.find_last_not_of('\n'); if (e == std::string::npos) ok = false;
            if (ok) { size_t tr = v->s.size() - e - 1; std::string o = tr == 0 ? "|-" : tr == 1 ? "|" : "|+", line, t = v->s; if (tr == 0) t += "\n"; for (char ch : t) { if (ch == '\n') { o += "\n" + (line.empty() ? "" : std::string(ind, ' ') + line); line.clear(); } else line += ch; } return o; }
        }
        switch (s.draw(3)) { case 0: if (plain_ok(v->s)) return v->s; [[fallthrough]]; case 1: if (pr) return ysq(v->s); [[fallthrough]]; default: return ydq(s, v->s); }
    }
    std::string key(const std::string &k) { return scalar(vstr(k), true, false, 0); }
    // an anchor before a container that occurs again, or an alias
    bool alias(const V &v, std::string &o) {
        if (!on || (v->t != V_ARR && v->t != V_MAP) || seen[v.get()] < 2) return false;
        auto it = names.find(v.get()); if (it != names.end()) { o = "*" + it->second; aliases++; return true; }
        return false;
    }
    std::string anchor(const V &v) { if (!on || (v->t != V_ARR && v->t != V_MAP) || seen[v.get()] < 2 || names.count(v.get())) return ""; std::string n = "a" + std::to_string(anchors++); names[v.get()] = n; return "&" + n + " "; }
    std::string flow(const V &v) {
        std::string o; if (alias(v, o)) return o + " ";
        if (v->t != V_ARR && v->t != V_MAP) return scalar(v, false, false, 0);
        bool f = true; std::string pre = anchor(v), sp = s.draw(2) ? " " : ""; o = pre + (v->t == V_ARR ? "[" : "{") + sp;
        if (v->t == V_ARR) for (auto &x : v->a) { if (!f) o += ", "; f = false; o += flow(x) + sp; } else for (auto &x : v->m) { if (!f) o += ", "; f = false; o += key(x.first) + ": " + flow(x.second) + sp; }
        return o + (v->t == V_ARR ? "]" : "}");
    }
    // what follows "key:" or "-", ending in a newline
    std::string after(const V &v, int ind) {
        std::string o; if (alias(v, o)) return " " + o + "\n";
        bool cont = v->t == V_ARR ? !v->a.empty() : v->t == V_MAP ? !v->m.empty() : false;
        if (!cont || s.draw(4) == 3) { std::string t = cont || v->t == V_ARR || v->t == V_MAP ? flow(v) : scalar(v, false, true, ind + 1); bool lit = t.size() && t[0] == '|'; return (t.empty() ? "" : " ") + t + (lit ? "" : s.draw(8) == 7 ? " # note" : "") + "\n"; }
        std::string a = anchor(v); return (a.empty() ? "" : " " + a.substr(0, a.size() - 1)) + "\n" + block(v, ind + 1 + s.draw(3));
    }
    std::string block(const V &v, int ind) {
        std::string o, in(ind, ' ');
        if (v->t == V_ARR) for (auto &x : v->a) { if (s.draw(12) == 11) o += in + "# note\n"; o += in + "-" + after(x, ind); }
        else for (auto &x : v->m) { if (s.draw(12) == 11 && (o.size() < 2 || o.compare(o.size() - 2, 2, "\n\n"))) o += "\n"; o += in + key(x.first) + ":" + after(x.second, ind); }
        return o;
    }
    void count(const V &v) { if (seen[v.get()]++) return; for (auto &x : v->a) count(x); for (auto &x : v->m) count(x.second); }
    std::string doc(const V &v) {
        count(v); bool cont = v->t == V_ARR ? !v->a.empty() : v->t == V_MAP && !v->m.empty(); std::string o = s.draw(3) ? "" : "---\n";
        if (cont && s.draw(4)) { std::string a = anchor(v); if (!a.empty()) o = "--- " + a + "\n"; o += block(v, 0); } else { std::string t = v->t == V_ARR || v->t == V_MAP ? flow(v) : scalar(v, false, false, 0); if (v->t == V_STR && t[0] != '"' && t[0] != '\'' ) t = ydq(s, v->s); o += t + (s.draw(2) ? "\n" : ""); }
        if (s.draw(8) == 7 && o.back() == '\n') o += "...\n"; return o;
    }
};
// ---- comparison ---------------------------------------------------------------------------------
static bool eqv(const V &a, const V &b) { return vtyped(a) == vtyped(b); }
static void same_value(Case &c, HC *x, HV *h, const V &v, const std::string &path, int how, Src &s) {
    static const handlebars_value_type T[] = {HANDLEBARS_VALUE_TYPE_NULL, HANDLEBARS_VALUE_TYPE_TRUE, HANDLEBARS_VALUE_TYPE_FALSE, HANDLEBARS_VALUE_TYPE_INTEGER, HANDLEBARS_VALUE_TYPE_FLOAT, HANDLEBARS_VALUE_TYPE_STRING, HANDLEBARS_VALUE_TYPE_ARRAY, HANDLEBARS_VALUE_TYPE_MAP};
    if (handlebars_value_get_type(h) != T[v->t]) c.fail("type of " + path + ": " + handlebars_value_type_readable(handlebars_value_get_type(h)) + ", expected " + handlebars_value_type_readable(T[v->t]) + " of " + vtyped(v));
    if (how && (v->t == V_ARR || v->t == V_MAP) && (handlebars_value_get_real_type(h) == HANDLEBARS_VALUE_TYPE_USER)) c.fail(path + " is not converted");
    long cnt = v->t == V_ARR ? (long)v->a.size() : v->t == V_MAP ? (long)v->m.size() : -1; if (handlebars_value_count(h) != cnt) c.fail("size of " + path + ": " + std::to_string(handlebars_value_count(h)) + ", expected " + std::to_string(cnt));
    bool em = v->t == V_STR ? v->s.empty() || v->s == "0" : v->t == V_INT ? v->i == 0 : v->t == V_FLT ? v->d == 0 : v->t == V_ARR ? v->a.empty() : v->t == V_MAP ? v->m.empty() : v->t != V_TRUE; if (handlebars_value_is_empty(h) != em) c.fail(path + " is empty: wrong");
    if (handlebars_value_is_scalar(h) != (v->t != V_ARR && v->t != V_MAP) || handlebars_value_is_callable(h)) c.fail(path + " is scalar or callable: wrong");
    if (v->t != V_ARR && v->t != V_MAP) { std::string g = typed(x, h); if (g != vtyped(v)) c.eq(path, g, vtyped(v)); }
    for (int e = 0; e < 2; e++) { HS *p = handlebars_value_expression(x, h, e); if (sv(p) != vprint(v, e)) c.eq(path + " printed", sv(p), vprint(v, e)); handlebars_talloc_free(p); }
    if (v->t != V_ARR) { HVal t; if (handlebars_value_array_find(h, 0, t)) c.fail(path + " is no array, yet has element 0"); }
    if (v->t != V_MAP) { HVal t; if (handlebars_value_map_str_find(h, "0", 1, t) || handlebars_value_map_str_find(h, "", 0, t)) c.fail(path + " is no map, yet has a member"); }
    if (v->t == V_ARR) {
        size_t i = 0; each(h, [&](handlebars_value_iterator *it) { if (i >= v->a.size()) c.fail(path + " gives too many elements"); if (it->index != i) c.fail("index " + std::to_string(it->index) + " at element " + std::to_string(i) + " of " + path); std::string g = typed(x, it->cur), w = vtyped(v->a[i]); if (g != w) c.eq(path + " element " + std::to_string(i) + " by iteration", g, w); i++; });
        if (i != v->a.size()) c.fail(path + " gives " + std::to_string(i) + " of " + std::to_string(v->a.size()) + " elements");
        for (i = 0; i < v->a.size(); i++) { HVal t; HV *r = handlebars_value_array_find(h, i, t); if (!r) c.fail(path + " has no element " + std::to_string(i)); same_value(c, x, r, v->a[i], path + "[" + std::to_string(i) + "]", how == 2 ? 0 : how, s); }
        HVal t; if (handlebars_value_array_find(h, v->a.size() + (s.draw(4) ? 0 : s.draw(1u << 30)), t)) c.fail(path + " has an element after the last"); if (handlebars_value_array_find(h, (size_t)-1 - s.draw(3), t)) c.fail(path + " has an element -1");
    } else if (v->t == V_MAP) {
        size_t i = 0; each(h, [&](handlebars_value_iterator *it) { if (i >= v->m.size()) c.fail(path + " gives too many members"); if (sv(it->key) != v->m[i].first) c.eq("key " + std::to_string(i) + " of " + path, sv(it->key), v->m[i].first); std::string g = typed(x, it->cur), w = vtyped(v->m[i].second); if (g != w) c.eq(path + " member " + quote(v->m[i].first) + " by iteration", g, w); i++; });
        if (i != v->m.size()) c.fail(path + " gives " + std::to_string(i) + " of " + std::to_string(v->m.size()) + " members");
        for (auto &e : v->m) {
            HVal t; HV *r; if (s.draw(2)) r = handlebars_value_map_str_find(h, e.first.data(), e.first.size(), t); else { HS *k = mks(x, e.first); handlebars_string_addref(k); r = handlebars_value_map_find(h, k, t); handlebars_string_delref(k); }
            if (!r) c.fail(path + " has no member " + quote(e.first)); same_value(c, x, r, e.second, path + "[" + quote(e.first) + "]", how == 2 ? 0 : how, s);
            std::string near = e.first; if (s.draw(2)) near += s.draw(2) ? "x" : std::string(1, '\0'); else if (near.size()) near.pop_back(); if (!v->find(near) && handlebars_value_map_str_find(h, near.data(), near.size(), t)) c.fail(path + " has a member " + quote(near) + " it should not have");
        }
    }
}
static V unshare(const V &v) {
    if (v->t == V_ARR) { std::vector<V> a; for (auto &e : v->a) a.push_back(unshare(e)); return varr(a); }
    if (v->t == V_MAP) { std::vector<std::pair<std::string, V>> m; for (auto &e : v->m) m.push_back({e.first, unshare(e.second)}); return vmap(m); }
    return std::make_shared<Val>(*v);
}
static void run(Src &s, Case &c) {
    // data with odd parts
    GenOpt o; o.must = 14; o.w_each = 6; o.w_with = 4; o.section = 4; o.inv = 2; o.lookup = 3; o.w_if = 3; o.nodes = 12; o.helpers = {"dump"}; o.hcall = 2; o.partial = 1; o.pnames = {"p1"};
    std::vector<V> pool;
    static const unsigned long FL[] = {0, F_COMPAT, F_NOESC, F_STRICT}; TCase t; gen_case(s, o, FL[s.weighted({6, 2, 1, 1})], t); // the odd parts are not named by templates, only iterated over
    for (auto *n : {"z1", "z2"}) if (!t.data->find(n)) t.data->m.insert(t.data->m.begin() + s.draw(t.data->m.size() + 1), {n, anyval(s, 3, pool)});
    V data = t.data; bool whole = s.draw(5) == 4; if (whole) { data = s.draw(3) ? anyval(s, 4, pool) : t.data; t.data = t.r.data = data; }
    if (weight(data) > 400 || depth(data) > 25) c.discard("large"); if (nulkey(data)) c.discard("NUL in a key");
    Ctx x; Err err; std::string doc; bool yaml = s.draw(2); int entry = s.draw(4), anchors = 0; HVal h, native;
    if (yaml) { Y y{s, {}, {}, 0, 0, s.draw(3) != 0}; doc = y.doc(data); anchors = y.aliases; } else { int w = s.draw(2); doc = ws(s, w) + json(s, data, w) + ws(s, w); }
    c.desc = (yaml ? "YAML " : "JSON ") + quote(doc) + "\n" + describe(t); if (c.verbose) fprintf(stderr, "%s\n", c.desc.c_str());
    // a document makes every value a separate one, and the identity of a context shows in what `../` means
    data = unshare(data); t.data = t.r.data = data;
    char *mem = (char *)malloc(doc.size() + 1); memcpy(mem, doc.data(), doc.size()); mem[doc.size()] = 0; char *exact = (char *)malloc(doc.size()); memcpy(exact, doc.data(), doc.size());
    json_object *jo = nullptr;
    bool ok = guard(x, err, [&] {
        if (yaml) handlebars_value_init_yaml_string(x, h, mem);
        else if (entry == 0) handlebars_value_init_json_string(x, h, mem); else if (entry == 1) handlebars_value_init_json_stringl(x, h, exact, doc.size()); else if (entry == 2) handlebars_value_init_json_stringl(x, h, mem, doc.size() + 1);
        else { jo = json_tokener_parse(mem); handlebars_value_init_json_object(x, h, jo); if (jo) json_object_put(jo); }
    });
    memset(mem, 'Z', doc.size()); free(mem); free(exact);
    if (!ok) c.fail("the document is not accepted: " + err.str());
    to_hbs(x, data, native);
    same_value(c, x, h, data, "document", yaml ? 1 : 0, s);
    // rendering: lazily, natively, converted
    Out want = t.in.run(t.body, t.data); bool modelled = want.err.num != -100; if (!modelled) c.discard(want.err.msg); (void)modelled;
    auto rend = [&](HV *v) { Render r = t.r; r.data = nullptr; r.hdata = v; return render_in(x, r); };
    Out a = rend(h); if (!(want.ok ? a.same(want) : !a.ok && a.err.num == want.err.num)) c.eq("rendering of the document", a.str(), want.str());
    if (s.draw(3) == 0) { Out n = rend(native); if (!n.same(a)) c.eq("rendering of the document and of the native value", a.str(), n.str()); }
    static const char *ALL = "{{#each this}}{{@key}}{{@index}}{{@first}}{{@last}}={{this}};{{#each this}}{{@key}}/{{@index}}{{@first}}{{@last}}={{{this}}}|{{#if this}}+{{/if}}{{#unless this}}-{{/unless}}{{#with this}}{{#each .}}{{@key}}{{.}},{{/each}}{{/with}}{{#.}}{{.}}{{@index}}{{/.}}{{^.}}none{{/.}}{{/each}}{{else}}nothing{{/each}}{{length}}{{this.[0]}}{{this.0}}{{this.[1].[0]}}";
    auto all = [&](HV *v) { Render r = t.r; r.tmpl = ALL; r.data = nullptr; r.hdata = v; return render_in(x, r); };
    Out an = all(native), ah = all(h); if (!an.same(ah)) c.eq("rendering of everything, of the document and of the native value", ah.str(), an.str());
    // what was reached stays when the document goes
    HVal part; V pv; std::string pn; if (data->t == V_MAP && data->m.size()) { auto &e = s.pick(data->m); if (handlebars_value_map_str_find(h, e.first.data(), e.first.size(), part)) { pv = e.second; pn = "member " + quote(e.first); } } else if (data->t == V_ARR && data->a.size()) { size_t i = s.draw(data->a.size()); handlebars_value_array_find(h, i, part); pv = data->a[i]; pn = "element " + std::to_string(i); }
    HVal kept; handlebars_value_value(kept, h);
    int conv = s.draw(3); if (conv == 0) handlebars_value_convert_ex(h, true); else if (conv == 1) handlebars_value_convert_ex(h, false);
    same_value(c, x, h, data, conv == 0 ? "converted document" : conv == 1 ? "document converted at the top" : "document", yaml ? 1 : conv == 0 ? 1 : conv == 1 ? 2 : 0, s);
    Out b = rend(h); if (!b.same(a)) c.eq("rendering after the conversion", b.str(), a.str()); Out bn = all(h); if (!an.same(bn)) c.eq("rendering of everything after the conversion", bn.str(), an.str());
    if (pv) { std::string g = typed(x, part); if (g != vtyped(pv)) c.eq(pn + " after the conversion", g, vtyped(pv)); }
    if (s.draw(2)) { same_value(c, x, kept, data, "document held elsewhere", yaml ? 1 : 0, s); }
    handlebars_value_dtor(h); handlebars_value_dtor(kept); handlebars_value_null(h); handlebars_value_null(kept);
    if (pv) { same_value(c, x, part, pv, pn + " of the gone document", yaml ? 1 : 0, s); if (s.draw(2)) { handlebars_value_convert_ex(part, true); same_value(c, x, part, pv, pn + ", converted", 1, s); } }
    // documents that are none
    if (!yaml && (data->t == V_ARR || data->t == V_MAP || data->t == V_STR)) {
        std::string body = doc.substr(doc.find_first_not_of(" \n\t\r")); body = body.substr(0, body.find_last_not_of(" \n\t\r") + 1);
        for (int k = 0; k < 4; k++) {
            std::string bad; int kind = k < 2 ? 0 : s.draw(5); size_t p = s.draw(body.size());
            if (kind == 0) bad = body.substr(0, p); else if (kind == 1) { bad = body + s.pick(std::vector<std::string>{"]", "}", ",", "x", "\"", " 1", "{}", ":"}); } else if (kind == 2) { bad = s.pick(std::vector<std::string>{"]", "}", ",", ":", "x"}) + body; } else if (kind == 3) { bad = "[" + body; } else { bad = "{" + body + "}"; }
            HVal v; bool g = s.draw(2) ? guard(x, err, [&] { handlebars_value_init_json_string(x, v, bad.c_str()); }) : guard(x, err, [&] { handlebars_value_init_json_stringl(x, v, bad.data(), bad.size()); });
            if (bad.find('\0') != std::string::npos) continue;
            if (g) c.fail("accepted: " + quote(bad)); if (err.num != HANDLEBARS_ERROR || err.msg.empty()) c.fail("rejecting " + quote(bad) + " reports " + err.str());
        }
    } else if (yaml) {
        static const std::vector<std::string> BAD = {"a: [1, 2", "a: {b: 1", "\"open", "'open", "a: b: c\n", "a: *nope\n", "- a\nb: 1\n", "a: 1\n  b: 2\n", "{a: 1]", "[1, 2}", "a: \"x\" y\n", "\ta: 1\n", "a: @x\n", "a: `x\n", "a: \"\\q\"\n", "%YAML x\n---\na\n", "", "# nothing\n", "? [a]\n: 1\n", "{a: 1}}", "a: \xff\xfe\n", "&a [*a]\n", "&a {b: *a}\n", "a: 'x\n", "]", "}", "- - -\n -", "a\nb: 1\n"};
        std::string bad = s.pick(BAD); if (bad == "- - -\n -") bad = "[a, b"; HVal v; 
        if (s.draw(2)) { Y y{s, {}, {}, 0, 0, false}; V k = s.draw(2) ? varr({data}) : vmap({{"k", data}}); std::string f = y.flow(k); bad = f.substr(0, s.draw(f.size())); if (bad.empty()) bad = "["; }
        if (bad.find('\0') == std::string::npos) { bool g = guard(x, err, [&] { handlebars_value_init_yaml_string(x, v, bad.c_str()); }); if (g) c.fail("accepted: " + quote(bad) + " as " + typed(x, v)); if (err.num != HANDLEBARS_ERROR || err.msg.empty()) c.fail("rejecting " + quote(bad) + " reports " + err.str()); }
    }
    c.label(yaml ? "YAML" : "JSON"); if (anchors) c.label("aliases"); if (conv == 0) c.label("converted"); label_feats(c, t.in);
    c.nontrivial = weight(data) >= 10 && depth(data) >= 3;
}
static Reg r({"C18", "data with nested containers, all scalar types, extreme numbers and odd strings and keys, written as JSON (escapes, surrogate pairs, whitespace, number forms, four ways to read it) or YAML (block and flow style, all scalar styles, comments, anchors and aliases); every value reached by lookup, index and iteration, rendered lazily, converted wholly or at the top, then reached after the document is gone; truncated and damaged documents; non-trivial: ten values, three levels", run, 26000, 500000});
