// C15: strings against byte sequences
#include "hbs.h"
#include <algorithm>
extern "C" {
#include "handlebars_rc.h"
}
static std::string text(Src &s, int tier) {
    static const std::vector<std::string> ATOMS = {"a", "b", "ab", "aa", " ", "\n", "\r\n", "\t", std::string(1, '\0'), "\xff", "\xc3\xa4", "&", "<", ">", "\"", "'", "`", "\\", "\\n", "\\\\", "\\x", "\\x4", "\\x41g", "\\xfF", "\\0", "\\1", "\\12", "\\101", "\\377", "\\777", "\\8", "\\18", "\\1010", "\\q", "\\a\\b\\t\\v\\f\\r", "\a\b\v\f", "\x7f", "\x01", "0", "7", "%s", "%", "=", "&amp;", ",", "{{", "}}", "x-y", "-"};
    std::string o; int n = s.weighted({2, 3, 8, 4, 1}); n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? s.range(1, 5) : n == 3 ? s.range(5, 25) : s.range(50, tier ? 3000 : 600);
    if (n > 25) { std::string b = s.pick(ATOMS) + s.pick(ATOMS); while ((int)o.size() < n) o += b; return o; }
    for (int i = 0; i < n; i++) o += s.draw(12) == 11 ? std::string(1, (char)s.draw(256)) : s.pick(ATOMS);
    return o;
}
static std::string m_replace(const std::string &x, const std::string &a, const std::string &b) {
    if (a.empty()) return x;
    std::string o; size_t p = 0, q;
    while ((q = x.find(a, p)) != std::string::npos) { o += x.substr(p, q - p) + b; p = q + a.size(); }
    return o + x.substr(p);
}
static std::string m_addc(const std::string &x, const std::string &what) {
    std::string o; static const char *names = "abtnvfr";                    // 7..13
    for (unsigned char ch : x) {
        if (what.find((char)ch) == std::string::npos) o += ch;
        else if (ch >= 32 && ch < 127) { o += '\\'; o += ch; }
        else if (ch >= 7 && ch <= 13) { o += '\\'; o += names[ch - 7]; }
        else { o += '\\'; o += char('0' + ch / 64); o += char('0' + ch / 8 % 8); o += char('0' + ch % 8); }
    }
    return o;
}
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string m_strip(const std::string &x) {
    std::string o; size_t n = x.size();
    for (size_t i = 0; i < n; i++) {
        if (x[i] != '\\' || i + 1 == n) { o += x[i]; continue; }
        unsigned char k = x[++i]; const char *names = "abtnvfr", *p = k ? strchr(names, k) : nullptr;
        if (p) o += char(7 + (p - names));
        else if (k == 'x' && i + 1 < n && hexval(x[i + 1]) >= 0) { int v = hexval(x[++i]); if (i + 1 < n && hexval(x[i + 1]) >= 0) v = v * 16 + hexval(x[++i]); o += char(v); }
        else if (k >= '0' && k <= '7') { int v = 0, j = 0; for (; j < 3 && i + j < n && x[i + j] >= '0' && x[i + j] <= '7'; j++) v = v * 8 + (x[i + j] - '0'); i += j - 1; o += char(v); }
        else o += char(k);
    }
    return o;
}
static std::string m_indent(const std::string &x, const std::string &in) {
    std::string o; size_t p = 0;
    while (p < x.size()) { size_t q = x.find('\n', p); q = q == std::string::npos ? x.size() : q + 1; o += in + x.substr(p, q - p); p = q; }
    return o;
}
static std::string m_html(const std::string &x) {
    std::string o; for (char ch : x) switch (ch) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case '\'': o += "&#x27;"; break; case '`': o += "&#x60;"; break; default: o += ch; }
    return o;
}
static std::string m_format(const char *f, ...) { va_list ap; va_start(ap, f); char *b = nullptr; int n = vasprintf(&b, f, ap); va_end(ap); std::string o(b, n); free(b); return o; }

static void run(Src &s, Case &c) {
    Ctx ctx; std::string &d = c.desc; const int N = 4; HS *h[N]; std::string m[N];
    size_t base = ctx_bytes(ctx); bool leaks = true; int shared = 0, special = 0, ops = 0;
    std::vector<int> group(N); for (int i = 0; i < N; i++) { group[i] = i; h[i] = mks(ctx, ""); handlebars_string_addref(h[i]); }
    auto L = [&](const std::string &x) { d += x + "\n"; if (c.verbose) fprintf(stderr, "%s\n", x.c_str()); };
    auto H = [](int i) { return "s" + std::to_string(i); };
    auto holders = [&](int a) { int n = 0; for (int i = 0; i < N; i++) n += h[i] == h[a]; return n; };
    auto release = [&](int a) { handlebars_string_delref(h[a]); h[a] = nullptr; };
    auto fresh = [&](int a, HS *x, const std::string &t) { handlebars_string_addref(x); if (h[a]) release(a); h[a] = x; m[a] = t; };
    int steps = s.range(3, c.tier ? 60 : 25);
    for (int k = 0; k < steps && !s.exhausted(); k++) {
        int a = s.draw(N), b = s.draw(N), e = s.draw(N); std::string what; if (holders(a) > 1) shared++;
        std::string before = m[a]; for (int i = 0; i < N; i++) if (s.draw(3) == 0) hbs_str_hash(h[i]);
        // a text given by pointer and length: own, of a string held, or part of the changed string
        std::string t; const char *tp; size_t tn; bool alias = false; HS *tkeep = nullptr;
        auto arg = [&](bool may_alias) {
            if (may_alias && s.draw(5) == 4) { size_t off = s.draw(m[a].size() + 1), n = s.draw(m[a].size() - off + 1); t = m[a].substr(off, n); tp = hbs_str_val(h[a]) + off; tn = n; alias = true; special++; }
            else if (s.draw(4) == 3 && h[b] != h[a]) { t = m[b]; tp = hbs_str_val(h[b]); tn = m[b].size(); }
            else { t = text(s, c.tier); tp = t.data(); tn = t.size(); }
        };
        if (m[a].size() > 20000) { fresh(a, mks(ctx, "x"), "x"); L(H(a) + " = \"x\""); continue; }
        switch (s.weighted({6, 5, 2, 6, 3, 3, 2, 2, 5, 5, 4, 5, 3, 4, 3, 5, 5, 4, 4, 4, 5, 3, 1, 2})) {
        case 0: t = text(s, c.tier); fresh(a, handlebars_string_ctor(ctx, t.data(), t.size()), t); what = H(a) + " = " + quote(t); break;
        case 1: { HS *x = h[b]; std::string y = m[b]; fresh(a, x, y); what = H(a) + " = " + H(b) + " (shared)"; break; }
        case 2: { std::string y = m[b]; fresh(a, handlebars_string_copy_ctor(ctx, h[b]), y); what = H(a) + " = copy of " + H(b); break; }
        case 3: arg(true); h[a] = handlebars_string_append(ctx, h[a], tp, tn); m[a] += t; what = H(a) + " append " + quote(t) + (alias ? " (part of itself)" : ""); break;
        case 4: { t = m[b]; h[a] = handlebars_string_append_str(ctx, h[a], h[b]); m[a] += t; what = H(a) + " append " + H(b); break; }
        case 5: { size_t n = m[a].size() + s.draw(40); h[a] = handlebars_string_extend(ctx, h[a], n); what = H(a) + " extend to " + std::to_string(n); if (talloc_get_size(h[a]) < HBS_STR_SIZE(n)) c.fail(what + ": the buffer is smaller"); if (holders(a) == 1 && handlebars_rc_refcount((handlebars_rc *)h[a]) == 1) { t = text(s, 0).substr(0, n - m[a].size()); HS *x = handlebars_string_append_unsafe(h[a], t.data(), t.size()); if (x != h[a]) c.fail("append in place moved"); m[a] += t; what += ", append " + quote(t); } break; }
        case 6: h[a] = handlebars_string_compact(h[a]); what = H(a) + " compact"; break;
        case 7: { std::string x; size_t cap = s.draw(50); HS *y = handlebars_string_init(ctx, cap); t = text(s, 0).substr(0, cap); handlebars_string_append_unsafe(y, t.data(), t.size()); fresh(a, y, t); what = H(a) + " = room for " + std::to_string(cap) + " with " + quote(t); break; }
        case 8: case 9: {
            bool reduce = s.draw(2); std::string se = s.draw(4) == 3 && m[a].size() ? m[a].substr(s.draw(m[a].size()), s.range(1, 3)) : text(s, 0).substr(0, s.range(0, 4)), re = text(s, 0).substr(0, s.range(0, 4)); if (reduce && s.draw(6)) re = re.substr(0, se.size());
            what = (reduce ? H(a) + " reduce " : H(b) + " = " + H(a) + " replace ") + quote(se) + " by " + quote(re);
            std::string want = m_replace(m[a], se, re); if (want != m[a]) special++;
            if (reduce) { h[a] = handlebars_str_reduce(h[a], se.data(), se.size(), re.data(), re.size()); if (re.size() <= se.size()) m[a] = want; }
            else { HS *x = handlebars_str_replace(ctx, h[a], se.data(), se.size(), re.data(), re.size()); fresh(b, x, want); }
            break; }
        case 10: { std::string w = s.draw(2) ? std::string("\r\n\t\\\"'\0\xff\x7f\a\b\v\f\x01 n%", 18) : text(s, 0); HS *x = handlebars_string_addcslashes(ctx, h[a], w.data(), w.size()); std::string want = m_addc(m[a], w); if (want != m[a]) special++; what = H(b) + " = " + H(a) + " with slashes for " + quote(w); fresh(b, x, want); break; }
        case 11: { std::string want = m_strip(m[a]); if (want != m[a]) special++; h[a] = handlebars_string_stripcslashes(h[a]); m[a] = want; what = H(a) + " strip slashes"; break; }
        case 12: { arg(false); fresh(a, handlebars_string_htmlspecialchars(ctx, tp, tn), m_html(t)); what = H(a) + " = html of " + quote(t); break; }
        case 13: { arg(true); h[a] = handlebars_string_htmlspecialchars_append(ctx, h[a], tp, tn); if (m_html(t) != t) special++; m[a] += m_html(t); what = H(a) + " append html of " + quote(t) + (alias ? " (part of itself)" : ""); break; }
        case 14: { int n = s.draw(5); HS *parts[6]; std::string want, sep = text(s, 0).substr(0, s.range(0, 3)); what = H(a) + " = implode by " + quote(sep); for (int i = 0; i < n; i++) { int q = s.draw(N); parts[i] = h[q]; want += (i ? sep : "") + m[q]; what += " " + H(q); } parts[n] = nullptr; HS *x = handlebars_string_implode(ctx, sep.data(), sep.size(), parts); if (n > 1) special++; fresh(a, x, want); break; }
        case 15: {
            std::string want = m_indent(m[a], m[b]); what = H(e) + " = " + H(a) + " indented by " + H(b); if (m[a].find('\n') != std::string::npos && m[b].size()) special++; if (want.size() > 20000) continue;
            handlebars_string_addref(h[a]); HS *x = handlebars_string_indent(ctx, h[a], h[b]); // takes one reference of its input, gives one
            if (h[e]) release(e); h[e] = x; m[e] = want; break; }
        case 16: {
            std::string want = m[e] + m_indent(m[a], m[b]); what = H(e) + " append " + H(a) + " indented by " + H(b); if (want.size() > 20000) continue; special++;
            HS *in = h[b]; if (h[e] == in) handlebars_string_addref(in); else in = nullptr; // the caller keeps what it indents by
            handlebars_string_addref(h[a]); h[e] = handlebars_string_indent_append(ctx, h[e], h[a], in ? in : h[b]); if (in) handlebars_string_delref(in); m[e] = want; break; }
        case 17: case 18: {
            bool left = s.draw(2); arg(true); if (tn && s.draw(2) && m[a].size()) { size_t n = s.range(1, 3); t = left ? m[a].substr(0, n) : m[a].substr(m[a].size() - std::min(n, m[a].size())); tp = t.data(); tn = t.size(); }
            size_t p = 0, q = m[a].size(); if (left) while (p < q && t.find(m[a][p]) != std::string::npos) p++; else while (q > p && t.find(m[a][q - 1]) != std::string::npos) q--;
            what = H(a) + (left ? " ltrim " : " rtrim ") + quote(t); if (q - p < m[a].size()) special++;
            h[a] = left ? handlebars_string_ltrim(h[a], tp, tn) : handlebars_string_rtrim(h[a], tp, tn); m[a] = m[a].substr(p, q - p); break; }
        case 19: { size_t n = m[a].size(), p = s.draw(n + 3), q = s.draw(n + 3); if (s.draw(8) == 7) q = (size_t)-1; if (s.draw(8) == 7) p = (size_t)-1; what = H(a) + " truncate to [" + std::to_string((long)p) + "," + std::to_string((long)q) + ")"; size_t qq = std::min(q, n); m[a] = p < qq ? m[a].substr(p, qq - p) : ""; h[a] = handlebars_string_truncate(h[a], p, q); special++; break; }
        case 20: {
            int form = s.draw(6), iv = s.pick(std::vector<int>{0, -1, 7, 2147483647}); double dv = s.pick(std::vector<double>{0.5, -3, 1e30}); bool app = s.draw(3); std::string st = text(s, c.tier); st = st.substr(0, st.find('\0')); int pr = s.draw(6); char ch = s.pick(std::vector<char>{'x', '\0', '\xff'});
            std::string want = form == 0 ? m_format("%s", st.c_str()) : form == 1 ? m_format("<%d|%5.2f>", iv, dv) : form == 2 ? m_format("%.*s%%", pr, st.c_str()) : form == 3 ? m_format("a%cb", ch) : form == 4 ? "" : "plain";
#define F(fn, ...) (form == 0 ? fn(__VA_ARGS__, "%s", st.c_str()) : form == 1 ? fn(__VA_ARGS__, "<%d|%5.2f>", iv, dv) : form == 2 ? fn(__VA_ARGS__, "%.*s%%", pr, st.c_str()) : form == 3 ? fn(__VA_ARGS__, "a%cb", ch) : form == 4 ? fn(__VA_ARGS__, "%s", "") : fn(__VA_ARGS__, "plain"))
            what = H(a) + (app ? " append formatted " : " = formatted ") + quote(want);
            if (app) { h[a] = F(handlebars_string_asprintf_append, ctx, h[a]); m[a] += want; } else fresh(a, F(handlebars_string_asprintf, ctx), want);
            break; }
        case 21: {                                                          // search
            std::string n = s.draw(2) && m[a].size() ? m[a].substr(s.draw(m[a].size()), s.range(1, 5)) : text(s, 0); size_t len = s.draw(3) ? m[a].size() : s.draw(m[a].size() + 1); what = "search " + quote(n) + " in " + std::to_string(len) + " bytes of " + H(a);
            std::string copy = m[a].substr(0, len); char *exact = (char *)malloc(len ? len : 1); memcpy(exact, copy.data(), len); const char *r = handlebars_strnstr(exact, len, n.data(), n.size()); size_t w = n.empty() ? std::string::npos : copy.find(n), g = r ? r - exact : std::string::npos; free(exact);
            if (g != w) c.fail(what + ": " + std::to_string((long)g) + ", expected " + std::to_string((long)w)); if (w != std::string::npos) special++; break; }
        case 22: { if (holders(a) > 1 || s.draw(3)) continue; handlebars_string_immortalize(h[a]); leaks = false; what = H(a) + " never released"; break; }
        case 23: {                                                          // equality and hash of texts
            std::string x = m[a]; bool eq = true; if (x.size() && s.draw(2)) { x[s.draw(x.size())] ^= 1 + s.draw(255); eq = false; } else if (s.draw(3) == 0) { x += s.draw(2) ? std::string(1, '\0') : "x"; eq = false; }
            HS *y = mks(ctx, x); handlebars_string_addref(y); what = "compare " + H(a) + " with " + quote(x);
            if (handlebars_string_eq(h[a], y) != eq || handlebars_string_eq(y, h[a]) != eq) c.fail(what + ": wrong"); if (hbs_str_eq_strl(h[a], x.data(), x.size()) != eq) c.fail(what + " as a text: wrong");
            if (eq && hbs_str_hash(h[a]) != hbs_str_hash(y)) c.fail(what + ": hashes differ"); handlebars_string_delref(y);
            if ((handlebars_hash_xxh3(x.data(), x.size()) == handlebars_hash_xxh3(m[a].data(), m[a].size())) != eq) c.fail(what + ": hash is not of the contents"); if (handlebars_hash_xxh3low(x.data(), x.size()) != (uint32_t)handlebars_hash_xxh3(x.data(), x.size())) c.fail("low half of the hash");
            uint32_t dj = 5381; for (unsigned char ch : x) dj = dj * 33 + ch; if (handlebars_hash_djbx33a(x.data(), x.size()) != dj) c.fail("djbx33a of " + quote(x));
            if (m[a].size()) { int same = 0; for (int i = 0; i < 3; i++) { std::string z = m[a]; z[s.draw(z.size())] ^= 1 << i; same += handlebars_string_hash(z.data(), z.size()) == handlebars_string_hash(m[a].data(), m[a].size()); } if (same > 1) c.fail("the hash does not depend on the contents: " + quote(m[a])); }
            break; }
        }
        if (m[a] != before) ops++; L(what);
        for (int i = 0; i < N; i++) {
            if (hbs_str_len(h[i]) != m[i].size() || memcmp(hbs_str_val(h[i]), m[i].data(), m[i].size())) c.eq(H(i) + " after step " + std::to_string(k) + ": " + what, sv(h[i]), m[i]);
            if (hbs_str_val(h[i])[m[i].size()]) c.fail(H(i) + " has no terminator after " + what); if (talloc_get_size(h[i]) < HBS_STR_SIZE(m[i].size())) c.fail(H(i) + " is longer than its buffer");
            if (s.draw(2) && hbs_str_hash(h[i]) != handlebars_string_hash(m[i].data(), m[i].size())) c.fail("hash of " + H(i) + " is not that of its contents after " + what);
        }
        int i = s.draw(N), j = s.draw(N); if (handlebars_string_eq(h[i], h[j]) != (m[i] == m[j])) c.fail(H(i) + " and " + H(j) + " equal: wrong after " + what);
    }
    for (int i = 0; i < N; i++) release(i);
    if (leaks && ctx_bytes(ctx) != base) c.fail(std::to_string((long)(ctx_bytes(ctx) - base)) + " bytes are still held after the last holder let go");
    if (shared) c.label("shared strings changed"); if (leaks) c.label("release checked");
    c.nontrivial = ops >= 3 && special >= 2;
}
static Reg r({"C15", "sequences of up to 25 (thorough: 60) operations on four holders of strings, shared or not, with texts of any bytes, own parts as arguments, cached hashes, formatted text, capacity; all holders compared with byte sequences after every step; non-trivial: three changes and two operations with something to do (a match, an escape, an own part)", run, 1500000, 12000000});
