#include "model.h"
#include <algorithm>
#include <cmath>

// ---- trees --------------------------------------------------------------------------------------
E ex_path(const std::string &d) { auto e = std::make_shared<Expr>(); std::string cur; for (char c : d + ".") if (c == '.') { Seg s; s.name = cur; e->parts.push_back(s); cur.clear(); } else cur += c; return e; }
E ex_this() { auto e = std::make_shared<Expr>(); e->thisp = true; return e; }
E ex_str(const std::string &s, char q) { auto e = std::make_shared<Expr>(); e->k = E_STR; e->s = s; e->quote = q; return e; }
E ex_num(const std::string &s) { auto e = std::make_shared<Expr>(); e->k = E_NUM; e->s = s; return e; }
E ex_bool(bool b) { auto e = std::make_shared<Expr>(); e->k = E_BOOL; e->b = b; return e; }
E ex_sub(Call c) { auto e = std::make_shared<Expr>(); e->k = E_SUB; e->sub = c; return e; }
N nd_text(const std::string &s) { auto n = std::make_shared<Node>(); n->text = s; return n; }
N nd_must(Call c) { auto n = std::make_shared<Node>(); n->k = N_MUST; n->call = c; return n; }
N nd_must(E e) { Call c; c.head = e; return nd_must(c); }
N nd_block(Call c, Body p) { auto n = std::make_shared<Node>(); n->k = N_BLOCK; n->call = c; n->prog = p; return n; }

bool is_builtin(const std::string &n) { static const std::set<std::string> b = {"blockHelperMissing", "helperMissing", "each", "if", "unless", "with", "log", "lookup", "hbsc_set_delimiters"}; return b.count(n); }

// prefix of a path: ../, ./, this
static std::vector<std::pair<std::string, std::string>> prefix_parts(const Expr &e) {
    std::vector<std::pair<std::string, std::string>> p;   // (part, separator after it when more follows)
    for (int i = 0; i < e.depth; i++) p.push_back({"..", "/"});
    if (e.dot) p.push_back({".", "/"});
    if (e.thisp) p.push_back({"this", e.parts.empty() ? "." : std::string(1, e.parts[0].sep)});
    return p;
}
static std::string path_text(const Expr &e, bool brackets) {
    std::string o = e.data ? "@" : "";
    auto pre = prefix_parts(e);
    bool first = true;
    for (size_t i = 0; i < pre.size(); i++) { if (!first) o += pre[i - 1].second; o += pre[i].first; first = false; }
    for (size_t i = 0; i < e.parts.size(); i++) {
        const Seg &s = e.parts[i];
        if (!first) o += i == 0 ? pre.back().second : std::string(1, s.sep);
        o += brackets && s.br ? "[" + s.name + "]" : s.name; first = false;
    }
    return o;
}
std::string path_original(const Expr &e) { return path_text(e, false); }
bool path_scoped(const Expr &e) {
    std::string o = path_original(e);
    if (!o.empty() && o[0] == '.') return true;
    size_t i = o.find("this");
    if (i == std::string::npos) return false;
    if (i + 4 >= o.size()) return true;
    char c = o[i + 4];
    return !(isalnum((unsigned char)c) || c == '_');
}
bool path_simple(const Expr &e) { return e.k == E_PATH && e.parts.size() == 1 && !path_scoped(e) && !e.depth; }

static std::string str_lit(const std::string &s, char q) {
    std::string o(1, q);
    for (char c : s) { if (c == q || c == '\\') o += '\\'; o += c; }
    return o + q;
}
std::string expr_src(const Expr &e) {
    switch (e.k) {
    case E_PATH: return path_text(e, true);
    case E_STR: return str_lit(e.s, e.quote);
    case E_NUM: return e.s;
    case E_BOOL: return e.b ? "true" : "false";
    case E_NUL: return "null";
    case E_UNDEF: return "undefined";
    case E_SUB: return "(" + call_src(e.sub) + ")";
    }
    return "";
}
std::string call_src(const Call &c) {
    std::string o = expr_src(*c.head);
    for (auto &p : c.params) o += " " + expr_src(*p);
    for (auto &h : c.hash) o += " " + h.first + "=" + expr_src(*h.second);
    return o;
}
std::string close_name(const Expr &h) { return expr_src(h); }
static std::string bp_src(const Node &n) { if (n.bp.empty()) return ""; std::string o = " as |"; for (size_t i = 0; i < n.bp.size(); i++) o += (i ? " " : "") + n.bp[i]; return o + "|"; }
Delims g_delims; bool g_delim_conflict = false;
static bool custom_delims() { return g_delims.o != "{{" || g_delims.c != "}}"; }
// does pat occur in s + pat before the end of s?
static bool occurs_early(const std::string &s, const std::string &pat) { return (s + pat).find(pat) < s.size(); }
static std::string tag_src(const std::string &inner) {
    if (custom_delims() && (occurs_early(inner, g_delims.c) || inner[0] == '=')) g_delim_conflict = true;
    return g_delims.o + inner + g_delims.c;
}
static std::string text_src(const std::string &t, bool tag_follows) {
    std::string o;
    if (g_delims.o != "{{") {
        for (size_t i = 0; i < t.size(); i++) if (t[i] == '\\') { if (i + 1 == t.size() || t[i + 1] == '{' || t[i + 1] == g_delims.o[0] || t[i + 1] == '\\') g_delim_conflict = true; i++; }
        if ((tag_follows ? occurs_early(t, g_delims.o) : t.find(g_delims.o) != std::string::npos)) g_delim_conflict = true;
        return t;
    }
    size_t n = t.size(), bs = 0;
    if ((tag_follows && n && t[n - 1] == '{') || t.find("{{{{") != std::string::npos) g_delim_conflict = true;
    while (tag_follows && bs < n && t[n - 1 - bs] == '\\') bs++;
    for (size_t i = 0; i < n; i++) { if (t[i] == '{' && i + 1 < n && t[i + 1] == '{' && !(i && t[i - 1] == '{')) o += '\\'; o += t[i]; }
    if (bs) o += '\\';
    return o;
}
static std::string L(const Strip &s) { return s.l ? "~" : ""; }
static std::string R(const Strip &s) { return s.r ? "~" : ""; }
static void node_src(const Node &n, std::string &o, bool tag_follows);
static std::string body_src(const Body &b, bool more);
static void inverse_src(const Node &n, std::string &o) {
    if (n.chain) {
        const Node &b = *n.inverse[0];
        o += tag_src(L(b.open) + "else " + call_src(b.call) + bp_src(b) + b.ws + R(b.open)); o += body_src(b.prog, true);
        inverse_src(b, o);
    } else if (n.has_inv) o += tag_src(L(n.inv) + (n.caret ? "^" : "else") + R(n.inv)), o += body_src(n.inverse, true);
}
static void node_src(const Node &n, std::string &o, bool tag_follows) {
    switch (n.k) {
    case N_TEXT: o += text_src(n.text, tag_follows); break;
    case N_MUST: o += tag_src(L(n.open) + (n.deco ? "*" : "") + n.ws + call_src(n.call) + n.ws + R(n.open)); break;
    case N_AMP: o += tag_src(L(n.open) + "&" + n.ws + call_src(n.call) + n.ws + R(n.open)); break;
    case N_TRIPLE: o += tag_src(L(n.open) + "{" + n.ws + call_src(n.call) + n.ws + "}" + R(n.open)); break;
    case N_COMMENT:
        if (!n.delims.o.empty()) { o += g_delims.o + "=" + n.ws + n.delims.o + " " + n.delims.c + n.ws + "=" + g_delims.c; g_delims = n.delims; break; }
        o += tag_src(L(n.open) + (n.longc ? "!--" : "!") + n.text + (n.longc ? "--" : "") + R(n.open)); break;
    case N_BLOCK: case N_INVBLOCK:
        o += tag_src(L(n.open) + (n.k == N_BLOCK ? n.deco ? "#*" : "#" : "^") + n.ws + call_src(n.call) + bp_src(n) + n.ws + R(n.open)); o += body_src(n.prog, true);
        inverse_src(n, o);
        o += tag_src(L(n.close) + "/" + n.ws + close_name(*n.call.head) + R(n.close));
        break;
    case N_PARTIAL: o += tag_src(L(n.open) + ">" + n.ws + call_src(n.call) + n.ws + R(n.open)); break;
    case N_PBLOCK: o += tag_src(L(n.open) + "#>" + n.ws + call_src(n.call) + n.ws + R(n.open)); o += body_src(n.prog, true); o += tag_src(L(n.close) + "/" + close_name(*n.call.head) + R(n.close)); break;
    case N_RAW: if (custom_delims()) g_delim_conflict = true;
        o += "{{{{" + n.ws + call_src(n.call) + n.ws + "}}}}" + n.text + "{{{{/" + path_original(*n.call.head) + "}}}}"; break;
    }
}
static std::string body_src(const Body &b, bool more);
std::string body_src(const Body &b) { return body_src(b, false); }
static std::string body_src(const Body &b, bool more) {
    std::string o;
    for (size_t i = 0; i < b.size(); i++) {
        if (b[i]->k == N_TEXT && g_delims.o == "{{" && (i || more) && b[i]->text[0] == '}') g_delim_conflict = true;   // would join the tag before
        if (b[i]->k == N_TEXT && i + 1 < b.size() && b[i + 1]->k == N_TEXT) {   // adjacent text is one node
            std::string t = b[i]->text; while (i + 1 < b.size() && b[i + 1]->k == N_TEXT) t += b[++i]->text;
            o += text_src(t, more || i + 1 < b.size());
        } else node_src(*b[i], o, more || i + 1 < b.size());
    }
    return o;
}

// ---- whitespace control -------------------------------------------------------------------------
static AP build_body(const Body &b);
static AN build_node(const Node *n) {
    AN a = std::make_shared<ANode>();
    a->src = const_cast<Node *>(n); a->k = n->k; a->open = n->open; a->inv = n->inv; a->close = n->close;
    switch (n->k) {
    case N_TEXT: a->val = a->orig = n->text; break;
    case N_BLOCK: case N_INVBLOCK: {
        AP p = build_body(n->prog), i;
        p->bp = n->bp;
        if (n->chain) {
            i = std::make_shared<AProg>(); i->chained = true;
            AN c = build_node(n->inverse[0].get());
            c->close = n->close;
            a->inv = n->inverse[0]->open;
            i->st.push_back(c);
        } else if (n->has_inv) i = build_body(n->inverse);
        if (n->k == N_BLOCK) { a->prog = p; a->inv_prog = i; } else { a->prog = i; a->inv_prog = p; }
        break;
    }
    case N_PBLOCK: a->prog = build_body(n->prog); break;
    case N_RAW: { a->prog = std::make_shared<AProg>(); a->prog->bp = {}; AN t = std::make_shared<ANode>(); t->val = t->orig = n->text; a->prog->st.push_back(t); break; }
    default: break;
    }
    return a;
}
// in source order: the branch written first, the one after else, the one before the closing tag
static AP br_first(const AN &n) { return n->k == N_INVBLOCK ? n->inv_prog : n->prog; }
static AP br_else(const AN &n) { return n->k == N_INVBLOCK ? n->prog : n->inv_prog; }
static AP br_last(AN n) { AP e = br_else(n); while (e && e->chained) { n = e->st[0]; e = br_else(n); } return e ? e : br_first(n); }
// the closing tag of a chain closes all of its blocks
static void fix_chain(AN a) {
    if (a->k != N_BLOCK && a->k != N_INVBLOCK) return;
    for (AP e = br_else(a); e && e->chained; e = br_else(e->st[0])) e->st[0]->close = a->close;
}
static AP build_body(const Body &b) {
    AP p = std::make_shared<AProg>();
    for (size_t i = 0; i < b.size(); i++) {
        if (b[i]->k == N_TEXT) {
            std::string t; while (i < b.size() && b[i]->k == N_TEXT) t += b[i++]->text;
            i--;
            if (t.empty()) continue;
            AN a = std::make_shared<ANode>(); a->val = a->orig = t; p->st.push_back(a);
        } else { AN a = build_node(b[i].get()); fix_chain(a); p->st.push_back(a); }
    }
    p->null = p->st.empty();
    return p;
}
static bool ws1(char c) { return c == ' ' || c == '\v' || c == '\t' || c == '\r'; }
static bool scan_next(const std::string &s, bool def) { for (char c : s) { if (ws1(c)) continue; return c == '\n'; } return def; }
static bool scan_prev(const std::string &s, bool def) { bool m = def; for (char c : s) { if (ws1(c)) continue; m = c == '\n'; } return m; }
typedef std::vector<AN> SL;
static bool next_ws(const SL &s, int i, bool root) {     // i: index of the statement, -1: before the first
    size_t n = i + 1;
    if (n >= s.size()) return root;
    if (s[n]->k == N_TEXT) return scan_next(s[n]->orig, n + 1 >= s.size() && root);
    return false;
}
static bool prev_ws(const SL &s, int i, bool root) {     // i: index, size: after the last
    int n = i - 1;
    if (n < 0) return root;
    if (s[n]->k == N_TEXT) return scan_prev(s[n]->orig, n == 0 && root);
    return false;
}
static bool omit_right(const SL &s, int i, bool multi) {
    size_t n = i + 1;
    if (n >= s.size() || s[n]->k != N_TEXT || (!multi && s[n]->rs)) return false;
    std::string &v = s[n]->val; size_t len = v.size(), p = 0;
    if (multi) while (p < len && (ws1(v[p]) || v[p] == '\n')) p++;
    else { while (p < len && (v[p] == ' ' || v[p] == '\t')) p++; if (p < len && v[p] == '\r') p++; if (p < len && v[p] == '\n') p++; }
    v.erase(0, p);
    return s[n]->rs = p > 0;
}
static bool omit_left(const SL &s, int i, bool multi) {
    int n = i - 1;
    if (n < 0 || s[n]->k != N_TEXT || (!multi && s[n]->ls)) return false;
    std::string &v = s[n]->val; size_t len = v.size(), p = len;
    while (p > 0 && (multi ? ws1(v[p - 1]) || v[p - 1] == '\n' : v[p - 1] == ' ' || v[p - 1] == '\t')) p--;
    v.erase(p);
    return s[n]->ls = p < len;
}
struct WS { bool root_seen = false, standalone = true; };
static void ws_prog(WS &w, AProg *p);
static void ws_node(WS &w, AN n) {
    switch (n->k) {
    case N_BLOCK: case N_INVBLOCK: {
        if (n->prog && !n->prog->null) ws_prog(w, n->prog.get()); else if (n->prog) w.root_seen = true;
        if (n->inv_prog) ws_prog(w, n->inv_prog.get());
        AP prog = br_first(n), inv = br_else(n), fi = inv && inv->chained ? br_first(inv->st[0]) : inv, la = br_last(n);
        n->set = true; n->l = n->open.l; n->r = n->close.r;
        n->open_sa = next_ws(prog->st, -1, false);
        n->close_sa = prev_ws(la->st, la->st.size(), false);
        if (n->open.r) omit_right(prog->st, -1, true);
        if (inv) {
            if (n->inv.l) omit_left(prog->st, prog->st.size(), true);
            if (n->inv.r) omit_right(fi->st, -1, true);
            if (n->close.l) omit_left(la->st, la->st.size(), true);
            if (w.standalone && prev_ws(prog->st, prog->st.size(), false) && next_ws(fi->st, -1, false)) {
                omit_left(prog->st, prog->st.size(), false); omit_right(fi->st, -1, false);
            }
        } else if (n->close.l) omit_left(prog->st, prog->st.size(), true);
        break;
    }
    case N_PBLOCK:
        ws_prog(w, n->prog.get());
        n->set = true; n->l = n->open.l; n->r = n->close.r;
        n->open_sa = next_ws(n->prog->st, -1, false); n->close_sa = prev_ws(n->prog->st, n->prog->st.size(), false);
        if (n->open.r) omit_right(n->prog->st, -1, true);
        if (n->close.l) omit_left(n->prog->st, n->prog->st.size(), true);
        break;
    case N_RAW:
        n->set = true; n->l = n->r = false;
        n->open_sa = next_ws(n->prog->st, -1, false); n->close_sa = prev_ws(n->prog->st, n->prog->st.size(), false);
        w.root_seen = true;
        break;
    case N_MUST: case N_TRIPLE: case N_AMP:
        n->set = true; n->l = n->open.l; n->r = n->open.r; break;
    case N_PARTIAL: case N_COMMENT:
        n->set = true; n->l = n->open.l; n->r = n->open.r; n->inl = true; break;
    default: break;
    }
}
static void ws_prog(WS &w, AProg *p) {
    bool root = !w.root_seen;
    w.root_seen = true;
    SL &s = p->st;
    for (size_t i = 0; i < s.size(); i++) {
        AN n = s[i];
        ws_node(w, n);
        if (!n->set) continue;
        bool pv = prev_ws(s, i, root), nx = next_ws(s, i, root);
        bool os = n->open_sa && pv, cs = n->close_sa && nx, in = n->inl && pv && nx;
        if (n->r) omit_right(s, i, true);
        if (n->l) omit_left(s, i, true);
        if (w.standalone && in) {
            omit_right(s, i, false);
            if (omit_left(s, i, false) && n->k == N_PARTIAL) {
                const std::string &o = s[i - 1]->orig; size_t q = o.size();
                while (q > 0 && (o[q - 1] == ' ' || o[q - 1] == '\t')) q--;
                n->indent = o.substr(q);
            }
        }
        if (w.standalone && os) {
            AP b = n->k == N_RAW ? nullptr : br_first(n);
            if (b) omit_right(b->st, -1, false);
            omit_left(s, i, false);
        }
        if (w.standalone && cs) {
            omit_right(s, i, false);
            AP b = n->k == N_RAW ? nullptr : br_last(n);
            if (b) omit_left(b->st, b->st.size(), false);
        }
    }
}
AP analyse(const Body &b, unsigned long flags) {
    AP p = build_body(b);
    WS w; w.standalone = !(flags & F_IGNSTD);
    ws_prog(w, p.get());
    return p;
}

// ---- tree listing -------------------------------------------------------------------------------
struct Lst { std::string o; int pad = 0; bool part = false;
    void head() { if (pad > 0 && pad < 16) o += std::string(pad * 2, ' '); }
    void line(const std::string &s) { head(); o += s + "\n"; }
    void ex(const Expr &e) {
        switch (e.k) {
        case E_PATH: {
            if (e.data) o += "@";
            if (!part) o += "PATH:";
            if (e.depth == 0 && false) {}
            for (size_t i = 0; i < e.parts.size(); i++) { if (i) o += e.parts[i].sep; o += e.parts[i].name; }
            break;
        }
        case E_STR: o += part ? e.s : "\"" + e.s + "\""; break;
        case E_NUM: o += part ? e.s : "NUMBER{" + e.s + "}"; break;
        case E_BOOL: o += std::string("BOOLEAN{") + (e.b ? "true" : "false") + "}"; break;
        case E_NUL: o += "NULL"; break;
        case E_UNDEF: o += "UNDEFINED"; break;
        case E_SUB: call(e.sub); break;
        }
    }
    void hash(const Call &c) { bool p = part; part = false; o += "HASH{"; for (size_t i = 0; i < c.hash.size(); i++) { if (i) o += ", "; o += c.hash[i].first + "="; ex(*c.hash[i].second); } o += "}"; part = p; }
    void call(const Call &c) { ex(*c.head); o += " ["; for (size_t i = 0; i < c.params.size(); i++) { if (i) o += ", "; ex(*c.params[i]); } o += "]"; if (!c.hash.empty()) { o += " "; hash(c); } }
    void prog(const AProg &p) {
        if (!p.bp.empty()) { std::string s = "BLOCK PARAMS: ["; for (auto &b : p.bp) s += " " + b; line(s + " ]"); }
        for (auto &n : p.st) node(*n);
        pad--;
    }
    void node(const ANode &n) {
        switch (n.k) {
        case N_TEXT: line("CONTENT[ '" + n.val + "' ]"); break;
        case N_COMMENT: line("{{! '" + n.src->text + "' }}"); break;
        case N_MUST: case N_TRIPLE: case N_AMP: head(); o += n.src->deco ? "{{ DIRECTIVE " : "{{ "; call(n.src->call); o += " }}\n"; break;
        case N_BLOCK: case N_INVBLOCK: case N_RAW:
            line(n.src->deco ? "DIRECTIVE BLOCK:" : "BLOCK:"); pad++; head(); call(n.src->call); o += "\n";
            if (n.prog) { line("PROGRAM:"); pad++; prog(*n.prog); pad--; }
            if (n.inv_prog) { if (n.prog) pad++; line("{{^}}"); pad++; prog(*n.inv_prog); pad--; if (n.prog) pad--; }
            pad--; break;
        case N_PARTIAL:
            head(); o += "{{> PARTIAL:"; part = true; ex(*n.src->call.head); part = false;
            if (!n.src->call.params.empty()) { o += " "; ex(*n.src->call.params[0]); }
            if (!n.src->call.hash.empty()) { o += " "; hash(n.src->call); }
            o += " }}\n"; break;
        case N_PBLOCK:
            head(); o += "{{> PARTIAL BLOCK:"; pad++; part = true; ex(*n.src->call.head);
            if (!n.src->call.params.empty()) { o += " PATH:"; for (auto &p : n.src->call.params) ex(*p); }
            if (!n.src->call.hash.empty()) { o += " "; hash(n.src->call); }
            o += " PROGRAM:\n"; prog(*n.prog); part = false; pad--; o += " }}\n"; break;
        }
    }
};
std::string ast_listing(const AP &p) { Lst l; l.prog(*p); while (!l.o.empty() && strchr(" \t\r\n", l.o.back())) l.o.pop_back(); return l.o; }

// ---- interpreter --------------------------------------------------------------------------------
static bool value_eq(const V &a, const V &b) {
    if (a->t != b->t) return false;
    switch (a->t) { case V_ARR: case V_MAP: case V_LAM: return a.get() == b.get(); case V_STR: return a->s == b->s; case V_INT: return a->i == b->i; case V_FLT: return a->d == b->d; default: return true; }
}
static std::string to_str(const V &v) { return v->t == V_ARR ? "" : vprint_raw(v); }
std::string indent_lines(const std::string &s, const std::string &ind) {
    if (s.empty()) return "";
    std::string o = ind;
    for (size_t i = 0; i < s.size(); i++) { o += s[i]; if (s[i] == '\n' && i + 1 < s.size()) o += ind; }
    return o;
}
static V num_value(const std::string &s) {
    if (s == "0") return vint(0);
    double f = strtod(s.c_str(), nullptr); long l = strtol(s.c_str(), nullptr, 10);
    if (f && l && f == (double)l) return vint(l);
    return vstr(s);
}
static std::string lit_text(const Expr &e) { return e.k == E_BOOL ? (e.b ? "true" : "false") : e.k == E_NUL ? "null" : e.k == E_UNDEF ? "undefined" : e.s; }
static Expr as_path(const Expr &e) { if (e.k == E_PATH || e.k == E_SUB) return e; Expr p; Seg s; s.name = lit_text(e); p.parts.push_back(s); return p; }

bool Interp::has_helper(const std::string &n) { return is_builtin(n) || std::count(helpers.begin(), helpers.end(), n); }
bool Interp::is_known(const std::string &n) { return is_builtin(n) || (known_on && std::count(known.begin(), known.end(), n)); }
bool Interp::in_bp(const std::string &n, int &d, int &i) {
    for (size_t k = 0; k < bpnames.size(); k++) {
        auto &f = bpnames[bpnames.size() - 1 - k];
        for (size_t j = 0; j < f.size(); j++) if (f[j] == n) { d = k; i = j; return true; }
    }
    return false;
}
V Interp::member(const V &v, const std::string &k, bool &found) {
    found = false;
    if (v->t == V_MAP) { V *f = v->find(k); if (f) { found = true; return *f; } }
    else if (v->t == V_ARR) {
        if (k.empty() || k.size() > 18 || k.find_first_not_of("0123456789") != std::string::npos) return vnull();
        size_t i = strtoull(k.c_str(), nullptr, 10);
        if (i < v->a.size()) { found = true; return v->a[i]; }
    }
    return vnull();
}
[[noreturn]] static void not_defined(const std::string &n) { throw MErr{HANDLEBARS_ERROR, "\"" + n + "\" not defined in object", "render"}; }
static V null_v() { return vnull(); }
V Interp::lookup_path(const Expr &e, bool strict, bool helper) {
    bool scoped = path_scoped(e), f, is_strict = flags & (F_STRICT | F_ASSUME), req = (flags & F_STRICT) && strict;
    int d, i;
    if (!e.depth && !scoped && !e.parts.empty() && in_bp(e.parts[0].name, d, i)) {
        feat["block param path"]++; if (d) feat["outer block param"]++;
        V fr = bps[bps.size() - 1 - d];
        if (fr->t != V_ARR || i >= (int)fr->a.size()) return null_v();
        V v = fr->a[i];
        for (size_t k = 1; k < e.parts.size(); k++) { v = member(v, e.parts[k].name, f); if (!f) return null_v(); }
        return v;
    }
    V ctx = (size_t)e.depth >= ctxs.size() ? null_v() : ctxs[ctxs.size() - 1 - e.depth];
    if (e.parts.empty()) { feat[e.depth ? "parent" : "this"]++; return ctx; }
    if (e.data) {
        feat["data path"]++;
        V dv = data; int dep = e.depth;
        while (dep-- > 0) { V *p = dv->t == V_MAP ? dv->find("_parent") : nullptr; if (!p) { dv = null_v(); break; } dv = *p; }
        V *p = dv->t == V_MAP ? dv->find(e.parts[0].name) : nullptr;
        V v;
        if (p) v = *p;
        else if (e.parts[0].name == "root") { v = ctxs[0]; feat["@root"]++; }
        else { if (req || (is_strict && e.parts.size() > 1)) not_defined(e.parts[0].name); return null_v(); }
        for (size_t k = 1; k < e.parts.size(); k++) {
            bool obj = v->t == V_MAP || v->t == V_ARR;
            V n = member(v, e.parts[k].name, f);
            if (f) { v = n; continue; }
            if (!obj && (flags & F_ASSUME)) req = true;
            if (req || (is_strict && k + 1 < e.parts.size())) not_defined(e.parts[k].name);
            return null_v();
        }
        return v;
    }
    if (e.depth) feat["parent path"]++;
    if (e.parts.size() > 1) feat["nested path"]++;
    if (scoped && !e.depth) feat["scoped path"]++;
    V v = ctx;
    if ((flags & F_COMPAT) && !scoped) {
        v = null_v();
        for (size_t k = ctxs.size(); k-- > 0;) if (ctxs[k]->t == V_MAP && ctxs[k]->find(e.parts[0].name)) { v = ctxs[k]; if (k + 1 < ctxs.size()) feat["compat parent lookup"]++; break; }
    }
    for (size_t k = 0; k < e.parts.size(); k++) {
        bool last = k + 1 == e.parts.size();
        const std::string &n = e.parts[k].name;
        if (v->t == V_MAP || v->t == V_ARR) {
            V x = member(v, n, f);
            if (f) { v = x; continue; }
            feat[last ? "missing field" : "missing parent"]++;
            if ((is_strict && !last) || (req && !helper)) not_defined(n);
            return null_v();
        }
        feat["field of a non-object"]++;
        if (((flags & F_ASSUME) && !helper) || (is_strict && !last)) not_defined(n);
        if (req && !helper) not_defined(n);
        return null_v();
    }
    return v;
}
static V by_key(const V &m);
V Interp::run_lambda(const V &l, const std::vector<V> &argv, const Opt &o) {
    feat["lambda called"]++;
    switch (l->lam) {
    case 0: return l->lamarg;
    case 4: return argv.empty() ? null_v() : argv[0];
    case 1: { if (o.scope && o.scope->t == V_MAP) { V *f = o.scope->find(l->lamarg->s); if (f) return *f; } return null_v(); }
    case 2: { std::string s = "L("; for (size_t i = 0; i < argv.size(); i++) { if (i) s += ","; s += vtyped(argv[i]); } s += ")"; if (o.hash && o.hash->t == V_MAP && !o.hash->m.empty()) s += "#" + vtyped(by_key(o.hash)); return vstr(s); }
    case 3: { std::string s; const std::string &t = l->lamarg->s; for (size_t i = 0; i < t.size(); i++) if (t[i] == '%' && i + 1 < t.size() && t[i + 1] == 's') { if (!argv.empty() && argv[0]->t == V_STR) s += argv[0]->s; i++; } else s += t[i]; return vstr(s); }
    }
    return null_v();
}
std::string Interp::exec(const AP &p, const V &ctx, const V *nd, const V &bp) {
    if (!p) return "";
    if (depth >= 384) throw MErr{HANDLEBARS_STACK_OVERFLOW, "Stack overflow", "render"};
    if (++steps > 20000 || g_show_over) throw MErr{-100, "too many steps", "model"};
    depth++;
    bool pushed = ctxs.empty() || !value_eq(ctxs.back(), ctx);
    if (pushed) ctxs.push_back(ctx);
    V od = data;
    if (nd && *nd) data = *nd;
    bps.push_back(bp ? bp : null_v()); bpnames.push_back(p->bp);
    std::string out;
    for (auto &n : p->st) stmt(n, out);
    if (out.size() > (1u << 20)) throw MErr{-100, "too much output", "model"};
    bps.pop_back(); bpnames.pop_back();
    data = od;
    if (pushed) ctxs.pop_back();
    depth--;
    return out;
}
static V builtin(Interp &in, const std::string &n, std::vector<V> &argv, Interp::Opt &o);
V Interp::call_helper(const std::string &n, std::vector<V> &argv, Opt &o, bool &found) {
    found = true;
    if (std::count(helpers.begin(), helpers.end(), n)) { feat["helper called"]++; return helper_model(n, argv, o, *this); }
    if (is_builtin(n)) return builtin(*this, n, argv, o);
    found = false;
    return null_v();
}
static V call_again(Interp &in, const std::string &n, std::vector<V> &argv, Interp::Opt &o) { bool f; return in.call_helper(n, argv, o, f); }
static V resolved(Interp &in, const V &v, Interp::Opt &o) { return v->t == V_LAM ? in.run_lambda(v, {o.scope}, o) : v; }
static V builtin(Interp &in, const std::string &n, std::vector<V> &argv, Interp::Opt &o) {
    auto err = [](const std::string &m) -> V { throw MErr{HANDLEBARS_ERROR, m, "render"}; };
    if (n == "if" || n == "unless") {
        if (n == "unless") { if (argv.size() != 1) err("#unless requires exactly one argument"); std::swap(o.prog, o.inv); return call_again(in, "if", argv, o); }
        if (argv.size() != 1) err("#if requires exactly one argument");
        V c = resolved(in, argv[0], o);
        bool t = !vempty(c);
        if (!t && c->t == V_INT && o.hash && o.hash->t == V_MAP) { V *z = o.hash->find("includeZero"); if (z && !vempty(*z)) { t = true; in.feat["includeZero"]++; } }
        in.feat[t ? "if: true branch" : "if: false branch"]++;
        return vstr(in.exec(t ? o.prog : o.inv, o.scope, nullptr, nullptr));
    }
    if (n == "with") {
        if (argv.size() != 1) err("#with requires exactly one argument");
        V c = resolved(in, argv[0], o);
        if (vempty(c) && c->t != V_INT) { in.feat["with: empty"]++; return vstr(in.exec(o.inv, o.scope, nullptr, nullptr)); }
        in.feat["with: body"]++;
        return vstr(in.exec(o.prog, c, &o.data, varr({c})));
    }
    if (n == "each") {
        if (argv.empty()) err("Must pass iterator to #each");
        V c = resolved(in, argv[0], o);
        std::vector<std::pair<V, V>> items;
        if (c->t == V_ARR) for (size_t i = 0; i < c->a.size(); i++) items.push_back({vint(i), c->a[i]});
        if (c->t == V_MAP) for (auto &e : c->m) items.push_back({vstr(e.first), e.second});
        if (items.empty()) { in.feat["each: empty"]++; return vstr(in.exec(o.inv, o.scope, nullptr, nullptr)); }
        in.feat[c->t == V_ARR ? "each: array" : "each: object"]++;
        std::string out;
        V base = vmap();
        if (o.data && o.data->t == V_MAP) base->m = o.data->m;
        auto set = [](V &m, const std::string &k, V v) { V *f = m->find(k); if (f) *f = v; else m->m.push_back({k, v}); };
        set(base, "_parent", o.data ? o.data : null_v());
        for (size_t i = 0; i < items.size(); i++) {
            V d = vmap(base->m);
            set(d, "index", vint(i)); set(d, "key", items[i].first); set(d, "first", vbool(i == 0)); set(d, "last", vbool(i + 1 == items.size()));
            out += in.exec(o.prog, items[i].second, &d, varr({items[i].second, items[i].first}));
        }
        return vstr(out);
    }
    if (n == "blockHelperMissing") {
        if (argv.empty()) return vstr(in.exec(o.inv, o.scope, nullptr, nullptr));
        V c = argv[0];
        if (c->t == V_TRUE) { in.feat["section: true"]++; return vstr(in.exec(o.prog, o.scope, nullptr, nullptr)); }
        if (vempty(c) && !(c->t == V_INT)) { in.feat["section: empty"]++; return vstr(in.exec(o.inv, o.scope, nullptr, nullptr)); }
        if (c->t == V_ARR) { in.feat["section: array"]++; return call_again(in, "each", argv, o); }
        in.feat["section: context"]++;
        return vstr(in.exec(o.prog, c, nullptr, nullptr));
    }
    if (n == "helperMissing") { if (!argv.empty()) err("Missing helper: \"" + o.name + "\""); return null_v(); }
    if (n == "lookup") {
        if (argv.size() < 2) err("lookup requires two parameters");
        in.feat["lookup"]++;
        if (argv[0]->t == V_MAP) { V *f = argv[0]->find(to_str(argv[1])); return f ? *f : null_v(); }
        if (argv[0]->t == V_ARR && argv[1]->t == V_INT && argv[1]->i >= 0 && argv[1]->i < (long)argv[0]->a.size()) return argv[0]->a[argv[1]->i];
        return null_v();
    }
    return null_v();
}
V Interp::eval(const Expr &e, bool strict, const std::vector<std::vector<std::string>> &) {
    switch (e.k) {
    case E_PATH: return lookup_path(e, strict, false);
    case E_STR: return vstr(e.s);
    case E_NUM: return num_value(e.s);
    case E_BOOL: return vbool(e.b);
    case E_SUB: { int cls; feat["subexpression"]++; return eval_call(e.sub, nullptr, true, e, cls, nullptr); }
    default: return null_v();
    }
}
static V eval_hash(Interp &in, const Call &c) {
    std::vector<V> vals;
    for (auto &h : c.hash) vals.push_back(in.eval(*h.second, false, {}));
    V m = vmap();
    for (size_t i = vals.size(); i-- > 0;) { V *f = m->find(c.hash[i].first); if (f) *f = vals[i]; else m->m.push_back({c.hash[i].first, vals[i]}); }
    return m;
}
// a lambda's text with the section's source in place of "%s"
Body fill_hole(const Body &b, const Body &in) {
    Body o;
    for (auto &n : b) {
        if (n->k == N_TEXT && n->text == "%s") { o.insert(o.end(), in.begin(), in.end()); continue; }
        N m = std::make_shared<Node>(*n); m->prog = fill_hole(n->prog, in); m->inverse = fill_hole(n->inverse, in); o.push_back(m);
    }
    return o;
}
// cls: 0 helper, 1 ambiguous (a registered helper was called), 2 ambiguous (a value), 3 simple, 4 a lambda whose text was rendered
V Interp::eval_call(const Call &c, const Opt *blk, bool sub, const Expr &, int &cls, V *) {
    Expr head = as_path(*c.head);
    bool simple = path_simple(head); int d, i;
    bool bp = simple && in_bp(head.parts[0].name, d, i);
    bool helper = !bp && (sub || !c.params.empty() || !c.hash.empty());
    bool eligible = !bp && (simple || helper);
    std::string name = head.parts.empty() ? "" : head.parts[0].name;
    if (eligible && !helper) { if (is_known(name) && !head.parts.empty()) helper = true; else if (flags & F_KNOWN) eligible = false; }
    Opt o; if (blk) o = *blk;
    o.data = data;
    if (helper) {
        cls = 0;
        std::vector<V> argv;
        for (auto &p : c.params) argv.push_back(eval(*p, false, {}));
        o.hash = eval_hash(*this, c);
        o.scope = ctxs.back(); o.name = is_known(name) ? name : path_original(head);
        bool f;
        if (is_known(name)) {
            V r = call_helper(name, argv, o, f);
            if (!f) throw MErr{HANDLEBARS_ERROR, "Invalid known helper: " + name, "render"};
            return r;
        }
        bool hh = simple && has_helper(o.name);
        V val = lookup_path(head, true, hh);
        if (hh) return call_helper(o.name, argv, o, f);
        if (val->t == V_LAM) return run_lambda(val, argv, o);
        feat["helper missing"]++;
        return call_helper("helperMissing", argv, o, f);
    }
    if (eligible) {
        bool hh = has_helper(name), f;
        V val = lookup_path(head, true, hh);
        std::vector<V> none; o.hash = vmap(); o.scope = ctxs.back(); o.name = name;
        if ((flags & F_MSL) && val->t == V_LAM && lam_body.count(val.get())) {
            cls = 4;
            if (blk && blk->src->k == N_INVBLOCK) { feat["lambda: inverted section"]++; return vstr(""); }
            feat[blk ? "lambda: section" : "lambda: variable"]++;
            keep.push_back(fill_hole(lam_body[val.get()], blk ? blk->src->prog : Body()));
            auto sb = bpnames; bpnames.clear(); bool sk = known_on; known_on = false;
            std::string res = exec(analyse_checked(keep.back()), ctxs.back(), nullptr, nullptr);
            bpnames = sb; known_on = sk;
            return vstr(res);
        }
        cls = hh ? 1 : 2;
        V r = hh ? call_helper(name, none, o, f) : val->t == V_LAM ? run_lambda(val, {}, o) : call_helper("helperMissing", none, o, f);
        return r->t != V_NULL ? r : val;
    }
    cls = 3;
    V val = lookup_path(head, true, false);
    if (val->t == V_LAM) { o.scope = ctxs.back(); return run_lambda(val, {ctxs.back()}, o); }
    return val;
}
void Interp::stmt(const AN &n, std::string &out) {
    if (++steps > 20000 || g_show_over) throw MErr{-100, "too many steps", "model"};
    int cls;
    switch (n->k) {
    case N_TEXT: out += n->val; break;
    case N_COMMENT: break;
    case N_MUST: out += vprint(eval_call(n->src->call, nullptr, false, *n->src->call.head, cls, nullptr), !(flags & F_NOESC)); break;
    case N_TRIPLE: case N_AMP: out += vprint(eval_call(n->src->call, nullptr, false, *n->src->call.head, cls, nullptr), false); break;
    case N_BLOCK: case N_INVBLOCK: case N_RAW: {
        Opt o; o.prog = n->prog; o.inv = n->inv_prog; o.src = n->src;
        V r = eval_call(n->src->call, &o, false, *n->src->call.head, cls, nullptr);
        if (cls == 2 || cls == 3) {
            bool f; std::vector<V> a = {r}; Opt o2; o2.prog = n->prog; o2.inv = n->inv_prog; o2.hash = vmap(); o2.scope = ctxs.back(); o2.data = data;
            if (cls == 3) o2.name = path_original(as_path(*n->src->call.head));
            r = call_helper("blockHelperMissing", a, o2, f);
        }
        out += vprint(r, false);
        break;
    }
    case N_PARTIAL: case N_PBLOCK: {
        const Call &c = n->src->call;
        std::string name; bool named = true, dyn = c.head->k == E_SUB;
        if (dyn) { V nv = eval(*c.head, false, {}); if (nv->t == V_STR) name = nv->s; else named = false; feat["dynamic partial"]++; }
        else if (c.head->k == E_PATH) name = path_original(*c.head);
        else if (c.head->k == E_NUM) { V nv = num_value(c.head->s); name = nv->t == V_INT && nv->i ? std::to_string(nv->i) : c.head->s; }
        else name = lit_text(*c.head);
        V arg = !c.params.empty() ? eval(*c.params[0], false, {}) : (flags & F_EXPLICIT) ? null_v() : ctxs.back();
        V hash = eval_hash(*this, c);
        std::string ind = n->indent;
        if (!ind.empty()) feat["indented partial"]++;
        if ((flags & F_PREVIND) && !ind.empty()) { out += ind; ind = ""; }
        const Body *body = nullptr; V pv; int blk = -1;
        if (named) {
            for (auto &p : partials) if (p.first == name) body = &p.second;
            for (auto &p : partial_values) if (p.first == name) pv = p.second;
            if (!body && !pv && name == "@partial-block" && !pbs.empty() && pbs.back() >= 0) { blk = pbs.back(); feat["@partial-block"]++; }
        }
        bool pushed = false;
        if (n->k == N_PBLOCK) {
            Blk b; b.prog = n->prog; b.ctxs = ctxs; b.bps = bps; b.parent = pbs.size() ? pbs.back() : -1; b.known_on = known_on;
            b.prog = n->prog; blks.push_back(b); pbs.push_back(blks.size() - 1); pushed = true;
            blkn.push_back(bpnames);
        }
        if (arg->t == V_MAP && !hash->m.empty()) {
            V m = vmap(arg->m); for (auto &h : hash->m) { V *f = m->find(h.first); if (f) *f = h.second; else m->m.push_back(h); }
            arg = m; feat["partial hash"]++;
        } else if (arg->t == V_NULL) arg = hash;
        else if (!hash->m.empty()) throw MErr{-100, "hash of a partial overlaid on something that is no object", "model"};
        if (!body && !pv && blk < 0) {
            if (pushed) { blk = pbs.back(); feat["partial block fallback"]++; }
            else if (flags & F_COMPAT) { feat["missing partial in compat"]++; break; }
            else { feat["missing partial"]++; throw MErr{HANDLEBARS_ERROR, "The partial " + (named ? name : "(NULL)") + " could not be found", "render"}; }
        }
        if (pv) {
            const char *tn = pv->t == V_NULL ? "null" : pv->t == V_TRUE ? "true" : pv->t == V_FALSE ? "false" : pv->t == V_INT ? "integer" : pv->t == V_FLT ? "float" : pv->t == V_ARR ? "array" : "map";
            throw MErr{HANDLEBARS_ERROR, "The partial " + (named ? name : "(nil)") + " was not a string, was " + tn, "render"};
        }
        std::string res;
        if (body) {
            feat["partial rendered"]++;
            auto sb = bpnames; bpnames.clear(); bool sk = known_on; known_on = false;
            if ((flags & F_COMPAT) && !ind.empty()) { Body ib = indent_body(*body, ind); AP ap = analyse_checked(ib); keep.push_back(ib); if (!body_src(*body).empty()) res = exec(ap, arg, nullptr, nullptr); }
            else if (!body_src(*body).empty()) res = exec(analyse_checked(*body), arg, nullptr, nullptr);
            bpnames = sb; known_on = sk;
        } else {
            Blk b = blks[blk]; auto sc = ctxs, sp = bps; auto sn = bpnames;
            bool sk = known_on; ctxs = b.ctxs; bps = b.bps; known_on = b.known_on; bpnames = blkn[blk]; pbs.push_back(b.parent);
            res = exec(b.prog, arg, nullptr, nullptr);
            pbs.pop_back(); known_on = sk; ctxs = sc; bps = sp; bpnames = sn;
        }
        out += (flags & F_COMPAT) ? res : indent_lines(res, ind);
        if (pushed) pbs.pop_back();
        break;
    }
    }
}
// what the compiler rejects, in the order it meets it
static void check_call(Interp &in, const Call &c, bool sub, std::vector<std::vector<std::string>> &sc);
static void check_expr(Interp &in, const Expr &e, std::vector<std::vector<std::string>> &sc) { if (e.k == E_SUB) check_call(in, e.sub, true, sc); }
static void check_args(Interp &in, const Call &c, std::vector<std::vector<std::string>> &sc) { for (auto &p : c.params) check_expr(in, *p, sc); for (auto &h : c.hash) check_expr(in, *h.second, sc); }
static void check_call(Interp &in, const Call &c, bool sub, std::vector<std::vector<std::string>> &sc) {
    Expr h = as_path(*c.head);
    bool simple = path_simple(h), bp = false;
    if (simple) for (auto &f : sc) for (auto &n : f) if (n == h.parts[0].name) bp = true;
    std::string name = h.parts.empty() ? "" : h.parts[0].name;
    bool helper = !bp && (sub || !c.params.empty() || !c.hash.empty());
    if (!bp && !helper && simple && in.is_known(name)) helper = true;
    if (!helper) return;
    check_args(in, c, sc);
    if (!(in.is_known(name) && !h.parts.empty()) && (in.flags & F_KNOWN)) throw MErr{HANDLEBARS_UNKNOWN_HELPER, "You specified knownHelpersOnly, but used the unknown helper " + name, "compile"};
}
static void check_prog2(Interp &in, const AP &p, std::vector<std::vector<std::string>> &sc) {
    if (!p) return;
    sc.push_back(p->bp);
    for (auto &n : p->st) switch (n->k) {
        case N_MUST: case N_TRIPLE: case N_AMP: check_call(in, n->src->call, false, sc); break;
        case N_BLOCK: case N_INVBLOCK: case N_RAW: check_prog2(in, n->prog, sc); check_prog2(in, n->inv_prog, sc); check_call(in, n->src->call, false, sc); break;
        case N_PARTIAL: case N_PBLOCK:
            if (n->src->call.params.size() > 1) throw MErr{HANDLEBARS_UNSUPPORTED_PARTIAL_ARGS, "Unsupported number of partial arguments", "compile"};
            check_expr(in, *n->src->call.head, sc); check_prog2(in, n->prog, sc); check_args(in, n->src->call, sc); break;
        default: break;
    }
    sc.pop_back();
}
AP Interp::analyse_checked(const Body &b) {
    AP p = analyse(b, flags);
    std::vector<std::vector<std::string>> sc;
    check_prog2(*this, p, sc);
    return p;
}
// the template text with every line but an empty last one indented, as a tree
Body indent_body(const Body &b, const std::string &ind) {
    std::function<Body(const Body &, bool &, bool)> walk = [&](const Body &x, bool &start, bool more) -> Body {
        Body o;
        auto flush = [&] { if (start) { o.push_back(nd_text(ind)); start = false; } };
        for (size_t i = 0; i < x.size(); i++) {
            bool last = i + 1 == x.size() && !more;
            if (x[i]->k == N_TEXT) {
                if (x[i]->text.empty()) continue;
                flush();
                std::string t;
                const std::string &s = x[i]->text;
                for (size_t j = 0; j < s.size(); j++) { t += s[j]; if (s[j] == '\n' && !(last && j + 1 == s.size())) t += ind; }
                o.push_back(nd_text(t));
                continue;
            }
            flush();
            N n = std::make_shared<Node>(*x[i]);
            n->prog = walk(n->prog, start, true); n->inverse = walk(n->inverse, start, true);
            o.push_back(n);
        }
        return o;
    };
    bool st = true;
    return walk(b, st, false);
}
std::string Interp::render(const Body &b, const V &d) {
    ctxs.clear(); bps.clear(); bpnames.clear(); pbs.clear(); blks.clear(); blkn.clear(); depth = 0; steps = 0; calllen = 0; typed = 0; calls.clear(); known_on = true;
    data = vmdata ? vmdata : null_v();
    return exec(analyse_checked(b), d, nullptr, nullptr);
}
Out Interp::run(const Body &b, const V &d) {
    Out o; g_show_over = false;
    try { o.out = render(b, d); o.ok = true; if (g_show_over) throw MErr{-100, "values too large", "model"}; }
    catch (MErr &e) { o.ok = false; o.err.num = e.num; o.err.msg = e.msg; o.stage = e.stage; }
    return o;
}

// ---- helpers registered by the checks, native and as the model sees them --------------------------
thread_local std::vector<std::string> g_calls;
static V by_key(const V &m) { V r = vmap(m->m); std::sort(r->m.begin(), r->m.end(), [](auto &a, auto &b) { return a.first < b.first; }); return r; }
static std::string call_text(const std::string &n, const std::vector<V> &argv, const V &hash, const V &scope) {
    std::string s = n + "(";
    for (size_t i = 0; i < argv.size(); i++) { if (i) s += ","; s += vtyped(argv[i]); }
    s += ")";
    if (hash && hash->t == V_MAP && !hash->m.empty()) s += "#" + vtyped(by_key(hash));
    char b[16]; snprintf(b, 16, "@%04x", (unsigned)(hash64(vtyped(scope)) & 0xffff));
    return s + b;
}
const std::vector<std::string> TEST_HELPERS = {"dump", "safe", "id", "nul", "blk", "on", "blkp", "rep", "arr", "cat", "thr"};
// how a helper behaves, over either implementation
struct HB {
    std::function<std::string(bool inv, const V &ctx, const V *data, const V &bp)> run;   // runs a program
};
static V helper_behave(const std::string &n, const std::vector<V> &argv, const V &hash, const V &scope, const V &data, const std::string &name, HB &hb) {
    V a0 = argv.empty() ? vnull() : argv[0];
    if (n == "dump") return vstr(call_text(name, argv, hash, scope));
    if (n == "safe") return vstr(to_str(a0), true);
    if (n == "id") return a0;
    if (n == "nul") return vnull();
    if (n == "blk") return vstr("<" + hb.run(false, scope, nullptr, nullptr) + "|" + hb.run(true, scope, nullptr, nullptr) + ">");
    if (n == "on") return vstr(hb.run(false, a0, nullptr, nullptr));
    if (n == "blkp") {
        V d = vmap(); if (data->t == V_MAP) d->m = data->m;
        if (hash->t == V_MAP) for (auto &h : hash->m) { V *f = d->find(h.first); if (f) *f = h.second; else d->m.push_back(h); }
        V *f = d->find("d0"); if (f) *f = vstr("D"); else d->m.push_back({"d0", vstr("D")});
        return vstr(hb.run(false, scope, &d, varr(argv)));
    }
    if (n == "rep") { std::string s; for (int i = 0; i < (a0->t == V_INT ? (int)(((a0->i % 4) + 4) % 4) : 2); i++) { V bp = varr({vint(i)}); s += hb.run(i & 1, scope, nullptr, bp); } return vstr(s); }
    if (n == "arr") return varr(argv);
    if (n == "cat") { std::string s; for (auto &x : argv) s += to_str(x); return vstr(s); }
    return vnull();
}
V helper_model(const std::string &n, std::vector<V> &argv, Interp::Opt &o, Interp &in) {
    g_typed = 0; in.calls.push_back(call_text(n, argv, o.hash, o.scope)); in.typed += g_typed;       // what is shown for the scope counts too, for the time it takes
    if ((in.calllen += in.calls.back().size()) > 200000 || in.typed > 10000000) throw MErr{-100, "arguments too large", "model"};
    if (n == "thr") throw MErr{HANDLEBARS_ERROR, "helper failed: " + to_str(argv.empty() ? vnull() : argv[0]), "render"};
    HB hb; hb.run = [&](bool inv, const V &ctx, const V *d, const V &bp) { return in.exec(inv ? o.inv : o.prog, ctx, d, bp); };
    return helper_behave(n, argv, o.hash ? o.hash : vmap(), o.scope, o.data, o.name, hb);
}
template <int I> static HV *native_helper(int argc, HV *argv, handlebars_options *options, handlebars_vm *vm, HV *rv) {
    const std::string &n = TEST_HELPERS[I];
    HC *c = (HC *)vm;
    // (no longjmp may cross live C++ objects here: everything that can fail runs guarded)
    std::string errmsg; bool thrown = false;
    {
        std::vector<V> av; for (int i = 0; i < argc; i++) av.push_back(from_hbs(c, HANDLEBARS_VALUE_ARRAY_AT(argv, i)));
        V hash = options->hash ? from_hbs(c, options->hash) : vmap(), scope = from_hbs(c, options->scope), data = options->data ? from_hbs(c, options->data) : vnull();
        g_calls.push_back(call_text(n, av, hash, scope));
        if (n == "thr") { errmsg = "helper failed: " + to_str(av.empty() ? vnull() : av[0]); thrown = true; }
        else if (n == "id") { if (argc) handlebars_value_value(rv, argv); }
        else {
            std::string name = options->name ? sv(options->name) : "";
            HB hb;
            Err err;
            hb.run = [&](bool inv, const V &ctx, const V *d, const V &bp) -> std::string {
                if (thrown) return "";
                HVal hd, hbp, hc; HS *volatile s = nullptr;
                if (n == "on" && argc) handlebars_value_value(hc, argv); else if (ctx == scope) handlebars_value_value(hc, options->scope); else to_hbs(c, ctx, hc);
                if (d && *d) {          // data given: what is there already stays the same object
                    handlebars_map *m = handlebars_map_ctor(c, 8);
                    if (handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP) each(options->data, [&](handlebars_value_iterator *it) { m = handlebars_map_update(m, it->key, it->cur); });
                    if (handlebars_value_get_type(options->hash) == HANDLEBARS_VALUE_TYPE_MAP) each(options->hash, [&](handlebars_value_iterator *it) { m = handlebars_map_update(m, it->key, it->cur); });
                    HVal t; handlebars_value_str(t, mks(c, "D")); m = handlebars_map_update(m, mks(c, "d0"), t);
                    handlebars_value_map(hd, m);
                }
                if (bp) {
                    if (n == "blkp") { handlebars_stack *st = handlebars_stack_ctor(c, argc + 1); for (int i = 0; i < argc; i++) st = handlebars_stack_push(st, HANDLEBARS_VALUE_ARRAY_AT(argv, i)); handlebars_value_array(hbp, st); }
                    else to_hbs(c, bp, hbp);
                }
                if (!guard(c, err, [&] { s = handlebars_vm_execute_program_ex(vm, inv ? options->inverse : options->program, hc, d ? hd.p() : nullptr, bp ? hbp.p() : nullptr); })) { thrown = true; errmsg = "\1"; return ""; }
                return sv(s);
            };
            V r = n == "arr" ? nullptr : helper_behave(n, av, hash, scope, data, name, hb);
            if (!thrown) {
                if (n == "arr") { handlebars_stack *st = handlebars_stack_ctor(c, argc + 1); for (int i = 0; i < argc; i++) st = handlebars_stack_push(st, HANDLEBARS_VALUE_ARRAY_AT(argv, i)); handlebars_value_array(rv, st); }
                else to_hbs(c, r, rv);
            }
        }
    }
    if (thrown) {
        if (errmsg == "\1") { std::string().swap(errmsg); longjmp(*c->e->jmp, c->e->num); }
        HS *m = mks(c, errmsg); std::string().swap(errmsg);
        handlebars_throw(c, HANDLEBARS_ERROR, "%s", hbs_str_val(m));
    }
    return rv;
}
HelperFn find_test_helper(const std::string &n) {
    static const HelperFn f[] = {native_helper<0>, native_helper<1>, native_helper<2>, native_helper<3>, native_helper<4>, native_helper<5>, native_helper<6>, native_helper<7>, native_helper<8>, native_helper<9>, native_helper<10>};
    for (size_t i = 0; i < TEST_HELPERS.size(); i++) if (TEST_HELPERS[i] == n) return f[i];
    return nullptr;
}
