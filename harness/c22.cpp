// C22: what is accepted, what is rejected, and where. The language is specified here by a scanner and a predictive
// recognizer of their own, which tell whether a text is a template and, if not, the first token that cannot stand where it stands.
#include "compose.h"
namespace {
struct Tok { std::string type, text; int l1, l2; std::string val; };
const char *WSC = " \t\r\n";
bool is_ws(char c) { return c && strchr(WSC, c); }
bool idc(unsigned char c) { return !(c == ' ' || c == '\r' || c == '\n' || c == '\t' || c == '!' || c == '"' || c == '#' || (c >= '%' && c <= ',') || c == '.' || c == '/' || (c >= ';' && c <= '>') || c == '@' || (c >= '[' && c <= '^') || c == '`' || (c >= '{' && c <= '~')); }
bool look(char c) { return c && strchr("=~} \r\n\t/.)|", c); }
bool litlook(char c) { return c && strchr("~} \r\n\t)", c); }
struct Scan {
    const std::string &t; size_t p = 0; int line = 1; std::vector<Tok> out; bool bad = false, odd = false;
    Scan(const std::string &x) : t(x) {}
    bool at(const char *x, size_t o = 0) const { return t.compare(p + o, strlen(x), x) == 0; }
    char ch(size_t o = 0) const { return p + o < t.size() ? t[p + o] : 0; }
    void emit(const std::string &type, size_t n, const std::string *val = nullptr) { std::string x = t.substr(p, n); int l1 = line; for (char c : x) line += c == '\n'; out.push_back({type, x, l1, line, val ? *val : x}); p += n; }
    void invalid() { emit("INVALID", 1); bad = true; }
    void content() {   // up to the next tag; what exactly is escaped decides whether a tag begins
        size_t n = 0; auto c = [&](size_t k) { return p + k < t.size() ? t[p + k] : 0; };
        auto mu = [&](size_t k) { return c(k) == '{' && c(k + 1) == '{'; };
        auto run = [&](size_t k) { while (p + k < t.size() && t[p + k] && !strchr("{\\\r\n", t[p + k])) k++; while (p + k < t.size() && (t[p + k] == '\r' || t[p + k] == '\n')) k++; return k; };
        size_t r = run(0);
        if (c(r) == '\\' && c(r + 1) == '\\' && mu(r + 2)) { emit("CONTENT", r + 2); tag(); return; }
        if (r) { emit("CONTENT", r); return; }
        if (c(0) == '\\' && mu(1)) { n = c(3) == '{' ? 4 : 3; n = run(n); emit("CONTENT", n); return; }
        if (mu(0)) { tag(); return; }
        emit("CONTENT", 1);
    }
    bool raw() {
        int depth = 1;
        while (p < t.size()) {
            if (at("{{{{/")) { size_t k = p + 5; while (k < t.size() && idc(t[k])) k++; if (k > p + 5 && t.compare(k, 4, "}}}}") == 0) { std::string name = t.substr(p + 5, k - p - 5); depth--; emit(depth ? "CONTENT" : "END_RAW_BLOCK", k + 4 - p, &name); if (!depth) return true; continue; } }
            if (at("{{{{") && p + 4 < t.size() && ch(4) != '/') { depth++; emit("CONTENT", 4); continue; }
            emit("CONTENT", 1);
        }
        return false;
    }
    void quoted(char q, const char *type) {
        // to the first closing character without a backslash before it, or to the last one at all
        size_t last = std::string::npos; for (size_t k = p + 1; k < t.size(); k++) if (t[k] == q) { last = k; if (t[k - 1] != '\\' || k - 1 == p) break; }
        if (last == std::string::npos) { invalid(); return; }
        size_t n = last + 1 - p; std::string in = t.substr(p + 1, n - 2), v = in;
        for (size_t i = 0; i < in.size(); i++) if (in[i] == '\\') { if (i + 1 >= in.size() || (q != ']' && in[i + 1] != q && in[i + 1] != '\\')) odd = true; i++; }
        if (q != ']') { v.clear(); for (size_t i = 0; i < in.size(); i++) { if (in[i] == '\\' && i + 1 < in.size()) i++; v += in[i]; } }
        else { v.clear(); for (size_t i = 0; i < in.size(); i++) { if (in.compare(i, 2, "\\]") == 0) i++; v += in[i]; } }
        emit(type, n, &v);
    }
    void tag() {
        while (p < t.size() && !bad) {
            char c0 = ch();
            if (is_ws(c0)) { line += c0 == '\n'; p++; continue; }
            if (at("{{{{")) { emit("OPEN_RAW_BLOCK", 4); continue; }
            if (at("}}}}")) { emit("CLOSE_RAW_BLOCK", 4); raw(); return; }
            if (at("{{")) {
                size_t k = ch(2) == '~' ? 3 : 2; char d = ch(k);
                if (d == '!') {
                    if (at("--", k + 1)) {
                        size_t e = std::string::npos; int len = 0; for (size_t i = p + k + 1; i < t.size(); i++) { if (t.compare(i, 4, "--}}") == 0) { e = i; len = 4; break; } if (t.compare(i, 5, "--~}}") == 0) { e = i; len = 5; break; } }
                        if (e == std::string::npos) { invalid(); return; }
                        emit("COMMENT", e + len - p); return;
                    }
                    size_t e = t.find("}}", p + k); if (e == std::string::npos) { invalid(); return; }
                    emit("COMMENT", e + 2 - p); return;
                }
                if (d == '>') { emit("OPEN_PARTIAL", k + 1); continue; }
                if (d == '#' && ch(k + 1) == '>') { emit("OPEN_PARTIAL_BLOCK", k + 2); continue; }
                if (d == '#') { emit("OPEN_BLOCK", ch(k + 1) == '*' ? k + 2 : k + 1); continue; }
                if (d == '/') { emit("OPEN_ENDBLOCK", k + 1); continue; }
                auto close_after = [&](size_t j) { while (is_ws(ch(j))) j++; if (ch(j) == '~') j++; return at("}}", j) ? j + 2 : (size_t)0; };
                if (d == '^') { if (size_t n = close_after(k + 1)) { emit("INVERSE", n); return; } emit("OPEN_INVERSE", k + 1); continue; }
                size_t e = k; while (is_ws(ch(e))) e++;
                if (at("else", e)) { if (size_t n = close_after(e + 4)) { emit("INVERSE", n); return; } emit("OPEN_INVERSE_CHAIN", e + 4); continue; }
                if (d == '{') { emit("OPEN_UNESCAPED", k + 1); continue; }
                if (d == '&' || d == '*') { emit("OPEN", k + 1); continue; }
                emit("OPEN", k); continue;
            }
            if (at("}}}")) { emit("CLOSE_UNESCAPED", 3); return; }
            if (at("}~}}")) { emit("CLOSE_UNESCAPED", 4); return; }
            if (at("~}}")) { emit("CLOSE", 3); return; }
            if (at("}}")) { emit("CLOSE", 2); return; }
            if (c0 == '(') { emit("OPEN_SEXPR", 1); continue; } if (c0 == ')') { emit("CLOSE_SEXPR", 1); continue; }
            if (c0 == '=') { emit("EQUALS", 1); continue; } if (c0 == '@') { emit("DATA", 1); continue; } if (c0 == '|') { emit("CLOSE_BLOCK_PARAMS", 1); continue; }
            if (at("..")) { emit("ID", 2); continue; }
            if (c0 == '.' && look(ch(1))) { emit("ID", 1); continue; }
            if (c0 == '.' || c0 == '/') { emit("SEP", 1); continue; }
            if (c0 == '"') { quoted('"', "STRING"); continue; } if (c0 == '\'') { quoted('\'', "STRING"); continue; } if (c0 == '[') { quoted(']', "ID"); continue; }
            if (at("as")) { size_t k = 2; while (is_ws(ch(k))) k++; if (k > 2 && ch(k) == '|') { emit("OPEN_BLOCK_PARAMS", k + 1); continue; } }
            size_t num = c0 == '-' ? 1 : 0, d0 = num; while (isdigit((unsigned char)ch(num))) num++;
            if (num > d0) { size_t f = num; if (ch(f) == '.' && isdigit((unsigned char)ch(f + 1))) { f++; while (isdigit((unsigned char)ch(f))) f++; } if (litlook(ch(f))) { emit("NUMBER", f); continue; } }
            size_t n = 0; while (p + n < t.size() && idc(t[p + n])) n++;
            if (n && look(ch(n))) { std::string w = t.substr(p, n); if (litlook(ch(n)) && (w == "true" || w == "false" || w == "null" || w == "undefined")) emit(w == "null" ? "NUL" : w == "undefined" ? "UNDEFINED" : "BOOLEAN", n); else emit("ID", n); continue; }
            invalid();
        }
    }
    void scan() { while (p < t.size() && !bad) content(); out.push_back({"END", "", line, line, ""}); }
};
struct Bad { int l1, l2; std::string what; bool syntax; std::string open, close; int close_line; };
struct Rec {
    const std::vector<Tok> &t; size_t i = 0; int blocks = 0, deepest = 0; std::set<std::string> used;
    Rec(const std::vector<Tok> &x) : t(x) {}
    const std::string &ty(size_t o = 0) const { return t[std::min(i + o, t.size() - 1)].type; }
    [[noreturn]] void err() { throw Bad{t[i].l1, t[i].l2, "unexpected " + t[i].type + " " + quote(t[i].text), true, "", "", 0}; }
    const Tok &eat(const char *type) { if (ty() != type) err(); return t[i++]; }
    std::string path(bool data) {
        size_t first = i; std::string o = data ? "@" : ""; int n = 0; std::string wrong; bool more = false;
        do {
            if (more) { o += eat("SEP").text; }
            const Tok &k = eat("ID"); o += k.val;
            if (k.text[0] == '[') n++;
            else if (k.text == ".." || k.text == "." || k.text == "this") { if (n && wrong.empty()) wrong = o; }
            else n++;
            more = ty() == "SEP";
        } while (more);
        if (wrong.size()) throw Bad{t[first].l1, t[i - 1].l2, "Invalid path: " + wrong, false, "", "", 0};
        used.insert("path"); return o;
    }
    std::string helper_name() {
        if (ty() == "DATA") { i++; return path(true); }
        if (ty() == "ID") return path(false);
        static const std::set<std::string> L = {"STRING", "NUMBER", "BOOLEAN", "UNDEFINED", "NUL"};
        if (!L.count(ty())) err();
        used.insert("literal"); return t[i++].val;
    }
    void sexpr() { eat("OPEN_SEXPR"); used.insert("subexpression"); intermediate(); eat("CLOSE_SEXPR"); }
    void param() { if (ty() == "OPEN_SEXPR") sexpr(); else helper_name(); }
    bool starts_param() { static const std::set<std::string> P = {"OPEN_SEXPR", "DATA", "ID", "STRING", "NUMBER", "BOOLEAN", "UNDEFINED", "NUL"}; return P.count(ty()) != 0; }
    void params_hash() {
        while (starts_param() && !(ty() == "ID" && ty(1) == "EQUALS")) param();
        if (ty() == "ID") { used.insert("hash"); while (ty() == "ID") { i++; eat("EQUALS"); param(); } }
    }
    std::string intermediate() { std::string n = helper_name(); params_hash(); return n; }
    std::string intermediate4() { std::string n = intermediate(); if (ty() == "OPEN_BLOCK_PARAMS") { used.insert("block params"); i++; eat("ID"); if (ty() == "ID") i++; eat("CLOSE_BLOCK_PARAMS"); } return n; }
    bool starts_statement() { static const std::set<std::string> S = {"OPEN", "OPEN_UNESCAPED", "OPEN_BLOCK", "OPEN_INVERSE", "OPEN_RAW_BLOCK", "OPEN_PARTIAL", "OPEN_PARTIAL_BLOCK", "CONTENT", "COMMENT"}; return S.count(ty()) != 0; }
    void program(int d) { deepest = std::max(deepest, d); while (starts_statement()) statement(d); }
    // returns whether there was an inverse
    bool inverse_chain(int d) {
        bool any = false;
        while (ty() == "OPEN_INVERSE_CHAIN") { used.insert("else chain"); any = true; i++; intermediate4(); eat("CLOSE"); program(d); }
        if (ty() == "INVERSE") { used.insert("else"); any = true; i++; program(d); }
        return any;
    }
    void close(const std::string &open, int open_line, bool names = true) {
        eat("OPEN_ENDBLOCK"); std::string n = helper_name(); eat("CLOSE"); (void)names;
        if (n != open) throw Bad{open_line, open_line, open + " doesn't match " + n, true, open, n, t[i - 1].l2};
    }
    void statement(int d) {
        const Tok &o = t[i];
        if (o.type == "CONTENT" || o.type == "COMMENT") { i++; return; }
        i++; blocks++;
        if (o.type == "OPEN") { intermediate(); eat("CLOSE"); used.insert("mustache"); }
        else if (o.type == "OPEN_UNESCAPED") { intermediate(); eat("CLOSE_UNESCAPED"); used.insert("triple mustache"); }
        else if (o.type == "OPEN_BLOCK" || o.type == "OPEN_INVERSE") {
            std::string n = intermediate4(); eat("CLOSE"); program(d + 1); bool inv = inverse_chain(d + 1); used.insert("block");
            close(n, o.l1);
            if (inv && o.text.back() == '*') throw Bad{o.l1, t[i - 1].l2, "Unexpected inverse block on decorator", true, "", "", 0};
        } else if (o.type == "OPEN_RAW_BLOCK") {
            std::string n = intermediate4(); eat("CLOSE_RAW_BLOCK"); while (ty() == "CONTENT") i++; std::string e = eat("END_RAW_BLOCK").val; used.insert("raw block");
            if (e != n) throw Bad{o.l1, o.l1, n + " doesn't match " + e, false, n, e, t[i - 1].l2};
        } else {
            std::string n; if (ty() == "OPEN_SEXPR") sexpr(); else n = helper_name();
            params_hash(); eat("CLOSE"); used.insert(o.type == "OPEN_PARTIAL" ? "partial" : "partial block");
            if (o.type == "OPEN_PARTIAL_BLOCK") { program(d + 1); close(n, o.l1); }
        }
    }
    void all() { program(0); eat("END"); }
};
void run(Src &s, Case &c) {
    std::string tmpl; std::string how = "none"; int kind = s.draw(4);
    if (kind == 0) { GenOpt o; o.ws = true; o.strips = true; o.partial = 2; o.pblock = 2; o.raw = 1; o.hcall = 2; o.hblock = 2; o.nodes = 16; o.helpers = {"dump", "x1"}; o.pnames = {"p1", "part two"}; Gen g(s, o); V data = g.data(); Body b = gen_template(g, data); tmpl = body_src(b); }
    else if (kind == 3 && s.draw(3) == 2) { static const std::vector<std::string> bits = {"{{", "}}", "a", "b", " ", "\n", "#", "/", "^", "else", "{", "}", "(", ")", "=", "|", "as |", "\"", "'", "[", "]", ".", "..", "!", "--", ">", "&", "*", "~", "@", "1", "-", "true", "null", "\\", "{{{{", "}}}}", "{{#a}}", "{{/a}}", "{{/", "{{#", "text"}; int n = 1 + s.draw(14); while (n--) tmpl += s.pick(bits); how = "soup"; }
    else { Make m{s, 14, s.draw(2) != 0}; tmpl = m.body(0); if (tmpl.empty()) tmpl = m.stmt(0); if (s.draw(4) == 3) tmpl = std::string(s.draw(40), '\n') + tmpl; }
    if (how == "none" && s.draw(3)) { tmpl = damage(s, tmpl, how); if (s.draw(6) == 5) { std::string h2; tmpl = damage(s, tmpl, h2); how += "+"; } }
    c.desc = "template (" + how + "): " + quote(tmpl);
    Scan sc(tmpl); sc.scan(); Rec rec(sc.out); bool ok = true; Bad bad{0, 0, "", true, "", "", 0};
    try { rec.all(); } catch (Bad &b) { ok = false; bad = b; }
    if (sc.odd) c.discard("escapes other than of quotes");   // what they stand for is not a matter of this property
    Ctx ctx; Err err; handlebars_ast_node *volatile ast = nullptr; std::string msg, msgjs; handlebars_locinfo loc{};
    bool good = guard(ctx, err, [&] { handlebars_parser *p = handlebars_parser_ctor(ctx); ast = handlebars_parse_ex(p, mks(ctx, tmpl), s.draw(4) == 3 ? F_IGNSTD : 0); });
    if (good) { if (!ast) c.fail("parsing neither failed nor gave a tree"); if (!ok) c.fail("accepted, but " + bad.what + " on line " + std::to_string(bad.l1)); }
    else {
        loc = handlebars_error_loc(ctx); msg = handlebars_error_message(ctx); msgjs = handlebars_error_message_js(ctx);
        if (ok) c.fail("rejected a template of the grammar: " + msg);
        if (bad.syntax ? err.num != HANDLEBARS_PARSEERR : err.num != HANDLEBARS_PARSEERR && err.num != HANDLEBARS_ERROR) c.fail("the error is not a parse error but number " + std::to_string(err.num) + ": " + msg + "; expected " + bad.what);
        auto in = [](int l, int a, int b) { return l >= a && l <= b; };
        std::string lines = bad.l1 == bad.l2 ? std::to_string(bad.l1) : std::to_string(bad.l1) + " to " + std::to_string(bad.l2);
        if (!in(loc.first_line, bad.l1, bad.l2)) c.fail("the error " + quote(msg) + " is located on line " + std::to_string(loc.first_line) + ", but " + bad.what + " on line " + lines);
        if (bad.close_line ? loc.last_line != bad.close_line : !in(loc.last_line, loc.first_line, bad.l2)) c.fail("the error " + quote(msg) + " is said to end on line " + std::to_string(loc.last_line) + ", but " + bad.what + " on line " + (bad.close_line ? std::to_string(bad.close_line) : lines));
        if (msg.find(" on line " + std::to_string(loc.last_line) + ",") == std::string::npos) c.fail("the message does not name line " + std::to_string(loc.last_line) + ": " + quote(msg));
        if (msgjs.find("on line " + std::to_string(loc.first_line) + ",") == std::string::npos) c.fail("the message does not name line " + std::to_string(loc.first_line) + ": " + quote(msgjs));
        if (bad.close_line) { auto z = [](const std::string &x) { return x.substr(0, x.find('\0')); }; if (bad.open.find('\0') == std::string::npos && bad.close.find('\0') == std::string::npos) for (auto &m : {msg, msgjs}) { size_t a = m.find(bad.open), b = m.rfind(bad.close); if (a == std::string::npos || b == std::string::npos) c.fail("the message does not name " + quote(z(bad.open)) + " and " + quote(z(bad.close)) + ": " + quote(m)); } }
        c.label("rejected"); c.label(bad.close_line ? "mismatched names" : !bad.syntax ? "invalid path" : sc.out.back().l1 == bad.l1 && bad.what.find("END") != std::string::npos ? "unfinished" : "unexpected token");
        c.label("line of the error", bad.l1);
        // nothing malformed is ever rendered
        if (s.draw(4) == 3) { Render r; r.tmpl = tmpl; r.data = vmap({}); Out o = render(r); if (o.ok) c.fail("rendered as " + quote(o.out) + ", but " + bad.what); }
    }
    if (ok) c.label("accepted");
    for (auto &u : rec.used) c.label(u); c.label(how);
    c.nontrivial = ok ? rec.used.size() >= 3 : sc.out.size() >= 5 && rec.i >= 2;
}
Reg r({"C22", "templates composed from the grammar or generated with their data, over many lines, most of them damaged once or twice (inserted, deleted, replaced pieces, dropped, renamed and copied tags, truncation) and free sequences of tokens; a scanner and recognizer of the language decide what is accepted and which token is the first that cannot stand; non-trivial: three constructs accepted, or rejected after the second token", run, 450000, 8000000});
}
