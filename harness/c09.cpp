#include "gen.h"
// adjacent pieces of text are one text
static std::string join_content(const std::string &l) {
    std::string o; size_t i = 0;
    while (i < l.size()) {
        if (l.compare(i, 4, "' ]\n") == 0) {
            size_t j = i + 4; while (j < l.size() && l[j] == ' ') j++;
            if (l.compare(j, 10, "CONTENT[ '") == 0) {
                size_t k = o.rfind("CONTENT[ '"), b = k == std::string::npos ? 0 : o.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1;
                if (k != std::string::npos && o.find_first_not_of(' ', b) == k && k - b == j - i - 4) { i = j + 10; continue; }
            }
        }
        o += l[i++];
    }
    return o;
}
// templates written freely from the grammar, most of them valid, by spellings the structured generator does not use
struct Wild {
    Src &s; int left = 14; bool delims = false;
    Wild(Src &x) : s(x) {}
    std::string ws() { static const std::vector<std::string> w = {" ", " ", "  ", "\n", "\t ", " \r\n"}; return s.pick(w); }
    std::string ows() { return s.draw(4) ? "" : ws(); }
    std::string st() { return s.draw(6) ? "" : "~"; }
    std::string text() {
        static const std::vector<std::string> t = {"a", "b c", " ", "\n", "  \n", "{", "}", "\\", "\\\\", "\\{{x}}", "\\{{{y}}}", "}}", "'", "\"", "\\{{", "x\\", "&<", "|", "~", "\r\n", "\\{{#b}}z\\{{/b}}", "\\n", "--", "!", "\xc3\xa9"};
        std::string o; int n = s.range(1, 3); while (n--) o += s.pick(t); return o;
    }
    std::string idn() { static const std::vector<std::string> t = {"a", "b", "c", "foo", "items", "o", "x-y", "a1", "$v", "_u", "\xc3\xa9", "0", "12", "a:b"}; return s.pick(t); }
    std::string seg() {
        static const std::vector<std::string> t = {"[a]", "[x y]", "[foo]", "[]", "[a.b]", "[]x]", "[1]", "[\"]", "[{{]", "[}}]", "[else]", "[true]", "[..]", "[this]", "[a\\b]", "[]", "[|]", "[=]"};
        if (s.draw(4) == 3) { std::string x = s.pick(t); return x == "[]x]" ? "[x\\]y]" : x; }
        return idn();
    }
    std::string path() {
        std::string o; static const std::vector<std::string> seps = {".", "/", "."};
        switch (s.draw(9)) { case 5: o = "../"; break; case 6: o = "../../"; break; case 7: o = "this" + s.pick(seps); break; case 8: o = "./"; break; default: ; }
        if (s.draw(8) == 7) o = "@" + (s.draw(2) ? std::string("../") : "");
        int n = s.weighted({6, 3, 1}) + 1; o += seg();
        for (int i = 1; i < n; i++) o += s.pick(seps) + seg();
        switch (s.draw(14)) { case 12: return "."; case 13: return ".."; case 11: return "this"; default: return o; }
    }
    std::string str() {
        static const std::vector<std::string> t = {"", "a", "foo", "x y", "\\\"", "\\'", "\\\\", "\\n", "{{", "}}", "\n", "'", "&", "\\x", "[", "]", "../a", "12"};
        char q = s.draw(2) ? '\'' : '"'; std::string o(1, q); int n = s.draw(4);
        while (n--) { std::string x = s.pick(t); if (x == std::string(1, q)) x = "."; o += x; }
        // the closing quote must not be taken for an escaped one
        while (o.size() > 1 && o.back() == '\\') o.pop_back();
        return o + q;
    }
    std::string lit() { static const std::vector<std::string> t = {"1", "0", "-1", "1.5", "-0.25", "true", "false", "null", "undefined", "007", "12345678901234567890"}; return s.draw(2) ? str() : s.pick(t); }
    std::string sexpr(int d) { return "(" + ows() + call(d + 1, true) + ows() + ")"; }
    std::string arg(int d) { switch (s.draw(5)) { case 0: case 1: return path(); case 2: case 3: return lit(); default: return d < 3 ? sexpr(d) : path(); } }
    std::string key() { static const std::vector<std::string> t = {"k", "a", "[x y]", "z1", "[]", "class"}; return s.pick(t); }
    std::string args(int d, int many) {
        std::string o; int n = many ? s.draw(3) : 0; for (int i = 0; i < n; i++) o += ws() + arg(d);
        n = s.draw(3) == 2 ? s.range(1, 2) : 0; for (int i = 0; i < n; i++) o += ws() + key() + "=" + arg(d);
        return o;
    }
    std::string head(int d) { (void)d; return s.draw(12) == 11 ? lit() : path(); }
    std::string call(int d, bool) { return head(d) + args(d, s.draw(2)); }
    std::string bp() { switch (s.draw(6)) { case 4: return " as |" + idn() + "|"; case 5: return " as |" + idn() + " " + idn() + "|"; default: return ""; } }
    std::string o_(const std::string &k) { return "{{" + st() + k + ows(); }
    std::string c_() { return ows() + st() + "}}"; }
    std::string body(int d) { std::string o; int n = s.draw(d > 3 ? 2 : 4); while (n--) o += stmt(d + 1); return o; }
    std::string inverse(int d) {
        std::string o; int n = s.draw(3);
        switch (n) {
        case 1: o = (s.draw(2) ? "{{" + st() + ows() + "else" : "{{" + st() + "^") + c_() + body(d); break;
        case 2: o = "{{" + st() + ows() + "else " + call(d, true) + bp() + c_() + body(d) + (s.draw(2) ? inverse(d) : ""); break;
        default: ;
        }
        return o;
    }
    std::string stmt(int d) {
        if (left-- <= 0) return text();
        if (delims && s.draw(5) == 4) { static const std::vector<std::string> t = {"{{=<% %>=}}<% foo.a %> {{x}} <%={{ }}=%>", "{{=| |=}}|#c|{{y}}{|/c||={{ }}=|", "{{=<< >>=}}<<! n >>}}<<&a>><<={{ }}=>>"}; return s.pick(t); }
        switch (s.weighted({8, 6, 2, 2, 3, 6, 2, 2, 2, 1, 1, 1})) {
        case 0: return text();
        case 1: return o_("") + call(d, true) + c_();
        case 2: return "{{" + st() + "{" + ows() + call(d, true) + ows() + "}" + st() + "}}";
        case 3: return o_("&") + call(d, true) + c_();
        case 4: { static const std::vector<std::string> t = {"!", "! a ", "!a-", "!--x--", "!-- a}} --", "!--~", "!-", "!a--b", "!-- -", "!--x-", "! a~b", "!a--", "!\n", "!\\"};
                  std::string x = s.pick(t); bool lng = x.compare(0, 3, "!--") == 0; if (lng && (x.size() < 5 || x.compare(x.size() - 2, 2, "--"))) x += "--"; return "{{" + st() + x + st() + "}}"; }
        case 5: { std::string h = head(d); return o_("#") + h + args(d, 1) + bp() + c_() + body(d) + inverse(d) + o_("/") + h + c_(); }
        case 6: { std::string h = head(d); return "{{" + st() + "^" + ows() + h + args(d, 1) + bp() + c_() + body(d) + (s.draw(3) == 2 ? "{{" + st() + "else" + c_() + body(d) : "") + o_("/") + h + c_(); }
        case 7: return o_(">") + (s.draw(3) ? head(d) : sexpr(d)) + args(d, 1) + c_();
        case 8: { bool x = s.draw(3) == 2; std::string h = x ? sexpr(d) : head(d), e = x ? "\"\"" : h; return o_("#>") + h + args(d, 1) + c_() + body(d) + o_("/") + e + c_(); }
        case 9: { std::string h = idn(); static const std::vector<std::string> t = {"", "a", "{{x}}", "{{{{b}}}} {{{{/b}}}}", "\\{{", "\\\\{{z", " \n ", "{", "{{{", "}}}}", "{{/if}}", "\\"};
                  std::string o = "{{{{" + ows() + h + args(d, 1) + ows() + "}}}}"; int n = s.draw(3); while (n--) o += s.pick(t); return o + "{{{{/" + h + "}}}}"; }
        case 10: return "{{" + st() + "*" + ows() + call(d, true) + c_();
        default: { std::string h = path(); return "{{" + st() + "#*" + ows() + h + args(d, 1) + c_() + body(d) + o_("/") + h + c_(); }
        }
    }
};
static bool parse(Ctx &c, const std::string &tmpl, unsigned long flags, std::string &listing, std::string &text, Err &err) {
    HS *volatile l = nullptr, *volatile t = nullptr;
    if (!guard(c, err, [&] {
        handlebars_parser *p = handlebars_parser_ctor(c);
        handlebars_ast_node *ast = handlebars_parse_ex(p, mks(c, tmpl), flags);
        l = handlebars_ast_print(c, ast);
        t = handlebars_ast_to_string(c, ast);
    })) return false;
    listing = join_content(sv(l)); text = sv(t);
    if (strlen(hbs_str_val(t)) != text.size()) text += "<terminator>";
    return true;
}
static bool has(const std::string &s, const char *x) { return s.find(x) != std::string::npos; }
static void run(Src &s, Case &c) {
    TCase t; V data; Render r;
    unsigned long fl = 0; bool wild = s.draw(2);
    if (s.draw(6) == 5) fl |= F_IGNSTD;
    if (!wild) {
        GenOpt o; o.text = 10; o.must = 8; o.triple = 2; o.amp = 2; o.comment = 3; o.partial = 3; o.pblock = 2; o.raw = 2; o.hcall = 3; o.hblock = 3; o.inv = 2; o.pbref = 1; o.depth = 4; o.nodes = 22; o.missing = 6;
        o.helpers = {"dump", "id", "blk", "cat"}; o.pnames = {"p1", "part two", "12"}; o.ws = s.draw(3) != 0; o.strips = s.draw(3) != 0; o.literal_braces = s.draw(2); o.safe = true;
        gen_case(s, o, fl, t); r = t.r;
    } else {
        if (s.draw(6) == 5) fl |= F_COMPAT;
        Wild w(s); w.delims = fl & F_COMPAT; std::string x; int n = s.range(1, 4); while (n--) x += w.stmt(0);
        r.tmpl = x; r.flags = fl; r.helpers = {"dump", "id", "blk"};
        GenOpt o; Gen g(s, o);
        r.data = vmap({{"a", vstr("<A>")}, {"b", varr({vint(1), vstr("two")})}, {"c", vbool(true)}, {"foo", vmap({{"a", vstr("fa")}, {"b", vmap({{"c", vint(3)}})}, {"x y", vstr("fxy")}})},
            {"items", varr({vmap({{"a", vint(1)}}), vmap({{"a", vint(2)}, {"c", vstr("ic")}})})}, {"x y", vstr("sp ace")}, {"o", vmap({{"k", vstr("v")}, {"a", vnull()}})}, {"12", vstr("twelve")}, {"a.b", vstr("dotted")}, {"else", vstr("E")}, {"true", vstr("T")}, {"x]y", vstr("br")}, {"x-y", varr({})}, {"", vstr("empty")}, {"0", vstr("zero")}});
        r.partials = {{"a", "[{{a}}|{{k}}]"}, {"foo", "F{{> @partial-block}}\n"}, {"x y", "xy"}, {"12", "{{.}}"}};
    }
    c.desc = std::string(wild ? "free " : "") + "template: " + quote(r.tmpl) + "\n flags: " + flags_str(fl);
    Ctx ctx; Err err; std::string l1, t1, l2, t2;
    if (!parse(ctx, r.tmpl, fl, l1, t1, err)) {
        if (!wild) c.fail("parsing failed: " + err.str());
        c.label("rejected by the parser"); return;
    }
    // two texts that cannot be written in any way
    if (wild && (has(l1, "\\{{"))) c.discard("a backslash directly before literal braces");
    c.desc += "\n converted: " + quote(t1);
    if (!parse(ctx, t1, fl, l2, t2, err)) c.fail("the converted template does not parse: " + err.str());
    c.eq("listing of the converted template", l2, l1);
    c.eq("the template converted twice", t2, t1);
    Render r2 = r; r2.tmpl = t1;
    if (!wild) { Out m = t.in.run(t.body, t.data); if (m.err.num == -100) { c.label("too long to render"); return; } }
    unsigned long fs[] = {0, F_COMPAT | F_PREVIND, F_NOESC | F_STRICT};
    int lines = 0; for (char ch : l1) lines += ch == '\n';
    Ctx x; std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; HVal d;
    V dv = wild ? r.data : t.data; to_hbs(x, dv, d, &sh); r.hdata = r2.hdata = d; 
    int k = s.draw(3); if (!wild) k = 0;
    if (fl & F_COMPAT) c.label("with changes of delimiters");
    r.flags = r2.flags = r.flags | fs[k];
    Out a = render_in(x, r), b = render_in(x, r2);
    if (!a.same(b)) c.fail("renders differently\n original:  " + a.str() + "\n converted: " + b.str() + "\n flags: " + flags_str(r.flags));
    c.label(a.ok ? "rendered" : "error while rendering");
    if (t1 != r.tmpl) c.label("converted text differs from the original");
    c.nontrivial = lines >= 3;
    c.label("lines of tree listing", lines);
}
static Reg r({"C09", "half structured templates with every construct, half free compositions of odd spellings (segments in brackets, literals as names, escaped mustaches, brace runs, quotes and escapes, comments with dashes, decorators, nested raw blocks); non-trivial: the template parses and its tree listing has three lines or more", run, 60000, 900000});
