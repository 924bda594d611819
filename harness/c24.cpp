#include "gen.h"
// adjacent pieces of text are one text
static std::string join_content(const std::string &l) {
    std::string o; size_t i = 0;
    while (i < l.size()) {
        if (l.compare(i, 4, "' ]\n") == 0) {
            size_t j = i + 4; while (j < l.size() && l[j] == ' ') j++;
            if (l.compare(j, 10, "CONTENT[ '") == 0) {
                // same nesting only
                size_t k = o.rfind("CONTENT[ '"), b = k == std::string::npos ? 0 : o.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1;
                if (k != std::string::npos && o.find_first_not_of(' ', b) == k && k - b == j - i - 4) { i = j + 10; continue; }
            }
        }
        o += l[i++];
    }
    return o;
}
static bool in_tag_open(const std::string &t) {
    static const std::set<std::string> o = {"OPEN", "OPEN_UNESCAPED", "OPEN_BLOCK", "OPEN_INVERSE", "OPEN_INVERSE_CHAIN", "OPEN_ENDBLOCK", "OPEN_PARTIAL", "OPEN_PARTIAL_BLOCK", "OPEN_RAW_BLOCK"};
    return o.count(t);
}
static std::string expected_type(const std::string &text, const std::string &got) {
    std::string t; for (char ch : text) if (ch != '~' && !isspace((unsigned char)ch)) t += ch;
    static const std::map<std::string, std::string> T = {{"{{", "OPEN"}, {"{{&", "OPEN"}, {"{{{", "OPEN_UNESCAPED"}, {"{{#", "OPEN_BLOCK"}, {"{{/", "OPEN_ENDBLOCK"},
        {"{{>", "OPEN_PARTIAL"}, {"{{#>", "OPEN_PARTIAL_BLOCK"}, {"}}", "CLOSE"}, {"}}}", "CLOSE_UNESCAPED"}, {"{{{{", "OPEN_RAW_BLOCK"}, {"}}}}", "CLOSE_RAW_BLOCK"},
        {"(", "OPEN_SEXPR"}, {")", "CLOSE_SEXPR"}, {"=", "EQUALS"}, {"|", "CLOSE_BLOCK_PARAMS"}, {"as|", "OPEN_BLOCK_PARAMS"}, {"@", "DATA"},
        {"true", "BOOLEAN"}, {"false", "BOOLEAN"}, {"null", "NULL"}, {"undefined", "UNDEFINED"}, {"/", "SEP"}, {"{{else}}", "INVERSE"}, {"{{else", "OPEN_INVERSE_CHAIN"}, {"..", "ID"}};
    auto it = T.find(t); return it == T.end() ? got : it->second;
}
static void tokens(Src &s, Case &c, const std::string &tmpl, bool print) {
    Ctx ctx; Err err;
    handlebars_token **volatile tv = nullptr;
    if (!guard(ctx, err, [&] { handlebars_parser *p = handlebars_parser_ctor(ctx); tv = handlebars_lex_ex(p, mks(ctx, tmpl)); })) c.fail("tokenizing failed: " + err.str());
    size_t p = 0; bool in = false; int n = 0; std::string where;
    auto bad = [&](const std::string &what, const std::string &text) { c.fail(what + ": token " + std::to_string(n) + " " + quote(text) + " does not continue the template at offset " + std::to_string(p) + ": " + quote(tmpl.substr(p, 40)) + "\n tokens so far:" + where); };
    for (handlebars_token **t = tv; *t; t++, n++) {
        int tn = handlebars_token_get_type(*t); std::string x = sv(handlebars_token_get_text(*t)), ty = handlebars_token_readable_type(tn), ty_name = ty;
        where += " " + ty_name + quote(x);
        if (ty_name != handlebars_token_readable_type(handlebars_token_reverse_readable_type(ty_name.c_str()))) c.fail("type name " + ty_name + " is not that of its type");
        if (ty == "CONTENT") {
            if (tmpl.compare(p, 3, "\\{{") == 0 && x.compare(0, 2, "{{") == 0) p++;
            if (tmpl.compare(p, x.size(), x)) bad("text", x);
            p += x.size();
            if (x.size() && x.back() == '\\' && tmpl.compare(p, 3, "\\{{") == 0) p++;
            if (in) bad("text inside a tag", x);
        } else if (ty == "END_RAW_BLOCK") {
            std::string e = "{{{{/" + x + "}}}}"; if (tmpl.compare(p, e.size(), e)) bad("end of raw block", x); p += e.size();
        } else {
            if (in) while (p < tmpl.size() && isspace((unsigned char)tmpl[p])) p++;
            if (ty == "STRING") {
                char q = p < tmpl.size() ? tmpl[p] : 0; if (q != '"' && q != '\'') bad("string", x);
                std::string y; size_t k = p + 1; while (k < tmpl.size() && tmpl[k] != q) { if (tmpl[k] == '\\' && k + 1 < tmpl.size() && (tmpl[k + 1] == q || tmpl[k + 1] == '\\')) k++; y += tmpl[k++]; }
                if (y != x) bad("string", x);
                p = k + 1;
            } else {
                if (tmpl.compare(p, x.size(), x) || x.empty()) bad("token", x);
                p += x.size();
                std::string want = expected_type(x, ty);
                if (x == "{{^" || x == "{{~^") want = ty == "INVERSE" ? "INVERSE" : "OPEN_INVERSE";
                if (want != ty && !(x == "." || ty == "COMMENT")) c.fail("token " + quote(x) + " has type " + ty_name);
            }
            if (in_tag_open(ty)) { if (in) bad("opening inside a tag", x); in = true; }
            if (ty == "CLOSE" || ty == "CLOSE_UNESCAPED" || ty == "CLOSE_RAW_BLOCK") { if (!in) bad("closing outside of a tag", x); in = false; }
        }
        if (print) {
            HS *volatile ps = nullptr; int nl = n & 1;
            if (!guard(ctx, err, [&] { ps = handlebars_token_print(ctx, *t, nl ? handlebars_token_print_flag_newlines : 0); })) c.fail("printing a token failed: " + err.str());
            std::string e; for (char ch : x) switch (ch) { case '\n': e += "\\n"; break; case '\r': e += "\\r"; break; case '\t': e += "\\t"; break; case '\v': e += "\\v"; break; default: e += ch; }
            c.eq("printed token", sv(ps), ty_name + " [" + e + "]" + (nl ? "\n" : " "));
        }
    }
    if (p != tmpl.size()) c.fail("the tokens end at offset " + std::to_string(p) + " of " + std::to_string(tmpl.size()) + ": " + where);
    c.label("tokens", n);
}
static void decorate(Src &s, Body &b, bool chain = false) {
    for (auto &n : b) { if (!chain && (n->k == N_MUST || (n->k == N_BLOCK && !n->has_inv)) && s.draw(5) == 4) n->deco = true; decorate(s, n->prog); decorate(s, n->inverse, n->chain); }
}
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 10; o.must = 8; o.triple = 2; o.amp = 2; o.comment = 3; o.partial = 3; o.pblock = 2; o.raw = 2; o.hcall = 3; o.hblock = 3; o.depth = 4; o.nodes = 22; o.missing = 5; o.helpers = {"dump", "x1"}; o.pnames = {"p1", "part two", "12", "d/p3"};
    o.ws = s.draw(3) != 0; o.strips = s.draw(3) != 0; o.literal_braces = s.draw(2);
    Gen g(s, o); V data = g.data(); Body b = gen_template(g, data);
    if (s.draw(4) == 3) decorate(s, b);
    unsigned long fl = s.draw(4) == 0 ? F_IGNSTD : 0;
    std::string tmpl = body_src(b);
    c.desc = "template: " + quote(tmpl) + "\n flags: " + flags_str(fl);
    std::string want = ast_listing(analyse(b, fl));
    Ctx ctx; Err err;
    std::string got = listing_ast(ctx, tmpl, fl, err);
    if (err.num) c.fail("parsing failed: " + err.str());
    c.eq("tree listing", join_content(got), join_content(want));
    tokens(s, c, tmpl, s.draw(3) == 0);
    int lines = 0; for (char ch : want) lines += ch == '\n';
    c.nontrivial = lines >= 4;
    c.label("lines of tree listing", lines);
}
static Reg r({"C24", "templates using every construct; the tree listing is compared with the one printed from the generated tree, and the token list is matched against the template text, character by character; non-trivial: listings of at least five lines", run, 90000, 1200000});
