#include "gen.h"
static std::string delim(Src &s) {
    static const std::vector<std::string> usual = {"<%", "%>", "<<", ">>", "|", "[", "]", "@@", "((", "))", "{%", "%}", "$$", "<!--", "-->", "{", "}", "{{{", "}}}", "[[", "]]", "<", ">", "::", "{{<", ">}}", "!!", "a", "BEGIN", "END", "##", "//", "^", "~", "&", "\xc2\xab", "\xc2\xbb", "{{", "}}", "*", "%"};
    if (s.draw(3)) return s.pick(usual);
    static const std::string ch = "<>%@$|[](){}#*+-_.:;,?!/^~&abZ0\xc3\xa9\x01";
    std::string o; int n = s.range(1, 4); while (n--) o += ch[s.draw(ch.size())]; return o;
}
static int changes(Src &s, Body &b, int den) {
    int n = 0;
    for (auto &x : b) { n += changes(s, x->prog, den); n += changes(s, x->inverse, den); }
    if (b.size() == 1 && b[0]->k == N_BLOCK && false) return n;
    for (size_t i = 0; i <= b.size(); i++) if (s.chance(1, den)) {
        N d = std::make_shared<Node>(); d->k = N_COMMENT; d->text = "=";
        if (s.draw(4) != 3) d->delims = Delims{delim(s), delim(s)}; else d->delims = Delims();
        static const std::vector<std::string> w = {"", "", "", " ", "  "}; d->ws = s.pick(w);
        b.insert(b.begin() + i, d); i++; n++;
    }
    return n;
}
// the inverse of a chain is a single block
static void unchain(Body &b) { for (auto &n : b) { unchain(n->prog); unchain(n->inverse); if (n->chain && n->inverse.size() != 1) { n->chain = false; n->has_inv = true; } } }
static void braces(Src &s, Body &b, int den) {
    static const std::vector<std::string> t = {"{", "}", "{{", "}}", "{{x}}", "{{{a}}}", "{{#each items}}", "{{/if}}", "{{! no }}", "{{{{", "{{{", "}}}", "{{=", "%>", "\\n", "{ ", "\n{{", "} }"};
    for (auto &x : b) if (x->k != N_RAW) { braces(s, x->prog, den); if (!x->chain) braces(s, x->inverse, den); }
    for (size_t i = 0; i <= b.size(); i++) if (s.chance(1, den)) { b.insert(b.begin() + i, nd_text(s.pick(t))); i++; }
}
static void strip_changes(Body &b) { for (auto &n : b) { strip_changes(n->prog); strip_changes(n->inverse); if (!n->delims.o.empty()) { n->delims = Delims{"", ""}; n->ws = ""; } } }
static Body copy(const Body &b) { Body o; for (auto &n : b) { N m = std::make_shared<Node>(*n); m->prog = copy(n->prog); m->inverse = copy(n->inverse); o.push_back(m); } return o; }
static std::string spell(const Body &b) { g_delims = Delims(); std::string x = body_src(b); g_delims = Delims(); return x; }
static void run(Src &s, Case &c) {
    unsigned long fl = F_COMPAT;
    if (s.draw(5) == 4) fl |= F_IGNSTD; if (s.draw(8) == 7) fl |= F_NOESC; if (s.draw(8) == 7) fl |= F_PREVIND;
    GenOpt o; o.text = 10; o.must = 8; o.triple = 2; o.amp = 2; o.comment = 2; o.hcall = 2; o.hblock = 1; o.depth = 3; o.nodes = 10; o.ws = s.draw(3) != 0; o.strips = s.draw(3) == 2; o.missing = 6; o.one_line_tags = true;
    o.helpers = {"dump", "cat", "blk"};
    if (s.draw(3) == 2) { o.pnames = {"p1", "p2"}; o.partial = 3; o.pblock = 1; o.missing_partial = 3; }
    TCase t; gen_case(s, o, fl, t);
    bool br = s.draw(2); if (br) { braces(s, t.body, 6); for (auto &p : t.in.partials) if (s.draw(2)) braces(s, p.second, 6); }
    Body plain = copy(t.body);
    // until the text can be written with the chosen delimiters
    int n = 0; bool ok = false; std::vector<std::pair<std::string, Body>> ps = t.in.partials;
    for (int tries = 0; tries < 6 && !ok; tries++) {
        t.body = copy(plain); n = changes(s, t.body, tries < 3 ? 5 : 9); unchain(t.body);
        if (!n || s.draw(2)) { N d = std::make_shared<Node>(); d->k = N_COMMENT; d->text = "="; d->delims = Delims{delim(s), delim(s)}; t.body.insert(t.body.begin(), d); n++; }
        for (size_t i = 0; i < ps.size(); i++) { t.in.partials[i].second = copy(ps[i].second); if (s.draw(3) == 2) { n += changes(s, t.in.partials[i].second, 4); unchain(t.in.partials[i].second); } }
        g_delim_conflict = false;
        t.r.tmpl = spell(t.body);
        for (size_t i = 0; i < ps.size(); i++) t.r.partials[i].second = spell(t.in.partials[i].second);
        ok = !g_delim_conflict;
    }
    c.desc = describe(t);
    if (!ok) c.discard("text cannot be written with these delimiters");
    compare(c, t);
    c.label("changes", n);
    c.nontrivial = n > 0 && t.body.size() > 2;
    // the same template written with the default delimiters
    Body dflt = copy(t.body); strip_changes(dflt); g_delim_conflict = false; Render r2 = t.r; r2.tmpl = spell(dflt);
    for (size_t i = 0; i < ps.size(); i++) { Body p = copy(t.in.partials[i].second); strip_changes(p); r2.partials[i].second = spell(p); }
    if (!g_delim_conflict) {
        Out a = render(t.r), b = render(r2); c.label("also compared with default delimiters");
        if (!a.same(b)) c.fail("differs from the template with default delimiters\n expected: " + b.str() + "\n actual:   " + a.str() + "\n default:  " + quote(r2.tmpl));
    }
}
static Reg r({"C19", "templates and partials with one or more changes of delimiters (usual and random ones of one to four characters) at any depth and literal braces in text, against the reference interpreter and the same template in default delimiters; non-trivial: at least two statements and a change", run, 48000, 400000});
