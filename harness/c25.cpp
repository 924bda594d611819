#include "gen.h"
struct Lams {
    Src &s; V data; Interp &in;
    std::vector<std::string> sec_c, sec_d, var;      // names by use
    int budget = 0;
    void text(Body &b, bool flat) {                  // no newlines
        for (auto &n : b) { for (auto &ch : n->text) if (flat && (ch == '\n' || ch == '\r')) ch = ' '; text(n->prog, flat); text(n->inverse, flat); }
    }
    static void plain_tags(Body &b) { for (auto &n : b) { n->open = n->inv = n->close = Strip(); plain_tags(n->prog); plain_tags(n->inverse); } }
    // puts uses of lambdas into a body
    void insert(Body &b, const std::vector<std::string> &sec, int num, int den, int d = 0) {
        for (auto &n : b) if (n->k != N_RAW) { insert(n->prog, sec, num, den, d + 1); if (!n->chain) insert(n->inverse, sec, num, den, d + 1); }
        for (size_t i = 0; i <= b.size(); i++) {
            if (budget <= 0 || !s.chance(num, den)) continue;
            budget--;
            int k = s.draw(9); N n;
            bool can_s = !sec.empty(), can_v = !var.empty();
            if (!can_s && !can_v) return;
            if (k < 5 ? !can_s : !can_v && k < 8) k = can_s ? 0 : 5;
            if (k < 5) {                                     // section, taking in some of the statements that follow
                Call c; c.head = ex_segs({s.pick(sec)});
                size_t take = s.draw((uint32_t)(b.size() - i + 1)); Body p(b.begin() + i, b.begin() + i + take);
                n = nd_block(c, p);
                if (s.draw(5) == 4) { n->has_inv = true; n->inverse = {nd_text("never")}; }
                b.erase(b.begin() + i, b.begin() + i + take);
            } else if (k < 8) {
                Call c; c.head = ex_segs({s.pick(var)}); n = nd_must(c);
                if (k == 6) n->k = N_TRIPLE; if (k == 7) n->k = N_AMP;
            } else {
                Call c; c.head = ex_segs({can_s && (!can_v || s.draw(2)) ? s.pick(sec) : s.pick(var)}); n = nd_block(c, {nd_text("never")}); n->k = N_INVBLOCK;
            }
            b.insert(b.begin() + i, n); i++;
        }
    }
};
static const std::vector<Delims> DELIMS = {{"<%", "%>"}, {"|", "|"}, {"<<", ">>"}, {"^%", "%^"}, {"{%", "%}"}, {"@@", "@@"}, {"((", "))"}, {"$", "$"}, {"<%%", "%"}, {"\"", "\""}, {"<\"", "\">"}};
static void run(Src &s, Case &c) {
    unsigned long fl = F_MSL; bool delims = false;
    if (s.draw(4)) { fl |= F_COMPAT; delims = s.draw(3) == 2; }
    if (s.draw(5) == 4) fl |= F_NOESC;
    bool flat = s.draw(2); if (!flat) fl |= F_IGNSTD;
    GenOpt o; o.text = 6; o.must = 8; o.triple = 2; o.amp = 2; o.comment = 1; o.depth = 2; o.nodes = 6; o.bparams = false; o.odd_keys = s.draw(2); o.missing = 5; o.specials = 45; o.one_line_tags = true; o.datavars = s.draw(2); o.lookup = 0;
    if (s.draw(3) == 2) { o.pnames = {"p1"}; o.partial = 3; o.dyn_partials = false; o.missing_partial = 0; o.partial_hash = false; }
    o.literal_braces = !delims && s.draw(3) == 2;
    TCase t; gen_case(s, o, fl, t);
    Lams L{s, t.data, t.in}; V plain = vmap(t.data->m);
    Delims cd = delims ? s.pick(DELIMS) : Delims();
    auto add = [&](const std::string &name, const Body &b, bool custom) {
        g_delims = custom ? cd : Delims();
        std::string x = body_src(b); V l = vlam(3, vstr(x)); g_delims = Delims();
        t.in.lam_body[l.get()] = b; t.data->m.push_back({name, l});
    };
    g_delims = Delims(); g_delim_conflict = false;
    int nv = s.range(0, 2), ns = s.range(nv ? 0 : 1, 2), nc = delims ? s.range(0, 2) : 0;
    auto body = [&](const std::vector<std::string> &sec, bool hole) {
        GenOpt bo = o; bo.nodes = 3; bo.depth = 1; bo.partial = 0; Gen g(s, bo); Gen::Sc root; root.ctx = plain; g.st.push_back(root);
        Body b = s.draw(6) ? g.body(1, true) : Body(); L.text(b, flat);
        if (s.draw(8) == 7) b = {nd_text(s.pick(std::vector<std::string>{"0", "false", " ", "<b>&", "1"}))};
        L.budget = 2; L.insert(b, sec, 1, 5);
        if (hole && s.draw(8)) { size_t i = s.draw((uint32_t)b.size() + 1); b.insert(b.begin() + i, nd_text("%s")); if (s.draw(5) == 4) b.push_back(nd_text("%s")); }
        if (hole && s.draw(6) == 5) { Call ic; ic.head = ex_segs({"if"}); ic.params.push_back(ex_bool(s.draw(3) != 2)); Body p = {nd_text("%s")}; b.push_back(nd_block(ic, p)); }
        return b;
    };
    for (int i = 0; i < nv + ns; i++) {                      // each may use those before it
        bool sec = i >= nv ? true : false; std::string name = (sec ? "sec" : "lam") + std::to_string(i);
        Body b = body(L.sec_d, sec); add(name, b, false); (sec ? L.sec_d : L.var).push_back(name);
    }
    for (int i = 0; i < nc; i++) { std::string name = "cus" + std::to_string(i); Body b = body(L.sec_c, true); add(name, b, true); L.sec_c.push_back(name); }
    for (size_t i = 0; i < t.in.partials.size(); i++) {
        Body &b = t.in.partials[i].second; L.text(b, flat); L.budget = 2; L.insert(b, L.sec_d, 1, 4); t.r.partials[i].second = body_src(b);
    }
    L.text(t.body, flat); L.budget = 4;
    if (!delims) L.insert(t.body, L.sec_d, 2, 5);
    else {                                                   // the delimiters change at some point of the main template
        size_t at = s.draw((uint32_t)t.body.size() + 1); Body a(t.body.begin(), t.body.begin() + at), b(t.body.begin() + at, t.body.end());
        L.insert(a, L.sec_d, 2, 5); L.budget += 3; L.insert(b, L.sec_c, 3, 5);
        N d = std::make_shared<Node>(); d->k = N_COMMENT; d->delims = cd; d->text = "="; a.push_back(d); a.insert(a.end(), b.begin(), b.end()); t.body = a;
        if (s.draw(4) == 3) { N e = std::make_shared<Node>(*d); e->delims = Delims(); t.body.push_back(e); Body z = {nd_text(" z ")}; L.budget += 1; L.insert(z, L.sec_d, 3, 5); t.body.insert(t.body.end(), z.begin(), z.end()); }
        c.label("custom delimiters");
    }
    t.r.tmpl = body_src(t.body); g_delims = Delims();
    if ((fl & F_COMPAT) && s.draw(4) == 3) { t.r.before = s.pick(std::vector<std::string>{"{{=<% %>=}}x", "{{=| |=}}|nope|", "{{#nope}}{{=[[ ]]=}}[[/nope]]y", "{{^nope}}{{=<% %>=}}<%/nope%>", "{{=<% %>=}}<%#nope.x%>"}); c.label("machine used before, with other delimiters"); }
    c.desc = describe(t) + (t.r.before.empty() ? "" : " before: " + quote(t.r.before) + "\n");
    if (g_delim_conflict) c.discard("text cannot be written with these delimiters");
    compare(c, t);
    int n = t.in.feat["lambda: section"] + t.in.feat["lambda: variable"] + t.in.feat["lambda: inverted section"];
    c.nontrivial = n > 0;
}
static Reg r({"C25", "templates, partials and lambda texts that use one to six mustache-style lambdas as variables, sections and inverted sections, nested, with and without compat mode and with changed delimiters; the reference interpreter renders the text with the section's statements in place of its source; non-trivial: a lambda was evaluated", run, 80000, 500000});
