// Structured generators: data, expressions and templates guided by the data they are rendered with.
#pragma once
#include "model.h"

struct GenOpt {
    // weights of the kinds of statements
    int text = 10, must = 12, triple = 2, amp = 1, comment = 1, w_if = 2, w_unless = 1, w_each = 3, w_with = 2, section = 3, inv = 1,
        partial = 0, pblock = 0, raw = 0, hcall = 0, hblock = 0, lookup = 1, pbref = 0;
    int depth = 3, nodes = 14;
    bool ws = false;            // text rich in whitespace and newlines, whitespace inside tags
    bool strips = false;        // ~ on tags
    bool bparams = true, datavars = true, literals = true, chains = true, odd_keys = true, lambdas = false, safe = false, floats = true;
    bool one_line_tags = false; // no newlines inside tags
    bool subexprs = true;
    int missing = 12;           // percent of paths with a wrong step
    int specials = 15;          // percent of strings with characters that are escaped
    std::vector<std::string> helpers;      // test helpers that may be called
    std::vector<std::string> pnames;       // names of partials that may be called
    int missing_partial = 4;    // percent
    bool partial_hash = true, dyn_partials = true;
    std::vector<std::pair<std::string, V>> extra;   // added to the data
    int odd_names = 0;           // percent of keys and block parameters named like a helper of the library
    int long_list = 0;           // per mille of data with a list longer than a byte counts
    int tower = 0;               // per mille of templates with blocks nested deeper than any number has one digit
    bool literal_braces = false; // literal mustaches in text
    std::vector<std::string> dvars;        // names of data variables given to the machine
};
struct Gen {
    Src &s; GenOpt o; int left;
    struct Sc { V ctx; std::vector<std::pair<std::string, V>> bp; bool each = false; };
    std::vector<Sc> st;
    bool in_pblock = false, in_partial = false;
    Gen(Src &src, const GenOpt &opt) : s(src), o(opt), left(opt.nodes) {}
    std::string key(); std::string str(); std::string text();
    V scalar(); V value(int d); V object(int d, int minkeys);
    V data();
    // an expression designating something; want: 0 anything, 1 array or map, 2 map, 3 array
    E path(int want, V *val); E literal(); E expr(int want, int d, V *val);
    Call call_of(const std::string &name, int minp, int maxp, int d);
    Body body(int d, bool top = false); N stmt(int d);
    void block_common(const N &n, int d, const V &ctx, bool iter, bool bpok, const V &orig);
    void strips(const N &n);
    std::string tagws();
    bool pct(int p) { return p > 0 && s.chance(p, 100); }
};
Seg seg(const std::string &name);
std::string feats(const Interp &in);
E ex_segs(const std::vector<std::string> &names, int depth = 0, bool data = false);
E ex_raw(const std::string &literal_kind);
Body gen_template(Gen &g, const V &data);
// the template set of a case: main template, partials, data, data variables
struct TCase { Interp in; Body body; V data; Render r; };
void gen_case(Src &s, GenOpt o, unsigned long flags, TCase &t);   // pnames: partials to make
std::string describe(const TCase &t);
// renders by the library and by the model and compares; returns the model's outcome
Out compare(Case &c, TCase &t);
// labels the case with what the interpreter exercised
void label_feats(Case &c, const Interp &in);
