// Reference model of the template language: syntax trees, a printer to template text, whitespace
// control and an interpreter, written from the language definition and independent of /repo's sources.
#pragma once
#include "hbs.h"

enum EK { E_PATH, E_STR, E_NUM, E_BOOL, E_NUL, E_UNDEF, E_SUB };
struct Expr; typedef std::shared_ptr<Expr> E;
struct Seg { std::string name; bool br = false; char sep = '.'; };   // sep: separator written before it
struct Call { E head; std::vector<E> params; std::vector<std::pair<std::string, E>> hash; };
struct Expr {
    EK k = E_PATH;
    int depth = 0; bool data = false, dot = false, thisp = false; std::vector<Seg> parts;   // path
    std::string s; bool b = false; char quote = '"';                                        // literals
    Call sub;
};
E ex_path(const std::string &dotted); E ex_str(const std::string &s, char q = '"'); E ex_num(const std::string &s);
E ex_bool(bool b); E ex_sub(Call c); E ex_this();
struct Strip { bool l = false, r = false; };
enum NK { N_TEXT, N_MUST, N_TRIPLE, N_AMP, N_COMMENT, N_BLOCK, N_INVBLOCK, N_PARTIAL, N_PBLOCK, N_RAW };
struct Node; typedef std::shared_ptr<Node> N; typedef std::vector<N> Body;
struct Delims { std::string o = "{{", c = "}}"; };
struct Node {
    NK k = N_TEXT;
    std::string text;                 // text, comment, raw content
    bool longc = false;               // comment written as {{!-- --}}
    bool deco = false;                // decorator: written {{*call}} or {{#*call}}
    bool caret = false;               // inverse written {{^}}
    Call call; std::vector<std::string> bp;
    Strip open, inv, close;
    bool has_inv = false; Body prog, inverse; bool chain = false;   // chain: inverse is one block written {{else call}}
    Delims delims{"", ""};            // a comment that is written as a change of delimiters
    std::string ws;                   // whitespace inside the tag's braces
};
N nd_text(const std::string &s); N nd_must(E e); N nd_must(Call c); N nd_block(Call c, Body prog);

// spelling: the delimiters in force, changed by the printer at tags that change them; a conflict is
// noted when some text cannot be written with the delimiters in force
extern Delims g_delims; extern bool g_delim_conflict;
std::string expr_src(const Expr &e);
std::string call_src(const Call &c);
std::string body_src(const Body &b);                   // template text
std::string close_name(const Expr &head);

// executable form: parsed tree after whitespace control
struct ANode; typedef std::shared_ptr<ANode> AN;
struct AProg { std::vector<AN> st; bool null = false, chained = false; std::vector<std::string> bp; };
typedef std::shared_ptr<AProg> AP;
struct ANode {
    Node *src = nullptr; NK k = N_TEXT;
    std::string val, orig; bool ls = false, rs = false;                    // text
    bool set = false, l = false, r = false, open_sa = false, close_sa = false, inl = false;
    Strip open, inv, close; AP prog, inv_prog; std::string indent; bool raw_raw = false;
};
AP analyse(const Body &b, unsigned long flags);
std::string ast_listing(const AP &p);                  // tree listing in the library's format

struct MErr { int num; std::string msg; std::string stage; };
struct Interp {
    unsigned long flags = 0;
    std::vector<std::pair<std::string, Body>> partials;
    std::vector<std::pair<std::string, V>> partial_values;   // partials given as other values
    std::vector<std::string> helpers; std::vector<std::string> known;
    V vmdata;
    std::vector<std::string> calls;                    // log of helper calls
    // returns output or throws MErr
    std::string render(const Body &b, const V &data);
    Out run(const Body &b, const V &data);             // render, with the error in Out

    // --- state (used by the test helpers)
    struct Blk { AP prog; std::vector<V> ctxs, bps; int parent; bool known_on; };
    bool known_on = true;                              // the list of known helpers holds in the main template, not in partials
    std::vector<V> ctxs, bps; V data; std::vector<int> pbs; std::vector<Blk> blks; int depth = 0;
    struct Opt { std::string name; V hash, scope, data; AP prog, inv; Node *src = nullptr; };
    std::map<const Val *, Body> lam_body;              // lambdas whose text is rendered (mustache style)
    std::string exec(const AP &p, const V &ctx, const V *ndata, const V &bp);
    std::string run_prog(const AP &p, const V &ctx, const V *ndata, const V &bp);
    V call_helper(const std::string &n, std::vector<V> &argv, Opt &o, bool &found);
    V run_lambda(const V &l, const std::vector<V> &argv, const Opt &o);
    V eval(const Expr &e, bool strict, const std::vector<std::vector<std::string>> &scope);
    void stmt(const AN &n, std::string &out);
    bool has_helper(const std::string &n);
    V lookup_path(const Expr &e, bool strict, bool guard_helper);
    V member(const V &v, const std::string &k, bool &found);
    V eval_call(const Call &c, const Opt *block, bool sub, const Expr &head, int &cls, V *argres);
    AP analyse_checked(const Body &b);
    std::vector<std::vector<std::vector<std::string>>> blkn; std::vector<Body> keep;
    std::vector<std::vector<std::string>> bpnames;     // block parameter names in scope, innermost last
    bool in_bp(const std::string &n, int &d, int &i);
    bool is_known(const std::string &n);
    std::map<std::string, AP> cache;
    unsigned long steps = 0, calllen = 0, typed = 0;
    std::map<std::string, int> feat;                   // what was exercised
};
bool is_builtin(const std::string &n);
std::string path_original(const Expr &e);
bool path_simple(const Expr &e); bool path_scoped(const Expr &e);
std::string indent_lines(const std::string &s, const std::string &ind);
extern const std::vector<std::string> TEST_HELPERS;
Body fill_hole(const Body &b, const Body &in);
Body indent_body(const Body &b, const std::string &ind);
V helper_model(const std::string &n, std::vector<V> &argv, Interp::Opt &o, Interp &in);
// log of native helper calls, in order (cleared by the harness)
extern thread_local std::vector<std::string> g_calls;
