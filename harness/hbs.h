// C++ view of the library under test.
#pragma once
#include <setjmp.h>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include "pbt.h"
#ifdef HAVE_CONFIG_H
#include "config.h"
#endif
extern "C" {
#include <talloc.h>
}
#include "handlebars.h"
// one of the headers opens extern "C" without closing it: do that here instead
#undef HBS_EXTERN_C_START
#undef HBS_EXTERN_C_END
#define HBS_EXTERN_C_START
#define HBS_EXTERN_C_END
extern "C" {
#include "handlebars_types.h"
#include "handlebars_memory.h"
#include "handlebars_string.h"
#include "handlebars_value.h"
#include "handlebars_map.h"
#include "handlebars_stack.h"
#include "handlebars_ptr.h"
#include "handlebars_value_handlers.h"
#include "handlebars_closure.h"
#include "handlebars_ast.h"
#include "handlebars_ast_list.h"
#include "handlebars_ast_printer.h"
#include "handlebars_parser.h"
#include "handlebars_token.h"
#include "handlebars_compiler.h"
#include "handlebars_opcodes.h"
#include "handlebars_opcode_printer.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_helpers.h"
#include "handlebars_delimiters.h"
#include "handlebars_partial_loader.h"
#include "handlebars_cache.h"
#include "handlebars_json.h"
#include "handlebars_yaml.h"
#include "handlebars_vm.h"
}

typedef handlebars_context HC;
typedef handlebars_value HV;
typedef handlebars_string HS;

struct Err {
    int num = 0; std::string msg; int line = 0, col = 0;
    std::string str() const { return num ? "error " + std::to_string(num) + ": " + msg : "ok"; }
};

// runs f with errors on ctx caught; true if it returned normally
template <class F> bool guard(HC *ctx, Err &err, F &&f) {
    jmp_buf *old = ctx->e->jmp;
    jmp_buf buf;
    err = Err();
    if (setjmp(buf)) {
        ctx->e->jmp = old;
        err.num = handlebars_error_num(ctx);
        const char *m = handlebars_error_msg(ctx);
        err.msg = m ? m : "";
        handlebars_locinfo l = handlebars_error_loc(ctx);
        err.line = l.last_line; err.col = l.last_column;
        if (!err.num) { err.num = -1; err.msg = "jumped without an error number"; }
        return false;
    }
    ctx->e->jmp = &buf;
    f();
    ctx->e->jmp = old;
    return true;
}

inline std::string sv(HS *s) { return std::string(hbs_str_val(s), hbs_str_len(s)); }
inline HS *mks(HC *c, const std::string &s) { return handlebars_string_ctor(c, s.data(), s.size()); }

// automatic storage for a value
struct alignas(16) HVal {
    char mem[64];
    HVal();
    ~HVal() { handlebars_value_dtor(p()); }
    HVal(const HVal &) = delete;
    HVal &operator=(const HVal &) = delete;
    HV *p() { return reinterpret_cast<HV *>(mem); }
    operator HV *() { return p(); }
};
// iteration as HANDLEBARS_VALUE_FOREACH does it
template <class F> void each(HV *v, F &&f) {
    alignas(16) char mem[sizeof(handlebars_value_iterator) + 64];
    if (HANDLEBARS_VALUE_SIZE > 64) abort();
    handlebars_value_iterator *it = (handlebars_value_iterator *)mem;
    if (handlebars_value_iterator_init(it, v)) do { f(it); } while (handlebars_value_iterator_next(it));
}
// a context that is destroyed at end of scope
struct Ctx {
    HC *c;
    Ctx() : c(handlebars_context_ctor()) {}
    ~Ctx() { if (c) handlebars_context_dtor(c); }
    operator HC *() { return c; }
};

// ---- data values of the reference model -------------------------------------------------------
enum VT { V_NULL, V_TRUE, V_FALSE, V_INT, V_FLT, V_STR, V_ARR, V_MAP, V_LAM };
struct Val;
typedef std::shared_ptr<Val> V;
struct Val {
    VT t = V_NULL;
    long i = 0; double d = 0; std::string s; bool safe = false;
    std::vector<V> a;
    std::vector<std::pair<std::string, V>> m;
    int lam = 0;                 // V_LAM: which behaviour
    V lamarg;
    V *find(const std::string &k) { for (auto &e : m) if (e.first == k) return &e.second; return nullptr; }
};
V vnull(); V vbool(bool b); V vint(long i); V vflt(double d); V vstr(const std::string &s, bool safe = false);
V varr(std::vector<V> a = {}); V vmap(std::vector<std::pair<std::string, V>> m = {}); V vlam(int which, V arg = nullptr);
std::string vjson(const V &v);                         // readable and, for JSON types, valid JSON
extern long g_show_limit; extern thread_local bool g_show_over; extern thread_local size_t g_typed;
std::string vtyped(const V &v);                        // with exact types
bool vempty(const V &v);                               // falsy
std::string vprint(const V &v, bool escape);           // text an expression prints
std::string vprint_raw(const V &v);                    // the value as a string
bool veq(const V &a, const V &b);                      // deep equality
// native value for v; containers occurring several times are shared
typedef std::map<const Val *, HVal *> ShareMap;
void to_hbs(HC *c, const V &v, HV *out, std::unordered_map<const Val *, std::unique_ptr<HVal>> *share = nullptr);
extern long g_from_limit;                                // values shared many times over would grow without end
V from_hbs(HC *c, HV *v, int depth = 0);               // any value (including wrappers) as a model value
std::string typed(HC *c, HV *v);
size_t ctx_bytes(HC *c);                               // bytes held by everything below a context

std::string html_escape(const std::string &s);
std::string fmt_double(double d);

// ---- rendering -------------------------------------------------------------------------------
struct Render {
    std::string tmpl;
    unsigned long flags = 0;
    unsigned long vmonly = 0;    // flags given to the machine only
    bool modonly = false;        // flags given to the compiler only
    std::string before;          // a template rendered on the same machine first, without data
    V data;                      // context
    HV *hdata = nullptr;         // context as a value (instead of data)
    std::vector<std::pair<std::string, std::string>> partials; bool has_partials = true;
    HV *hpartials = nullptr;
    V vmdata;                    // data variables ("@x")
    std::vector<std::string> helpers;   // names of test helpers to register (see model)
    const char **known = nullptr;
    handlebars_cache *cache = nullptr;
};
struct Out {
    bool ok = false; std::string out; Err err; std::string stage;
    std::string str() const { return ok ? "ok " + quote(out) : "error in " + stage + " " + std::to_string(err.num) + " " + quote(err.msg); }
    bool same(const Out &o) const { return ok == o.ok && (ok ? out == o.out : err.num == o.err.num && err.msg == o.err.msg); }
};
// compiles a template to a module; false and err on failure
handlebars_module *compile(HC *c, const std::string &tmpl, unsigned long flags, const char **known, Err &err, std::string &stage);
Out render(const Render &r);
Out render_in(HC *c, const Render &r);                 // in an existing context
Out exec_module(HC *c, handlebars_vm *vm, handlebars_module *m, HV *data);
void setup_vm(HC *c, handlebars_vm *vm, const Render &r);
void make_helpers(HC *c, const std::vector<std::string> &names, HV *out);
typedef handlebars_helper_func HelperFn;
HelperFn find_test_helper(const std::string &name);    // provided by the model
void write_file(const std::string &path, const std::string &content);
std::string read_file(const std::string &path);
std::string listing_ast(HC *c, const std::string &tmpl, unsigned long flags, Err &err);
const char *const FLAG_NAMES[] = {"compat", "string_params", "track_ids", "no_escape", "known_helpers_only", "prevent_indent", "use_data", "explicit_partial_context", "ignore_standalone", "alternate_decorators", "strict", "assume_objects", "mustache_style_lambdas"};
std::string flags_str(unsigned long f);
enum : unsigned long {
    F_COMPAT = handlebars_compiler_flag_compat, F_NOESC = handlebars_compiler_flag_no_escape,
    F_KNOWN = handlebars_compiler_flag_known_helpers_only, F_PREVIND = handlebars_compiler_flag_prevent_indent,
    F_EXPLICIT = handlebars_compiler_flag_explicit_partial_context, F_IGNSTD = handlebars_compiler_flag_ignore_standalone,
    F_STRICT = handlebars_compiler_flag_strict, F_ASSUME = handlebars_compiler_flag_assume_objects,
    F_MSL = handlebars_compiler_flag_mustache_style_lambdas, F_SPARAMS = handlebars_compiler_flag_string_params,
    F_IDS = handlebars_compiler_flag_track_ids, F_ALTDEC = handlebars_compiler_flag_alternate_decorators
};
