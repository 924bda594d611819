#include "gen.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/stat.h>
#include <filesystem>
extern "C" {
#include "handlebars_module_printer.h"
}
namespace fs = std::filesystem;
struct Res { int rc = -1, sig = 0; std::string out, err; std::string str() const { return (sig ? "signal " + std::to_string(sig) : "exit " + std::to_string(rc)) + "\n   stdout " + quote(out) + "\n   stderr " + quote(err); } };
static Res cli(const std::string &exe, const std::vector<std::string> &args, const std::string &in, bool pipe_in, const std::string &dir) {
    std::string fi = dir + "/stdin", fo = dir + "/stdout", fe = dir + "/stderr";
    write_file(fi, in);
    int pp[2] = {-1, -1}; if (pipe_in && pipe(pp)) abort();
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit l = {20, 20}; setrlimit(RLIMIT_CPU, &l); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
        if (chdir(dir.c_str())) _exit(126);
        int i = pipe_in ? pp[0] : open(fi.c_str(), O_RDONLY), o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(i, 0); dup2(o, 1); dup2(e, 2); if (pipe_in) close(pp[1]);
        std::vector<char *> a; a.push_back((char *)exe.c_str()); for (auto &x : args) a.push_back((char *)x.c_str()); a.push_back(nullptr);
        execv(exe.c_str(), a.data()); _exit(126);
    }
    if (pipe_in) { close(pp[0]); signal(SIGPIPE, SIG_IGN); size_t w = 0; while (w < in.size()) { ssize_t k = write(pp[1], in.data() + w, std::min<size_t>(in.size() - w, 700)); if (k <= 0) break; w += k; } close(pp[1]); }
    int st = 0; waitpid(p, &st, 0);
    Res r; if (WIFEXITED(st)) r.rc = WEXITSTATUS(st); else r.sig = WTERMSIG(st);
    r.out = read_file(fo); r.err = read_file(fe); return r;
}
enum Mode { M_EXEC, M_LEX, M_PARSE, M_COMPILE, M_MODULE };
// what the library gives in this process
struct Want { bool ok = false; std::string out, msg; };
static Want library(Mode m, const Render &r, const std::string *baddata, bool yaml) {
    Want w; Ctx ctx; Err err;
    if (baddata) {
        HVal d;
        if (!guard(ctx, err, [&] { if (yaml) handlebars_value_init_yaml_string(ctx, d, baddata->c_str()); else handlebars_value_init_json_stringl(ctx, d, baddata->data(), baddata->size()); })) { char *e = handlebars_error_message(ctx); w.msg = e ? e : ""; return w; }
    }
    if (m == M_EXEC) {
        Render q = r; HVal d;
        if (baddata) { if (yaml) handlebars_value_init_yaml_string(ctx, d, baddata->c_str()); else { handlebars_value_init_json_stringl(ctx, d, baddata->data(), baddata->size()); handlebars_value_convert(d); } q.hdata = d; }
        Out o = render_in(ctx, q); w.ok = o.ok; w.out = o.out; if (!o.ok) { char *e = handlebars_error_message(ctx); w.msg = e ? e : ""; }
        return w;
    }
    HS *volatile s = nullptr; std::string *acc = new std::string;
    w.ok = guard(ctx, err, [&] {
        handlebars_parser *p = handlebars_parser_ctor(ctx); HS *t = mks(ctx, r.tmpl);
        if (r.flags & F_COMPAT) t = handlebars_preprocess_delimiters(ctx, t, nullptr, nullptr);
        if (m == M_LEX) { for (handlebars_token **k = handlebars_lex_ex(p, t); *k; k++) *acc += sv(handlebars_token_print(ctx, *k, 1)); return; }
        handlebars_ast_node *a = handlebars_parse_ex(p, t, r.flags);
        if (m == M_PARSE) { s = handlebars_ast_print(ctx, a); return; }
        handlebars_compiler *co = handlebars_compiler_ctor(ctx); handlebars_compiler_set_flags(co, r.flags); handlebars_program *pr = handlebars_compiler_compile_ex(co, a);
        if (m == M_COMPILE) { s = handlebars_program_print(ctx, pr, 0); return; }
        handlebars_module *mod = handlebars_program_serialize(ctx, pr); handlebars_module_generate_hash(mod); s = handlebars_module_print(ctx, mod);
    });
    if (w.ok) w.out = m == M_LEX ? *acc : sv(s); else { char *e = handlebars_error_message(ctx); w.msg = e ? e : ""; }
    delete acc; return w;
}
// lines with the address, the time and the hash of these differ between runs
static std::string mask(std::string s) {
    for (const char *k : {"HASH: ", "ADDR: ", "TS: "}) { size_t p = s.find(k); if (p != std::string::npos && p < 300) { size_t e = s.find('\n', p); if (e != std::string::npos) s = s.substr(0, p) + k + "*" + s.substr(e); } }
    return s;
}
static std::string pretty(const std::string &j, Src &s) {           // white space where JSON allows it
    std::string o; bool str = false; static const std::vector<std::string> w = {" ", "\n", "\t", "\r\n  ", ""};
    for (size_t i = 0; i < j.size(); i++) { o += j[i]; if (str) { if (j[i] == '\\') o += j[++i]; else if (j[i] == '"') str = false; } else if (j[i] == '"') str = true; else if (strchr("[]{},:", j[i]) && !s.draw(3)) o += s.pick(w); }
    return o;
}
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 8; o.must = 8; o.triple = 2; o.w_each = 3; o.w_with = 2; o.section = 2; o.inv = 1; o.partial = 4; o.pblock = 1; o.raw = 0; o.depth = 3; o.nodes = 10; o.ws = s.draw(3) != 0; o.strips = s.draw(4) == 3; o.one_line_tags = true;
    if (s.draw(2)) o.pnames = {"p1", "d/p2"};
    static const std::vector<unsigned long> FL = {F_COMPAT, F_KNOWN, F_SPARAMS, F_IDS, F_NOESC, F_IGNSTD, F_ALTDEC, F_STRICT, F_ASSUME, F_MSL};
    unsigned long fl = 0; if (s.draw(2)) { int k = s.range(1, 3); while (k--) fl |= s.pick(FL); }
    TCase t; gen_case(s, o, fl, t);
    t.r.helpers.clear(); t.r.vmdata = nullptr;
    for (auto &p : t.r.partials) if (p.second.empty()) p.second = " ";
    std::string &tm = t.r.tmpl; std::string note;
    switch (s.weighted({16, 2, 2, 2, 1, 1})) {
    case 1: if (tm.size() > 1) { note = " damaged"; size_t p = s.draw(tm.size()); tm.erase(p, 1 + s.draw(3)); } break;
    case 2: { note = " damaged"; static const std::vector<std::string> junk = {"{{/if}}", "{{else}}", "{{#if}}", "{{", "}}", "{{#each x}}", "{{foo bar=}}", "{{{x}}", "{{> nosuch}}", "{{nohelper 1}}", "{{../../../x}}", "{{\"}}", "{{#if a b}}x{{/if}}"}; tm.insert(s.draw(tm.size() + 1), s.pick(junk)); break; }
    case 3: { note = " long"; std::string big; int k = s.range(1, 12) * 500; while ((int)big.size() < k) { big += "0123456789abcde"[big.size() % 15]; if (!s.draw(200)) big += '\n'; } tm = s.draw(2) ? big + tm : tm + big; break; }
    case 4: { note = " with NUL"; tm += std::string("\0nul", 4) + (s.draw(2) ? "{{foo}}" : ""); break; }
    case 5: { static const std::vector<std::string> e = {"\n", "x\r\n", "\xff\xfe", "%s%n", " ", "{{this}}", "\n\n{{.}}\n"}; tm = s.pick(e); break; }
    }
    // changed delimiters (literal braces otherwise)
    if ((fl & F_COMPAT ? s.draw(2) : s.draw(30)) == 1) { static const std::vector<std::string> ch = {"{{=<% %>=}}<%foo%><%#items%>x<%/items%>", "{{=[ ]=}}[name]{{name}}[={{ }}=]", "{{=| |=}}\n|={{ }}=|\n{{foo}}", "{{= <a> </a> =}}x<a>&foo</a>"}; std::string x = s.pick(ch); if (s.draw(2)) tm += x; else { size_t q = x.rfind("={{ }}="); tm = x + (q == std::string::npos ? x[3] == '<' ? "<%={{ }}=%>" : "<a>={{ }}=</a>" : "") + tm; } note += " delimiters"; }
    if (tm.empty()) tm = "x";
    Mode mode = (Mode)s.weighted({8, 1, 1, 1, 1});
    // data
    std::string text, name = "data.json"; bool yaml = false, given = true, bad = false, fromtext = false;
    if (!t.data) t.data = vnull();
    switch (s.weighted({8, 3, 4, 1, 2, 1})) {
    case 0: text = vjson(t.data); break;
    case 1: text = pretty(vjson(t.data), s); break;
    case 2: yaml = true; text = vjson(t.data) + (s.draw(2) ? "\n" : ""); break;
    case 3: given = false; t.data = nullptr; break;
    case 4: { static const std::vector<V> sc = {vbool(false), vbool(true), vint(0), vint(7), vstr("str <b>"), varr(), vmap(), vnull(), vstr(""), varr({vint(1), vstr("&")})}; t.data = s.pick(sc); text = vjson(t.data); yaml = s.draw(2); break; }
    case 5: bad = true; yaml = s.draw(3) == 2; text = vjson(t.data); if (yaml) { static const std::vector<std::string> junk = {"{a: [1, 2", "a: b: c", "- a\nb: c", "\"abc", "a: [1, 2}", "\t- x", "key: @at", "%"}; text = s.pick(junk); } else { size_t p = s.draw(text.size()); text = s.draw(2) && p ? text.substr(0, p) : text.insert(p, "]"); } break;
    }
    if (text.empty() && given) { text = "{"; bad = true; yaml = false; }
    fromtext = bad;                                                     // damaged text may still be a document
    // YAML written as JSON has no double precision: numbers are read from the text there too
    if (g_show_over && given) c.discard("data too large to show");
    static const std::vector<std::string> YN = {"data.yaml", "d.yml", "x.yml", "a.b.yaml"}, JN = {"data.json", "dat", "data.yamlx", "yml", "x.yaml.json"};
    if (given) name = yaml ? s.pick(YN) : s.pick(JN);
    bool loader = s.draw(4) != 3; std::string ext; static const std::vector<std::string> EXT = {".hbs", ".mustache", ""}; ext = s.pick(EXT); std::string pdir = s.draw(2) ? "." : "parts";
    t.r.has_partials = loader; t.r.data = t.data;
    std::string dir = g_tmpdir + "/cli" + std::to_string(getpid()); fs::remove_all(dir); fs::create_directories(dir + "/parts/d"); fs::create_directories(dir + "/d");
    write_file(dir + "/t.tpl", tm); if (given) write_file(dir + "/" + name, text);
    for (auto &p : t.r.partials) write_file(dir + "/" + pdir + "/" + p.first + ext, p.second);
    c.desc = "mode " + std::to_string(mode) + note + " flags " + flags_str(fl) + " template " + quote(tm) + (given ? " data file " + name + " " + quote(text) : " no data") + (loader ? " loader " + pdir + " " + ext : "");
    for (auto &p : t.r.partials) c.desc += "\n  partial " + p.first + " " + quote(p.second);
    if (c.verbose) fprintf(stderr, "%s\n", c.desc.c_str());
    bool use_data = mode == M_EXEC && given;
    std::string bt = text;
    Want want = library(mode, t.r, use_data && fromtext ? &bt : nullptr, yaml);
    if (mode == M_MODULE) want.out = mask(want.out);
    std::string plain = g_cli; { size_t p = plain.find("/asan/"); if (p != std::string::npos) plain.replace(p, 6, "/plain/"); }
    int runs = s.range(1, 3);
    for (int k = 0; k < runs; k++) {
        std::vector<std::string> a; std::string in; bool tin = s.draw(4) == 3, din = !tin && use_data && !yaml && s.draw(5) == 4;
        static const std::vector<std::string> MO = {"--execute", "--lex", "--parse", "--compile", "--module"};
        std::vector<std::vector<std::string>> g;
        if (mode != M_EXEC || s.draw(3) == 2) g.push_back({MO[mode]});
        std::string tf = tin ? "-" : s.draw(2) ? "t.tpl" : dir + "/t.tpl"; bool positional = s.draw(3) == 2;
        if (!positional) { if (s.draw(2)) g.push_back({"-t", tf}); else g.push_back({"--template=" + tf}); }
        if (given) { std::string df = din ? "-" : s.draw(2) ? name : dir + "/" + name; if (s.draw(2)) g.push_back({"-D", df}); else g.push_back({"--data", df}); }
        if (fl) { std::string f = ""; std::vector<std::string> n; for (int i = 0; i < 13; i++) if (fl & (1ul << i)) n.push_back(FLAG_NAMES[i]); if (n.size() > 1 && s.draw(2)) std::swap(n[0], n.back()); size_t cut = s.draw(3) == 2 ? 1 : n.size(); for (size_t i = 0; i < cut; i++) f += (i ? "," : "") + n[i]; g.push_back({"--flags=" + f}); for (size_t i = cut; i < n.size(); i++) g.push_back({"--flags", n[i]}); }
        if (loader) { g.push_back({"--partial-loader"}); if (pdir != "." || s.draw(2)) g.push_back({"--partial-path", s.draw(2) ? pdir : dir + "/" + pdir}); if (ext != ".hbs" || s.draw(2)) g.push_back({"--partial-ext=" + ext}); }
        bool nl = true, big = false;
        if (s.draw(3) == 2) { g.push_back({s.draw(2) ? "-n" : "--no-newline"}); nl = false; }
        if (s.draw(3) == 2) { static const std::vector<std::string> N = {"2", "1", "3", "0", "17", "-1"}; g.push_back({"--run-count", s.pick(N)}); big = true; }
        if (s.draw(3) == 2) g.push_back({"--no-convert-input"});
        if (s.draw(3) == 2) { static const std::vector<std::string> N = {"0", "1", "64", "1000", "4096", "65536", "10000000"}; g.push_back({"--pool-size=" + s.pick(N)}); }
        if (s.draw(4) == 3) g.push_back({"--pretty-print"});
        for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[i - 1 - s.draw(i)]);
        for (auto &x : g) a.insert(a.end(), x.begin(), x.end());
        if (positional) { if (s.draw(2)) a.push_back(tf); else a.insert(a.begin(), tf); }
        if (tin) in = tm; else if (din) in = text;
        bool asan = s.draw(6) == 5, pin = s.draw(2);
        Res r = cli(asan ? g_cli : plain, a, in, pin, dir); c.sub++;
        std::string w = "handlebarsc"; for (auto &x : a) w += " " + quote(x);
        Res e; e.rc = want.ok ? 0 : 1; if (want.ok) { e.out = want.out; if (mode == M_EXEC && nl) e.out += "\n"; } else e.err = "ERROR: " + want.msg + "\n";
        if (mode == M_MODULE) r.out = mask(r.out);
        if (r.sig || (want.ok ? r.rc != 0 : r.rc == 0) || r.out != e.out || r.err != e.err) c.eq(w + (tin || din ? " (with standard input)" : ""), r.str(), e.str());
        c.label(std::string("run: ") + (tin ? "template on stdin" : din ? "data on stdin" : "files")); if (big) c.label("run: run-count"); if (!nl) c.label("run: no newline");
    }
    if (s.draw(12) == 11) {                                             // files that are not there
        int what = s.draw(4);
        std::vector<std::string> a = what == 0 ? std::vector<std::string>{"-t", "missing.tpl"} : what == 1 ? std::vector<std::string>{"-t", "t.tpl", "-D", "missing.json"} : what == 2 ? std::vector<std::string>{"-t", "d"} : std::vector<std::string>{"--execute"};
        Res r = cli(plain, a, "", false, dir); if (r.sig || r.rc == 0 || !r.out.empty() || r.err.empty()) c.fail("missing or unreadable input: " + r.str());
        c.label("missing file");
    }
    fs::remove_all(dir);
    c.label(want.ok ? "prints" : "reports an error"); if (use_data) c.label(std::string("data: ") + (bad ? "damaged " : "") + (yaml ? "YAML" : "JSON")); c.label("mode " + std::to_string(mode)); if (loader && !t.r.partials.empty()) c.label("partials");
    c.nontrivial = want.ok ? want.out.size() > 3 : true;
}
static Reg r({"C21", "command lines of the built tool (plain and address-sanitized) with generated templates (also damaged, long, with NUL bytes), JSON or YAML data files (also damaged, scalar, absent), zero to three flags, partial directories, input by file or standard input, run counts, pool sizes, converted or wrapped data, and the four listings; exit status and both output streams compared with the library called in this process on native data; non-trivial: an output of more than three bytes or an error", run, 4500, 60000});
