// C23: pipelines in several threads, each with objects of its own, against the same pipelines one after the other
#include "gen.h"
#include <sys/wait.h>
#include <thread>
#include <atomic>
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
extern "C" {
#include "handlebars_module_printer.h"
#include "handlebars_cache_private.h"
}
// the shared cache waits up to half a second for its readers before a reset: many nested renders would wait for minutes
extern "C" int usleep(useconds_t) { struct timespec t{0, 20000}; nanosleep(&t, nullptr); return 0; }
namespace {
struct Job { Render r; int conv = 0; std::string text; int stages = 0; bool twice = false; };
// every stage once; the texts of all of them. C++ objects that own memory live in scopes no error jumps out of
std::string work(const Job &j, handlebars_cache *cache) {
    std::string o; Ctx x; Err e; const Render &r = j.r;
    HS *t = mks(x, r.tmpl); handlebars_parser *volatile p = nullptr; handlebars_ast_node *volatile ast = nullptr; handlebars_compiler *volatile co = nullptr; handlebars_program *volatile pr = nullptr; handlebars_module *volatile m = nullptr; HS *volatile res = nullptr;
    auto step = [&](const char *n, bool ok) { o += std::string(n) + (ok ? "" : " " + e.str()) + "\n"; return ok; };
    auto show = [&](HS *s) { o += s ? sv(s) : std::string("(nothing)"); o += "\n"; };
    HS *volatile pt = t;
    if (r.flags & F_COMPAT && step("delimiters", guard(x, e, [&] { res = handlebars_preprocess_delimiters(x, handlebars_string_copy_ctor(x, t), nullptr, nullptr); }))) { pt = res; show(res); }
    if (j.stages & 1) { handlebars_token **volatile tv = nullptr; if (step("tokens", guard(x, e, [&] { tv = handlebars_lex_ex(handlebars_parser_ctor(x), pt); }))) for (handlebars_token **k = tv; *k; k++) { res = nullptr; guard(x, e, [&] { res = handlebars_token_print(x, *k, 0); }); show(res); } }
    if (!step("parse", guard(x, e, [&] { p = handlebars_parser_ctor(x); ast = handlebars_parse_ex(p, pt, r.flags); })) || !ast) return o;
    if (j.stages & 2) { res = nullptr; if (step("tree", guard(x, e, [&] { res = handlebars_ast_print(x, ast); }))) show(res); }
    if (j.stages & 4) { res = nullptr; if (step("source", guard(x, e, [&] { res = handlebars_ast_to_string(x, ast); }))) show(res); }
    if (!step("compile", guard(x, e, [&] { co = handlebars_compiler_ctor(x); handlebars_compiler_set_flags(co, r.flags); pr = handlebars_compiler_compile_ex(co, ast); }))) return o;
    if (j.stages & 8) { res = nullptr; if (step("program", guard(x, e, [&] { res = handlebars_program_print(x, pr, 0); }))) show(res); }
    if (!step("serialize", guard(x, e, [&] { m = handlebars_program_serialize(x, pr); }))) return o;
    if (j.stages & 16) { res = nullptr; if (step("module", guard(x, e, [&] { res = handlebars_module_print(x, m); }))) { std::string s = sv(res); size_t i = 0; while (i < s.size()) { size_t n = s.find('\n', i); std::string l = s.substr(i, n == std::string::npos ? n : n - i); if (l.compare(0, 5, "HASH:") && l.compare(0, 5, "ADDR:") && l.compare(0, 3, "TS:")) o += l + "\n"; if (n == std::string::npos) break; i = n + 1; } } }
    for (int k = 0; k <= (j.twice ? 1 : 0); k++) {
        handlebars_vm *vm = handlebars_vm_ctor(x); setup_vm(x, vm, r); if (cache) handlebars_vm_set_cache(vm, cache);
        { HVal d; std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; bool ok = true;
          if (j.conv == 1) ok = step("json", guard(x, e, [&] { handlebars_value_init_json_string(x, d, j.text.c_str()); })); else if (j.conv == 2) ok = step("yaml", guard(x, e, [&] { handlebars_value_init_yaml_string(x, d, j.text.c_str()); })); else to_hbs(x, r.data, d, &sh);
          res = nullptr; if (ok && step("render", guard(x, e, [&] { res = handlebars_vm_execute(vm, m, d); }))) show(res); }
        handlebars_vm_dtor(vm);
    }
    return o;
}
void run(Src &s, Case &c) {
    alarm(150);
    // a few jobs, so that threads meet at the same templates and partials
    int nj = s.range(1, 4); std::vector<Job> jobs; std::string desc; bool shared = s.draw(3) != 2;
    std::vector<std::pair<std::string, std::string>> common;
    for (int i = 0; i < nj; i++) {
        GenOpt o; o.text = 7; o.must = 7; o.w_each = 3; o.w_with = 2; o.section = 4; o.partial = 7; o.pblock = 3; o.hcall = 2; o.hblock = 2; o.depth = 3; o.nodes = 8; o.ws = s.draw(2); o.missing_partial = s.draw(4) ? 0 : 10; o.helpers = {"dump", "blk", "id", "cat", "thr"}; if (s.draw(4)) o.helpers.pop_back(); o.pnames = {"p1", "p2", "p3"};
        static const unsigned long FL[] = {0, F_COMPAT, F_NOESC, F_STRICT, F_EXPLICIT, F_PREVIND};
        TCase t; gen_case(s, o, FL[s.weighted({8, 3, 1, 1, 1, 1})], t);
        Job j; j.r = t.r; j.r.data = t.data; if (s.chance(1, 10)) j.r.tmpl += s.draw(2) ? "{{" : "{{/x}}";
        if (!common.empty() && s.draw(3) == 2) j.r.partials = common; else if (common.empty()) common = j.r.partials;
        std::function<bool(const V &)> lam = [&](const V &v) { if (!v) return false; if (v->t == V_LAM) return true; for (auto &e : v->a) if (lam(e)) return true; for (auto &e : v->m) if (lam(e.second)) return true; return false; };
        j.conv = s.weighted({3, 1, 1}); if (lam(j.r.data)) j.conv = 0; if (j.conv) j.text = vjson(j.r.data);
        j.stages = s.draw(2) ? 31 : s.draw(32); j.twice = s.draw(2); j.r.cache = nullptr; jobs.push_back(j);
        desc += "job " + std::to_string(i) + (j.conv ? j.conv == 1 ? " (JSON)" : " (YAML)" : "") + "\n " + describe(t) + "\n";
    }
    int nt = s.range(2, 5), per = s.range(1, 5); std::vector<std::vector<int>> plan(nt); bool procs = s.draw(6) == 5;
    for (auto &v : plan) for (int k = 0; k < per; k++) v.push_back(s.draw(nj));
    int ck = shared ? s.weighted({1, 3}) : 0;   // a cache for everybody, or none
    static const size_t SL[] = {509, 64, 3, 1}; size_t slots = SL[s.draw(4)], seg = 4096 * (s.draw(3) ? 60 : 3 + (slots * 8 + 4095) / 4096 + s.draw(6)); double age = s.draw(4) ? -1 : 0; bool own = s.draw(4) == 3;
    desc += std::string(procs ? "processes: " : "threads: ") + std::to_string(nt) + "\n"; for (auto &v : plan) { desc += " jobs"; for (int k : v) desc += " " + std::to_string(k); desc += "\n"; }
    if (ck) desc += " shared cache, " + std::to_string(slots) + " slots, segment " + std::to_string(seg) + ", max_age " + fmt_double(age) + "\n"; if (own) desc += " and a cache of its own for every second thread\n";
    c.desc = desc; if (c.verbose) fprintf(stderr, "%s", desc.c_str());
    std::vector<std::string> want(nj); std::vector<bool> have(nj);
    Ctx ctx; Err err; handlebars_cache *cache = nullptr;
    if (ck) { if (!guard(ctx, err, [&] { cache = handlebars_cache_mmap_ctor(ctx, seg, slots); })) c.fail("opening the cache: " + err.str()); cache->max_age = age; }
    std::vector<std::vector<std::string>> got(nt);
    auto body = [&](int i) {
        Ctx mine; handlebars_cache *volatile mc = cache; Err e; if (own && i % 2 && !guard(mine, e, [&] { mc = handlebars_cache_mmap_ctor(mine, 4096 * 60, 64); })) { got[i].assign(per, "own cache: " + e.str()); return; }
        for (int k : plan[i]) got[i].push_back(work(jobs[k], mc));
        if (mc != cache) handlebars_cache_dtor(mc);
    };
    if (!procs) {
        std::atomic<int> ready{0}; std::vector<std::thread> ts;
        for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { ready++; while (ready < nt) std::this_thread::yield(); body(i); });
        for (auto &t : ts) t.join();
    } else {
        std::vector<int> fds; std::vector<pid_t> ps;
        for (int i = 0; i < nt; i++) {
            int fd[2]; if (pipe(fd)) c.discard("no pipe");
            pid_t p = fork();
            if (!p) { alarm(150); body(i); std::string o; for (auto &g : got[i]) o += std::to_string(g.size()) + " " + g; size_t w = 0; while (w < o.size()) { ssize_t n = write(fd[1], o.data() + w, o.size() - w); if (n <= 0) break; w += n; } _exit(0); }
            close(fd[1]); fds.push_back(fd[0]); ps.push_back(p);
        }
        for (int i = 0; i < nt; i++) {
            std::string o; char b[4096]; ssize_t n; while ((n = read(fds[i], b, sizeof b)) > 0) o.append(b, n); close(fds[i]);
            size_t a = 0; while (a < o.size()) { size_t q = o.find(' ', a); size_t len = std::stoul(o.substr(a, q - a)); got[i].push_back(o.substr(q + 1, len)); a = q + 1 + len; }
        }
        for (int i = 0; i < nt; i++) { int st = 0; waitpid(ps[i], &st, 0); if (st) c.fail("process " + std::to_string(i) + " ended with status " + std::to_string(st)); }
    }
    size_t hits = 0; if (cache) { hits = handlebars_cache_stat(cache).hits; handlebars_cache_dtor(cache); }
    for (int i = 0; i < nt; i++) for (int k = 0; k < per; k++) {
        int j = plan[i][k]; if (!have[j]) { want[j] = work(jobs[j], nullptr); have[j] = true; }
        if (k >= (int)got[i].size()) c.fail("thread " + std::to_string(i) + " gave no result");
        if (got[i][k] != want[j]) c.eq((procs ? "process " : "thread ") + std::to_string(i) + ", job " + std::to_string(j), got[i][k], want[j]);
    }
    alarm(0);
    c.label(procs ? "processes" : "threads", nt); if (ck) c.label("shared cache"); if (hits) c.label("shared cache with hits"); if (own) c.label("caches of their own");
    c.nontrivial = nt * per >= 4;
}
void init() { time_t t = 0; (void)ctime(&t); }
Reg r({"C23", "one to four pipelines (all stages, all printers, native, JSON or YAML data) run one to five times by each of two to five threads or processes at the same time, with objects of their own, with and without one memory mapped cache for all of them (also too small, also with entries expiring at once) and caches of their own; every text compared with the pipeline run alone, and the race detector silent; non-trivial: four or more runs", run, 3000, 80000, init});
}
