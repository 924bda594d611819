#include "gen.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <filesystem>
namespace fs = std::filesystem;
// a file that is there but has nothing to give
enum { B_NONE, B_EMPTY, B_DIR, B_LOOP };
static void run(Src &s, Case &c) {
    GenOpt o; o.text = 8; o.must = 8; o.w_each = 3; o.w_with = 2; o.section = 2; o.partial = 9; o.pblock = 4; o.pbref = 1; o.depth = 3; o.nodes = 12; o.ws = s.draw(3) != 0; o.specials = 5;
    static const std::vector<std::string> P = {"p1", "part two", "d/p3", "12", "d/e/q-4", "p1.x", "..", "d", "d/../up", "\xc3\xa9t\xc3\xa9", "p%s", "long/" + std::string(180, 'n')};
    int n = s.range(1, 5); int at = s.draw(P.size());
    for (int i = 0; i < n; i++) o.pnames.push_back(P[(at + i * 5) % P.size()]);
    static const std::vector<std::string> EXT = {".hbs", ".mustache", "", ".x.hbs", "_", ".\xc3\xa9"};
    std::string ext = s.pick(EXT);
    for (auto &p : o.pnames) if (ext.empty() && (p == ".." || p == "d")) p = "up" + p;      // would be a directory
    if (!ext.empty() && s.chance(1, 4)) { auto &p = o.pnames[s.draw(n)]; if (p.size() < 100) p = s.draw(2) ? p + ext : o.pnames[0] + ext; std::sort(o.pnames.begin(), o.pnames.end()); o.pnames.erase(std::unique(o.pnames.begin(), o.pnames.end()), o.pnames.end()); n = o.pnames.size(); c.label("name ending in the extension"); }
    o.missing_partial = s.draw(3) ? 0 : 10;
    static const std::vector<unsigned long> FL = {0, F_COMPAT, F_PREVIND, F_EXPLICIT, F_IGNSTD};
    unsigned long fl = s.draw(2) ? s.pick(FL) : 0;
    TCase t; gen_case(s, o, fl, t);
    // long and multi-line files
    if (s.chance(1, 8)) { std::string big; int k = s.range(1, 3) * 3000; while ((int)big.size() < k) big += "line " + std::to_string(big.size()) + (big.size() % 7 ? " <>&\n" : "\r\n"); size_t i = s.draw(n); t.in.partials[i].second.push_back(nd_text(big)); t.r.partials[i].second = body_src(t.in.partials[i].second); }
    for (int i = 0; i < n; i++) if (t.r.partials[i].second.empty()) { t.in.partials[i].second.push_back(nd_text(" ")); t.r.partials[i].second = " "; }
    int bad = s.chance(1, 5) ? 1 + s.draw(3) : B_NONE; size_t badi = bad ? s.draw(n) : 0;
    if (!bad) compare(c, t);
    else { Out w = t.in.run(t.body, t.data); if (w.err.num == -100) c.discard(w.err.msg); }
    // a directory with the files
    std::string root = g_tmpdir + "/pl" + std::to_string(getpid()); fs::remove_all(root);
    std::string base = root + "/base"; fs::create_directories(base + "/d/e"); fs::create_directories(base + "/long");
    static const std::vector<std::string> BASE = {"", "/", "/.", "/d/..", "/d/e/../.."};
    std::string bp = base + s.pick(BASE); const char *rel = nullptr; if (s.chance(1, 10)) { rel = s.draw(2) ? "." : "./"; bp = base; }
    auto file = [&](const std::string &name) { return bp + "/" + name + ext; };
    // files no name designates
    if (s.draw(2)) for (auto &p : t.r.partials) for (auto &e : EXT) if (e != ext) { std::string f = bp + "/" + p.first + e; if (!fs::exists(f)) { bool mine = false; for (auto &q : t.r.partials) if (fs::weakly_canonical(file(q.first)) == fs::weakly_canonical(f)) mine = true; if (!mine && !fs::is_directory(f)) write_file(f, "{{!}}WRONG FILE " + e); } }
    Render mem = t.r; std::string badfile;
    for (size_t i = 0; i < mem.partials.size(); i++) {
        std::string f = file(mem.partials[i].first);
        fs::remove(f);
        if (bad && i == badi) {
            badfile = f; mem.partials[i].second = "{{#if";          // stops a render with a parse error where the partial is used
            if (bad == B_EMPTY) write_file(f, ""); else if (bad == B_DIR) fs::create_directory(f); else fs::create_symlink(fs::path(f).filename(), f);
        } else { if (s.chance(1, 24)) { mem.partials[i].second += std::string("\0more\n", 6); c.label("NUL in a file"); } write_file(f, mem.partials[i].second); }
    }
    c.desc = describe(t) + " base " + quote(rel ? rel : bp.substr(root.size())) + " extension " + quote(ext) + (bad ? std::string(bad == B_EMPTY ? " empty: " : bad == B_DIR ? " directory: " : " link to itself: ") + mem.partials[badi].first : "");
    if (c.verbose) fprintf(stderr, "%s\n", c.desc.c_str());
    struct Cwd { int fd = -1; ~Cwd() { if (fd >= 0) { if (fchdir(fd)) abort(); close(fd); } } } cwd;
    if (rel) { cwd.fd = open(".", O_RDONLY | O_DIRECTORY); if (chdir(base.c_str())) abort(); badfile = fs::path(badfile).filename(); c.label("relative base path"); }
    Out want = render(mem);
    bool hit = bad && !want.ok && want.err.num == HANDLEBARS_PARSEERR;
    {
        Ctx ctx; HVal loader; handlebars_value_partial_loader_init(ctx, mks(ctx, rel ? rel : bp), mks(ctx, ext), loader);
        handlebars_vm *vm[2]; Render r = t.r; r.hpartials = loader;
        for (auto &v : vm) { v = handlebars_vm_ctor(ctx); setup_vm(ctx, v, r); }
        Err err; std::string st; handlebars_module *m = compile(ctx, r.tmpl, r.flags, nullptr, err, st);
        int runs = s.range(1, 4); std::string first;
        for (int k = 0; k < runs && m; k++) {
            std::unordered_map<const Val *, std::unique_ptr<HVal>> sh; HVal d; to_hbs(ctx, t.data, d, &sh);
            Out got = exec_module(ctx, vm[k % 2], m, d);
            std::string w = "render " + std::to_string(k + 1) + " from the directory (compared with the same texts in memory)";
            if (hit) { if (got.ok || got.err.msg.find(badfile.substr(0, 200)) == std::string::npos) c.eq(w, got.str(), "an error about " + quote(badfile)); }
            else if (!got.same(want)) c.eq(w, got.str(), want.str());
            // from now on the loaded texts are kept
            if (k == 0) first = got.str(); else c.eq("render " + std::to_string(k + 1) + " against the first", got.str(), first);
        }
        if (!m) c.eq("compiling", "error " + err.msg, want.str());
        // as a map of texts
        std::set<std::string> seen; long cnt = 0;
        each(loader, [&](handlebars_value_iterator *it) {
            cnt++; std::string k = sv(it->key); if (!seen.insert(k).second) c.fail("iterating over the loaded partials gives " + quote(k) + " twice");
            bool known = false; for (auto &p : mem.partials) if (p.first == k) { known = true; c.eq("loaded partial " + quote(k), typed(ctx, it->cur), vtyped(vstr(p.second))); }
            if (!known) c.fail("loaded partial " + quote(k) + " has no file");
        });
        if (cnt != handlebars_value_count(loader)) c.fail("count of loaded partials is " + std::to_string(handlebars_value_count(loader)) + ", iteration gives " + std::to_string(cnt));
        if (handlebars_value_get_type(loader) != HANDLEBARS_VALUE_TYPE_MAP) c.fail("type of the loader is not map");
        if (want.ok && !bad) {
            for (int rep = 0; rep < 2; rep++) for (auto &p : mem.partials) { HVal t; HV *f = nullptr; if (!guard(ctx, err, [&] { f = handlebars_value_map_find(loader, mks(ctx, p.first), t); })) c.fail("finding " + quote(p.first) + ": " + err.msg); if (!f) c.fail("no partial " + quote(p.first)); c.eq("found partial " + quote(p.first), typed(ctx, f), vtyped(vstr(p.second))); }
            if (handlebars_value_count(loader) != (long)mem.partials.size()) c.fail("count after finding all is " + std::to_string(handlebars_value_count(loader)));
            HVal t; HV *f = nullptr; if (!guard(ctx, err, [&] { f = handlebars_value_map_find(loader, mks(ctx, "nothing here"), t); }) || f) c.fail("a name without a file is found");
        }
        for (auto &v : vm) handlebars_vm_dtor(v);
    }
    fs::remove_all(root);
    c.label(hit ? "unusable file used" : want.ok ? "renders" : "reports an error");
    c.nontrivial = hit || t.in.feat["partial rendered"] + t.in.feat["partial block fallback"] >= 2;
}
static Reg r({"C20", "templates calling up to five generated partials (names with subdirectories, dots, spaces, UTF-8, 180 characters) from a scratch directory, with one of six extensions, several spellings of the base path, decoy files, empty files, directories and self-referencing links; rendered one to four times on two machines and compared with the same texts in memory, themselves compared with the reference interpreter; non-trivial: two partials rendered or an unusable file reported", run, 7000, 100000});
