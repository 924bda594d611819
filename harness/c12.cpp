#include "gen.h"
#include "faketime.h"
#include <algorithm>
#include <set>
#include <lmdb.h>
// histories of operations on a cache, against a model of its contents
struct Tm { std::string text, expect; V data; };
struct Ent { long ts; size_t size; };
static std::string long_text(Src &s) { std::string o; int n = s.range(120, 700); static const char *W[] = {"word ", "{{a}}", "x", "\n", "tail "}; while ((int)o.size() < n) o += W[s.draw(5)]; return o; }
// pairs of texts with the same hash, short and long
static std::vector<std::pair<std::string, std::string>> g_same;
static void init() {
    for (int lng = 0; lng < 2; lng++) {
        std::unordered_map<uint32_t, int> seen; auto text = [&](int i) { return "k" + std::to_string(i) + " {{a}}" + (lng ? std::string(600, 'z') : ""); };
        for (int i = 0; i < 240000; i++) { std::string k = text(i); auto r = seen.emplace(handlebars_string_hash(k.data(), k.size()), i); if (!r.second) g_same.push_back({text(r.first->second), k}); }
    }
}
static void run(Src &s, Case &c) {
    int kind = s.draw(3);           // 0 simple 1 lmdb 2 mmap
    static const char *KN[] = {"simple", "lmdb", "mmap"};
    Ctx ctx; handlebars_cache *cache = nullptr; Err err; g_now = 1700000000;
    std::string path = g_tmpdir + "/c12-" + std::to_string(getpid());
    size_t slots = 0, segment = 0;
    c.desc = std::string("cache: ") + KN[kind];
    auto open = [&] {
        if (!guard(ctx, err, [&] { cache = kind == 0 ? handlebars_cache_simple_ctor(ctx) : kind == 1 ? handlebars_cache_lmdb_ctor(ctx, path.c_str()) : handlebars_cache_mmap_ctor(ctx, segment, slots); })) c.fail("opening the cache: " + err.str());
    };
    if (kind == 1) { unlink(path.c_str()); unlink((path + "-lock").c_str()); }
    if (kind == 2) { static const size_t S[] = {64, 1, 2, 7, 509}; slots = S[s.draw(5)]; segment = 4096 * (2 + (slots * sizeof(void *) + 4095) / 4096 + s.weighted({1, 1, 1}) * 4 - 1 + (s.draw(3) ? 40 : 0)); }
    open();
    struct Closer { handlebars_cache *&c; std::string p; int k; ~Closer() { if (c) handlebars_cache_dtor(c); if (k == 1) { unlink(p.c_str()); unlink((p + "-lock").c_str()); } } } closer{cache, path, kind};
    double max_age = -1; size_t max_entries = 0, max_size = 0;
    if (s.draw(2)) max_age = s.range(0, 30);
    if (kind == 0 && s.draw(2)) max_entries = s.range(1, 5);
    if (kind == 0 && s.draw(3) == 0) max_size = s.range(1, 6000);
    auto limits = [&] { cache->max_age = max_age; cache->max_entries = max_entries; cache->max_size = max_size; };
    limits();
    c.desc += " slots " + std::to_string(slots) + " segment " + std::to_string(segment) + " max_age " + fmt_double(max_age) + " max_entries " + std::to_string(max_entries) + " max_size " + std::to_string(max_size);
    // templates, some of them almost equal
    std::vector<Tm> t; int nt = s.range(2, 8);
    V data = vmap({{"a", vstr("<v>")}, {"l", varr({vint(1), vint(2)})}});
    for (int i = 0; i < nt; i++) {
        Tm x;
        switch (s.weighted({4, 3, 2, 1})) {
        case 0: x.text = "T" + std::to_string(i) + " {{a}}"; break;
        case 1: if (t.size()) { x.text = s.pick(t).text + (s.draw(2) ? "x" : " {{#l}}{{.}}{{/l}}"); break; } [[fallthrough]];
        case 2: x.text = long_text(s); break;
        default: if (t.size()) { x.text = s.pick(t).text; x.text[x.text.size() / 2] = 'Q'; if (x.text.find("{{") != std::string::npos) { x.text = s.pick(t).text; x.text += "é"; } } else x.text = std::string(1 + s.draw(3), 'x');
        }
        if (i && g_same.size() && s.draw(12) == 11) { auto &p = s.pick(g_same); x.text = p.second; bool there = false; for (auto &y : t) if (y.text == p.first || y.text == x.text) there = true; if (!there) { Tm y; y.text = p.first; y.expect = p.first.substr(0, p.first.find('{')) + "&lt;v&gt;" + p.first.substr(p.first.find('}') + 2); c.desc += "\n template " + std::to_string(t.size()) + ": " + quote(y.text); t.push_back(y); i++; nt++; c.label("texts with the same hash"); } }
        for (auto &y : t) if (y.text == x.text) { x.text += "#" + std::to_string(i); break; }
        Render r; r.tmpl = x.text; r.data = data; Out o = render(r); if (!o.ok) { x.text = "ok" + std::to_string(i); r.tmpl = x.text; o = render(r); }
        x.expect = o.out; c.desc += "\n template " + std::to_string(i) + ": " + quote(x.text);
        t.push_back(x);
    }
    std::map<int, Ent> m; size_t hits = 0, misses = 0, collisions = 0, size = 0, pending_collisions = 0; int hitsn = 0, gcremoved = 0, expired_misses = 0; (void)pending_collisions;
    std::set<int> damaged; struct Held { int i; handlebars_module *m; }; std::vector<Held> held;
    handlebars_vm *vm = handlebars_vm_ctor(ctx);
    auto expired = [&](const Ent &e) { return max_age >= 0 && g_now - e.ts >= max_age; };
    auto over = [&] { return (max_size && size > max_size) || (max_entries && m.size() > max_entries); };
    auto gc_model = [&] {
        int n = 0;
        if (kind == 2) return 0;
        std::vector<std::pair<long, int>> o; for (auto &e : m) o.push_back({e.second.ts, e.first}); std::sort(o.begin(), o.end());
        for (auto &e : o) { if (!expired(m[e.second]) && !(kind == 0 && over())) { if (kind == 0) break; else continue; } size -= m[e.second].size; m.erase(e.second); n++; }
        return n;
    };
    auto stats = [&](const std::string &when) {
        struct handlebars_cache_stat st = handlebars_cache_stat(cache);
        c.eq("hits " + when, std::to_string(st.hits), std::to_string(hits)); c.eq("misses " + when, std::to_string(st.misses), std::to_string(misses));
        c.eq("entries " + when, std::to_string(st.current_entries), std::to_string(m.size()));
        c.eq("name", st.name, KN[kind]);
        if (kind == 0) c.eq("size " + when, std::to_string(st.current_size), std::to_string(size));
        if (kind != 1) c.eq("modules in use " + when, std::to_string(st.refcount), std::to_string(held.size()));
        if (kind == 2) c.eq("collisions " + when, std::to_string(st.collisions), std::to_string(collisions));
        return st;
    };
    auto find = [&](int i, bool keep) {
        bool have = m.count(i) && !expired(m[i]) && !damaged.count(i);
        handlebars_module *volatile mod = nullptr;
        HS *k = mks(ctx, t[i].text); handlebars_string_addref(k);
        if (!guard(ctx, err, [&] { mod = handlebars_cache_find(cache, k); })) c.fail("lookup failed: " + err.str());
        if (have != (mod != nullptr)) c.fail("lookup of template " + std::to_string(i) + (have ? " found nothing" : m.count(i) ? " found an expired or damaged entry" : " found something that was not added"));
        if (mod) {
            hits++; hitsn++; if (kind == 0) m[i].ts = g_now;
            HVal d; to_hbs(ctx, data, d); Out o = exec_module(ctx, vm, mod, d);
            if (!o.ok || o.out != t[i].expect) c.eq("rendering of the module found for template " + std::to_string(i), o.str(), "ok " + quote(t[i].expect));
            if (keep) held.push_back({i, mod});
            else handlebars_cache_release(cache, k, mod);
        } else {
            misses++;
            if (m.count(i)) { expired_misses++; if (kind == 2) m.erase(i); }
        }
        handlebars_string_delref(k);
    };
    auto check_held = [&] { for (auto &h : held) { HVal d; to_hbs(ctx, data, d); Out o = exec_module(ctx, vm, h.m, d); if (!o.ok || o.out != t[h.i].expect) c.eq("rendering of a module in use, template " + std::to_string(h.i), o.str(), "ok " + quote(t[h.i].expect)); } };
    int n = s.range(4, 24);
    for (int k = 0; k < n; k++) {
        g_now += 1 + (s.draw(3) ? 0 : s.draw(25));
        int i = s.draw(nt), op = s.weighted({10, 9, 3, 2, 3, 1, 1, 2, 1});
        std::string when = "after operation " + std::to_string(k);
        switch (op) {
        case 0: {                   // add
            c.desc += "\n " + std::to_string(k) + " @" + std::to_string(g_now - 1700000000) + " add " + std::to_string(i);
            std::string st; HS *key = mks(ctx, t[i].text); handlebars_string_addref(key);
            handlebars_module *mod = compile(ctx, t[i].text, 0, nullptr, err, st); if (!mod) c.fail("compiling: " + err.str());
            size_t sz = handlebars_module_get_size(mod);
            long compiled = g_now; if (s.draw(4) == 3) { g_now += s.range(1, 12); c.desc += " later, @" + std::to_string(g_now - 1700000000); }
            struct handlebars_cache_stat before = handlebars_cache_stat(cache);
            if (kind == 0) { if (held.empty() && over()) gc_model(); }
            if (kind == 0 && m.count(i)) for (auto &h : held) if (h.i == i) c.discard("module in use replaced");
            if (!guard(ctx, err, [&] { handlebars_cache_add(cache, key, mod); })) c.fail("adding failed: " + err.str());
            struct handlebars_cache_stat after = handlebars_cache_stat(cache);
            if (kind == 2) {
                if (m.count(i) && !expired(m[i])) {}                    // what is there stays
                else if (after.collisions == before.collisions + 1) {   // its place is taken by another text
                    collisions++; c.label("slot taken by another text");
                    if (slots > 1 && m.empty()) c.fail("collision in an empty table");
                    if (m.count(i)) c.fail("the place of an expired entry is taken by another text");
                    bool other = false; HS *kk = mks(ctx, t[i].text); for (auto &e : m) { HS *ok = mks(ctx, t[e.first].text); if (hbs_str_hash(ok) % slots == hbs_str_hash(kk) % slots) other = true; }
                    if (!other) c.fail("collision without another text in the same place");
                } else if (after.current_entries == 0 && before.current_data_size + sz + t[i].text.size() + 200 > before.total_data_size && held.empty()) { m.clear(); c.label("full: reset"); }
                else if (before.current_data_size + sz + t[i].text.size() + 200 > before.total_data_size && !held.empty() && after.current_entries == before.current_entries - m.count(i)) { m.erase(i); c.label("full, but in use"); }
                else m[i] = {compiled, sz};
            } else {
                if (kind == 0 && m.count(i)) size -= m[i].size;
                if (kind == 1 && t[i].text.size() > 511) for (auto it = m.begin(); it != m.end();) if (it->first != i && t[it->first].text.size() > 511 && handlebars_string_hash(t[it->first].text.data(), t[it->first].text.size()) == handlebars_string_hash(t[i].text.data(), t[i].text.size())) { it = m.erase(it); c.label("replaced by a text with the same hash"); } else ++it;
                damaged.erase(i); m[i] = {kind == 0 ? g_now : compiled, sz}; if (kind == 0) size += sz;
            }
            handlebars_string_delref(key); break;
        }
        case 1: c.desc += "\n " + std::to_string(k) + " @" + std::to_string(g_now - 1700000000) + " find " + std::to_string(i); find(i, false); break;
        case 2: c.desc += "\n " + std::to_string(k) + " hold " + std::to_string(i); if (kind != 1 && held.size() < 3) find(i, true); break;
        case 3: if (held.size()) { c.desc += "\n " + std::to_string(k) + " release"; check_held(); int h = s.draw(held.size()); handlebars_cache_release(cache, mks(ctx, t[held[h].i].text), held[h].m); held.erase(held.begin() + h); } break;
        case 4: {
            if (kind == 0 && held.size()) break;
            int want = gc_model(); c.desc += "\n " + std::to_string(k) + " @" + std::to_string(g_now - 1700000000) + " gc removes " + std::to_string(want);
            volatile int got = 0; if (!guard(ctx, err, [&] { got = handlebars_cache_gc(cache); })) c.fail("garbage collection failed: " + err.str());
            c.eq("entries removed by garbage collection", std::to_string(got), std::to_string(want)); gcremoved += want; break;
        }
        case 5: {
            if (kind == 0 && held.size()) break;
            c.desc += "\n " + std::to_string(k) + " reset";
            if (!guard(ctx, err, [&] { handlebars_cache_reset(cache); })) c.fail("reset failed: " + err.str());
            if (held.size()) { c.label("reset while in use"); break; }
            m.clear(); size = 0; if (kind != 2) hits = misses = 0; break;
        }
        case 6: {                   // limits may be changed at any time
            max_age = s.draw(3) ? s.range(0, 40) : -1; if (kind == 0) { max_entries = s.range(0, 4); max_size = s.draw(3) ? 0 : s.range(1, 6000); }
            if (kind == 0 && m.size() && s.draw(3) == 0) { max_size = s.draw(2) ? size : size - m.begin()->second.size; if (s.draw(4) == 3) max_size--; max_entries = 0; c.label("limit is exactly what there is"); }
            limits(); c.desc += "\n " + std::to_string(k) + " max_age " + fmt_double(max_age) + " max_entries " + std::to_string(max_entries) + " max_size " + std::to_string(max_size); break;
        }
        case 7: g_now += s.range(1, 40); break;
        default:
            if (kind == 1) {        // another process later
                c.desc += "\n " + std::to_string(k) + " reopen"; handlebars_cache_dtor(cache); cache = nullptr;
                if (m.size() && s.draw(2)) {                                 // a byte of an entry's module is changed on disk
                    auto it = m.begin(); std::advance(it, s.draw(m.size())); const std::string &x = t[it->first].text; bool done = false; uint32_t pos = s.draw(1u << 20), bit = s.draw(8);
                    MDB_env *env; MDB_txn *txn; MDB_dbi dbi; MDB_cursor *cur; MDB_val key, data;
                    if (mdb_env_create(&env) || mdb_env_open(env, path.c_str(), MDB_NOSUBDIR, 0644) || mdb_txn_begin(env, nullptr, 0, &txn) || mdb_dbi_open(txn, nullptr, 0, &dbi) || mdb_cursor_open(txn, dbi, &cur)) abort();
                    while (!done && !mdb_cursor_get(cur, &key, &data, MDB_NEXT)) {
                        size_t sz = data.mv_size - x.size(), head = HANDLEBARS_MODULE_SIZE;
                        if (data.mv_size < x.size() + head || handlebars_module_get_size((handlebars_module *)data.mv_data) != sz || memcmp((char *)data.mv_data + sz, x.data(), x.size())) continue;
                        std::string copy((char *)data.mv_data, data.mv_size), k((char *)key.mv_data, key.mv_size); copy[head + pos % (sz - head)] ^= 1 << bit;
                        MDB_val k2 = {k.size(), &k[0]}, d2 = {copy.size(), &copy[0]}; if (mdb_cursor_put(cur, &k2, &d2, MDB_CURRENT)) abort(); done = true;
                    }
                    mdb_cursor_close(cur); if (mdb_txn_commit(txn)) abort(); mdb_env_close(env);
                    if (!done) c.fail("entry " + std::to_string(it->first) + " is not in the file"); else { damaged.insert(it->first); c.desc += ", a byte of entry " + std::to_string(it->first) + " changed in the file"; c.label("entry damaged in the file"); }
                }
                open(); limits(); hits = misses = 0; c.label("reopened");
            }
        }
        check_held(); stats(when);
    }
    for (int i = 0; i < nt; i++) find(i, false);
    stats("at the end"); check_held();
    c.label(KN[kind]); if (gcremoved) c.label("garbage collected"); if (expired_misses) c.label("expired");
    c.nontrivial = hitsn >= 1 && n >= 6;
}
static Reg r({"C12", "histories of adds, lookups, holds, releases, collections, resets, limit changes, clock advances and reopenings on each of the three caches over near-equal texts; every lookup, rendering and statistic compared with a model of the contents; non-trivial: at least six operations and one hit", run, 40000, 500000, init});
