// C13: maps against an ordered association list
#include "hbs.h"
#include <algorithm>
#include <unordered_map>

static std::vector<std::pair<std::string, std::string>> g_collide;   // pairs of keys with equal 32-bit hash
static std::vector<std::vector<std::string>> g_mod;                  // keys with equal hash modulo the first table sizes
static void init() {
    std::unordered_map<uint32_t, std::string> seen;
    for (int i = 0; i < 240000; i++) {
        std::string k = "k" + std::to_string(i);
        uint32_t h = handlebars_string_hash(k.data(), k.size());
        auto r = seen.emplace(h, k);
        if (!r.second) g_collide.push_back({r.first->second, k});
    }
    for (uint32_t mod : {5u * 11u * 23u, 53u, 97u, 193u}) {
        std::vector<std::string> v; 
        for (int i = 0; i < 60000 && v.size() < 24; i++) { std::string k = "m" + std::to_string(i); if (handlebars_string_hash(k.data(), k.size()) % mod == 1) v.push_back(k); }
        g_mod.push_back(v);
    }
}

typedef std::vector<std::pair<std::string, V>> Ref;
static V *ref_find(Ref &r, const std::string &k) { for (auto &e : r) if (e.first == k) return &e.second; return nullptr; }

struct M { handlebars_map *m = nullptr; Ref ref; bool held = false; };

static std::string cmp_key_order;   // for the comparison functions
static int cmp_key(const handlebars_map_kv_pair *a, const handlebars_map_kv_pair *b) { return sv(a->key).compare(sv(b->key)); }
static int cmp_key_desc(const handlebars_map_kv_pair *a, const handlebars_map_kv_pair *b) { return -sv(a->key).compare(sv(b->key)); }
static int cmp_len_r(const handlebars_map_kv_pair *a, const handlebars_map_kv_pair *b, const void *arg) {
    int dir = *(const int *)arg; std::string x = sv(a->key), y = sv(b->key);
    int r = x.size() != y.size() ? (x.size() < y.size() ? -1 : 1) : x.compare(y);
    return dir * r;
}

static void run(Src &s, Case &c) {
    Ctx ctx; Err err;
    // key pool
    std::vector<std::string> pool;
    int np = s.range(2, c.tier ? 60 : 40), bulk = 0;
    for (int i = 0; i < np; i++) {
        switch (s.weighted({4, 2, 2, 2, 1, 1})) {
        case 0: pool.push_back(std::string(1, 'a' + i % 26) + (i >= 26 ? "x" : "")); break;
        case 1: { auto &p = s.pick(g_collide); pool.push_back(p.first); pool.push_back(p.second); break; }
        case 2: pool.push_back(s.pick(s.pick(g_mod))); break;
        case 3: { std::string k; int n = s.range(0, 5); for (int j = 0; j < n; j++) k += "ab\0c\xff"[s.draw(5)]; pool.push_back(k); break; }
        case 4: pool.push_back(std::string(s.range(20, 300), 'q') + std::to_string(i)); break;
        case 5: pool.push_back(""); break;
        }
    }
    std::string &d = c.desc;
    auto q = [](const std::string &x) { return x.size() > 24 ? quote(x.substr(0, 8)) + "..." + std::to_string(x.size()) : quote(x); };
    std::vector<M> maps;
    auto newmap = [&](size_t cap, bool held) {
        M m; m.held = held;
        guard(ctx, err, [&] { m.m = handlebars_map_ctor(ctx, cap); });
        c.check(m.m != nullptr, "map_ctor failed");
        if (held) handlebars_map_addref(m.m);
        maps.push_back(m);
        d += "m" + std::to_string(maps.size() - 1) + "=new(" + std::to_string(cap) + (held ? ",held" : "") + ")\n";
    };
    auto verify = [&](M &m, const char *when) {
        auto w = [&](const std::string &x) { return std::string(when) + ": " + x; };
        if (handlebars_map_count(m.m) != m.ref.size()) c.fail(w("count " + std::to_string(handlebars_map_count(m.m)) + " expected " + std::to_string(m.ref.size())));
        size_t n = handlebars_map_sparse_array_count(m.m), j = 0;
        bool sparse = handlebars_map_is_sparse(m.m);
        if (!sparse && n != m.ref.size()) c.fail(w("is not sparse, yet has " + std::to_string(n) + " slots for " + std::to_string(m.ref.size()) + " entries"));
        for (size_t i : {n, n + 1, (size_t)-1}) {
            HS *k = nullptr; HV *v = nullptr;
            if (guard(ctx, err, [&] { handlebars_map_get_kv_at_index(m.m, i, &k, &v); }) || guard(ctx, err, [&] { k = handlebars_map_get_key_at_index(m.m, i); })) c.fail(w("index " + std::to_string(i) + " of " + std::to_string(n) + " gives something"));
        }
        for (size_t i = 0; i < n; i++) {
            HS *k = nullptr; HV *v = nullptr;
            handlebars_map_get_kv_at_index(m.m, i, &k, &v);
            if (handlebars_map_get_key_at_index(m.m, i) != k) c.fail(w("get_key_at_index and get_kv_at_index differ"));
            if (!k) { if (!sparse) c.fail(w("empty slot in a map that is not sparse")); continue; }
            if (j >= m.ref.size()) c.fail(w("extra entry " + q(sv(k))));
            if (sv(k) != m.ref[j].first) c.fail(w("entry " + std::to_string(j) + " is " + q(sv(k)) + " expected " + q(m.ref[j].first)));
            std::string got = typed(ctx, v);
            if (got != vtyped(m.ref[j].second)) c.fail(w("value of " + q(sv(k)) + " is " + got + " expected " + vtyped(m.ref[j].second)));
            j++;
        }
        if (j != m.ref.size()) c.fail(w("entries missing from enumeration"));
        auto probe = [&](const std::string &k) {
            V *e = ref_find(m.ref, k);
            HV *g = handlebars_map_str_find(m.m, k.data(), k.size());
            HS *ks = mks(ctx, k);
            HV *g2 = handlebars_map_find(m.m, ks);
            talloc_free(ks);
            if (g != g2) c.fail(w("str_find and find differ for " + q(k)));
            if (!e && g) c.fail(w("found " + q(k) + ", which is not stored"));
            if (e && !g) c.fail(w("did not find " + q(k)));
            if (e && typed(ctx, g) != vtyped(*e)) c.fail(w("find " + q(k) + " gives " + typed(ctx, g) + " expected " + vtyped(*e)));
        };
        for (auto &k : pool) probe(k);
        probe("absent");
        if (m.ref.size() <= 60) for (auto &e : m.ref) probe(e.first);
        else for (size_t i = 0; i < m.ref.size(); i += 7) probe(m.ref[i].first);
    };
    static const int caps[] = {0, 1, 2, 3, 4, 8, 16, 32, 100};
    newmap(caps[s.draw(9)], s.draw(2));
    int nops = s.range(1, c.tier ? 160 : 70);
    int counter = 0, updates = 0, removes = 0, adds = 0, structural = 0, churned = 0;
    auto value = [&](HV *out) -> V {
        V v;
        switch (s.weighted({6, 2, 1, 1})) {
        case 0: v = vint(++counter); break;
        case 1: v = vstr("s" + std::to_string(++counter)); break;
        case 2: v = varr({vint(++counter), vstr("x")}); break;
        default: v = vnull(); break;
        }
        to_hbs(ctx, v, out);
        return v;
    };
    for (int op = 0; op < nops && !s.exhausted(); op++) {
        int mi = s.draw(maps.size()); M &m = maps[mi];
        std::string k = s.pick(pool);
        std::string pre = "m" + std::to_string(mi) + ".";
        bool viastr = s.draw(2);
        switch (s.weighted({10, 10, 9, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1})) {
        case 0: {   // add
            HVal v; V mv = value(v);
            d += pre + "add(" + q(k) + "," + vtyped(mv) + ")\n";
            bool have = ref_find(m.ref, k) != nullptr;
            handlebars_map *n = nullptr;
            bool ok = guard(ctx, err, [&] { n = viastr ? handlebars_map_str_add(m.m, k.data(), k.size(), v) : handlebars_map_add(m.m, mks(ctx, k), v); });
            if (have) { c.check(!ok, "adding a present key succeeded"); c.label("add of present key"); }
            else { c.check(ok, "add failed: " + err.str()); m.m = n; m.ref.push_back({k, mv}); adds++; }
            break;
        }
        case 1: {   // update
            HVal v; V mv = value(v);
            d += pre + "update(" + q(k) + "," + vtyped(mv) + ")\n";
            handlebars_map *n = nullptr;
            bool ok = guard(ctx, err, [&] { n = viastr ? handlebars_map_str_update(m.m, k.data(), k.size(), v) : handlebars_map_update(m.m, mks(ctx, k), v); });
            c.check(ok, "update failed: " + err.str());
            m.m = n;
            if (V *e = ref_find(m.ref, k)) { *e = mv; updates++; } else { m.ref.push_back({k, mv}); adds++; }
            break;
        }
        case 2: {   // remove
            d += pre + "remove(" + q(k) + ")\n";
            handlebars_map *n = nullptr;
            bool ok = guard(ctx, err, [&] { n = viastr ? handlebars_map_str_remove(m.m, k.data(), k.size()) : handlebars_map_remove(m.m, mks(ctx, k)); });
            c.check(ok, "remove failed: " + err.str());
            m.m = n;
            for (size_t i = 0; i < m.ref.size(); i++) if (m.ref[i].first == k) { m.ref.erase(m.ref.begin() + i); removes++; break; }
            break;
        }
        case 3: {   // store a value that lives in the map itself
            if (m.ref.empty()) break;
            std::string k2 = m.ref[s.draw(m.ref.size())].first;
            V mv = *ref_find(m.ref, k2);
            HV *src = handlebars_map_str_find(m.m, k2.data(), k2.size());
            c.check(src != nullptr, "did not find " + q(k2));
            d += pre + "update(" + q(k) + ", own value of " + q(k2) + ")\n";
            handlebars_map *n = nullptr;
            bool ok = guard(ctx, err, [&] { n = handlebars_map_str_update(m.m, k.data(), k.size(), src); });
            c.check(ok, "update failed: " + err.str());
            m.m = n;
            if (V *e = ref_find(m.ref, k)) *e = mv; else m.ref.push_back({k, mv});
            c.label("value from the map itself");
            break;
        }
        case 4: {   // copy
            if (maps.size() >= 4) break;
            size_t cap = s.pick(std::vector<size_t>{0, 1, m.ref.size(), 64});
            M n; n.ref = m.ref; n.held = s.draw(2);
            d += "m" + std::to_string(maps.size()) + "=copy(m" + std::to_string(mi) + "," + std::to_string(cap) + ")\n";
            bool ok = guard(ctx, err, [&] { n.m = handlebars_map_copy_ctor(m.m, cap); });
            c.check(ok && n.m, "copy failed: " + err.str());
            if (n.held) handlebars_map_addref(n.m);
            maps.push_back(n); c.label("copy"); structural++;
            break;
        }
        case 5: {
            bool force = s.draw(2); d += pre + "rehash(" + std::to_string(force) + ")\n";
            handlebars_map *n = nullptr;
            bool ok = guard(ctx, err, [&] { n = handlebars_map_rehash(m.m, force); });
            c.check(ok, "rehash failed: " + err.str()); m.m = n; structural++;
            break;
        }
        case 6: d += pre + "compact\n"; if (handlebars_map_is_sparse(m.m)) c.label("compaction of a sparse map");
            handlebars_map_sparse_array_compact(m.m);
            c.check(!handlebars_map_is_sparse(m.m), "still sparse after compaction"); structural++; break;
        case 7: case 8: {
            int how = s.draw(4); d += pre + "sort(" + std::to_string(how) + ")\n";
            handlebars_map *n = nullptr; static int dir; dir = how == 2 ? 1 : -1;
            if (handlebars_map_is_sparse(m.m)) c.label("sort of a sparse map");
            bool ok = guard(ctx, err, [&] {
                n = how == 0 ? handlebars_map_sort(m.m, cmp_key) : how == 1 ? handlebars_map_sort(m.m, cmp_key_desc) : handlebars_map_sort_r(m.m, cmp_len_r, &dir);
            });
            c.check(ok, "sort failed: " + err.str()); m.m = n;
            std::sort(m.ref.begin(), m.ref.end(), [&](auto &a, auto &b) {
                if (how == 0) return a.first < b.first;
                if (how == 1) return b.first < a.first;
                if (a.first.size() != b.first.size()) return how == 2 ? a.first.size() < b.first.size() : a.first.size() > b.first.size();
                return how == 2 ? a.first < b.first : b.first < a.first;
            });
            structural++;
            break;
        }
        case 9: {   // enumeration with changes during it
            d += pre + "iterate {\n";
            bool old = handlebars_map_set_is_in_iteration(m.m, true);
            size_t i = 0, done = 0; std::vector<std::string> visited, expect;
            for (auto &e : m.ref) expect.push_back(e.first);
            handlebars_map *cur = m.m;
            for (; i < handlebars_map_sparse_array_count(cur); i++) {
                HS *kk = nullptr; HV *vv = nullptr;
                handlebars_map_get_kv_at_index(cur, i, &kk, &vv);
                if (!kk) continue;
                std::string key = sv(kk); visited.push_back(key);
                if (typed(ctx, vv) != vtyped(*ref_find(m.ref, key))) c.fail("wrong value during enumeration at " + q(key));
                int what = s.weighted({6, 2, 2, 1});
                std::string o = s.pick(pool);
                if (what == 1) {
                    if (s.draw(2)) o = key;
                    d += "  remove(" + q(o) + ")\n";
                    handlebars_map *n = nullptr;
                    bool ok = guard(ctx, err, [&] { n = handlebars_map_str_remove(cur, o.data(), o.size()); });
                    c.check(ok, "remove in iteration failed: " + err.str());
                    c.check(n == cur, "map moved during iteration");
                    for (size_t z = 0; z < m.ref.size(); z++) if (m.ref[z].first == o) { m.ref.erase(m.ref.begin() + z); removes++; break; }
                    for (size_t z = visited.size(); z < expect.size(); z++) if (expect[z] == o) { expect.erase(expect.begin() + z); break; }
                } else if (what == 2) {
                    HVal v; V mv = value(v);
                    bool have = ref_find(m.ref, o) != nullptr;
                    d += "  update(" + q(o) + "," + vtyped(mv) + ")\n";
                    handlebars_map *n = nullptr;
                    bool ok = guard(ctx, err, [&] { n = handlebars_map_str_update(cur, o.data(), o.size(), v); });
                    if (have) c.check(ok, "update of a present key in iteration failed: " + err.str());
                    if (ok) {
                        c.check(n == cur, "map moved during iteration");
                        if (have) *ref_find(m.ref, o) = mv; else { m.ref.push_back({o, mv}); expect.push_back(o); }
                    } else c.label("no room while iterating");
                } else if (what == 3 && done < 3) {
                    // nested enumeration
                    done++;
                    bool old2 = handlebars_map_set_is_in_iteration(cur, true);
                    c.check(old2, "iteration flag lost");
                    handlebars_map_set_is_in_iteration(cur, old2);
                    handlebars_map *cp = nullptr;
                    if (guard(ctx, err, [&] { cp = handlebars_map_copy_ctor(cur, 0); })) { M t; t.m = cp; t.ref = m.ref; verify(t, "copy made during enumeration"); handlebars_map_delref(cp); }
                }
            }
            handlebars_map_set_is_in_iteration(cur, old);
            d += "}\n";
            if (visited != expect) c.fail("enumeration visited the wrong keys: " + std::to_string(visited.size()) + " of " + std::to_string(expect.size()));
            c.label("enumeration with changes");
            break;
        }
        case 10: {  // many keys
            int n = s.pick(std::vector<int>{10, 40, 100, 300, c.tier ? 4000 : 900}); int step = s.range(1, 3);
            if (bulk > (c.tier ? 9000 : 1200)) break;
            bulk += n;
            d += pre + "bulk add/remove " + std::to_string(n) + "/" + std::to_string(step) + "\n";
            for (int i = 0; i < n; i++) {
                std::string bk = "b" + std::to_string(op) + "_" + std::to_string(i);
                HVal v; handlebars_value_integer(v, i); handlebars_map *x = nullptr;
                if (!guard(ctx, err, [&] { x = handlebars_map_str_update(m.m, bk.data(), bk.size(), v); })) c.fail("update failed: " + err.str());
                m.m = x; m.ref.push_back({bk, vint(i)});
                if (i % step == step - 1 && step > 1) {
                    if (!guard(ctx, err, [&] { x = handlebars_map_str_remove(m.m, bk.data(), bk.size()); })) c.fail("remove failed: " + err.str());
                    m.m = x; m.ref.pop_back(); removes++;
                }
            }
            c.label("bulk");
            break;
        }
        case 12: {  // a long run of additions and removals: removed keys pile up in the probe sequences
            if (churned++ > 1) break;
            int nk = s.pick(std::vector<int>{12, 30, 60, 150}), n = s.range(20, c.tier ? 700 : 350), rm = s.range(3, 7); uint64_t z = s.draw(1u << 30) + 1;
            d += pre + "churn " + std::to_string(n) + " over " + std::to_string(nk) + " keys, seed " + std::to_string(z) + "\n";
            for (int i = 0; i < n; i++) {
                z = z * 6364136223846793005ull + 1442695040888963407ull;
                std::string ck = "c" + std::to_string((z >> 33) % nk) + (op % 3 ? "" : "_" + std::to_string(op));
                handlebars_map *x = nullptr; bool rem = (z >> 20) % 10 < (uint64_t)rm;
                if (rem) {
                    if (!guard(ctx, err, [&] { x = handlebars_map_str_remove(m.m, ck.data(), ck.size()); })) c.fail("remove failed: " + err.str());
                    m.m = x;
                    for (size_t i = 0; i < m.ref.size(); i++) if (m.ref[i].first == ck) { m.ref.erase(m.ref.begin() + i); removes++; break; }
                } else {
                    HVal v; handlebars_value_integer(v, i);
                    if (!guard(ctx, err, [&] { x = handlebars_map_str_update(m.m, ck.data(), ck.size(), v); })) c.fail("update failed: " + err.str());
                    m.m = x;
                    if (V *e = ref_find(m.ref, ck)) *e = vint(i); else { m.ref.push_back({ck, vint(i)}); adds++; }
                }
                if (i % 8 == 7) for (auto &e : m.ref) {
                    HV *g = handlebars_map_str_find(m.m, e.first.data(), e.first.size());
                    if (!g) c.fail("churn step " + std::to_string(i) + ": did not find " + q(e.first));
                }
                if (handlebars_map_count(m.m) != m.ref.size()) c.fail("churn step " + std::to_string(i) + ": count " + std::to_string(handlebars_map_count(m.m)) + " expected " + std::to_string(m.ref.size()));
            }
            c.label("churn");
            break;
        }
        case 11: newmap(caps[s.draw(9)], s.draw(2)); if (maps.size() > 4) { M &z = maps.back(); handlebars_map_delref(z.m); maps.pop_back(); } break;
        }
        // all maps, not just the one operated on
        if (op % 4 == 3 || op + 1 == nops || (int)maps[mi < (int)maps.size() ? mi : 0].ref.size() < 30) for (size_t i = 0; i < maps.size(); i++) verify(maps[i], ("m" + std::to_string(i)).c_str());
    }
    for (auto &m : maps) verify(m, "at end");
    for (auto &m : maps) handlebars_map_delref(m.m);
    c.nontrivial = adds >= 3 && removes >= 1 && (updates >= 1 || structural >= 1);
    if (removes && structural) c.label("removal and restructuring");
}
static Reg r({"C13", "operation histories over 1-4 maps with key pools containing equal hashes, equal table slots, empty, long and binary keys, checked after the operations against ordered association lists; non-trivial: at least 3 additions, a removal, and an update or restructuring (rehash, compaction, sort, copy)", run, 15000, 150000, init});
