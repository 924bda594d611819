#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

std::string g_tmpdir = "/tmp", g_cli;
std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }

std::string quote(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c == 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
uint64_t hash64(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 32; h *= 0x9e3779b97f4a7c15ull; return h ^ (h >> 29);
}
void Case::eq(const std::string &what, const std::string &got, const std::string &want) {
    if (got != want) fail(what + "\n  expected: " + quote(want) + "\n  actual:   " + quote(got));
}

static const int CASE_CPU_LIMIT = getenv("PBT_CPU") ? atoi(getenv("PBT_CPU")) : 30;   // seconds of CPU for a single case
struct Shm {                            // one per worker
    volatile uint64_t cur;              // case being run
    volatile uint64_t done, nontriv, discarded, sub;
    volatile int state;                 // 0 running 1 finished 2 failed
    volatile uint32_t nlog;
    uint32_t log[Src::MAXC];
    char msg[16384];
};
static Shm *shm_new() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shm *)p;
}
static void on_prof(int) { static const char m[] = "\nPBT: case exceeded its CPU limit\n"; (void)!write(2, m, sizeof m - 1); _exit(78); }
static void arm(int s) {
    struct itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr);
}
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15; z ^= z >> 31; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; return z ^ (z >> 32); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// runs one case; returns 0 ok, 1 discard, 2 failure
static int run_one(const Prop &p, Src &src, Case &c, std::string &msg) {
    static const char *slow = getenv("PBT_SLOW");   // seconds: report longer cases
    double t0 = now();
    struct End { double t0; Case &c; ~End() { if (slow && now() - t0 > atof(slow)) fprintf(stderr, "SLOW %.1f s: case %llu %s\n", now() - t0, (unsigned long long)c.index, c.desc.c_str()); } } end{t0, c};
    try { p.run(src, c); return 0; }
    catch (Discard &d) { msg = d.why; return 1; }
    catch (Failure &f) { msg = f.msg; return 2; }
}

struct Result { std::string kind, msg; std::vector<uint32_t> choices; bool failed = false; uint64_t index = 0; };

// run a choice vector in a forked child
static Result try_choices(const Prop &p, const std::vector<uint32_t> &v, uint64_t index, int tier, int cpu, bool show) {
    static Shm *sh = shm_new();
    sh->state = 0; sh->msg[0] = 0; sh->nlog = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (!show) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
        signal(SIGPROF, on_prof); arm(cpu);
        if (p.worker_init) p.worker_init();
        Src src(v, sh->log, &sh->nlog); Case c; c.index = index; c.tier = tier; c.verbose = show;
        std::string m; int r = run_one(p, src, c, m);
        if (show) std::cerr << "--- case ---\n" << c.desc << "\n--- result: " << (r == 0 ? "held" : r == 1 ? "discarded" : "FAILED") << "\n" << m << std::endl;
        if (r == 2) { std::string full = m + "\n--- case ---\n" + c.desc; strncpy(sh->msg, full.c_str(), sizeof sh->msg - 1); sh->state = 2; _exit(77); }
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.index = index;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
    r.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.kind = "violated"; r.msg = sh->msg; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { r.kind = "hang"; r.msg = "case did not finish within its CPU limit"; }
    else { r.kind = "crash"; char b[64]; snprintf(b, 64, "wait status 0x%x", st); r.msg = std::string("process crashed or was stopped by a sanitizer: ") + b; }
    r.choices.assign(sh->log, sh->log + sh->nlog);
    return r;
}

static Result shrink(const Prop &p, Result best, int tier, double budget) {
    double end = now() + budget; int tries = 0;
    int cpu = best.kind == "hang" ? 10 : CASE_CPU_LIMIT;
    auto better = [](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    };
    auto attempt = [&](const std::vector<uint32_t> &cand) {
        if (now() > end) return false;
        tries++;
        Result r = try_choices(p, cand, best.index, tier, cpu, false);
        if (r.failed && r.kind == best.kind) {
            std::vector<uint32_t> nc = r.choices;
            while (!nc.empty() && nc.back() == 0) nc.pop_back();   // missing choices read as 0
            if (better(nc, best.choices)) { r.choices = nc; best = r; return true; }
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len : {256u, 128u, 64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
            if (len > best.choices.size()) continue;
            for (size_t i = best.choices.size() - len + 1; i-- > 0 && now() < end;) {
                if (i + len > best.choices.size()) continue;
                auto c = best.choices; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) { progress = true; if (i > best.choices.size()) i = best.choices.size(); }
                if (len > 4 && i > len / 2) i -= len / 2;
            }
        }
        for (size_t len : {16u, 4u, 1u})
            for (size_t i = 0; i + len <= best.choices.size() && now() < end; i += len) {
                auto c = best.choices; bool any = false;
                for (size_t k = 0; k < len; k++) { if (c[i + k]) any = true; c[i + k] = 0; }
                if (any && attempt(c)) progress = true;
            }
        for (size_t i = 0; i < best.choices.size() && now() < end; i++) {
            uint32_t v = best.choices[i];
            if (v < 2) continue;
            for (uint32_t nv : {v / 2, v - 1}) {
                if (i >= best.choices.size()) break;
                auto c = best.choices; c[i] = nv; if (attempt(c)) { progress = true; break; }
            }
        }
    }
    std::cerr << "shrink: " << tries << " candidates, " << best.choices.size() << " choices left\n";
    return best;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; i++; }
        else if (c == '\n') { o += "\\n"; i++; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; i++; }
        else { o += (char)c; i++; }
    }
    return o + "\"";
}

int main(int argc, char **argv) {
    std::string prop, replay, out, repdir = "."; uint64_t seed = 1; int tier = 0, workers = 8; double tlimit = 600; double scale = 1; int64_t forced = -1; int64_t only = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tier") tier = nx() == "thorough"; else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--out") out = nx();
        else if (a == "--replay") replay = nx(); else if (a == "--replays-dir") repdir = nx();
        else if (a == "--tmp") g_tmpdir = nx(); else if (a == "--cases") forced = atoll(nx().c_str());
        else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--cli") g_cli = nx();
        else if (a == "--one") only = atoll(nx().c_str());
        else { std::cerr << "unknown option " << a << "\n"; return 2; }
    }
    const Prop *P = nullptr;
    for (auto &p : registry()) if (prop.empty() || prop == p.id) P = &p;
    if (!P) { std::cerr << "no such property\n"; return 2; }
    { struct rlimit rl; getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl); }

    if (!replay.empty()) {
        std::ifstream f(replay); std::string line; std::vector<uint32_t> v; uint64_t idx = 0; int rt = 0;
        while (std::getline(f, line)) {
            if (line.rfind("choices:", 0) == 0) { std::istringstream is(line.substr(8)); uint32_t x; while (is >> x) v.push_back(x); }
            if (line.rfind("index:", 0) == 0) idx = strtoull(line.c_str() + 6, 0, 10);
            if (line.rfind("tier:", 0) == 0) rt = atoi(line.c_str() + 5);
        }
        Result r = try_choices(*P, v, idx, rt, CASE_CPU_LIMIT, true);
        if (!r.failed) { std::cout << "REPLAY held\n"; return 0; }
        std::cout << "REPLAY fails kind=" << r.kind << "\n" << r.msg << "\n"; return 1;
    }

    uint64_t N = forced >= 0 ? (uint64_t)forced : (uint64_t)((tier ? P->thorough_cases : P->quick_cases) * scale);
    uint64_t pidh = hash64(P->id);
    std::vector<Shm *> sh(workers); std::vector<pid_t> pids(workers);
    double t0 = now();
    for (int w = 0; w < workers; w++) {
        sh[w] = shm_new();
        std::string base = g_tmpdir + "/w" + std::to_string(w);
        fflush(stdout);
        pids[w] = fork();
        if (pids[w] == 0) {
            int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); }
            fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
            signal(SIGPROF, on_prof);
            if (P->worker_init) P->worker_init();
            Shm *s = sh[w]; std::map<std::string, int> labels; std::unordered_set<uint64_t> distinct; std::vector<std::string> samples; std::map<std::string, int> disc;
            auto dump = [&] {
                std::ofstream f(base + ".stat"); for (auto &l : labels) f << "L " << l.second << " " << l.first << "\n";
                for (auto &l : disc) f << "D " << l.second << " " << l.first << "\n";
                for (auto &x : samples) f << "S " << jstr(x) << "\n";
                std::ofstream h(base + ".hash", std::ios::binary); for (uint64_t x : distinct) h.write((char *)&x, 8);
            };
            for (uint64_t i = w; i < N; i += workers) {
                if (only >= 0 && i != (uint64_t)only) continue;
                if (now() - t0 > tlimit) break;
                s->cur = i; arm(CASE_CPU_LIMIT);
                Src src(mix(mix(seed, pidh), i), s->log, &s->nlog); Case c; c.index = i; c.tier = tier; std::string m;
                int r = run_one(*P, src, c, m);
                if (r == 2) { std::string full = m + "\n--- case ---\n" + c.desc; strncpy(s->msg, full.c_str(), sizeof s->msg - 1); s->state = 2; dump(); _exit(77); }
                if (r == 1) { s->discarded = s->discarded + 1; disc[m]++; continue; }
                s->done = s->done + 1; s->sub = s->sub + c.sub;
                for (auto &l : c.labels) labels[l.first] += l.second;
                if (c.nontrivial) { s->nontriv = s->nontriv + 1; distinct.insert(hash64(c.desc));
                    if (samples.size() < 3 && (i / workers) % 5 == 2) samples.push_back(c.desc.substr(0, 1500)); }
            }
            arm(0); dump(); s->state = 1; _exit(0);
        }
    }
    int left = workers; int bad = -1, badst = 0;
    while (left > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < workers; i++) if (pids[i] == p) w = i;
        if (w < 0) continue;
        left--; pids[w] = 0;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) {
            bad = w; badst = st;
            for (int i = 0; i < workers; i++) if (pids[i] > 0) kill(pids[i], SIGKILL);
        }
    }
    uint64_t done = 0, nontriv = 0, discarded = 0, sub = 0; std::unordered_set<uint64_t> all; std::map<std::string, long> labels, disc; std::vector<std::string> samples;
    for (int w = 0; w < workers; w++) {
        done += sh[w]->done; nontriv += sh[w]->nontriv; discarded += sh[w]->discarded; sub += sh[w]->sub;
        std::string base = g_tmpdir + "/w" + std::to_string(w);
        std::ifstream f(base + ".stat"); std::string line;
        while (std::getline(f, line)) {
            if (line.size() < 2) continue;
            if (line[0] == 'S') { if (samples.size() < 6) samples.push_back(line.substr(2)); }
            else { std::istringstream is(line.substr(2)); long n; is >> n; std::string l; std::getline(is, l); if (!l.empty()) l = l.substr(1); (line[0] == 'L' ? labels : disc)[l] += n; }
        }
        std::ifstream h(base + ".hash", std::ios::binary); uint64_t x; while (h.read((char *)&x, 8)) all.insert(x);
    }
    double gen_t = now() - t0;
    std::string viol;
    if (bad >= 0) {
        Result r; r.failed = true; r.index = sh[bad]->cur; r.choices.assign(sh[bad]->log, sh[bad]->log + sh[bad]->nlog);
        if (sh[bad]->state == 2) { r.kind = "violated"; r.msg = sh[bad]->msg; }
        else if (WIFEXITED(badst) && WEXITSTATUS(badst) == 78) { r.kind = "hang"; r.msg = "case did not finish within its CPU limit"; }
        else r.kind = "crash";
        std::cerr << "first failure: worker " << bad << " case " << r.index << " kind " << r.kind << "\n" << r.msg << "\n";
        if (r.kind == "crash") { std::ifstream e(g_tmpdir + "/w" + std::to_string(bad) + ".err"); std::string l; int n = 0; while (std::getline(e, l) && n++ < 60) std::cerr << l << "\n"; }
        Result again = try_choices(*P, r.choices, r.index, tier, CASE_CPU_LIMIT, false);
        if (again.failed) {
            again.kind = again.kind.empty() ? r.kind : again.kind;
            r = shrink(*P, again, tier, 45);
        } else r.msg += "\n(not reproduced in a fresh process: depends on the cases before it in the same process)";
        mkdir(repdir.c_str(), 0755);
        std::string path = repdir + "/" + P->id + "-" + std::to_string(seed) + "-" + std::to_string(r.index) + ".replay";
        std::ofstream f(path);
        f << "property: " << P->id << "\nseed: " << seed << "\nindex: " << r.index << "\ntier: " << tier << "\nkind: " << r.kind << "\nchoices:";
        for (uint32_t x : r.choices) f << " " << x;
        f << "\nmessage:\n" << r.msg << "\n";
        viol = path;
        if (!again.failed) { viol = "UNREPRODUCED " + path; }
        std::cerr << r.msg << "\n";
    }
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"evaluations\":" << done << ",\"sub_evaluations\":" << sub << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << all.size() << ",\"discarded\":" << discarded
          << ",\"planned\":" << N << ",\"generation_s\":" << gen_t << ",\"rule\":" << jstr(P->rule) << ",\"violation\":" << jstr(viol) << ",\"labels\":{";
        bool first = true; for (auto &l : labels) { f << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
        f << "},\"discards\":{"; first = true; for (auto &l : disc) { f << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
        f << "},\"samples\":["; first = true; for (auto &s : samples) { f << (first ? "" : ",") << s; first = false; }
        f << "]}\n";
    }
    if (bad >= 0) return viol.rfind("UNREPRODUCED", 0) == 0 ? 4 : 1;
    return 0;
}
