// Shared plumbing of the runtime-monitoring harnesses: seeded random numbers, case loop, event and
// violation records, watchdog.  A harness prints JSON lines to the file named by --out:
//   {"t":"case","i":N}                      not printed; kept in a shared progress page instead
//   {"t":"viol","key":K,"detail":D,"case":N}
//   {"t":"stat","n":NAME,"v":V}             counters, summed over shards
//   {"t":"set","n":NAME,"h":[...]}          distinct signatures, unioned over shards
//   {"t":"sample","d":TEXT}
//   {"t":"end"}
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_set>
#include <stdarg.h>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t u32() { return (uint32_t)(next() >> 16); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    bool one_in(int n) { return below(n) == 0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
    template <class T, size_t N> T pick(const T (&v)[N]) { return v[below((uint32_t)N)]; }
};

struct Progress { volatile uint64_t cur; volatile uint64_t done; char note[4000]; };

struct Ctx {
    uint64_t seed = 1, first = 0, count = 100; int shard = 0, nshards = 1;
    std::string tier = "quick", out, scratch, mode; long one = -1; bool verbose = false;
    std::vector<std::string> args;
    FILE *o = nullptr; Progress *pg = nullptr;
    std::map<std::string, uint64_t> stats;
    std::map<std::string, std::unordered_set<uint64_t>> sets;
    std::vector<std::string> samples;
    uint64_t ncase = 0; uint64_t curcase = 0;
    int maxviol = 40; std::map<std::string, int> nviol;
};
inline Ctx &C() { static Ctx c; return c; }

inline std::string esc(const std::string &s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
inline std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline void tally(const std::string &n, uint64_t v = 1) { C().stats[n] += v; }
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) { const uint8_t *b = (const uint8_t *)p; while (n--) { h ^= *b++; h *= 1099511628211ull; } return h; }
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }
inline void seen(const std::string &set, uint64_t sig) { auto &s = C().sets[set]; if (s.size() < 200000) s.insert(hash_bytes(&sig, 8)); }
inline void seen(const std::string &set, const std::string &sig) { seen(set, hash_str(sig)); }
inline void sample(const std::string &d) { if (C().samples.size() < 6) C().samples.push_back(d.substr(0, 600)); }
inline void note(const std::string &s) { if (C().pg) { snprintf(C().pg->note, sizeof C().pg->note, "%s", s.c_str()); } }
inline void violation(const std::string &key, const std::string &detail) {
    Ctx &c = C();
    if (c.verbose) fprintf(stderr, "VIOL %s: %s\n", key.c_str(), detail.c_str());
    if (c.nviol[key]++ >= c.maxviol || c.nviol.size() > 200) return;
    fprintf(c.o, "{\"t\":\"viol\",\"key\":\"%s\",\"detail\":\"%s\",\"case\":%llu}\n", esc(key).c_str(), esc(detail.substr(0, 3000)).c_str(), (unsigned long long)c.curcase);
    fflush(c.o);
}
inline void on_vtalrm(int) {
    // The case used far more processor time than any case needs: the code under test does not return.
    static const char m[] = "HANG: case exceeded its processor time allowance\n";
    if (write(2, m, sizeof m - 1)) { }
    _exit(78);
}
inline volatile sig_atomic_t g_stop;
inline void on_term(int) { g_stop = 1; }     // asked to end: finish the case and report
inline void arm(int secs) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

inline uint64_t case_seed(uint64_t i) { Rng r(C().seed * 1000003 + i * 7919 + 17); return r.next(); }

inline void init(int argc, char **argv) {
    Ctx &c = C();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") c.seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--first") c.first = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--count") c.count = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--shard") c.shard = atoi(nxt().c_str());
        else if (a == "--nshards") c.nshards = atoi(nxt().c_str());
        else if (a == "--tier") c.tier = nxt();
        else if (a == "--out") c.out = nxt();
        else if (a == "--scratch") c.scratch = nxt();
        else if (a == "--mode") c.mode = nxt();
        else if (a == "--case") c.one = atol(nxt().c_str());
        else if (a == "-v") c.verbose = true;
        else c.args.push_back(a);
    }
    c.o = c.out.empty() ? stdout : fopen(c.out.c_str(), "a");
    if (!c.o) { perror("out"); exit(2); }
    if (!c.out.empty()) {
        int fd = open((c.out + ".progress").c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) < 0) { perror("progress"); exit(2); }
        c.pg = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    signal(SIGVTALRM, on_vtalrm); signal(SIGTERM, on_term);
    if (c.scratch.empty()) c.scratch = "/tmp";
}
// Runs body(case index, rng) for each case of this shard.
template <class F> void cases(F body, int cpu_secs = 30) {
    Ctx &c = C();
    if (c.one >= 0) { c.curcase = c.one; Rng r(case_seed(c.one)); arm(cpu_secs); body((uint64_t)c.one, r); arm(0); return; }
    for (uint64_t i = c.first; i < c.count && !g_stop; i++) {
        if ((int)(i % c.nshards) != c.shard) continue;
        c.curcase = i; if (c.pg) { c.pg->cur = i; c.pg->note[0] = 0; }
        Rng r(case_seed(i));
        arm(cpu_secs); body(i, r); arm(0);
        c.ncase++; if (c.pg) c.pg->done = c.ncase;
    }
}
inline int finish() {
    Ctx &c = C(); c.stats["cases"] += c.ncase;
    for (auto &k : c.stats) fprintf(c.o, "{\"t\":\"stat\",\"n\":\"%s\",\"v\":%llu}\n", esc(k.first).c_str(), (unsigned long long)k.second);
    for (auto &k : c.sets) {
        fprintf(c.o, "{\"t\":\"set\",\"n\":\"%s\",\"h\":[", esc(k.first).c_str()); bool f = true;
        for (auto h : k.second) { fprintf(c.o, "%s%llu", f ? "" : ",", (unsigned long long)(h >> 11)); f = false; }
        fprintf(c.o, "]}\n");
    }
    for (auto &s : c.samples) fprintf(c.o, "{\"t\":\"sample\",\"d\":\"%s\"}\n", esc(s).c_str());
    fprintf(c.o, "{\"t\":\"end\"}\n"); fflush(c.o);
    return 0;
}
}
