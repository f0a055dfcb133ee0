// Native implementation of the contract language: replays a verifier counterexample or hunts for failing inputs.
// usage: prog <harness> replay <file> | prog <harness> hunt <seed> <seconds> [maxruns] | prog <harness> once <seed>
#include "vc.h"
#include <csetjmp>
#include <csignal>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <dlfcn.h>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>

static bool replaying = false;
static std::map<std::string, std::string> model;
static std::map<std::string, int> counts;
static std::vector<std::string> log_;
static sigjmp_buf jb;
static uint64_t rs;
static int mode = 0;
static std::string failed;
static std::vector<void*> blocks;
static std::map<const void*, uint64_t> blockSize;
static std::map<const void*, bool> released;
static double tol = 1e-6;

static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static std::string key(const char* n) { int k = counts[n]++; std::string s(n); if (k) s += "#" + std::to_string(k); return s; }
static void note(const std::string& k, const std::string& v) { if (log_.size() < 400) log_.push_back(k + " = " + v); }
static void stop(int code) { siglongjmp(jb, code); }

static uint64_t rint_(int bits, bool sg) {
    uint64_t m = bits == 64 ? ~0ULL : ((1ULL << bits) - 1);
    switch (rnd() % 10) {
        case 0: return 0;
        case 1: return rnd() % 3;
        case 2: case 3: case 4: case 5: case 6: return rnd() % 9;
        case 7: return rnd() % 40;
        case 8: return rnd() & m & 0xffff;
        default: { uint64_t r = rnd() % 6; if (r == 0) return m; if (r == 1) return m >> 1; if (r == 2) return sg ? m : m - 1; return rnd() & m; }
    }
}
static double rreal() {
    switch (rnd() % 8) {
        case 0: return (double)((int64_t)(rnd() % 5) - 2);
        case 1: return 0.0;
        case 2: return ((double)(rnd() % 2000001) - 1000000.0) / 1000000.0;
        case 3: return ((double)(rnd() % 2000001) - 1000000.0) / 100000.0;
        case 4: return ((double)(rnd() % 9) - 4) * 0.5;
        case 5: return (double)(rnd() % 1000001) / 1000000.0;
        case 6: return (double)(rnd() % 8);
        default: return ((double)(rnd() % 2000001) - 1000000.0) / 200000.0;
    }
}
static bool val(const std::string& k, std::string& v) {
    auto it = model.find(k);
    if (it == model.end()) return false;
    v = it->second; return true;
}
extern "C" {
bool vc_native() { return true; }
bool vc_any_bool(const char* n) { auto k = key(n); std::string v; bool r = replaying ? (val(k, v) && v == "1") : (rnd() & 1); note(k, r ? "true" : "false"); return r; }
double vc_any_real(const char* n) { auto k = key(n); std::string v; double r = replaying ? (val(k, v) ? atof(v.c_str()) : 0) : rreal(); char b[64]; snprintf(b, 64, "%.17g", r); note(k, b); return r; }
#define INTF(T, nm, bits, sg) T nm(const char* n) { auto k = key(n); std::string v; T r = replaying ? (val(k, v) ? (T)(v[0] == '-' ? strtoll(v.c_str(), 0, 10) : (long long)strtoull(v.c_str(), 0, 10)) : 0) : (T)rint_(bits, sg); note(k, std::to_string(r)); return r; }
INTF(int32_t, vc_any_i32, 32, true)
INTF(uint32_t, vc_any_u32, 32, false)
INTF(uint64_t, vc_any_u64, 64, false)
INTF(int64_t, vc_any_i64, 64, true)
INTF(uint16_t, vc_any_u16, 16, false)
INTF(uint8_t, vc_any_u8, 8, false)
void vc_assume(bool c) { if (!c) stop(1); }
void vc_assert(bool c, const char* n) { if (!c) { failed = n; stop(2); } }
void vc_step(bool, const char*) {}
void vc_by(bool, const char*, bool, bool, bool, bool, bool, bool, bool, bool) {}
void vc_require(bool c, const char* n) { if (!c) { failed = n; stop(2); } }
void vc_havoc(void* p, uint64_t n, const char* name) {
    auto k = key(name);
    if (replaying) {
        memset(p, 0, n);
        std::string pre = "hv:" + k + "+";
        for (auto it = model.lower_bound(pre); it != model.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
            size_t c = it->first.find(':', pre.size());
            uint64_t off = strtoull(it->first.c_str() + pre.size(), 0, 10);
            std::string kind = it->first.substr(c + 1);
            char* q = (char*)p + off;
            if (off + 8 > n && (kind == "f64" || kind == "i64")) continue;
            const char* s = it->second.c_str();
            if (kind == "f64") { double d = atof(s); memcpy(q, &d, 8); }
            else if (kind == "f32") { float d = (float)atof(s); memcpy(q, &d, 4); }
            else if (kind[0] == 'i') { long long x = s[0] == '-' ? strtoll(s, 0, 10) : (long long)strtoull(s, 0, 10); int w = atoi(kind.c_str() + 1); memcpy(q, &x, w < 8 ? 1 : w / 8); }
            note(k + "+" + std::to_string(off), it->second);
        }
        return;
    }
    // doubles where they fit: the havocked objects of the contracts are made of decimals and small integers
    for (uint64_t i = 0; i + 8 <= n; i += 8) { double d = rreal(); memcpy((char*)p + i, &d, 8); char b[64]; snprintf(b, 64, "%.17g", d); note(k + "+" + std::to_string(i), b); }
}
void* vc_array_(uint64_t count, uint64_t stride, const char* name) {
    auto k = key(name);
    if (count > (1u << 20)) stop(1);
    char* p = (char*)calloc(count * stride + 1, 1);
    blocks.push_back(p);
    for (uint64_t i = 0; i + 4 <= count * stride; i += 4) { uint32_t v = (uint32_t)(rnd() % 12); memcpy(p + i, &v, 4); }
    if (replaying) {
        std::string pre = "arr:" + k + "[";
        for (auto it = model.lower_bound(pre); it != model.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
            uint64_t idx = strtoull(it->first.c_str() + pre.size(), 0, 10);
            size_t c = it->first.find('+', pre.size()), d = it->first.find(':', pre.size());
            uint64_t off = strtoull(it->first.c_str() + c + 1, 0, 10);
            std::string kind = it->first.substr(d + 1);
            if (idx >= count || off + 8 > stride + 4) continue;
            char* q = p + idx * stride + off;
            const char* s = it->second.c_str();
            if (kind == "f64") { double x = atof(s); memcpy(q, &x, 8); }
            else if (kind[0] == 'i') { long long x = s[0] == '-' ? strtoll(s, 0, 10) : (long long)strtoull(s, 0, 10); int w = atoi(kind.c_str() + 1); memcpy(q, &x, w < 8 ? 1 : w / 8); }
            note(it->first, it->second);
        }
    }
    return p;
}
void* vc_heapptr(const char*) { return nullptr; }
void* vc_alloc(uint64_t n, const char*) {
    if (n > (1ull << 31)) stop(1);
    void* p = malloc(n ? n : 1);
    memset(p, 0xAB, n);
    blockSize[p] = n;
    released.erase(p);
    return p;
}
void vc_release(void* p, uint64_t n) {
    auto it = blockSize.find(p);
    if (it == blockSize.end()) { failed = "released pointer is the start of a live block"; stop(2); }
    if (it->second != n) { failed = "released size is the allocated size"; stop(2); }
    if (released[p]) { failed = "memory is not released twice"; stop(2); }
    released[p] = true;
    memset(p, 0xCD, n);
}
bool vc_is_released(const void* p) { return released.count(p) && released[p]; }
void* vc_snapshot_(const void* p) {
    auto it = blockSize.find(p);
    if (it == blockSize.end()) stop(1);
    char* q = (char*)malloc(it->second + 1); memcpy(q, p, it->second); blocks.push_back(q); return q;
}
void vc_field(const void*, uint64_t, const char*) {}
void vc_layout_like(const void*, const void*) {}
bool vc_forall_(uint64_t lo, uint64_t hi, bool (*f)(void*, uint64_t), void* c) { if (hi > lo && hi - lo > (1u << 22)) stop(1); for (uint64_t i = lo; i < hi; i++) if (!f(c, i)) return false; return true; }
bool vc_exists_(uint64_t lo, uint64_t hi, bool (*f)(void*, uint64_t), void* c) { if (hi > lo && hi - lo > (1u << 22)) stop(1); for (uint64_t i = lo; i < hi; i++) if (f(c, i)) return true; return false; }
bool vc_pure_(bool (*f)(void*), void* c) { return f(c); }
static double slack(double a, double b) { return tol * (1 + std::fabs(a) + std::fabs(b)); }
bool vc_eq(double a, double b) { return std::fabs(a - b) <= slack(a, b); }
bool vc_same(double a, double b) { return a == b; }
bool vc_le(double a, double b) { return a <= b + slack(a, b); }
bool vc_lt(double a, double b) { return a < b + slack(a, b); }
bool vc_and(bool a, bool b) { return a && b; }
bool vc_implies(bool a, bool b) { return !a || b; }
void vc_cover(const char*) {}
uint64_t vc_uf(const char*, uint64_t x, uint64_t y) { return x * 31 + y; }
bool vc_ufb(const char*, uint64_t, uint64_t) { return false; }
void vc_readonly(const void*, bool) {}
void vc_elems(const void*, uint64_t) {}
void vc_end() { stop(1); }
bool vc_split(bool c) { return c; }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { failed = std::string("assertion (") + e + ")"; siglongjmp(jb, 2); }
}
static void onsig(int s) { failed = s == SIGALRM ? "does not terminate" : std::string("crash: ") + strsignal(s); siglongjmp(jb, s == SIGALRM ? 4 : 3); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=77:allocator_may_return_null=1"; }

int main(int argc, char** argv) {
    void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 9; }
    std::string m = argv[2];
    for (int s : {SIGFPE, SIGILL, SIGALRM, SIGABRT}) signal(s, onsig);
#ifndef VC_ASAN
    signal(SIGSEGV, onsig); signal(SIGBUS, onsig);
#endif
    double secs = 1e9; long maxruns = 1; uint64_t seed = 1;
    if (m == "replay") {
        replaying = true;
        FILE* f = fopen(argv[3], "r");
        char line[4096];
        while (f && fgets(line, sizeof line, f)) { char* t = strchr(line, '\t'); if (!t) continue; *t = 0; t[strcspn(t + 1, "\n") + 1] = 0; model[line] = t + 1; }
        if (argc > 4) tol = atof(argv[4]);
    } else { seed = strtoull(argv[3], 0, 10); secs = argc > 4 ? atof(argv[4]) : 1; maxruns = argc > 5 ? atol(argv[5]) : 1000000000L; }
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    long ok = 0, skipped = 0;
    for (long run = 0; run < maxruns; run++) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
        rs = (seed * 0x9E3779B97F4A7C15ULL + (uint64_t)run * 0xD1B54A32D192ED03ULL) | 1; for (int i = 0; i < 4; i++) rnd();
        counts.clear(); log_.clear(); failed.clear(); blockSize.clear(); released.clear();
        for (void* b : blocks) free(b);
        blocks.clear();
        int c = sigsetjmp(jb, 1);
        if (c == 0) { alarm(10); h(); ok++; alarm(0); continue; }
        alarm(0);
        if (c == 1) { skipped++; continue; }
        if (c == 4) { printf("TIMEOUT\n"); }
        printf("FAILED %s\nrun %ld seed %llu\n", failed.c_str(), run, (unsigned long long)seed);
        for (auto& l : log_) printf("  %s\n", l.c_str());
        fflush(stdout);
        _exit(5);
    }
    printf("OK %ld SKIPPED %ld\n", ok, skipped);
    fflush(stdout);
    _exit(0);
}
