// Contract language.  The same contract text is (1) turned into proof obligations by the verifier in this directory and
// (2) compiled natively to replay counterexamples and to hunt for failing inputs of an obligation that did not discharge.
#ifndef VC_H
#define VC_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cmath>
extern "C" {
bool vc_any_bool(const char* name);
double vc_any_real(const char* name);
int32_t vc_any_i32(const char* name);
uint32_t vc_any_u32(const char* name);
uint64_t vc_any_u64(const char* name);
int64_t vc_any_i64(const char* name);
uint16_t vc_any_u16(const char* name);
uint8_t vc_any_u8(const char* name);
void vc_assume(bool c);
void vc_assert(bool c, const char* name);
void vc_require(bool c, const char* name);
void vc_step(bool c, const char* name);   // a step of a proof: an obligation, then a known fact (nothing natively)
// a step of a proof that follows from the listed facts alone: these are obligations here, the goal is proved from them and nothing else
void vc_by(bool goal, const char* name, bool h1, bool h2 = true, bool h3 = true, bool h4 = true, bool h5 = true, bool h6 = true, bool h7 = true, bool h8 = true);
void vc_havoc(void* p, uint64_t n, const char* name);
void* vc_array_(uint64_t count, uint64_t stride, const char* name);
void* vc_alloc(uint64_t bytes, const char* name);
void vc_release(void* p, uint64_t size);
bool vc_is_released(const void* p);
void* vc_snapshot_(const void* p);
void vc_field(const void* arr, uint64_t off, const char* kind);
void vc_layout_like(const void* arr, const void* obj);
bool vc_forall_(uint64_t lo, uint64_t hi, bool (*f)(void*, uint64_t), void* ctx);
bool vc_exists_(uint64_t lo, uint64_t hi, bool (*f)(void*, uint64_t), void* ctx);
bool vc_pure_(bool (*f)(void*), void* ctx);
bool vc_eq(double a, double b);
bool vc_same(double a, double b);   // the two terms are syntactically equal after normalisation
bool vc_le(double a, double b);
bool vc_lt(double a, double b);
bool vc_and(bool a, bool b);
bool vc_implies(bool a, bool b);
bool vc_native();
void vc_cover(const char* name);
uint64_t vc_uf(const char* name, uint64_t x, uint64_t y);
bool vc_ufb(const char* name, uint64_t x, uint64_t y);
void vc_readonly(const void* p, bool on);
void vc_end();
void vc_elems(const void* block, uint64_t stride);
bool vc_split(bool c);
void* vc_heapptr(const char* name);
}
#define HARNESS(name, opts) extern "C" __attribute__((used, annotate("harness;" opts))) void name()
#define STUB(pattern) extern "C" __attribute__((used, annotate("stub:" pattern)))
#define SPEC __attribute__((noinline, annotate("pure")))
#define INV extern "C" __attribute__((used, noinline, annotate("pure")))

template <class F> inline bool vc_forall(uint64_t lo, uint64_t hi, F f) {
    return vc_forall_(lo, hi, [](void* c, uint64_t i) -> bool { return (*static_cast<F*>(c))(i); }, &f);
}
template <class F> inline bool vc_exists(uint64_t lo, uint64_t hi, F f) {
    return vc_exists_(lo, hi, [](void* c, uint64_t i) -> bool { return (*static_cast<F*>(c))(i); }, &f);
}
template <class F> inline bool vc_pure(F f) {
    return vc_pure_([](void* c) -> bool { return (*static_cast<F*>(c))(); }, &f);
}
template <class T> inline T* vc_array(uint64_t count, const char* name) { return static_cast<T*>(vc_array_(count, sizeof(T), name)); }
template <class T> inline T* vc_snapshot(const T* p) { return static_cast<T*>(vc_snapshot_(p)); }
#define VC(...) vc_pure([&]() -> bool { return (__VA_ARGS__); })
#define ASSUME(...) vc_assume(VC(__VA_ARGS__))
#define ENSURE(name, ...) vc_assert(VC(__VA_ARGS__), name)
#define REQUIRE(name, ...) vc_require(VC(__VA_ARGS__), name)
// storage for an object whose constructor must not run (its contents are arbitrary until constrained)
template <class T> struct VcRaw {
    alignas(T) unsigned char bytes[sizeof(T)];
    T* p() { return reinterpret_cast<T*>(bytes); }
    T& r() { return *reinterpret_cast<T*>(bytes); }
};
#endif
