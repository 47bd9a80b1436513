// Harness API.  Under the symbolic executor these are intrinsics; natively (replay) vf_rt.cpp
// implements them from a recorded list of values.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __vf_sym(const char* name, int bits);            // arbitrary value of the given width
uint32_t __vf_choose(const char* name, uint32_t n);       // arbitrary value in [0,n), case-split
uint64_t __vf_concretize(uint64_t v);                     // case-split over all feasible values
void __vf_assume(bool c);
void __vf_assert(bool c, const char* msg);
void __vf_reach(const char* label);                       // vacuity witness
void __vf_observe(uint64_t v);                            // value compared with the native run
int __vf_param(const char* name, int dflt);               // bound, set per tier by the driver
void __vf_noleak();
int __vf_is_engine();
void __vf_ctor(const void* p);
void __vf_dtor(const void* p);
void __vf_use(const void* p);
uint32_t __vf_live();
uint32_t __vf_allocs();                                   // heap allocations so far
void __vf_spawn(void (*fn)(void*), void* arg);
void __vf_join_all();
void __vf_spurious(int n);
}
#define VF_ASSERT(c) __vf_assert((c), #c)
#define VF_ASSERT_MSG(c, m) __vf_assert((c), m)
#define VF_ENTRY(name) extern "C" __attribute__((used, noinline)) void name()

namespace vf {
template <class T> inline T sym(const char* name) { return static_cast<T>(__vf_sym(name, sizeof(T) * 8)); }
template <> inline bool sym<bool>(const char* name) { return (__vf_sym(name, 1) & 1) != 0; }
template <> inline double sym<double>(const char* name) { uint64_t b = __vf_sym(name, 64); double d; __builtin_memcpy(&d, &b, 8); return d; }
template <> inline float sym<float>(const char* name) { uint32_t b = (uint32_t)__vf_sym(name, 32); float d; __builtin_memcpy(&d, &b, 4); return d; }
// symbolic, not case-split
inline int range(const char* name, int lo, int hi) { int v = (int)__vf_sym(name, 32); __vf_assume(!(v < lo) & !(v > hi)); return v; }
// case-split
inline int pick(const char* name, int lo, int hi) { return lo + (int)__vf_choose(name, (uint32_t)(hi - lo + 1)); }
inline void obs(uint64_t v) { __vf_observe(v); }

// Element type that records its own lifetime.  Copy keeps the value, move leaves the source
// alive holding MOVED.
struct Tr {
    static constexpr int MOVED = -7777;
    int v;
    Tr() : v(0) { __vf_ctor(this); }
    Tr(int x) : v(x) { __vf_ctor(this); }
    Tr(const Tr& o) : v((__vf_use(&o), o.v)) { __vf_ctor(this); }
    Tr(Tr&& o) noexcept : v((__vf_use(&o), o.v)) { __vf_ctor(this); o.v = MOVED; }
    Tr& operator=(const Tr& o) { __vf_use(this); __vf_use(&o); v = o.v; return *this; }
    Tr& operator=(Tr&& o) noexcept { __vf_use(this); __vf_use(&o); int t = o.v; o.v = MOVED; v = t; return *this; }
    ~Tr() { __vf_dtor(this); }
    int get() const { __vf_use(this); return v; }
    friend bool operator==(const Tr& a, const Tr& b) { return a.get() == b.get(); }
    friend bool operator!=(const Tr& a, const Tr& b) { return a.get() != b.get(); }
    friend bool operator<(const Tr& a, const Tr& b) { return a.get() < b.get(); }
    friend bool operator>(const Tr& a, const Tr& b) { return a.get() > b.get(); }
};
inline int val(const Tr& t) { return t.get(); }
inline int val(int t) { return t; }
}  // namespace vf
