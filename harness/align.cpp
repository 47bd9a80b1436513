// Storage is suitably aligned wherever the containers and sum types stand, also for elements that need more than the default.
#include "efp.hpp"
#include "model.h"
using namespace efp;
struct alignas(64) Wide { int v; Wide() : v(0) {} explicit Wide(int x) : v(x) {} Wide(const Wide& o) : v(o.v) { at(); } Wide& operator=(const Wide& o) { at(); v = o.v; return *this; } ~Wide() { at(); }
    void at() const { VF_ASSERT_MSG(((uintptr_t)this & 63) == 0, "an element stands at an address suitable for its type"); } bool operator==(const Wide& o) const { at(); return v == o.v; } };
struct alignas(16) Half { short v; Half() : v(0) {} explicit Half(int x) : v((short)x) {} bool operator==(const Half& o) const { return v == o.v; } };
template <class T> static void put(const T* p, const char* w) { VF_ASSERT_MSG(((uintptr_t)p & (alignof(T) - 1)) == 0, w); }
template <class E> struct After { char lead; E e; char between; E f; char tail; };
static const char* const W = "an element stands at an address suitable for its type";
VF_ENTRY(align_enum) {
    typedef Enum<char, Half, double, Wide, short> E; typedef Enum<bool, double> D; typedef Maybe<double> MD; int x = vf::sym<int>("x"), k = vf::pick("k", 0, 3);
    VF_ASSERT_MSG(alignof(E) >= alignof(Wide) && alignof(D) >= alignof(double) && alignof(MD) >= alignof(double), W);
    After<E> s; After<D> d; After<MD> m; put(&s.f, W); put(&d.e, W); put(&d.f, W);
    d.e = D(0.5 * (x & 1023)); put(&d.e.get<double>(), W); d.f = d.e; VF_ASSERT(d.f == d.e && d.f.get<1>() == 0.5 * (x & 1023)); m.e = MD(0.25); m.f = m.e; VF_ASSERT(m.f.value() == 0.25); { const double& r = ((const MD&)m.f).value(); VF_ASSERT(r == 0.25); }
    s.e = k == 0 ? E((char)x) : k == 1 ? E(Half(x)) : k == 2 ? E(Wide(x)) : E((short)x); s.f = s.e; E* h = new E(s.f); VF_ASSERT(*h == s.e && s.f == s.e); if (k == 2) { put(&s.e.get<Wide>(), W); put(&h->get<3>(), W); VF_ASSERT(s.f.get<Wide>().v == x && h->get<Wide>().v == x); } if (k == 1) { put(&s.f.get<Half>(), W); VF_ASSERT(s.f.get<Half>().v == (short)x); }
    delete h; __vf_reach("done");
}
template <class S> static void fixed() { After<S> s; int x = vf::sym<int>("x"), n = vf::pick("n", 1, 3); for (int i = 0; i < n; ++i) { s.e.push_back(Wide(x + i)); s.f.push_back(Wide(i)); } s.f = s.e; S* h = new S(s.f); for (int i = 0; i < n; ++i) { int j = (int)s.e.size() - n + i; put(&s.e[(size_t)j], W); put(&(*h)[(size_t)j], W); VF_ASSERT(s.f[(size_t)j].v == x + i && (*h)[(size_t)j].v == x + i); } delete h; __vf_reach("done"); }
VF_ENTRY(align_arrvec) { fixed<ArrVec<Wide, 3>>(); }
VF_ENTRY(align_vector) { fixed<Vector<Wide>>(); }
VF_ENTRY(align_vcb) { fixed<Vcb<Wide, 3>>(); }
VF_ENTRY(align_vcq) { fixed<Vcq<Wide, 3>>(); }
VF_ENTRY(align_array) { After<Array<Wide, 2>> s; int x = vf::sym<int>("x"); s.e[0] = Wide(x); s.e[1] = Wide(x + 1); s.f = s.e; put(&s.f[0], W); put(&s.e[1], W); VF_ASSERT(s.f[0].v == x && s.f[1].v == x + 1); Vector<Wide> v(s.f); put(&v[1], W); VF_ASSERT(v[1].v == x + 1); After<Tuple<char, Wide, double>> t{0, {'a', Wide(x), 0.5}, 0, {'b', Wide(x), 0.25}, 0}; put(&get<1>(t.e), W); put(&get<1>(t.f), W); put(&get<2>(t.f), W); VF_ASSERT(get<1>(t.f).v == x && get<2>(t.f) == 0.25); __vf_reach("done"); }
