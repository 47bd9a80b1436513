// Copies, moves, conversions and equality of the owning sequences.
#include "efp.hpp"
#include "model.h"
using namespace efp; using vf::Tr;
static const int CAP = 64;
typedef Model<CAP> M;

template <class S> struct Mk;
template <class E, size_t N> struct Mk<Array<E, N>> { static void fill(Array<E, N>& s, M& m, int) { for (size_t i = 0; i < N; ++i) { int x = vf::sym<int>("x"); s[i] = E(x); m.push(x); } } static const bool fixed = true; };
template <class E, size_t N> struct Mk<ArrVec<E, N>> { static void fill(ArrVec<E, N>& s, M& m, int n) { for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); s.push_back(E(x)); m.push(x); } } static const bool fixed = false; };
template <class E> struct Mk<Vector<E>> { static void fill(Vector<E>& s, M& m, int n) {
    int st = vf::pick("storage", 0, 2); if (st == 1) s.reserve((size_t)(n + 3));
    for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); s.push_back(E(x)); m.push(x); }
    if (st == 2) s.shrink_to_fit(); } static const bool fixed = false; };

template <class S> static void touch(S& s, M& m) {  // change one element, seen only through s
    if (m.n == 0) return;
    int i = vf::pick("i", 0, m.n - 1); int x = vf::sym<int>("nx");
    s[(size_t)i] = typename S::Element(x); m.v[i] = x;
}
template <class S> static void grow(S&, M&, Bool<true>) {}
template <class S> static void grow(S& s, M& m, Bool<false>) { int x = vf::sym<int>("gx"); if (s.size() < 4) { s.push_back(typename S::Element(x)); m.push(x); } }

template <class S> static void value_case() {
    typedef Mk<S> K;
    {
        S a; M ma; K::fill(a, ma, vf::pick("na", 0, 3));
        int how = vf::pick("how", 0, 6);
        if (how == 0) {  // copy construction
            S b(a); M mb = ma; agree(b, mb); agree(a, ma); VF_ASSERT_MSG(a == b, "a copy equals its source");
            touch(b, mb); agree(a, ma); agree(b, mb); grow(a, ma, Bool<K::fixed>{}); agree(a, ma); agree(b, mb);
        } else if (how == 1) {  // copy assignment over any previous content
            S b; M mb; K::fill(b, mb, vf::pick("nb", 0, 4)); S& r = (b = a); VF_ASSERT(&r == &b); mb.assign(ma); agree(b, mb); agree(a, ma); VF_ASSERT_MSG(a == b, "a copy equals its source");
            touch(a, ma); grow(b, mb, Bool<K::fixed>{}); agree(a, ma); agree(b, mb);
        } else if (how == 2) {  // move construction
            S b(efp::move(a)); agree(b, ma); a = b; agree(a, ma); touch(a, ma); agree(a, ma);
        } else if (how == 3) {  // move assignment, the source stays usable
            S b; M mb; K::fill(b, mb, vf::pick("nb", 0, 4)); S& r = (b = efp::move(a)); VF_ASSERT(&r == &b); agree(b, ma);
            a = b; agree(a, ma); agree(b, ma);
        } else if (how == 4) {  // self assignment
            S& r = a; a = r; agree(a, ma); a = efp::move(r); agree(a, ma);
        } else if (how == 5) {  // chain: copy, move back, copy again
            S b(a); S c(efp::move(b)); b = c; c = efp::move(a); a = b; agree(a, ma); agree(b, ma); agree(c, ma);
        } else {  // equality is element-wise equality
            S b; M mb; K::fill(b, mb, vf::pick("nb", 0, 4));
            bool eq = ma.n == mb.n; for (int i = 0; i < ma.n && i < mb.n; ++i) eq = eq & (ma.v[i] == mb.v[i]);
            bool r = (a == b); VF_ASSERT_MSG(r == eq, "== is element-wise equality"); VF_ASSERT_MSG((b == a) == eq, "== is symmetric"); VF_ASSERT(a == a); vf::obs(r);
        }
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once");
    __vf_reach("done");
}
VF_ENTRY(value_array_tr) { value_case<Array<Tr, 3>>(); }
VF_ENTRY(value_arrvec_tr) { value_case<ArrVec<Tr, 4>>(); }
VF_ENTRY(value_vector_tr) { value_case<Vector<Tr>>(); }
VF_ENTRY(value_array_int) { value_case<Array<int, 2>>(); }
VF_ENTRY(value_arrvec_int) { value_case<ArrVec<int, 4>>(); }
VF_ENTRY(value_vector_int) { value_case<Vector<int>>(); }

// the free functions read views as their members do
template <class V> static void reads(V& s, const int* p, int n) {
    const V& c = s; VF_ASSERT((int)c.size() == n && (int)efp::length(c) == n && (int)c.capacity() >= n && c.empty() == (n == 0) && s.data() == p && c.data() == p && efp::data(s) == p && efp::data(c) == p);
    VF_ASSERT(s.begin() == p && c.begin() == p && s.end() == p + n && c.end() == p + n); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(&s[(size_t)i] == p + i && &c[(size_t)i] == p + i && &efp::nth((size_t)i, s) == p + i && &efp::nth((size_t)i, c) == p + i, "a view names the elements of its source in order");
}
// every sequence-to-sequence conversion yields exactly the source's elements
VF_ENTRY(conversions) {
    {
        int n = vf::pick("n", 0, 3), how = vf::pick("how", 0, 5);
        M m;
        if (how == 0) { ArrVec<Tr, 3> a; Mk<ArrVec<Tr, 3>>::fill(a, m, n); ArrVec<Tr, 5> b(a); agree(b, m); agree(a, m); if (n) { b[0] = Tr(9); agree(a, m); } }
        else if (how == 1) { ArrVec<Tr, 3> a; Mk<ArrVec<Tr, 3>>::fill(a, m, n); Vector<Tr> b(a); agree(b, m); agree(a, m); b.push_back(Tr(4)); m.push(4); agree(b, m); }
        else if (how == 2) { Array<Tr, 3> a; Mk<Array<Tr, 3>>::fill(a, m, 3); Vector<Tr> b(a); agree(b, m); agree(a, m); b.push_back(Tr(4)); m.push(4); agree(b, m); }
        else if (how == 3) {  // views of views name the same elements
            Array<int, 3> a; for (int i = 0; i < 3; ++i) { int x = vf::sym<int>("x"); a[(size_t)i] = x; m.push(x); }
            ArrayView<int, 3> v(a.data()); ArrVecView<int, 4> w(v); VectorView<int> u(v), u2(w), u3(a.data(), 3);
            VF_ASSERT(v.size() == 3 && w.size() == 3 && u.size() == 3 && u2.size() == 3);
            for (size_t i = 0; i < 3; ++i) { VF_ASSERT(&v[i] == &a[i]); VF_ASSERT(&w[i] == &a[i]); VF_ASSERT(&u[i] == &a[i]); VF_ASSERT(&u2[i] == &a[i]); VF_ASSERT(v[i] == m.v[i]); }
            reads(v, a.data(), 3); reads(w, a.data(), 3); reads(u, a.data(), 3); reads(u2, a.data(), 3); Array<int, 3> o(a); VF_ASSERT_MSG(v == (ArrayView<int, 3>(a.data())) && !(v == ArrayView<int, 3>(o.data())), "views are equal exactly when they name the same elements");
            VF_ASSERT_MSG(u == u2 && u == u3 && u2 == u, "views of the same elements are equal");
            VF_ASSERT(u.begin() == a.begin() && u.end() == a.end() && w.end() == a.end() && v.end() == a.end());
        } else if (how == 4) {
            int k = vf::pick("k", 0, 3); ArrVec<int, 3> a; for (int i = 0; i < n; ++i) { a.push_back(vf::sym<int>("x")); }
            ArrVecView<int, 3> w(a.data(), a.size()); VectorView<int> u(w); VectorView<int> z(a.data(), (size_t)(k < n ? k : n));
            VF_ASSERT(w.size() == a.size() && u.size() == a.size() && w.empty() == (n == 0) && u.empty() == (n == 0)); VF_ASSERT(u.data() == a.data());
            VF_ASSERT_MSG((u == z) == (u.size() == z.size()), "views are equal exactly when they name the same elements");
            reads(w, a.data(), n); reads(u, a.data(), n); ArrVecView<int, 3> x(a.data(), (size_t)(k < n ? k : n)), x2; VF_ASSERT_MSG((w == x) == (w.size() == x.size()), "views are equal exactly when they name the same elements"); x2 = w; VF_ASSERT(x2 == w); reads(x2, a.data(), n); ArrVecView<int, 3> x3(w); VF_ASSERT(x3 == w); { ArrVecView<int, 3>& r = x2; x2 = r; reads(x2, a.data(), n); }
            VectorView<int> y; y = u; VF_ASSERT(y == u && y.size() == u.size()); for (size_t i = 0; i < u.size(); ++i) VF_ASSERT(&y[i] == &a[i]);
        } else {  // null data is refused for non-empty views only
            size_t q = vf::sym<size_t>("q"); bool t = false, t2 = false; const int* p = nullptr;
            try { VectorView<int> u(p, q); VF_ASSERT(u.size() == q); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (q > 0));
            try { ArrVecView<int, 3> u(p, q); VF_ASSERT(u.size() == q); } catch (const RuntimeError&) { t2 = true; } VF_ASSERT(t2 == (q > 0));
            bool t3 = false; try { ArrayView<int, 2> u(p); } catch (const RuntimeError&) { t3 = true; } VF_ASSERT(t3);
            bool t4 = false; try { ArrayView<int, 0> u(p); VF_ASSERT(u.empty()); } catch (const RuntimeError&) { t4 = true; } VF_ASSERT(!t4);
        }
    }
    VF_ASSERT(__vf_live() == 0);
    __vf_reach("done");
}
