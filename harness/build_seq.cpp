// Functions that build sequences: from_function, append, concat, intercalate, cartesian_*.
#include "hof.h"

VF_ENTRY(from_function_case) {
    int n = vf::pick("n", 0, 5);
    { lg.n = 0; auto r = from_function(n, [](size_t i) { return rec((int)i, 0, 0); }); M e; VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == i, "from_function applies the function to 0, 1, ..."); e.push(lg.r[i]); } same(r, e, "from_function returns the results in order"); }
    { lg.n = 0; auto r = from_function(Size<4>{}, [](size_t i) { return rec((int)i, 0, 0); }); M e; VF_ASSERT(lg.n == 4); for (int i = 0; i < 4; ++i) { VF_ASSERT(lg.a[i][0] == i); e.push(lg.r[i]); } same(r, e, "from_function returns the results in order"); VF_ASSERT_MSG((IsSame<decltype(r), Array<int, 4>>::value), "a static length gives a static size"); }
    { lg.n = 0; for_index([](size_t i) { rec((int)i, 0, 0); }, (size_t)n); VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) VF_ASSERT(lg.a[i][0] == i); }
    { lg.n = 0; cartesian_for_index([](size_t i) { rec((int)i, 0, 0); }, (size_t)n); VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(lg.a[i][0] == i, "cartesian_for_index visits every index in order"); }
    { lg.n = 0; int k = vf::pick("k3", 0, 2), h = vf::pick("h3", 0, 2); cartesian_for_index([](size_t i, size_t j, size_t l) { rec((int)i, (int)j, (int)l); }, (size_t)k, (size_t)n, (size_t)h); VF_ASSERT(lg.n == k * n * h); for (int i = 0; i < lg.n; ++i) VF_ASSERT_MSG(lg.a[i][0] == i / (n * h) && lg.a[i][1] == i / h % n && lg.a[i][2] == i % h, "cartesian_for_index visits every triple in order"); }
    { lg.n = 0; int k = vf::pick("k", 0, 3); cartesian_for_index([](size_t i, size_t j) { rec((int)i, (int)j, 0); }, (size_t)n, (size_t)k); VF_ASSERT(lg.n == n * k); for (int i = 0; i < n * k; ++i) VF_ASSERT_MSG(lg.a[i][0] == i / k && lg.a[i][1] == i % k, "cartesian_for_index visits every pair in order"); }
    __vf_reach("done");
}
template <class S, class T, class U> static void append_case() {
    M m, k, q; Box<S> b(len_of<S>("n"), m); Box<T> c(len_of<T>("m"), k); Box<U> d(len_of<U>("q"), q);
    bool sc = IsStaticCapacity<S>::value && IsStaticCapacity<T>::value && IsStaticCapacity<U>::value, ss = IsStaticSize<S>::value && IsStaticSize<T>::value && IsStaticSize<U>::value;
    M e; for (int i = 0; i < m.n; ++i) e.push(m.v[i]);
    if (vf::pick("how", 0, 1)) { auto r = append(b.s); same(r, e, "append of one sequence is that sequence"); for (int i = 0; i < k.n; ++i) e.push(k.v[i]); auto r2 = append(b.s, c.s); same(r2, e, "append yields the arguments' elements one after another"); }
    else { for (int i = 0; i < k.n; ++i) e.push(k.v[i]); for (int i = 0; i < q.n; ++i) e.push(q.v[i]); uint32_t a0 = __vf_allocs(); auto r = append(b.s, c.s, d.s); VF_ASSERT_MSG(!sc || __vf_allocs() == a0, "append of fixed-capacity sequences does not allocate"); same(r, e, "append yields the arguments' elements one after another");
        VF_ASSERT_MSG(ss == IsStaticSize<decltype(r)>::value && sc == IsStaticCapacity<decltype(r)>::value, "the result is as static as the arguments"); }
    __vf_reach("done");
}
VF_ENTRY(append_arrays) { append_case<Array<int, 2>, Array<int, 1>, Array<int, 3>>(); }
VF_ENTRY(append_arrvecs) { append_case<ArrVec<int, 2>, Array<int, 2>, ArrVec<int, 3>>(); }
VF_ENTRY(append_vectors) { append_case<Vector<int>, std::vector<int>, ArrVec<int, 2>>(); }
VF_ENTRY(append_views) { append_case<VectorView<int>, Vector<int>, Array<int, 2>>(); }

template <class O, class I> struct Fill;
template <class I, size_t N> struct Fill<Array<I, N>, I> { static void go(Array<I, N>& o, M* ms, int, int) { for (size_t i = 0; i < N; ++i) { Box<I> b(len_of<I>("k"), ms[i]); o[i] = b.s; } } enum { lo = N, hi = N }; };
template <class I, size_t N> struct Fill<ArrVec<I, N>, I> { static void go(ArrVec<I, N>& o, M* ms, int n, int) { for (int i = 0; i < n; ++i) { Box<I> b(len_of<I>("k"), ms[i]); o.push_back(b.s); } } enum { lo = 0, hi = N }; };
template <class I> struct Fill<Vector<I>, I> { static void go(Vector<I>& o, M* ms, int n, int) { for (int i = 0; i < n; ++i) { Box<I> b(len_of<I>("k"), ms[i]); o.push_back(b.s); } } enum { lo = 0, hi = 3 }; };
template <class O, class I, class D> static void concat_case() {
    typedef Fill<O, I> FL; int n = vf::pick("n", FL::lo, FL::hi); O o; M ms[3]; FL::go(o, ms, n, 0);
    bool sc = IsStaticCapacity<O>::value && IsStaticCapacity<I>::value;
    if (vf::pick("how", 0, 1)) { M e; for (int i = 0; i < n; ++i) for (int j = 0; j < ms[i].n; ++j) e.push(ms[i].v[j]); uint32_t a0 = __vf_allocs(); auto r = concat(o); VF_ASSERT_MSG(!sc || __vf_allocs() == a0, "concat of fixed-capacity sequences does not allocate"); same(r, e, "concat yields the inner sequences' elements one after another"); VF_ASSERT(sc == IsStaticCapacity<decltype(r)>::value); }
    else { M dm; Box<D> d(len_of<D>("d"), dm); M e; for (int i = 0; i < n; ++i) { if (i) for (int j = 0; j < dm.n; ++j) e.push(dm.v[j]); for (int j = 0; j < ms[i].n; ++j) e.push(ms[i].v[j]); } auto r = intercalate(d.s, o); same(r, e, "intercalate puts the delimiter between consecutive inner sequences only"); VF_ASSERT((sc && IsStaticCapacity<D>::value) == IsStaticCapacity<decltype(r)>::value); }
    __vf_reach("done");
}
VF_ENTRY(concat_aa) { concat_case<Array<Array<int, 2>, 3>, Array<int, 2>, Array<int, 2>>(); }
VF_ENTRY(concat_av) { concat_case<Array<ArrVec<int, 2>, 3>, ArrVec<int, 2>, Array<int, 1>>(); }
VF_ENTRY(concat_va) { concat_case<ArrVec<Array<int, 2>, 3>, Array<int, 2>, ArrVec<int, 2>>(); }
VF_ENTRY(concat_vv) { concat_case<ArrVec<ArrVec<int, 2>, 3>, ArrVec<int, 2>, ArrVec<int, 2>>(); }
VF_ENTRY(concat_dyn) { concat_case<Vector<ArrVec<int, 2>>, ArrVec<int, 2>, Vector<int>>(); }

template <class S, class T> static void cartesian_case() {
    M m, k; Box<S> b(len_of<S>("n"), m); Box<T> c(len_of<T>("m"), k); const S& s = b.s; const T& t = c.s; int how = vf::pick("how", 0, 4);
    if (how == 0) { cartesian_for_each([](int x, int y) { rec(x, y, 0); }, s, t); VF_ASSERT_MSG(lg.n == m.n * k.n, "cartesian_for_each visits every combination once"); for (int i = 0; i < m.n * k.n; ++i) VF_ASSERT_MSG(lg.a[i][0] == m.v[i / k.n] && lg.a[i][1] == k.v[i % k.n], "cartesian_for_each varies the last sequence fastest"); }
    else if (how == 1) { auto r = cartesian_map([](int x, int y) { return rec(x, y, 0); }, s, t); M e; VF_ASSERT(lg.n == m.n * k.n); for (int i = 0; i < m.n * k.n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i / k.n] && lg.a[i][1] == k.v[i % k.n], "cartesian_map varies the last sequence fastest"); e.push(lg.r[i]); } same(r, e, "cartesian_map returns the results in order"); VF_ASSERT((IsStaticCapacity<S>::value && IsStaticCapacity<T>::value) == IsStaticCapacity<decltype(r)>::value); }
    else if (how == 2) { auto r = cartesian_map([](int x) { return rec(x, 0, 0); }, s); M e; VF_ASSERT(lg.n == m.n); for (int i = 0; i < m.n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i], "cartesian_map of one sequence visits its elements in order"); e.push(lg.r[i]); } same(r, e, "cartesian_map returns the results in order"); cartesian_for_each([](int x) { rec(x, 0, 0); }, t); VF_ASSERT(lg.n == m.n + k.n); for (int i = 0; i < k.n; ++i) VF_ASSERT_MSG(lg.a[m.n + i][0] == k.v[i], "cartesian_for_each of one sequence visits its elements in order"); }
    else if (how == 3) { cartesian_for_each([](int x, int y, int z) { rec(x, y, z); }, t, s, t); int w = k.n * m.n * k.n; VF_ASSERT_MSG(lg.n == w, "cartesian_for_each visits every combination once"); for (int i = 0; i < w; ++i) VF_ASSERT_MSG(lg.a[i][0] == k.v[i / (m.n * k.n)] && lg.a[i][1] == m.v[i / k.n % m.n] && lg.a[i][2] == k.v[i % k.n], "cartesian_for_each varies the last sequence fastest"); }
    else { auto r = cartesian_map([](int x, int y, int z) { return rec(x, y, z); }, s, t, s); M e; int w = m.n * k.n * m.n; VF_ASSERT(lg.n == w); for (int i = 0; i < w; ++i) { VF_ASSERT(lg.a[i][0] == m.v[i / (k.n * m.n)] && lg.a[i][1] == k.v[i / m.n % k.n] && lg.a[i][2] == m.v[i % m.n]); e.push(lg.r[i]); } same(r, e, "cartesian_map returns the results in order"); }
    __vf_reach("done");
}
VF_ENTRY(cart_array_array) { cartesian_case<Array<int, 3>, Array<int, 2>>(); }
VF_ENTRY(cart_arrvec_array) { cartesian_case<ArrVec<int, 3>, Array<int, 2>>(); }
VF_ENTRY(cart_vector_arrvec) { cartesian_case<Vector<int>, ArrVec<int, 3>>(); }
VF_ENTRY(cart_std_view) { cartesian_case<std::vector<int>, ArrVecView<int, 3>>(); }
