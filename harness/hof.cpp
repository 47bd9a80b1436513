// map, filter, folds and the iteration functions, over every sequence kind.
#include "hof.h"

template <class S> static void unary_case() {
    M m; Box<S> b(len_of<S>("n"), m); const S& s = b.s; int n = m.n;
    int how = vf::pick("how", 0, 7);
    if (how == 0) {
        uint32_t a0 = __vf_allocs();
        auto r = map([](int x) { return rec(x, 0, 0); }, s);
        VF_ASSERT_MSG(!IsStaticCapacity<S>::value || __vf_allocs() == a0, "map of a fixed-capacity sequence does not allocate");
        VF_ASSERT_MSG(lg.n == n, "map calls the function once per element");
        M e; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i], "map calls the function on the elements in order"); e.push(lg.r[i]); }
        same(r, e, "map returns the function's results in order");
        VF_ASSERT_MSG(IsStaticSize<S>::value == IsStaticSize<decltype(r)>::value && IsStaticCapacity<S>::value == IsStaticCapacity<decltype(r)>::value, "the result is as static as the argument");
    } else if (how == 1) {
        uint32_t a0 = __vf_allocs();
        auto r = filter([](int x) { return (rec(x, 0, 0) & 1) != 0; }, s);
        VF_ASSERT_MSG(lg.n == n, "filter asks the predicate once per element");
        VF_ASSERT_MSG(!IsStaticCapacity<S>::value || __vf_allocs() == a0, "filter of a fixed-capacity sequence does not allocate");
        M e; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i], "filter asks about the elements in order"); if (lg.r[i] & 1) e.push(m.v[i]); }
        same(r, e, "filter keeps exactly the elements that satisfy the predicate, in order");
    } else if (how == 2) {
        int z = vf::sym<int>("z");
        int r = foldl([](int a, int x) { return rec(a, x, 0); }, z, s);
        VF_ASSERT_MSG(lg.n == n, "foldl calls the function once per element");
        int acc = z; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == acc && lg.a[i][1] == m.v[i], "foldl combines from the left"); acc = lg.r[i]; }
        VF_ASSERT_MSG(r == acc, "foldl returns the last combination"); vf::obs((uint32_t)r);
    } else if (how == 3) {
        int z = vf::sym<int>("z");
        int r = foldr([](int x, int a) { return rec(x, a, 0); }, z, s);
        VF_ASSERT_MSG(lg.n == n, "foldr calls the function once per element");
        int acc = z; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[n - 1 - i] && lg.a[i][1] == acc, "foldr combines from the right"); acc = lg.r[i]; }
        VF_ASSERT_MSG(r == acc, "foldr returns the last combination"); vf::obs((uint32_t)r);
    } else if (how == 4) {
        for_each([](int x) { rec(x, 0, 0); }, s);
        VF_ASSERT_MSG(lg.n == n, "for_each visits every element once"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(lg.a[i][0] == m.v[i], "for_each visits the elements in order");
    } else if (how == 5) {
        for_each_with_index([](size_t i, int x) { rec((int)i, x, 0); }, s);
        VF_ASSERT_MSG(lg.n == n, "for_each_with_index visits every element once"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(lg.a[i][0] == i && lg.a[i][1] == m.v[i], "for_each_with_index pairs each element with its position, in order");
    } else if (how == 6) {
        auto r = map_with_index([](size_t i, int x) { return rec((int)i, x, 0); }, s);
        VF_ASSERT_MSG(lg.n == n, "map_with_index calls the function once per element");
        M e; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == i && lg.a[i][1] == m.v[i], "map_with_index pairs each element with its position, in order"); e.push(lg.r[i]); }
        same(r, e, "map_with_index returns the function's results in order");
        VF_ASSERT_MSG(IsStaticSize<S>::value == IsStaticSize<decltype(r)>::value && IsStaticCapacity<S>::value == IsStaticCapacity<decltype(r)>::value, "the result is as static as the argument");
    } else {
        auto r = map([](int x) { return (long long)x * 2; }, s);   // another result type
        VF_ASSERT((int)length(r) == n); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(nth((size_t)i, r) == (long long)m.v[i] * 2, "map keeps the function's result type");
    }
    for (int i = 0; i < n; ++i) VF_ASSERT_MSG(nth((size_t)i, s) == m.v[i], "the argument is unchanged");
    __vf_reach("done");
}
VF_ENTRY(hof_array) { unary_case<Array<int, 3>>(); }
VF_ENTRY(hof_array1) { unary_case<Array<int, 1>>(); }
VF_ENTRY(hof_arrvec) { unary_case<ArrVec<int, 3>>(); }
VF_ENTRY(hof_vector) { unary_case<Vector<int>>(); }
VF_ENTRY(hof_stdarray) { unary_case<std::array<int, 3>>(); }
VF_ENTRY(hof_stdvector) { unary_case<std::vector<int>>(); }
VF_ENTRY(hof_arrayview) { unary_case<ArrayView<int, 3>>(); }
VF_ENTRY(hof_arrvecview) { unary_case<ArrVecView<int, 3>>(); }
VF_ENTRY(hof_vectorview) { unary_case<VectorView<int>>(); }

// several sequences at once stop at the shortest
template <class S, class T> static void binary_case() {
    M m, k; Box<S> b(len_of<S>("n"), m); Box<T> c(len_of<T>("m"), k); const S& s = b.s; const T& t = c.s;
    int n = min2(m.n, k.n);
    bool ss = IsStaticSize<S>::value && IsStaticSize<T>::value, sc = IsStaticCapacity<S>::value && IsStaticCapacity<T>::value;
    int how = vf::pick("how", 0, 4);
    if (how == 0) {
        uint32_t a0 = __vf_allocs();
        auto r = map([](int x, int y) { return rec(x, y, 0); }, s, t);
        VF_ASSERT_MSG(!sc || __vf_allocs() == a0, "map of fixed-capacity sequences does not allocate");
        VF_ASSERT_MSG(lg.n == n, "map stops at the shortest sequence");
        M e; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i] && lg.a[i][1] == k.v[i], "map combines the i-th elements"); e.push(lg.r[i]); }
        same(r, e, "map returns the function's results in order");
        VF_ASSERT_MSG(ss == IsStaticSize<decltype(r)>::value && sc == IsStaticCapacity<decltype(r)>::value, "the result is as static as the arguments");
    } else if (how == 1) {
        for_each([](int x, int y) { rec(x, y, 0); }, s, t);
        VF_ASSERT_MSG(lg.n == n, "for_each stops at the shortest sequence"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(lg.a[i][0] == m.v[i] && lg.a[i][1] == k.v[i], "for_each combines the i-th elements");
    } else if (how == 2) {
        for_each_with_index([](size_t i, int x, int y) { rec((int)i, x, y); }, s, t);
        VF_ASSERT_MSG(lg.n == n, "for_each_with_index stops at the shortest sequence"); for (int i = 0; i < n; ++i) VF_ASSERT(lg.a[i][0] == i && lg.a[i][1] == m.v[i] && lg.a[i][2] == k.v[i]);
    } else if (how == 3) {
        auto r = map_with_index([](size_t i, int x, int y) { return rec((int)i, x, y); }, s, t);
        VF_ASSERT_MSG(lg.n == n, "map_with_index stops at the shortest sequence");
        M e; for (int i = 0; i < n; ++i) { VF_ASSERT(lg.a[i][0] == i && lg.a[i][1] == m.v[i] && lg.a[i][2] == k.v[i]); e.push(lg.r[i]); }
        same(r, e, "map_with_index returns the function's results in order");
    } else {
        auto r = map([](int x, int y, int z) { return rec(x, y, z); }, s, t, s);
        VF_ASSERT_MSG(lg.n == n, "map stops at the shortest sequence");
        M e; for (int i = 0; i < n; ++i) { VF_ASSERT(lg.a[i][0] == m.v[i] && lg.a[i][1] == k.v[i] && lg.a[i][2] == m.v[i]); e.push(lg.r[i]); }
        same(r, e, "map returns the function's results in order");
    }
    __vf_reach("done");
}
VF_ENTRY(hof2_array_array) { binary_case<Array<int, 3>, Array<int, 2>>(); }
VF_ENTRY(hof2_array_arrvec) { binary_case<Array<int, 2>, ArrVec<int, 4>>(); }
VF_ENTRY(hof2_arrvec_arrvec) { binary_case<ArrVec<int, 4>, ArrVec<int, 3>>(); }
VF_ENTRY(hof2_arrvec_vector) { binary_case<ArrVec<int, 2>, Vector<int>>(); }
VF_ENTRY(hof2_vector_array) { binary_case<Vector<int>, Array<int, 2>>(); }
VF_ENTRY(hof2_vector_stdvector) { binary_case<Vector<int>, std::vector<int>>(); }
VF_ENTRY(hof2_views) { binary_case<ArrVecView<int, 3>, VectorView<int>>(); }

// mutating iteration: every visited element may be changed, nothing else changes
template <class S, class T> static void mut_case() {
    M m, k; Box<S> b(len_of<S>("n"), m); Box<T> c(len_of<T>("m"), k); S& s = b.s; T& t = c.s;
    int n = min2(m.n, k.n);
    int how = vf::pick("how", 0, 4);
    if (how == 0) { for_each_mut([](int& x) { x = rec(x, 0, 0); }, s); VF_ASSERT(lg.n == m.n); for (int i = 0; i < m.n; ++i) { VF_ASSERT(lg.a[i][0] == m.v[i]); m.v[i] = lg.r[i]; } }
    else if (how == 1) { for_each_mut([](int& x, int& y) { int o = x; x = rec(x, y, 0); y = o; }, s, t); VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) { VF_ASSERT(lg.a[i][0] == m.v[i] && lg.a[i][1] == k.v[i]); k.v[i] = m.v[i]; m.v[i] = lg.r[i]; } }
    else if (how == 2) { for_each_with_index_mut([](size_t i, int& x) { x = rec((int)i, x, 0); }, s); VF_ASSERT(lg.n == m.n); for (int i = 0; i < m.n; ++i) { VF_ASSERT(lg.a[i][0] == i && lg.a[i][1] == m.v[i]); m.v[i] = lg.r[i]; } }
    else if (how == 3) { for_each_with_index_mut([](size_t i, int& x, int& y) { int o = x; x = rec((int)i, x, y); y = o; }, s, t); VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) { VF_ASSERT(lg.a[i][0] == i && lg.a[i][1] == m.v[i] && lg.a[i][2] == k.v[i]); k.v[i] = m.v[i]; m.v[i] = lg.r[i]; } }
    else { cartesian_for_each_mut([](int& x, int& y) { x = rec(x, y, 0); y = x ^ 1; }, s, t); int c2 = 0; VF_ASSERT(lg.n == m.n * k.n); for (int i = 0; i < m.n; ++i) for (int j = 0; j < k.n; ++j) { VF_ASSERT_MSG(lg.a[c2][0] == m.v[i] && lg.a[c2][1] == k.v[j], "cartesian_for_each_mut sees the changes already made"); m.v[i] = lg.r[c2]; k.v[j] = m.v[i] ^ 1; ++c2; } }
    same(s, m, "exactly the visited elements changed"); same(t, k, "exactly the visited elements changed");
    __vf_reach("done");
}
VF_ENTRY(mut_array_arrvec) { mut_case<Array<int, 3>, ArrVec<int, 3>>(); }
VF_ENTRY(mut_vector_vector) { mut_case<Vector<int>, Vector<int>>(); }
VF_ENTRY(mut_arrvec_std) { mut_case<ArrVec<int, 2>, std::vector<int>>(); }

// three sequences at once, whichever of them is the shortest
template <class S, class T, class U> static void ternary_case() {
    M m, k, l; Box<S> b(len_of<S>("n"), m); Box<T> c(len_of<T>("m"), k); Box<U> d(len_of<U>("l"), l); S& s = b.s; T& t = c.s; U& u = d.s; const S& cs = s; const T& ct = t; const U& cu = u;
    int n = min2(m.n, min2(k.n, l.n));
    int how = vf::pick("how", 0, 6);
    auto seen = [&](const char* what, int from) { VF_ASSERT_MSG(lg.n == n, what); for (int i = 0; i < n; ++i) { if (from) VF_ASSERT_MSG(lg.a[i][0] == i, what); VF_ASSERT_MSG(lg.a[i][from] == m.v[i] && lg.a[i][from + 1] == k.v[i] && lg.a[i][from + 2] == l.v[i], what); } };
    auto turn = [&]() { for (int i = 0; i < n; ++i) { int x = m.v[i]; m.v[i] = lg.r[i]; l.v[i] = k.v[i]; k.v[i] = x; } };
    if (how == 0) { for_each([](int x, int y, int z) { rec(x, y, z); }, cs, ct, cu); seen("for_each of three sequences stops at the shortest", 0); }
    else if (how == 1) { for_each_with_index([](size_t i, int x, int y, int z) { rec((int)i, x, y, z); }, cs, ct, cu); seen("for_each_with_index of three sequences stops at the shortest", 1); }
    else if (how == 2) { for_each_mut([](int& x, int& y, int& z) { int o = x; x = rec(x, y, z); z = y; y = o; }, s, t, u); seen("for_each_mut of three sequences stops at the shortest", 0); turn(); }
    else if (how == 3) { for_each_with_index_mut([](size_t i, int& x, int& y, int& z) { int o = x; x = rec((int)i, x, y, z); z = y; y = o; }, s, t, u); seen("for_each_with_index_mut of three sequences stops at the shortest", 1); turn(); }
    else if (how == 4 || how == 5) {
        uint32_t a0 = __vf_allocs(); M e;
        bool sc = IsStaticCapacity<S>::value && IsStaticCapacity<T>::value && IsStaticCapacity<U>::value, ss = IsStaticSize<S>::value && IsStaticSize<T>::value && IsStaticSize<U>::value;
        if (how == 4) { auto r = map([](int x, int y, int z) { return rec(x, y, z); }, cs, ct, cu); VF_ASSERT_MSG(!sc || __vf_allocs() == a0, "map of fixed-capacity sequences does not allocate"); seen("map of three sequences stops at the shortest", 0); for (int i = 0; i < n; ++i) e.push(lg.r[i]); same(r, e, "map of three sequences returns the function's results in order");
            VF_ASSERT_MSG(ss == IsStaticSize<decltype(r)>::value && sc == IsStaticCapacity<decltype(r)>::value, "the result is as static as the arguments"); }
        else { auto r = map_with_index([](size_t i, int x, int y, int z) { return rec((int)i, x, y, z); }, cs, ct, cu); VF_ASSERT_MSG(!sc || __vf_allocs() == a0, "map_with_index of fixed-capacity sequences does not allocate"); seen("map_with_index of three sequences stops at the shortest", 1); for (int i = 0; i < n; ++i) e.push(lg.r[i]); same(r, e, "map_with_index of three sequences returns the function's results in order"); }
    }
    else {
        cartesian_for_each_mut([](int& x, int& y, int& z) { x = rec(x, y, z); y = x ^ 1; z = y ^ 2; }, s, t, u); int q = 0;
        VF_ASSERT_MSG(lg.n == m.n * k.n * l.n, "cartesian_for_each_mut visits every combination once");
        for (int i = 0; i < m.n; ++i) for (int j = 0; j < k.n; ++j) for (int h = 0; h < l.n; ++h) { VF_ASSERT_MSG(lg.a[q][0] == m.v[i] && lg.a[q][1] == k.v[j] && lg.a[q][2] == l.v[h], "cartesian_for_each_mut sees the changes already made"); m.v[i] = lg.r[q]; k.v[j] = m.v[i] ^ 1; l.v[h] = k.v[j] ^ 2; ++q; }
    }
    same(s, m, "exactly the visited elements changed"); same(t, k, "exactly the visited elements changed"); same(u, l, "exactly the visited elements changed");
    __vf_reach("done");
}
VF_ENTRY(hof3_fixed) { ternary_case<ArrVec<int, 3>, Array<int, 2>, ArrVec<int, 2>>(); }
VF_ENTRY(hof3_arrays) { ternary_case<Array<int, 3>, std::array<int, 1>, Array<int, 2>>(); }
VF_ENTRY(hof3_mixed) { ternary_case<ArrVec<int, 2>, std::array<int, 3>, Vector<int>>(); }
VF_ENTRY(hof3_dyn) { ternary_case<Vector<int>, ArrVec<int, 2>, std::vector<int>>(); }

// elements with a lifetime: results of map and filter own their elements
VF_ENTRY(hof_lifetime) {
    {
        int n = vf::pick("n", 0, 3); M m; Vector<vf::Tr> v; ArrVec<vf::Tr, 3> a; Array<vf::Tr, 2> f;
        for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); v.push_back(vf::Tr(x)); a.push_back(vf::Tr(x)); m.push(x); }
        M e, d; for (int i = 0; i < n; ++i) { if (m.v[i] & 1) e.push(m.v[i]); d.push(m.v[i] ^ 5); }
        auto odd = [](const vf::Tr& t) { return (t.get() & 1) != 0; }; auto x5 = [](const vf::Tr& t) { return vf::Tr(t.get() ^ 5); };
        int how = vf::pick("how", 0, 4);
        if (how == 0) { auto r = filter(odd, v); agree(r, e); r.push_back(vf::Tr(1)); agree(v, m); }
        else if (how == 1) { auto r = filter(odd, a); agree(r, e); agree(a, m); }
        else if (how == 2) { auto r = map(x5, v); agree(r, d); agree(v, m); }
        else if (how == 3) { auto r = map(x5, a); agree(r, d); agree(a, m); }
        else { auto r = map(x5, f); VF_ASSERT(r[0].get() == 5 && r[1].get() == 5); auto q = append(v, a); M w = m; for (int i = 0; i < n; ++i) w.push(m.v[i]); agree(q, w); }
    }
    VF_ASSERT(__vf_live() == 0); __vf_reach("done");
}
