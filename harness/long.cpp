// Long sequences (around the sizes where implementations switch strategy): every element symbolic;
// for the functions that branch per element, one or two symbolic matches at arbitrary positions.
#define MCAP 220
#define LOGCAP 220
#include "hof.h"
static const int sizes[] = {6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100};
static const int NS = sizeof sizes / sizeof *sizes;
template <class S> static int lsize() { return Box<S>::lo == Box<S>::hi ? (int)Box<S>::hi : sizes[vf::pick("size", 0, NS - 1)]; }

template <class S> static void hof_case() {
    M m; Box<S> b(lsize<S>(), m); const S& s = b.s; int n = m.n; int how = vf::pick("how", 0, 6);
    if (how == 0) { auto r = map([](int x) { return rec(x, 0, 0); }, s); VF_ASSERT_MSG(lg.n == n, "map calls the function once per element"); M e; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i], "map calls the function on the elements in order"); e.push(lg.r[i]); } same(r, e, "map returns the function's results in order"); }
    else if (how == 1) { int z = vf::sym<int>("z"); int r = foldl([](int a, int x) { return rec(a, x, 0); }, z, s); VF_ASSERT_MSG(lg.n == n, "foldl calls the function once per element"); int acc = z; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == acc && lg.a[i][1] == m.v[i], "foldl combines from the left"); acc = lg.r[i]; } VF_ASSERT_MSG(r == acc, "foldl returns the last combination"); }
    else if (how == 2) { int z = vf::sym<int>("z"); int r = foldr([](int x, int a) { return rec(x, a, 0); }, z, s); VF_ASSERT_MSG(lg.n == n, "foldr calls the function once per element"); int acc = z; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[n - 1 - i] && lg.a[i][1] == acc, "foldr combines from the right"); acc = lg.r[i]; } VF_ASSERT_MSG(r == acc, "foldr returns the last combination"); }
    else if (how == 3) { for_each([](int x) { rec(x, 0, 0); }, s); VF_ASSERT_MSG(lg.n == n, "for_each visits every element once"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(lg.a[i][0] == m.v[i], "for_each visits the elements in order"); }
    else if (how == 4) { for_each_with_index([](size_t i, int x) { rec((int)i, x, 0); }, s); VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(lg.a[i][0] == i && lg.a[i][1] == m.v[i], "for_each_with_index pairs each element with its position, in order"); }
    else if (how == 5) { auto r = map_with_index([](size_t i, int x) { return rec((int)i, x, 0); }, s); VF_ASSERT(lg.n == n); M e; for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == i && lg.a[i][1] == m.v[i], "map_with_index pairs each element with its position, in order"); e.push(lg.r[i]); } same(r, e, "map_with_index returns the function's results in order"); }
    else { M k; Vector<int> t; int q = vf::pick("other", 0, 2); int tn = q == 0 ? n - 1 : q == 1 ? n : n + 1; for (int i = 0; i < tn; ++i) { int x = vf::sym<int>("y"); t.push_back(x); k.push(x); } int w = min2(n, tn); auto r = map([](int x, int y) { return rec(x, y, 0); }, s, t); VF_ASSERT_MSG(lg.n == w, "map stops at the shortest sequence"); M e; for (int i = 0; i < w; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i] && lg.a[i][1] == k.v[i], "map combines the i-th elements"); e.push(lg.r[i]); } same(r, e, "map returns the function's results in order"); }
    for (int i = 0; i < n; ++i) VF_ASSERT_MSG(nth((size_t)i, s) == m.v[i], "the argument is unchanged");
    __vf_reach("done");
}
VF_ENTRY(long_hof_vector) { hof_case<Vector<int>>(); }
VF_ENTRY(long_hof_arrvec) { hof_case<ArrVec<int, 101>>(); }
VF_ENTRY(long_hof_array) { hof_case<Array<int, 33>>(); }
VF_ENTRY(long_hof_stdvector) { hof_case<std::vector<int>>(); }
VF_ENTRY(long_hof_view) { hof_case<VectorView<int>>(); }
template <class S> static void mutl_case() {
    M m; Box<S> b(lsize<S>(), m); S& s = b.s; int n = m.n; int how = vf::pick("how", 0, 1);
    if (how) for_each_mut([](int& x) { x = rec(x, 0, 0); }, s); else for_each_with_index_mut([](size_t i, int& x) { x = rec(x, (int)i, 0); }, s);
    VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i] && (how || lg.a[i][1] == i), "mutating iteration visits every element once, in order"); m.v[i] = lg.r[i]; } same(s, m, "exactly the visited elements changed"); __vf_reach("done");
}
VF_ENTRY(long_mut_vector) { mutl_case<Vector<int>>(); }
VF_ENTRY(long_mut_array) { mutl_case<Array<int, 33>>(); }

// matches (odd values) at two arbitrary positions, or everywhere but at two positions
template <class S> static void sparse(Box<S>& b, M& m, bool& dense, int& p, int& q) {
    int n = m.n; dense = vf::pick("dense", 0, 1) != 0; p = vf::pick("p", 0, n - 1); int w = vf::pick("q", 0, 5); int cand[6] = {p, 0, n - 1, n / 2, p + 1 < n ? p + 1 : p, n > 2 ? n - 2 : 0}; q = cand[w];
    for (int i = 0; i < n; ++i) __vf_assume(((m.v[i] & 1) != 0) == ((i == p || i == q) != dense)); (void)b;
}
template <class S> static void filter_case() {
    M m; Box<S> b(lsize<S>(), m); bool dense; int p, q; sparse(b, m, dense, p, q); const S& s = b.s; int n = m.n;
    auto r = filter([](int x) { return (x & 1) != 0; }, s); M e; for (int i = 0; i < n; ++i) if ((i == p || i == q) != dense) e.push(m.v[i]);
    same(r, e, "filter keeps exactly the elements that satisfy the predicate, in order"); for (int i = 0; i < n; ++i) VF_ASSERT(nth((size_t)i, s) == m.v[i]); __vf_reach("done");
}
VF_ENTRY(long_filter_vector) { filter_case<Vector<int>>(); }
VF_ENTRY(long_filter_arrvec) { filter_case<ArrVec<int, 101>>(); }
VF_ENTRY(long_filter_array) { filter_case<Array<int, 33>>(); }
template <class S> static void searchl_case() {
    M m; Box<S> b(lsize<S>(), m); const S& s = b.s; int n = m.n; int p = vf::pick("p", 0, n); int w = vf::pick("q", 0, 2); int q = w == 0 ? p : w == 1 ? n - 1 : p + 1; if (p == n) q = n; int key = vf::sym<int>("key");
    for (int i = 0; i < n; ++i) __vf_assume((m.v[i] == key) == (i == p || i == q)); M idx; for (int i = 0; i < n; ++i) if (i == p || i == q) idx.push(i);
    auto eq = [key](int x) { return x == key; };
    VF_ASSERT_MSG(elem(key, s) == (idx.n > 0) && find(eq, s) == (idx.n > 0), "elem and find are true exactly when an element matches");
    auto e = elem_index(key, s); auto f = find_index(eq, s); VF_ASSERT_MSG(e.is_nothing() == (idx.n == 0) && f.is_nothing() == (idx.n == 0), "a position is found exactly when an element matches"); if (idx.n) VF_ASSERT_MSG((int)e.value() == idx.v[0] && (int)f.value() == idx.v[0], "the first matching position is found");
    auto es = elem_indices(key, s); auto fs = find_indices(eq, s); same(es, idx, "elem_indices lists every matching position in order"); same(fs, idx, "find_indices lists every matching position in order"); __vf_reach("done");
}
VF_ENTRY(long_search_vector) { searchl_case<Vector<int>>(); }
VF_ENTRY(long_search_arrvec) { searchl_case<ArrVec<int, 101>>(); }
VF_ENTRY(long_search_array) { searchl_case<Array<int, 33>>(); }
VF_ENTRY(long_search_view) { searchl_case<ArrVecView<int, 101>>(); }

template <class R> static void names(const R& r, const int* p, int a, int b, const char* what) {
    VF_ASSERT_MSG((int)length(r) == b - a && (int)r.size() == b - a && r.empty() == (a == b), what);
    for (int i = a; i < b; ++i) VF_ASSERT_MSG(&r[(size_t)(i - a)] == p + i, what);
    VF_ASSERT_MSG(r.end() - r.begin() == b - a, what);
}
static size_t low(size_t a, size_t b) { return a < b ? a : b; }
template <class S> static void viewl_case() {
    M m; Box<S> b(lsize<S>(), m); S& s = b.s; const S& c = s; int n = m.n; const int* p = c.data(); int how = vf::pick("how", 0, 4);
    if (how == 0) { VF_ASSERT(&head(c) == p && &last(c) == p + n - 1); names(tail(c), p, 1, n, "tail is all but the first element"); names(tail(s), p, 1, n, "tail"); names(init(c), p, 0, n - 1, "init is all but the last element"); names(init(s), p, 0, n - 1, "init"); }
    else if (how == 1) { size_t k = vf::sym<size_t>("k"); int q = (int)__vf_concretize(low(k, (size_t)n)); names(take(k, c), p, 0, q, "take names the first elements"); names(take(k, s), p, 0, q, "take names the first elements"); }
    else if (how == 2) { size_t k = vf::sym<size_t>("k"); int q = (int)__vf_concretize(low(k, (size_t)n)); names(drop(k, c), p, q, n, "drop names the remaining elements"); names(drop(k, s), p, q, n, "drop names the remaining elements"); }
    else if (how == 3) { size_t a = vf::sym<size_t>("a"); int lo = (int)__vf_concretize(low(a, (size_t)n)); int w = vf::pick("w", 0, 3); size_t e = w == 0 ? (size_t)lo + 1 : w == 1 ? (size_t)n - 1 : w == 2 ? (size_t)n : (size_t)n + 1; int hi = (int)low(e, (size_t)n); int l2 = min2(lo, hi); names(slice(a, e, c), p, l2, hi, "slice names the elements from start to end, within the sequence"); names(slice(a, e, s), p, l2, hi, "slice"); }
    else { int k = vf::pick("p", 0, n); for (int i = 0; i < n; ++i) if (i <= k) __vf_assume(((m.v[i] & 1) != 0) == (i < k)); auto odd = [](int x) { return (x & 1) != 0; }; names(take_while(odd, c), p, 0, k, "take_while names the longest prefix that satisfies the predicate"); names(drop_while(odd, c), p, k, n, "drop_while names what take_while leaves"); }
    __vf_reach("done");
}
VF_ENTRY(long_view_vector) { viewl_case<Vector<int>>(); }
VF_ENTRY(long_view_arrvec) { viewl_case<ArrVec<int, 101>>(); }
VF_ENTRY(long_view_array) { viewl_case<Array<int, 33>>(); }

// building
template <class S, class T> static void appendl_case() {
    M m, k; Box<S> b(lsize<S>(), m); Box<T> c(lsize<T>(), k); M e; for (int i = 0; i < m.n; ++i) e.push(m.v[i]); for (int i = 0; i < k.n; ++i) e.push(k.v[i]);
    auto r = append(b.s, c.s); same(r, e, "append yields the arguments' elements one after another"); __vf_reach("done");
}
VF_ENTRY(long_append_vectors) { appendl_case<Vector<int>, Vector<int>>(); }
VF_ENTRY(long_append_arrvec) { appendl_case<ArrVec<int, 101>, Array<int, 33>>(); }
VF_ENTRY(long_from_function) {
    int n = sizes[vf::pick("size", 0, NS - 1)]; auto r = from_function(n, [](size_t i) { return rec((int)i, 0, 0); }); M e; VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(lg.a[i][0] == i, "from_function applies the function to 0, 1, ..."); e.push(lg.r[i]); } same(r, e, "from_function returns the results in order");
    lg.n = 0; for_index([](size_t i) { rec((int)i, 0, 0); }, (size_t)n); VF_ASSERT(lg.n == n); for (int i = 0; i < n; ++i) VF_ASSERT(lg.a[i][0] == i); __vf_reach("done");
}
// many inner sequences of different lengths, one arbitrary, the others of a repeating pattern
template <class O> static void outer(O& o, M& flat, M& glued, const M& d, int n) {
    int w = vf::pick("at", 0, 4); int at = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? n / 2 : w == 3 ? n - 2 : n - 1, len = vf::pick("len", 0, 9), pat = vf::pick("pattern", 0, 2);
    for (int i = 0; i < n; ++i) { if (i) for (int j = 0; j < d.n; ++j) glued.push(d.v[j]); int l = i == at ? len : pat == 0 ? 0 : pat == 1 ? 1 : i % 3; Vector<int> in; for (int j = 0; j < l; ++j) { int x = vf::sym<int>("x"); in.push_back(x); flat.push(x); glued.push(x); } o.push_back(in); }
}
VF_ENTRY(long_concat) {
    static const int outs[] = {4, 5, 7, 8, 9, 16, 17, 33}; int n = outs[vf::pick("outer", 0, 7)]; M flat, glued, d; Vector<int> del; int dn = vf::pick("d", 0, 3); for (int i = 0; i < dn; ++i) { int x = vf::sym<int>("d"); del.push_back(x); d.push(x); }
    Vector<Vector<int>> o; outer(o, flat, glued, d, n); auto r = concat(o); same(r, flat, "concat yields the inner sequences' elements one after another"); auto g = intercalate(del, o); same(g, glued, "intercalate puts the delimiter between consecutive inner sequences only"); __vf_reach("done");
}
VF_ENTRY(long_cartesian) {
    static const int a[] = {1, 4, 5, 7, 8, 9, 13}; int n = a[vf::pick("n", 0, 6)], k = a[vf::pick("m", 0, 6)]; M m, q; Box<Vector<int>> b(n, m); Box<ArrVec<int, 16>> c(k, q);
    auto r = cartesian_map([](int x, int y) { return rec(x, y, 0); }, b.s, c.s); M e; VF_ASSERT(lg.n == n * k); for (int i = 0; i < n * k; ++i) { VF_ASSERT_MSG(lg.a[i][0] == m.v[i / k] && lg.a[i][1] == q.v[i % k], "cartesian_map varies the last sequence fastest"); e.push(lg.r[i]); } same(r, e, "cartesian_map returns the results in order"); __vf_reach("done");
}
