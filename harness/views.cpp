// head/last/tail/init/take/drop/slice/take_while/drop_while: which elements of the source they name.
#include "hof.h"

// r names exactly the elements [a,b) of the storage at p
template <class R> static void names(const R& r, const int* p, int a, int b, const char* what) {
    VF_ASSERT_MSG((int)length(r) == b - a, what);
    VF_ASSERT_MSG((int)r.size() == b - a && r.empty() == (a == b), what);
    for (int i = a; i < b; ++i) { VF_ASSERT_MSG(&r[(size_t)(i - a)] == p + i, what); VF_ASSERT_MSG(&nth((size_t)(i - a), r) == p + i, what); }
    int k = a; for (auto it = r.begin(); it != r.end(); ++it) { VF_ASSERT_MSG(&*it == p + k, what); ++k; }
    VF_ASSERT_MSG(k == b, what); vf::obs((uint32_t)k);
}
static size_t bound(size_t x, size_t hi) { return x < hi ? x : hi; }
template <class S> static const int* base(const S& s) { return s.data(); }

template <class S> static void view_case() {
    M m; Box<S> b(len_of<S>("n"), m); S& s = b.s; const S& c = s; int n = m.n; const int* p = base(c);
    int how = vf::pick("how", 0, 9);
    if (how == 0) {  // partial functions refuse the empty sequence and nothing else
        bool t1 = false, t2 = false, t3 = false, t4 = false, t5 = false, t6 = false;
        try { const int& h = head(c); VF_ASSERT_MSG(&h == p, "head is the first element"); } catch (const RuntimeError&) { t1 = true; }
        try { const int& l = last(c); VF_ASSERT_MSG(&l == p + (n - 1), "last is the last element"); } catch (const RuntimeError&) { t2 = true; }
        try { names(tail(c), p, 1, n, "tail is all but the first element"); } catch (const RuntimeError&) { t3 = true; }
        try { names(tail(s), p, 1, n, "tail is all but the first element"); } catch (const RuntimeError&) { t5 = true; }
        try { names(init(c), p, 0, n - 1, "init is all but the last element"); } catch (const RuntimeError&) { t4 = true; }
        try { names(init(s), p, 0, n - 1, "init is all but the last element"); } catch (const RuntimeError&) { t6 = true; }
        VF_ASSERT_MSG(t1 == (n == 0) && t2 == (n == 0) && t3 == (n == 0) && t4 == (n == 0) && t5 == (n == 0) && t6 == (n == 0), "head, last, tail and init refuse exactly the empty sequence"); VF_ASSERT(is_null(c) == (n == 0));
    } else if (how == 1) { size_t k = (size_t)__vf_concretize(bound(vf::sym<size_t>("k"), 6)); names(take(k, c), p, 0, (int)bound(k, (size_t)n), "take names the first elements"); names(take(k, s), p, 0, (int)bound(k, (size_t)n), "take names the first elements"); names(take((int)k, c), p, 0, (int)bound(k, (size_t)n), "take names the first elements"); }
    else if (how == 2) { size_t k = vf::sym<size_t>("k"); int q = (int)__vf_concretize(bound(k, (size_t)n)); names(take(k, c), p, 0, q, "take never exceeds the sequence"); names(drop(k, c), p, q, n, "drop never exceeds the sequence"); }
    else if (how == 3) { size_t k = (size_t)vf::pick("k", 0, 6); int q = (int)bound(k, (size_t)n); names(drop(k, c), p, q, n, "drop names the remaining elements"); names(drop(k, s), p, q, n, "drop names the remaining elements"); names(drop((int)k, s), p, q, n, "drop names the remaining elements"); }
    else if (how == 4) {  // slice clamps both bounds
        size_t a = vf::sym<size_t>("a"), e = vf::sym<size_t>("e"); int hi = (int)__vf_concretize(bound(e, (size_t)n)); int lo = (int)__vf_concretize(bound(a, (size_t)hi));
        names(slice(a, e, c), p, lo, hi, "slice names the elements from start to end, within the sequence"); names(slice(a, e, s), p, lo, hi, "slice names the elements from start to end, within the sequence");
    } else if (how == 5) { int a = vf::pick("a", 0, n), e = vf::pick("e", 0, n); if (a <= e) { names(slice(a, e, c), p, a, e, "slice"); names(slice_unsafe(a, e, c), p, a, e, "slice_unsafe names the elements from start to end"); names(slice_unsafe(a, e, s), p, a, e, "slice_unsafe names the elements from start to end"); }
        names(take_unsafe(a, c), p, 0, a, "take_unsafe names the first elements"); names(take_unsafe(a, s), p, 0, a, "take_unsafe names the first elements"); names(drop_unsafe(a, c), p, a, n, "drop_unsafe names the remaining elements"); names(drop_unsafe(a, s), p, a, n, "drop_unsafe names the remaining elements"); }
    else if (how == 6) {
        auto odd = [](int x) { return (x & 1) != 0; }; int q = 0; while (q < n && (m.v[q] & 1)) ++q;
        names(take_while(odd, c), p, 0, q, "take_while names the longest prefix that satisfies the predicate"); names(drop_while(odd, c), p, q, n, "drop_while names what take_while leaves");
    } else if (how == 7) { names(take(Size<2>{}, c), p, 0, min2(2, n), "take of a static length"); names(take(Size<5>{}, c), p, 0, n, "take of a static length"); names(take(Size<0>{}, c), p, 0, 0, "take of a static length"); names(take(Size<2>{}, s), p, 0, min2(2, n), "take of a static length"); }
    else if (how == 8) { names(drop(Size<2>{}, c), p, min2(2, n), n, "drop of a static length"); names(drop(Size<5>{}, c), p, n, n, "drop of a static length"); names(drop(Size<0>{}, c), p, 0, n, "drop of a static length"); names(drop(Size<2>{}, s), p, min2(2, n), n, "drop of a static length"); }
    else { // views compose
        int a = vf::pick("a", 0, 3), e = vf::pick("e", 0, 3); int la = min2(a, n); names(take(e, drop(a, c)), p, la, min2(la + e, n), "take of a drop"); names(drop(a, take(e, c)), p, min2(a, min2(e, n)), min2(e, n), "drop of a take");
        if (n > 1) names(tail(tail(c)), p, 2, n, "tail of a tail"); if (n > 1) names(init(tail(c)), p, 1, n - 1, "init of a tail"); }
    for (int i = 0; i < n; ++i) VF_ASSERT_MSG(p[i] == m.v[i], "the source is unchanged");
    __vf_reach("done");
}
VF_ENTRY(view_array3) { view_case<Array<int, 3>>(); }
VF_ENTRY(view_array4) { view_case<Array<int, 4>>(); }
VF_ENTRY(view_arrvec) { view_case<ArrVec<int, 3>>(); }
VF_ENTRY(view_vector) { view_case<Vector<int>>(); }
VF_ENTRY(view_stdvector) { view_case<std::vector<int>>(); }
VF_ENTRY(view_stdarray) { view_case<std::array<int, 3>>(); }
VF_ENTRY(view_vectorview) { view_case<VectorView<int>>(); }
VF_ENTRY(view_arrvecview) { view_case<ArrVecView<int, 3>>(); }
