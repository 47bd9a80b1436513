// elem, elem_index, elem_indices, find, find_index, find_indices: soundness, completeness, first match.
#include "hof.h"
template <class S> static void search_case() {
    M m; Box<S> b(len_of<S>("n"), m); const S& s = b.s; int n = m.n;
    int key = vf::sym<int>("key"); int thr = vf::sym<int>("thr");
    auto pred = [thr](int x) { return x < thr; };
    int first = -1, pf = -1; M idx, pidx;
    for (int i = 0; i < n; ++i) { if (m.v[i] == key) { if (first < 0) first = i; idx.push(i); } if (m.v[i] < thr) { if (pf < 0) pf = i; pidx.push(i); } }
    VF_ASSERT_MSG(elem(key, s) == (first >= 0), "elem is true exactly when the value occurs");
    auto e = elem_index(key, s); VF_ASSERT_MSG(e.is_nothing() == (first < 0), "elem_index finds a value exactly when it occurs"); if (first >= 0) VF_ASSERT_MSG((int)e.value() == first, "elem_index is the first position");
    uint32_t a0 = __vf_allocs(); auto es = elem_indices(key, s); VF_ASSERT_MSG(!IsStaticCapacity<S>::value || __vf_allocs() == a0, "elem_indices of a fixed-capacity sequence does not allocate");
    VF_ASSERT_MSG((int)es.size() == idx.n, "elem_indices lists every position once"); for (int i = 0; i < idx.n; ++i) VF_ASSERT_MSG((int)es[(size_t)i] == idx.v[i], "elem_indices lists the positions in order");
    VF_ASSERT_MSG(find(pred, s) == (pf >= 0), "find is true exactly when some element satisfies the predicate");
    auto f = find_index(pred, s); VF_ASSERT_MSG(f.is_nothing() == (pf < 0), "find_index finds a position exactly when one exists"); if (pf >= 0) VF_ASSERT_MSG((int)f.value() == pf, "find_index is the first position");
    auto fs = find_indices(pred, s); VF_ASSERT_MSG((int)fs.size() == pidx.n, "find_indices lists every position once"); for (int i = 0; i < pidx.n; ++i) VF_ASSERT_MSG((int)fs[(size_t)i] == pidx.v[i], "find_indices lists the positions in order");
    for (int i = 0; i < n; ++i) VF_ASSERT_MSG(nth((size_t)i, s) == m.v[i], "the source is unchanged");
    vf::obs((uint64_t)first); vf::obs((uint64_t)pf); __vf_reach("done");
}
VF_ENTRY(search_array) { search_case<Array<int, 3>>(); }
VF_ENTRY(search_arrvec) { search_case<ArrVec<int, 4>>(); }
VF_ENTRY(search_vector) { search_case<Vector<int>>(); }
VF_ENTRY(search_stdvector) { search_case<std::vector<int>>(); }
VF_ENTRY(search_stdarray) { search_case<std::array<int, 2>>(); }
VF_ENTRY(search_arrayview) { search_case<ArrayView<int, 2>>(); }
VF_ENTRY(search_arrvecview) { search_case<ArrVecView<int, 3>>(); }
VF_ENTRY(search_vectorview) { search_case<VectorView<int>>(); }
