// Every sort yields an ordered permutation of its input; the stable ones keep equal elements in order.
#include "efp.hpp"
#include "vf.h"
using namespace efp;
struct K { int key; int id; friend bool operator<(const K& a, const K& b) { return a.key < b.key; } friend bool operator>(const K& a, const K& b) { return a.key > b.key; } };
static const int MAXN = 310;
static int keys[MAXN];
static Vector<K> input(int n) { Vector<K> v; for (int i = 0; i < n; ++i) { keys[i] = vf::sym<int>("x"); v.push_back(K{keys[i], i}); } return v; }
template <class C> static void check(Vector<K>& v, int n, const C& c, bool stable) {
    VF_ASSERT_MSG((int)v.size() == n, "sorting keeps the length");
    bool seen[MAXN]; for (int i = 0; i < n; ++i) seen[i] = false;
    for (int i = 0; i < n; ++i) {
        int id = v[(size_t)i].id; VF_ASSERT_MSG(id >= 0 && id < n && !seen[id], "sorting keeps every element exactly once"); seen[id] = true;
        VF_ASSERT_MSG(v[(size_t)i].key == keys[id], "sorting keeps the elements' values"); vf::obs((uint64_t)id);
        if (i) { const K &a = v[(size_t)i - 1], &b = v[(size_t)i]; bool gt = c(b, a); VF_ASSERT_MSG(!gt, "the result is ordered"); if (stable) { bool lt = c(a, b); VF_ASSERT_MSG(lt | (a.id < b.id), "equal elements keep their order"); } }
    }
    __vf_reach("done");
}
static bool lt(const K& a, const K& b) { return a.key < b.key; }
static bool gt(const K& a, const K& b) { return a.key > b.key; }
static bool low(const K& a, const K& b) { return (a.key & 1) < (b.key & 1); }
#define NN int n = vf::pick("n", 0, __vf_param("n", 5)); Vector<K> v = input(n)
VF_ENTRY(sort_plain) { NN; efp::sort(v); check(v, n, lt, true); }
VF_ENTRY(sort_unstable_plain) { NN; sort_unstable(v); check(v, n, lt, false); }
VF_ENTRY(sort_quick) { NN; quicksort(v); check(v, n, lt, false); }
VF_ENTRY(sort_heap) { NN; heapsort(v); check(v, n, lt, false); }
VF_ENTRY(sort_insertion) { NN; insertion_sort(v); check(v, n, lt, true); }
VF_ENTRY(sort_tim) { NN; timsort(v); check(v, n, lt, true); }
VF_ENTRY(sort_intro) { NN; size_trosort(v); check(v, n, lt, false); }
VF_ENTRY(sort_merge) { NN; if (n) { if (vf::pick("c", 0, 1)) { merge_sort_by(v, 0, (size_t)n - 1, gt); check(v, n, gt, false); } else { merge_sort_by(v, 0, (size_t)n - 1, lt); check(v, n, lt, false); } } __vf_reach("done"); }
template <class C> static void by_case(const C& c) {
    NN; int how = vf::pick("how", 0, 6);
    if (how == 0) { sort_by(v, c); check(v, n, c, true); } else if (how == 1) { sort_unstable_by(v, c); check(v, n, c, false); }
    else if (how == 2) { heapsort_by(v, c); check(v, n, c, false); } else if (how == 3) { insertion_sort_by(v, c); check(v, n, c, true); }
    else if (how == 4) { timsort_by(v, c); check(v, n, c, true); } else if (how == 5) { size_trosort_by(v, c); check(v, n, c, false); }
    else { if (n) quicksort_by(v, 0, (size_t)n - 1, c); check(v, n, c, false); }
}
VF_ENTRY(sort_by_desc) { by_case(gt); }
VF_ENTRY(sort_by_low) { by_case(low); }
VF_ENTRY(sort_by_lambda) { int k = vf::sym<int>("k"); by_case([k](const K& a, const K& b) { return (a.key < k) < (b.key < k); }); }
// a part of the vector: nothing outside the range moves
VF_ENTRY(sort_range) {
    int n = __vf_param("n", 4); Vector<K> v = input(n); int a = vf::pick("a", 0, n - 1), b = vf::pick("b", 0, n - 1); if (a > b) return;
    bool q = vf::pick("q", 0, 1) != 0; if (q) quicksort_by(v, (size_t)a, (size_t)b, lt); else merge_sort_by(v, (size_t)a, (size_t)b, lt);
    bool seen[MAXN]; for (int i = 0; i < n; ++i) seen[i] = false;
    for (int i = 0; i < n; ++i) { int id = v[(size_t)i].id; if (i < a || i > b) VF_ASSERT_MSG(id == i, "elements outside the range stay"); else { VF_ASSERT_MSG(id >= a && id <= b && !seen[id], "the range keeps its elements"); seen[id] = true; VF_ASSERT(v[(size_t)i].key == keys[id]); if (i > a) { bool g = lt(v[(size_t)i], v[(size_t)i - 1]); VF_ASSERT_MSG(!g, "the range is ordered"); } } }
    __vf_reach("done");
}
// more than one run: n elements, arranged concrete keys with symbolic ones at some places
template <class F> static void runs(const F& srt, bool desc) {
    static const int lens[] = {33, 34, 40, 64, 65, 70, 97}; int n = lens[vf::pick("len", 0, __vf_param("lens", 6))]; int shape = vf::pick("shape", 0, 3);
    int s1 = vf::pick("where", 0, 3); int p1 = s1 == 0 ? 0 : s1 == 1 ? 31 : s1 == 2 ? 32 : n - 1; int p2 = s1 == 3 ? 5 : n - 1 - (n > 33);
    Vector<K> v; for (int i = 0; i < n; ++i) { int k = shape == 0 ? 4 * i : shape == 1 ? -4 * i : shape == 2 ? 4 * (i % 7) : (i < 32 ? 1000 + 4 * i : 4 * i); if (i == p1 || (i == p2 && __vf_param("two", 0))) k = vf::sym<int>("x"); keys[i] = k; v.push_back(K{k, i}); }
    srt(v); if (desc) check(v, n, gt, true); else check(v, n, lt, true);
}
VF_ENTRY(sort_runs) { runs([](Vector<K>& v) { efp::sort(v); }, false); }
VF_ENTRY(sort_runs_by) { runs([](Vector<K>& v) { sort_by(v, gt); }, true); }
// elements with lifetimes
VF_ENTRY(sort_lifetime) {
    { int n = vf::pick("n", 0, 4); Vector<vf::Tr> v; int in[4]; for (int i = 0; i < n; ++i) { in[i] = vf::sym<int>("x"); v.push_back(vf::Tr(in[i])); }
      int how = vf::pick("how", 0, 4); if (how == 0) efp::sort(v); else if (how == 1) sort_unstable(v); else if (how == 2) heapsort(v); else if (how == 3) insertion_sort(v); else if (n) merge_sort_by(v, 0, (size_t)n - 1, [](const vf::Tr& a, const vf::Tr& b) { return a < b; });
      VF_ASSERT((int)v.size() == n);
      for (int i = 0; i < n; ++i) { if (i) VF_ASSERT_MSG(!(v[(size_t)i] < v[(size_t)i - 1]), "the result is ordered"); int c1 = 0, c2 = 0; for (int j = 0; j < n; ++j) { c1 += (in[j] == in[i]); c2 += (v[(size_t)j].get() == in[i]); } VF_ASSERT_MSG(c1 == c2, "the result is a permutation"); } }
    VF_ASSERT(__vf_live() == 0); __vf_reach("done");
}
// elements that own storage and are empty after a move: { key, position }
typedef Vector<vf::Tr> Row;
static bool row_lt(const Row& a, const Row& b) { return a[0].get() < b[0].get(); }
template <class F> static void rows(bool stable, const F& f) {
    { int n = vf::pick("n", 0, __vf_param("n", 4)); Vector<Row> v; int in[8]; for (int i = 0; i < n; ++i) { in[i] = vf::sym<int>("x"); Row r; r.push_back(vf::Tr(in[i])); r.push_back(vf::Tr(i)); v.push_back(r); }
      f(v, n); VF_ASSERT_MSG((int)v.size() == n, "sorting keeps the length"); bool seen[8] = {false};
      for (int i = 0; i < n; ++i) { const Row& r = v[(size_t)i]; VF_ASSERT_MSG(r.size() == 2, "sorting keeps the elements whole"); int id = r[1].get(); VF_ASSERT_MSG(id >= 0 && id < n && !seen[id] && r[0].get() == in[id], "the result is a permutation"); seen[id] = true;
        if (i) { const Row& q = v[(size_t)i - 1]; VF_ASSERT_MSG(!(r[0].get() < q[0].get()), "the result is ordered"); if (stable) VF_ASSERT_MSG((q[0].get() < r[0].get()) | (q[1].get() < id), "equal elements keep their order"); } } }
    VF_ASSERT_MSG(__vf_live() == 0, "every element is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(sort_rows) { int how = vf::pick("how", 0, 3); rows(false, [how](Vector<Row>& v, int n) { if (how == 0) sort_unstable_by(v, row_lt); else if (how == 1) heapsort_by(v, row_lt); else if (how == 2) { if (n) merge_sort_by(v, 0, (size_t)n - 1, row_lt); } else if (n) quicksort_by(v, 0, (size_t)n - 1, row_lt); }); }
VF_ENTRY(sort_rows_stable) { int how = vf::pick("how", 0, 2); rows(true, [how](Vector<Row>& v, int) { if (how == 0) sort_by(v, row_lt); else if (how == 1) insertion_sort_by(v, row_lt); else timsort_by(v, row_lt); }); }
// plain numbers
VF_ENTRY(sort_ints) {
    int n = vf::pick("n", 0, 4); Vector<int> v; int in[5]; for (int i = 0; i < n; ++i) { in[i] = vf::sym<int>("x"); v.push_back(in[i]); }
    int how = vf::pick("how", 0, 5); if (how == 0) efp::sort(v); else if (how == 1) sort_unstable(v); else if (how == 2) heapsort(v); else if (how == 3) insertion_sort(v); else if (how == 4) quicksort(v); else timsort(v);
    VF_ASSERT((int)v.size() == n);
    for (int i = 0; i < n; ++i) { if (i) VF_ASSERT_MSG(v[(size_t)i - 1] <= v[(size_t)i], "the result is ordered"); int c1 = 0, c2 = 0; for (int j = 0; j < n; ++j) { c1 += (in[j] == in[i]); c2 += (v[(size_t)j] == in[i]); } VF_ASSERT_MSG(c1 == c2, "the result is a permutation"); }
    __vf_reach("done");
}
// longer inputs in many shapes, one key free at a chosen place
static int shaped(int shape, int i, int n) {
    switch (shape) { case 0: return 4 * i; case 1: return -4 * i; case 2: return 8; case 3: return 4 * (i % 5); case 4: return 4 * (i < n / 2 ? i : n - i); case 5: return 4 * ((i * 37) % n); case 6: return i % 2 ? 4 * i : -4 * i; case 7: return i == n - 1 ? -4 : 4 * i; default: return i == 0 ? 4 * n : 4 * i; }
}
template <class F, class C> static void big(const F& srt, const C& c, bool stable) {
    static const int lens[] = {8, 16, 17, 24, 33, 65}; int n = lens[vf::pick("len", 0, __vf_param("lens", 5))], shape = vf::pick("shape", 0, 8); int w = vf::pick("where", 0, 2), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
    Vector<K> v; for (int i = 0; i < n; ++i) { int k = i == at ? vf::sym<int>("x") : shaped(shape, i, n); keys[i] = k; v.push_back(K{k, i}); }
    srt(v); check(v, n, c, stable);
}
VF_ENTRY(sort_big_quick) { big([](Vector<K>& v) { quicksort(v); }, lt, false); }
VF_ENTRY(sort_big_heap) { big([](Vector<K>& v) { heapsort(v); }, lt, false); }
VF_ENTRY(sort_big_intro) { big([](Vector<K>& v) { size_trosort(v); }, lt, false); }
VF_ENTRY(sort_big_unstable) { big([](Vector<K>& v) { sort_unstable(v); }, lt, false); }
VF_ENTRY(sort_big_unstable_by) { big([](Vector<K>& v) { sort_unstable_by(v, gt); }, gt, false); }
VF_ENTRY(sort_big_merge) { big([](Vector<K>& v) { merge_sort_by(v, 0, v.size() - 1, lt); }, lt, false); }
VF_ENTRY(sort_big_insertion) { big([](Vector<K>& v) { insertion_sort(v); }, lt, true); }
VF_ENTRY(sort_big_tim) { big([](Vector<K>& v) { timsort_by(v, gt); }, gt, true); }
// part of a longer vector
VF_ENTRY(sort_big_range) {
    static const int lens[] = {17, 40}; int n = lens[vf::pick("len", 0, 1)], shape = vf::pick("shape", 0, 8), a = vf::pick("a", 0, 2) * (n / 4), b = n - 1 - vf::pick("b", 0, 2) * (n / 5); bool q = vf::pick("q", 0, 1) != 0; int at = vf::pick("where", 0, 1) ? a : (a + b) / 2;
    Vector<K> v; for (int i = 0; i < n; ++i) { int k = i == at ? vf::sym<int>("x") : shaped(shape, i, n); keys[i] = k; v.push_back(K{k, i}); }
    if (q) quicksort_by(v, (size_t)a, (size_t)b, lt); else merge_sort_by(v, (size_t)a, (size_t)b, lt);
    bool seen[MAXN]; for (int i = 0; i < n; ++i) seen[i] = false;
    for (int i = 0; i < n; ++i) { int id = v[(size_t)i].id; if (i < a || i > b) VF_ASSERT_MSG(id == i, "elements outside the range stay"); else { VF_ASSERT_MSG(id >= a && id <= b && !seen[id], "the range keeps its elements"); seen[id] = true; VF_ASSERT(v[(size_t)i].key == keys[id]); if (i > a) { bool g = lt(v[(size_t)i], v[(size_t)i - 1]); VF_ASSERT_MSG(!g, "the range is ordered"); } } }
    __vf_reach("done");
}
// more than two merges: lengths beyond 128
VF_ENTRY(sort_many_runs) {
    static const int lens[] = {127, 128, 129, 160, 161, 193, 200}; int n = lens[vf::pick("len", 0, 6)], shape = vf::pick("shape", 0, 2); int w = vf::pick("where", 0, 3), at = w == 0 ? 0 : w == 1 ? 128 : w == 2 ? 95 : n - 1; if (at >= n) at = n - 1; bool by = vf::pick("by", 0, 1) != 0;
    Vector<K> v; for (int i = 0; i < n; ++i) { int k = i == at ? vf::range("x", -1, 33) : shape == 0 ? 4 * ((i / 16) % 3) : shape == 1 ? 4 * (7 - i / 32) : 4 * (i % 8); if (i == at && by) k = 30 - k; keys[i] = k; v.push_back(K{k, i}); }
    if (by) { sort_by(v, gt); check(v, n, gt, true); } else { efp::sort(v); check(v, n, lt, true); }
}
// several free keys: lengths around one run, keys from a small set with every order of the free ones
VF_ENTRY(sort_mid) {
    int n = vf::pick("n", 6, __vf_param("n", 9)), how = vf::pick("how", 0, 4), s = vf::pick("shift", 0, 2); Vector<K> v; for (int i = 0; i < n; ++i) { int k = (i + s) % 3 == 0 ? vf::range("x", 0, 9) : 3 * (i % 4); keys[i] = k; v.push_back(K{k, i}); }
    if (how == 0) efp::sort(v); else if (how == 1) sort_unstable(v); else if (how == 2) heapsort(v); else if (how == 3) quicksort(v); else merge_sort_by(v, 0, (size_t)n - 1, lt); check(v, n, lt, how == 0);
}
// several hundred elements
VF_ENTRY(sort_huge) {
    static const int lens[] = {257, 300}; int n = lens[vf::pick("len", 0, 1)], shape = vf::pick("shape", 0, 1), at = n - 1 - 150 * vf::pick("where", 0, 1), how = vf::pick("how", __vf_param("lo", 0), __vf_param("hi", 4)); Vector<K> v;
    for (int i = 0; i < n; ++i) { int k = i == at ? vf::range("x", -1, 4 * n) : shape == 0 ? 4 * ((i * 149) % n) : 4 * ((n - i) / 40); keys[i] = k; v.push_back(K{k, i}); }
    if (how == 0) efp::sort(v); else if (how == 1) sort_unstable(v); else if (how == 2) heapsort(v); else if (how == 3) quicksort(v); else merge_sort_by(v, 0, (size_t)n - 1, lt); check(v, n, lt, how == 0); }
