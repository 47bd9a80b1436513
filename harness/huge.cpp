// Sequences of several hundred elements (beyond what eight bits count): one operation at every
// interesting position, around one free value.
#include "efp.hpp"
#include "model.h"
#include "efp/numeric.hpp"
#include <string>
using namespace efp; using vf::Tr;
typedef Model<720> M;
static const int N = 300;
static int value(int i, int x, int at) { return i == at ? x : (i * 7919 + 13) % 1009; }
static const int posns[] = {0, 1, 127, 128, 254, 255, 256, 257, 298, 299};
static int posn(const char* nm) { return posns[vf::pick(nm, 0, 9)]; }

template <class V> static void list_ops() {
    {
        typedef typename V::Element E; int x = vf::sym<int>("x"), y = vf::sym<int>("y"), at = posn("at"); V s; M m; for (int i = 0; i < N; ++i) { int q = value(i, x, at); s.push_back(E(q)); m.push(q); }
        int how = vf::pick("how", 0, 7);
        if (how == 0) { s.insert((size_t)at, E(y)); m.insert(at, y); }
        else if (how == 1) { s.erase((size_t)at); m.erase(at); }
        else if (how == 2) { s.resize((size_t)at); m.resize(at); s.push_back(E(y)); m.push(y); }
        else if (how == 3) { s.resize(310); m.resize(310); s.pop_back(); m.pop(); const int top = IsStaticCapacity<V>::value ? 320 : 600; for (int i = 309; i < top; ++i) { s.push_back(E(i)); m.push(i); } }
        else if (how == 4) { V t(s); agree(t, m); t[(size_t)at] = E(y); VF_ASSERT_MSG((s == t) == (x == y), "== is element-wise equality"); s = t; m.v[at] = y; }
        else if (how == 5) { V t; t.push_back(E(y)); t = efp::move(s); agree(t, m); s = t; }
        else if (how == 6) { while ((int)s.size() > at) s.pop_back(); m.n = at; }
        else { s.clear(); m.clear(); for (int i = 0; i < N; ++i) { s.push_back(E(i)); m.push(i); } s.reserve(IsStaticCapacity<V>::value ? 320 : s.capacity() + 1); }
        agree(s, m);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(huge_vector) { list_ops<Vector<Tr>>(); }
VF_ENTRY(huge_arrvec) { list_ops<ArrVec<Tr, 321>>(); }
VF_ENTRY(huge_array) {
    int x = vf::sym<int>("x"), y = vf::sym<int>("y"), at = posn("at"); Array<int, N> a; M m; for (int i = 0; i < N; ++i) { a[(size_t)i] = value(i, x, at); m.push(value(i, x, at)); } agree(a, m);
    Array<int, N> b(a); agree(b, m); b[(size_t)at] = y; VF_ASSERT_MSG((a == b) == (x == y), "== is element-wise equality"); a = b; m.v[at] = y; agree(a, m); Vector<int> v(a); agree(v, m); __vf_reach("done");
}
static const int pushes[] = {0, 1, 255, 256, 257, 299, 300, 301, 556, 599, 600, 601, 700};
VF_ENTRY(huge_vcb) {
    Vcb<int, N> s; int k = pushes[vf::pick("pushes", 0, 12)], at = vf::pick("free", 0, 3), x = vf::sym<int>("x"); int p = at == 0 ? k - 1 : at == 1 ? k - N : at == 2 ? k - 45 : k - 256; static int v[1100]; for (int i = 0; i < 1100; ++i) v[i] = 0;
    for (int i = 0; i < k; ++i) { int q = i == p ? x : i + 5; s.push_back(q); v[N + i] = q; }
    const Vcb<int, N>& c = s; VF_ASSERT(c.size() == (size_t)N && c.end() - c.begin() == N); for (int i = 0; i < N; ++i) VF_ASSERT_MSG(c[(size_t)i] == v[k + i] && c.data()[i] == v[k + i], "the window holds the last pushed elements, oldest first");
    Vcb<int, N> d(s); d.push_back(x); VF_ASSERT(d[N - 1] == x && d[0] == v[k + 1] && s[0] == v[k] && s[N - 1] == v[k + N - 1]); __vf_reach("done");
}
VF_ENTRY(huge_vcq) {
    Vcq<int, N> s; int k = pushes[vf::pick("pushes", 0, 12)], at = vf::pick("free", 0, 3), x = vf::sym<int>("x"); int p = at == 0 ? k - 1 : at == 1 ? k - N : at == 2 ? k - 45 : k - 256; M m; int ph = vf::pick("phase", 0, 1) * 257; for (int i = 0; i < ph; ++i) { s.push_back(i); VF_ASSERT(s.pop_front() == i); }
    for (int i = 0; i < k; ++i) { int q = i == p ? x : i + 5; s.push_back(q); m.push(q); }
    int first = k > N ? k - N : 0, n = k - first; VF_ASSERT_MSG((int)s.size() == n && s.end() - s.begin() == n && s.empty() == (n == 0), "the length is the number of stored elements"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(s[(size_t)i] == m.v[first + i], "the oldest element is dropped when full");
    Vcq<int, N> d(s); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(s.pop_front() == m.v[first + i], "elements leave in order"); VF_ASSERT(s.empty() && (int)d.size() == n); s = d; VF_ASSERT((int)s.size() == n && (n == 0 || s[(size_t)(n - 1)] == m.v[k - 1])); __vf_reach("done");
}
// copies, moves and destruction of large rings, elements with checked lifetimes
template <class R, bool QUEUE> static void ring_copies() {
    {
        int x = vf::sym<int>("x"), k = pushes[vf::pick("pushes", 0, 12)]; static int v[1100]; for (int i = 0; i < 1100; ++i) v[i] = 0;
        R s; for (int i = 0; i < k; ++i) { int q = i == k - 256 || i == k - 1 ? x : i + 5; s.push_back(Tr(q)); v[N + i] = q; }
        int n = QUEUE && k < N ? k : N, first = N + k - n; auto is = [&](const R& r) { VF_ASSERT_MSG((int)r.size() == n, "a copy has the source's elements"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(r[(size_t)i].get() == v[first + i], "a copy has the source's elements"); };
        R t; int tk = vf::pick("target", 0, 2) * 170; for (int i = 0; i < tk; ++i) t.push_back(Tr(-i));
        switch (vf::pick("how", 0, 3)) { case 0: t = s; is(t); is(s); break; case 1: { R c(s); is(c); is(s); t = efp::move(c); is(t); break; } case 2: t = efp::move(s); is(t); s = t; is(s); break; default: { R c(efp::move(s)); is(c); t = c; is(t); s = c; is(s); } }
        t.push_back(Tr(x)); VF_ASSERT(t[t.size() - 1].get() == x); is(s);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(huge_vcb_tr) { ring_copies<Vcb<Tr, N>, false>(); }
VF_ENTRY(huge_vcq_tr) { ring_copies<Vcq<Tr, N>, true>(); }
template <class C> static void string_ops() {
    C x = vf::sym<C>("x"), y = vf::sym<C>("y"); int at = posn("at"); __vf_assume(x != C(0) && y != C(0)); static C raw[N + 1]; Vector<C> s; for (int i = 0; i < N; ++i) { raw[i] = i == at ? x : C('a' + i % 26); s.push_back(raw[i]); } raw[N] = C(0); M m; for (int i = 0; i < N; ++i) m.push((int)raw[i]);
    auto full = [&](const Vector<C>& t) { VF_ASSERT_MSG((int)t.size() == m.n, "the string has the characters of its list"); for (int i = 0; i < m.n; ++i) VF_ASSERT_MSG((int)t[(size_t)i] == m.v[i], "the string has the characters of its list"); VF_ASSERT_MSG(t.c_str()[m.n] == C(0), "c_str() is terminated"); };
    int how = vf::pick("how", 0, 7);
    if (how == 0) { Vector<C> t((const C*)raw); VF_ASSERT_MSG(t == s && s == (const C*)raw, "equal characters compare equal"); full(t); }
    else if (how == 1) { Vector<C> t(s); t[(size_t)at] = y; VF_ASSERT_MSG((t == s) == (x == y), "== of strings is equality of their characters"); int r = s.compare(t); VF_ASSERT_MSG((r == 0) == (x == y), "compare is zero exactly for equal strings"); VectorView<C> u(s), w(t); VF_ASSERT((u == w) == (x == y)); full(s); }
    else if (how == 2) { const C ins[3] = {y, x, C(0)}; s.insert((size_t)at, ins); m.insert(at, (int)y); m.insert(at + 1, (int)x); full(s); }
    else if (how == 3) { Vector<C> t = ((const Vector<C>&)s).substr((size_t)at, 270); M e; for (int i = at; i < N && i < at + 270; ++i) e.push(m.v[i]); m = e; full(t); }
    else if (how == 4) { Vector<C> t(s); s += t; for (int i = 0; i < N; ++i) m.push(m.v[i]); full(s); s.append((size_t)at, y); for (int i = 0; i < at && i < 100; ++i) VF_ASSERT(s[(size_t)(2 * N + i)] == y); VF_ASSERT((int)s.size() == 2 * N + at); }
    else if (how == 5) { s.erase((size_t)at); m.erase(at); full(s); }
    else if (how == 6) { static C out[N]; for (int i = 0; i < N; ++i) out[i] = C(1); size_t got = s.copy(out, 280, (size_t)at); int w = N - at < 280 ? N - at : 280; VF_ASSERT_MSG((int)got == w, "copy reports how many characters it copied"); for (int i = 0; i < N; ++i) VF_ASSERT(out[i] == (i < w ? raw[at + i] : C(1))); full(s); }
    else { s.assign((size_t)(at + 1), y); VF_ASSERT((int)s.size() == at + 1 && s[0] == y && s[(size_t)at] == y && s.c_str()[at + 1] == C(0)); s.assign((const C*)raw); full(s); }
    __vf_reach("done");
}
VF_ENTRY(huge_string) { string_ops<char>(); }
VF_ENTRY(huge_u16string) { string_ops<char16_t>(); }

static void is(const Vector<int>& r, const M& m, const char* w) { VF_ASSERT_MSG((int)r.size() == m.n, w); for (int i = 0; i < m.n; ++i) VF_ASSERT_MSG(r[(size_t)i] == m.v[i], w); }
struct Src { Vector<int> s; M m; int x, at; Src() { x = vf::range("x", -100000, 100000); at = posn("at"); for (int i = 0; i < N; ++i) { s.push_back(value(i, x, at)); m.push(value(i, x, at)); } } };
VF_ENTRY(huge_hof) {
    Src q; const Vector<int>& s = q.s; const M& m = q.m; int how = vf::pick("how", 0, 8); int calls = 0;
    if (how == 0) { auto r = map([&](int v) { ++calls; return v ^ 3; }, s); M e; for (int i = 0; i < N; ++i) e.push(m.v[i] ^ 3); is(r, e, "map returns the function's results in order"); VF_ASSERT(calls == N); }
    else if (how == 1) { unsigned t = foldl([&](unsigned a, int v) { ++calls; return a * 31u + (unsigned)v; }, 7u, s), e = 7; for (int i = 0; i < N; ++i) e = e * 31u + (unsigned)m.v[i]; VF_ASSERT_MSG(t == e && calls == N, "foldl combines every element once, in order"); }
    else if (how == 2) { unsigned t = foldr([&](int v, unsigned a) { ++calls; return a * 31u + (unsigned)v; }, 7u, s), e = 7; for (int i = N; i-- > 0;) e = e * 31u + (unsigned)m.v[i]; VF_ASSERT_MSG(t == e && calls == N, "foldr combines every element once, from the right"); }
    else if (how == 3) { auto r = filter([&](int v) { VF_ASSERT_MSG(v == m.v[calls], "filter asks about the elements in order"); ++calls; return v > 500; }, s); VF_ASSERT(calls == N); M e; for (int i = 0; i < N; ++i) if (m.v[i] > 500) e.push(m.v[i]); is(r, e, "filter keeps exactly the elements that satisfy the predicate, in order"); }
    else if (how == 4) { int k = 0; for_each_with_index([&](size_t i, int v) { VF_ASSERT_MSG((int)i == k && v == m.v[k], "for_each_with_index pairs each element with its position, in order"); ++k; }, s); VF_ASSERT(k == N); }
    else if (how == 5) { int k = 0; for_index([&](size_t i) { VF_ASSERT_MSG((int)i == k, "for_index calls the function with every position in order"); ++k; }, (size_t)N + 1); VF_ASSERT(k == N + 1); k = 0; cartesian_for_index([&](size_t i, size_t j) { VF_ASSERT_MSG((int)(i * 3 + j) == k, "cartesian_for_index visits every combination in order"); ++k; }, (size_t)N, (size_t)3); VF_ASSERT(k == 3 * N); }
    else if (how == 6) { auto r = map_with_index([](size_t i, int v) { return v - (int)i; }, s); M e; for (int i = 0; i < N; ++i) e.push(m.v[i] - i); is(r, e, "map_with_index returns the function's results in order"); }
    else if (how == 7) { Vector<int> t(s), u; for (int i = 0; i < 290; ++i) u.push_back(i); for_each_mut([&](int& a, int& b) { VF_ASSERT(a == m.v[calls]); a += b; b = calls++; }, t, u); M e; for (int i = 0; i < N; ++i) e.push(i < 290 ? m.v[i] + i : m.v[i]); is(t, e, "exactly the visited elements changed"); VF_ASSERT(calls == 290); }
    else { Vector<int> t; for (int i = 0; i < 280; ++i) t.push_back(2 * i); auto r = map([](int a, int b) { return a - b; }, s, t); M e; for (int i = 0; i < 280; ++i) e.push(m.v[i] - 2 * i); is(r, e, "map stops at the shortest sequence"); }
    __vf_reach("done");
}
VF_ENTRY(huge_build) {
    Src q; const Vector<int>& s = q.s; const M& m = q.m; int how = vf::pick("how", 0, 5);
    if (how == 0) { auto r = append(s, s); M e; for (int i = 0; i < 2 * N; ++i) e.push(m.v[i % N]); is(r, e, "append puts the second sequence after the first"); }
    else if (how == 1) { auto r = from_function((size_t)N, [&](size_t i) { return (int)i ^ q.x; }); M e; for (int i = 0; i < N; ++i) e.push(i ^ q.x); is(r, e, "from_function calls the function with every position"); }
    else if (how == 2) { Vector<Vector<int>> ss; ss.push_back(s); ss.push_back(Vector<int>{q.x}); ss.push_back(s); auto r = concat(ss); M e; for (int i = 0; i < N; ++i) e.push(m.v[i]); e.push(q.x); for (int i = 0; i < N; ++i) e.push(m.v[i]); is(r, e, "concat joins the sequences in order"); }
    else if (how == 3) { Vector<Vector<int>> ss; for (int i = 0; i < N; ++i) ss.push_back(Vector<int>{m.v[i]}); auto r = intercalate(Vector<int>{-1}, ss); M e; for (int i = 0; i < N; ++i) { if (i) e.push(-1); e.push(m.v[i]); } is(r, e, "intercalate puts the separator between the sequences"); }
    else if (how == 4) { Vector<int> t; for (int i = 0; i < 20; ++i) t.push_back(i + 1); auto r = cartesian_map([](int a, int b) { return a * 32 + b; }, s, t); VF_ASSERT_MSG((int)r.size() == 20 * N, "cartesian_map has every combination"); for (int i = 0; i < 20 * N; ++i) VF_ASSERT_MSG(r[(size_t)i] == m.v[i / 20] * 32 + i % 20 + 1, "cartesian_map has every combination in order"); }
    else { Vector<int> t{1, 2}; Vector<int> out; cartesian_for_each([&](int a, int b) { out.push_back(a * b); }, s, t); M e; for (int i = 0; i < N; ++i) { e.push(m.v[i]); e.push(2 * m.v[i]); } is(out, e, "cartesian_for_each visits every combination in order"); }
    __vf_reach("done");
}
VF_ENTRY(huge_views) {
    Src q; const Vector<int>& s = q.s; int at = q.at, how = vf::pick("how", 0, 4); const int* p = s.data();
    auto names = [&](const auto& r, int a, int b, const char* w) { VF_ASSERT_MSG((int)r.size() == b - a && (a == b || r.data() == p + a), w); };
    if (how == 0) { names(take((size_t)at, s), 0, at, "take names the first elements"); names(drop((size_t)at, s), at, N, "drop names the remaining elements"); }
    else if (how == 1) { int e = posn("end"); int lo = at < e ? at : e; names(slice((size_t)at, (size_t)e, s), lo, e, "slice names the elements from start to end, within the sequence"); }
    else if (how == 2) { names(tail(s), 1, N, "tail is all but the first element"); names(init(s), 0, N - 1, "init is all but the last element"); VF_ASSERT(&head(s) == p && &last(s) == p + (N - 1)); }
    else if (how == 3) { for (int i = 0; i < N; ++i) if (i != at) q.s[(size_t)i] = 5; auto five = [](int v) { return v == 5; }; if (q.x == 5) at = N; names(take_while(five, s), 0, at, "take_while names the longest prefix that satisfies the predicate"); names(drop_while(five, s), at, N, "drop_while names what take_while leaves"); }
    else { names(take((size_t)500, s), 0, N, "take never exceeds the sequence"); names(drop((size_t)500, s), N, N, "drop never exceeds the sequence"); names(slice((size_t)at, (size_t)500, s), at, N, "slice stays within the sequence"); }
    __vf_reach("done");
}
VF_ENTRY(huge_search) {
    Src q; const Vector<int>& s = q.s; int key = 2000; for (int i = 0; i < N; ++i) if (i != q.at) q.s[(size_t)i] = i & 511; bool hit = q.x == key; auto eq = [&](int v) { return v == key; };
    VF_ASSERT_MSG(elem(key, s) == hit && find(eq, s) == hit, "elem and find are true exactly when an element matches"); auto i = elem_index(key, s); auto f = find_index(eq, s); VF_ASSERT(i.is_nothing() == !hit && f.is_nothing() == !hit); if (hit) VF_ASSERT_MSG((int)i.value() == q.at && (int)f.value() == q.at, "the first matching position is found");
    auto fs = find_indices([&](int v) { return v >= 100 && v < 2000; }, s); int k = 0; for (int j = 0; j < N; ++j) { int v = nth((size_t)j, s); if (v >= 100 && v < 2000) { VF_ASSERT_MSG((int)fs[(size_t)k] == j, "find_indices lists every matching position in order"); ++k; } } VF_ASSERT((int)fs.size() == k); auto es = elem_indices(5, s); k = 0; for (int j = 0; j < N; ++j) if (nth((size_t)j, s) == 5) { VF_ASSERT_MSG((int)es[(size_t)k] == j, "elem_indices lists every matching position in order"); ++k; } VF_ASSERT((int)es.size() == k); for (int j = 0; j < N; ++j) if (j != q.at) q.s[(size_t)j] = 9; es = elem_indices(9, s); VF_ASSERT_MSG((int)es.size() == (q.x == 9 ? N : N - 1) && (int)es[es.size() - 1] == (q.at == N - 1 && q.x != 9 ? N - 2 : N - 1) && (int)es[256] == (q.at <= 256 && q.x != 9 ? 257 : 256), "elem_indices lists every matching position in order"); __vf_reach("done");
}
VF_ENTRY(huge_reduce) {
    Src q; long long t = 0; int hi = q.m.v[0], lo = hi; for (int i = 0; i < N; ++i) { t += q.m.v[i]; hi = q.m.v[i] > hi ? q.m.v[i] : hi; lo = q.m.v[i] < lo ? q.m.v[i] : lo; }
    int how = vf::pick("how", 0, 2); if (how == 0) VF_ASSERT_MSG(sum(q.s) == (int)t, "sum adds every element once"); else if (how == 1) VF_ASSERT_MSG(max_elem(q.s) == hi, "max_elem is the largest element"); else VF_ASSERT_MSG(min_elem(q.s) == lo, "min_elem is the smallest element"); __vf_reach("done");
}
