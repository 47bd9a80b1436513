// Tuples, function composition and function pointers.
#include "hof.h"
#include "efp/c_utility.hpp"
using vf::Tr;
struct Small { signed char c; bool operator==(const Small& o) const { return c == o.c; } bool operator!=(const Small& o) const { return c != o.c; } };

VF_ENTRY(tuple_values) {
    int a = vf::sym<int>("a"); char b = vf::sym<char>("b"); long long c = vf::sym<long long>("c"); Small d{vf::sym<signed char>("d")}; unsigned short e = vf::sym<unsigned short>("e");
    auto t = tuple(a, b, c, d, e); const auto& k = t;
    VF_ASSERT_MSG(get<0>(t) == a && get<1>(t) == b && get<2>(t) == c && get<3>(t).c == d.c && get<4>(t) == e, "get is the component");
    VF_ASSERT_MSG(get<0>(k) == a && get<1>(k) == b && get<2>(k) == c && get<3>(k).c == d.c && get<4>(k) == e, "get of a constant tuple is the component");
    VF_ASSERT_MSG(t.get<0>() == a && t.get<4>() == e && k.get<2>() == c, "the member get is the component");
    VF_ASSERT_MSG(p<0>(t) == a && p<1>(k) == b && p<2>(t) == c && p<3>(k).c == d.c && p<4>(t) == e, "p is the component"); VF_ASSERT_MSG(fst(t) == a && fst(k) == a && snd(t) == b && snd(k) == b, "fst and snd are the first two components");
    lg.n = 0; int r = t.match([&](int x, char y, long long z, const Small& s, unsigned short u) { VF_ASSERT_MSG(x == a && y == b && z == c && s.c == d.c && u == e, "match passes the components in order"); return rec(x, y, u); }); VF_ASSERT_MSG(lg.n == 1 && r == lg.r[0], "match returns what the function returns");
    // a write goes to one component
    int w = vf::pick("write", 0, 6), x = vf::sym<int>("x"); auto o = t;
    if (w == 0) get<0>(t) = x; else if (w == 1) p<1>(t) = (char)x; else if (w == 2) t.get<2>() = x; else if (w == 3) get<3>(t).c = (signed char)x; else if (w == 4) get<4>(t) = (unsigned short)x; else if (w == 5) fst(t) = x; else snd(t) = (char)x;
    VF_ASSERT_MSG(get<0>(t) == (w == 0 || w == 5 ? x : a) && get<1>(t) == (w == 1 || w == 6 ? (char)x : b) && get<2>(t) == (w == 2 ? (long long)x : c) && get<3>(t).c == (w == 3 ? (signed char)x : d.c) && get<4>(t) == (w == 4 ? (unsigned short)x : e), "a write changes one component");
    VF_ASSERT_MSG(get<0>(o) == a && get<1>(o) == b && get<2>(o) == c && get<3>(o).c == d.c && get<4>(o) == e, "a copy is independent"); auto q = tuple(0, 'x', 0ll, Small{1}, (unsigned short)0); q = t; VF_ASSERT_MSG(q == t, "assignment copies every component"); get<0>(q) = x; get<2>(q) = 5; VF_ASSERT(get<2>(t) == (w == 2 ? (long long)x : c));
    __vf_reach("done");
}
VF_ENTRY(tuple_equal) {
    int n = vf::pick("arity", 1, 5); int a[5], b[5]; for (int i = 0; i < n; ++i) { a[i] = vf::sym<int>("a"); b[i] = vf::sym<int>("b"); }
    bool all = true; for (int i = 0; i < n; ++i) all = all & (a[i] == b[i]); bool eq, ne, sym;
    if (n == 1) { auto s = tuple(a[0]), t = tuple(b[0]); eq = s == t; ne = s != t; sym = t == s; }
    else if (n == 2) { auto s = tuple(a[0], a[1]), t = tuple(b[0], b[1]); eq = s == t; ne = s != t; sym = t == s; }
    else if (n == 3) { auto s = tuple(a[0], a[1], a[2]), t = tuple(b[0], b[1], b[2]); eq = s == t; ne = s != t; sym = t == s; }
    else if (n == 4) { auto s = tuple(tuple(a[0], a[1]), tuple(a[2], a[3])), t = tuple(tuple(b[0], b[1]), tuple(b[2], b[3])); eq = s == t; ne = s != t; sym = t == s; }
    else { auto s = tuple(a[0], (long long)a[1], tuple(a[2]), (short)a[3], a[4]), t = tuple(b[0], (long long)b[1], tuple(b[2]), (short)b[3], b[4]); all = true; for (int i = 0; i < 5; ++i) all = all & (i == 3 ? (short)a[i] == (short)b[i] : a[i] == b[i]); eq = s == t; ne = s != t; sym = t == s; }
    VF_ASSERT_MSG(eq == all, "tuples are equal exactly when all components are"); VF_ASSERT_MSG(ne == !all, "!= is the negation of =="); VF_ASSERT(sym == all);
    Tuple<> u, v; VF_ASSERT(u == v);
    { Vector<int> va{a[0]}, vb{b[0]}; if (n > 1) { va.push_back(a[1]); vb.push_back(b[1]); } if (n > 2) vb.push_back(7); bool vs = n < 3 && a[0] == b[0] && (n < 2 || a[1] == b[1]); auto s = tuple(va, a[0]), t = tuple(vb, a[0]); VF_ASSERT_MSG((s == t) == vs && (s != t) == !vs, "tuples are equal exactly when all components are"); }
    __vf_reach("done");
}
VF_ENTRY(tuple_lifetime) {
    { int x = vf::sym<int>("x"), y = vf::sym<int>("y"); Tr a(x), b(y); Tuple<Tr, int, Tr> t(a, 3, b); Tuple<Tr, int, Tr> u(t); Pair<Vector<Tr>, Tr> w{Vector<Tr>{a, b}, b}; auto z = w;
      int how = vf::pick("how", 0, 4); if (how == 0) u = Tuple<Tr, int, Tr>(b, 1, a); else if (how == 1) { Tuple<Tr, int, Tr> m(efp::move(u)); VF_ASSERT(vf::val(get<0>(m)) == x && vf::val(get<2>(m)) == y); u = m; } else if (how == 2) { z = w; fst(z).push_back(a); VF_ASSERT(fst(w).size() == 2 && fst(z).size() == 3 && vf::val(fst(z)[2]) == x); } else if (how == 3) { w = tuple(Vector<Tr>{b}, a); VF_ASSERT(fst(w).size() == 1 && vf::val(snd(w)) == x); } else { int s = u.match([](const Tr& p, int q, const Tr& r) { return p.get() == r.get() ? q : 0; }); VF_ASSERT(s == (x == y ? 3 : 0)); }
      VF_ASSERT(vf::val(get<0>(t)) == x && get<1>(t) == 3 && vf::val(get<2>(t)) == y); VF_ASSERT(vf::val(get<0>(u)) == (how == 0 ? y : x)); VF_ASSERT(vf::val(a) == x && vf::val(b) == y); VF_ASSERT(vf::val(fst(z)[0]) == x && vf::val(fst(z)[1]) == y && vf::val(snd(z)) == y); }
    VF_ASSERT_MSG(__vf_live() == 0, "components are destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(tuple_wide) {
    int v[12]; for (int i = 0; i < 12; ++i) v[i] = vf::sym<int>("v"); auto t = tuple(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
    VF_ASSERT(get<0>(t) == v[0] && get<1>(t) == v[1] && get<2>(t) == v[2] && get<3>(t) == v[3] && get<4>(t) == v[4] && get<5>(t) == v[5] && p<6>(t) == v[6] && p<7>(t) == v[7] && p<8>(t) == v[8] && p<9>(t) == v[9] && p<10>(t) == v[10] && p<11>(t) == v[11]);
    t.match([&](int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k, int l) { VF_ASSERT_MSG(a == v[0] && b == v[1] && c == v[2] && d == v[3] && e == v[4] && f == v[5] && g == v[6] && h == v[7] && i == v[8] && j == v[9] && k == v[10] && l == v[11], "match passes the components in order"); return 0; });
    auto u = t; int at = vf::pick("at", 0, 2), x = vf::sym<int>("x"); if (at == 0) get<0>(u) = x; else if (at == 1) get<6>(u) = x; else get<11>(u) = x; VF_ASSERT_MSG((u == t) == (x == v[at == 0 ? 0 : at == 1 ? 6 : 11]), "tuples are equal exactly when all components are"); __vf_reach("done");
}

// composition
static int f1(int x) { return rec(x, 0, 1); }
static long long f2(const int& x) { return rec(x, 0, 2); }
struct AddK { int k; int operator()(int x) const { return rec(x, k, 3); } };
template <class F, class G> static auto make(F f, G g) -> decltype(compose(f, g)) { return compose(f, g); }   // the functions end with this call
VF_ENTRY(compose_laws) {
    int x = vf::sym<int>("x"), k = vf::sym<int>("k"), j = vf::sym<int>("j"); lg.n = 0; int how = vf::pick("how", 0, 6);
    if (how == 0) { auto h = compose(f1, f2); VF_ASSERT_MSG(lg.n == 0, "composing calls nothing"); long long r = h(x); VF_ASSERT_MSG(lg.n == 2 && lg.a[0][0] == x && lg.a[0][2] == 2 && lg.a[1][0] == lg.r[0] && lg.a[1][2] == 1 && r == lg.r[1], "compose(f, g)(x) is f(g(x))"); }
    else if (how == 1) { auto h = make(AddK{k}, AddK{j}); int r = h(x); VF_ASSERT_MSG(lg.n == 2 && lg.a[0][0] == x && lg.a[0][1] == j && lg.a[1][0] == lg.r[0] && lg.a[1][1] == k && r == lg.r[1], "a composition owns its functions"); }
    else if (how == 2) { auto h = compose(AddK{k}, f1, AddK{j}); int r = h(x); VF_ASSERT_MSG(lg.n == 3 && lg.a[0][0] == x && lg.a[0][1] == j && lg.a[1][0] == lg.r[0] && lg.a[1][2] == 1 && lg.a[2][0] == lg.r[1] && lg.a[2][1] == k && r == lg.r[2], "three functions apply from the last to the first"); }
    else if (how == 3) { auto h = compose(f1, [k](int a, int b) { return rec(a, b, k); }); int r = h(x, j); VF_ASSERT_MSG(lg.n == 2 && lg.a[0][0] == x && lg.a[0][1] == j && lg.a[0][2] == k && lg.a[1][0] == lg.r[0] && r == lg.r[1], "the innermost function takes all arguments"); }
    else if (how == 4) { auto h = compose(compose(AddK{1}, AddK{2}), compose(AddK{3}, AddK{4})), g = h; int r = g(x); VF_ASSERT_MSG(lg.n == 4 && lg.a[0][0] == x && r == lg.r[3], "compositions compose"); for (int i = 0; i < 4; ++i) VF_ASSERT(lg.a[i][1] == 4 - i && (i == 0 || lg.a[i][0] == lg.r[i - 1])); }
    else if (how == 5) { auto h = compose(AddK{1}, AddK{2}, AddK{3}, AddK{4}, AddK{5}); int r = h(x); VF_ASSERT(lg.n == 5 && lg.a[0][0] == x && r == lg.r[4]); for (int i = 0; i < 5; ++i) VF_ASSERT_MSG(lg.a[i][1] == 5 - i && (i == 0 || lg.a[i][0] == lg.r[i - 1]), "five functions apply from the last to the first"); }
    else { Vector<int> v{x, k}; auto m = map(compose(AddK{7}, AddK{8}), v); VF_ASSERT(lg.n == 4 && lg.a[0][0] == x && lg.a[2][0] == k && m.size() == 2 && m[0] == lg.r[1] && m[1] == lg.r[3]); VF_ASSERT(id(x) == x && id(v).size() == 2 && id(v)[1] == k); }
    __vf_reach("done");
}
VF_ENTRY(compose_values) {   // values passing through keep their lifetime
    { int x = vf::sym<int>("x"); Tr k(vf::sym<int>("k")); auto h = compose([k](const Tr& t) { return Tr(t.get() ^ k.get()); }, [k](int v) { return Tr(v ^ k.get()); }); Tr r = h(x), s = h(x); VF_ASSERT_MSG(r.get() == x && s.get() == x, "compose(f, g)(x) is f(g(x))"); auto g = h; VF_ASSERT(g(x).get() == x); }
    VF_ASSERT_MSG(__vf_live() == 0, "captured values are destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(compose_owned) {   // arguments that own storage reach the innermost function as they are given
    typedef Vector<Tr> V;
    { int x = vf::sym<int>("x"), y = vf::sym<int>("y"); V a; a.push_back(Tr(x)); auto h = compose([](const V& v) { V w(v); w.push_back(Tr(7)); return w; }, [y](V v) { v.push_back(Tr(y)); return v; });
      int how = vf::pick("how", 0, 3); const V& c = a; V r = how == 0 ? h(a) : how == 1 ? h(c) : how == 2 ? h(V(a)) : h(efp::move(a));
      VF_ASSERT_MSG(r.size() == 3 && r[0].get() == x && r[1].get() == y && r[2].get() == 7, "compose(f, g)(x) is f(g(x))"); if (how != 3) VF_ASSERT_MSG(a.size() == 1 && a[0].get() == x, "an argument that is not given away stays as it is");
      V b; b.push_back(Tr(x)); auto k = compose([](int n) { return n + 1; }, [](V& v, const V& w) { v.push_back(w[0]); return (int)v.size(); }); int n = k(b, r); VF_ASSERT_MSG(n == 3 && b.size() == 2 && b[1].get() == x, "a function that takes its argument by reference gets the caller's"); }
    VF_ASSERT_MSG(__vf_live() == 0, "every element is destroyed exactly once"); __vf_reach("done");
}
// function pointers for C interfaces
template <class F, class G> static void fp(F f, G g) { auto p = func_ptr(f); auto q = func_ptr(g); int x = vf::sym<int>("x"), y = vf::sym<int>("y"); lg.n = 0; int r = p(x, y), s = q(y, x), t = p(y, y); VF_ASSERT_MSG(lg.n == 3 && r == lg.r[0] && s == lg.r[1] && t == lg.r[2], "the pointer returns what its function returns"); VF_ASSERT_MSG(lg.a[0][0] == x && lg.a[0][1] == y && lg.a[1][0] == y && lg.a[1][1] == x && lg.a[2][0] == y && lg.a[2][1] == y, "the pointer passes its arguments in order"); VF_ASSERT_MSG(lg.a[0][2] == 1 && lg.a[1][2] == 2 && lg.a[2][2] == 1, "each pointer calls its own function"); }
VF_ENTRY(func_ptr_calls) {
    int one = 1, two = 2; fp([&](int a, int b) { return rec(a, b, one); }, [&](int a, int b) { return rec(a, b, two); });
    int total = vf::sym<int>("t"), t0 = total; auto acc = [&](int& out, const Tr& v, signed char c) { total ^= v.get(); out = total + 0 * c; }; void (*p)(int&, const Tr&, signed char) = func_ptr(acc); int o = 0, n = vf::pick("n", 0, 3), w = t0; for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); p(o, Tr(x), 3); w ^= x; VF_ASSERT_MSG(o == w && total == w, "calls through the pointer reach the captured state"); } VF_ASSERT(total == w);
    { AddK k1{vf::sym<int>("k")}, k2{vf::sym<int>("k")}; int x = vf::sym<int>("x"), a1 = k1.k, a2 = k2.k; bool used = vf::pick("used", 0, 1) != 0; lg.n = 0; int (*f)(int) = func_ptr(k1); if (used) { int r = f(x); VF_ASSERT(lg.n == 1 && lg.a[0][0] == x && lg.a[0][1] == a1 && r == lg.r[0]); lg.n = 0; } int (*g)(int) = func_ptr(k2); int r = g(x); VF_ASSERT_MSG(lg.n == 1 && lg.a[0][0] == x && lg.a[0][1] == a2 && r == lg.r[0], "a pointer calls the object of its type that was converted last"); }
    auto mk = [](int x) { return Tr(x); }; Tr (*q)(int) = func_ptr(mk); int z = vf::sym<int>("z"); { Tr v = q(z); VF_ASSERT(v.get() == z); } VF_ASSERT(__vf_live() == 0); __vf_reach("done");
}
