// Containers whose elements are containers: elements that own storage and are empty after a move.
#include "efp.hpp"
#include "vf.h"
using namespace efp; using vf::Tr;
typedef Vector<Tr> In;
struct L { int n; int v[6]; L() : n(0) {} };
struct LL { L e[16]; int n; LL() : n(0) {} void push(const L& l) { L t = l; e[n++] = t; } void insert(int i, const L& l) { L t = l; for (int k = n; k > i; --k) e[k] = e[k - 1]; e[i] = t; ++n; } void erase(int i) { for (int k = i; k + 1 < n; ++k) e[k] = e[k + 1]; --n; } };
static L pickL() { L l; int n = vf::pick("len", 0, 2); for (int i = 0; i < n; ++i) l.v[l.n++] = vf::sym<int>("x"); return l; }
static In mk(const L& l) { In r; for (int i = 0; i < l.n; ++i) r.push_back(Tr(l.v[i])); return r; }
static void in(const In& r, const L& l) { VF_ASSERT_MSG((int)r.size() == l.n, "an inner sequence has the elements it was given"); for (int i = 0; i < l.n; ++i) VF_ASSERT_MSG(r[(size_t)i].get() == l.v[i], "an inner sequence has the elements it was given"); }
template <class O> static void all(const O& o, const LL& m) { VF_ASSERT_MSG((int)o.size() == m.n, "the outer sequence has every inner one"); for (int i = 0; i < m.n; ++i) in(o[(size_t)i], m.e[i]); }
template <class O> static void ops(int cap) {
    {
        O a; LL m; int n = vf::pick("n", 0, 2); for (int i = 0; i < n; ++i) { L l; l.n = i + 1; for (int j = 0; j <= i; ++j) l.v[j] = 10 * i + j; a.push_back(mk(l)); m.push(l); } O b; LL mb; { L l; l.n = 1; l.v[0] = 77; b.push_back(mk(l)); mb.push(l); }
        int k = __vf_param("k", 2);
        for (int t = 0; t < k; ++t) switch (vf::pick("op", 0, 11)) {
            case 0: if (m.n < cap) { L l = pickL(); const In x = mk(l); a.push_back(x); in(x, l); m.push(l); } break;
            case 1: if (m.n < cap) { L l = pickL(); a.push_back(mk(l)); m.push(l); } break;
            case 2: if (m.n < cap) { L l = pickL(); const In x = mk(l); int at = vf::pick("at", 0, m.n); a.insert((size_t)at, x); in(x, l); m.insert(at, l); } break;
            case 3: if (m.n) { int at = vf::pick("at", 0, m.n - 1); a.erase((size_t)at); m.erase(at); } break;
            case 4: { int to = vf::pick("to", 0, 4); a.resize((size_t)to); while (m.n > to) --m.n; while (m.n < to) m.push(L()); break; }
            case 5: if (m.n && m.n < cap) { int at = vf::pick("at", 0, m.n - 1); a.push_back(a[(size_t)at]); m.push(m.e[at]); } break;   // its own element
            case 6: if (m.n && m.n < cap) { int at = vf::pick("at", 0, m.n - 1), to = vf::pick("to", 0, m.n); L l = m.e[at]; a.insert((size_t)to, a[(size_t)at]); m.insert(to, l); } break;
            case 7: if (m.n) { int at = vf::pick("at", 0, m.n - 1), x = vf::sym<int>("x"); if (m.e[at].n < 6) { a[(size_t)at].push_back(Tr(x)); m.e[at].v[m.e[at].n++] = x; } } break;
            case 8: { O c(a); all(c, m); VF_ASSERT_MSG(c == a, "a copy equals its source"); if (m.n && m.e[0].n) { int x = vf::sym<int>("x"); c[0][0] = Tr(x); VF_ASSERT_MSG((c == a) == (x == m.e[0].v[0]), "== compares the inner elements"); all(a, m); } c.clear(); break; }
            case 9: { b = a; mb = m; break; }
            case 10: { a = efp::move(b); m = mb; b = a; break; }
            default: { O c(efp::move(a)); all(c, m); a = c; c.clear(); }
        }
        all(a, m); all(b, mb);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every inner element is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(nested_vector) { ops<Vector<In>>(8); }
VF_ENTRY(nested_arrvec) { ops<ArrVec<In, 4>>(4); }

template <class R, bool QUEUE> static void ring() {
    {
        const int N = 2; R a; LL m; if (!QUEUE) { m.push(L()); m.push(L()); } auto put = [&](R& r, LL& mm) { L l = pickL(); const In x = mk(l); r.push_back(x); in(x, l); if (mm.n == N) mm.erase(0); mm.push(l); };
        int w = vf::pick("phase", 0, 3); for (int i = 0; i < w; ++i) { L l; l.n = 1; l.v[0] = i; a.push_back(mk(l)); if (m.n == N) m.erase(0); m.push(l); } all(a, m); R b; LL mb; if (!QUEUE) { mb.push(L()); mb.push(L()); }
        int k = __vf_param("k", 2);
        for (int t = 0; t < k; ++t) switch (vf::pick("op", 0, 5)) {
            case 0: put(a, m); break;
            case 1: if (m.n) { int at = vf::pick("at", 0, m.n - 1); L l = m.e[at]; a.push_back(a[(size_t)at]); if (m.n == N) m.erase(0); m.push(l); } break;
            case 2: b = a; mb = m; put(b, mb); break;
            case 3: { R c(a); all(c, m); put(c, mb = m); all(c, mb); b = c; break; }
            case 4: { R c(efp::move(a)); all(c, m); a = c; break; }
            default: { put(b, mb); a = efp::move(b); m = mb; b = a; }
        }
        all(a, m); all(b, mb);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every inner element is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(nested_vcb) { ring<Vcb<In, 2>, false>(); }
VF_ENTRY(nested_vcq) { ring<Vcq<In, 2>, true>(); }
VF_ENTRY(nested_vcq_pop) {
    { Vcq<In, 3> q; LL m; int k = __vf_param("k", 5); for (int t = 0; t < k; ++t) { if (vf::pick("op", 0, 1) == 0) { L l; l.n = 1; l.v[0] = vf::sym<int>("x"); if (t & 1) { l.n = 2; l.v[1] = t; } q.push_back(mk(l)); if (m.n == 3) m.erase(0); m.push(l); } else if (m.n) { In r = q.pop_front(); in(r, m.e[0]); m.erase(0); } all(q, m); } }
    VF_ASSERT_MSG(__vf_live() == 0, "every inner element is destroyed exactly once"); __vf_reach("done");
}

typedef Enum<int, In, String, Maybe<Tr>> E4;
struct S4 { int k; L l; };
static E4 mk4(const S4& s) { if (s.k == 0) return E4(s.l.v[0]); if (s.k == 1) return E4(mk(s.l)); if (s.k == 2) { String t; for (int i = 0; i < s.l.n; ++i) t.push_back((char)s.l.v[i]); return E4(t); } return s.l.n ? E4(Maybe<Tr>(Tr(s.l.v[0]))) : E4(Maybe<Tr>(nothing)); }
static S4 pick4() { S4 s; s.k = vf::pick("k", 0, 3); if (s.k == 1) s.l = pickL(); else { s.l.n = s.k == 0 ? 1 : vf::pick("len", 0, 1); for (int i = 0; i < s.l.n; ++i) s.l.v[i] = s.k == 2 ? vf::range("c", 1, 120) : vf::sym<int>("x"); } return s; }
static void is4(const E4& e, const S4& s) {
    VF_ASSERT_MSG((int)e.index() == s.k, "the alternative last stored is held"); const L& l = s.l; int n = 0;
    e.match([&](int x) { ++n; VF_ASSERT(s.k == 0 && x == l.v[0]); }, [&](const In& r) { ++n; VF_ASSERT(s.k == 1); in(r, l); }, [&](const String& t) { ++n; VF_ASSERT(s.k == 2 && (int)t.size() == l.n && t.c_str()[l.n] == 0); for (int i = 0; i < l.n; ++i) VF_ASSERT_MSG(t[(size_t)i] == (char)l.v[i], "the held string has its characters"); }, [&](const Maybe<Tr>& o) { ++n; VF_ASSERT(s.k == 3 && (!o.is_nothing()) == (l.n == 1)); if (l.n) VF_ASSERT_MSG(o.value().get() == l.v[0], "the held option has its value"); });
    VF_ASSERT_MSG(n == 1, "exactly one branch runs");
}
VF_ENTRY(nested_enum) {
    {
        S4 sa = pick4(), sb = pick4(); E4 a = mk4(sa), b = mk4(sb); is4(a, sa); is4(b, sb);
        int k = __vf_param("k", 2);
        for (int t = 0; t < k; ++t) switch (vf::pick("op", 0, 6)) {
            case 0: b = a; sb = sa; break;
            case 1: { E4 c(efp::move(a)); is4(c, sa); a = efp::move(c); break; }
            case 2: { E4 c(a); b = efp::move(c); sb = sa; break; }
            case 3: if (sa.k == 1 && sa.l.n < 6) { int x = vf::sym<int>("x"); a.get<In>().push_back(Tr(x)); sa.l.v[sa.l.n++] = x; } break;
            case 4: if (sa.k == 1) { a = a.get<In>(); } else if (sa.k == 2) { a = a.get<String>(); } else if (sa.k == 3) { a = a.get<3>(); } break;   // from its own contents
            case 5: { Vector<E4> v; v.push_back(a); v.push_back(b); v.push_back(a); v.insert(0, b); v.erase(1); is4(v[0], sb); is4(v[1], sb); is4(v[2], sa); b = v[2]; sb = sa; break; }
            default: { E4& r = a; a = r; a = efp::move(r); }
        }
        is4(a, sa); is4(b, sb);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every held element is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(nested_maybe) {
    {
        typedef Maybe<In> MB; bool j = vf::pick("just", 0, 1) != 0; L l = j ? pickL() : L(); MB a = j ? MB(mk(l)) : MB(nothing), b(nothing); bool jb = false; L lb; int x = vf::sym<int>("x");
        int k = __vf_param("k", 2);
        for (int t = 0; t < k; ++t) switch (vf::pick("op", 0, 5)) {
            case 0: b = a; jb = j; lb = l; break;
            case 1: { MB c(efp::move(a)); VF_ASSERT((!c.is_nothing()) == j); if (j) in(c.value(), l); a = c; break; }
            case 2: if (j && l.n < 6) { a.get<In>().push_back(Tr(x)); l.v[l.n++] = x; } break;
            case 3: { int calls = 0; auto r = a.fmap([&](const In& v) { ++calls; in(v, l); In w(v); w.push_back(Tr(x)); return w; }); VF_ASSERT_MSG(calls == (j ? 1 : 0) && (!r.is_nothing()) == j, "mapping runs the function exactly when a value is present"); if (j && l.n < 6) { L e = l; e.v[e.n++] = x; in(r.value(), e); b = r; jb = true; lb = e; } break; }
            case 4: { auto r = a.bind([&](const In& v) -> MB { if (v.empty()) return nothing; return v; }); VF_ASSERT((!r.is_nothing()) == (j && l.n)); if (j && l.n) in(r.value(), l); break; }
            default: a = nothing; j = false; l = L();
        }
        VF_ASSERT((!a.is_nothing()) == j && (!b.is_nothing()) == jb); if (j) in(a.value(), l); if (jb) in(b.value(), lb);
        bool same = j == jb && l.n == lb.n; if (same && j) for (int i = 0; i < l.n; ++i) same = same & (l.v[i] == lb.v[i]); VF_ASSERT_MSG((a == b) == same && (b != a) == !same, "two optional values are equal exactly when both hold nothing or both hold equal values");
        Vector<MB> v; v.push_back(a); v.push_back(b); v.push_back(v[0]); VF_ASSERT(v[2].is_nothing() == !j); if (j) in(v[2].value(), l);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every held element is destroyed exactly once"); __vf_reach("done");
}

// a value of a tree is replaced by a part of its own contents, at any depth
struct Tree { Enum<int, Vector<Tree>, Tr> e; Tree() : e(0) {} explicit Tree(int x) : e(x) {} explicit Tree(const Tr& x) : e(x) {} explicit Tree(const Vector<Tree>& v) : e(v) {} bool operator==(const Tree& o) const { return e == o.e; } };
typedef Vector<Tree> Kids;
static Tree leaf(int how, int x) { return how ? Tree(Tr(x)) : Tree(x); }
static void isleaf(const Tree& t, int how, int x) { if (how) { VF_ASSERT_MSG(t.e.index() == 2, "the alternative last stored is held"); VF_ASSERT_MSG(t.e.get<Tr>().get() == x, "the value last stored is held"); } else { VF_ASSERT_MSG(t.e.index() == 0, "the alternative last stored is held"); VF_ASSERT_MSG(t.e.get<int>() == x, "the value last stored is held"); } }
static void iskids(const Kids& k, int n, int how, const int* x) { VF_ASSERT_MSG((int)k.size() == n, "the part has its own elements"); for (int i = 0; i < n; ++i) isleaf(k[(size_t)i], how, x[i]); }
VF_ENTRY(nested_tree) {
    {
        int how = vf::pick("how", 0, 1), n = vf::pick("n", 0, 3), x[3], at = vf::pick("at", 0, 1); Kids in; for (int i = 0; i < n; ++i) { x[i] = vf::sym<int>("x"); in.push_back(leaf(how, x[i])); }
        Kids mid; if (at) mid.push_back(leaf(how, 5)); mid.push_back(Tree(in)); mid.push_back(leaf(1, 6)); Tree t(mid); size_t a = (size_t)at;
        switch (vf::pick("op", 0, 7)) {
            case 0: t.e = t.e.get<Kids>()[a].e; iskids(t.e.get<Kids>(), n, how, x); break;
            case 1: t.e = efp::move(t.e.get<Kids>()[a].e); iskids(t.e.get<Kids>(), n, how, x); break;
            case 2: t = t.e.get<Kids>()[a]; iskids(t.e.get<Kids>(), n, how, x); break;
            case 3: t = efp::move(t.e.get<Kids>()[a]); iskids(t.e.get<Kids>(), n, how, x); break;
            case 4: if (n) { t.e = t.e.get<1>()[a].e.get<Kids>()[(size_t)n - 1].e; isleaf(t, how, x[n - 1]); } break;
            case 5: if (n) { if (how) t.e = t.e.get<Kids>()[a].e.get<Kids>()[0].e.get<Tr>(); else t.e = t.e.get<Kids>()[a].e.get<Kids>()[0].e.get<int>(); isleaf(t, how, x[0]); } break;
            case 6: { Tree u(t); VF_ASSERT_MSG(u == t, "a copy equals its source"); t.e = u.e.get<Kids>()[a].e; iskids(t.e.get<Kids>(), n, how, x); VF_ASSERT_MSG(!(u == t), "a value differs from its part"); u = t; iskids(u.e.get<Kids>(), n, how, x); break; }
            default: mid = efp::move(mid[a].e.get<Kids>()); iskids(mid, n, how, x); mid.push_back(leaf(1, 9)); isleaf(mid[(size_t)n], 1, 9);   // a vector takes over a vector inside its own elements
        }
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every held element is destroyed exactly once"); __vf_reach("done");
}

// elements that can also be built from a list of things built from such elements: copying one is never building from a list
struct Bag { struct Item { int w; Item(const Bag& b) : w(b.v) {} }; int v; Bag() : v(0) {} explicit Bag(int x) : v(x) {} Bag(const Bag& o) : v(o.v) {} Bag(Bag&& o) : v(o.v) { o.v = 0; } Bag& operator=(const Bag& o) { v = o.v; return *this; } Bag& operator=(Bag&& o) { int t = o.v; o.v = 0; v = t; return *this; } Bag(std::initializer_list<Item> l) : v((int)l.size() - 1000) {} bool operator==(const Bag& o) const { return v == o.v; } };
template <class O> static void bags(const O& o, const int* m, int n) { VF_ASSERT_MSG((int)length(o) == n, "every element is there"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(nth((size_t)i, o).v == m[i], "an element is a copy of what was stored"); }
static void three(int* m) { for (int i = 0; i < 3; ++i) m[i] = vf::sym<int>("x"); }
template <class O> static void bag_copies(O& a, const int* m, int n) { bags(a, m, n); O b(a); bags(b, m, n); O c; c = a; bags(c, m, n); bags(a, m, n); O d(efp::move(b)); bags(d, m, n); O e; e = efp::move(c); bags(e, m, n); b = d; bags(b, m, n); }
template <class O> static void bag_list(bool array) {
    int m[4]; three(m); const Bag x(m[0]), y(m[1]), z(m[2]);
    { O a{x, y, z}; bag_copies(a, m, 3); }
    __vf_reach("done"); (void)array;
}
template <class O> static void bag_grow() {
    int m[4]; three(m); const Bag x(m[0]), z(m[2]); O a; a.push_back(x); a.push_back(z); a.insert(1, Bag(m[1])); bag_copies(a, m, 3); a.push_back(a[0]); m[3] = m[0]; bag_copies(a, m, 4); a.erase(0); bags(a, m + 1, 3); a.pop_back(); bag_copies(a, m + 1, 2); a.resize(3); m[3] = 0; bags(a, m + 1, 3); Bag w(7); a.push_back(efp::move(w)); VF_ASSERT_MSG(a[3].v == 7, "an element is what was stored"); __vf_reach("done");
}
VF_ENTRY(bag_array) { bag_list<Array<Bag, 3>>(true); }
VF_ENTRY(bag_arrvec_list) { bag_list<ArrVec<Bag, 4>>(false); }
VF_ENTRY(bag_vector_list) { bag_list<Vector<Bag>>(false); }
VF_ENTRY(bag_arrvec) { bag_grow<ArrVec<Bag, 5>>(); }
VF_ENTRY(bag_vector) { bag_grow<Vector<Bag>>(); }
VF_ENTRY(bag_arrvec_wider) { int m[3]; three(m); ArrVec<Bag, 2> a; a.push_back(Bag(m[0])); a.push_back(Bag(m[1])); ArrVec<Bag, 4> b(a); bags(b, m, 2); b.push_back(Bag(m[2])); bags(b, m, 3); __vf_reach("done"); }
VF_ENTRY(bag_vcb) { int m[3]; three(m); Vcb<Bag, 2> a; const Bag x(m[0]); a.push_back(x); a.push_back(Bag(m[1])); bag_copies(a, m, 2); a.push_back(Bag(m[2])); bag_copies(a, m + 1, 2); a.push_back(a[0]); int w[2] = {m[2], m[1]}; bag_copies(a, w, 2); __vf_reach("done"); }
VF_ENTRY(bag_vcq) { int m[3]; three(m); Vcq<Bag, 2> a; const Bag x(m[0]); a.push_back(x); bag_copies(a, m, 1); a.push_back(Bag(m[1])); a.push_back(Bag(m[2])); bag_copies(a, m + 1, 2); Bag r(a.pop_front()); VF_ASSERT_MSG(r.v == m[1], "the oldest element is popped"); bag_copies(a, m + 2, 1); __vf_reach("done"); }
VF_ENTRY(bag_enum) {
    typedef Enum<int, Bag, Tr> E; int x = vf::sym<int>("x"), y = vf::sym<int>("y"); const Bag b(x); E a(b); auto is = [](const E& e, int v) { VF_ASSERT_MSG(e.index() == 1 && e.get<Bag>().v == v, "the stored alternative is a copy of what was stored"); };
    is(a, x); E c(a); is(c, x); E d(3); d = a; is(d, x); E f(efp::move(c)); is(f, x); c = E(Tr(1)); c = efp::move(f); is(c, x); c = Bag(y); is(c, y); c = c.get<Bag>(); is(c, y); int r = c.match([](const Bag& g) { return g.v; }, []() { return -1; }); VF_ASSERT_MSG(r == y, "matching passes the stored value");
    Maybe<Bag> p(b), q(nothing); q = p; VF_ASSERT(q.has_value() && q.value().v == x); VF_ASSERT(p.fmap([](const Bag& g) { return g; }).value().v == x); q = nothing; VF_ASSERT(!q.has_value()); __vf_reach("done");
}
