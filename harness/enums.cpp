// Enum / match / Maybe.
#include "efp.hpp"
#include "model.h"
using namespace efp; using vf::Tr;

// alternatives of different sizes, alignments and triviality; K tells the types apart
template <int K> struct T : Tr { T() {} explicit T(int x) : Tr(x) {} };
template <int K> struct P { int v; bool operator==(const P& o) const { return v == o.v; } };
struct Big { double d; int pad[3]; int v; Big() : d(0), v(0) { pad[0] = pad[1] = pad[2] = 1; } explicit Big(int x) : d(1), v(x) { pad[0] = pad[1] = pad[2] = x; } bool operator==(const Big& o) const { return v == o.v; } };
struct Small { signed char v; Small() : v(0) {} explicit Small(int x) : v((signed char)x) {} bool operator==(const Small& o) const { return v == o.v; } };

typedef Enum<T<0>, Small, T<2>, Big, int> E5;
static int norm(int k, int x) { return k == 1 ? (int)(signed char)x : x; }
struct Sp { int k; int v; };  // what the enum should hold: alternative number and value

static E5 make(int k, int x) {
    switch (k) { case 0: return E5(T<0>(x)); case 1: return E5(Small(x)); case 2: return E5(T<2>(x)); case 3: return E5(Big(x)); default: return E5(x); }
}
static void holds(E5& e, const Sp& s) {
    const E5& c = e;
    VF_ASSERT_MSG((int)c.index() == s.k, "index() names the alternative last stored");
    bool t;
#define CHK(i, TY, get_) \
    t = false; try { const TY& r = c.get<TY>(); VF_ASSERT_MSG(get_(r) == s.v, "get by type yields the stored value"); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == (s.k != i), "get by type is refused exactly for the other alternatives"); \
    t = false; try { const TY& r = c.get<i>(); VF_ASSERT_MSG(get_(r) == s.v, "get by position yields the stored value"); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == (s.k != i), "get by position is refused exactly for the other alternatives"); \
    t = false; try { TY& r = e.get<TY>(); VF_ASSERT(get_(r) == s.v); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (s.k != i)); \
    t = false; try { TY& r = e.get<i>(); VF_ASSERT(get_(r) == s.v); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (s.k != i));
#define G_TR(r) (r).get()
#define G_V(r) (int)(r).v
#define G_I(r) (r)
    CHK(0, T<0>, G_TR) CHK(1, Small, G_V) CHK(2, T<2>, G_TR) CHK(3, Big, G_V) CHK(4, int, G_I)
    int viaMatch = c.match([](const T<0>& a) { return a.get(); }, [](const Small& a) { return (int)a.v; }, [](const T<2>& a) { return a.get(); }, [](const Big& a) { return a.v; }, [](int a) { return a; });
    VF_ASSERT_MSG(viaMatch == s.v, "match passes the stored value"); vf::obs((uint32_t)viaMatch); vf::obs(c.index());
}
static Sp pickSp() { Sp s; s.k = vf::pick("k", 0, 4); int x = vf::sym<int>("x"); s.v = norm(s.k, x); return s; }

VF_ENTRY(enum_history) {
    {
        Sp sa = pickSp(), sb; E5 a = make(sa.k, sa.v); E5 b; sb.k = 0; sb.v = 0;
        holds(b, sb); holds(a, sa);
        int n = __vf_param("n", 2);
        for (int i = 0; i < n; ++i) {
            int op = vf::pick("op", 0, 8);
            switch (op) {
                case 0: { E5& r = (b = a); VF_ASSERT(&r == &b); sb = sa; break; }
                case 1: { a = b; sa = sb; break; }
                case 2: { E5 c(a); holds(c, sa); break; }
                case 3: { E5 c(efp::move(a)); holds(c, sa); VF_ASSERT((int)a.index() == sa.k); a = c; break; }
                case 4: { E5 c(a); E5& r = (b = efp::move(c)); VF_ASSERT(&r == &b); sb = sa; VF_ASSERT((int)c.index() == sa.k); break; }
                case 5: { E5& r = a; a = r; a = efp::move(r); break; }
                case 6: { Sp s = pickSp(); b = make(s.k, s.v); sb = s; break; }
                case 7: {  // assign from an alternative, also one living inside the target
                    if (sa.k == 0) a = a.get<T<0>>(); else if (sa.k == 2) a = a.get<T<2>>(); else if (sa.k == 4) a = a.get<int>(); break; }
                case 8: {  // write through the reference
                    int y = vf::sym<int>("y"); if (sa.k == 0) { a.get<0>() = T<0>(y); sa.v = y; } else if (sa.k == 4) { a.get<int>() = y; sa.v = y; } else if (sa.k == 3) { a.get<Big>().v = y; sa.v = y; } break; }
            }
        }
        holds(a, sa); holds(b, sb);
        bool eq = (a == b); VF_ASSERT_MSG(eq == (sa.k == sb.k && sa.v == sb.v), "== holds exactly for the same alternative with equal values"); VF_ASSERT((a != b) == !eq && (b == a) == eq && a == a);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every alternative constructed is destroyed exactly once");
    __vf_reach("done");
}
// taking the value out by move
VF_ENTRY(enum_moveout) {
    {
        Sp s = pickSp(); E5 a = make(s.k, s.v); bool t = false;
        try { T<2> x(a.move<T<2>>()); VF_ASSERT(x.get() == s.v); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (s.k != 2));
        t = false; try { T<0> x(a.move<0>()); VF_ASSERT(x.get() == s.v); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (s.k != 0));
        const E5& ca = a; a = make(s.k, s.v);
        t = false; try { T<2> x(ca.move<T<2>>()); VF_ASSERT(x.get() == s.v); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == (s.k != 2), "moving out of a constant value is refused exactly for the other alternatives");
        t = false; try { T<0> x(ca.move<0>()); VF_ASSERT(x.get() == s.v); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == (s.k != 0), "moving out of a constant value is refused exactly for the other alternatives");
        VF_ASSERT((int)a.index() == s.k); a = make(4, 7); VF_ASSERT(a.get<int>() == 7);
    }
    VF_ASSERT(__vf_live() == 0);
    __vf_reach("done");
}

// match: which branch, how often, on what
VF_ENTRY(match_dispatch) {
    {
        Sp s = pickSp(); const E5 a = make(s.k, s.v);
        int hits = 0, which = -1, got = 0;
        auto f0 = [&](const T<0>& x) { ++hits; which = 0; got = x.get(); };
        auto f1 = [&](const Small& x) { ++hits; which = 1; got = x.v; };
        auto f2 = [&](const T<2>& x) { ++hits; which = 2; got = x.get(); };
        auto f3 = [&](const Big& x) { ++hits; which = 3; got = x.v; };
        auto f4 = [&](int x) { ++hits; which = 4; got = x; };
        auto fw = [&]() { ++hits; which = 9; };
        a.match(f0, f1, f2, f3, f4);
        VF_ASSERT_MSG(hits == 1, "exactly one branch runs, once"); VF_ASSERT_MSG(which == s.k, "the branch of the held alternative runs"); VF_ASSERT_MSG(got == s.v, "it receives the held value");
        hits = 0; which = -1; a.match(f4, f3, f2, f1, f0); VF_ASSERT_MSG(hits == 1 && which == s.k && got == s.v, "branch order does not matter");
        hits = 0; which = -1; a.match(f0, f3, fw); VF_ASSERT_MSG(hits == 1 && which == (s.k == 0 || s.k == 3 ? s.k : 9), "the wild card takes every other alternative, and only those");
        hits = 0; which = -1; a.match(f2, fw); VF_ASSERT(hits == 1 && which == (s.k == 2 ? 2 : 9));
        hits = 0; which = -1; a.match(fw); VF_ASSERT(hits == 1 && which == 9);
        // by value
        int byv = a.match([](T<0> x) { return x.get(); }, [](Big x) { return x.v; }, []() { return 123; }); VF_ASSERT(byv == (s.k == 0 || s.k == 3 ? s.v : 123));
        // the matched object is the one stored, not a copy, when taken by reference
        const void* at = a.match([](const T<0>& x) { return (const void*)&x; }, [](const T<2>& x) { return (const void*)&x; }, []() { return (const void*)0; });
        VF_ASSERT(s.k == 0 ? at == (const void*)&a.get<0>() : s.k == 2 ? at == (const void*)&a.get<2>() : at == 0);
        Sp again; again = s; E5 c(a); holds(c, again);  // matching changed nothing
    }
    VF_ASSERT(__vf_live() == 0);
    __vf_reach("done");
}

