// Enum with many alternatives: every switch width, every tag.
#include "efp.hpp"
#include "model.h"
using namespace efp; using vf::Tr;
template <int K> struct P { int v; bool operator==(const P& o) const { return v == o.v; } };
// large alternative counts: every switch width, every tag
template <class...> struct L {};
template <int N, class... As> struct Gen : Gen<N - 1, P<N - 1>, As...> {};
template <class... As> struct Gen<0, As...> { typedef Enum<As...> type; };
template <int N, int I> struct Try {
    typedef typename Gen<N>::type Ty;
    static void run(int k, int x) {
        if (k != I) { Try<N, I - 1>::run(k, x); return; }
        P<I> p; p.v = x; const Ty e(p); Ty f(e); Ty g; g = f; Ty h(efp::move(f));
        VF_ASSERT_MSG((int)e.index() == I && (int)g.index() == I && (int)h.index() == I, "index() names the alternative stored");
        VF_ASSERT_MSG(e.template get<P<I>>().v == x && g.template get<I>().v == x && h.template get<I>().v == x, "the stored value is returned");
        bool t = false; try { (void)e.template get<(I + 1) % N>(); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (N > 1));
        VF_ASSERT(e == g && !(e != h)); P<I> q; q.v = vf::sym<int>("q"); VF_ASSERT((Ty(q) == e) == (q.v == x));
        P<(I + 1) % N> w; w.v = x; if (N > 1) VF_ASSERT_MSG(!(Ty(w) == e) && Ty(w) != e, "different alternatives are never equal");
        VF_ASSERT_MSG(e.match([](const P<I>& a) { return a.v; }, []() { return -1; }) == x, "match runs the branch of the held alternative");
        VF_ASSERT_MSG((N == 1) || e.match([](const P<(I + 1) % N>&) { return 1; }, []() { return 2; }) == 2, "match falls back to the wild card");
    }
};
template <int N> struct Try<N, -1> { static void run(int, int) {} };
template <int N> static void wide() { int k = vf::pick("k", 0, N - 1); int x = vf::sym<int>("x"); Try<N, N - 1>::run(k, x); __vf_reach("done"); }
VF_ENTRY(enum_wide2) { wide<2>(); }
VF_ENTRY(enum_wide3) { wide<3>(); }
VF_ENTRY(enum_wide1) { wide<1>(); }
VF_ENTRY(enum_wide4) { wide<4>(); }
VF_ENTRY(enum_wide7) { wide<7>(); }
VF_ENTRY(enum_wide9) { wide<9>(); }
VF_ENTRY(enum_wide17) { wide<17>(); }
#if defined(WIDE) || defined(WIDER)
// wider switches, chosen tags: compile time grows quadratically
template <int N, int I> struct One {
    typedef typename Gen<N>::type Ty;
    static void run(int x) {
        P<I> p; p.v = x; const Ty e(p); Ty f(e); Ty g; g = f; Ty h(efp::move(f));
        VF_ASSERT_MSG((int)e.index() == I && (int)g.index() == I && (int)h.index() == I, "index() names the alternative stored");
        VF_ASSERT_MSG(e.template get<P<I>>().v == x && g.template get<I>().v == x && h.template get<I>().v == x, "the stored value is returned");
        bool t = false; try { (void)e.template get<(I + 1) % N>(); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t);
        VF_ASSERT(e == g && !(e != h)); P<I> q; q.v = vf::sym<int>("q"); VF_ASSERT((Ty(q) == e) == (q.v == x));
        VF_ASSERT_MSG(e.match([](const P<I>& a) { return a.v; }, []() { return -1; }) == x, "match runs the branch of the held alternative");
        VF_ASSERT_MSG(e.match([](const P<(I + 1) % N>&) { return 1; }, []() { return 2; }) == 2, "match falls back to the wild card");
    }
};
#ifdef WIDE
VF_ENTRY(enum_wide33) { int x = vf::sym<int>("x"); switch (vf::pick("k", 0, 4)) { case 0: One<33, 0>::run(x); break; case 1: One<33, 15>::run(x); break; case 2: One<33, 16>::run(x); break; case 3: One<33, 31>::run(x); break; default: One<33, 32>::run(x); } __vf_reach("done"); }
VF_ENTRY(enum_wide66) { int x = vf::sym<int>("x"); switch (vf::pick("k", 0, 4)) { case 0: One<66, 0>::run(x); break; case 1: One<66, 31>::run(x); break; case 2: One<66, 63>::run(x); break; case 3: One<66, 64>::run(x); break; default: One<66, 65>::run(x); } __vf_reach("done"); }
VF_ENTRY(enum_wide128) { int x = vf::sym<int>("x"); switch (vf::pick("k", 0, 2)) { case 0: One<128, 1>::run(x); break; case 1: One<128, 90>::run(x); break; default: One<128, 127>::run(x); } __vf_reach("done"); }
#endif
#ifdef WIDER
VF_ENTRY(enum_wide129) { int x = vf::sym<int>("x"); switch (vf::pick("k", 0, 1)) { case 0: One<129, 0>::run(x); break; default: One<129, 128>::run(x); } __vf_reach("done"); }
VF_ENTRY(enum_wide255) { int x = vf::sym<int>("x"); switch (vf::pick("k", 0, 1)) { case 0: One<255, 127>::run(x); break; default: One<255, 254>::run(x); } __vf_reach("done"); }
#endif
#endif
