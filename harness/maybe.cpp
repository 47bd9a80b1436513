// Maybe.
#include "efp.hpp"
#include "model.h"
using namespace efp; using vf::Tr;
// ---- Maybe
typedef Maybe<int> MI;
static MI mk(bool h, int x) { return h ? MI(x) : MI(nothing); }
static void is(const MI& m, bool h, int x) {
    VF_ASSERT_MSG(m.has_value() == h && m.is_nothing() == !h && (bool)m == h, "presence tests agree");
    if (h) { VF_ASSERT_MSG(m.value() == x, "value() yields the contained value"); vf::obs((uint32_t)m.value()); }
    else { bool t = false; try { (void)m.value(); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t, "value() on nothing is refused"); }
    VF_ASSERT(m.match([](Nothing) { return false; }, [](int) { return true; }) == h);
}
static int cnt;
VF_ENTRY(maybe_laws) {
    bool h = vf::sym<bool>("h"), fh = vf::sym<bool>("fh"); int x = vf::sym<int>("x"); unsigned c = vf::sym<unsigned>("c"); int lim = vf::sym<int>("lim"), lim2 = vf::sym<int>("lim2");
    MI m = mk(h, x); is(m, h, x);
    MI dflt; is(dflt, false, 0);
    { int y = vf::sym<int>("y"); MI o = mk(fh, y); bool same = h == fh && (!h || x == y); VF_ASSERT_MSG((m == o) == same && (m != o) == !same && (o == m) == same && m == m && (m == nothing) == !h, "two optional values are equal exactly when both hold nothing or both hold equal values"); }
    auto f = [&](int a) { ++cnt; return (int)((unsigned)a + c); };
    auto g = [&](int a) { return (int)((unsigned)a * 3u); };
    int fx = (int)((unsigned)x + c);
    cnt = 0; is(m.fmap(f), h, fx); VF_ASSERT_MSG(cnt == (h ? 1 : 0), "the function runs once on a value, never on nothing");
    cnt = 0; is(fmap(f, m), h, fx); VF_ASSERT_MSG(cnt == (h ? 1 : 0), "the function runs once on a value, never on nothing");
    is(m, h, x);
    is(fmap([](int a) { return a; }, m), h, x);                                                   // identity
    is(fmap(g, fmap(f, m)), h, g((int)((unsigned)x + c))); is(m.fmap(f).fmap(g), h, g((int)((unsigned)x + c)));  // composition
    auto k1 = [&](int a) -> MI { if (a < lim) return MI(nothing); return MI((int)((unsigned)a + c)); };
    auto k2 = [&](int a) -> MI { if (a < lim2) return MI(nothing); return MI((int)((unsigned)a ^ c)); };
    bool b1 = h && !(x < lim); is(m.bind(k1), b1, fx); is(bind(m, k1), b1, fx); is(m >>= k1, b1, fx);
    bool b2 = b1 && !(fx < lim2); int v2 = (int)((unsigned)fx ^ c);
    is(m.bind(k1).bind(k2), b2, v2); is(m.bind([&](int a) { return k1(a).bind(k2); }), b2, v2); is((m >>= k1) >>= k2, b2, v2);   // associativity
    is(bind(pure<MI>(x), k1), !(x < lim), fx); is(bind(m, [](int a) { return pure<MI>(a); }), h, x); is(m >>= [](int a) { return MI(a); }, h, x);  // units
    is(pure<MI>(x), true, x); is(MI::pure<int>(x), true, x);
    struct Add { unsigned c; int operator()(int a) const { return (int)((unsigned)a + c); } };
    Add add = {c}; Maybe<Add> mf = fh ? Maybe<Add>(add) : Maybe<Add>(nothing);
    is(ap(mf, m), h && fh, fx); is(m.ap(mf), h && fh, fx);
    __vf_reach("done");
}
VF_ENTRY(maybe_history) {
    {
        typedef Maybe<Tr> MT; bool h = vf::sym<bool>("h"); int x = vf::sym<int>("x");
        MT a = h ? MT(Tr(x)) : MT(nothing); MT b; bool hb = false; int xb = 0;
        for (int i = 0; i < __vf_param("n", 3); ++i) {
            int op = vf::pick("op", 0, 6);
            if (op == 0) { b = a; hb = h; xb = x; } else if (op == 1) { a = b; h = hb; x = xb; }
            else if (op == 2) { a = nothing; h = false; } else if (op == 3) { int y = vf::sym<int>("y"); a = Tr(y); h = true; x = y; }
            else if (op == 4) { MT c(efp::move(a)); a = c; } else if (op == 5) { MT& r = a; a = r; }
            else if (h) { Tr t(a.move()); VF_ASSERT(t.get() == x); VF_ASSERT(a.has_value()); a = t; }
        }
        VF_ASSERT(a.has_value() == h && b.has_value() == hb);
        if (h) VF_ASSERT_MSG(a.value().get() == x, "value() yields the stored value");
        if (hb) VF_ASSERT(b.value().get() == xb);
        { const MT& ca = a; bool t = false; try { Tr y(ca.move()); VF_ASSERT(y.get() == x); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == !h, "moving the value out of nothing is refused"); a = h ? MT(Tr(x)) : MT(nothing); t = false; try { Tr y(a.move()); VF_ASSERT(y.get() == x); a = Tr(x); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == !h, "moving the value out of nothing is refused"); }
        auto r = a.fmap([](const Tr& t) { return Tr(t.get()); }); VF_ASSERT(r.has_value() == h); if (h) VF_ASSERT(r.value().get() == x);
    }
    VF_ASSERT(__vf_live() == 0);
    __vf_reach("done");
}
