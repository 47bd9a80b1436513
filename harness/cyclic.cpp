// Cyclic buffers: Vcb is the window of the last n pushed values, Vcq a bounded FIFO dropping the oldest.
#include "efp.hpp"
#include "model.h"
using namespace efp; using vf::Tr;
static const int CAP = 64;
typedef Model<CAP> M;

template <class V> static void same(V& s, const M& m) {
    const V& c = s;
    VF_ASSERT_MSG((int)c.size() == m.n && (int)efp::length(c) == m.n, "size() equals the model's length");
    VF_ASSERT_MSG(c.end() - c.begin() == m.n && s.end() - s.begin() == m.n, "begin()/end() span the length");
    VF_ASSERT_MSG(c.empty() == (m.n == 0), "empty() agrees with the length");
    VF_ASSERT(c.data() == c.begin() && efp::data(c) == c.begin() && s.data() == s.begin() && efp::data(s) == s.begin() && (int)efp::length(s) == m.n);
    int k = 0;
    for (const auto& e : c) { VF_ASSERT_MSG(vf::val(e) == m.v[k], "iteration yields the elements oldest first"); ++k; }
    VF_ASSERT(k == m.n);
    k = 0; for (auto& e : s) { VF_ASSERT_MSG(vf::val(e) == m.v[k], "iteration yields the elements oldest first"); ++k; }
    for (int i = 0; i < m.n; ++i) {
        VF_ASSERT_MSG(vf::val(c[(size_t)i]) == m.v[i], "operator[] yields the i-th oldest"); VF_ASSERT(vf::val(s[(size_t)i]) == m.v[i]);
        VF_ASSERT_MSG(vf::val(nth((size_t)i, c)) == m.v[i] && vf::val(nth((size_t)i, s)) == m.v[i], "nth yields the i-th oldest"); VF_ASSERT_MSG(vf::val(c.data()[i]) == m.v[i], "data() is contiguous");
        vf::obs((uint32_t)vf::val(c[(size_t)i]));
    }
}
static void wpush(M& m, int x) { m.erase(0); m.push(x); }

// ---- Vcb
template <class E, size_t N> static void vcb_push_all() {
    {
        Vcb<E, N> s; M m; m.resize((int)N); same(s, m);
        int k = vf::range("pushes", 0, __vf_param("k", 8));
        for (int i = 0; i < k; ++i) { int x = vf::sym<int>("x"); s.push_back(E(x)); wpush(m, x); }
        same(s, m);
        int own = vf::pick("own", 0, N < 3 ? (int)N : 3); if (own) { int i = own == 3 ? (int)N - 1 : own - 1; int x = m.v[i]; s.push_back(s[(size_t)i]); wpush(m, x); same(s, m); const Vcb<E, N>& c = s; x = m.v[0]; s.push_back(*c.begin()); wpush(m, x); same(s, m); }   // its own elements
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once");
    __vf_reach("done");
}
VF_ENTRY(vcb1) { vcb_push_all<Tr, 1>(); }
VF_ENTRY(vcb2) { vcb_push_all<Tr, 2>(); }
VF_ENTRY(vcb3) { vcb_push_all<Tr, 3>(); }
VF_ENTRY(vcb5) { vcb_push_all<int, 5>(); }
VF_ENTRY(vcb16) { vcb_push_all<int, 16>(); }

template <class E, size_t N> static void vcb_values() {
    {
        Vcb<E, N> a; M ma; ma.resize((int)N);
        int ka = vf::pick("ka", 0, 2 * (int)N); for (int i = 0; i < ka; ++i) { int x = vf::sym<int>("x"); a.push_back(E(x)); wpush(ma, x); }
        int how = vf::pick("how", 0, 5);
        Vcb<E, N> b; M mb; mb.resize((int)N);
        int kb = how == 1 || how == 3 ? vf::pick("kb", 0, 2 * (int)N - 1) : 0; for (int i = 0; i < kb; ++i) { int x = vf::sym<int>("y"); b.push_back(E(x)); wpush(mb, x); }
        if (how == 0) { Vcb<E, N> c(a); M mc = ma; same(c, mc); same(a, ma); int x = vf::sym<int>("z"); c.push_back(E(x)); wpush(mc, x); same(c, mc); same(a, ma); int y = vf::sym<int>("z"); a.push_back(E(y)); wpush(ma, y); a.push_back(E(x)); wpush(ma, x); same(c, mc); same(a, ma); }
        else if (how == 1) { auto& r = (b = a); VF_ASSERT(&r == &b); mb = ma; same(b, mb); same(a, ma); for (int i = 0; i < 3; ++i) { int x = vf::sym<int>("z"); b.push_back(E(x)); wpush(mb, x); same(b, mb); same(a, ma); } }
        else if (how == 2) { Vcb<E, N> c(efp::move(a)); same(c, ma); for (int i = 0; i < 3; ++i) { int x = vf::sym<int>("z"); c.push_back(E(x)); wpush(ma, x); same(c, ma); } a = c; same(a, ma); }
        else if (how == 3) { auto&& r = (b = efp::move(a)); VF_ASSERT_MSG(&r == &b, "assignment yields the assigned object"); same(b, ma); for (int i = 0; i < 3; ++i) { int x = vf::sym<int>("z"); b.push_back(E(x)); wpush(ma, x); same(b, ma); } }
        else if (how == 4) { auto& r = a; a = r; same(a, ma); a = efp::move(r); same(a, ma); int x = vf::sym<int>("z"); a.push_back(E(x)); wpush(ma, x); same(a, ma); }
        else { int i = vf::pick("i", 0, (int)N - 1); int x = ma.v[i]; a.push_back(a[(size_t)i]); wpush(ma, x); same(a, ma); }  // one of its own elements
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once");
    __vf_reach("done");
}
VF_ENTRY(vcb_values_tr) { vcb_values<Tr, 3>(); }
VF_ENTRY(vcb_values1_tr) { vcb_values<Tr, 1>(); }
VF_ENTRY(vcb_values_int) { vcb_values<int, 2>(); }

// ---- Vcq
template <class E, size_t N> static void vcq_step(Vcq<E, N>& s, M& m) {
    int op = vf::pick("op", 0, 2);
    if (op == 0) { int x = vf::sym<int>("x"); const E e(x); s.push_back(e); VF_ASSERT(vf::val(e) == x); if (m.n == (int)N) m.erase(0); m.push(x); }
    else if (op == 1) { if (m.n == 0) return; E e(s.pop_front()); VF_ASSERT_MSG(vf::val(e) == m.v[0], "pop_front yields the oldest element"); m.erase(0); }
    else { if (m.n == 0) return; int i = vf::pick("i", 0, m.n - 1); int x = m.v[i]; s.push_back(s[(size_t)i]); if (m.n == (int)N) m.erase(0); m.push(x); }
}
template <class E, size_t N> static void vcq_history() {
    {
        Vcq<E, N> s; M m; same(s, m);
        int w = vf::pick("phase", 0, (int)N);  // rotate the ring first
        for (int i = 0; i < w; ++i) { s.push_back(E(i)); E e(s.pop_front()); VF_ASSERT(vf::val(e) == i); }
        int n0 = vf::pick("n0", 0, (int)N + 1); for (int i = 0; i < n0; ++i) { int x = vf::sym<int>("x"); s.push_back(E(x)); if (m.n == (int)N) m.erase(0); m.push(x); }
        int k = __vf_param("k", 4);
        for (int i = 0; i < k; ++i) vcq_step(s, m);
        same(s, m);
        while (m.n) { E e(s.pop_front()); VF_ASSERT_MSG(vf::val(e) == m.v[0], "pop_front yields the oldest element"); m.erase(0); }
        VF_ASSERT(s.empty());
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once");
    __vf_reach("done");
}
VF_ENTRY(vcq1) { vcq_history<Tr, 1>(); }
VF_ENTRY(vcq2) { vcq_history<Tr, 2>(); }
VF_ENTRY(vcq3) { vcq_history<Tr, 3>(); }
VF_ENTRY(vcq4) { vcq_history<int, 4>(); }
VF_ENTRY(vcq12) { vcq_history<int, 12>(); }

template <class E, size_t N> static void vcq_fill(Vcq<E, N>& s, M& m, int phase, int n) {
    for (int i = 0; i < phase; ++i) { s.push_back(E(100 + i)); s.pop_front(); }
    for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); s.push_back(E(x)); if (m.n == (int)N) m.erase(0); m.push(x); }
}
template <class E, size_t N> static void vcq_go_on(Vcq<E, N>& s, M& m) {  // keep using it
    for (int i = 0; i < 2; ++i) { int x = vf::sym<int>("z"); s.push_back(E(x)); if (m.n == (int)N) m.erase(0); m.push(x); same(s, m); }
    E e(s.pop_front()); VF_ASSERT_MSG(vf::val(e) == m.v[0], "pop_front yields the oldest element"); m.erase(0); same(s, m);
}
template <class E, size_t N> static void vcq_values() {
    {
        Vcq<E, N> a, b; M ma, mb;
        vcq_fill(a, ma, vf::pick("pa", 0, (int)N - 1), vf::pick("na", 0, (int)N + 1));
        int how = vf::pick("how", 0, 4);
        if (how == 1 || how == 3) vcq_fill(b, mb, vf::pick("pb", 0, (int)N - 1), vf::pick("nb", 0, (int)N));
        if (how == 0) { Vcq<E, N> c(a); M mc = ma; same(c, mc); same(a, ma); vcq_go_on(c, mc); same(a, ma); vcq_go_on(a, ma); same(c, mc); }
        else if (how == 1) { auto& r = (b = a); VF_ASSERT(&r == &b); mb = ma; same(b, mb); same(a, ma); vcq_go_on(b, mb); same(a, ma); vcq_go_on(a, ma); same(b, mb); }
        else if (how == 2) { Vcq<E, N> c(efp::move(a)); M mc = ma; same(c, mc); vcq_go_on(c, mc); a = c; same(a, mc); vcq_go_on(a, mc); }
        else if (how == 3) { auto& r = (b = efp::move(a)); VF_ASSERT(&r == &b); same(b, ma); vcq_go_on(b, ma); a = b; same(a, ma); }
        else { auto& r = a; a = r; same(a, ma); a = efp::move(r); same(a, ma); vcq_go_on(a, ma); }
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once");
    __vf_reach("done");
}
VF_ENTRY(vcq_values_tr) { vcq_values<Tr, 3>(); }
VF_ENTRY(vcq_values1_tr) { vcq_values<Tr, 1>(); }
VF_ENTRY(vcq_values_int) { vcq_values<int, 2>(); }

// A value written through the index operator is the element's value from then on.
VF_ENTRY(vcb_write_through) {
    Vcb<int, 3> s; M m; m.resize(3);
    int k = vf::pick("k", 0, 3); for (int i = 0; i < k; ++i) { int x = vf::sym<int>("x"); s.push_back(x); wpush(m, x); }
    int i = vf::pick("i", 0, 2); int y = vf::sym<int>("y"); s[(size_t)i] = y; m.v[i] = y;
    same(s, m);
    int p = vf::pick("p", 0, 2); for (int j = 0; j < p; ++j) { int x = vf::sym<int>("z"); s.push_back(x); wpush(m, x); }
    for (int j = 0; j < 3; ++j) VF_ASSERT_MSG(s[(size_t)j] == m.v[j], "a value written through [] survives later pushes");
    __vf_reach("done");
}
VF_ENTRY(vcq_write_through) {
    Vcq<int, 3> s; M m;
    for (int i = 0; i < 4; ++i) { int x = vf::sym<int>("x"); s.push_back(x); if (m.n == 3) m.erase(0); m.push(x); }
    int i = vf::pick("i", 0, 2); int y = vf::sym<int>("y"); s[(size_t)i] = y; m.v[i] = y;
    same(s, m);
    while (m.n) { VF_ASSERT_MSG(s.pop_front() == m.v[0], "a value written through [] survives until it is popped"); m.erase(0); }
    __vf_reach("done");
}
