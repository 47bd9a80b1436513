// Vector: every history of operations agrees with a list model; lifetimes and memory are checked
// on the way by the executor.
#include "efp.hpp"
#include "model.h"
using namespace efp; using vf::Tr;
static const int CAP = 96;
typedef Model<CAP> M;

template <class E> static int symval() { return vf::sym<int>("x"); }

// builds a vector of n symbolic elements in one of several storage states
template <class E> static void start(Vector<E>& s, M& m, int n) {
    int st = vf::pick("storage", 0, 3);
    if (st == 1) s.reserve((size_t)(n + 2));
    for (int i = 0; i < n; ++i) { int x = symval<E>(); s.push_back(E(x)); m.push(x); }
    if (st == 2) s.shrink_to_fit();
    if (st == 3) { s.push_back(E(5)); s.pop_back(); }
}

template <class E> static void step(Vector<E>& s, M& m, int maxn) {
    int op = vf::pick("op", 0, 15);
    switch (op) {
        case 0: { int x = symval<E>(); const E e(x); s.push_back(e); m.push(x); VF_ASSERT(vf::val(e) == x); break; }
        case 1: { int x = symval<E>(); s.push_back(E(x)); m.push(x); break; }
        case 2: { int x = symval<E>(); s.emplace_back(x); m.push(x); break; }
        case 3: {
            if (m.n == 0) { bool t = false; try { s.pop_back(); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t, "pop_back on an empty vector is refused"); }
            else { s.pop_back(); m.pop(); }
            break;
        }
        case 4: {  // any index whatsoever
            size_t i = vf::sym<size_t>("at"); int x = symval<E>(); E e(x); bool t = false;
            try { s.insert(i, e); } catch (const RuntimeError&) { t = true; }
            VF_ASSERT_MSG(t == (i > (size_t)m.n), "insert is refused exactly when the position is past the end");
            if (!t) m.insert((int)__vf_concretize(i), x);
            VF_ASSERT(vf::val(e) == x);
            break;
        }
        case 5: {
            size_t i = vf::sym<size_t>("at"); bool t = false;
            try { s.erase(i); } catch (const RuntimeError&) { t = true; }
            VF_ASSERT_MSG(t == (i >= (size_t)m.n), "erase is refused exactly when the position holds no element");
            if (!t) m.erase((int)__vf_concretize(i));
            break;
        }
        case 6: s.clear(); m.clear(); break;
        case 7: { int k = vf::range("to", 0, maxn); s.resize((size_t)k); m.resize((int)__vf_concretize((uint64_t)k)); break; }
        case 8: { int k = vf::range("to", 0, maxn + 3); s.reserve((size_t)k); VF_ASSERT((int)s.capacity() >= k); break; }
        case 9: s.shrink_to_fit(); break;
        case 10: { if (m.n == 0) return; int i = vf::pick("at", 0, m.n - 1); s.push_back(s[(size_t)i]); m.push(m.v[i]); break; }
        case 11: { if (m.n == 0) return; int i = vf::pick("at", 0, m.n - 1); s.emplace_back(s[(size_t)i]); m.push(m.v[i]); break; }
        case 12: { if (m.n == 0) return; int i = vf::pick("at", 0, m.n - 1), k = vf::pick("to", 0, m.n); int x = m.v[i]; s.insert((size_t)k, s[(size_t)i]); m.insert(k, x); break; }
        case 13: { if (m.n == 0) return; int i = vf::pick("at", 0, m.n - 1); int x = symval<E>(); s[(size_t)i] = E(x); m.v[i] = x; break; }
        case 14: {  // replaced by a copy of another vector
            int k = vf::pick("to", 0, maxn); Vector<E> o; M om; for (int i = 0; i < k; ++i) { int x = symval<E>(); o.push_back(E(x)); om.push(x); }
            s = o; m.assign(om); agree(o, om); break;
        }
        case 15: {  // replaced by moving from another vector
            int k = vf::pick("to", 0, maxn); Vector<E> o; M om; for (int i = 0; i < k; ++i) { int x = symval<E>(); o.push_back(E(x)); om.push(x); }
            s = efp::move(o); m.assign(om); M z; agree(o, z); break;
        }
    }
}

template <class E> static void history() {
    int n0 = vf::pick("n0", 0, __vf_param("n0", 3)), k = __vf_param("k", 2), mx = __vf_param("mx", 3);
    {
        Vector<E> s; M m;
        start(s, m, n0);
        for (int i = 0; i < k; ++i) step(s, m, mx);
        agree(s, m);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once");
    __vf_reach("done");
}
VF_ENTRY(vec_history_tr) { history<Tr>(); }
VF_ENTRY(vec_history_int) { history<int>(); }

// one operation after a long build-up, at every position
template <class E> static void longrun() {
    int n = __vf_param("n", 33);
    {
        Vector<E> s; M m;
        for (int i = 0; i < n; ++i) { int x = symval<E>(); s.push_back(E(x)); m.push(x); }
        agree(s, m);
        step(s, m, n + 2);
        agree(s, m);
    }
    VF_ASSERT(__vf_live() == 0);
    __vf_reach("done");
}
VF_ENTRY(vec_long_tr) { longrun<Tr>(); }
