// Array / ArrVec: list semantics inside a fixed capacity, refusal without effect beyond it.
#include "efp.hpp"
#include "model.h"
using namespace efp; using vf::Tr;
static const int CAP = 64;
typedef Model<CAP> M;

template <class E, size_t N> static void step(ArrVec<E, N>& s, M& m) {
    int op = vf::pick("op", 0, 12);
    bool t = false;
    switch (op) {
        case 0: { int x = vf::sym<int>("x"); const E e(x); try { s.push_back(e); } catch (const RuntimeError&) { t = true; }
                  VF_ASSERT_MSG(t == (m.n == (int)N), "push_back is refused exactly at full capacity"); if (!t) m.push(x); VF_ASSERT(vf::val(e) == x); break; }
        case 1: { int x = vf::sym<int>("x"); try { s.push_back(E(x)); } catch (const RuntimeError&) { t = true; }
                  VF_ASSERT_MSG(t == (m.n == (int)N), "push_back is refused exactly at full capacity"); if (!t) m.push(x); break; }
        case 2: { try { s.pop_back(); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == (m.n == 0), "pop_back is refused exactly when empty"); if (!t) m.pop(); break; }
        case 3: { size_t i = vf::sym<size_t>("at"); int x = vf::sym<int>("x"); E e(x); try { s.insert(i, e); } catch (const RuntimeError&) { t = true; }
                  VF_ASSERT_MSG(t == (i > (size_t)m.n || m.n == (int)N), "insert is refused exactly past the end or at full capacity"); if (!t) m.insert((int)__vf_concretize(i), x); VF_ASSERT(vf::val(e) == x); break; }
        case 4: { size_t i = vf::sym<size_t>("at"); try { s.erase(i); } catch (const RuntimeError&) { t = true; }
                  VF_ASSERT_MSG(t == (i >= (size_t)m.n), "erase is refused exactly when the position holds no element"); if (!t) m.erase((int)__vf_concretize(i)); break; }
        case 5: s.clear(); m.clear(); break;
        case 6: { size_t k = vf::sym<size_t>("to"); try { s.resize(k); } catch (const RuntimeError&) { t = true; }
                  VF_ASSERT_MSG(t == (k > N), "resize is refused exactly beyond the capacity"); if (!t) m.resize((int)__vf_concretize(k)); break; }
        case 7: { size_t k = vf::sym<size_t>("to"); try { s.reserve(k); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == (k > N), "reserve is refused exactly beyond the capacity"); break; }
        case 8: { if (!m.n) return; int i = vf::pick("at", 0, m.n - 1); try { s.push_back(s[(size_t)i]); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (m.n == (int)N)); if (!t) m.push(m.v[i]); break; }
        case 9: { if (!m.n) return; int i = vf::pick("at", 0, m.n - 1), k = vf::pick("to", 0, m.n); int x = m.v[i]; try { s.insert((size_t)k, s[(size_t)i]); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (m.n == (int)N)); if (!t) m.insert(k, x); break; }
        case 10: { if (!m.n) return; int i = vf::pick("at", 0, m.n - 1); int x = vf::sym<int>("x"); s[(size_t)i] = E(x); m.v[i] = x; break; }
        case 11: { int k = vf::pick("to", 0, (int)N); ArrVec<E, N> o; M om; for (int i = 0; i < k; ++i) { int x = vf::sym<int>("x"); o.push_back(E(x)); om.push(x); } s = o; m.assign(om); agree(o, om); break; }
        case 12: { int k = vf::pick("to", 0, (int)N); ArrVec<E, N> o; M om; for (int i = 0; i < k; ++i) { int x = vf::sym<int>("x"); o.push_back(E(x)); om.push(x); } s = efp::move(o); m.assign(om);
                   // whatever the source now holds, it is a valid container that can be refilled
                   o.clear(); o.push_back(E(3)); VF_ASSERT(o.size() == 1 && vf::val(o[0]) == 3); break; }
    }
}
template <class E, size_t N> static void history() {
    int n0 = vf::pick("n0", 0, (int)N), k = __vf_param("k", 2);
    {
        ArrVec<E, N> s; M m;
        for (int i = 0; i < n0; ++i) { int x = vf::sym<int>("x"); s.push_back(E(x)); m.push(x); }
        for (int i = 0; i < k; ++i) { step(s, m); VF_ASSERT(s.size() <= N); VF_ASSERT(s.capacity() == N); }
        agree(s, m);
    }
    VF_ASSERT_MSG(__vf_live() == 0, "every element constructed is destroyed exactly once");
    __vf_reach("done");
}
VF_ENTRY(arrvec_history3_tr) { history<Tr, 3>(); }
VF_ENTRY(arrvec_history1_tr) { history<Tr, 1>(); }
VF_ENTRY(arrvec_history4_int) { history<int, 4>(); }
VF_ENTRY(arrvec_long_tr) { history<Tr, 20>(); }

// Array: fixed length, all elements valid at all times
template <class E, size_t N> static void array_case() {
    {
        Array<E, N> s; M m; m.resize((int)N); agree(s, m);
        int k = __vf_param("k", 2);
        for (int r = 0; r < k; ++r) {
            int op = vf::pick("op", 0, 4); bool t = false;
            switch (op) {
                case 0: { int i = vf::pick("at", 0, (int)N - 1); int x = vf::sym<int>("x"); s[(size_t)i] = E(x); m.v[i] = x; break; }
                case 1: { size_t q = vf::sym<size_t>("to"); try { s.resize(q); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == (q != N), "resize of a fixed-length array is refused for every other length"); break; }
                case 2: { size_t q = vf::sym<size_t>("to"); try { s.reserve(q); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t == (q > N), "reserve is refused beyond the length"); break; }
                case 3: { Array<E, N> o; M om; for (int i = 0; i < (int)N; ++i) { int x = vf::sym<int>("x"); o[(size_t)i] = E(x); om.push(x); } s = o; agree(o, om); m.assign(om); break; }
                case 4: { Array<E, N> o; M om; for (int i = 0; i < (int)N; ++i) { int x = vf::sym<int>("x"); o[(size_t)i] = E(x); om.push(x); } s = efp::move(o); m.assign(om); break; }
            }
        }
        agree(s, m);
        VF_ASSERT(s.capacity() == N && !s.empty());
    }
    VF_ASSERT(__vf_live() == 0);
    __vf_reach("done");
}
VF_ENTRY(array_case_tr) { array_case<Tr, 3>(); }
VF_ENTRY(array_case_int) { array_case<int, 5>(); }

// construction from lists of every length
VF_ENTRY(init_lists) {
    {
        int x = vf::sym<int>("x"), y = vf::sym<int>("y"), z = vf::sym<int>("z");
        int n = vf::pick("n", 0, 3); bool t = false, t2 = false;
        M m; if (n > 0) m.push(x); if (n > 1) m.push(y); if (n > 2) m.push(z);
        try { ArrVec<Tr, 2> a = n == 0 ? ArrVec<Tr, 2>{} : n == 1 ? ArrVec<Tr, 2>{Tr(x)} : n == 2 ? ArrVec<Tr, 2>{Tr(x), Tr(y)} : ArrVec<Tr, 2>{Tr(x), Tr(y), Tr(z)}; agree(a, m); } catch (const RuntimeError&) { t = true; }
        VF_ASSERT_MSG(t == (n > 2), "a list longer than the capacity is refused");
        try { Array<Tr, 2> a = n == 1 ? Array<Tr, 2>{Tr(x)} : n == 2 ? Array<Tr, 2>{Tr(x), Tr(y)} : n == 3 ? Array<Tr, 2>{Tr(x), Tr(y), Tr(z)} : Array<Tr, 2>(InitializerList<Tr>{}); agree(a, m); } catch (const RuntimeError&) { t2 = true; }
        VF_ASSERT_MSG(t2 == (n != 2), "a list whose length is not the array's is refused");
        Vector<Tr> v = n == 0 ? Vector<Tr>{} : n == 1 ? Vector<Tr>{Tr(x)} : n == 2 ? Vector<Tr>{Tr(x), Tr(y)} : Vector<Tr>{Tr(x), Tr(y), Tr(z)};
        agree(v, m);
    }
    VF_ASSERT(__vf_live() == 0);
    __vf_reach("done");
}
