// Vector and String with an allocator of their own: the storage they use is the allocator's, and
// every block goes back to it once, with the size it was obtained with.
#include "efp.hpp"
#include "model.h"
#include <cstdlib>
using namespace efp; using vf::Tr;
typedef Model<64> M;
static struct { void* p[64]; size_t n[64]; int id[64]; bool live[64]; int used, open, next; } led;
template <class T> struct Led {
    typedef T value_type;
    int id; Led() : id(led.next) {} explicit Led(int i) : id(i) {} template <class U> Led(const Led<U>& o) : id(o.id) {}
    T* allocate(size_t n) { VF_ASSERT(led.used < 64); void* p = malloc(n ? n * sizeof(T) : 1); led.p[led.used] = p; led.n[led.used] = n; led.id[led.used] = id; led.live[led.used] = true; led.used++; led.open++; return (T*)p; }
    void deallocate(T* p, size_t n) {
        int at = -1; for (int i = 0; i < led.used; ++i) if (led.p[i] == (void*)p && led.live[i]) at = i;
        VF_ASSERT_MSG(at >= 0, "only blocks of the allocator are returned to it, once"); VF_ASSERT_MSG(led.n[at] == n, "a block is returned with the size it was requested with");
        VF_ASSERT_MSG(led.id[at] == id, "a block is returned to the allocator it came from");
        led.live[at] = false; led.open--; free(p);
    }
    bool operator==(const Led& o) const { return id == o.id; } bool operator!=(const Led& o) const { return id != o.id; }
};
template <class E> static void step(Vector<E, Led<E>>& a, Vector<E, Led<E>>& b, M& ma, M& mb) {
    typedef Vector<E, Led<E>> V;
    switch (vf::pick("op", 0, 13)) {
        case 0: { int x = vf::sym<int>("x"); a.push_back(E(x)); ma.push(x); break; }
        case 1: { int x = vf::sym<int>("x"); const E e(x); int k = vf::pick("at", 0, ma.n); a.insert((size_t)k, e); ma.insert(k, x); break; }
        case 2: if (ma.n) { int k = vf::pick("at", 0, ma.n - 1); a.erase((size_t)k); ma.erase(k); } break;
        case 3: { int k = vf::pick("to", 0, 4); a.resize((size_t)k); ma.resize(k); break; }
        case 4: a.reserve((size_t)vf::pick("to", 0, 5)); break;
        case 5: a.shrink_to_fit(); break;
        case 6: a.clear(); ma.clear(); break;
        case 7: { V c(a); agree(c, ma); break; }
        case 8: { V c(efp::move(a)); agree(c, ma); ma.clear(); agree(a, ma); break; }
        case 9: a = b; ma.assign(mb); break;
        case 10: a = efp::move(b); ma.assign(mb); mb.clear(); break;
        case 11: { V c{E(3), E(4)}; a = c; ma.clear(); ma.push(3); ma.push(4); break; }
        case 12: { int x = vf::sym<int>("x"); a.emplace_back(x); ma.push(x); break; }
        case 13: if (ma.n) { a.pop_back(); ma.pop(); } break;
    }
}
template <class E> static void history(int k) {
    uint32_t a0 = __vf_allocs();
    { Vector<E, Led<E>> a; led.next = 1; Vector<E, Led<E>> b; led.next = 2; M ma, mb; int n = vf::pick("n", 0, 2); for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); a.push_back(E(x)); ma.push(x); }
      n = vf::pick("m", 0, 1); for (int i = 0; i < 2 * n; ++i) { int x = vf::sym<int>("y"); b.push_back(E(x)); mb.push(x); }
      for (int i = 0; i < k; ++i) { step<E>(a, b, ma, mb); agree(a, ma); agree(b, mb); }
      VF_ASSERT_MSG((int)(__vf_allocs() - a0) == led.used, "no storage but the allocator's is used"); }
    VF_ASSERT_MSG(led.open == 0, "every block is returned to the allocator"); __vf_reach("done");
}
VF_ENTRY(alloc_vector_int) { history<int>(__vf_param("k", 2)); }
VF_ENTRY(alloc_vector_tr) { history<Tr>(__vf_param("k", 2)); VF_ASSERT(__vf_live() == 0); }
VF_ENTRY(alloc_string) {
    typedef Vector<char, Led<char>, std::char_traits<char>> Str; uint32_t a0 = __vf_allocs();
    { const char* abc = "abc"; bool range = vf::pick("from", 0, 1) != 0; Str a = range ? Str(abc, abc + 3, Led<char>(1)) : Str(abc, 3, Led<char>(2)); VF_ASSERT_MSG(led.used >= 1 && led.open == 1 && led.id[led.used - 1] == (range ? 1 : 2), "a string uses the allocator it is given"); VF_ASSERT_MSG(a.c_str()[3] == 0 && a == "abc", "the text is terminated"); Str b; M m; for (int i = 0; i < 3; ++i) m.push("abc"[i]); int k = __vf_param("k", 2);
      for (int i = 0; i < k; ++i) switch (vf::pick("op", 0, 9)) {
          case 9: { int at = vf::pick("at", 0, m.n < 3 ? m.n : 3); a.insert((size_t)at, "pq"); m.insert(at, 'q'); m.insert(at, 'p'); break; }
          case 0: { char c = (char)vf::range("c", 1, 120); a.push_back(c); m.push(c); break; }
          case 1: { a.append("xy"); m.push('x'); m.push('y'); break; }
          case 2: { int n = vf::pick("to", 0, 20); a.resize((size_t)n); while (m.n > n) m.pop(); while (m.n < n) m.push(0); break; }
          case 3: { Str c(a); VF_ASSERT(c == a); b = c; break; }
          case 4: { b = efp::move(a); VF_ASSERT((int)b.size() == m.n); a = b; break; }
          case 5: a.shrink_to_fit(); break;
          case 6: a.clear(); m.clear(); break;
          case 7: { a.reserve(40); break; }
          case 8: { a += b; int n = (int)b.size(); for (int j = 0; j < n; ++j) m.push(b[(size_t)j]); break; }
      }
      VF_ASSERT((int)a.size() == m.n); for (int i = 0; i < m.n; ++i) VF_ASSERT_MSG(a[(size_t)i] == (char)m.v[i], "the characters are those of the history"); VF_ASSERT_MSG(a.c_str()[m.n] == 0, "the text is terminated");
      VF_ASSERT_MSG((int)(__vf_allocs() - a0) == led.used, "no storage but the allocator's is used"); }
    VF_ASSERT_MSG(led.open == 0, "every block is returned to the allocator"); __vf_reach("done");
}
VF_ENTRY(alloc_huge) {
    typedef Vector<Tr, Led<Tr>> V; static const int ns[] = {63, 64, 255, 256, 257, 300}; int n = ns[vf::pick("n", 0, 5)], x = vf::sym<int>("x"), at = vf::pick("at", 0, 2) * (n / 2); if (at > n) at = n;
    { V a; led.next = 1; V b; led.next = 2; for (int i = 0; i < n; ++i) a.push_back(Tr(i == at ? x : i)); b.push_back(Tr(1));
      switch (vf::pick("how", 0, 5)) { case 0: a.shrink_to_fit(); b = a; break; case 1: b = efp::move(a); a = b; break; case 2: { V c(a); b = c; break; } case 3: a.insert((size_t)at, Tr(x)); a.erase((size_t)at); b = efp::move(a); break; case 4: a.resize((size_t)(n + 9)); a.resize((size_t)n); b = a; break; default: { V c(efp::move(a)); b = c; } }
      VF_ASSERT((int)b.size() == n); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(b[(size_t)i].get() == (i == at ? x : i), "the elements are those of the history"); }
    VF_ASSERT_MSG(led.open == 0, "every block is returned to the allocator"); VF_ASSERT(__vf_live() == 0); __vf_reach("done");
}
