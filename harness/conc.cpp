// Queues shared between threads, over every interleaving of the given thread programs.
#include "efp.hpp"
#include "efp/concurrency.hpp"
#include "vf.h"
using namespace efp;

// what each thread enqueued / dequeued, in its own order; payloads are symbolic
struct Item { int tag; int pay; };
struct Item2 { int tag; int pay; Item2() : tag(0), pay(0) {} Item2(int t, int p) : tag(t), pay(p) {} };
static const int MAXT = 4, MAXI = 6;
static int pay[MAXT][MAXI];
template <class Q> struct Ctx { Q* q; int id; int n; Item2 got[MAXI]; int ngot; };
template <class Q> static void producer(void* p) { Ctx<Q>* c = (Ctx<Q>*)p; for (int i = 0; i < c->n; ++i) c->q->enqueue(Item2(c->id * 16 + i, pay[c->id][i])); }
template <class Q> static void consumer(void* p) { Ctx<Q>* c = (Ctx<Q>*)p; for (int i = 0; i < c->n; ++i) { c->got[c->ngot] = c->q->dequeue(); c->ngot++; } }
template <class Q> static void poller(void* p) { Ctx<Q>* c = (Ctx<Q>*)p; for (int i = 0; i < c->n; ++i) { auto m = c->q->dequeue(); if (!m.is_nothing()) { c->got[c->ngot] = m.value(); c->ngot++; } } }
template <class Q> static void peeker(void* p) { Ctx<Q>* c = (Ctx<Q>*)p; for (int i = 0; i < c->n; ++i) { bool e = c->q->is_empty(); c->ngot += e; } }
static int cnt[MAXT][MAXI];
template <class Q> static void account(Ctx<Q>& c) {  // each item is intact, and one consumer sees each producer's items in order
    int last[MAXT]; for (int i = 0; i < MAXT; ++i) last[i] = -1;
    for (int i = 0; i < c.ngot; ++i) { int t = c.got[i].tag / 16, k = c.got[i].tag % 16; VF_ASSERT_MSG(t >= 0 && t < MAXT && k < MAXI, "only enqueued items come out"); VF_ASSERT_MSG(c.got[i].pay == pay[t][k], "items come out unchanged"); VF_ASSERT_MSG(k > last[t], "items of one producer come out in order"); last[t] = k; cnt[t][k]++; }
}
static void payloads(int np, int n) { for (int t = 0; t < np; ++t) for (int i = 0; i < n; ++i) pay[t][i] = vf::sym<int>("pay"); }

// np producers of ni items each, nc consumers; totals match, every item is delivered exactly once
template <class Q> static void blocking(int np, int ni, int nc, int each) {
    __vf_spurious(__vf_param("spurious", 0)); payloads(np, ni);
    { Q q; Ctx<Q> p[MAXT], c[MAXT];
      for (int i = 0; i < np; ++i) { p[i].q = &q; p[i].id = i; p[i].n = ni; p[i].ngot = 0; __vf_spawn(producer<Q>, &p[i]); }
      for (int i = 0; i < nc; ++i) { c[i].q = &q; c[i].id = i; c[i].n = each; c[i].ngot = 0; __vf_spawn(consumer<Q>, &c[i]); }
      __vf_join_all();
      for (int i = 0; i < nc; ++i) { VF_ASSERT(c[i].ngot == each); account(c[i]); }
      for (int t = 0; t < np; ++t) for (int i = 0; i < ni; ++i) { VF_ASSERT_MSG(cnt[t][i] <= 1, "no item is delivered twice"); if (nc * each == np * ni) VF_ASSERT_MSG(cnt[t][i] == 1, "every item is delivered"); }
    }
    __vf_reach("done");
}
typedef BlockingQ<Item2> BD; typedef BlockingQ<Item2, 4> B4;
VF_ENTRY(bq_dyn_1p1c) { blocking<BD>(1, 2, 1, 2); }
VF_ENTRY(bq_dyn_2p1c) { blocking<BD>(2, 1, 1, 2); }
VF_ENTRY(bq_dyn_1p2c) { blocking<BD>(1, 2, 2, 1); }
VF_ENTRY(bq_dyn_2p2c) { blocking<BD>(2, 1, 2, 1); }
VF_ENTRY(bq_fix_1p1c) { blocking<B4>(1, 3, 1, 3); }
VF_ENTRY(bq_fix_2p1c) { blocking<B4>(2, 1, 1, 2); }
VF_ENTRY(bq_fix_1p2c) { blocking<B4>(1, 2, 2, 1); }
VF_ENTRY(bq_fix_2p2c) { blocking<B4>(2, 1, 2, 1); }
VF_ENTRY(bq_fix_2p1c_2) { blocking<B4>(2, 2, 1, 4); }
VF_ENTRY(bq_dyn_2p1c_2) { blocking<BD>(2, 2, 1, 4); }
// one thread: strict FIFO; a full bounded queue drops its oldest item
template <class Q> static void fifo(int cap) {
    { Q q; int k = __vf_param("k", 5); int in[16], lo = 0, hi = 0;
      for (int i = 0; i < k; ++i) { if (lo == hi || vf::pick("op", 0, 1)) { int x = vf::sym<int>("x"); q.enqueue(x); in[hi++] = x; if (cap && hi - lo > cap) ++lo; } else { int r = q.dequeue(); VF_ASSERT_MSG(r == in[lo], "dequeue yields the oldest item"); ++lo; vf::obs((uint32_t)r); } }
      while (lo < hi) { int r = q.dequeue(); VF_ASSERT_MSG(r == in[lo], "dequeue yields the oldest item"); ++lo; } }
    __vf_reach("done");
}
VF_ENTRY(bq_fifo_dyn) { fifo<BlockingQ<int>>(0); }
VF_ENTRY(bq_fifo_fix2) { fifo<BlockingQ<int, 2>>(2); }
VF_ENTRY(bq_fifo_fix3) { fifo<BlockingQ<int, 3>>(3); }

// non-blocking: pollers may miss, but never duplicate, lose or reorder
template <class Q> static void nonblocking(int np, int ni, int nc, int polls, int peeks) {
    payloads(np, ni);
    { Q q; Ctx<Q> p[MAXT], c[MAXT], e;
      for (int i = 0; i < np; ++i) { p[i].q = &q; p[i].id = i; p[i].n = ni; p[i].ngot = 0; __vf_spawn(producer<Q>, &p[i]); }
      for (int i = 0; i < nc; ++i) { c[i].q = &q; c[i].id = i; c[i].n = polls; c[i].ngot = 0; __vf_spawn(poller<Q>, &c[i]); }
      if (peeks) { e.q = &q; e.n = peeks; e.ngot = 0; __vf_spawn(peeker<Q>, &e); }
      __vf_join_all();
      Ctx<Q> r; r.q = &q; r.ngot = 0; r.n = 0; while (!q.is_empty()) { auto m = q.dequeue(); VF_ASSERT_MSG(!m.is_nothing(), "a queue that is not empty yields an item"); VF_ASSERT(r.ngot < MAXI); r.got[r.ngot] = m.value(); r.ngot++; } VF_ASSERT(q.dequeue().is_nothing());
      for (int i = 0; i < nc; ++i) account(c[i]); account(r);
      for (int t = 0; t < np; ++t) for (int i = 0; i < ni; ++i) VF_ASSERT_MSG(cnt[t][i] == 1, "every item is delivered exactly once or still queued");
    }
    __vf_reach("done");
}
typedef NonBlockingQ<Item2> ND; typedef NonBlockingQ<Item2, 4> N4;
VF_ENTRY(nq_dyn_1p1c) { nonblocking<ND>(1, 2, 1, 3, 0); }
VF_ENTRY(nq_dyn_2p1c) { nonblocking<ND>(2, 1, 1, 2, 0); }
VF_ENTRY(nq_dyn_1p2c) { nonblocking<ND>(1, 2, 2, 1, 0); }
VF_ENTRY(nq_dyn_peek) { nonblocking<ND>(1, 2, 1, 1, 1); }
VF_ENTRY(nq_fix_1p1c) { nonblocking<N4>(1, 3, 1, 3, 0); }
VF_ENTRY(nq_fix_2p1c) { nonblocking<N4>(2, 2, 1, 2, 0); }
VF_ENTRY(nq_fix_1p2c) { nonblocking<N4>(1, 2, 2, 2, 0); }
VF_ENTRY(nq_fix_peek) { nonblocking<N4>(1, 2, 1, 1, 2); }
template <class Q> static void nfifo(int cap) {
    { Q q; int k = __vf_param("k", 5); int in[16], lo = 0, hi = 0; VF_ASSERT(q.is_empty());
      for (int i = 0; i < k; ++i) { int op = vf::pick("op", 0, 1); if (op) { int x = vf::sym<int>("x"); q.enqueue(x); in[hi++] = x; if (cap && hi - lo > cap) ++lo; } else { auto r = q.dequeue(); VF_ASSERT_MSG(r.is_nothing() == (lo == hi), "dequeue yields nothing exactly when the queue is empty"); if (lo < hi) { VF_ASSERT_MSG(r.value() == in[lo], "dequeue yields the oldest item"); ++lo; } } VF_ASSERT_MSG(q.is_empty() == (lo == hi), "is_empty reports whether items remain"); } }
    __vf_reach("done");
}
VF_ENTRY(nq_fifo_dyn) { nfifo<NonBlockingQ<int>>(0); }
VF_ENTRY(nq_fifo_fix2) { nfifo<NonBlockingQ<int, 2>>(2); }

// double buffer: producers enqueue while one consumer swaps and drains
typedef DoubleBuffer<Item2, 4> DB;
static void db_consumer(void* p) { Ctx<DB>* c = (Ctx<DB>*)p; for (int i = 0; i < c->n; ++i) { c->q->swap_buffer(); while (!c->q->empty()) { VF_ASSERT(c->ngot < MAXI); c->got[c->ngot] = c->q->dequeue(); c->ngot++; } } }
static void buffered(int np, int ni, int swaps) {
    payloads(np, ni);
    { DB q; Ctx<DB> p[MAXT], c;
      for (int i = 0; i < np; ++i) { p[i].q = &q; p[i].id = i; p[i].n = ni; p[i].ngot = 0; __vf_spawn(producer<DB>, &p[i]); }
      c.q = &q; c.n = swaps; c.ngot = 0; __vf_spawn(db_consumer, &c);
      __vf_join_all();
      c.n = 1; db_consumer(&c); account(c);
      for (int t = 0; t < np; ++t) for (int i = 0; i < ni; ++i) VF_ASSERT_MSG(cnt[t][i] == 1, "every item comes out exactly once");
    }
    __vf_reach("done");
}
VF_ENTRY(db_1p) { buffered(1, 2, 2); }
VF_ENTRY(db_1p3) { buffered(1, 3, 1); }
VF_ENTRY(db_2p) { buffered(2, 1, 1); }
VF_ENTRY(db_2p2) { buffered(2, 2, 1); }
// one thread: against two lists
VF_ENTRY(db_history) {
    { DoubleBuffer<int, 2> q; int k = __vf_param("k", 6); int b[2][4], n[2] = {0, 0}; int w = 1, r = 0;
      for (int i = 0; i < k; ++i) { int op = vf::pick("op", 0, 2);
        if (op == 0) { int x = vf::sym<int>("x"); q.enqueue(x); if (n[w] == 2) { b[w][0] = b[w][1]; n[w] = 1; } b[w][n[w]++] = x; }
        else if (op == 1) { q.swap_buffer(); int t = w; w = r; r = t; }
        else { VF_ASSERT_MSG(q.empty() == (n[r] == 0), "empty reports whether the read side is drained"); if (n[r]) { int x = q.dequeue(); VF_ASSERT_MSG(x == b[r][0], "dequeue yields the oldest item of the read side"); b[r][0] = b[r][1]; n[r]--; vf::obs((uint32_t)x); } }
        VF_ASSERT(q.empty() == (n[r] == 0)); } }
    __vf_reach("done");
}
// elements that own resources: every element is constructed and destroyed once, also those still queued at the end
template <class Q> static void bq_tr(int cap) {
    { Q q; int k = __vf_param("k", 5); int in[16], lo = 0, hi = 0;
      for (int i = 0; i < k; ++i) { if (lo == hi || vf::pick("op", 0, 1)) { int x = vf::sym<int>("x"); q.enqueue(vf::Tr(x)); in[hi++] = x; if (cap && hi - lo > cap) ++lo; } else { vf::Tr r = q.dequeue(); VF_ASSERT_MSG(r.get() == in[lo], "dequeue yields the oldest item"); ++lo; } } }
    VF_ASSERT_MSG(__vf_live() == 0, "every element is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(bq_life_dyn) { bq_tr<BlockingQ<vf::Tr>>(0); }
VF_ENTRY(bq_life_fix) { bq_tr<BlockingQ<vf::Tr, 2>>(2); }
template <class Q> static void nq_tr(int cap) {
    { Q q; int k = __vf_param("k", 5); int in[16], lo = 0, hi = 0;
      for (int i = 0; i < k; ++i) { if (vf::pick("op", 0, 1)) { int x = vf::sym<int>("x"); vf::Tr t(x); q.enqueue(t); VF_ASSERT(t.get() == x); in[hi++] = x; if (cap && hi - lo > cap) ++lo; } else { auto r = q.dequeue(); VF_ASSERT_MSG(r.is_nothing() == (lo == hi), "dequeue yields nothing exactly when the queue is empty"); if (lo < hi) { VF_ASSERT_MSG(r.value().get() == in[lo], "dequeue yields the oldest item"); ++lo; } } VF_ASSERT(q.is_empty() == (lo == hi)); } }
    VF_ASSERT_MSG(__vf_live() == 0, "every element is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(nq_life_dyn) { nq_tr<NonBlockingQ<vf::Tr>>(0); }
VF_ENTRY(nq_life_fix) { nq_tr<NonBlockingQ<vf::Tr, 2>>(2); }
VF_ENTRY(db_life) {
    { DoubleBuffer<vf::Tr, 2> q; int k = __vf_param("k", 5); int b[2][4], n[2] = {0, 0}; int w = 1, r = 0;
      for (int i = 0; i < k; ++i) { int op = vf::pick("op", 0, 2);
        if (op == 0) { int x = vf::sym<int>("x"); vf::Tr t(x); q.enqueue(t); VF_ASSERT(t.get() == x); if (n[w] == 2) { b[w][0] = b[w][1]; n[w] = 1; } b[w][n[w]++] = x; }
        else if (op == 1) { q.swap_buffer(); int t = w; w = r; r = t; }
        else if (n[r]) { vf::Tr x = q.dequeue(); VF_ASSERT_MSG(x.get() == b[r][0], "dequeue yields the oldest item of the read side"); b[r][0] = b[r][1]; n[r]--; }
        VF_ASSERT(q.empty() == (n[r] == 0)); } }
    VF_ASSERT_MSG(__vf_live() == 0, "every element is destroyed exactly once"); __vf_reach("done");
}
// a queue that holds more items than are polled never answers "nothing", whatever else goes on
template <class Q> static void stocked(int stock, int np, int nc, int polls) {
    payloads(np + 1, MAXI);
    { Q q; Ctx<Q> p[MAXT], c[MAXT], s; s.q = &q; s.id = np; s.n = stock; s.ngot = 0; producer<Q>(&s);
      for (int i = 0; i < np; ++i) { p[i].q = &q; p[i].id = i; p[i].n = 1; p[i].ngot = 0; __vf_spawn(producer<Q>, &p[i]); }
      for (int i = 0; i < nc; ++i) { c[i].q = &q; c[i].id = i; c[i].n = polls; c[i].ngot = 0; __vf_spawn(poller<Q>, &c[i]); }
      Ctx<Q> e; if (stock > nc * polls) { e.q = &q; e.n = 1; e.ngot = 0; __vf_spawn(peeker<Q>, &e); }
      __vf_join_all();
      for (int i = 0; i < nc; ++i) { VF_ASSERT_MSG(c[i].ngot == polls, "polling a queue that is not empty yields an item"); account(c[i]); } if (stock > nc * polls) VF_ASSERT_MSG(e.ngot == 0, "a queue that holds items is not empty"); }
    __vf_reach("done");
}
VF_ENTRY(nq_dyn_stocked) { stocked<ND>(2, 1, 2, 1); }
VF_ENTRY(nq_fix_stocked) { stocked<N4>(2, 1, 2, 1); }
VF_ENTRY(nq_fix_stocked3) { stocked<N4>(3, 0, 2, 1); }
// more items than the capacity: only the oldest are dropped, and only as many as exceed it
typedef BlockingQ<Item2, 2> B2; typedef NonBlockingQ<Item2, 2> N2;
VF_ENTRY(bq_over_1p1c) { payloads(1, 3); { B2 q; Ctx<B2> p, c; p.q = c.q = &q; p.id = c.id = 0; p.n = 3; c.n = 2; p.ngot = c.ngot = 0; __vf_spawn(producer<B2>, &p); __vf_spawn(consumer<B2>, &c); __vf_join_all(); account(c); VF_ASSERT(c.got[1].tag <= 2 && c.got[1].tag == c.got[0].tag + 1); int next = c.got[1].tag + 1; if (next < 3) VF_ASSERT_MSG(q.dequeue().tag == next, "only the oldest item is dropped"); } __vf_reach("done"); }
VF_ENTRY(nq_over_1p1c) { payloads(1, 3); { N2 q; Ctx<N2> p, c; p.q = c.q = &q; p.id = c.id = 0; p.n = 3; c.n = 2; p.ngot = c.ngot = 0; __vf_spawn(producer<N2>, &p); __vf_spawn(poller<N2>, &c); __vf_join_all(); Ctx<N2> r; r.q = &q; r.id = 0; r.n = 3; r.ngot = 0; poller<N2>(&r); account(c); account(r); VF_ASSERT_MSG(cnt[0][1] == 1 && cnt[0][2] == 1 && cnt[0][0] <= 1, "only the oldest item is dropped"); if (c.ngot && c.got[0].tag == 0) VF_ASSERT(cnt[0][0] == 1); } __vf_reach("done"); }
typedef DoubleBuffer<Item2, 2> DB2;
static void db2_consumer(void* p) { Ctx<DB2>* c = (Ctx<DB2>*)p; for (int i = 0; i < c->n; ++i) { c->q->swap_buffer(); while (!c->q->empty()) { VF_ASSERT(c->ngot < MAXI); c->got[c->ngot] = c->q->dequeue(); c->ngot++; } } }
VF_ENTRY(db_over) { payloads(1, 4); { DB2 q; Ctx<DB2> p, c; p.q = c.q = &q; p.id = c.id = 0; p.n = 4; c.n = 1; p.ngot = c.ngot = 0; __vf_spawn(producer<DB2>, &p); __vf_spawn(db2_consumer, &c); __vf_join_all(); int before = c.ngot; c.n = 1; db2_consumer(&c); account(c); VF_ASSERT_MSG(cnt[0][2] == 1 && cnt[0][3] == 1, "only the oldest items are dropped"); VF_ASSERT(before <= 2 && (before < 2 || c.got[1].tag == c.got[0].tag + 1)); } __vf_reach("done"); }
VF_ENTRY(bq_dyn_2p2c_2) { blocking<BD>(2, 2, 2, 2); }
VF_ENTRY(bq_fix_2p2c_2) { blocking<B4>(2, 2, 2, 2); }
VF_ENTRY(bq_dyn_3p1c) { blocking<BD>(3, 1, 1, 3); }
VF_ENTRY(bq_fix_1p3c) { blocking<B4>(1, 3, 3, 1); }
VF_ENTRY(nq_dyn_2p2c) { nonblocking<ND>(2, 1, 2, 1, 1); }
VF_ENTRY(nq_fix_2p2c) { nonblocking<N4>(2, 2, 2, 1, 0); }
VF_ENTRY(nq_fix_3p1c) { nonblocking<N4>(3, 1, 1, 2, 0); }
VF_ENTRY(db_3p) { buffered(3, 1, 1); }
VF_ENTRY(db_2p_3) { buffered(2, 2, 2); }
VF_ENTRY(db_1p4) { buffered(1, 4, 2); }

// one thread, several hundred items: nothing depends on counters of a few bits or on the size of the backlog
static const int backlogs[] = {1, 128, 255, 256, 257, 300, 301};
static bool vftake(BlockingQ<int>& q, int& x) { x = q.dequeue(); return true; }
template <size_t C> static bool vftake(BlockingQ<int, C>& q, int& x) { x = q.dequeue(); return true; }
template <class Q> static bool vftake(Q& q, int& x) { auto m = q.dequeue(); if (m.is_nothing()) return false; x = m.value(); return true; }
template <class Q> static void many(int cap) {
    { Q q; static int in[1400]; int lo = 0, hi = 0, x = vf::sym<int>("x"), at = backlogs[vf::pick("free", 0, 6)], first = backlogs[vf::pick("backlog", 0, 6)], some = backlogs[vf::pick("taken", 0, 6)];
      auto put = [&]() { int y = hi == at ? x : hi + 5; q.enqueue(y); in[hi++] = y; if (cap && hi - lo > cap) ++lo; };
      auto get = [&]() { int y = 0; VF_ASSERT_MSG(vftake(q, y), "a queue that holds items yields one"); VF_ASSERT_MSG(y == in[lo], "dequeue yields the oldest item"); ++lo; };
      for (int i = 0; i < first; ++i) put();
      for (int i = 0; i < some && lo < hi; ++i) get();
      for (int i = 0; i < 305; ++i) put();
      while (lo < hi) get();
      put(); put(); get(); get(); }
    __vf_reach("done");
}
VF_ENTRY(bq_many_dyn) { many<BlockingQ<int>>(0); }
VF_ENTRY(bq_many_fix) { many<BlockingQ<int, 300>>(300); }
VF_ENTRY(nq_many_dyn) { many<NonBlockingQ<int>>(0); }
VF_ENTRY(nq_many_fix) { many<NonBlockingQ<int, 300>>(300); }
VF_ENTRY(db_many) {
    { DoubleBuffer<int, 300> q; static int in[1400]; int hi = 0, x = vf::sym<int>("x"), at = backlogs[vf::pick("free", 0, 6)], a = backlogs[vf::pick("first", 0, 6)], b = backlogs[vf::pick("second", 0, 6)], left = vf::pick("left", 0, 2);
      auto put = [&]() { int y = hi == at ? x : hi + 5; q.enqueue(y); in[hi++] = y; };
      auto drain = [&](int from, int to, int keep) { if (to - from > 300) from = to - 300; while (from < to - keep) { VF_ASSERT_MSG(!q.empty(), "the read side holds what was handed over"); int y = q.dequeue(); VF_ASSERT_MSG(y == in[from], "dequeue yields the oldest item of the read side"); ++from; } VF_ASSERT_MSG(q.empty() == (keep == 0), "empty reports whether the read side is drained"); };
      auto drain2 = [&](int from, int to, int c) { for (; from < to; ++from) VF_ASSERT_MSG(q.dequeue() == in[from], "what was left over comes first"); drain(c, c + 2, 0); };
      for (int i = 0; i < a; ++i) put(); VF_ASSERT(q.empty()); q.swap_buffer(); if (left > a) left = a; drain(0, a, left);
      for (int i = 0; i < b; ++i) put(); q.swap_buffer(); drain(a, a + b, 0); int c = hi; put(); put(); q.swap_buffer();
      drain2(a - left, a, c); }
    __vf_reach("done");
}

// items that own storage and are empty after a move
typedef Vector<vf::Tr> Load;
static bool vftake(BlockingQ<Load>& q, Load& x) { x = q.dequeue(); return true; }
template <size_t C> static bool vftake(BlockingQ<Load, C>& q, Load& x) { x = q.dequeue(); return true; }
template <class Q> static bool vftake(Q& q, Load& x) { auto m = q.dequeue(); if (m.is_nothing()) return false; x = m.value(); return true; }
template <class Q> static void loads(int cap) {
    { Q q; int k = __vf_param("k", 6); int in[16], lo = 0, hi = 0;
      for (int i = 0; i < k; ++i) { if (lo == hi || vf::pick("op", 0, 1)) { int x = vf::sym<int>("x"); Load l; for (int j = 0; j <= hi % 3; ++j) l.push_back(vf::Tr(x)); q.enqueue(l); VF_ASSERT_MSG((int)l.size() == hi % 3 + 1 && l[0].get() == x, "enqueuing leaves the caller's item alone"); in[hi++] = x; if (cap && hi - lo > cap) ++lo; }
        else { Load r; VF_ASSERT_MSG(vftake(q, r), "a queue that holds items yields one"); VF_ASSERT_MSG((int)r.size() == lo % 3 + 1, "items come out unchanged"); for (int j = 0; j <= lo % 3; ++j) VF_ASSERT_MSG(r[(size_t)j].get() == in[lo], "dequeue yields the oldest item"); ++lo; } } }
    VF_ASSERT_MSG(__vf_live() == 0, "every element is destroyed exactly once"); __vf_reach("done");
}
VF_ENTRY(bq_load_dyn) { loads<BlockingQ<Load>>(0); }
VF_ENTRY(bq_load_fix) { loads<BlockingQ<Load, 3>>(3); }
VF_ENTRY(nq_load_dyn) { loads<NonBlockingQ<Load>>(0); }
VF_ENTRY(nq_load_fix) { loads<NonBlockingQ<Load, 3>>(3); }
VF_ENTRY(db_load) {
    { DoubleBuffer<Load, 2> q; int k = __vf_param("k", 6); int b[2][4], n[2] = {0, 0}; int w = 1, r = 0;
      for (int i = 0; i < k; ++i) { int op = vf::pick("op", 0, 2);
        if (op == 0) { int x = vf::sym<int>("x"); Load t; t.push_back(vf::Tr(x)); t.push_back(vf::Tr(i)); q.enqueue(t); VF_ASSERT_MSG(t.size() == 2 && t[0].get() == x, "enqueuing leaves the caller's item alone"); if (n[w] == 2) { b[w][0] = b[w][1]; n[w] = 1; } b[w][n[w]++] = x; }
        else if (op == 1) { q.swap_buffer(); int t = w; w = r; r = t; }
        else if (n[r]) { Load x = q.dequeue(); VF_ASSERT_MSG(x.size() == 2 && x[0].get() == b[r][0], "dequeue yields the oldest item of the read side"); b[r][0] = b[r][1]; n[r]--; }
        VF_ASSERT(q.empty() == (n[r] == 0)); } }
    VF_ASSERT_MSG(__vf_live() == 0, "every element is destroyed exactly once"); __vf_reach("done");
}
