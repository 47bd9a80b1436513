// Sources of every sequence kind, and functions that record how they are called.
#pragma once
#include "efp.hpp"
#include "model.h"
#include <array>
#include <vector>
using namespace efp;
#ifndef MCAP
#define MCAP 130
#define LOGCAP 130
#endif
typedef Model<MCAP> M;
// Box<S>: a sequence of kind S holding n fresh symbolic ints; m gets the same values.
template <class S> struct Box;
template <size_t N> struct Box<Array<int, N>> { Array<int, N> s; Box(int, M& m) { for (size_t i = 0; i < N; ++i) { int x = vf::sym<int>("x"); s[i] = x; m.push(x); } } enum { lo = N, hi = N }; };
template <size_t N> struct Box<std::array<int, N>> { std::array<int, N> s; Box(int, M& m) { for (size_t i = 0; i < N; ++i) { int x = vf::sym<int>("x"); s[i] = x; m.push(x); } } enum { lo = N, hi = N }; };
template <size_t N> struct Box<ArrVec<int, N>> { ArrVec<int, N> s; Box(int n, M& m) { for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); s.push_back(x); m.push(x); } } enum { lo = 0, hi = N }; };
template <> struct Box<Vector<int>> { Vector<int> s; Box(int n, M& m) { for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); s.push_back(x); m.push(x); } } enum { lo = 0, hi = 5 }; };
template <> struct Box<std::vector<int>> { std::vector<int> s; Box(int n, M& m) { for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); s.push_back(x); m.push(x); } } enum { lo = 0, hi = 5 }; };
template <> struct Box<VectorView<int>> { Vector<int> o; VectorView<int> s; Box(int n, M& m) { for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); o.push_back(x); m.push(x); } s = VectorView<int>(o.data(), (size_t)n); } enum { lo = 0, hi = 5 }; };
template <size_t N> struct Box<ArrVecView<int, N>> { int o[N]; ArrVecView<int, N> s; Box(int n, M& m) { for (int i = 0; i < n; ++i) { int x = vf::sym<int>("x"); o[i] = x; m.push(x); } s = ArrVecView<int, N>(o, (size_t)n); } enum { lo = 0, hi = N }; };
template <size_t N> struct Box<ArrayView<int, N>> { int o[N]; ArrayView<int, N> s; static int* fill(int* p, M& m) { for (size_t i = 0; i < N; ++i) { int x = vf::sym<int>("x"); p[i] = x; m.push(x); } return p; } Box(int, M& m) : s(fill(o, m)) {} enum { lo = N, hi = N }; };
template <class S> static int len_of(const char* nm) { return vf::pick(nm, Box<S>::lo, Box<S>::hi); }

// one symbolic result per call; the arguments are recorded
struct Log { int n; int a[LOGCAP][4]; int r[LOGCAP]; };
static Log lg;
static int rec(int x, int y, int z, int w = 0) { int i = lg.n; VF_ASSERT_MSG(i < LOGCAP, "the function is called a bounded number of times"); lg.a[i][0] = x; lg.a[i][1] = y; lg.a[i][2] = z; lg.a[i][3] = w; lg.r[i] = vf::sym<int>("r"); lg.n = i + 1; return lg.r[i]; }
static int min2(int a, int b) { return a < b ? a : b; }
template <class R> static void same(const R& r, const M& m, const char* what) {
    VF_ASSERT_MSG((int)length(r) == m.n, what);
    for (int i = 0; i < m.n; ++i) { VF_ASSERT_MSG(nth((size_t)i, r) == m.v[i], what); vf::obs((uint32_t)nth((size_t)i, r)); }
    VF_ASSERT_MSG((int)(r.end() - r.begin()) == m.n, what);
}
template <class R> struct NoHeap { enum { v = IsStaticCapacity<R>::value }; };
