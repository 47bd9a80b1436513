// Scalar helpers and reductions against their definitions.
#include "hof.h"
#include "efp/numeric.hpp"
template <class A> static bool isfin(A x) { return x - x == 0; }

// integers: any length, values bounded so that nothing overflows (a precondition)
template <class S, class A> static void reduce_ints(const S& s, const A* v, int n) {
    long long t = 0; for (int i = 0; i < n; ++i) t += v[i];
    VF_ASSERT_MSG(sum(s) == (A)t, "sum adds every element once");
    if (n) {
        A mx = max_elem(s), mn = min_elem(s); bool im = false, in = false;
        for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(!(mx < v[i]), "max_elem is at least every element"); VF_ASSERT_MSG(!(v[i] < mn), "min_elem is at most every element"); im |= mx == v[i]; in |= mn == v[i]; }
        VF_ASSERT_MSG(im, "max_elem is an element"); VF_ASSERT_MSG(in, "min_elem is an element"); VF_ASSERT_MSG(max_min(s) == (A)(mx - mn), "max_min is the difference of the extremes");
    }
}
template <class A> static void ints(int lo, int hi) {
    int n = vf::pick("n", 0, 5); A v[8]; Vector<A> s; ArrVec<A, 8> a; for (int i = 0; i < n; ++i) { v[i] = vf::sym<A>("x"); __vf_assume(!(v[i] < (A)lo) & !((A)hi < v[i])); s.push_back(v[i]); a.push_back(v[i]); }
    if (vf::pick("kind", 0, 1)) reduce_ints(s, v, n); else reduce_ints(a, v, n);
    __vf_reach("done");
}
VF_ENTRY(num_int) { ints<int>(-1000000, 1000000); }
VF_ENTRY(num_i8) { ints<int8_t>(-12, 12); }
VF_ENTRY(num_u16) { ints<uint16_t>(0, 9000); }
VF_ENTRY(num_i64) { ints<long long>(-1000000000, 1000000000); }
VF_ENTRY(num_full) {   // extremes need no bound on the values
    int n = vf::pick("n", 1, 4); Vector<int> s; ArrVec<unsigned char, 4> u; int v[4]; unsigned char w[4]; for (int i = 0; i < n; ++i) { v[i] = vf::sym<int>("x"); w[i] = vf::sym<unsigned char>("u"); s.push_back(v[i]); u.push_back(w[i]); }
    int mx = max_elem(s), mn = min_elem(s); unsigned char ux = max_elem(u), un = min_elem(u); bool a = false, b = false, c = false, d = false;
    for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(mx >= v[i] && ux >= w[i], "max_elem is at least every element"); VF_ASSERT_MSG(mn <= v[i] && un <= w[i], "min_elem is at most every element"); a |= mx == v[i]; b |= mn == v[i]; c |= ux == w[i]; d |= un == w[i]; }
    VF_ASSERT_MSG(a && c, "max_elem is an element"); VF_ASSERT_MSG(b && d, "min_elem is an element"); __vf_reach("done");
}
VF_ENTRY(num_product) {
    int n = vf::pick("n", 0, 4); Vector<int> s; ArrVec<int, 4> a; int v[4]; long long t = 1; for (int i = 0; i < n; ++i) { v[i] = vf::range("x", -9, 9); s.push_back(v[i]); a.push_back(v[i]); t *= v[i]; }
    VF_ASSERT_MSG(product(s) == (int)t && product(a) == (int)t, "product multiplies every element once"); __vf_reach("done");
}
VF_ENTRY(num_long) {
    static const int sizes[] = {7, 8, 9, 16, 17, 33, 65}; int n = sizes[vf::pick("size", 0, 6)]; Vector<int> s; ArrVec<int, 65> a; long long t = 0;
    for (int i = 0; i < n; ++i) { int x = vf::range("x", -1000000, 1000000); s.push_back(x); a.push_back(x); t += x; }
    VF_ASSERT_MSG(sum(s) == (int)t && sum(a) == (int)t, "sum adds every element once"); __vf_reach("done");
}
VF_ENTRY(num_long_extremes) {   // rising, falling or scattered values with one free element at every position
    static const int sizes[] = {7, 8, 16, 17, 33}; int n = sizes[vf::pick("size", 0, 4)], at = vf::pick("at", 0, n - 1), shape = vf::pick("shape", 0, 2); Vector<int> s; int v[33], x = vf::sym<int>("x");
    for (int i = 0; i < n; ++i) { v[i] = i == at ? x : shape == 0 ? 10 * i : shape == 1 ? -10 * i : (i * 7919 + 13) % 101 - 50; s.push_back(v[i]); }
    int hi = v[0], lo = v[0]; for (int i = 1; i < n; ++i) { hi = v[i] > hi ? v[i] : hi; lo = v[i] < lo ? v[i] : lo; }
    VF_ASSERT_MSG(max_elem(s) == hi, "max_elem is the largest element"); VF_ASSERT_MSG(min_elem(s) == lo, "min_elem is the smallest element"); __vf_reach("done");
}
// floating point: extremes of any ordered values, including infinities and all-negative ones
template <class A> static void floats() {
    int n = vf::pick("n", 1, 3); A v[3]; Vector<A> s; ArrVec<A, 3> a; for (int i = 0; i < n; ++i) { v[i] = vf::sym<A>("x"); __vf_assume(v[i] == v[i]); s.push_back(v[i]); a.push_back(v[i]); }
    A mx = vf::pick("kind", 0, 1) ? max_elem(s) : max_elem(a), mn = min_elem(s); bool im = false, in = false;
    for (int i = 0; i < n; ++i) { VF_ASSERT_MSG(mx >= v[i], "max_elem is at least every element"); VF_ASSERT_MSG(mn <= v[i], "min_elem is at most every element"); im |= mx == v[i]; in |= mn == v[i]; }
    VF_ASSERT_MSG(im, "max_elem is an element"); VF_ASSERT_MSG(in, "min_elem is an element"); __vf_reach("done");
}
VF_ENTRY(num_empty) {   // no elements: the neutral value of each reduction
    int n = vf::pick("clear", 0, 1); Vector<double> d; ArrVec<float, 3> f; Vector<int> i; ArrVec<signed char, 2> c; if (n) { d.push_back(vf::sym<double>("x")); d.clear(); f.push_back(vf::sym<float>("y")); f.clear(); i.push_back(vf::sym<int>("z")); i.clear(); }
    VF_ASSERT_MSG(sum(d) == 0 && sum(f) == 0 && sum(i) == 0 && sum(c) == 0, "the sum of nothing is zero"); VF_ASSERT_MSG(product(d) == 1 && product(f) == 1 && product(i) == 1 && product(c) == 1, "the product of nothing is one");
    double x = vf::sym<double>("a"); float y = vf::sym<float>("b"); __vf_assume(isfin(x) && isfin(y)); int z = vf::sym<int>("e"); signed char w = vf::sym<signed char>("g");
    VF_ASSERT_MSG(max_elem(d) <= x && max_elem(f) <= y && max_elem(i) <= z && max_elem(c) <= w, "the largest of nothing is at most every finite value"); VF_ASSERT_MSG(min_elem(d) >= x && min_elem(f) >= y && min_elem(i) >= z && min_elem(c) >= w, "the smallest of nothing is at least every finite value"); __vf_reach("done");
}
VF_ENTRY(num_double) { floats<double>(); }
VF_ENTRY(num_float) { floats<float>(); }
VF_ENTRY(num_scalar) {
    int a = vf::sym<int>("a"), b = vf::sym<int>("b"), x = vf::sym<int>("x"); double d = vf::sym<double>("d"), e = vf::sym<double>("e"); float f = vf::sym<float>("f");
    int how = vf::pick("how", 0, 8);
    if (how == 0) { VF_ASSERT_MSG(max(a, b) >= a && max(a, b) >= b && (max(a, b) == a || max(a, b) == b), "max is the larger of two"); VF_ASSERT_MSG(min(a, b) <= a && min(a, b) <= b && (min(a, b) == a || min(a, b) == b), "min is the smaller of two"); }
    else if (how == 1) { __vf_assume(d == d && e == e); VF_ASSERT_MSG(max(d, e) >= d && max(d, e) >= e && (max(d, e) == d || max(d, e) == e), "max is the larger of two"); VF_ASSERT_MSG(min(d, e) <= d && min(d, e) <= e && (min(d, e) == d || min(d, e) == e), "min is the smaller of two"); }
    else if (how == 2) { __vf_assume(a <= b); int r = clamp(a, b, x); VF_ASSERT_MSG(r >= a && r <= b, "clamp stays within the bounds"); VF_ASSERT_MSG(x < a ? r == a : b < x ? r == b : r == x, "clamp changes only values outside the bounds"); }
    else if (how == 3) { double z = vf::sym<double>("z"); __vf_assume(d <= e && z == z); double r = clamp(d, e, z); VF_ASSERT_MSG(r >= d && r <= e, "clamp stays within the bounds"); VF_ASSERT_MSG(z < d ? r == d : e < z ? r == e : r == z, "clamp changes only values outside the bounds"); }
    else if (how == 4) { __vf_assume(a != INT32_MIN); int r = efp::abs(a); VF_ASSERT_MSG(r >= 0 && (r == a || r == -a), "abs is the magnitude"); long long l = vf::sym<long long>("l"); __vf_assume(l != INT64_MIN); long long q = efp::abs(l); VF_ASSERT(q >= 0 && (q == l || q == -l)); }
    else if (how == 5) { __vf_assume(d == d && f == f); double r = efp::abs(d); VF_ASSERT_MSG(r >= 0 && (r == d || r == -d), "abs is the magnitude"); float g = efp::abs(f); VF_ASSERT(g >= 0 && (g == f || g == -f)); }
    else if (how == 6) { int s = vf::range("s", -40000, 40000); VF_ASSERT_MSG(square((long long)s) == (long long)s * s, "square is the product with itself"); VF_ASSERT(square(d) == d * d || d * d != d * d); }
    else if (how == 7) { __vf_assume(d == d && e == e); Complex<double> z(d, e); VF_ASSERT_MSG(complex_cast<false>(z) == d, "complex_cast to a real number takes the real part"); Complex<double> w = complex_cast<true>(d); VF_ASSERT_MSG(w.real() == d && w.imag() == 0, "complex_cast of a real number has no imaginary part"); Complex<double> k = complex_cast<true>(z); VF_ASSERT_MSG(k.real() == d && k.imag() == e && complex_cast<false>(d) == d, "complex_cast to the same kind is the identity"); }
    else { int p = vf::range("p", -1000, 1000), q = vf::range("q", 1, 1000); bool u = vf::sym<bool>("u"), w = vf::sym<bool>("w"); VF_ASSERT(op_add(p, q) == p + q && op_sub(p, q) == p - q && op_mul(p, q) == p * q && op_neg(p) == -p); VF_ASSERT(op_div(p, q) == p / q && op_mod(p, q) == p % q); VF_ASSERT(op_eq(p, q) == (p == q) && op_neq(p, q) == (p != q) && op_lt(p, q) == (p < q) && op_gt(p, q) == (p > q) && op_leq(p, q) == (p <= q) && op_geq(p, q) == (p >= q)); VF_ASSERT(op_and(u, w) == (u && w) && op_or(u, w) == (u || w) && op_not(u) == !u); int y = p, z2 = q; efp::swap(y, z2); VF_ASSERT(y == q && z2 == p); }
    __vf_reach("done");
}
// is_approx: difference within the precision of the common type, for every pair of types
VF_ENTRY(num_approx) {
    int how = vf::pick("how", 0, 5);
    if (how == 0) { double a = vf::sym<double>("a"), b = vf::sym<double>("b"); __vf_assume(isfin(a) && isfin(b)); double d = a - b; bool w = (d < 0 ? -d : d) <= 2.220446049250313e-16; VF_ASSERT_MSG((is_approx(a, b) != 0) == w, "is_approx of doubles is a difference of at most their precision"); }
    else if (how == 1) { float a = vf::sym<float>("a"), b = vf::sym<float>("b"); __vf_assume(isfin(a) && isfin(b)); float d = a - b; bool w = (d < 0 ? -d : d) <= 1.1920929e-7f; VF_ASSERT_MSG((is_approx(a, b) != 0) == w, "is_approx of floats is a difference of at most their precision"); }
    else if (how == 2) { double a = vf::sym<double>("a"); int k = vf::range("k", -1000, 1000); __vf_assume(isfin(a)); double d = a - k; bool w = (d < 0 ? -d : d) <= 2.220446049250313e-16; VF_ASSERT_MSG((is_approx(a, k) != 0) == w, "is_approx of a double and an int keeps the fraction"); }
    else if (how == 3) { double a = vf::sym<double>("a"); long k = vf::range("k", -1000, 1000); __vf_assume(isfin(a)); __vf_assume(a >= -2000 && a <= 2000); double d = a - (double)k; bool w = (d < 0 ? -d : d) <= 2.220446049250313e-16; VF_ASSERT_MSG((is_approx(a, k) != 0) == w, "is_approx of a double and a long keeps the fraction"); }
    else if (how == 4) { float a = vf::sym<float>("a"); int k = vf::range("k", -100, 100); __vf_assume(a >= -200 && a <= 200); float d = a - (float)k; bool w = (d < 0 ? -d : d) <= 1.1920929e-7f; VF_ASSERT_MSG((is_approx(a, k) != 0) == w, "is_approx of a float and an int keeps the fraction"); }
    else { int a = vf::range("a", -100000, 100000), b = vf::range("b", -100000, 100000); VF_ASSERT_MSG((is_approx(a, b) != 0) == (a == b), "is_approx of ints is equality"); }
    __vf_reach("done");
}
