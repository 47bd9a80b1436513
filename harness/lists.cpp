// Helpers over a written-out list that the library uses for static sizes, alignments and the lengths of several sequences.
// They are internal: when a change renames or reshapes them, this file does not compile and the check goes without it.
#include "efp.hpp"
#include "vf.h"
using namespace efp;
template <class A> static bool isfin(A x) { return x - x == 0; }
// the forms over a written-out list (also used for static sizes and for the lengths of several sequences)
template <class T, class F> static void list_of(F ok) {
    T a = vf::sym<T>("a"), b = vf::sym<T>("b"), c = vf::sym<T>("c"); __vf_assume(ok(a) && ok(b) && ok(c)); T hi = _maximum({a, b, c}), lo = _minimum({a, b, c}); VF_ASSERT_MSG(hi >= a && hi >= b && hi >= c && (hi == a || hi == b || hi == c), "the largest of a list is its largest element"); VF_ASSERT_MSG(lo <= a && lo <= b && lo <= c && (lo == a || lo == b || lo == c), "the smallest of a list is its smallest element");
    VF_ASSERT(_maximum({a}) == a && _minimum({a}) == a); T h2 = _maximum({a, b}), l2 = _minimum({b, a}); VF_ASSERT(h2 == (a < b ? b : a) && l2 == (a < b ? a : b));
}
VF_ENTRY(num_lists) {
    int how = vf::pick("how", 0, 8);
    if (how == 0) list_of<int>([](int) { return true; }); else if (how == 1) list_of<signed char>([](int) { return true; }); else if (how == 2) list_of<size_t>([](size_t) { return true; }); else if (how == 3) list_of<double>([](double v) { return v == v; }); else if (how == 4) list_of<float>([](float v) { return v == v; });
    else if (how == 5) { size_t a = vf::sym<size_t>("a"), b = vf::sym<size_t>("b"), c = vf::sym<size_t>("c"); __vf_assume(a < (1ull << 60) && b < (1ull << 60) && c < (1ull << 60)); VF_ASSERT_MSG(_sum({a, b, c}) == a + b + c, "the sum of a list adds every element once"); VF_ASSERT(_sum({a}) == a); }
    else if (how == 6) { size_t a = vf::sym<size_t>("a"), b = vf::sym<size_t>("b"); __vf_assume(a < (1ull << 32) && b < (1ull << 32)); VF_ASSERT_MSG(_product({a, b}) == a * b, "the product of a list multiplies every element once"); VF_ASSERT(_product({a}) == a && _product({a, (size_t)3, (size_t)2}) == a * 6); }
    else if (how == 7) { double a = vf::sym<double>("a"), b = vf::sym<double>("b"); __vf_assume(isfin(a) && isfin(b)); VF_ASSERT_MSG(_sum({a, b}) == a + b, "the sum of a list adds every element once"); VF_ASSERT(_product({a}) == a); }
    else { bool a = vf::sym<bool>("a"), b = vf::sym<bool>("b"), c = vf::sym<bool>("c"), d = vf::sym<bool>("d"); VF_ASSERT_MSG(_all({a, b, c, d}) == (a & b & c & d) && _any({a, b, c, d}) == (a | b | c | d), "all and any of a list are its conjunction and disjunction"); VF_ASSERT(_all({a}) == a && _any({a}) == a); }
    __vf_reach("done");
}
