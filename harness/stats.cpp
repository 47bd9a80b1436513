// Statistics against their defining equations.  Run with doubles read as exact reals (--real):
// every assertion allows 1e-6, so a counterexample is a wrong formula, not a rounding error.
#include "hof.h"
#include "efp/scientific.hpp"
#ifndef CAPS
#define CAPS 40
#endif
static bool near0(double d) { return d <= 1e-6 && d >= -1e-6; }
static double val_in(const char* nm, double b) { double x = vf::sym<double>(nm); __vf_assume(x >= -b && x <= b); return x; }
// kinds of sequences holding the doubles v[0..n)
struct KVector { typedef Vector<double> S; S s; KVector(const double* v, int n) { for (int i = 0; i < n; ++i) s.push_back(v[i]); } };
struct KArrVec { typedef ArrVec<double, CAPS> S; S s; KArrVec(const double* v, int n) { for (int i = 0; i < n; ++i) s.push_back(v[i]); } };
struct KStd { typedef std::vector<double> S; S s; KStd(const double* v, int n) : s(v, v + n) {} };
struct KView { typedef VectorView<double> S; double o[CAPS]; S s; static double* cp(double* o, const double* v, int n) { for (int i = 0; i < n; ++i) o[i] = v[i]; return o; } KView(const double* v, int n) : s(cp(o, v, n), (size_t)n) {} };
template <size_t N> struct KArray { typedef Array<double, N> S; S s; KArray(const double* v, int) { for (size_t i = 0; i < N; ++i) s[i] = v[i]; } };
static double sumof(const double* v, int n) { double t = 0; for (int i = 0; i < n; ++i) t += v[i]; return t; }

template <class S> static void one(const S& s, const double* v, int n) {
    double T = sumof(v, n), m = T / n, q = 0, dev = 0; for (int i = 0; i < n; ++i) { q += v[i] * v[i]; dev += (v[i] - m) * (v[i] - m); }
    int how = vf::pick("how", 0, n > 1 ? 6 : 4);
    if (how == 0) { double r = mean<double>(s); VF_ASSERT_MSG(near0(r * n - T), "mean times length is the sum"); }
    else if (how == 1) { double r = rms<double>(s); VF_ASSERT_MSG(r >= 0 && near0(r * r * n - q), "rms squared is the mean of the squares"); }
    else if (how == 2) { double r = variance<double>(s); VF_ASSERT_MSG(near0(r * n - dev), "variance is the mean squared deviation"); }
    else if (how == 3) { double r = standard_deviation<double>(s); VF_ASSERT_MSG(r >= 0 && near0(r * r * n - dev), "standard deviation squared is the variance"); }
    else if (how == 4) { auto r = remove_dc<double>(s); VF_ASSERT_MSG((int)length(r) == n, "remove_dc keeps the length"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(near0(nth((size_t)i, r) - (v[i] - m)), "remove_dc subtracts the mean from every element"); }
    else if (how == 5) { double r = variance<double, true>(s); VF_ASSERT_MSG(near0(r * (n - 1) - dev), "corrected variance divides by n-1"); }
    else { double r = standard_deviation<double, true>(s); VF_ASSERT_MSG(r >= 0 && near0(r * r * (n - 1) - dev), "corrected standard deviation squared is the corrected variance"); }
    __vf_reach("done");
}
template <class A, class B> static void two(const A& a, const B& b, const double* v, const double* w, int n) {
    double sse_ = 0, mv = sumof(v, n) / n, mw = sumof(w, n) / n, cov = 0, dv = 0, dw = 0;
    for (int i = 0; i < n; ++i) { sse_ += (v[i] - w[i]) * (v[i] - w[i]); cov += (v[i] - mv) * (w[i] - mw); dv += (v[i] - mv) * (v[i] - mv); dw += (w[i] - mw) * (w[i] - mw); }
    int how = vf::pick("how", 0, n > 1 ? 9 : 4);
    if (how == 0) { double r = sse<double>(a, b); VF_ASSERT_MSG(near0(r - sse_), "sse is the sum of squared errors"); }
    else if (how == 1) { double r = mse<double>(a, b); VF_ASSERT_MSG(near0(r * n - sse_), "mse is the mean of the squared errors"); }
    else if (how == 2) { double r = rmse<double>(a, b); VF_ASSERT_MSG(r >= 0 && near0(r * r * n - sse_), "rmse squared is mse"); }
    else if (how == 3) { __vf_assume(mw >= 1 || mw <= -1); double r = nrmse_mean<double>(a, b), q = r * mw; VF_ASSERT_MSG(q >= 0 && near0(q * q * n - sse_), "nrmse_mean times the mean of the reference is rmse"); }
    else if (how == 4) { double r = covariance<double>(a, b); VF_ASSERT_MSG(near0(r * n - cov), "covariance is the mean product of the deviations"); }
    else if (how == 5) { double r = covariance<double, true>(a, b); VF_ASSERT_MSG(near0(r * (n - 1) - cov), "corrected covariance divides by n-1"); }
    else if (how == 6) { __vf_assume(w[0] >= w[1] + 1); for (int i = 2; i < n; ++i) __vf_assume(w[i] <= w[0] && w[i] >= w[1]); double r = nrmse_max_min<double>(a, b), q = r * (w[0] - w[1]); VF_ASSERT_MSG(q >= 0 && near0(q * q * n - sse_), "nrmse_max_min times the range of the reference is rmse"); }
    else if (how == 7) { __vf_assume(dv >= 1); auto t = linear_regression<double>(a, b); double k = get<0>(t), c = get<1>(t), e0 = 0, e1 = 0; for (int i = 0; i < n; ++i) { double e = w[i] - (k * v[i] + c); e0 += e; e1 += e * (v[i] - mv); } VF_ASSERT_MSG(near0(e0), "regression residuals sum to zero"); VF_ASSERT_MSG(near0(e1), "regression residuals are orthogonal to the regressor"); }
    else { bool bc = how == 9; __vf_assume(dv >= 1 && dw >= 1); double r = bc ? correlation<double, true>(a, b) : correlation<double>(a, b), sa = bc ? standard_deviation<double, true>(a) : standard_deviation<double>(a), sb = bc ? standard_deviation<double, true>(b) : standard_deviation<double>(b); VF_ASSERT_MSG(near0(r * sa * sb * (bc ? n - 1 : n) - cov), "correlation times both standard deviations is the covariance"); }
    __vf_reach("done");
}
template <class S> static void lagged(const S& s, const double* v, int n) {
    double m = sumof(v, n) / n, dev = 0; for (int i = 0; i < n; ++i) dev += (v[i] - m) * (v[i] - m);
    int lag = vf::pick("lag", 0, n - 1), how = vf::pick("how", 0, 5); double c = 0; for (int i = 0; i + lag < n; ++i) c += (v[i] - m) * (v[i + lag] - m);
    if (how == 0) { double r = autocovariance<double>(s, lag); VF_ASSERT_MSG(near0(r * n - c), "autocovariance is the lagged product of deviations over n"); }
    else if (how == 1) { __vf_assume(n > 1); double r = autocovariance<double, true>(s, lag); VF_ASSERT_MSG(near0(r * (n - 1) - c), "corrected autocovariance divides by n-1"); }
    else if (how == 2) { double r = autocovariance<double, false, true>(s, lag); VF_ASSERT_MSG(near0(r * (n - lag) - c), "adjusted autocovariance divides by n-lag"); }
    else if (how == 3) { __vf_assume(n - lag > 1); double r = autocovariance<double, true, true>(s, lag); VF_ASSERT_MSG(near0(r * (n - lag - 1) - c), "corrected adjusted autocovariance divides by n-lag-1"); }
    else if (how == 4) { __vf_assume(dev >= 1); double r = autocorrelation<double>(s, lag); VF_ASSERT_MSG(near0(r * dev - c), "autocorrelation is the autocovariance over the variance"); if (lag == 0) VF_ASSERT_MSG(near0(r - 1), "autocorrelation at lag 0 is 1"); }
    else { __vf_assume(n > 1 && dev >= 1); double r = autocorrelation<double, true>(s, lag); VF_ASSERT_MSG(near0(r * dev - c), "corrected autocorrelation is the corrected autocovariance over the corrected variance"); }
    __vf_reach("done");
}
template <class S> static void trend(const S& s, const double* v, int n) {
    if (vf::pick("how", 0, 1)) {
        auto t = linear_regression_with_index<double>(s); double k = get<0>(t), c = get<1>(t), e0 = 0, e1 = 0; for (int i = 0; i < n; ++i) { double e = v[i] - (k * i + c); e0 += e; e1 += e * i; }
        VF_ASSERT_MSG(near0(e0), "regression residuals sum to zero"); VF_ASSERT_MSG(near0(e1), "regression residuals are orthogonal to the index");
    } else {
        auto r = detrend<double>(s); VF_ASSERT_MSG((int)length(r) == n, "detrend keeps the length"); double e0 = 0, e1 = 0; for (int i = 0; i < n; ++i) { double d = nth((size_t)i, r); e0 += d; e1 += d * i; }
        VF_ASSERT_MSG(near0(e0) && near0(e1), "detrended elements have no constant and no linear part");
        for (int i = 0; i + 2 < n; ++i) { double a = v[i] - nth((size_t)i, r), b = v[i + 1] - nth((size_t)(i + 1), r), d = v[i + 2] - nth((size_t)(i + 2), r); VF_ASSERT_MSG(near0(a - b - b + d), "detrend removes a straight line"); }
    }
    __vf_reach("done");
}
static int fill(double* v, const char* nm, int lo, int hi) { int n = vf::pick("n", lo, hi); for (int i = 0; i < n; ++i) v[i] = val_in(nm, 100); return n; }
template <class K> static void g_one(int lo, int hi) { double v[CAPS]; int n = fill(v, "x", lo, hi); K k(v, n); one(k.s, v, n); }
template <class K> static void g_lag(int lo, int hi) { double v[CAPS]; int n = fill(v, "x", lo, hi); K k(v, n); lagged(k.s, v, n); }
template <class K> static void g_trend(int lo, int hi) { double v[CAPS]; int n = fill(v, "x", lo, hi); K k(v, n); trend(k.s, v, n); }
template <class K, class L> static void g_two(int lo, int hi) { double v[CAPS], w[CAPS]; int n = fill(v, "x", lo, hi); for (int i = 0; i < n; ++i) w[i] = val_in("y", 100); K k(v, n); L l(w, n); two(k.s, l.s, v, w, n); }
static int nmax() { return __vf_param("n", 4); }
VF_ENTRY(st_one_vector) { g_one<KVector>(1, nmax()); }
VF_ENTRY(st_one_arrvec) { g_one<KArrVec>(1, nmax()); }
VF_ENTRY(st_one_std) { g_one<KStd>(1, nmax()); }
VF_ENTRY(st_one_view) { g_one<KView>(1, nmax()); }
VF_ENTRY(st_one_array3) { g_one<KArray<3>>(3, 3); }
VF_ENTRY(st_one_array1) { g_one<KArray<1>>(1, 1); }
VF_ENTRY(st_two_vector) { g_two<KVector, KVector>(1, nmax()); }
VF_ENTRY(st_two_arrvec_std) { g_two<KArrVec, KStd>(1, nmax()); }
VF_ENTRY(st_two_array3) { g_two<KArray<3>, KArray<3>>(3, 3); }
VF_ENTRY(st_lag_vector) { g_lag<KVector>(1, nmax()); }
VF_ENTRY(st_lag_array3) { g_lag<KArray<3>>(3, 3); }
VF_ENTRY(st_trend_vector) { g_trend<KVector>(2, nmax()); }
VF_ENTRY(st_trend_arrvec) { g_trend<KArrVec>(2, nmax()); }
VF_ENTRY(st_trend_array3) { g_trend<KArray<3>>(3, 3); }
VF_ENTRY(st_trend_std) { g_trend<KStd>(2, nmax()); }
// long sequences: the values follow a line with free slope and offset, one element free
VF_ENTRY(st_long) {
    static const int sizes[] = {9, 17, 33}; int n = sizes[vf::pick("size", 0, 2)], at = vf::pick("at", 0, 2) * (n - 1) / 2; double v[CAPS], a = val_in("a", 10), b = val_in("b", 10), x = val_in("x", 100); Vector<double> s;
    for (int i = 0; i < n; ++i) { v[i] = i == at ? x : a * i + b; s.push_back(v[i]); }
    int g = vf::pick("group", 0, 2); if (g == 0) one(s, v, n); else if (g == 1) trend(s, v, n); else { int lag = 3; double m = sumof(v, n) / n, c = 0; for (int i = 0; i + lag < n; ++i) c += (v[i] - m) * (v[i + lag] - m); VF_ASSERT_MSG(near0(autocovariance<double>(s, lag) * n - c), "autocovariance is the lagged product of deviations over n"); __vf_reach("done"); }
}
VF_ENTRY(st_long_two) {
    static const int sizes[] = {9, 17, 33}; int n = sizes[vf::pick("size", 0, 2)], at = vf::pick("at", 0, 2) * (n - 1) / 2; double v[CAPS], w[CAPS], a = val_in("a", 10), x = val_in("x", 100); Vector<double> s, t;
    for (int i = 0; i < n; ++i) { v[i] = a * i + 1; w[i] = i == at ? x : 5 - 2 * i; s.push_back(v[i]); t.push_back(w[i]); }
    two(s, t, v, w, n);
}
VF_ENTRY(st_huge_trend) {   // a straight line of more than a thousand samples
    int n = vf::pick("size", 0, 1) ? 1400 : 1290; double a = val_in("a", 10), b = val_in("b", 10); Vector<double> s; for (int i = 0; i < n; ++i) s.push_back(a * i + b);
    auto t = linear_regression_with_index<double>(s); double k = get<0>(t), c = get<1>(t); VF_ASSERT_MSG(near0((k - a) * 1e-2) && near0((c - b) * 1e-2), "the regression of a straight line is that line"); __vf_reach("done");
}
// integer elements: statistics of ints are not integer arithmetic
template <class A> static void int_stats(int b) {
    int n = vf::pick("n", 1, __vf_param("n", 3)); double t = 0, v[4]; Vector<A> s; int how = vf::pick("how", 0, 1);
    for (int i = 0; i < n; ++i) { int x = vf::range("x", -b, b); v[i] = x; s.push_back((A)x); t += v[i]; }
    if (how == 0) { double r = mean<double>(s); VF_ASSERT_MSG(near0(r * n - t), "mean of integers times length is the sum"); }
    else { auto r = remove_dc<double>(s); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(near0(nth((size_t)i, r) * n - (v[i] * n - t)), "remove_dc of integers subtracts the mean"); }
    __vf_reach("done");
}
VF_ENTRY(st_ints) { int_stats<int>(1000); }
VF_ENTRY(st_i8) { int_stats<signed char>(30); }
VF_ENTRY(st_int_errors) {   // IEEE arithmetic
    int n = vf::pick("n", 1, 2), e = 0; Vector<int> s, u; static const int vs[] = {-30, -7, -1, 0, 1, 2, 30}; for (int i = 0; i < n; ++i) { int x = vs[vf::pick("x", 0, 6)], y = i ? vs[2 * vf::pick("y", 0, 3)] : (int)__vf_concretize((uint64_t)(vf::range("y", -30, 30) + 30)) - 30; s.push_back(x); u.push_back(y); e += (x - y) * (x - y); }
    if (vf::pick("how", 0, 1)) { double r = sse<double>(s, u); VF_ASSERT_MSG(near0(r - e), "sse of integers is the sum of squared errors"); } else { double r = mse<double>(s, u); VF_ASSERT_MSG(near0(r - (double)e / n), "mse of integers is the mean of the squared errors"); }
    __vf_reach("done");
}
VF_ENTRY(st_narrow_trend) {   // more samples than the element type can count
    int n = 150, at = vf::pick("at", 0, 2) * 74; int x = vf::range("x", -100, 100); double v[150]; Vector<signed char> s; for (int i = 0; i < n; ++i) { v[i] = i == at ? x : 0; s.push_back(i == at ? (signed char)x : 0); }
    auto r = detrend<double>(s); double e0 = 0, e1 = 0; for (int i = 0; i < n; ++i) { double d = nth((size_t)i, r); e0 += d; e1 += d * i; } VF_ASSERT_MSG((int)length(r) == n, "detrend keeps the length"); VF_ASSERT_MSG(near0(e0) && near0(e1), "detrended elements have no constant and no linear part"); for (int i = 0; i < 3; ++i) { int k = i * 49; double d = nth((size_t)k, r) - v[k] - 2 * (nth((size_t)(k + 1), r) - v[k + 1]) + nth((size_t)(k + 2), r) - v[k + 2]; VF_ASSERT_MSG(near0(d), "detrend removes a straight line"); }
    __vf_reach("done");
}
