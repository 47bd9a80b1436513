// Strings: every operation against a list of characters; comparison, views and conversions.
#include "efp.hpp"
#include "model.h"
#include <string>
using namespace efp;
static const int CAP = 100;
typedef Model<CAP> M;
template <class C> struct Buf { C b[8]; M m; int n; };
template <class C> static C chr(const char* nm) { return vf::sym<C>(nm); }
template <class C> static void cstr(Buf<C>& o, const char* nm, int lo, int hi) { o.n = vf::pick(nm, lo, hi); for (int i = 0; i < o.n; ++i) { o.b[i] = chr<C>("ch"); __vf_assume(o.b[i] != C(0)); o.m.push((int)o.b[i]); } o.b[o.n] = C(0); }
template <class C> static void agree_s(Vector<C>& s, const M& m) {
    agree(s, m);
    const Vector<C>& c = s; const C* p = c.c_str();
    VF_ASSERT_MSG(p[m.n] == C(0), "c_str() is terminated");
    for (int i = 0; i < m.n; ++i) VF_ASSERT_MSG((int)p[i] == m.v[i], "c_str() holds the characters");
    for (int i = 0; i < m.n; ++i) VF_ASSERT_MSG((int)c.at((size_t)i) == m.v[i], "at() yields the character");
    if (m.n) VF_ASSERT_MSG((int)c.front() == m.v[0] && (int)c.back() == m.v[m.n - 1], "front() and back()");
    bool t = false; try { (void)c.at((size_t)m.n); } catch (const RuntimeError&) { t = true; } VF_ASSERT_MSG(t, "at() refuses positions outside the string");
}
template <class C> static void history() {
    typedef Vector<C> S; int k = __vf_param("k", 2);
    {
        S s; M m; Buf<C> b;
        int mk = vf::pick("make", __vf_param("lo", 0), __vf_param("hi", 5));
        if (mk == 1) { cstr(b, "n", 0, 2); s = S(b.b); m.assign(b.m); }
        else if (mk == 2) { int n = vf::pick("n", 0, 3); C c = chr<C>("c"); S t((size_t)n, c); s = efp::move(t); for (int i = 0; i < n; ++i) m.push((int)c); }
        else if (mk == 3) { C raw[3]; int n = vf::pick("n", 0, 3); for (int i = 0; i < n; ++i) { raw[i] = chr<C>("c"); m.push((int)raw[i]); } s = S(raw, (size_t)n); }
        else if (mk == 4) { C c = chr<C>("c"), d = chr<C>("d"); s = S{c, d}; m.push((int)c); m.push((int)d); }
        else if (mk == 5) { C raw[3]; int n = vf::pick("n", 0, 3); for (int i = 0; i < n; ++i) { raw[i] = chr<C>("c"); m.push((int)raw[i]); } s = S((const C*)raw, (const C*)raw + n); }
        agree_s(s, m);
        for (int step = 0; step < k; ++step) {
            int op = vf::pick("op", 0, step + 1 == k ? 19 : 16);
            if (op == 0) { C c = chr<C>("c"); s.push_back(c); m.push((int)c); }
            else if (op == 1) { Buf<C> o; cstr(o, "len", 0, 2); S t(o.b); S& r = (s += t); VF_ASSERT(&r == &s); for (int i = 0; i < o.n; ++i) m.push(o.m.v[i]); agree_s(t, o.m); }
            else if (op == 2) { s += s; int n = m.n; for (int i = 0; i < n; ++i) m.push(m.v[i]); }
            else if (op == 3) { Buf<C> o; cstr(o, "len", 0, 2); S& r = s.append(o.b); VF_ASSERT(&r == &s); for (int i = 0; i < o.n; ++i) m.push(o.m.v[i]); }
            else if (op == 4) { int n = vf::pick("len", 0, 2); C c = chr<C>("c"); s.append((size_t)n, c); for (int i = 0; i < n; ++i) m.push((int)c); }
            else if (op == 5) { Buf<C> o; cstr(o, "len", 0, 2); s.assign(o.b); m.assign(o.m); }
            else if (op == 6) { int n = vf::pick("len", 0, 2); C c = chr<C>("c"); s.assign((size_t)n, c); m.clear(); for (int i = 0; i < n; ++i) m.push((int)c); }
            else if (op == 7 || op == 8) { // insert a C string, or the first n characters of a buffer
                Buf<C> o; cstr(o, "len", 0, 2); int pos = vf::pick("pos", 0, m.n + 1); bool t = false; M before = m;
                try { S& r = op == 7 ? s.insert((size_t)pos, o.b) : s.insert((size_t)pos, o.b, (size_t)o.n); VF_ASSERT(&r == &s); for (int i = 0; i < o.n; ++i) m.insert(pos + i, o.m.v[i]); } catch (const RuntimeError&) { t = true; }
                VF_ASSERT_MSG(t == (pos > before.n), "insert refuses exactly the positions beyond the end"); }
            else if (op == 9) { int pos = vf::pick("pos", 0, m.n + 1); size_t len = vf::sym<size_t>("len"); bool t = false; const int had = m.n; int l = (int)__vf_concretize(len < (size_t)3 ? len : (size_t)3); size_t ln = len < 3 ? (size_t)l : len;
                try { S r = ((const S&)s).substr((size_t)pos, ln); M e; for (int i = pos; i < m.n && (ln >= 3 ? ((size_t)(i - pos) < ln) : i - pos < l); ++i) e.push(m.v[i]); agree_s(r, e); agree_s(s, m); s = r; m.assign(e); } catch (const RuntimeError&) { t = true; }
                VF_ASSERT_MSG(t == (pos > had), "substr refuses exactly the positions beyond the end"); }
            else if (op == 10) { C out[8]; for (int i = 0; i < 8; ++i) out[i] = C(77); int pos = vf::pick("pos", 0, m.n + 1), cnt = vf::pick("cnt", 0, 3); bool t = false; size_t got = 0; try { got = s.copy(out, (size_t)cnt, (size_t)pos); } catch (const RuntimeError&) { t = true; }
                VF_ASSERT_MSG(t == (pos > m.n), "copy refuses exactly the positions beyond the end"); if (!t) { int w = m.n - pos < cnt ? m.n - pos : cnt; VF_ASSERT_MSG((int)got == w, "copy reports how many characters it copied"); for (int i = 0; i < 8; ++i) VF_ASSERT_MSG((int)out[i] == (i < w ? m.v[pos + i] : 77), "copy writes exactly those characters"); } }
            else if (op == 11) { s.clear(); m.clear(); }
            else if (op == 12) { bool t = false; int had = m.n; try { s.pop_back(); m.pop(); } catch (const RuntimeError&) { t = true; } VF_ASSERT(t == (had == 0)); if (t) m.n = 0; }
            else if (op == 13) { S t(s); agree_s(t, m); S u(efp::move(s)); agree_s(u, m); s = t; t.push_back(C(5)); }
            else if (op == 14) { if (m.n) { int i = vf::pick("pos", 0, m.n - 1); s.erase((size_t)i); m.erase(i); } }
            else if (op == 15) { s.shrink_to_fit(); }
            else if (op >= 17) { // a part of its own text
                const C* own = ((const S&)s).c_str(); int q = m.n ? vf::pick("from", 0, 1) : 0, pos = op == 17 || !m.n ? 2 : vf::pick("pos", 0, 2); if (pos == 2) pos = m.n; M o; for (int i = q; i < m.n; ++i) { if (op != 19 && m.v[i] == 0) break; o.push(m.v[i]); }
                if (op == 17) { if (vf::pick("assign", 0, 1)) { s.assign(own + q); m.clear(); pos = 0; } else s.append(own + q); } else if (op == 18) s.insert((size_t)pos, own + q); else s.insert((size_t)pos, own + q, (size_t)o.n);
                for (int i = 0; i < o.n; ++i) m.insert(pos + i, o.v[i]); }
            else { S t(efp::move(s)); M z; agree_s(s, z); s = efp::move(t); }
            agree_s(s, m);
        }
    }
    __vf_reach("done");
}
VF_ENTRY(string_history) { history<char>(); }
VF_ENTRY(wstring_history) { history<wchar_t>(); }
VF_ENTRY(u16string_history) { history<char16_t>(); }
VF_ENTRY(u32string_history) { history<char32_t>(); }

static int sgn(long long x) { return x < 0 ? -1 : x > 0; }
template <class C> struct Ch { typedef unsigned long long T; static T key(C c) { return (T)c; } };
template <> struct Ch<char> { typedef int T; static T key(char c) { return (unsigned char)c; } };
template <> struct Ch<wchar_t> { typedef int T; static T key(wchar_t c) { return (int)c; } };
// any characters, including NUL
template <class C> static Vector<C> any(M& m, C* raw, const char* nm, int hi) { int n = vf::pick(nm, 0, hi); for (int i = 0; i < n; ++i) { raw[i] = chr<C>("c"); m.push((int)raw[i]); } if (n == 0 && vf::pick("default", 0, 1)) return Vector<C>(); return Vector<C>(raw, (size_t)n); }
template <class C> static int lex(const C* a, int n, const C* b, int m) { for (int i = 0; i < n && i < m; ++i) { if (a[i] != b[i]) return Ch<C>::key(a[i]) < Ch<C>::key(b[i]) ? -1 : 1; } return n < m ? -1 : n > m; }
template <class C> static void comparisons() {
    M ma, mb; C ra[4], rb[4]; Vector<C> a = any<C>(ma, ra, "n", 3), b = any<C>(mb, rb, "m", 3);
    int w = lex(ra, ma.n, rb, mb.n); bool eq = w == 0;
    VF_ASSERT_MSG((a == b) == eq, "== of strings is equality of their characters"); VF_ASSERT_MSG((b == a) == eq, "== is symmetric");
    VF_ASSERT_MSG(sgn(a.compare(b)) == w, "compare orders strings lexicographically"); VF_ASSERT_MSG(sgn(b.compare(a)) == -w, "compare is antisymmetric");
    VectorView<C> va(a), vb(b), vc(a.data(), a.size());
    VF_ASSERT_MSG((va == vb) == eq, "== of views is equality of their characters"); VF_ASSERT_MSG((vb == va) == eq, "== is symmetric"); VF_ASSERT_MSG(va == vc, "views of the same characters are equal");
    VF_ASSERT_MSG((int)va.size() == ma.n && va.data() == a.data(), "a view names the string's characters");
    int pos = vf::pick("pos", 0, ma.n + 1); int len = vf::pick("len", 0, 3); bool t = false; int r = 0;
    try { r = a.compare((size_t)pos, (size_t)len, b); } catch (const RuntimeError&) { t = true; }
    VF_ASSERT_MSG(t == (pos > ma.n), "compare refuses exactly the positions beyond the end");
    if (!t) { int l = ma.n - pos < len ? ma.n - pos : len; VF_ASSERT_MSG(sgn(r) == lex(ra + pos, l, rb, mb.n), "compare of a part orders that part"); }
    vf::obs((uint64_t)(w + 1)); __vf_reach("done");
}
VF_ENTRY(string_compare) { comparisons<char>(); }
VF_ENTRY(u16string_compare) { comparisons<char16_t>(); }
VF_ENTRY(wstring_compare) { comparisons<wchar_t>(); }
template <class C> static void c_equal() {
    M ma; C ra[4]; Vector<C> a = any<C>(ma, ra, "n", 3); Buf<C> o; cstr(o, "m", 0, 3);
    bool eq = ma.n == o.n; for (int i = 0; i < ma.n && i < o.n; ++i) eq = eq & (ma.v[i] == o.m.v[i]);
    VF_ASSERT_MSG((a == o.b) == eq, "== with a C string is equality of the characters"); VectorView<C> v(a); VF_ASSERT_MSG((v == o.b) == eq, "== with a C string is equality of the characters");
    VectorView<C> z(o.b); VF_ASSERT_MSG((int)z.size() == o.n && z.data() == o.b, "a view of a C string ends before the terminator"); VF_ASSERT_MSG(z == o.b, "a view of a C string equals it"); VF_ASSERT_MSG((z == v) == eq, "== of views is equality of their characters");
    Vector<C> s(o.b); VF_ASSERT_MSG((s == a) == eq, "== of strings is equality of their characters"); VectorView<C> conv(s); VF_ASSERT((int)conv.size() == o.n && conv.data() == s.data());
    VectorView<C> none; VF_ASSERT_MSG((none == o.b) == (o.n == 0), "an empty view equals the empty string only"); VF_ASSERT((none == v) == (ma.n == 0));
    __vf_reach("done");
}
VF_ENTRY(string_c_equal) { c_equal<char>(); }
VF_ENTRY(u32string_c_equal) { c_equal<char32_t>(); }
VF_ENTRY(string_std) {
    M ma; char ra[4]; String a = any<char>(ma, ra, "n", 3); std::string s = a; VF_ASSERT_MSG((int)s.size() == ma.n, "conversion to std::string keeps every character"); for (int i = 0; i < ma.n; ++i) VF_ASSERT_MSG(s[(size_t)i] == ra[i], "conversion to std::string keeps every character");
    StringView v(a); std::string q = v; VF_ASSERT_MSG((int)q.size() == ma.n, "conversion of a view to std::string keeps every character"); for (int i = 0; i < ma.n; ++i) VF_ASSERT(q[(size_t)i] == ra[i]);
    // strings are sequences
    auto up = map([](char c) { return (char)(c + 1); }, a); VF_ASSERT((int)up.size() == ma.n); for (int i = 0; i < ma.n; ++i) VF_ASSERT(up[(size_t)i] == (char)(ra[i] + 1));
    { const std::string& cs = s; VF_ASSERT((int)efp::length(cs) == ma.n && efp::data(cs) == cs.data() && efp::data(s) == &s[0]); for (int i = 0; i < ma.n; ++i) VF_ASSERT_MSG(&efp::nth((size_t)i, cs) == cs.data() + i && &efp::nth((size_t)i, s) == cs.data() + i, "a std::string is read as a sequence"); auto um = map([](char c) { return (char)(c + 1); }, s); VF_ASSERT((int)efp::length(um) == ma.n); for (int i = 0; i < ma.n; ++i) VF_ASSERT(um[(size_t)i] == (char)(ra[i] + 1)); }
    auto dbl = append(a, a); VF_ASSERT((int)dbl.size() == 2 * ma.n); for (int i = 0; i < 2 * ma.n; ++i) VF_ASSERT(dbl[(size_t)i] == ra[i % (ma.n ? ma.n : 1)]);
    auto odd = filter([](char c) { return (c & 1) != 0; }, a); int k = 0; for (int i = 0; i < ma.n; ++i) if (ra[i] & 1) { VF_ASSERT(odd[(size_t)k] == ra[i]); ++k; } VF_ASSERT((int)odd.size() == k); VF_ASSERT(dbl.c_str()[2 * ma.n] == 0 && odd.c_str()[k] == 0 && up.c_str()[ma.n] == 0);
    __vf_reach("done");
}
// joining strings
VF_ENTRY(string_join) {
    int n = vf::pick("n", 0, 3); Vector<String> v; M e, d; char rd[4]; String del = any<char>(d, rd, "d", 2);
    for (int i = 0; i < n; ++i) { M m; char r[4]; String s = any<char>(m, r, "m", 2); v.push_back(s); if (i) for (int j = 0; j < d.n; ++j) e.push(d.v[j]); for (int j = 0; j < m.n; ++j) e.push(m.v[j]); }
    String j = intercalate(del, v); agree_s(j, e); __vf_reach("done");
}

// long strings: comparisons with a difference at any position, and one operation at any position
static const int lens[] = {4, 6, 7, 8, 9, 12, 15, 16, 17, 23, 24, 31, 32, 33, 40};
template <class C> static void long_compare() {
    int n = lens[vf::pick("n", 0, 14)]; int w = vf::pick("m", 0, 3); int m = w == 0 ? n : w == 1 ? n - 1 : w == 2 ? n + 1 : n / 2; C ra[48], rb[48];
    for (int i = 0; i < n; ++i) { ra[i] = chr<C>("a"); __vf_assume(ra[i] != C(0)); } ra[n] = C(0); for (int i = 0; i < m; ++i) { rb[i] = chr<C>("b"); __vf_assume(rb[i] != C(0)); } rb[m] = C(0);
    int k = n < m ? n : m; int d = vf::pick("differ", 0, k); for (int i = 0; i < k; ++i) { if (i < d) __vf_assume(ra[i] == rb[i]); else if (i == d) __vf_assume(ra[i] != rb[i]); }   // first difference at d; d == k: none
    bool eq = d == k && n == m; bool less = d < k ? Ch<C>::key(ra[d]) < Ch<C>::key(rb[d]) : n < m; int want = eq ? 0 : less ? -1 : 1;
    Vector<C> a(ra), b(rb); VectorView<C> va(a), vb(rb);
    VF_ASSERT_MSG((a == b) == eq && (b == a) == eq, "== of strings is equality of their characters"); VF_ASSERT_MSG((a == (const C*)rb) == eq, "== with a C string is equality of the characters");
    VF_ASSERT_MSG((va == vb) == eq, "== of views is equality of their characters"); VF_ASSERT_MSG((va == (const C*)rb) == eq, "== of a view with a C string is equality of the characters");
    VF_ASSERT_MSG(sgn(a.compare(b)) == want, "compare orders strings lexicographically"); VF_ASSERT_MSG(sgn(a.compare(0, (size_t)k, b)) == (d < k ? want : k < m ? -1 : 0), "compare of a part orders that part");
    __vf_reach("done");
}
VF_ENTRY(string_long_compare) { long_compare<char>(); }
VF_ENTRY(u16string_long_compare) { long_compare<char16_t>(); }
VF_ENTRY(wstring_long_compare) { long_compare<wchar_t>(); }
template <class C> static void long_op() {
    typedef Vector<C> S; int n = lens[vf::pick("n", 0, 14)]; C raw[48]; M m; for (int i = 0; i < n; ++i) { raw[i] = chr<C>("a"); m.push((int)raw[i]); } S s(raw, (size_t)n); int store = vf::pick("store", 0, 2); if (store == 1) s.reserve((size_t)n + 30); else if (store == 2) s.shrink_to_fit();
    int op = vf::pick("op", 0, 13); C in[20]; bool ul = op <= 7 || op == 10 || op == 11, up = op <= 1 || op == 6 || op == 7 || op == 8 || op == 13; int li = ul ? vf::pick("len", 0, 5) : 0; static const int ll[] = {0, 1, 2, 7, 8, 16}; int l = ll[li]; for (int i = 0; i < l; ++i) { in[i] = chr<C>("i"); __vf_assume(in[i] != C(0)); } in[l] = C(0); int wp = up ? vf::pick("pos", 0, 4) : 0; int pos = wp == 0 ? 0 : wp == 1 ? 1 : wp == 2 ? n / 2 : wp == 3 ? n - 1 : n;
    if (op == 0) { s.insert((size_t)pos, in); for (int i = 0; i < l; ++i) m.insert(pos + i, (int)in[i]); }
    else if (op == 1) { s.insert((size_t)pos, in, (size_t)l); for (int i = 0; i < l; ++i) m.insert(pos + i, (int)in[i]); }
    else if (op == 2) { s.append(in); for (int i = 0; i < l; ++i) m.push((int)in[i]); }
    else if (op == 3) { s += S(in); for (int i = 0; i < l; ++i) m.push((int)in[i]); }
    else if (op == 4) { s.append((size_t)l, C(3)); for (int i = 0; i < l; ++i) m.push(3); }
    else if (op == 5) { s.assign(in); m.clear(); for (int i = 0; i < l; ++i) m.push((int)in[i]); }
    else if (op == 6) { S r = s.substr((size_t)pos, (size_t)l); M e; for (int i = pos; i < n && i < pos + l; ++i) e.push(m.v[i]); agree_s(r, e); }
    else if (op == 7) { C out[64]; for (int i = 0; i < 64; ++i) out[i] = C(77); size_t g = s.copy(out, (size_t)l, (size_t)pos); int w = n - pos < l ? n - pos : l; VF_ASSERT_MSG((int)g == w, "copy reports how many characters it copied"); for (int i = 0; i < 64; ++i) VF_ASSERT_MSG((int)out[i] == (i < w ? m.v[pos + i] : 77), "copy writes exactly those characters"); }
    else if (op == 8) { if (pos < n) { s.erase((size_t)pos); m.erase(pos); } }
    else if (op == 9) { if (l < 2) { s += s; int k = m.n; for (int i = 0; i < k; ++i) m.push(m.v[i]); } }
    else if (op == 10) { S t; t = s; agree_s(t, m); S u(in); t = u; M e; for (int i = 0; i < l; ++i) e.push((int)in[i]); agree_s(t, e); }
    else if (op == 13) { for (int i = 0; i < n; ++i) __vf_assume(raw[i] != C(0)); M o(m); int w = vf::pick("how", 0, 2); if (w == 0) { s.append(s.c_str()); pos = n; } else if (w == 1) s.insert((size_t)pos, s.c_str()); else s.insert((size_t)pos, s.c_str(), (size_t)n); for (int i = 0; i < n; ++i) m.insert(pos + i, o.v[i]); }
    else if (op == 11) { s.resize((size_t)l); if (l < m.n) m.n = l; for (int i = m.n; i < l; ++i) m.push(0); }
    else { s.push_back(C(9)); m.push(9); s.pop_back(); m.pop(); s.pop_back(); m.pop(); s.push_back(C(8)); m.push(8); s.push_back(C(7)); m.push(7); }
    agree_s(s, m); __vf_reach("done");
}
VF_ENTRY(string_long_op) { long_op<char>(); }
VF_ENTRY(u16string_long_op) { long_op<char16_t>(); }
