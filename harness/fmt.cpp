// format: the text of integers, characters, strings and sequences.
#include "efp.hpp"
#include "efp/format.hpp"
#include "vf.h"
using namespace efp;
struct Txt {
    char c[1700]; int n; Txt() : n(0) {} void ch(char x) { c[n++] = x; } void str(const char* s) { while (*s) ch(*s++); } void fill(int k, char x) { while (k-- > 0) ch(x); }
    void num(long long v, unsigned base = 10, bool plus = false) { char d[70]; int k = 0; bool neg = v < 0; unsigned u = neg ? 0u - (unsigned)v : (unsigned)v; do { unsigned r = u % base; d[k++] = (char)(r < 10 ? '0' + r : 'a' + r - 10); u /= base; } while (u); if (neg) ch('-'); else if (plus) ch('+'); while (k) ch(d[--k]); }
    void cat(const Txt& o) { for (int i = 0; i < o.n; ++i) ch(o.c[i]); }
};
static void is(const String& s, const Txt& t, const char* what) { VF_ASSERT_MSG((int)s.size() == t.n, what); bool same = true; for (int i = 0; i < t.n; ++i) same = same & (s[(size_t)i] == t.c[i]); VF_ASSERT_MSG(same, what); VF_ASSERT_MSG(s.c_str()[t.n] == 0, "the text is terminated"); }

// what reaches standard output
static char outb[700]; static int outn;
static bool out1(int c, FILE* f) { VF_ASSERT_MSG(f == stdout, "printing goes to standard output"); VF_ASSERT(outn < 700); outb[outn++] = (char)c; return true; }
extern "C" {
size_t __wrap_fwrite(const void* p, size_t sz, size_t n, FILE* f) { const char* b = (const char*)p; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < sz; ++j) if (!out1(*b++, f)) return i; return sz ? n : 0; }
size_t __wrap_fwrite_unlocked(const void* p, size_t sz, size_t n, FILE* f) { return __wrap_fwrite(p, sz, n, f); }
int __wrap_fputc(int c, FILE* f) { return out1(c, f) ? (unsigned char)c : EOF; }
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
int __wrap_fputs(const char* p, FILE* f) { for (; *p; ++p) if (!out1(*p, f)) return EOF; return 1; }
int __wrap_puts(const char* p) { if (__wrap_fputs(p, stdout) == EOF) return EOF; return __wrap_fputc('\n', stdout); }
int __wrap_fflush(FILE*) { return 0; }
}
static void printed(const Txt& t) { VF_ASSERT_MSG(outn == t.n, "exactly the text is printed"); bool same = true; for (int i = 0; i < t.n; ++i) same = same & (outb[i] == t.c[i]); VF_ASSERT_MSG(same, "exactly the text is printed"); }
VF_ENTRY(fmt_print) {
    Txt t; int k = vf::pick("k", 1, 2), x = 0; char z[4]; String s;
    for (int j = 0; j < k; ++j) {
        int how = vf::pick("how", 0, 5); x = j ? vf::range("x", -1, 10) : vf::range("x", -12, 120);
        if (how == 0) { print("a{}b", x); t.ch('a'); t.num(x); t.ch('b'); }
        else if (how == 1) { println("a{}b", x); t.ch('a'); t.num(x); t.str("b\n"); }
        else if (how == 2) { int n = vf::pick("n", 0, 3); s.clear(); for (int i = 0; i < n; ++i) { z[i] = (char)vf::sym<signed char>("c"); s.push_back(z[i]); } println("{}|{}", s, x); for (int i = 0; i < n; ++i) t.ch(z[i]); t.ch('|'); t.num(x); t.ch('\n'); }
        else if (how == 3) { Vector<int> v; v.push_back(x); v.push_back(7); print("{}", v); t.ch('['); t.num(x); t.str(", 7]"); }
        else if (how == 4) { println(""); t.ch('\n'); }
        else { println("{{}}"); t.str("{}\n"); }
        printed(t);
    }
    __vf_reach("done");
}
// every integer: the text is the canonical decimal numeral of the value
template <class A> static void numeral(const String& s, A x) {
    int n = (int)s.size(), i = 0; bool neg = x < 0; if (n && s[0] == '-') { VF_ASSERT_MSG(neg, "a minus sign only before negative values"); i = 1; } else VF_ASSERT_MSG(!neg, "a minus sign before negative values");
    VF_ASSERT_MSG(n > i, "there is a digit"); VF_ASSERT_MSG(s[(size_t)i] != '0' || n == i + 1, "no leading zero"); unsigned long long v = 0;
    for (; i < n; ++i) { char c = s[(size_t)i]; VF_ASSERT_MSG(c >= '0' && c <= '9', "only digits"); v = v * 10 + (unsigned long long)(c - '0'); }
    VF_ASSERT_MSG(v == (neg ? 0ull - (unsigned long long)(long long)x : (unsigned long long)x), "the numeral denotes the value");
}
VF_ENTRY(fmt_i8) { signed char x = vf::sym<signed char>("x"); numeral(format("{}", (int)x), x); __vf_reach("done"); }
VF_ENTRY(fmt_i16) { short x = (short)vf::range("x", -__vf_param("max", 1100), __vf_param("max", 1100) - 1); numeral(format("{}", x), x); __vf_reach("done"); }
// wider values: case-split around every change of length and around the limits
template <class A> static void near_powers() {
    bool sg = (A)-1 < (A)0; int digits = 1; for (A m = (A)(sg ? ((A)1 << (sizeof(A) * 8 - 2)) : (A)-1); m >= 10; m = (A)(m / 10)) ++digits;
    A p = 1; int k = vf::pick("digits", 0, digits + 1); A x;
    if (k <= digits) { for (int i = 0; i < k && i < digits - 1 + (sizeof(A) == 4 && sg ? 1 : 0) ; ++i) p = (A)(p * 10); x = (A)(p + (A)vf::pick("d", 0, 13) - 2); if (sg && vf::pick("neg", 0, 1)) x = (A)(0 - x); }
    else { A lo = sg ? (A)((A)1 << (sizeof(A) * 8 - 1)) : (A)0; x = vf::pick("top", 0, 1) ? (A)((A)(lo - 1) - (A)vf::pick("d", 0, 9)) : (A)(lo + (A)vf::pick("d", 0, 9)); }
    numeral(format("{}", x), x); __vf_reach("done");
}
VF_ENTRY(fmt_i32) { near_powers<int>(); }
VF_ENTRY(fmt_u32) { near_powers<unsigned>(); }
VF_ENTRY(fmt_i64) { near_powers<long long>(); }
VF_ENTRY(fmt_u64) { near_powers<unsigned long long>(); }
VF_ENTRY(fmt_long_int) { near_powers<long>(); }

VF_ENTRY(fmt_specs) {
    int x = vf::range("x", -130, 300), how = vf::pick("how", 0, 11); Txt t, b; b.num(x); int pad = 6 - b.n;
    if (how == 0) { t.fill(pad, ' '); t.cat(b); is(format("{:6}", x), t, "numbers are aligned right in their width"); }
    else if (how == 1) { t.cat(b); t.fill(pad, '*'); is(format("{:*<6}", x), t, "< aligns left"); }
    else if (how == 2) { t.fill(pad, ' '); t.cat(b); is(format("{:>6d}", x), t, "> aligns right"); }
    else if (how == 3) { t.fill(pad / 2, ' '); t.cat(b); t.fill(pad - pad / 2, ' '); is(format("{:^6}", x), t, "^ centres"); }
    else if (how == 4) { if (x < 0) t.ch('-'); t.fill(pad, '0'); for (int i = x < 0 ? 1 : 0; i < b.n; ++i) t.ch(b.c[i]); is(format("{:06}", x), t, "0 pads after the sign"); }
    else if (how == 5) { t.num(x, 10, true); is(format("{:+}", x), t, "+ writes the sign"); }
    else if (how == 6) { t.num(x, 16); is(format("{:x}", x), t, "x writes hexadecimal"); }
    else if (how == 7) { t.num(x, 2); is(format("{:b}", x), t, "b writes binary"); }
    else if (how == 8) { t.num(x, 8); is(format("{:o}", x), t, "o writes octal"); }
    else if (how == 9) { if (x < 0) t.ch('-'); t.str("0x"); Txt h; h.num(x < 0 ? -x : x, 16); t.cat(h); is(format("{:#x}", x), t, "# writes the prefix"); }
    else if (how == 10) { if (x >= 0) t.ch(' '); t.cat(b); is(format("{: }", x), t, "space stands for a plus sign"); }
    else { int w = vf::pick("w", 1, 9); t.fill(w - b.n, ' '); t.cat(b); is(format("{:{}}", x, w), t, "the width may be an argument"); }
    __vf_reach("done");
}
VF_ENTRY(fmt_args) {
    int a = vf::range("a", 0, 99), b = vf::range("b", -9, 9); char c = (char)vf::range("c", 32, 126); bool f = vf::sym<bool>("f"); Txt t; int how = vf::pick("how", 0, 7);
    if (how == 0) { t.str("x"); t.num(a); t.str("y"); t.num(b); t.str("z"); is(format("x{}y{}z", a, b), t, "arguments replace the fields in order"); }
    else if (how == 1) { t.num(b); t.ch('/'); t.num(a); t.ch('/'); t.num(b); is(format("{1}/{0}/{1}", a, b), t, "numbered fields take the numbered argument"); }
    else if (how == 2) { t.str("{"); t.num(a); t.str("}"); is(format("{{{}}}", a), t, "doubled braces are braces"); }
    else if (how == 3) { t.ch(c); t.ch('|'); t.ch(c); t.fill(3, ' '); is(format("{}|{:4}", c, c), t, "a character is written as itself"); }
    else if (how == 4) { t.str(f ? "true" : "false"); is(format("{}", f), t, "a bool is a word"); }
    else if (how == 5) { t.str("no fields"); is(format("no fields"), t, "text without fields is unchanged"); is(format(""), Txt(), "the empty text"); }
    else if (how == 6) { t.num(a); t.num(b); t.num(a); t.ch(c); t.num(b); is(format("{}{}{}{}{}", a, b, a, c, b), t, "adjacent fields"); }
    else { unsigned short u = (unsigned short)a; signed char s = (signed char)b; t.num(a); t.ch(' '); t.num(b); is(format("{} {}", u, s), t, "small integers are numbers"); }
    __vf_reach("done");
}
VF_ENTRY(fmt_strings) {
    int n = vf::pick("n", 0, 5); char z[8]; String s; for (int i = 0; i < n; ++i) { z[i] = (char)vf::range("c", 1, 126); s.push_back(z[i]); } z[n] = 0; Txt t; int how = vf::pick("how", 0, 5);
    if (how == 0) { t.ch('<'); t.str(z); t.ch('>'); is(format("<{}>", s), t, "a String is written as its characters"); }
    else if (how == 1) { t.str(z); t.str(z); const char* p = z; is(format("{}{}", p, s), t, "a C string is written as its characters"); }
    else if (how == 2) { t.str(z); t.fill(7 - n, ' '); is(format("{:7}", s), t, "text is aligned left in its width"); }
    else if (how == 3) { for (int i = 0; i < n && i < 3; ++i) t.ch(z[i]); is(format("{:.3}", s), t, "a precision cuts the text"); }
    else if (how == 4) { t.fill(7 - n, '-'); t.str(z); is(format("{:->7}", s), t, "text is aligned right when asked"); }
    else { t.str(z); is(format("{}", StringView(s.data(), s.size())), t, "a StringView is written as its characters"); }
    VF_ASSERT((int)s.size() == n); __vf_reach("done");
}
template <class S> static void listed(const S& s, const int* v, int n) { Txt t; t.str("s="); t.ch('['); for (int i = 0; i < n; ++i) { if (i) t.str(", "); t.num(v[i]); } t.str("];"); is(format("s={};", s), t, "a sequence is written as its elements in order, between brackets"); __vf_reach("done"); }
static void ints(int* v, int n) { for (int i = 0; i < n; ++i) v[i] = vf::range("x", -9, 12); }
VF_ENTRY(fmt_vector) { int v[4], n = vf::pick("n", 0, __vf_param("n", 3)); ints(v, n); Vector<int> s; for (int i = 0; i < n; ++i) s.push_back(v[i]); listed(s, v, n); }
VF_ENTRY(fmt_arrvec) { int v[4], n = vf::pick("n", 0, __vf_param("n", 3)); ints(v, n); ArrVec<int, 4> s; for (int i = 0; i < n; ++i) s.push_back(v[i]); listed(s, v, n); }
VF_ENTRY(fmt_array) { int v[3]; ints(v, 3); if (vf::pick("one", 0, 1)) { Array<int, 1> s{v[0]}; listed(s, v, 1); } else { Array<int, 3> s{v[0], v[1], v[2]}; listed(s, v, 3); } }
VF_ENTRY(fmt_vcb) { int v[6], n = vf::pick("n", 0, 5), w[3]; ints(v, n); Vcb<int, 3> s; for (int i = 0; i < 3; ++i) w[i] = 0; for (int i = 0; i < 3; ++i) s.push_back(0); for (int i = 0; i < n; ++i) { s.push_back(v[i]); w[0] = w[1]; w[1] = w[2]; w[2] = v[i]; } listed(s, w, 3); }
VF_ENTRY(fmt_vcq) { int v[5], n = vf::pick("n", 0, 5), w[3], k = 0; ints(v, n); Vcq<int, 3> s; int pops = vf::pick("pops", 0, 1); for (int i = 0; i < n; ++i) { s.push_back(v[i]); if (k == 3) { w[0] = w[1]; w[1] = w[2]; w[2] = v[i]; } else w[k++] = v[i]; if (pops && i == 1) { s.pop_front(); w[0] = w[1]; k--; } } listed(s, w, k); }
VF_ENTRY(fmt_elements) {   // other element types
    int n = vf::pick("n", 0, 3); Vector<bool> b; ArrVec<char, 4> c; Vector<short> w; Txt tb, tc, tw; tb.ch('['); tc.ch('['); tw.ch('[');
    for (int i = 0; i < n; ++i) { bool f = vf::sym<bool>("f"); char ch = (char)vf::range("c", 1, 126); short x = (short)vf::range("x", 0, 11); b.push_back(f); c.push_back(ch); w.push_back(x); if (i) { tb.str(", "); tc.str(", "); tw.str(", "); } tb.str(f ? "true" : "false"); tc.ch(ch); tw.num(x); }
    tb.ch(']'); tc.ch(']'); tw.ch(']'); is(format("{}", b), tb, "a sequence of bools"); is(format("{}", c), tc, "a sequence of characters"); is(format("{}", w), tw, "a sequence of shorts"); __vf_reach("done");
}
VF_ENTRY(fmt_long) {   // longer than any buffer on the stack
    static const int sizes[] = {31, 127, 255, 256, 499, 500, 501, 600}; int n = sizes[vf::pick("size", 0, 7)]; String s; Txt t; char a = (char)vf::range("a", 1, 126); for (int i = 0; i < n; ++i) { char c = i % 3 ? (char)('a' + i % 26) : a; s.push_back(c); t.ch(c); } int x = vf::range("x", 0, 12); t.num(x);
    is(format("{}{}", s, x), t, "long text is written completely"); __vf_reach("done");
}
VF_ENTRY(fmt_many) {   // sequences of up to 300 elements
    static const int sizes[] = {16, 17, 33, 64, 65, 99, 129, 256, 257, 300}; int n = sizes[vf::pick("size", 0, 9)], at = vf::pick("at", 0, 1) * (n - 1), x = vf::range("x", 8, 11); static int v[300]; for (int i = 0; i < 300; ++i) v[i] = i == at ? x : i * 37 % 101;
    switch (vf::pick("kind", 0, 4)) {
        case 0: { Vector<int> s; for (int i = 0; i < n; ++i) s.push_back(v[i]); listed(s, v, n); break; }
        case 1: { ArrVec<int, 300> s; for (int i = 0; i < n; ++i) s.push_back(v[i]); listed(s, v, n); break; }
        case 2: { if (n != 300) { Array<int, 40> s; for (int i = 0; i < 40; ++i) s[(size_t)i] = v[i]; listed(s, v, 40); } else { Array<int, 300> s; for (int i = 0; i < n; ++i) s[(size_t)i] = v[i]; listed(s, v, n); } break; }
        case 3: { Vcb<int, 100> s; static int w[100]; for (int i = 0; i < 100; ++i) w[i] = 0; for (int i = 0; i < n; ++i) s.push_back(v[i]); for (int i = 0; i < 100; ++i) { int j = n - 100 + i; w[i] = j < 0 ? 0 : v[j]; } listed(s, w, 100); break; }
        default: { Vcq<int, 100> s; for (int i = 0; i < n; ++i) s.push_back(v[i]); if (n < 100) listed(s, v, n); else listed(s, v + (n - 100), 100); }
    }
}
// elements that are written as lists or text themselves
template <class O, class I> static void nested_list(O& o, int outer) {
    Txt t; t.ch('['); for (int i = 0; i < outer; ++i) { I in; int n = vf::pick("n", 0, 2); if (i) t.str(", "); t.ch('['); for (int j = 0; j < n; ++j) { int x = vf::range("x", 8, 11); in.push_back(x); if (j) t.str(", "); t.num(x); } t.ch(']'); o.push_back(in); } t.ch(']'); Txt u; u.ch('<'); u.cat(t); u.ch('>'); is(format("<{}>", o), u, "a sequence of sequences is a list of lists"); __vf_reach("done");
}
VF_ENTRY(fmt_nested) {
    int n = vf::pick("outer", 0, 2);
    switch (vf::pick("kind", 0, 4)) {
        case 0: { Vector<Vector<int>> o; nested_list<Vector<Vector<int>>, Vector<int>>(o, n); break; }
        case 1: { ArrVec<ArrVec<int, 2>, 3> o; nested_list<ArrVec<ArrVec<int, 2>, 3>, ArrVec<int, 2>>(o, n); break; }
        case 2: { Vcq<Vector<int>, 3> o; nested_list<Vcq<Vector<int>, 3>, Vector<int>>(o, n); break; }
        case 3: { int x = vf::range("x", 8, 11), y = vf::range("y", -1, 1); Array<Array<int, 2>, 2> o; o[0] = Array<int, 2>{x, 1}; o[1] = Array<int, 2>{2, y}; Txt t; t.str("[["); t.num(x); t.str(", 1], [2, "); t.num(y); t.str("]]"); is(format("{}", o), t, "a sequence of sequences is a list of lists"); __vf_reach("done"); break; }
        default: { Vcb<Vector<int>, 2> o; Vector<int> a; int x = vf::range("x", 8, 11); a.push_back(x); Txt t; t.str(n == 0 ? "[[], []]" : n == 1 ? "[[], [" : "[["); for (int i = 0; i < n; ++i) { o.push_back(a); if (i) t.str("], ["); t.num(x); } if (n) t.str("]]"); is(format("{}", o), t, "a sequence of sequences is a list of lists"); __vf_reach("done"); }
    }
}
VF_ENTRY(fmt_texts) {   // strings, views and C strings as elements
    int n = vf::pick("outer", 0, 2), k = vf::pick("kind", 0, 3); static char raw[2][4]; Txt t; t.ch('['); int len[2] = {0, 0};
    for (int i = 0; i < n; ++i) { len[i] = vf::pick("len", 0, 2); for (int j = 0; j < len[i]; ++j) raw[i][j] = (char)vf::range("c", 1, 126); raw[i][len[i]] = 0; if (i) t.str(", "); t.str(raw[i]); } t.ch(']');
    if (k == 0) { Vector<String> v; for (int i = 0; i < n; ++i) v.push_back(String(raw[i])); is(format("{}", v), t, "a sequence of strings lists their text"); }
    else if (k == 1) { ArrVec<StringView, 2> v; for (int i = 0; i < n; ++i) v.push_back(StringView(raw[i], (size_t)len[i])); is(format("{}", v), t, "a sequence of views lists their text"); }
    else if (k == 2) { Vcq<const char*, 2> v; for (int i = 0; i < n; ++i) v.push_back(raw[i]); is(format("{}", v), t, "a sequence of C strings lists their text"); }
    else { Vcq<String, 2> v; v.push_back(String("zz")); v.pop_front(); for (int i = 0; i < n; ++i) v.push_back(String(raw[i])); is(format("{}", v), t, "a sequence of strings lists their text"); }
    __vf_reach("done");
}
