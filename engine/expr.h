// Hash-consed bit-vector / IEEE-754 expression DAG, evaluator, and Z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
    K_Const, K_Var,
    K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
    K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
    K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
    K_Ite, K_ZExt, K_SExt, K_Extract, K_Concat,
    // floating point on IEEE bit patterns (width 32 or 64)
    K_FAdd, K_FSub, K_FMul, K_FDiv, K_FRem,
    K_FEq, K_FLt, K_FLe, K_FUno,
    K_FToF, K_FToSI, K_FToUI, K_SIToF, K_UIToF,
    K_FSqrt, K_FRnd  // FRnd: p = 0 floor 1 ceil 2 trunc 3 round(away) 4 nearest-even
};

struct Expr {
    Kind k;
    bool undef;       // mentions an uninitialised-memory variable
    bool fp;          // mentions an FP node
    uint16_t w;       // width in bits
    uint16_t p;       // extract offset / rounding mode
    uint32_t id;
    u128 val;         // constants; variable index
    const Expr *a, *b, *c;
    mutable uint32_t epoch = 0;
    mutable u128 ev = 0;
    mutable const std::vector<uint32_t>* vars = nullptr;
    mutable Z3_ast z3 = nullptr;
    mutable Z3_ast z3b = nullptr;
    bool isConst() const { return k == K_Const; }
    bool isTrue() const { return k == K_Const && w == 1 && val == 1; }
    bool isFalse() const { return k == K_Const && w == 1 && val == 0; }
};
typedef const Expr* E;


static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; bool undef; };

struct ExprKey { Kind k; uint16_t w, p; u128 v; E a, b, c;
    bool operator==(const ExprKey& o) const { return k==o.k&&w==o.w&&p==o.p&&v==o.v&&a==o.a&&b==o.b&&c==o.c; } };
struct ExprKeyHash { size_t operator()(const ExprKey& x) const {
    uint64_t h = x.k * 0x9E3779B97F4A7C15ull + x.w * 0x85ebca6b + x.p * 0xc2b2ae35ull;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((uint64_t)x.v); mix((uint64_t)(x.v >> 64)); mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.c); return h; } };

static inline float bf(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static inline double bd(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static inline u128 fb(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static inline u128 db(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
static inline long double bl(u128 v) { long double f = 0; memcpy(&f, &v, 10); return f; }
static inline u128 lb(long double f) { u128 v = 0; memcpy(&v, &f, 10); return v; }
static inline double fget(u128 v, unsigned w) { return w == 32 ? (double)bf(v) : bd(v); }

template <class T> static T fop(Kind k, T x, T y) {
    switch (k) { case K_FAdd: return x + y; case K_FSub: return x - y; case K_FMul: return x * y;
        case K_FDiv: return x / y; default: return std::fmod(x, y); }
}

// concrete semantics: single source for constant folding and model evaluation
static u128 foldOp(Kind k, unsigned w, unsigned p, unsigned aw, u128 a, u128 b, u128 c, unsigned bw) {
    u128 m = maskw(w);
    switch (k) {
    case K_Add: return (a + b) & m;
    case K_Sub: return (a - b) & m;
    case K_Mul: return (a * b) & m;
    case K_UDiv: return b == 0 ? m : (a / b);
    case K_URem: return b == 0 ? a : (a % b);
    case K_SDiv: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return (x >= 0 ? m : (u128)1) & m; if (y == -1) return ((u128)0 - a) & m; return (u128)(x / y) & m; }
    case K_SRem: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_And: return a & b;
    case K_Or: return a | b;
    case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case K_AShr: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K_Eq: return a == b;
    case K_Ult: return a < b;
    case K_Ule: return a <= b;
    case K_Slt: return sx(a, aw) < sx(b, aw);
    case K_Sle: return sx(a, aw) <= sx(b, aw);
    case K_Ite: return a ? b : c;
    case K_ZExt: return a;
    case K_SExt: return (u128)sx(a, aw) & m;
    case K_Extract: return (a >> p) & m;
    case K_Concat: return ((a << bw) | b) & m;
    case K_FAdd: case K_FSub: case K_FMul: case K_FDiv: case K_FRem:
        if (w == 32) return fb(fop(k, bf(a), bf(b)));
        if (w == 64) return db(fop(k, bd(a), bd(b)));
        return lb(fop(k, bl(a), bl(b)));
    case K_FEq: case K_FLt: case K_FLe: case K_FUno: {
        long double x = aw == 32 ? bf(a) : aw == 64 ? bd(a) : bl(a), y = aw == 32 ? bf(b) : aw == 64 ? bd(b) : bl(b);
        if (k == K_FEq) return x == y; if (k == K_FLt) return x < y; if (k == K_FLe) return x <= y; return x != x || y != y; }
    case K_FToF: { long double x = aw == 32 ? (long double)bf(a) : aw == 64 ? (long double)bd(a) : bl(a);
        return w == 32 ? fb((float)x) : w == 64 ? db((double)x) : lb(x); }
    case K_FToSI: case K_FToUI: { long double x = aw == 32 ? bf(a) : aw == 64 ? bd(a) : bl(a);
        if (x != x) return 0;
        if (k == K_FToSI) { if (x >= 9.3e18L || x <= -9.3e18L) return 0; return (u128)(i128)(long long)x & m; }
        if (x >= 1.8446744073709551616e19L || x <= -1) return 0; return (u128)(unsigned long long)x & m; }
    case K_SIToF: { i128 x = sx(a, aw); return w == 32 ? fb((float)x) : w == 64 ? db((double)x) : lb((long double)x); }
    case K_UIToF: { return w == 32 ? fb((float)a) : w == 64 ? db((double)a) : lb((long double)a); }
    case K_FSqrt: return w == 32 ? fb(std::sqrt(bf(a))) : w == 64 ? db(std::sqrt(bd(a))) : lb(sqrtl(bl(a)));
    case K_FRnd: { auto r = [&](long double x) -> long double { switch (p) { case 0: return floorl(x); case 1: return ceill(x); case 2: return truncl(x); case 3: return roundl(x); default: return rintl(x); } };
        return w == 32 ? fb((float)r(bf(a))) : w == 64 ? db((double)r(bd(a))) : lb(r(bl(a))); }
    default: abort();
    }
}

struct Exprs {
    std::unordered_map<ExprKey, Expr*, ExprKeyHash> table;
    std::vector<VarInfo> vars;
    std::map<std::pair<std::string, unsigned>, E> varByName;
    std::vector<E> all;
    uint32_t nextId = 1;
    uint32_t epoch = 0;
    E tru, fls;
    Exprs() { table.reserve(1 << 16); tru = con(1, 1); fls = con(0, 1); }

    E raw(Kind k, unsigned w, unsigned p, u128 v, E a, E b, E c) {
        ExprKey key{k, (uint16_t)w, (uint16_t)p, v, a, b, c};
        auto it = table.find(key);
        if (it != table.end()) return it->second;
        Expr* e = new Expr();
        e->k = k; e->w = w; e->p = p; e->val = v; e->a = a; e->b = b; e->c = c; e->id = nextId++;
        e->undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
        e->fp = k >= K_FAdd || (a && a->fp) || (b && b->fp) || (c && c->fp);
        if (k == K_Var) e->undef = vars[(size_t)v].undef;
        table.emplace(key, e);
        return e;
    }
    E con(u128 v, unsigned w) {
        static std::vector<E> small[129];
        v &= maskw(w);
        if (v < 256) {
            auto& s = small[w];
            if (s.empty()) s.resize(256, nullptr);
            E& r = s[(size_t)v];
            if (!r) r = raw(K_Const, w, 0, v, 0, 0, 0);
            return r;
        }
        return raw(K_Const, w, 0, v, 0, 0, 0);
    }
    E boolean(bool b) { return b ? tru : fls; }
    E var(const std::string& name, unsigned w, bool undef = false) {
        auto key = std::make_pair(name, w);
        auto it = varByName.find(key);
        if (it != varByName.end()) return it->second;
        vars.push_back({name, w, undef});
        E e = raw(K_Var, w, 0, vars.size() - 1, 0, 0, 0);
        varByName[key] = e;
        return e;
    }
    E fold(Kind k, unsigned w, unsigned p, E a, E b = nullptr, E c = nullptr) {
        return con(foldOp(k, w, p, a->w, a->val, b ? b->val : 0, c ? c->val : 0, b ? b->w : 0), w);
    }
    static bool commut(Kind k) { return k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq; }
    static bool iteConst(E e) { return e->k == K_Ite && e->b->isConst() && e->c->isConst(); }

    E bin(Kind k, E a, E b) {
        bool cmp = k >= K_Eq && k <= K_Sle;
        unsigned w = cmp ? 1 : a->w;
        if (a->w != b->w) { fprintf(stderr, "width mismatch %u %u kind %d\n", a->w, b->w, k); abort(); }
        if (a->isConst() && b->isConst()) return fold(k, w, 0, a, b);
        if (commut(k) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
        u128 m = maskw(a->w);
        if (b->isConst() && iteConst(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
        if (a->isConst() && iteConst(b)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        switch (k) {
        case K_Add:
            if (b->isConst()) {
                if (b->val == 0) return a;
                if (a->k == K_Add && a->b->isConst()) return bin(K_Add, a->a, con(a->b->val + b->val, w));
            } else {
                if (a->k == K_Add && a->b->isConst()) return bin(K_Add, bin(K_Add, a->a, b), a->b);
                if (b->k == K_Add && b->b->isConst()) return bin(K_Add, bin(K_Add, a, b->a), b->b);
            }
            break;
        case K_Sub:
            if (a == b) return con(0, w);
            if (b->isConst()) return bin(K_Add, a, con((u128)0 - b->val, w));
            if (a->k == K_Add && a->b->isConst()) return bin(K_Add, bin(K_Sub, a->a, b), a->b);
            if (b->k == K_Add && b->b->isConst()) return bin(K_Add, bin(K_Sub, a, b->a), con((u128)0 - b->b->val, w));
            if (a->k == K_Add && a->a == b) return a->b;
            if (a->k == K_Add && a->b == b) return a->a;
            break;
        case K_Mul:
            if (b->isConst()) { if (b->val == 0) return b; if (b->val == 1) return a; }
            if (w == 1) return bin(K_And, a, b);
            if (b->isConst() && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) < b->val) s++; return bin(K_Shl, a, con(s, w)); }
            break;
        case K_UDiv: case K_SDiv:
            if (b->isConst() && b->val == 1 && w > 1) return a;
            if (k == K_SDiv && b->isConst() && b->val && b->val < maskw(w - 1) && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) < b->val) s++; if (tz(a) >= s) return bin(K_AShr, a, con(s, w)); }
            if (k == K_UDiv && b->isConst() && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) < b->val) s++; return bin(K_LShr, a, con(s, w)); }
            break;
        case K_URem:
            if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) return bin(K_And, a, con(b->val - 1, w));
            break;
        case K_And:
            if (a == b) return a;
            if (b->isConst()) {
                if (b->val == 0) return b;
                if (b->val == m) return a;
                if (((b->val + 1) & b->val) == 0) { unsigned n = 0; while (n < w && ((b->val >> n) & 1)) n++; return zext(extract(a, 0, n), w); }
            }
            if (w == 1) { if (isNot(a) && a->a == b) return fls; if (isNot(b) && b->a == a) return fls; }
            break;
        case K_Or:
            if (a == b) return a;
            if (b->isConst()) { if (b->val == 0) return a; if (b->val == m) return b; }
            if (w == 1) { if (isNot(a) && a->a == b) return tru; if (isNot(b) && b->a == a) return tru; }
            // disjoint zero-extended / shifted pieces
            {
                for (int t = 0; t < 2; t++) { E x = t ? b : a, y = t ? a : b;
                    if (x->k == K_ZExt && y->k == K_Concat && y->b->isConst() && y->b->val == 0 && x->a->w <= y->b->w)
                        return concat(y->a, zext(x->a, y->b->w));
                    if (x->k == K_ZExt && y->k == K_ZExt && y->a->k == K_Concat && y->a->b->isConst() && y->a->b->val == 0 && x->a->w <= y->a->b->w)
                        return zext(concat(y->a->a, zext(x->a, y->a->b->w)), w);
                }
            }
            break;
        case K_Xor:
            if (a == b) return con(0, w);
            if (b->isConst()) {
                if (b->val == 0) return a;
                if (a->k == K_Xor && a->b->isConst()) return bin(K_Xor, a->a, con(a->b->val ^ b->val, w));
            }
            break;
        case K_Shl:
            if (b->isConst()) { if (b->val == 0) return a; if (b->val >= w) return con(0, w); return concat(extract(a, 0, w - (unsigned)b->val), con(0, (unsigned)b->val)); }
            break;
        case K_LShr:
            if (b->isConst()) { if (b->val == 0) return a; if (b->val >= w) return con(0, w); return zext(extract(a, (unsigned)b->val, w - (unsigned)b->val), w); }
            break;
        case K_AShr:
            if (b->isConst()) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return sext(extract(a, s, w - s), w); }
            break;
        case K_Eq:
            if (a == b) return tru;
            if (a->w == 1) { if (b->isTrue()) return a; if (b->isFalse()) return bin(K_Xor, a, tru); }
            if (b->isConst()) {
                if (a->k == K_Add && a->b->isConst()) return bin(K_Eq, a->a, con(b->val - a->b->val, a->w));
                if (a->k == K_Xor && a->b->isConst()) return bin(K_Eq, a->a, con(b->val ^ a->b->val, a->w));
                if (a->k == K_ZExt) { if (b->val > maskw(a->a->w)) return fls; return bin(K_Eq, a->a, con(b->val, a->a->w)); }
                if (a->k == K_SExt) { u128 lo = b->val & maskw(a->a->w); if (((u128)sx(lo, a->a->w) & m) != b->val) return fls; return bin(K_Eq, a->a, con(lo, a->a->w)); }
                if (a->k == K_Concat) { E lo = bin(K_Eq, a->b, con(b->val, a->b->w)), hi = bin(K_Eq, a->a, con(b->val >> a->b->w, a->a->w)); return bin(K_And, lo, hi); }
                if (a->k == K_Ite) { if (a->b->isConst()) return ite(a->a, boolean(a->b->val == b->val), bin(K_Eq, a->c, b)); if (a->c->isConst()) return ite(a->a, bin(K_Eq, a->b, b), boolean(a->c->val == b->val)); }
            } else {
                if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return bin(K_Eq, a->a, b->a);
                if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return bin(K_Eq, a->a, b->a);
                if (a->k == K_Add && b->k == K_Add && a->b == b->b) return bin(K_Eq, a->a, b->a);
            }
            break;
        case K_Ult:
            if (a == b) return fls;
            if (b->isConst() && b->val == 0) return fls;
            if (b->isConst() && b->val == 1) return bin(K_Eq, a, con(0, a->w));
            if (a->isConst() && a->val == m) return fls;
            if (a->isConst() && a->val == 0) return bin(K_Xor, bin(K_Eq, b, a), tru);
            if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
            if (a->k == K_ZExt && b->isConst()) { if (b->val > maskw(a->a->w)) return tru; return bin(k, a->a, con(b->val, a->a->w)); }
            if (b->k == K_ZExt && a->isConst()) { if (a->val >= maskw(b->a->w)) return fls; return bin(k, con(a->val, b->a->w), b->a); }
            break;
        case K_Ule:
            if (a == b) return tru;
            return bin(K_Xor, bin(K_Ult, b, a), tru);
        case K_Slt:
            if (a == b) return fls;
            if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return bin(K_Ult, a->a, b->a);
            if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return bin(K_Slt, a->a, b->a);
            if (a->k == K_ZExt && b->isConst()) { if (sx(b->val, b->w) <= 0) return fls; return bin(K_Ult, a, b); }
            if (b->k == K_ZExt && a->isConst()) { if (sx(a->val, a->w) < 0) return tru; return bin(K_Ult, a, b); }
            if (a->k == K_SExt && b->isConst()) { i128 v = sx(b->val, b->w); unsigned n = a->a->w; i128 mx = (i128)(maskw(n) >> 1), mn = -mx - 1; if (v > mx) return tru; if (v <= mn) return fls; return bin(K_Slt, a->a, con((u128)v, n)); }
            if (b->k == K_SExt && a->isConst()) { i128 v = sx(a->val, a->w); unsigned n = b->a->w; i128 mx = (i128)(maskw(n) >> 1), mn = -mx - 1; if (v >= mx) return fls; if (v < mn) return tru; return bin(K_Slt, con((u128)v, n), b->a); }
            break;
        case K_Sle:
            if (a == b) return tru;
            return bin(K_Xor, bin(K_Slt, b, a), tru);
        default: break;
        }
        return raw(k, w, 0, 0, a, b, nullptr);
    }
    static bool isNot(E e) { return e->k == K_Xor && e->w == 1 && e->b->isConst() && e->b->val == 1; }
    E notE(E a) { return bin(K_Xor, a, tru); }
    E andE(E a, E b) { return bin(K_And, a, b); }
    E orE(E a, E b) { return bin(K_Or, a, b); }
    E ite(E c, E t, E e) {
        if (c->isConst()) return c->val ? t : e;
        if (t == e) return t;
        if (isNot(c)) return ite(c->a, e, t);
        if (t->w == 1) {
            if (t->isTrue() && e->isFalse()) return c;
            if (t->isFalse() && e->isTrue()) return notE(c);
            if (t->isTrue()) return orE(c, e);
            if (t->isFalse()) return andE(notE(c), e);
            if (e->isTrue()) return orE(notE(c), t);
            if (e->isFalse()) return andE(c, t);
        }
        if (t->k == K_Ite && t->a == c) t = t->b;
        if (e->k == K_Ite && e->a == c) e = e->c;
        if (t == e) return t;
        return raw(K_Ite, t->w, 0, 0, c, t, e);
    }
    E zext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->w > w) return extract(a, 0, w);
        if (a->isConst()) return con(a->val, w);
        if (a->k == K_ZExt) return zext(a->a, w);
        if (iteConst(a)) return ite(a->a, con(a->b->val, w), con(a->c->val, w));
        return raw(K_ZExt, w, 0, 0, a, 0, 0);
    }
    E sext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->w > w) return extract(a, 0, w);
        if (a->isConst()) return fold(K_SExt, w, 0, a);
        if (a->k == K_SExt) return sext(a->a, w);
        if (a->k == K_ZExt) return zext(a->a, w);
        if (iteConst(a)) return ite(a->a, sext(a->b, w), sext(a->c, w));
        return raw(K_SExt, w, 0, 0, a, 0, 0);
    }
    E extract(E a, unsigned off, unsigned w) {
        if (off == 0 && a->w == w) return a;
        if (a->isConst()) return con(a->val >> off, w);
        if ((a->k == K_Add || a->k == K_Sub) && off > 0 && tz(a->a) >= off && tz(a->b) >= off) { E r = bin(a->k, extract(a->a, off, a->w - off), extract(a->b, off, a->w - off)); return extract(r, 0, w); }
        switch (a->k) {
        case K_Extract: return extract(a->a, a->p + off, w);
        case K_ZExt:
            if (off >= a->a->w) return con(0, w);
            if (off + w <= a->a->w) return extract(a->a, off, w);
            return zext(extract(a->a, off, a->a->w - off), w);
        case K_SExt:
            if (off + w <= a->a->w) return extract(a->a, off, w);
            if (off == 0) return sext(a->a, w);
            if (off < a->a->w) return sext(extract(a->a, off, a->a->w - off), w);
            break;
        case K_Concat:
            if (off + w <= a->b->w) return extract(a->b, off, w);
            if (off >= a->b->w) return extract(a->a, off - a->b->w, w);
            return concat(extract(a->a, 0, off + w - a->b->w), extract(a->b, off, a->b->w - off));
        case K_Ite:
            if (a->b->isConst() || a->c->isConst()) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
            break;
        case K_And: case K_Or: case K_Xor:
            return bin(a->k, extract(a->a, off, w), extract(a->b, off, w));
        case K_Add: case K_Sub: case K_Mul:
            if (off == 0 && w >= 8) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
            break;
        default: break;
        }
        return raw(K_Extract, w, off, 0, a, 0, 0);
    }
    E concat(E hi, E lo) {
        unsigned w = hi->w + lo->w;
        if (hi->isConst() && lo->isConst()) return con((hi->val << lo->w) | lo->val, w);
        if (hi->isConst() && hi->val == 0) return zext(lo, w);
        if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && hi->p == lo->p + lo->w) return extract(lo->a, lo->p, w);
        if (hi->k == K_Extract && hi->a == lo && hi->p == lo->w && false) return lo;
        if (lo->k == K_Concat && hi->k == K_Extract && lo->a->k == K_Extract && hi->a == lo->a->a && hi->p == lo->a->p + lo->a->w)
            return concat(extract(hi->a, lo->a->p, hi->w + lo->a->w), lo->b);
        if (hi->k == K_Concat) { // right-associate so adjacent pieces meet
            E t = concat(hi->b, lo);
            if (t->k != K_Concat || t->a != hi->b) return concat(hi->a, t);
            return raw(K_Concat, w, 0, 0, hi->a, t, 0);
        }
        return raw(K_Concat, w, 0, 0, hi, lo, 0);
    }
    E fp(Kind k, unsigned w, E a, E b = nullptr, unsigned p = 0) {
        if (a->isConst() && (!b || b->isConst())) return fold(k, w, p, a, b);
        return raw(k, w, p, 0, a, b, 0);
    }

    // evaluation under a model (missing variables are 0)
    u128 eval(E e, const std::vector<u128>& m) { ++epoch; return ev(e, m); }
    u128 ev(E e, const std::vector<u128>& m) {
        if (e->k == K_Const) return e->val;
        if (e->epoch == epoch) return e->ev;
        u128 r;
        if (e->k == K_Var) r = e->val < m.size() ? m[(size_t)e->val] & maskw(e->w) : 0;
        else if (e->k == K_Ite) r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m);
        else {
            u128 a = ev(e->a, m), b = e->b ? ev(e->b, m) : 0;
            r = foldOp(e->k, e->w, e->p, e->a->w, a, b, 0, e->b ? e->b->w : 0) & maskw(e->w);
        }
        e->epoch = epoch; e->ev = r;
        return r;
    }
    const std::vector<uint32_t>& varsOf(E e) {
        if (e->vars) return *e->vars;
        auto* v = new std::vector<uint32_t>();
        if (e->k == K_Var) v->push_back((uint32_t)e->val);
        else for (E c : {e->a, e->b, e->c}) if (c) {
            const auto& s = varsOf(c);
            if (s.empty()) continue;
            std::vector<uint32_t> t; t.reserve(v->size() + s.size());
            std::set_union(v->begin(), v->end(), s.begin(), s.end(), std::back_inserter(t));
            v->swap(t);
        }
        e->vars = v;
        return *v;
    }
    // substitute variables by map (for the undef-dependence query)
    E subst(E e, const std::unordered_map<uint32_t, E>& m, std::unordered_map<E, E>& memo) {
        if (e->k == K_Const || !e->undef) return e;
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        E r;
        if (e->k == K_Var) { auto i = m.find((uint32_t)e->val); r = i == m.end() ? e : i->second; }
        else {
            E a = subst(e->a, m, memo), b = e->b ? subst(e->b, m, memo) : nullptr, c = e->c ? subst(e->c, m, memo) : nullptr;
            r = rebuild(e, a, b, c);
        }
        memo[e] = r;
        return r;
    }
    E rebuild(E e, E a, E b, E c) {
        switch (e->k) {
        case K_Ite: return ite(a, b, c);
        case K_ZExt: return zext(a, e->w);
        case K_SExt: return sext(a, e->w);
        case K_Extract: return extract(a, e->p, e->w);
        case K_Concat: return concat(a, b);
        default:
            if (e->k >= K_FAdd) return fp(e->k, e->w, a, b, e->p);
            return bin(e->k, a, b);
        }
    }
    unsigned tz(E e) {
        switch (e->k) {
        case K_Const: { if (!e->val) return e->w; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
        case K_Add: case K_Sub: case K_Or: case K_Xor: return std::min(tz(e->a), tz(e->b));
        case K_And: return std::max(tz(e->a), tz(e->b));
        case K_Mul: return std::min<unsigned>(e->w, tz(e->a) + tz(e->b));
        case K_Concat: { unsigned l = tz(e->b); return l == e->b->w ? l + tz(e->a) : l; }
        case K_ZExt: case K_SExt: { unsigned l = tz(e->a); return l == e->a->w ? e->w : l; }
        case K_Ite: return std::min(tz(e->b), tz(e->c));
        default: return 0;
        }
    }
};

extern Exprs X;

struct Solver {
    Z3_context ctx;
    Z3_solver bv = nullptr, fpS = nullptr, inc = nullptr;
    Z3_params som = nullptr;
    bool real = false;    // floating point read as exact real arithmetic
    std::unordered_map<E, Z3_ast> realMemo; std::vector<std::pair<E, Z3_ast>> sqrts;
    std::vector<E> stack;
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
    double time = 0;
    unsigned timeoutMs = 60000;
    std::string dumpDir; unsigned dumpMax = 0, dumped = 0;
    struct CacheVal { int r; std::vector<std::pair<uint32_t, u128>> model; };
    struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
    std::unordered_map<std::vector<uint32_t>, CacheVal, VH> cache;
    std::vector<std::vector<u128>> recent;
    size_t recentPos = 0;

    void init(unsigned tmo) {
        timeoutMs = tmo;
        Z3_config c = Z3_mk_config();
        ctx = Z3_mk_context(c);
        Z3_del_config(c);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); });
        bv = inc = nullptr; fresh();
        if (real) {
            Z3_tactic t1 = Z3_mk_tactic(ctx, "simplify"); Z3_tactic_inc_ref(ctx, t1); Z3_tactic t2 = Z3_mk_tactic(ctx, "qfnra-nlsat"); Z3_tactic_inc_ref(ctx, t2);
            Z3_tactic t = Z3_tactic_and_then(ctx, t1, t2); Z3_tactic_inc_ref(ctx, t);
            fpS = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, fpS);
            som = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, som); Z3_params_set_bool(ctx, som, Z3_mk_string_symbol(ctx, "som"), true);
        } else { fpS = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BVFP")); Z3_solver_inc_ref(ctx, fpS); }
        setup(fpS);
    }
    void setup(Z3_solver s) {
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), real && s == fpS ? 1000 : timeoutMs);   // real queries: a second here, then z3-new
        if (!(real && s == fpS)) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
        Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    }
    void fresh() {  // long-lived incremental solvers slow down; start over now and then
        if (bv) { Z3_solver_dec_ref(ctx, bv); Z3_solver_dec_ref(ctx, inc); stack.clear(); }
        bv = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, bv); setup(bv);
        inc = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, inc); setup(inc);
    }
    Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
    Z3_ast toF(E e) { if (e->w != 32 && e->w != 64) { fprintf(stderr, "symbolic fp of width %u unsupported\n", e->w); exit(3); } return Z3_mk_fpa_to_fp_bv(ctx, tr(e), fsort(e->w)); }
    // exact-real reading of a floating-point expression
    Z3_ast trR(E e) {
        auto it = realMemo.find(e); if (it != realMemo.end()) return it->second;
        Z3_ast r = trR0(e); Z3_inc_ref(ctx, r); realMemo[e] = r; return r;
    }
    [[noreturn]] void noReal(E e, const char* why) { fprintf(stderr, "ENGINE-ERROR: real-arithmetic reading: %s (kind %d)\n", why, e->k); exit(3); }
    Z3_ast trR0(E e) {
        Z3_sort R = Z3_mk_real_sort(ctx);
        auto two = [&](Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[])) { Z3_ast o[2] = {trR(e->a), trR(e->b)}; return f(ctx, 2, o); };
        switch (e->k) {
        case K_Const: {
            double d = fget(e->val, e->w); if (!std::isfinite(d)) noReal(e, "infinity or NaN");
            int ex; double m = std::frexp(d, &ex); long long mi = (long long)std::ldexp(m, 53); ex -= 53; if (!mi) return Z3_mk_int64(ctx, 0, R);
            while (ex < 0 && !(mi & 1)) mi /= 2, ex++;
            Z3_ast n = Z3_mk_int64(ctx, mi, R), p2 = Z3_mk_int64(ctx, 1, R);
            for (int k = ex < 0 ? -ex : ex; k > 0; k -= 60) { Z3_ast o[2] = {p2, Z3_mk_int64(ctx, 1ll << (k < 60 ? k : 60), R)}; p2 = Z3_simplify(ctx, Z3_mk_mul(ctx, 2, o)); }
            Z3_ast o[2] = {n, p2}; return Z3_simplify(ctx, ex < 0 ? Z3_mk_div(ctx, n, p2) : Z3_mk_mul(ctx, 2, o)); }
        case K_Var: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("r" + std::to_string((uint64_t)e->val)).c_str()), R);
        case K_FAdd: return two(Z3_mk_add); case K_FSub: return two(Z3_mk_sub); case K_FMul: return two(Z3_mk_mul);
        case K_FDiv: return Z3_mk_div(ctx, trR(e->a), trR(e->b));
        case K_FToF: return trR(e->a);
        case K_SIToF: return Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, tr(e->a), true));
        case K_UIToF: return Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, tr(e->a), false));
        case K_Ite: return Z3_mk_ite(ctx, boolOf(e->a), trR(e->b), trR(e->c));
        case K_Xor: if (e->b->isConst() && e->b->val == (u128)1 << (e->w - 1)) return Z3_mk_unary_minus(ctx, trR(e->a)); noReal(e, "bit operation");
        case K_Concat: if (e->a->isConst() && e->a->w == 1 && e->a->val == 0 && e->b->k == K_Extract && e->b->p == 0 && e->b->a->w == e->w) { Z3_ast x = trR(e->b->a); return Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, Z3_mk_int64(ctx, 0, R)), Z3_mk_unary_minus(ctx, x), x); } noReal(e, "bit operation");
        case K_FSqrt: { Z3_ast a = trR(e->a); Z3_ast s = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("sqrt" + std::to_string(e->id)).c_str()), R); Z3_inc_ref(ctx, s);
            Z3_ast o[2] = {s, s}; Z3_ast c[2] = {Z3_mk_ge(ctx, s, Z3_mk_int64(ctx, 0, R)), Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, o), a)}; Z3_ast k = Z3_mk_and(ctx, 2, c); Z3_inc_ref(ctx, k); sqrts.push_back({e, k}); return s; }
        default: noReal(e, "unsupported expression");
        }
    }
    static std::string varName(uint32_t v, bool r) { return (r ? "r" : "v") + std::to_string(v); }
    // nonlinear real queries the linked solver gives up on go to the newer z3 binary; those that
    // also contain integers, to cvc5
    Z3_lbool second(const std::string& q, const std::vector<uint32_t>& vs, std::unordered_map<uint32_t, u128>& val) {
        static int pid = (int)getpid(); std::string f = "/tmp/esym-q" + std::to_string(pid) + ".smt2"; FILE* o = fopen(f.c_str(), "w"); if (!o) return Z3_L_UNDEF;
        std::string body = q; size_t cut = body.find("\n(model-"); if (cut != std::string::npos) body.resize(cut + 1);
        bool mixed = body.find("bv2int") != std::string::npos; for (size_t i; (i = body.find("bv2int")) != std::string::npos;) body.replace(i, 6, "bv2nat");
        if (mixed) fprintf(o, "(set-logic ALL)\n(set-option :produce-models true)\n"); else fprintf(o, "(set-option :pp.decimal true)\n");
        fprintf(o, "%s\n(check-sat)\n", body.c_str());
        for (auto v : vs) { bool r = realMemo.count(X.raw(K_Var, X.vars[v].w, 0, v, 0, 0, 0)) != 0; if (body.find(varName(v, r)) != std::string::npos) fprintf(o, "(get-value (%s))\n", varName(v, r).c_str()); } fclose(o);
        std::string t = std::to_string(timeoutMs / 1000), cmd = (mixed ? "timeout " + t + " cvc5 --solve-bv-as-int=sum --nl-ext-tplanes " : "z3-new -T:" + t + " ") + f + " 2>/dev/null"; FILE* p = popen(cmd.c_str(), "r"); Z3_lbool r = Z3_L_UNDEF; char line[4096]; bool first = true;
        while (p && fgets(line, sizeof line, p)) {
            if (first) { first = false; r = !strncmp(line, "sat", 3) ? Z3_L_TRUE : !strncmp(line, "unsat", 5) ? Z3_L_FALSE : Z3_L_UNDEF; continue; }
            if (r == Z3_L_TRUE) for (auto v : vs) { bool rl = realMemo.count(X.raw(K_Var, X.vars[v].w, 0, v, 0, 0, 0)) != 0; std::string h = "((" + varName(v, rl) + " "; if (strncmp(line, h.c_str(), h.size())) continue;
                char* c = line + h.size(); u128 n = 0;
                if (!rl) { if (c[0] == '#' && c[1] == 'b') for (c += 2; *c == '0' || *c == '1'; c++) n = n * 2 + (*c - '0'); else if (c[0] == '#') n = strtoull(c + 2, nullptr, 16); else n = 0; }
                else { double sg = 1; bool dv = false; while (*c && !isdigit((unsigned char)*c)) { if (*c == '-') sg = -sg; if (*c == '/') dv = true; c++; } char* e; double a = strtod(c, &e); if (dv) { while (*e && !isdigit((unsigned char)*e)) e++; a /= strtod(e, &e); } a *= sg; n = X.vars[v].w == 32 ? fb((float)a) : db(a); }
                val[v] = n; }
        }
        if (p) pclose(p); remove(f.c_str()); return r;
    }
    bool mentions(E e, E x, std::unordered_map<E, bool>& memo) { if (e == x) return true; if (!e->fp) return false; auto it = memo.find(e); if (it != memo.end()) return it->second; bool r = false; for (E c : {e->a, e->b, e->c}) if (c && mentions(c, x, memo)) { r = true; break; } return memo[e] = r; }
    Z3_ast b2bv(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); }
    Z3_ast b1(E e) { return Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
    Z3_ast boolOf(E e) {  // width-1 expr as Z3 Bool without the ite/eq sandwich
        if (e->z3b) return e->z3b;
        Z3_ast r = boolOf0(e);
        Z3_inc_ref(ctx, r);
        e->z3b = r;
        return r;
    }
    Z3_ast boolOf0(E e) {
        switch (e->k) {
        case K_Const: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        case K_Eq: if (e->a->w == 1) return Z3_mk_iff(ctx, boolOf(e->a), boolOf(e->b)); return Z3_mk_eq(ctx, tr(e->a), tr(e->b));
        case K_Ult: return Z3_mk_bvult(ctx, tr(e->a), tr(e->b));
        case K_Ule: return Z3_mk_bvule(ctx, tr(e->a), tr(e->b));
        case K_Slt: return Z3_mk_bvslt(ctx, tr(e->a), tr(e->b));
        case K_Sle: return Z3_mk_bvsle(ctx, tr(e->a), tr(e->b));
        case K_FEq: if (real) return Z3_simplify_ex(ctx, Z3_mk_eq(ctx, trR(e->a), trR(e->b)), som); return Z3_mk_fpa_eq(ctx, toF(e->a), toF(e->b));
        case K_FLt: if (real) return Z3_simplify_ex(ctx, Z3_mk_lt(ctx, trR(e->a), trR(e->b)), som); return Z3_mk_fpa_lt(ctx, toF(e->a), toF(e->b));
        case K_FLe: if (real) return Z3_simplify_ex(ctx, Z3_mk_le(ctx, trR(e->a), trR(e->b)), som); return Z3_mk_fpa_leq(ctx, toF(e->a), toF(e->b));
        case K_FUno: { if (real) return Z3_mk_false(ctx); Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, toF(e->a)), Z3_mk_fpa_is_nan(ctx, toF(e->b))}; return Z3_mk_or(ctx, 2, o); }
        case K_And: { Z3_ast o[2] = {boolOf(e->a), boolOf(e->b)}; return Z3_mk_and(ctx, 2, o); }
        case K_Or: { Z3_ast o[2] = {boolOf(e->a), boolOf(e->b)}; return Z3_mk_or(ctx, 2, o); }
        case K_Xor: if (e->b->isConst()) return e->b->val ? Z3_mk_not(ctx, boolOf(e->a)) : boolOf(e->a); return Z3_mk_xor(ctx, boolOf(e->a), boolOf(e->b));
        case K_Ite: return Z3_mk_ite(ctx, boolOf(e->a), boolOf(e->b), boolOf(e->c));
        default: return b1(e);
        }
    }
    Z3_ast tr(E e) {
        if (e->z3) return e->z3;
        Z3_ast r = tr0(e);
        Z3_inc_ref(ctx, r);
        e->z3 = r;
        return r;
    }
    Z3_ast constant(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, w));
        Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, 64));
        return Z3_mk_concat(ctx, hi, lo);
    }
    Z3_ast tr0(E e) {
        if (e->w == 1 && ((e->k >= K_Eq && e->k <= K_Sle) || (e->k >= K_FEq && e->k <= K_FUno))) return b2bv(boolOf(e));
        Z3_ast rne = nullptr, rtz = nullptr;
        if (e->k >= K_FAdd) { rne = Z3_mk_fpa_rne(ctx); rtz = Z3_mk_fpa_rtz(ctx); }
        auto back = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
        switch (e->k) {
        case K_Const: return constant(e->val, e->w);
        case K_Var: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string((uint64_t)e->val)).c_str()), Z3_mk_bv_sort(ctx, e->w));
        case K_Add: return Z3_mk_bvadd(ctx, tr(e->a), tr(e->b));
        case K_Sub: return Z3_mk_bvsub(ctx, tr(e->a), tr(e->b));
        case K_Mul: return Z3_mk_bvmul(ctx, tr(e->a), tr(e->b));
        case K_UDiv: return Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b));
        case K_SDiv: return Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b));
        case K_URem: return Z3_mk_bvurem(ctx, tr(e->a), tr(e->b));
        case K_SRem: return Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b));
        case K_And: return Z3_mk_bvand(ctx, tr(e->a), tr(e->b));
        case K_Or: return Z3_mk_bvor(ctx, tr(e->a), tr(e->b));
        case K_Xor: return Z3_mk_bvxor(ctx, tr(e->a), tr(e->b));
        case K_Shl: return Z3_mk_bvshl(ctx, tr(e->a), tr(e->b));
        case K_LShr: return Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b));
        case K_AShr: return Z3_mk_bvashr(ctx, tr(e->a), tr(e->b));
        case K_Ite: return Z3_mk_ite(ctx, boolOf(e->a), tr(e->b), tr(e->c));
        case K_ZExt: return Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a));
        case K_SExt: return Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a));
        case K_Extract: return Z3_mk_extract(ctx, e->p + e->w - 1, e->p, tr(e->a));
        case K_Concat: return Z3_mk_concat(ctx, tr(e->a), tr(e->b));
        case K_FAdd: return back(Z3_mk_fpa_add(ctx, rne, toF(e->a), toF(e->b)));
        case K_FSub: return back(Z3_mk_fpa_sub(ctx, rne, toF(e->a), toF(e->b)));
        case K_FMul: return back(Z3_mk_fpa_mul(ctx, rne, toF(e->a), toF(e->b)));
        case K_FDiv: return back(Z3_mk_fpa_div(ctx, rne, toF(e->a), toF(e->b)));
        case K_FToF: return back(Z3_mk_fpa_to_fp_float(ctx, rne, toF(e->a), fsort(e->w)));
        case K_FToSI: return Z3_mk_fpa_to_sbv(ctx, rtz, toF(e->a), e->w);
        case K_FToUI: return Z3_mk_fpa_to_ubv(ctx, rtz, toF(e->a), e->w);
        case K_SIToF: return back(Z3_mk_fpa_to_fp_signed(ctx, rne, tr(e->a), fsort(e->w)));
        case K_UIToF: return back(Z3_mk_fpa_to_fp_unsigned(ctx, rne, tr(e->a), fsort(e->w)));
        case K_FSqrt: return back(Z3_mk_fpa_sqrt(ctx, rne, toF(e->a)));
        case K_FRnd: { Z3_ast m = e->p == 0 ? Z3_mk_fpa_rtn(ctx) : e->p == 1 ? Z3_mk_fpa_rtp(ctx) : e->p == 2 ? rtz : e->p == 3 ? Z3_mk_fpa_rna(ctx) : rne;
            return back(Z3_mk_fpa_round_to_integral(ctx, m, toF(e->a))); }
        default: fprintf(stderr, "z3: unsupported expression kind %d\n", e->k); exit(3);
        }
    }

    // Is (slice of pc relevant to q) && q satisfiable?  1 sat, 0 unsat, -1 unknown.
    // On sat, model (a copy of base) is updated with values for the involved variables.
    int check(const std::vector<E>& pc, E q, const std::vector<u128>& base, std::vector<u128>* model) {
        if (q->isFalse()) return 0;
        if (q->isTrue()) { if (model) *model = base; return 1; }
        // independence slice
        std::vector<uint32_t> vs = X.varsOf(q);
        std::vector<bool> inV(X.vars.size(), false);
        for (auto v : vs) inV[v] = true;
        std::vector<char> used(pc.size(), 0);
        std::vector<E> sl;
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
                const auto& cv = X.varsOf(pc[i]);
                bool hit = false;
                for (auto v : cv) if (inV[v]) { hit = true; break; }
                if (hit) { used[i] = 1; ch = true; sl.push_back(pc[i]); for (auto v : cv) inV[v] = true; }
            }
        }
        std::vector<uint32_t> key; key.reserve(sl.size() + 1);
        for (E e : sl) key.push_back(e->id);
        std::sort(key.begin(), key.end());
        key.push_back(q->id);
        auto it = cache.find(key);
        if (it != cache.end()) {
            cacheHits++;
            if (it->second.r == 1 && model) { *model = base; if (model->size() < X.vars.size()) model->resize(X.vars.size(), 0); for (auto& kv : it->second.model) (*model)[kv.first] = kv.second; }
            return it->second.r;
        }
        // try recent models
        for (auto& m : recent) {
            X.epoch++;
            bool ok = X.ev(q, m) == 1;
            for (size_t i = 0; ok && i < sl.size(); i++) ok = X.ev(sl[i], m) == 1;
            if (ok) {
                modelHits++;
                CacheVal cv; cv.r = 1;
                for (size_t v = 0; v < inV.size(); v++) if (inV[v]) cv.model.push_back({(uint32_t)v, v < m.size() ? m[v] : 0});
                if (model) { *model = base; if (model->size() < X.vars.size()) model->resize(X.vars.size(), 0); for (auto& kv : cv.model) (*model)[kv.first] = kv.second; }
                cache.emplace(std::move(key), std::move(cv));
                return 1;
            }
        }
        bool fp = q->fp; for (E e : sl) fp |= e->fp;
        if (queries % 200 == 199) fresh();
        Z3_solver s = fp ? fpS : bv;
        auto t0 = std::chrono::steady_clock::now();
        if (!fp && sl.size() * 2 >= pc.size()) {  // most of the path condition matters: use the incremental stack
            s = inc;
            size_t cp = 0; while (cp < stack.size() && cp < pc.size() && stack[cp] == pc[cp]) cp++;
            if (cp < stack.size()) { Z3_solver_pop(ctx, s, stack.size() - cp); stack.resize(cp); }
            for (; cp < pc.size(); cp++) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, boolOf(pc[cp])); stack.push_back(pc[cp]); }
            Z3_solver_push(ctx, s);
        } else {
            Z3_solver_push(ctx, s);
            for (E e : sl) Z3_solver_assert(ctx, s, boolOf(e));
        }
        Z3_solver_assert(ctx, s, boolOf(q));
        if (real && fp) for (auto& sq : sqrts) { std::unordered_map<E, bool> memo; bool use = mentions(q, sq.first, memo); for (E e : sl) use = use || mentions(e, sq.first, memo); if (use) Z3_solver_assert(ctx, s, sq.second); }
        queries++;
        Z3_lbool r = Z3_solver_check(ctx, s); std::unordered_map<uint32_t, u128> other; bool byOther = false;
        if (real && fp && r == Z3_L_UNDEF) { std::vector<uint32_t> vs; for (size_t v = 0; v < inV.size(); v++) if (inV[v]) vs.push_back((uint32_t)v); r = second(Z3_solver_to_string(ctx, s), vs, other); byOther = true; }
        if (dumped < dumpMax && (queries % 7 == 1 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 3)) {
            std::string f = dumpDir + "/q" + std::to_string(dumped++) + (r == Z3_L_TRUE ? ".sat" : r == Z3_L_FALSE ? ".unsat" : ".unknown") + ".smt2";
            if (FILE* o = fopen(f.c_str(), "w")) { fprintf(o, "(set-logic %s)\n%s\n(check-sat)\n", fp ? (real ? "QF_NRA" : "QF_BVFP") : "QF_BV", Z3_solver_to_string(ctx, s)); fclose(o); }
        }
        CacheVal cv;
        cv.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (cv.r == 1) {
            sat++;
            Z3_model m = nullptr; if (!byOther) { m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m); }
            std::vector<u128> full(X.vars.size(), 0);
            for (size_t v = 0; v < inV.size(); v++) if (inV[v]) {
                E ve = X.raw(K_Var, X.vars[v].w, 0, v, 0, 0, 0);
                Z3_ast val; u128 n = 0;
                if (byOther) n = other.count((uint32_t)v) ? other[(uint32_t)v] : 0;
                else if (real && fp && realMemo.count(ve)) {
                    if (Z3_model_eval(ctx, m, trR(ve), true, &val)) { const char* str = Z3_get_numeral_decimal_string(ctx, val, 30); double d = strtod(str, nullptr); n = ve->w == 32 ? fb((float)d) : db(d); }
                } else if (Z3_model_eval(ctx, m, tr(ve), true, &val)) {
                    const char* str = Z3_get_numeral_string(ctx, val);
                    for (const char* c = str; *c; c++) n = n * 10 + (*c - '0');
                }
                cv.model.push_back({(uint32_t)v, n});
                full[v] = n;
            }
            if (m) Z3_model_dec_ref(ctx, m);
            // Sanity: the model must satisfy the query under our own evaluator
            X.epoch++;
            bool ok = X.ev(q, full) == 1;
            for (size_t i = 0; ok && i < sl.size(); i++) ok = X.ev(sl[i], full) == 1;
            if (!ok && !fp) { fprintf(stderr, "engine error: z3 model disagrees with evaluator\n"); exit(3); }
            if (!ok && !real) cv.r = -1, unknown++;
            if (recent.size() < 8) recent.push_back(full); else recent[recentPos++ % 8] = full;
        } else if (cv.r == 0) unsat++; else unknown++;
        Z3_solver_pop(ctx, s, 1);
        time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (cv.r == 1 && model) { *model = base; if (model->size() < X.vars.size()) model->resize(X.vars.size(), 0); for (auto& kv : cv.model) (*model)[kv.first] = kv.second; }
        int res = cv.r;
        if (res >= 0) cache.emplace(std::move(key), std::move(cv));
        return res;
    }
};
extern Solver S;
