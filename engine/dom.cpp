#include <array>
#include <cstring>
#include "dom.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <functional>
u64 nQueries, nRefutes, nSplits;
// ------------------------------------------------------------------ terms
struct Key {
    Op op; unsigned w; u64 k; unsigned lo; std::vector<T> a; std::vector<u64> c; std::string name;
    bool operator==(const Key &o) const {
        return op == o.op && w == o.w && k == o.k && lo == o.lo && a == o.a && c == o.c && name == o.name;
    }
};
struct KH {
    size_t operator()(const Key &x) const {
        size_t h = x.op * 1315423911u + x.w * 2654435761u + x.k * 0x9E3779B97F4A7C15ull + x.lo * 77;
        for (auto t : x.a) h = (h ^ t->id) * 0x100000001b3ull + 17;
        for (auto t : x.c) h = (h ^ t) * 0x100000001b3ull + 31;
        h ^= std::hash<std::string>()(x.name);
        return h;
    }
};
static std::unordered_map<Key, T, KH> tab;
static std::vector<T> allTerms;
static std::vector<std::pair<std::vector<u64>, unsigned>> tables;
static int bitlen(u64 x) { return x ? 64 - __builtin_clzll(x) : 0; }
static u64 lowmask(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static bool linDisjoint(const Term *t);
static u64 computePm(Term *t) {
    u64 m = maskw(t->w);
    switch (t->op) {
    case CONST: return t->k;
    case ZEXT: return t->a[0]->pm;
    case EXTR: return (t->a[0]->pm >> t->lo) & m;
    case AND: return t->a[0]->pm & t->a[1]->pm;
    case OR: case XOR: return t->a[0]->pm | t->a[1]->pm;
    case EQ: case ULT: case SLT: case FCMP: return 1;
    case UREM: return isC(t->a[1]) && t->a[1]->k ? (lowmask(bitlen(t->a[1]->k - 1)) & m) : m;
    case UDIV: if (isC(t->a[1]) && t->a[1]->k) return lowmask(bitlen(t->a[0]->pm / t->a[1]->k)) & m; return m;
    case CONCAT: { u64 r = 0; unsigned s = 0; for (auto x : t->a) { r |= x->pm << s; s += x->w; } return r; }
    case SEXT: { u64 p = t->a[0]->pm; unsigned wi = t->a[0]->w; if (p >> (wi - 1) & 1) p |= m & ~maskw(wi); return p; }
    case TBL: { u64 r = 0; for (u64 x : tables[t->k].first) r |= x; return r & m; }
    case LIN: {
        unsigned __int128 s = t->k; u64 u = t->k; bool dis = true;
        for (size_t i = 0; i < t->a.size(); i++) {
            unsigned __int128 z1 = (unsigned __int128)t->c[i] * t->a[i]->pm; if (z1 >> 100) return m;
            s += z1; if (s >> 100) return m;
            u64 q = t->c[i];
            if (q & (q - 1)) dis = false;
            else { unsigned __int128 z = (unsigned __int128)t->a[i]->pm * q; u64 zz = (u64)z & m; if (u & zz) dis = false; u |= zz; }
        }
        if (dis) return u;
        if (s > m) {
            // low common zero bits
            int tz = 64; if (t->k) tz = __builtin_ctzll(t->k);
            for (size_t i = 0; i < t->a.size(); i++) {
                int z = (t->c[i] ? __builtin_ctzll(t->c[i]) : 64) + (t->a[i]->pm ? __builtin_ctzll(t->a[i]->pm) : 64);
                tz = std::min(tz, z);
            }
            return tz >= 64 ? 0 : m & ~lowmask(tz);
        }
        return lowmask(bitlen((u64)s)) & m;
    }
    default: return m;
    }
}
static T intern(Op op, unsigned w, u64 k, unsigned lo, std::vector<T> a, std::vector<u64> c = {}, std::string name = "") {
    Key key{op, w, k, lo, a, c, name};
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Term *t = new Term{op, w, (u32)allTerms.size(), k, lo, a, c, name, 0};
    t->pm = computePm(t);
    allTerms.push_back(t);
    tab.emplace(key, t);
    return t;
}
T mkConst(u64 v, unsigned w) { return intern(CONST, w, v & maskw(w), 0, {}); }
static u64 symCounter;
T mkSym(unsigned w, const std::string &n) { return intern(SYM, w, ++symCounter, 0, {}, {}, n); }
T mkNamed(unsigned w, const std::string &n) { return intern(SYM, w, 0, 0, {}, {}, n); }
T mkUF(const std::string &n, std::vector<T> args, unsigned w) { return intern(UF, w, 0, 0, args, {}, n); }

struct LB {  // linear builder
    unsigned w; u64 k = 0; std::map<u32, std::pair<T, u64>> m;
    void add(T t, u64 c) {
        if (t->op == CONST) { k += c * t->k; return; }
        if (t->op == LIN) {
            k += c * t->k;
            for (size_t i = 0; i < t->a.size(); i++) addAtom(t->a[i], c * t->c[i]);
            return;
        }
        addAtom(t, c);
    }
    void addAtom(T t, u64 c) {
        auto &e = m[t->id]; e.first = t; e.second += c;
    }
    T build() {
        std::vector<T> a; std::vector<u64> c; u64 mk = maskw(w);
        for (auto &p : m) if (p.second.second & mk) { a.push_back(p.second.first); c.push_back(p.second.second & mk); }
        if (a.empty()) return mkConst(k, w);
        if (a.size() == 1 && c[0] == 1 && (k & mk) == 0) return a[0];
        return intern(LIN, w, k & mk, 0, a, c);
    }
};
// recombine zext(extr(x,lo1..)) pieces that are adjacent:  2^k*Z(E(x,lo,n)) + 2^(k+n)*Z(E(x,lo+n,m)) -> 2^k*Z(E(x,lo,n+m))
static T recombine(LB &b) {
    bool again = true;
    int guard = 0;
    auto pieceOf = [&](T t, T &x, unsigned &lo, unsigned &len) -> bool {
        T u = t;
        if (u->op == ZEXT) u = u->a[0];
        if (u->op == EXTR) { x = u->a[0]; lo = u->lo; len = u->w; return true; }
        x = u; lo = 0; len = u->w; return true;
    };
    while (again && guard++ < 64) {
        again = false;
        std::vector<std::pair<T, u64>> v;
        for (auto &p : b.m) if (p.second.second & maskw(b.w)) v.push_back(p.second);
        if (v.size() < 2 || v.size() > 70) break;
        for (size_t i = 0; i < v.size() && !again; i++)
            for (size_t j = 0; j < v.size() && !again; j++) {
                if (i == j) continue;
                T xi, xj; unsigned li, ni, lj, nj;
                u64 ci = v[i].second, cj = v[j].second;
                if ((ci & (ci - 1)) || (cj & (cj - 1))) continue;
                if (v[i].first->op != ZEXT && v[i].first->op != EXTR) { if (v[i].first->op != SYM && v[i].first->op != UF) continue; }
                if (v[j].first->op != ZEXT && v[j].first->op != EXTR) continue;
                pieceOf(v[i].first, xi, li, ni); pieceOf(v[j].first, xj, lj, nj);
                if (xi != xj || lj != li + ni) continue;
                int ki = __builtin_ctzll(ci), kj = __builtin_ctzll(cj);
                if (kj != ki + (int)ni || ni + nj > b.w) continue;
                b.m.erase(v[i].first->id); b.m.erase(v[j].first->id);
                T merged = mkExtr(xi, li, ni + nj);
                if (merged->w < b.w) merged = mkZExt(merged, b.w);
                b.add(merged, ci);
                again = true;
            }
    }
    return b.build();
}
T mkAdd(T a, T b) { assert(a->w == b->w); LB l; l.w = a->w; l.add(a, 1); l.add(b, 1); return recombine(l); }
T mkSub(T a, T b) { assert(a->w == b->w); LB l; l.w = a->w; l.add(a, 1); l.add(b, (u64)-1); return l.build(); }
T mkMulC(T a, u64 c) { LB l; l.w = a->w; l.add(a, c); return l.build(); }
T mkNeg(T a) { return mkMulC(a, (u64)-1); }
static T mono(T a, T b, unsigned w) {
    std::vector<T> f;
    auto push = [&](T t) { if (t->op == MUL) for (auto x : t->a) f.push_back(x); else f.push_back(t); };
    push(a); push(b);
    std::sort(f.begin(), f.end(), [](T x, T y) { return x->id < y->id; });
    return intern(MUL, w, 0, 0, f);
}
T mkMul(T a, T b) {
    if (isC(a)) return mkMulC(b, a->k);
    if (isC(b)) return mkMulC(a, b->k);
    LB l; l.w = a->w;
    auto terms = [](T t) {
        std::vector<std::pair<T, u64>> r;
        if (t->op == LIN) { for (size_t i = 0; i < t->a.size(); i++) r.push_back({t->a[i], t->c[i]}); if (t->k) r.push_back({nullptr, t->k}); }
        else r.push_back({t, 1});
        return r;
    };
    auto ta = terms(a), tb = terms(b);
    if (ta.size() * tb.size() > 200) return mono(a, b, a->w);
    for (auto &x : ta) for (auto &y : tb) {
        u64 c = x.second * y.second;
        if (!x.first && !y.first) l.k += c;
        else if (!x.first) l.add(y.first, c);
        else if (!y.first) l.add(x.first, c);
        else l.add(mono(x.first, y.first, a->w), c);
    }
    return l.build();
}
T mkZExt(T a, unsigned w) {
    if (a->w == w) return a;
    assert(w > a->w);
    if (isC(a)) return mkConst(a->k, w);
    if (a->op == ZEXT) return mkZExt(a->a[0], w);
    // push through disjoint linear forms without possible overflow, so that byte assemblies stay canonical
    if (a->op == LIN) {
        unsigned __int128 s = a->k; bool ok = true;
        for (size_t i = 0; i < a->a.size(); i++) { unsigned __int128 z1 = (unsigned __int128)a->c[i] * a->a[i]->pm; s += z1 >> 100 ? 0 : z1; if (z1 >> 100 || s >> 100) { ok = false; break; } }
        if (ok && s <= maskw(a->w)) {
            LB l; l.w = w; l.k = a->k;
            for (size_t i = 0; i < a->a.size(); i++) l.add(mkZExt(a->a[i], w), a->c[i]);
            return recombine(l);
        }
    }
    return intern(ZEXT, w, 0, 0, {a});
}
T mkSExt(T a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) { u64 v = a->k; if (v >> (a->w - 1) & 1) v |= ~maskw(a->w); return mkConst(v, w); }
    if (!(a->pm >> (a->w - 1) & 1)) return mkZExt(a, w);
    if (a->op == SEXT) return mkSExt(a->a[0], w);
    return intern(SEXT, w, 0, 0, {a});
}
T mkExtr(T t, unsigned lo, unsigned len) {
    assert(lo + len <= t->w);
    if (lo == 0 && len == t->w) return t;
    if (isC(t)) return mkConst(t->k >> lo, len);
    if (!((t->pm >> lo) & maskw(len))) return mkConst(0, len);
    switch (t->op) {
    case EXTR: return mkExtr(t->a[0], t->lo + lo, len);
    case ZEXT: {
        T i = t->a[0];
        if (lo >= i->w) return mkConst(0, len);
        if (lo + len <= i->w) return mkExtr(i, lo, len);
        return mkZExt(mkExtr(i, lo, i->w - lo), len);
    }
    case SEXT: {
        T i = t->a[0];
        if (lo + len <= i->w) return mkExtr(i, lo, len);
        if (lo < i->w) return mkSExt(mkExtr(i, lo, i->w - lo), len);
        return mkSExt(mkExtr(i, i->w - 1, 1), len);
    }
    case CONCAT: {
        std::vector<T> parts; unsigned s = 0;
        for (auto x : t->a) {
            unsigned e = s + x->w; unsigned l2 = std::max(s, lo), h2 = std::min(e, lo + len);
            if (l2 < h2) parts.push_back(mkExtr(x, l2 - s, h2 - l2));
            s = e;
        }
        return mkConcat(parts);
    }
    case AND: return mkAnd(mkExtr(t->a[0], lo, len), mkExtr(t->a[1], lo, len));
    case OR: return mkOr(mkExtr(t->a[0], lo, len), mkExtr(t->a[1], lo, len));
    case XOR: return mkXor(mkExtr(t->a[0], lo, len), mkExtr(t->a[1], lo, len));
    case MUL: if (lo == 0) { T r = mkExtr(t->a[0], 0, len); for (size_t i = 1; i < t->a.size(); i++) r = mkMul(r, mkExtr(t->a[i], 0, len)); return r; } break;
    case LIN: {
        if (lo == 0) {
            LB l; l.w = len; l.k = t->k;
            for (size_t i = 0; i < t->a.size(); i++) l.add(mkExtr(t->a[i], 0, len), t->c[i]);
            return recombine(l);
        }
        if (linDisjoint(t)) {
            LB l; l.w = len; l.k = (t->k >> lo) & maskw(len);
            for (size_t i = 0; i < t->a.size(); i++) {
                unsigned k = __builtin_ctzll(t->c[i]); T x = t->a[i];
                // bits of x placed at [k, k+w)
                unsigned s = k, e = std::min(k + x->w, t->w);
                unsigned l2 = std::max(s, lo), h2 = std::min(e, lo + len);
                if (l2 >= h2) continue;
                T p = mkExtr(x, l2 - s, h2 - l2);
                p = p->w < len ? mkZExt(p, len) : p;
                l.add(p, 1ull << (l2 - lo));
            }
            return recombine(l);
        }
        break;
    }
    default: break;
    }
    return intern(EXTR, len, 0, lo, {t});
}
static bool linDisjoint(const Term *t) {
    u64 u = t->k;
    for (size_t i = 0; i < t->a.size(); i++) {
        u64 q = t->c[i]; if (q & (q - 1)) return false;
        u64 z = (u64)((unsigned __int128)t->a[i]->pm * q) & maskw(t->w);
        if (u & z) return false;
        u |= z;
    }
    return true;
}
T mkConcat(const std::vector<T> &parts) {
    unsigned w = 0; for (auto p : parts) w += p->w;
    if (parts.size() == 1) return parts[0];
    LB l; l.w = w; unsigned s = 0;
    for (auto p : parts) { l.add(mkZExt(p, w), s >= 64 ? 0 : 1ull << s); s += p->w; }
    return recombine(l);
}
static T runs(T a, u64 mask) {  // a & mask as sum of shifted slices
    LB l; l.w = a->w; u64 m = mask & a->pm;
    unsigned i = 0;
    while (i < a->w) {
        if (!(mask >> i & 1)) { i++; continue; }
        unsigned j = i; while (j < a->w && (mask >> j & 1)) j++;
        T e = mkExtr(a, i, j - i);
        l.add(e->w < a->w ? mkZExt(e, a->w) : e, 1ull << i);
        i = j;
    }
    (void)m;
    return recombine(l);
}
T mkAnd(T a, T b) {
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) return mkConst(a->k & b->k, a->w);
    if (!(a->pm & b->pm)) return mkConst(0, a->w);
    if (isC(b)) {
        if ((a->pm & ~b->k) == 0) return a;
        return runs(a, b->k);
    }
    if (a->op == ZEXT || b->op == ZEXT) {
        if (b->op != ZEXT) std::swap(a, b);
        // b is zext: narrow
        unsigned iw = b->a[0]->w; if (a->op == ZEXT && a->a[0]->w > iw) iw = a->a[0]->w;
        if (a->op == ZEXT || true) { unsigned n = b->a[0]->w; (void)iw; return mkZExt(mkAnd(mkExtr(a, 0, n), b->a[0]), a->w); }
    }
    if (a->id > b->id) std::swap(a, b);
    return intern(AND, a->w, 0, 0, {a, b});
}
T mkOr(T a, T b) {
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) return mkConst(a->k | b->k, a->w);
    if (!(a->pm & b->pm)) return mkAdd(a, b);
    if (isC(b)) { T r = mkAnd(a, mkConst(~b->k, a->w)); return mkAdd(r, b); }
    if (a->op == ZEXT && b->op == ZEXT) {
        unsigned iw = std::max(a->a[0]->w, b->a[0]->w);
        return mkZExt(mkOr(mkZExt(a->a[0], iw), mkZExt(b->a[0], iw)), a->w);
    }
    if (a->id > b->id) std::swap(a, b);
    return intern(OR, a->w, 0, 0, {a, b});
}
T mkXor(T a, T b) {
    if (a == b) return mkConst(0, a->w);
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) return mkConst(a->k ^ b->k, a->w);
    if (isC(b, 0)) return a;
    if (a->op == XOR && isC(a->a[1]) && isC(b)) return mkXor(a->a[0], mkConst(a->a[1]->k ^ b->k, a->w));
    if (!(a->pm & b->pm) && a->w > 1) return mkAdd(a, b);
    if (a->op == ZEXT && b->op == ZEXT) {
        unsigned iw = std::max(a->a[0]->w, b->a[0]->w);
        return mkZExt(mkXor(mkZExt(a->a[0], iw), mkZExt(b->a[0], iw)), a->w);
    }
    if (isC(b)) return intern(XOR, a->w, 0, 0, {a, b});
    if (a->op == XOR && isC(a->a[1])) return mkXor(mkXor(a->a[0], b), a->a[1]);
    if (b->op == XOR && isC(b->a[1])) return mkXor(mkXor(a, b->a[0]), b->a[1]);
    if (a->id > b->id) std::swap(a, b);
    return intern(XOR, a->w, 0, 0, {a, b});
}
T mkNot1(T a) { return mkXor(a, mkConst(1, 1)); }
T mkShl(T a, T b) {
    if (isC(b)) return b->k >= a->w ? mkConst(0, a->w) : mkMulC(a, 1ull << b->k);
    if (isC(a, 0)) return a;
    return intern(SHL, a->w, 0, 0, {a, b});
}
T mkLShr(T a, T b) {
    if (isC(b)) return b->k >= a->w ? mkConst(0, a->w) : mkZExt(mkExtr(a, b->k, a->w - b->k), a->w);
    if (isC(a, 0)) return a;
    return intern(LSHR, a->w, 0, 0, {a, b});
}
T mkAShr(T a, T b) {
    if (isC(b)) return b->k >= a->w ? mkSExt(mkExtr(a, a->w - 1, 1), a->w) : mkSExt(mkExtr(a, b->k, a->w - b->k), a->w);
    if (isC(a, 0)) return a;
    return intern(ASHR, a->w, 0, 0, {a, b});
}
static int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
T mkDiv(Op op, T a, T b) {
    unsigned w = a->w;
    if (isC(a) && isC(b) && b->k) {
        switch (op) {
        case UDIV: return mkConst(a->k / b->k, w);
        case UREM: return mkConst(a->k % b->k, w);
        case SDIV: { int64_t x = sx(a->k, w), y = sx(b->k, w); return mkConst(y == -1 ? (u64)-x : (u64)(x / y), w); }
        case SREM: { int64_t x = sx(a->k, w), y = sx(b->k, w); return mkConst(y == -1 ? 0 : (u64)(x % y), w); }
        default: break;
        }
    }
    bool nonneg = !(a->pm >> (w - 1) & 1) && !(b->pm >> (w - 1) & 1);
    if (nonneg && op == SDIV) op = UDIV;
    if (nonneg && op == SREM) op = UREM;
    if (isC(b)) {
        u64 d = b->k;
        if (d && !(d & (d - 1))) {
            if (op == UDIV) return mkLShr(a, mkConst(__builtin_ctzll(d), w));
            if (op == UREM) return mkAnd(a, mkConst(d - 1, w));
        }
        if (d == 1 && op == SDIV) return a;
        if (d == 1 && op == SREM) return mkConst(0, w);
        if (op == UREM && d && a->pm < d) return a;
        if (op == UDIV && d && a->pm < d) return mkConst(0, w);
        if ((op == UREM || op == UDIV) && a->op == ZEXT && d <= maskw(a->a[0]->w))
            return mkZExt(mkDiv(op, a->a[0], mkConst(d, a->a[0]->w)), w);
    }
    return intern(op, w, 0, 0, {a, b});
}
static bool stripZ(T &a, T &b) {
    // common zero-extension
    if (a->op == ZEXT && b->op == ZEXT) {
        unsigned iw = std::max(a->a[0]->w, b->a[0]->w);
        if (iw >= a->w) return false;
        a = mkZExt(a->a[0], iw); b = mkZExt(b->a[0], iw); return true;
    }
    if (a->op == ZEXT && isC(b) && b->k <= maskw(a->a[0]->w)) { unsigned iw = a->a[0]->w; a = a->a[0]; b = mkConst(b->k, iw); return true; }
    if (b->op == ZEXT && isC(a) && a->k <= maskw(b->a[0]->w)) { unsigned iw = b->a[0]->w; b = b->a[0]; a = mkConst(a->k, iw); return true; }
    return false;
}
T mkEq(T a, T b) {
    assert(a->w == b->w);
    if (a == b) return mkConst(1, 1);
    while (stripZ(a, b)) {}
    if (a->w == 1) return mkNot1(mkXor(a, b));
    if (isC(a) && isC(b)) return mkConst(a->k == b->k, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (b->k & ~a->pm) return mkConst(0, 1);
        if (!(a->pm & (a->pm - 1)) && a->pm) {  // single possible bit
            T bit = mkExtr(a, __builtin_ctzll(a->pm), 1);
            return b->k ? bit : mkNot1(bit);
        }
    }
    if (a->op == SEXT && b->op == SEXT && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
    if (a->op == SEXT && isC(b)) {
        unsigned iw = a->a[0]->w; T n = mkConst(b->k, iw);
        if (mkSExt(n, a->w) != b) return mkConst(0, 1);
        return mkEq(a->a[0], n);
    }
    T d = mkSub(a, b);
    if (isC(d)) return mkConst(d->k == 0, 1);
    {   // equal, or different, bit by bit
        unsigned i = 0; int v = 0;
        for (; i < a->w; i++) { Poly x = polyXor(bitOf(a, i), bitOf(b, i)); if (!polyIsConst(x, v)) break; if (v) return mkConst(0, 1); }
        if (i == a->w) return mkConst(1, 1);
    }
    // canonical: sign-normalise the difference so that EQ(a,b)==EQ(b,a)
    if (d->op == LIN) {
        u64 lead = d->c[0];
        if (lead >> (d->w - 1) & 1 && lead != (1ull << (d->w - 1))) d = mkNeg(d);
        // common power-of-two factor with all atoms small: divide
        if (d->op == LIN && d->a.size() == 1 && d->k == 0) {
            u64 q = d->c[0];
            if (q && !(q & (q - 1))) { unsigned k = __builtin_ctzll(q); if (!(k && (d->a[0]->pm >> (d->w - k)))) return mkEq(d->a[0], mkConst(0, d->w)); }
        }
    }
    return intern(EQ, 1, 0, 0, {d, mkConst(0, d->w)});
}
T mkUlt(T a, T b) {
    if (a == b) return mkConst(0, 1);
    while (stripZ(a, b)) {}
    if (isC(a) && isC(b)) return mkConst(a->k < b->k, 1);
    if (isC(b, 0)) return mkConst(0, 1);
    if (isC(a, 0)) return mkNot1(mkEq(b, a));
    if (isC(b, 1)) return mkEq(a, mkConst(0, a->w));
    if (isC(b) && a->pm < b->k) return mkConst(1, 1);
    if (isC(a) && b->pm <= a->k) return mkConst(0, 1);
    return intern(ULT, 1, 0, 0, {a, b});
}
T mkSlt(T a, T b) {
    if (a == b) return mkConst(0, 1);
    unsigned w = a->w;
    if (w == 1) return mkAnd(a, mkNot1(b));
    if (isC(a) && isC(b)) return mkConst(sx(a->k, w) < sx(b->k, w), 1);
    if (!(a->pm >> (w - 1) & 1) && !(b->pm >> (w - 1) & 1)) return mkUlt(a, b);
    if (isC(b, 0)) return mkExtr(a, w - 1, 1)->op == CONST ? mkExtr(a, w - 1, 1) : intern(SLT, 1, 0, 0, {a, b});
    if (isC(b) && !(a->pm >> (w - 1) & 1) && (b->k >> (w - 1) & 1)) return mkConst(0, 1);
    if (isC(a) && !(b->pm >> (w - 1) & 1) && (a->k >> (w - 1) & 1)) return mkConst(1, 1);
    if (a->op == SEXT && b->op == SEXT && a->a[0]->w == b->a[0]->w) return mkSlt(a->a[0], b->a[0]);
    return intern(SLT, 1, 0, 0, {a, b});
}
bool floatIsConst(T t) { return t->op == CONST; }
double floatConst(T t) {
    if (t->w == 32) { float f; u32 b = (u32)t->k; memcpy(&f, &b, 4); return f; }
    double d; u64 b = t->k; memcpy(&d, &b, 8); return d;
}
static unsigned flipMask(unsigned m) { return (m & 10) | ((m & 1) << 2) | ((m & 4) >> 2); }
T mkFcmp(unsigned mask, T a, T b) {
    if (mask == 0) return mkConst(0, 1);
    if (mask == 15) return mkConst(1, 1);
    if (isC(a) && isC(b)) {
        double x = floatConst(a), y = floatConst(b);
        unsigned r = (x != x || y != y) ? 8 : x < y ? 1 : x == y ? 2 : 4;
        return mkConst((mask & r) != 0, 1);
    }
    if (a == b) { mask &= 10; if (mask == 10) return mkConst(1, 1); if (!mask) return mkConst(0, 1); }
    if (a->id > b->id) { std::swap(a, b); mask = flipMask(mask); }
    return intern(FCMP, 1, mask, 0, {a, b});
}
static std::map<std::pair<std::vector<u64>, unsigned>, int> tableIx;
int regTable(const std::vector<u64> &e, unsigned sz) {
    auto it = tableIx.find({e, sz});
    if (it != tableIx.end()) return it->second;
    tables.push_back({e, sz}); return tableIx[{e, sz}] = tables.size() - 1;
}
T mkTbl(int id, unsigned eb, T off, unsigned w) { return intern(TBL, w, id, eb, {off}); }

static const char *opn[] = {"const", "sym", "lin", "*", "udiv", "urem", "sdiv", "srem", "&", "|", "^", "<<", ">>u", ">>s",
                            "zext", "sext", "extr", "concat", "==", "<u", "<s", "table", "uf", "fcmp"};
std::string show(T t, int depth) {
    if (!t) return "?";
    char b[64];
    if (t->op == CONST) { snprintf(b, sizeof b, "%lld", (long long)(t->k > maskw(t->w) - 65536 && t->w > 16 ? (long long)sx(t->k, t->w) : (long long)t->k)); return b; }
    if (t->op == SYM) { return t->k ? t->name + "#" + std::to_string(t->k) : t->name; }
    if (depth <= 0) return "..";
    if (t->op == LIN) {
        std::string s; bool first = true;
        for (size_t i = 0; i < t->a.size() && i < 8; i++) {
            int64_t c = sx(t->c[i], t->w);
            if (!first) s += c < 0 ? " - " : " + "; else if (c < 0) s += "-";
            first = false;
            if (c != 1 && c != -1) { snprintf(b, sizeof b, "%lld*", (long long)(c < 0 ? -c : c)); s += b; }
            s += show(t->a[i], depth - 1);
        }
        if (t->a.size() > 8) s += " + ...";
        int64_t k = sx(t->k, t->w);
        if (k) { snprintf(b, sizeof b, k < 0 ? " - %lld" : " + %lld", (long long)(k < 0 ? -k : k)); s += b; }
        return "(" + s + ")";
    }
    if (t->op == EXTR) { snprintf(b, sizeof b, "[%u:%u]", t->lo + t->w - 1, t->lo); return show(t->a[0], depth - 1) + b; }
    if (t->op == ZEXT || t->op == SEXT) return std::string(t->op == SEXT ? "s" : "") + show(t->a[0], depth);
    if (t->op == UF) { std::string s = t->name + "("; for (size_t i = 0; i < t->a.size(); i++) s += (i ? "," : "") + show(t->a[i], depth - 1); return s + ")"; }
    if (t->op == FCMP) { snprintf(b, sizeof b, " fcmp%llu ", (unsigned long long)t->k); return "(" + show(t->a[0], depth - 1) + b + show(t->a[1], depth - 1) + ")"; }
    if (t->op == XOR && t->w == 1 && isC(t->a[1], 1)) return "!" + show(t->a[0], depth - 1);
    if (t->a.size() == 2) return "(" + show(t->a[0], depth - 1) + " " + opn[t->op] + " " + show(t->a[1], depth - 1) + ")";
    std::string s = std::string(opn[t->op]) + "(";
    for (size_t i = 0; i < t->a.size(); i++) s += (i ? "," : "") + show(t->a[i], depth - 1);
    return s + ")";
}
// ------------------------------------------------------------------ bits
static std::vector<std::pair<T, unsigned>> atomTab; static std::map<std::pair<u32, unsigned>, u32> atomIx;
u32 bitAtom(T t, unsigned i) {
    auto k = std::make_pair(t->id, i); auto it = atomIx.find(k);
    if (it != atomIx.end()) return it->second;
    atomTab.push_back({t, i}); return atomIx[k] = atomTab.size() - 1;
}
std::pair<T, unsigned> atomInfo(u32 a) { return atomTab[a]; }
static const size_t POLYCAP = 600;
static Poly pconst(int v) { return v ? Poly{Mono{}} : Poly{}; }
bool polyIsConst(const Poly &p, int &v) {
    if (p.empty()) { v = 0; return true; }
    if (p.size() == 1 && p[0].empty()) { v = 1; return true; }
    return false;
}
Poly polyXor(const Poly &a, const Poly &b) {
    Poly r; size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i] < b[j])) r.push_back(a[i++]);
        else if (i == a.size() || b[j] < a[i]) r.push_back(b[j++]);
        else i++, j++;
    }
    return r;
}
bool polyMul(const Poly &a, const Poly &b, Poly &out) {
    if (a.size() * b.size() > 20000) return false;
    std::map<Mono, bool> m;
    for (auto &x : a) for (auto &y : b) {
        Mono z; std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(z));
        auto it = m.find(z); if (it == m.end()) m[z] = true; else m.erase(it);
        if (m.size() > POLYCAP) return false;
    }
    out.clear(); for (auto &p : m) out.push_back(p.first);
    return true;
}
bool polySubst(const Subst &s, const Poly &p, Poly &out) {
    out = p;
    for (int round = 0; round < 200; round++) {
        u32 a = 0; bool found = false;
        for (auto &m : out) { for (u32 x : m) if (s.count(x)) { a = x; found = true; break; } if (found) break; }
        if (!found) return true;
        Poly with, without;
        for (auto &m : out) {
            auto it = std::find(m.begin(), m.end(), a);
            if (it == m.end()) without.push_back(m);
            else { Mono z = m; z.erase(std::find(z.begin(), z.end(), a)); with.push_back(z); }
        }
        std::sort(with.begin(), with.end());
        Poly w2; { std::map<Mono, bool> mm; for (auto &z : with) { auto it = mm.find(z); if (it == mm.end()) mm[z] = 1; else mm.erase(it); } for (auto &q : mm) w2.push_back(q.first); }
        Poly prod; if (!polyMul(w2, s.at(a), prod)) return false;
        out = polyXor(without, prod);
        if (out.size() > POLYCAP) return false;
    }
    return false;
}
static std::unordered_map<u64, Poly> bitMemo;
static Poly computeBit(T t, unsigned i);
const Poly &bitOf(T t, unsigned i) {
    u64 key = (u64)t->id << 8 | i;
    auto it = bitMemo.find(key);
    if (it != bitMemo.end()) return it->second;
    Poly p = (t->pm >> i & 1) ? computeBit(t, i) : Poly{};
    return bitMemo[key] = p;
}
static Poly opaqueBit(T t, unsigned i) { return Poly{Mono{bitAtom(t, i)}}; }
static Poly computeBit(T t, unsigned i) {
    Poly o;
    switch (t->op) {
    case CONST: return pconst(t->k >> i & 1);
    case ZEXT: return i < t->a[0]->w ? bitOf(t->a[0], i) : Poly{};
    case SEXT: return i < t->a[0]->w ? bitOf(t->a[0], i) : bitOf(t->a[0], t->a[0]->w - 1);
    case EXTR: return bitOf(t->a[0], t->lo + i);
    case CONCAT: { unsigned s = 0; for (auto x : t->a) { if (i < s + x->w) return bitOf(x, i - s); s += x->w; } return {}; }
    case AND: if (polyMul(bitOf(t->a[0], i), bitOf(t->a[1], i), o)) return o; break;
    case OR: { Poly a = bitOf(t->a[0], i), b = bitOf(t->a[1], i); if (polyMul(a, b, o)) { Poly r = polyXor(polyXor(a, b), o); if (r.size() <= POLYCAP) return r; } break; }
    case XOR: { Poly r = polyXor(bitOf(t->a[0], i), bitOf(t->a[1], i)); if (r.size() <= POLYCAP) return r; break; }
    case LIN: {
        if (linDisjoint(t)) {
            if (t->k >> i & 1) return pconst(1);
            for (size_t j = 0; j < t->a.size(); j++) {
                unsigned k = __builtin_ctzll(t->c[j]); if (i < k) continue;
                unsigned b = i - k; if (b < t->a[j]->w && (t->a[j]->pm >> b & 1)) return bitOf(t->a[j], b);
            }
            return {};
        }
        if (t->a.size() == 1 && t->a[0]->pm == 1) {   // multiple of one bit
            u64 d = (t->k ^ (t->k + t->c[0])) & maskw(t->w); Poly r = d >> i & 1 ? bitOf(t->a[0], 0) : Poly{};
            return t->k >> i & 1 ? polyXor(r, pconst(1)) : r;
        }
        {   // disjoint parts, where a one-bit quantity may have any coefficient
            u64 u = t->k; bool dis = true; int who = -1;
            for (size_t j = 0; j < t->a.size() && dis; j++) {
                u64 q = t->c[j], m;
                if (t->a[j]->pm == 1) m = q; else if (!(q & (q - 1)) && !(t->a[j]->pm >> 32 && q >> 31) && !((t->a[j]->pm * q) & ~maskw(t->w))) m = t->a[j]->pm * q; else { dis = false; break; }
                if (m & u) dis = false; u |= m; if (m >> i & 1) who = j;
            }
            if (dis) {
                if (t->k >> i & 1) return pconst(1);
                if (who < 0) return {};
                return t->a[who]->pm == 1 ? bitOf(t->a[who], 0) : bitOf(t->a[who], i - __builtin_ctzll(t->c[who]));
            }
        }
        // bit-sliced addition of a few small operands
        if (t->a.size() > 4) { break; }
        std::vector<std::vector<Poly>> ops; bool ok = true;
        int negs = 0;
        for (size_t j = 0; j < t->a.size() && ok; j++) {
            u64 c = t->c[j]; bool neg = false;
            u64 cn = (-c) & maskw(t->w);
            if (c & (c - 1)) { if (!(cn & (cn - 1))) { neg = true; c = cn; } else { ok = false; break; } }
            unsigned k = __builtin_ctzll(c); std::vector<Poly> v(i + 1);
            for (unsigned b = k; b <= i; b++) v[b] = b - k < t->a[j]->w ? bitOf(t->a[j], b - k) : Poly{};
            if (neg) { for (unsigned b = 0; b <= i; b++) v[b] = polyXor(v[b], pconst(1)); negs++; }
            ops.push_back(v);
        }
        if (!ok) break;
        u64 kk = (t->k + negs) & maskw(t->w);
        std::vector<Poly> acc(i + 1);
        for (unsigned b = 0; b <= i; b++) acc[b] = pconst(kk >> b & 1);
        for (auto &v : ops) {
            Poly carry;
            for (unsigned b = 0; b <= i && ok; b++) {
                Poly x = polyXor(acc[b], v[b]); Poly s = polyXor(x, carry);
                Poly g, h; if (!polyMul(acc[b], v[b], g) || !polyMul(x, carry, h)) { ok = false; break; }
                carry = polyXor(g, h); acc[b] = s;
                if (carry.size() > 64 || s.size() > 64) { ok = false; break; }
            }
            if (!ok) break;
        }
        if (ok) return acc[i];
        break;
    }
    case TBL: {
        auto &tb = tables[t->k]; unsigned eb = t->lo; T off = t->a[0]; unsigned sh = __builtin_ctzll(eb);
        std::vector<Poly> idx; std::vector<unsigned> pos; u64 basev = 0; bool bad = false;
        for (unsigned b = 0; b < off->w; b++) {
            const Poly &p = bitOf(off, b); int v;
            if (polyIsConst(p, v)) { if (v) basev |= 1ull << b; }
            else { if (b < sh) bad = true; idx.push_back(p); pos.push_back(b); }
        }
        if (bad || idx.size() > 8) break;
        size_t n = 1ull << idx.size(); std::vector<char> f(n);
        for (size_t x = 0; x < n; x++) {
            u64 o2 = basev; for (size_t q = 0; q < idx.size(); q++) if (x >> q & 1) o2 |= 1ull << pos[q];
            u64 e = o2 >> sh; f[x] = e < tb.first.size() ? tb.first[e] >> i & 1 : 0;
        }
        for (size_t q = 0; q < idx.size(); q++) for (size_t x = 0; x < n; x++) if (x >> q & 1) f[x] ^= f[x ^ (1ull << q)];
        Poly r; bool ok = true;
        for (size_t x = 0; x < n && ok; x++) if (f[x]) {
            Poly m = pconst(1);
            for (size_t q = 0; q < idx.size() && ok; q++) if (x >> q & 1) { Poly z; ok = polyMul(m, idx[q], z); m = z; }
            r = polyXor(r, m); if (r.size() > POLYCAP) ok = false;
        }
        if (ok) return r;
        break;
    }
    case EQ: {
        {
            Poly r = pconst(1); bool ok = true; unsigned open = 0;
            for (unsigned b = 0; b < t->a[0]->w; b++) open += (t->a[0]->pm | t->a[1]->pm) >> b & 1;
            if (open > 16) break;
            for (unsigned b = 0; b < t->a[0]->w && ok; b++) {
                Poly x = polyXor(polyXor(bitOf(t->a[0], b), bitOf(t->a[1], b)), pconst(1)), z;
                ok = polyMul(r, x, z) && z.size() < 40; r = z;
            }
            if (ok) return r;
        }
        break;
    }
    default: break;
    }
    return opaqueBit(t, i);
}
// ------------------------------------------------------------------ numeric
struct VarInfo { T t; i128 lo, hi; std::vector<Con> defs; bool aux; u32 px = 0, py = 0; bool prod = false; std::string n; };
static std::vector<VarInfo> vars; static std::unordered_map<u32, u32> termVar;
void Lin::add(u32 var, i128 k) {
    if (!k) return;
    auto it = std::lower_bound(v.begin(), v.end(), var, [](const std::pair<u32, i128> &p, u32 x) { return p.first < x; });
    if (it != v.end() && it->first == var) { it->second += k; if (!it->second) v.erase(it); }
    else v.insert(it, {var, k});
}
void Lin::addLin(const Lin &o, i128 k) { if (!k) return; for (auto &p : o.v) add(p.first, p.second * k); c += o.c * k; }
static std::string i128s(i128 x) {
    if (x == 0) return "0"; bool n = x < 0; std::string s; unsigned __int128 u = n ? -(unsigned __int128)x : x;
    while (u) { s = char('0' + (int)(u % 10)) + s; u /= 10; } return n ? "-" + s : s;
}
std::string showLin(const Lin &l) {
    std::string s; for (auto &p : l.v) s += (s.empty() ? "" : " + ") + i128s(p.second) + "*" + (vars[p.first].t ? show(vars[p.first].t, 3) : vars[p.first].n);
    return s + " + " + i128s(l.c);
}
std::string showCon(const Con &c) { return showLin(c.e) + (c.kind == 0 ? " >= 0" : c.kind == 1 ? " == 0" : " != 0"); }
static u32 newVar(T t, i128 lo, i128 hi, bool aux, const char *n = "") { vars.push_back({t, lo, hi, {}, aux}); vars.back().n = n + std::string("@") + std::to_string(vars.size()); return vars.size() - 1; }
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
static void linBounds(const Lin &e, i128 &lo, i128 &hi) {
    lo = hi = e.c;
    for (auto &p : e.v) {
        if (p.second > 0) { lo += p.second * vars[p.first].lo; hi += p.second * vars[p.first].hi; }
        else { lo += p.second * vars[p.first].hi; hi += p.second * vars[p.first].lo; }
    }
}
static i128 P2(unsigned n) { return (i128)1 << n; }
// magnitude of a linear form over its variable bounds (long double: an estimate with ample margin).
// Forms above BIG are never kept: the exact integer arithmetic below is done in 128 bits.
static const long double BIG = 1.0e28L;   // < 2^94
static long double linMag(const Lin &e) {
    auto ab = [](i128 x) { long double d = (long double)x; return d < 0 ? -d : d; };
    long double m = ab(e.c);
    for (auto &p : e.v) { long double b = std::max(ab(vars[p.first].lo), ab(vars[p.first].hi)); if (b < 1) b = 1; m += ab(p.second) * b; }
    return m;
}
static Con ge(const Lin &e) { return {e, 0}; }
static std::unordered_map<u32, Lin> memoU, memoS;
static Lin varLin(u32 v) { Lin l; l.add(v, 1); return l; }
static void defOn(std::vector<u32> vs, const Con &c) { std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end()); for (u32 v : vs) vars[v].defs.push_back(c); }
static u32 termVarOf(T t) {
    auto it = termVar.find(t->id); if (it != termVar.end()) return it->second;
    u32 v = newVar(t, 0, (i128)t->pm, false);
    termVar[t->id] = v; return v;
}
static Lin linReduce(T t, const Lin &e, i128 lo, i128 hi) {
    i128 a, b; linBounds(e, a, b); i128 M = hi - lo + 1;
    i128 ql = fdiv(a - lo, M), qh = fdiv(b - lo, M);
    if (ql == qh) { Lin r = e; r.c -= ql * M; return r; }
    u32 q = newVar(nullptr, ql, qh, true, "q");
    Lin r = e; r.add(q, -M);
    Lin l1 = r; l1.c -= lo; Lin l2; l2.addLin(r, -1); l2.c += hi;
    // attach the definition to q only: q occurs wherever the reduced form is used
    vars[q].defs.push_back(ge(l1)); vars[q].defs.push_back(ge(l2));
    (void)t;
    return r;
}
static Lin computeU(T t);
Lin numU(T t) {
    auto it = memoU.find(t->id); if (it != memoU.end()) return it->second;
    Lin l = computeU(t); memoU[t->id] = l; return l;
}
static bool linSum(T t, Lin &e) {
    e.c = t->k; long double mag = 0;
    // choose signed coefficients
    for (size_t i = 0; i < t->a.size(); i++) {
        i128 c = t->c[i]; if (t->c[i] > maskw(t->w) / 2) c -= P2(t->w);
        Lin u = numU(t->a[i]); long double cm = (long double)c; mag += (cm < 0 ? -cm : cm) * linMag(u); if (mag > BIG) return false;
        e.addLin(u, c);
    }
    if (t->k > maskw(t->w) / 2) e.c -= P2(t->w);
    return true;
}
static Lin computeU(T t) {
    unsigned w = t->w;
    switch (t->op) {
    case CONST: { Lin l; l.c = t->k; return l; }
    case ZEXT: return numU(t->a[0]);
    case SEXT: { Lin s = numS(t->a[0]); Lin u = numU(t->a[0]); // s = u - 2^wi*b  => b = (u-s)/2^wi ; U = u + (2^w-2^wi) b
        Lin d = u; d.addLin(s, -1); unsigned wi = t->a[0]->w; Lin r = u;
        for (auto &p : d.v) r.add(p.first, p.second / P2(wi) * (P2(w) - P2(wi)));
        r.c += d.c / P2(wi) * (P2(w) - P2(wi));
        // if not divisible fall back to reduction
        for (auto &p : d.v) if (p.second % P2(wi)) return linReduce(t, s, 0, P2(w) - 1);
        return r; }
    case LIN: { Lin e; if (linSum(t, e)) return linReduce(t, e, 0, P2(w) - 1); break; }
    case XOR: if (isC(t->a[1], maskw(w))) { Lin l; l.c = P2(w) - 1; l.addLin(numU(t->a[0]), -1); return l; } break;
    default: break;
    }
    u32 v = termVarOf(t); Lin r = varLin(v);
    memoU[t->id] = r;
    switch (t->op) {
    case EXTR: {
        Lin x = numU(t->a[0]); unsigned W = t->a[0]->w; Lin e; e.addLin(x, 1); e.add(v, -P2(t->lo));
        std::vector<u32> vs{v};
        if (t->lo + w < W) {
            i128 a, b; linBounds(x, a, b); if (b > (i128)t->a[0]->pm) b = t->a[0]->pm;
            i128 hh = b >> (t->lo + w);
            if (hh > 0) { u32 h = newVar(nullptr, 0, hh, true, "h"); e.add(h, -P2(t->lo + w)); vs.push_back(h); } }
        if (t->lo > 0 && (t->a[0]->pm & lowmask(t->lo))) { u32 l = newVar(nullptr, 0, (i128)(t->a[0]->pm & lowmask(t->lo)), true, "l"); e.add(l, -1); vs.push_back(l); }
        for (auto &p : x.v) (void)p;
        defOn(vs, Con{e, 1});
        break;
    }
    case AND: case OR: case XOR: {
        Lin a = numU(t->a[0]), b = numU(t->a[1]);
        if (t->op == AND) { Lin e = a; e.add(v, -1); defOn({v}, ge(e)); e = b; e.add(v, -1); defOn({v}, ge(e)); }
        else { Lin e = a; e.addLin(b, 1); e.add(v, -1); defOn({v}, ge(e));
            if (t->op == OR) { Lin f; f.addLin(a, -1); f.add(v, 1); defOn({v}, ge(f)); f = Lin(); f.addLin(b, -1); f.add(v, 1); defOn({v}, ge(f)); } }
        break;
    }
    case UDIV: {
        Lin x = numU(t->a[0]);
        if (isC(t->a[1]) && t->a[1]->k) {
            i128 d = t->a[1]->k; Lin e = x; e.add(v, -d); defOn({v}, ge(e)); Lin f; f.addLin(e, -1); f.c += d - 1; defOn({v}, ge(f));
        } else { Lin e = x; e.add(v, -1); defOn({v}, ge(e)); }
        break;
    }
    case UREM: {
        Lin x = numU(t->a[0]);
        if (isC(t->a[1]) && t->a[1]->k) {
            i128 d = t->a[1]->k; vars[v].hi = std::min(vars[v].hi, d - 1);
            i128 a, b; linBounds(x, a, b); if (b < 0) b = 0;
            u32 q = newVar(nullptr, 0, b / d, true, "rq"); Lin e = x; e.add(q, -d); e.add(v, -1); defOn({v, q}, Con{e, 1});
        } else {
            Lin e = x; e.add(v, -1); defOn({v}, ge(e));
            Lin d = numU(t->a[1]); d.add(v, -1); d.c -= 1; defOn({v}, ge(d));
        }
        break;
    }
    case LSHR: { Lin x = numU(t->a[0]); x.add(v, -1); defOn({v}, ge(x)); break; }
    case MUL: {
        // product of two views
        T rest = t->a.size() == 2 ? t->a[1] : intern(MUL, w, 0, 0, std::vector<T>(t->a.begin() + 1, t->a.end()));
        Lin x = numU(t->a[0]), y = numU(rest); i128 xl, xh, yl, yh; linBounds(x, xl, xh); linBounds(y, yl, yh);
        if (xh <= P2(62) && yh <= P2(62) && (long double)xh * (long double)yh < BIG) {
            u32 xv, yv; auto asVar = [&](const Lin &l, i128 lo, i128 hi) { if (l.v.size() == 1 && l.c == 0 && l.v[0].second == 1) return l.v[0].first; u32 z = newVar(nullptr, lo, hi, true, "m"); Lin e = l; e.add(z, -1); defOn({z}, Con{e, 1}); return z; };
            xv = asVar(x, xl, xh); yv = asVar(y, yl, yh);
            u32 p = newVar(nullptr, 0, xh * yh, true, "p"); vars[p].prod = true; vars[p].px = xv; vars[p].py = yv;
            if (xh * yh > P2(w) - 1) { u32 q = newVar(nullptr, 0, xh * yh / P2(w), true, "pq"); Lin e; e.add(p, 1); e.add(q, -P2(w)); e.add(v, -1); defOn({v, q}, Con{e, 1}); vars[p].defs.push_back(Con{e, 1}); }
            else { Lin e; e.add(p, 1); e.add(v, -1); defOn({v}, Con{e, 1}); vars[p].defs.push_back(Con{e, 1}); }
        }
        break;
    }
    default: break;
    }
    return r;
}
Lin numS(T t) {
    auto it = memoS.find(t->id); if (it != memoS.end()) return it->second;
    unsigned w = t->w; Lin r;
    if (t->op == CONST) { r.c = sx(t->k, w); }
    else if (!(t->pm >> (w - 1) & 1)) r = numU(t);
    else if (t->op == SEXT) r = numS(t->a[0]);
    else if (t->op == LIN) {
        Lin e; e.c = sx(t->k, w); long double mag = 0; bool big = false;
        for (size_t i = 0; i < t->a.size(); i++) {
            i128 c = t->c[i]; if (t->c[i] > maskw(w) / 2) c -= P2(w);
            Lin u = t->a[i]->op == SEXT || (t->a[i]->pm >> (w - 1) & 1) ? numS(t->a[i]) : numU(t->a[i]);
            long double cm = (long double)c; mag += (cm < 0 ? -cm : cm) * linMag(u); if (mag > BIG) { big = true; break; }
            e.addLin(u, c);
        }
        if (!big) r = linReduce(t, e, -P2(w - 1), P2(w - 1) - 1);
        else goto viaU;
    } else { viaU:

        Lin u = numU(t); u32 s = newVar(nullptr, 0, 1, true, "s");
        r = u; r.add(s, -P2(w));
        Lin a = u; a.add(s, -P2(w - 1)); defOn({s}, ge(a));
        Lin b; b.addLin(u, -1); b.c += P2(w - 1) - 1; b.add(s, P2(w - 1)); defOn({s}, ge(b));
        // tie the sign variable to the value variable too, so facts on the unsigned view reach it
        for (auto &p : u.v) (void)p;
    }
    memoS[t->id] = r; return r;
}
// ------------------------------------------------------------------ refutation of a conjunction
static const i128 INF = (i128)1 << 120;
struct SRow { std::vector<std::pair<u32, i128>> v; i128 c; uint8_t kind; };   // local variable indices
struct Sys {
    std::vector<SRow> rows;            // ge / eq
    std::vector<SRow> nes;
    std::vector<std::pair<i128, i128>> b;
    std::vector<u32> gv;               // local index -> variable
    std::vector<std::array<u32, 3>> prods;   // z = x*y (local indices)
};
static i128 gabs(i128 x) { return x < 0 ? -x : x; }
static i128 ggcd(i128 a, i128 b) {
    a = gabs(a); b = gabs(b);
    while (b) { if (!((a | b) >> 63)) { u64 x = (u64)a, y = (u64)b; while (y) { u64 t = x % y; x = y; y = t; } return x; } i128 t = a % b; a = b; b = t; }
    return a;
}
// normalise; returns false if contradiction, sets trivial
template <class R> static bool normRow(R &c, std::vector<std::pair<u32, i128>> &v, i128 &k, uint8_t kind, bool &trivial) {
    trivial = false; (void)c;
    if (v.empty()) { trivial = true; return kind == 0 ? k >= 0 : k == 0; }
    i128 g = 0; for (auto &p : v) { g = ggcd(g, p.second); if (g == 1) return true; }
    if (g > 1) {
        if (kind == 1 && k % g) return false;
        for (auto &p : v) p.second /= g;
        k = fdiv(k, g);
    }
    return true;
}
static bool normRow(Con &c, bool &trivial) { return normRow(c, c.e.v, c.e.c, c.kind, trivial); }
static bool propagate(Sys &s) {
    // returns false on contradiction
    for (int round = 0; round < 40; round++) {
        bool ch = false;
        for (auto &r : s.rows) {
            for (int dir = 0; dir < (r.kind == 1 ? 2 : 1); dir++) {
                i128 mx = dir ? -r.c : r.c; bool inf = false;
                for (auto &p : r.v) { auto &bb = s.b[p.first]; i128 k = dir ? -p.second : p.second; i128 z = k > 0 ? bb.second : bb.first; i128 m; if (__builtin_mul_overflow(k, z, &m) || __builtin_add_overflow(mx, m, &mx) || gabs(mx) > INF) { inf = true; break; } }
                if (inf) continue;
                if (mx < 0) return false;
                for (auto &p : r.v) {
                    auto &bb = s.b[p.first]; i128 k = dir ? -p.second : p.second;
                    i128 z = k > 0 ? bb.second : bb.first;
                    // k*x + (mx - k z) >= 0 tightens only if k*(other bound - z) + mx < 0
                    i128 ob = k > 0 ? bb.first : bb.second, dz; if (__builtin_mul_overflow(k, ob - z, &dz) || dz + mx >= 0) continue;
                    i128 rest = mx - k * z;
                    if (k > 0) { i128 lo = -fdiv(rest, k); if (lo > bb.first) { bb.first = lo; ch = true; } }
                    else { i128 hi = fdiv(rest, -k); if (hi < bb.second) { bb.second = hi; ch = true; } }
                    if (bb.first > bb.second) return false;
                }
            }
        }
        for (auto &q : s.prods) {
            auto &Z = s.b[q[0]], &X = s.b[q[1]], &Y = s.b[q[2]];
            i128 xl = X.first, xh = X.second, yl = Y.first, yh = Y.second;
            if (xl < 0 || yl < 0 || xh > P2(62) || yh > P2(62)) continue;
            if (xl * yl > Z.first) { Z.first = xl * yl; ch = true; }
            if (xh * yh < Z.second) { Z.second = xh * yh; ch = true; }
            if (Z.first > Z.second) return false;
        }
        for (auto &n : s.nes) {
            i128 k = n.c; int freeCnt = 0; u32 fv = 0; i128 fc = 0;
            for (auto &p : n.v) { auto &bb = s.b[p.first]; if (bb.first == bb.second) k += p.second * bb.first; else { freeCnt++; fv = p.first; fc = p.second; if (freeCnt > 1) break; } }
            if (freeCnt == 0) { if (k == 0) return false; }
            else if (freeCnt == 1 && (-k) % fc == 0) {
                i128 v = -k / fc; auto &bb = s.b[fv];
                if (bb.first == v) { bb.first++; ch = true; } else if (bb.second == v) { bb.second--; ch = true; }
                if (bb.first > bb.second) return false;
            }
        }
        if (!ch) break;
    }
    return true;
}
// Fourier-Motzkin on dense rows
struct DRows { size_t n; std::vector<i128> d; size_t size() const { return d.size() / (n + 1); } i128 *row(size_t i) { return &d[i * (n + 1)]; } };
static bool denseNorm(i128 *r, size_t n, bool eq, bool &trivial) {   // r[n] is the constant
    i128 g = 0; for (size_t i = 0; i < n; i++) if (r[i]) { g = ggcd(g, r[i]); if (g == 1) { trivial = false; return true; } }
    if (!g) { trivial = true; return eq ? r[n] == 0 : r[n] >= 0; }
    trivial = false;
    if (eq && r[n] % g) return false;
    for (size_t i = 0; i < n; i++) if (r[i]) r[i] /= g;
    r[n] = fdiv(r[n], g); return true;
}
static bool fmRefute(const Sys &s) {
    // active variables
    std::vector<int> loc(s.b.size(), -1); std::vector<u32> act;
    std::vector<SRow> extra;
    for (auto &q : s.prods) {
        auto &X = s.b[q[1]], &Y = s.b[q[2]];
        auto row = [&](std::vector<std::pair<u32, i128>> v, i128 c, uint8_t k) { extra.push_back({v, c, k}); };
        if (X.first == X.second) row({{q[0], 1}, {q[2], -X.first}}, 0, 1);
        else if (Y.first == Y.second) row({{q[0], 1}, {q[1], -Y.first}}, 0, 1);
        else {
            i128 xl = X.first, xh = X.second, yl = Y.first, yh = Y.second;
            if (gabs(xl) < P2(40) && gabs(xh) < P2(40) && gabs(yl) < P2(40) && gabs(yh) < P2(40)) {
                auto addm = [&](i128 a, i128 b2, int sgn) { row({{q[0], sgn}, {q[1], -b2 * sgn}, {q[2], -a * sgn}}, a * b2 * sgn, 0); };
                addm(xl, yl, 1); addm(xh, yh, 1); addm(xl, yh, -1); addm(xh, yl, -1);
            }
        }
    }
    auto use = [&](const SRow &r) { for (auto &p : r.v) if (s.b[p.first].first != s.b[p.first].second && loc[p.first] < 0) { loc[p.first] = act.size(); act.push_back(p.first); } };
    for (auto &r : s.rows) use(r); for (auto &r : extra) use(r);
    size_t n = act.size(), W = n + 1;
    DRows ge{n, {}}, eq{n, {}};
    std::vector<i128> tmp(W);
    for (int pass = 0; pass < 2; pass++) for (auto &r : pass ? extra : s.rows) {
        std::fill(tmp.begin(), tmp.end(), 0); tmp[n] = r.c;
        for (auto &p : r.v) { if (loc[p.first] < 0) tmp[n] += p.second * s.b[p.first].first; else tmp[loc[p.first]] += p.second; }
        bool tr; if (!denseNorm(tmp.data(), n, r.kind == 1, tr)) return true;
        if (tr) continue;
        auto &d = r.kind == 1 ? eq : ge; d.d.insert(d.d.end(), tmp.begin(), tmp.end());
    }
    for (size_t i = 0; i < n; i++) for (int k = 0; k < 2; k++) { std::fill(tmp.begin(), tmp.end(), 0); tmp[i] = k ? -1 : 1; tmp[n] = k ? s.b[act[i]].second : -s.b[act[i]].first; ge.d.insert(ge.d.end(), tmp.begin(), tmp.end()); }
    // equalities with a unit coefficient
    auto subst = [&](i128 *r, const i128 *e, size_t v, i128 ev) -> bool {   // e: ev*x + ... = 0, ev = +-1
        i128 k = r[v]; if (!k) return true; i128 f = -k * ev;
        for (size_t i = 0; i <= n; i++) if (e[i]) { i128 m; if (__builtin_mul_overflow(e[i], f, &m) || gabs(m) > INF) return false; r[i] += m; if (gabs(r[i]) > INF) return false; }
        return true;
    };
    for (;;) {
        int pick = -1; size_t pv = 0; size_t best = ~0ul;
        for (size_t i = 0; i < eq.size(); i++) { i128 *r = eq.row(i); size_t cnt = 0; int u = -1; for (size_t j = 0; j < n; j++) if (r[j]) { cnt++; if (u < 0 && (r[j] == 1 || r[j] == -1)) u = j; } if (u >= 0 && cnt < best) { best = cnt; pick = i; pv = u; } }
        if (pick < 0) break;
        std::vector<i128> e(eq.row(pick), eq.row(pick) + W); i128 ev = e[pv];
        for (int w = 0; w < 2; w++) {
            DRows &src = w ? ge : eq; DRows dst{n, {}}; dst.d.reserve(src.d.size());
            for (size_t i = 0; i < src.size(); i++) { if (!w && (int)i == pick) continue; i128 *r = src.row(i); if (r[pv]) { if (!subst(r, e.data(), pv, ev)) continue; bool tr; if (!denseNorm(r, n, !w, tr)) return true; if (tr) continue; } dst.d.insert(dst.d.end(), r, r + W); }
            src.d.swap(dst.d);
        }
    }
    for (size_t i = 0; i < eq.size(); i++) { i128 *r = eq.row(i); ge.d.insert(ge.d.end(), r, r + W); for (size_t j = 0; j <= n; j++) tmp[j] = -r[j]; ge.d.insert(ge.d.end(), tmp.begin(), tmp.end()); }
    std::vector<size_t> idx;
    for (int it = 0; it < 80; it++) {
        // dedupe: same coefficients keep the tightest; opposite pair contradiction
        size_t m = ge.size(); std::unordered_map<u64, std::vector<size_t>> hb; hb.reserve(m * 2);
        DRows nd{n, {}}; nd.d.reserve(ge.d.size());
        auto hash = [&](const i128 *r, bool neg) { u64 h = 1469598103934665603ull; for (size_t j = 0; j < n; j++) if (r[j]) { i128 x = neg ? -r[j] : r[j]; h = (h ^ (j + 1)) * 1099511628211ull; h = (h ^ (u64)x) * 1099511628211ull; } return h; };
        for (size_t i = 0; i < m; i++) {
            const i128 *r = ge.row(i); u64 h = hash(r, false); bool dup = false;
            for (size_t q : hb[h]) { i128 *o = nd.row(q); if (!memcmp(o, r, n * sizeof(i128))) { if (r[n] < o[n]) o[n] = r[n]; dup = true; break; } }
            if (!dup) { hb[h].push_back(nd.size()); nd.d.insert(nd.d.end(), r, r + W); }
        }
        for (size_t i = 0; i < nd.size(); i++) { i128 *r = nd.row(i); auto f = hb.find(hash(r, true)); if (f == hb.end()) continue; for (size_t q : f->second) { i128 *o = nd.row(q); bool opp = true; for (size_t j = 0; j < n && opp; j++) opp = o[j] == -r[j]; if (opp && o[n] + r[n] < 0) return true; } }
        ge.d.swap(nd.d); m = ge.size();
        std::vector<std::pair<int, int>> cnt(n); for (size_t i = 0; i < m; i++) { i128 *r = ge.row(i); for (size_t j = 0; j < n; j++) if (r[j] > 0) cnt[j].first++; else if (r[j] < 0) cnt[j].second++; }
        long bc = 1e9; int bv = -1;
        for (size_t j = 0; j < n; j++) if (cnt[j].first || cnt[j].second) { long c = (long)cnt[j].first * cnt[j].second - cnt[j].first - cnt[j].second; if (c < bc) { bc = c; bv = j; } }
        if (bv < 0) return false;
        if ((long)cnt[bv].first * cnt[bv].second + (long)m > 900 + cnt[bv].first + cnt[bv].second) return false;
        DRows out{n, {}};
        for (size_t i = 0; i < m; i++) if (!ge.row(i)[bv]) out.d.insert(out.d.end(), ge.row(i), ge.row(i) + W);
        for (size_t i = 0; i < m; i++) { const i128 *a = ge.row(i); if (a[bv] <= 0) continue;
            for (size_t k = 0; k < m; k++) { const i128 *b2 = ge.row(k); if (b2[bv] >= 0) continue;
                i128 g = ggcd(a[bv], b2[bv]), ma = -b2[bv] / g, mb = a[bv] / g; bool ok = true;
                for (size_t j = 0; j <= n; j++) { i128 x = 0, y = 0; if (a[j] && (__builtin_mul_overflow(a[j], ma, &x) || gabs(x) > INF)) { ok = false; break; } if (b2[j] && (__builtin_mul_overflow(b2[j], mb, &y) || gabs(y) > INF)) { ok = false; break; } tmp[j] = x + y; if (gabs(tmp[j]) > INF) { ok = false; break; } }
                if (!ok) continue;
                bool tr; if (!denseNorm(tmp.data(), n, false, tr)) return true; if (!tr) out.d.insert(out.d.end(), tmp.begin(), tmp.end());
            } }
        ge.d.swap(out.d);
    }
    return false;
}
static int splitBudget;
// e != 0 together with a row e >= 0 (or -e >= 0) tightens the row
static void tightenNe(Sys &s) {
    bool ch = true; int guard = 0;
    while (ch && ++guard < 6) { ch = false;
        for (auto &n : s.nes) for (auto &r : s.rows) {
            if (r.kind != 0 || r.v.size() != n.v.size()) continue;
            bool same = r.c == n.c, opp = r.c == -n.c;
            for (size_t i = 0; i < r.v.size() && (same || opp); i++) { if (r.v[i].first != n.v[i].first) same = opp = false; else { if (r.v[i].second != n.v[i].second) same = false; if (r.v[i].second != -n.v[i].second) opp = false; } }
            if (same || opp) { r.c -= 1; ch = true; }
        } }
}
static bool refuteSys(Sys s, int depth) {
    nRefutes++;
    if (!s.nes.empty()) tightenNe(s);
    if (!propagate(s)) return true;
    if (fmRefute(s)) return true;
    if (depth <= 0 || splitBudget <= 0) return false;
    u32 bv = ~0u; long score = -1;
    std::vector<int> occ(s.b.size()); for (auto &r : s.rows) for (auto &p : r.v) occ[p.first]++;
    for (u32 q = 0; q < s.b.size(); q++) {
        i128 d = s.b[q].second - s.b[q].first; if (d < 1 || d > 2) continue;
        if (!occ[q]) continue;
        long sc = (vars[s.gv[q]].aux ? 1000 : 0) + (d == 1 ? 100 : 0) + occ[q];
        if (sc > score) { score = sc; bv = q; }
    }
    if (bv != ~0u) {
        splitBudget--; nSplits++;
        auto bb = s.b[bv]; bool all = true;
        for (i128 x = bb.first; x <= bb.second; x++) { Sys t = s; t.b[bv] = {x, x}; if (!refuteSys(t, depth - 1)) { all = false; break; } }
        return all;
    }
    for (size_t i = 0; i < s.nes.size() && i < 12; i++) {
        splitBudget--; nSplits++;
        Sys t = s; t.nes.erase(t.nes.begin() + i); Sys u = t;
        SRow e = s.nes[i]; e.kind = 0; e.c -= 1; t.rows.push_back(e); SRow f = s.nes[i]; f.kind = 0; for (auto &p : f.v) p.second = -p.second; f.c = -f.c - 1; u.rows.push_back(f);
        bool a = refuteSys(t, depth - 1 > 2 ? 2 : depth - 1);
        bool b2 = a && refuteSys(u, depth - 1 > 2 ? 2 : depth - 1);
        if (a && b2) return true;
        if (a && !b2) return false;
        if (splitBudget <= 0) break;
    }
    return false;
}
static std::unordered_map<u64, std::vector<std::pair<std::vector<Con>, bool>>> qcache;
// A concrete integer point of the system: if there is one, it cannot be refuted.
static std::unordered_map<u32, i128> lastPoint;
static int pointTries;
static bool onPoint(const Sys &s, const std::vector<i128> &x) {
    for (size_t i = 0; i < x.size(); i++) if (x[i] < s.b[i].first || x[i] > s.b[i].second) return false;
    auto val = [&](const SRow &r, i128 &o) { o = r.c; for (auto &p : r.v) { i128 m; if (__builtin_mul_overflow(p.second, x[p.first], &m) || __builtin_add_overflow(o, m, &o)) return false; } return true; };
    i128 o;
    for (auto &r : s.rows) if (!val(r, o) || (r.kind == 1 ? o != 0 : o < 0)) return false;
    for (auto &r : s.nes) if (!val(r, o) || o == 0) return false;
    for (auto &q : s.prods) { i128 m; if (__builtin_mul_overflow(x[q[1]], x[q[2]], &m) || m != x[q[0]]) return false; }
    return true;
}
static bool searchPoint(Sys s, size_t from, std::vector<i128> &x) {
    if (!propagate(s)) { pointTries--; return false; }
    size_t i = from; while (i < s.b.size() && s.b[i].first == s.b[i].second) i++;
    if (i == s.b.size()) { for (size_t j = 0; j < i; j++) x[j] = s.b[j].first; if (onPoint(s, x)) return true; pointTries--; return false; }
    i128 lo = s.b[i].first, hi = s.b[i].second, c[3]; int n = 0;
    auto it = lastPoint.find(s.gv[i]); if (it != lastPoint.end() && it->second >= lo && it->second <= hi) c[n++] = it->second;
    if (lo > -INF && !(n && c[0] == lo)) c[n++] = lo;
    if (hi < INF && hi != lo && !(n && c[0] == hi)) c[n++] = hi;
    if (!n) c[n++] = 0;
    for (int k = 0; k < n; k++) { s.b[i] = {c[k], c[k]}; if (searchPoint(s, i + 1, x)) return true; if (pointTries <= 0) return false; }
    return false;
}
static bool hasPoint(const Sys &s) {
    std::vector<i128> x(s.b.size());
    for (size_t i = 0; i < x.size(); i++) { auto it = lastPoint.find(s.gv[i]); x[i] = it != lastPoint.end() ? it->second : s.b[i].first; }
    if (onPoint(s, x)) return true;
    pointTries = 12;
    if (!searchPoint(s, 0, x)) return false;
    for (size_t i = 0; i < x.size(); i++) lastPoint[s.gv[i]] = x[i];
    return true;
}
static bool refute(const std::vector<Con> &facts, const std::vector<Con> &goal) {
    nQueries++;
    // closure
    std::set<u32> vs; std::vector<u32> work; std::vector<Con> all; std::vector<char> usedF(facts.size());
    std::set<Con> seen;
    auto addc = [&](const Con &c) { if (seen.insert(c).second) { all.push_back(c); for (auto &p : c.e.v) if (vs.insert(p.first).second) work.push_back(p.first); } };
    for (auto &g : goal) addc(g);
    // index of facts by var
    static thread_local std::unordered_map<u32, std::vector<u32>> ix; ix.clear();
    for (size_t i = 0; i < facts.size(); i++) for (auto &p : facts[i].e.v) ix[p.first].push_back(i);
    for (auto &f : facts) if (f.e.v.empty()) addc(f);
    while (!work.empty()) {
        u32 v = work.back(); work.pop_back();
        for (auto &d : vars[v].defs) addc(d);
        if (vars[v].prod) { if (vs.insert(vars[v].px).second) work.push_back(vars[v].px); if (vs.insert(vars[v].py).second) work.push_back(vars[v].py); }
        auto it = ix.find(v); if (it != ix.end()) for (u32 i : it->second) if (!usedF[i]) { usedF[i] = 1; addc(facts[i]); }
    }
    std::vector<Con> key(seen.begin(), seen.end());
    u64 h = 1469598103934665603ull; for (auto &c : key) { h = (h ^ c.kind ^ (u64)c.e.c) * 1099511628211ull; for (auto &p : c.e.v) h = (h ^ p.first ^ ((u64)p.second << 7)) * 1099511628211ull; }
    auto &bucket = qcache[h]; for (auto &e : bucket) if (e.first == key) return e.second;
    Sys s; bool contra = false;
    std::unordered_map<u32, u32> li; li.reserve(vs.size() * 2);
    for (u32 v : vs) { li[v] = s.gv.size(); s.gv.push_back(v); s.b.push_back({vars[v].lo, vars[v].hi}); }
    for (u32 v : vs) if (vars[v].prod) s.prods.push_back({li[v], li[vars[v].px], li[vars[v].py]});
    for (auto c : all) {
        if (linMag(c.e) > 1e33L) continue;   // too large for exact arithmetic: leave the constraint out
        bool tr = false; if (c.kind == 2) { if (c.e.v.empty() && c.e.c == 0) contra = true; } else { if (!normRow(c, tr)) contra = true; if (tr) continue; }
        SRow r; r.c = c.e.c; r.kind = c.kind; for (auto &p : c.e.v) r.v.push_back({li[p.first], p.second}); std::sort(r.v.begin(), r.v.end());
        (c.kind == 2 ? s.nes : s.rows).push_back(r);
    }
    splitBudget = 120;
    bool r = contra || (!hasPoint(s) && refuteSys(s, 7));
    bucket.push_back({key, r});
    return r;
}
// ------------------------------------------------------------------ facts
bool Facts::addCon(const Con &c, bool check) {
    if (infeasible) return false;
    if (c.e.v.empty()) { bool ok = c.kind == 0 ? c.e.c >= 0 : c.kind == 1 ? c.e.c == 0 : c.e.c != 0; if (!ok) infeasible = true; return ok; }
    if (std::find(cons.begin(), cons.end(), c) != cons.end()) return true;
    cons.push_back(c);
    if (check && c.kind != 2 && refute(cons, {c})) { infeasible = true; return false; }
    return true;
}
bool Facts::entailsGE(const Lin &e) { if (e.v.empty()) return e.c >= 0; Con n; n.kind = 0; n.e.addLin(e, -1); n.e.c -= 1; return refute(cons, {n}); }
bool Facts::entailsEQ0(const Lin &e) {
    if (e.v.empty()) return e.c == 0;
    Con n; n.kind = 0; n.e.addLin(e, -1); n.e.c -= 1; if (!refute(cons, {n})) return false;
    Con m; m.kind = 0; m.e = e; m.e.c -= 1; return refute(cons, {m});
}
Lin Facts::pin(const Lin &e) {
    Lin r; r.c = e.c;
    for (auto &p : e.v) {
        auto &vi = vars[p.first];
        if (!vi.aux || vi.hi - vi.lo > 7) { r.add(p.first, p.second); continue; }
        auto it = pins.find(p.first);
        if (it == pins.end()) {
            auto tr = pinTried.find(p.first);
            if (tr != pinTried.end() && tr->second == cons.size()) { r.add(p.first, p.second); continue; }
            int alive = 0; i128 val = 0;
            i128 lo = vi.lo, hi = vi.hi;
            for (i128 x = lo; x <= hi && alive < 2; x++) { Lin l; l.add(p.first, 1); l.c = -x; if (!refute(cons, {Con{l, 1}})) { alive++; val = x; } }
            if (alive == 1) it = pins.emplace(p.first, val).first;
            else { pinTried[p.first] = cons.size(); r.add(p.first, p.second); continue; }
        }
        r.c += p.second * it->second;
    }
    return r;
}
bool Facts::rangeU(T t, i128 &lo, i128 &hi) { Lin l = numU(t); linBounds(l, lo, hi); return true; }
bool Facts::setBit(const Poly &p0, int v) {
    Poly p; if (!polySubst(bits, p0, p)) return true;
    if (v) p = polyXor(p, pconst(1));   // p must be 0
    int c; if (polyIsConst(p, c)) { if (c) { infeasible = true; return false; } return true; }
    // single monomial 'm + 1 = 0' -> every atom is 1
    if (p.size() == 2 && p[0].empty() && p[1].size() >= 1) {
        for (u32 a : p[1]) { bits[a] = pconst(1); auto in = atomInfo(a); if (in.first->w == 1 || true) { T b = mkExtr(in.first, in.second, 1); if (b->op == EXTR || b->op == SYM) { Lin l = numU(b); l.c -= 1; if (!addCon({l, 1}, false)) return false; } } }
        return true;
    }
    // a linear atom not occurring elsewhere: a := rest
    for (auto &m : p) if (m.size() == 1) {
        u32 a = m[0]; bool occ = false; for (auto &n : p) if (n != m && std::find(n.begin(), n.end(), a) != n.end()) occ = true;
        if (occ) continue;
        Poly rest; for (auto &n : p) if (n != m) rest.push_back(n);
        // normalise existing substitutions
        for (auto &kv : bits) { Subst s; s[a] = rest; Poly o; if (polySubst(s, kv.second, o)) kv.second = o; }
        bits[a] = rest;
        int cv; if (polyIsConst(rest, cv)) { auto in = atomInfo(a); T b = mkExtr(in.first, in.second, 1); if (b->op == EXTR || b->op == SYM) { Lin l = numU(b); l.c -= cv; if (!addCon({l, 1}, false)) return false; } }
        return true;
    }
    return true;
}
static int decFloat(Facts &f, T c) {
    T a = c->a[0], b = c->a[1]; unsigned poss = 15;
    if (a == b) poss = 10;
    auto it = f.frel.find({a, b}); if (it != f.frel.end()) poss &= it->second;
    auto nan = [&](T x) { if (isC(x)) { double d = floatConst(x); return d != d ? 1 : 0; } auto i = f.fnan.find(x); return i == f.fnan.end() ? (x->op == UF && x->name.find("itofp") != std::string::npos ? 0 : -1) : i->second; };
    int na = nan(a), nb = nan(b);
    if (na == 1 || nb == 1) poss &= 8;
    else if (na == 0 && nb == 0) poss &= 7;
    // one-step transitivity through recorded relations
    if (poss & 7) {
        auto rel = [&](T x, T y) -> unsigned { if (isC(x) && isC(y)) { double p = floatConst(x), q = floatConst(y); return (p != p || q != q) ? 8u : p < q ? 1u : p == q ? 2u : 4u; }
            bool sw = x->id > y->id; auto i = f.frel.find(sw ? std::make_pair(y, x) : std::make_pair(x, y)); if (i == f.frel.end()) return 15u; return sw ? flipMask(i->second) : i->second; };
        std::set<T> mids; for (auto &kv : f.frel) { mids.insert(kv.first.first); mids.insert(kv.first.second); }
        for (T m : mids) if (m != a && m != b) {
            unsigned r1 = rel(a, m), r2 = rel(m, b);
            if ((r1 & 8) || (r2 & 8)) continue;
            unsigned out = 8;  // NaN impossible actually, both compared ordered
            for (unsigned x : {1u, 2u, 4u}) if (r1 & x) for (unsigned y : {1u, 2u, 4u}) if (r2 & y) {
                if (x == 2) out |= y; else if (y == 2) out |= x; else if (x == y) out |= x; else out |= 7;
            }
            poss &= out & 7;
        }
    }
    unsigned m = c->k;
    if (!(poss & m)) return 0;
    if (!(poss & ~m)) return 1;
    return -1;
}
static void collectUF(T t, std::vector<T> &o, int depth) {
    if (t->op == UF && !t->a.empty()) { if (std::find(o.begin(), o.end(), t) == o.end()) o.push_back(t); return; }
    if (depth && t->op != TBL) for (T x : t->a) collectUF(x, o, depth - 1);
}
static T rebuild(T t, T from, T to) {
    if (t == from) return to;
    switch (t->op) {
    case LIN: { T r = mkConst(t->k, t->w); for (size_t i = 0; i < t->a.size(); i++) r = mkAdd(r, mkMulC(rebuild(t->a[i], from, to), t->c[i])); return r; }
    case ZEXT: return mkZExt(rebuild(t->a[0], from, to), t->w);
    case SEXT: return mkSExt(rebuild(t->a[0], from, to), t->w);
    case EXTR: return mkExtr(rebuild(t->a[0], from, to), t->lo, t->w);
    case UF: { std::vector<T> a; for (T x : t->a) a.push_back(rebuild(x, from, to)); return mkUF(t->name, a, t->w); }
    default: return t;
    }
}
// equal by congruence: same function of equal arguments, conversions of a value known to be a constant
static bool equalTerms(Facts &f, T a, T b, int depth) {
    if (a == b) return true;
    if (a->w != b->w) return false;
    if (a->op == UF && b->op == UF && a->name == b->name && a->a.size() == b->a.size() && !a->a.empty() && depth) {
        bool eq = true; for (size_t q = 0; q < a->a.size() && eq; q++) eq = equalTerms(f, a->a[q], b->a[q], depth - 1);
        if (eq) return true;
        if ((a->name == "fadd" || a->name == "fmul") && equalTerms(f, a->a[0], b->a[1], depth - 1) && equalTerms(f, a->a[1], b->a[0], depth - 1)) return true;
    }
    if (isC(a)) std::swap(a, b);
    if (a->op == UF && isC(b) && (a->name == "sitofp" || a->name == "uitofp") && a->a.size() == 1) {
        double d = floatConst(b);
        if (d > -9e15 && d < 9e15 && d == (double)(int64_t)d && !(d == 0 && std::signbit(d)) && (a->name == "sitofp" || d >= 0)) {
            T n = mkConst((u64)(int64_t)d & maskw(a->a[0]->w), a->a[0]->w);
            if (mkSExt(n, 64)->k == (u64)(int64_t)d || a->name == "uitofp") return f.entailsEqual(a->a[0], n);
        }
        return false;
    }
    return f.entailsEqual(a, b);
}
static T congruent(Facts &f, T a) {
    std::vector<T> u; collectUF(a, u, 3);
    bool ch = false;
    for (size_t i = 0; i < u.size(); i++) for (size_t j = i + 1; j < u.size(); j++) {
        if (u[i]->name != u[j]->name || u[i]->w != u[j]->w || u[i]->a.size() != u[j]->a.size() || u[i] == u[j]) continue;
        static std::set<std::pair<T, T>> active;   // a pair is not asked for again while it is being decided
        auto key = std::minmax(u[i], u[j]); std::pair<T, T> kk(key.first, key.second);
        if (active.size() > 3 || !active.insert(kk).second) continue;
        bool same = equalTerms(f, u[i], u[j], 6);
        active.erase(kk);
        if (!same) continue;
        a = rebuild(a, u[j], u[i]); u[j] = u[i]; ch = true;
    }
    return ch ? a : nullptr;
}
// other linear forms of d == 0 over quantities already in use:  d = L + k  <=>  L == -k  <=>  -L == k
static void altZero(T d, std::vector<Lin> &o) {
    if (d->op != LIN || d->k == 0) return;
    T L = mkSub(d, mkConst(d->k, d->w)), N = mkNeg(L);
    if (memoU.count(L->id)) { Lin e = numU(L); e.c -= (i128)((0 - d->k) & maskw(d->w)); o.push_back(e); }
    if (N != L && memoU.count(N->id)) { Lin e = numU(N); e.c -= (i128)d->k; o.push_back(e); }
}
// products with a one-bit factor whose value is known
static bool hasMul(T t) {
    static std::unordered_map<u32, bool> memo; auto it = memo.find(t->id); if (it != memo.end()) return it->second;
    bool r = t->op == MUL; if (!r && (t->op == LIN || t->op == ZEXT || t->op == EQ || t->op == ULT || t->op == SLT)) for (auto x : t->a) r |= hasMul(x);
    return memo[t->id] = r;
}
static T knownBits(Facts &f, T t) {
    if (!hasMul(t)) return t;
    switch (t->op) {
    case MUL: {
        T r = mkConst(1, t->w);
        for (auto x : t->a) {
            Poly p; int v;
            if (x->pm == 1 && polySubst(f.bits, bitOf(x, 0), p) && polyIsConst(p, v)) { if (!v) return mkConst(0, t->w); continue; }
            r = mkMul(r, x);
        }
        return r;
    }
    case LIN: { T r = mkConst(t->k, t->w); for (size_t i = 0; i < t->a.size(); i++) r = mkAdd(r, mkMulC(knownBits(f, t->a[i]), t->c[i])); return r; }
    case ZEXT: return mkZExt(knownBits(f, t->a[0]), t->w);
    case EQ: return mkEq(knownBits(f, t->a[0]), knownBits(f, t->a[1]));
    case ULT: return mkUlt(knownBits(f, t->a[0]), knownBits(f, t->a[1]));
    case SLT: return mkSlt(knownBits(f, t->a[0]), knownBits(f, t->a[1]));
    default: return t;
    }
}
// zero extension of a sum known not to leave the range of its type here
T Facts::widen(T t, unsigned w) {
    if (t->op != LIN || t->w >= w || t->w > 32) return nullptr;
    Lin e; if (!linSum(t, e)) return nullptr;
    Lin hi; hi.addLin(e, -1); hi.c += (i128)maskw(t->w);
    if (!entailsGE(e) || !entailsGE(hi)) return nullptr;
    auto sgn = [&](u64 c) { return c >> (t->w - 1) & 1 ? c | ~maskw(t->w) : c; };
    T r = mkConst(sgn(t->k), w);
    for (size_t i = 0; i < t->a.size(); i++) r = mkAdd(r, mkMulC(mkZExt(t->a[i], w), sgn(t->c[i])));
    return r;
}
int Facts::decide(T c) {
    if (isC(c)) return c->k & 1;
    if (c->w == 1 && hasMul(c)) { T k = knownBits(*this, c); if (k != c) { int d = decide(k); if (d >= 0) return d; } }
    if (c->op == XOR && isC(c->a[1], 1)) { int r = decide(c->a[0]); return r < 0 ? r : !r; }
    if (c->op == AND) { int a = decide(c->a[0]); if (a == 0) return 0; int b = decide(c->a[1]); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
    if (c->op == OR) { int a = decide(c->a[0]); if (a == 1) return 1; int b = decide(c->a[1]); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
    if (c->op == FCMP) return decFloat(*this, c);
    if (boolFacts.count({c, 1})) return 1;
    if (boolFacts.count({c, 0})) return 0;
    { Poly p; int v; if (polySubst(bits, bitOf(c, 0), p) && polyIsConst(p, v)) return v; }
    switch (c->op) {
    case EQ: {
        T a = c->a[0], b = c->a[1];
        Lin e = numU(a); e.addLin(numU(b), -1); e = pin(e);
        // a is a difference d ; d==0 mod 2^w
        if (e.v.empty()) return e.c == 0;
        if (refute(cons, {Con{e, 1}})) return 0;
        if (entailsEQ0(e)) return 1;
        std::vector<Lin> alt; if (isC(b, 0)) altZero(a, alt);
        for (auto &x0 : alt) { Lin x = pin(x0); if (refute(cons, {Con{x, 1}})) return 0; if (entailsEQ0(x)) return 1; }
        // original operands may be easier in bit view
        if (a->w <= 64 && isC(b)) {
            bool allz = true, anyDiff = false;
            for (unsigned i = 0; i < a->w; i++) {
                if (!(a->pm >> i & 1) && !(b->k >> i & 1)) continue;
                Poly p; int v; if (!polySubst(bits, polyXor(bitOf(a, i), bitOf(b, i)), p)) { allz = false; continue; }
                if (polyIsConst(p, v)) { if (v) { anyDiff = true; break; } } else allz = false;
            }
            if (anyDiff) return 0;
            if (allz) return 1;
        }
        // congruence: applications of one function to provably equal arguments
        if (T n = congruent(*this, a)) { T c2 = mkEq(n, b); if (c2 != c) return decide(c2); }
        return -1;
    }
    case ULT: case SLT: {
        Lin a = c->op == ULT ? numU(c->a[0]) : numS(c->a[0]), b = c->op == ULT ? numU(c->a[1]) : numS(c->a[1]);
        Lin e = b; e.addLin(a, -1); Lin n; n.addLin(e, -1);  // a<b: e-1>=0
        e.c -= 1; e = pin(e); n = pin(n);
        if (entailsGE(e)) return 1;
        if (entailsGE(n)) return 0;
        return -1;
    }
    default: {
        Lin e = numU(c); Lin z = e; z.c -= 1;
        if (e.v.empty()) return e.c != 0;
        if (refute(cons, {Con{z, 1}})) return 0;
        if (refute(cons, {Con{e, 1}})) return 1;
        return -1;
    }
    }
}
bool Facts::assume(T c, bool val) {
    if (infeasible) return false;
    if (isC(c)) { if ((c->k & 1) != (u64)val) infeasible = true; return !infeasible; }
    if (c->w == 1 && hasMul(c)) { T k = knownBits(*this, c); if (k != c && !assume(k, val)) return false; }
    if (c->op == XOR && isC(c->a[1], 1)) return assume(c->a[0], !val);
    if (c->op == AND || c->op == OR) {
        bool conj = (c->op == AND) == val;
        if (conj) return assume(c->a[0], val) && assume(c->a[1], val);
        int a = decide(c->a[0]), b = decide(c->a[1]);
        bool killer = c->op == AND ? false : true;   // AND false needs one false; OR true needs one true
        if (a == (int)killer || b == (int)killer) return true;
        if (a == (int)!killer) return assume(c->a[1], killer);
        if (b == (int)!killer) return assume(c->a[0], killer);
        throw NeedSplit{c->a[0]};
    }
    if (c->op == FCMP) {
        int d = decFloat(*this, c); if (d >= 0) { if (d != (int)val) infeasible = true; return !infeasible; }
        auto k = std::make_pair(c->a[0], c->a[1]); auto it = frel.find(k); unsigned cur = it == frel.end() ? 15 : it->second;
        unsigned m = val ? c->k : 15 & ~c->k; cur &= m;
        if (!cur) { infeasible = true; return false; }
        frel[k] = cur;
        if (!(cur & 8)) { if (!isC(c->a[0])) fnan[c->a[0]] = 0; if (!isC(c->a[1])) fnan[c->a[1]] = 0; }
        if (cur == 8) { if (c->a[0] == c->a[1]) fnan[c->a[0]] = 1; else { auto kn = [&](T x) { return isC(x) ? (floatConst(x) == floatConst(x)) : (fnan.count(x) && fnan[x] == 0); }; if (kn(c->a[0])) fnan[c->a[1]] = 1; else if (kn(c->a[1])) fnan[c->a[0]] = 1; } }
        return true;
    }
    int d = decide(c);
    if (d >= 0) { if (d != (int)val) infeasible = true; return !infeasible; }
    switch (c->op) {
    case EQ: {
        Lin e = numU(c->a[0]); e.addLin(numU(c->a[1]), -1); e = pin(e);
        std::vector<Lin> alt; if (isC(c->a[1], 0)) altZero(c->a[0], alt);
        for (auto &x : alt) if (!addCon({pin(x), (uint8_t)(val ? 1 : 2)})) return false;
        if (val) {
            if (!addCon({e, 1})) return false;
            T a = c->a[0], b = c->a[1];
            // bit substitution where cheap
            int n = __builtin_popcountll(a->pm | b->pm);
            if (n <= 64 && (a->op != LIN || linDisjoint(a) || n <= 8))
                for (unsigned i = 0; i < a->w; i++) if ((a->pm | b->pm) >> i & 1) if (!setBit(polyXor(bitOf(a, i), bitOf(b, i)), 0)) return false;
            if (a->op == LIN && a->a.size() == 2 && a->k == 0 && a->c[0] == 1 && a->c[1] == maskw(a->w))
                for (unsigned i = 0; i < a->w; i++) if (!setBit(polyXor(bitOf(a->a[0], i), bitOf(a->a[1], i)), 0)) return false;
            if (a->op == LIN && a->a.size() == 1 && a->c[0] == 1 && isC(b, 0)) {   // x + k == 0
                u64 v = (0 - a->k) & maskw(a->w);
                for (unsigned i = 0; i < a->w; i++) if (!setBit(bitOf(a->a[0], i), v >> i & 1)) return false;
            }
            return true;
        }
        boolFacts.insert({c, 0});
        { const Poly &p = bitOf(c, 0); bool opaque = p.size() == 1 && p[0].size() == 1 && atomInfo(p[0][0]).first == c; if (!opaque) if (!setBit(p, 0)) return false; }
        return addCon({e, 2});
    }
    case ULT: case SLT: {
        Lin a = c->op == ULT ? numU(c->a[0]) : numS(c->a[0]), b = c->op == ULT ? numU(c->a[1]) : numS(c->a[1]);
        Lin e; if (val) { e = b; e.addLin(a, -1); e.c -= 1; } else { e = a; e.addLin(b, -1); }
        return addCon({pin(e), 0});
    }
    default: {
        if (!setBit(bitOf(c, 0), val)) return false;
        Lin e = numU(c); e.c -= val ? 1 : 0;
        return addCon({e, 1});
    }
    }
}
bool Facts::entailsEqual(T a, T b) {
    if (a == b) return true;
    if (a->w != b->w) return false;
    T c = mkEq(a, b);
    int d = decide(c);
    if (d == 1) return true;
    if (d == 0) return false;
    for (unsigned i = 0; i < a->w; i++) {
        Poly p; int v; if (!polySubst(bits, polyXor(bitOf(a, i), bitOf(b, i)), p)) return false;
        if (!polyIsConst(p, v) || v) return false;
    }
    return true;
}
