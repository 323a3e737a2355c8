// Development aid: differential test of the domain (term constructors, bit view, assume/decide) against direct evaluation.
#include "../dom.h"
#include <random>
static std::mt19937_64 R;
static std::map<T, u64> env;
static std::unordered_map<T, u64> memo;
static u64 ev(T t);
static int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static u64 ev0(T t) {
    u64 m = maskw(t->w);
    switch (t->op) {
    case CONST: return t->k; case SYM: return env[t];
    case LIN: { u64 r = t->k; for (size_t i = 0; i < t->a.size(); i++) r += t->c[i] * ev(t->a[i]); return r & m; }
    case MUL: { u64 r = 1; for (auto x : t->a) r *= ev(x); return r & m; }
    case UDIV: { u64 b = ev(t->a[1]); return b ? ev(t->a[0]) / b : ~0ull & m; } case UREM: { u64 b = ev(t->a[1]); return b ? ev(t->a[0]) % b : ev(t->a[0]); }
    case SDIV: { int64_t a = sx(ev(t->a[0]), t->w), b = sx(ev(t->a[1]), t->w); return b && !(b == -1) ? (u64)(a / b) & m : b ? (u64)-a & m : 0; }
    case SREM: { int64_t a = sx(ev(t->a[0]), t->w), b = sx(ev(t->a[1]), t->w); return b && b != -1 ? (u64)(a % b) & m : 0; }
    case AND: { u64 r = m; for (auto x : t->a) r &= ev(x); return r; } case OR: { u64 r = 0; for (auto x : t->a) r |= ev(x); return r; } case XOR: { u64 r = 0; for (auto x : t->a) r ^= ev(x); return r; }
    case SHL: { u64 b = ev(t->a[1]); return b >= t->w ? 0 : (ev(t->a[0]) << b) & m; } case LSHR: { u64 b = ev(t->a[1]); return b >= t->w ? 0 : ev(t->a[0]) >> b; }
    case ASHR: { u64 b = ev(t->a[1]); int64_t a = sx(ev(t->a[0]), t->w); return (u64)(b >= t->w ? (a < 0 ? -1 : 0) : a >> b) & m; }
    case ZEXT: return ev(t->a[0]); case SEXT: return (u64)sx(ev(t->a[0]), t->a[0]->w) & m; case EXTR: return (ev(t->a[0]) >> t->lo) & m;
    case CONCAT: { u64 r = 0; unsigned s = 0; for (auto x : t->a) { r |= ev(x) << s; s += x->w; } return r; }
    case EQ: return ev(t->a[0]) == ev(t->a[1]); case ULT: return ev(t->a[0]) < ev(t->a[1]); case SLT: return sx(ev(t->a[0]), t->a[0]->w) < sx(ev(t->a[1]), t->a[1]->w);
    default: fprintf(stderr, "op %d\n", t->op); abort();
    }
}
static u64 ev(T t) { auto i = memo.find(t); if (i != memo.end()) return i->second; u64 v = ev0(t); memo[t] = v; return v; }
static std::vector<T> pool; static std::vector<u64> val;
static u64 rnd(unsigned w) { switch (R() % 6) { case 0: return R() & maskw(w); case 1: return R() % 4 & maskw(w); case 2: return (0 - R() % 4) & maskw(w); case 3: return ((1ull << (R() % w)) - R() % 2) & maskw(w); case 4: return (R() % 300) & maskw(w); default: return ((1ull << (w - 1)) + R() % 5 - 2) & maskw(w); } }
static void check(const char *what, T t, u64 v) { u64 e = ev(t); if (e != (v & maskw(t->w)) || (e & ~t->pm)) { fprintf(stderr, "MISMATCH %s: %s  term=%llu expected=%llu pm=%llx\n", what, show(t, 8).c_str(), (unsigned long long)e, (unsigned long long)(v & maskw(t->w)), (unsigned long long)t->pm); exit(1); } }
static size_t pick(unsigned w) { std::vector<size_t> c; for (size_t i = 0; i < pool.size(); i++) if (!w || pool[i]->w == w) c.push_back(i); return c.empty() ? (size_t)-1 : c[R() % c.size()]; }
static void put(const char *n, T t, u64 v) { check(n, t, v); pool.push_back(t); val.push_back(v & maskw(t->w)); }
int main(int argc, char **argv) {
    u64 seed = argc > 1 ? atoi(argv[1]) : 1, rounds = argc > 2 ? atoi(argv[2]) : 200; static const unsigned W[] = {1, 8, 16, 32, 64}; u64 dec = 0, und = 0, infe = 0;
    for (u64 r = 0; r < rounds; r++) {
        R.seed(seed * 1000003 + r); env.clear(); memo.clear(); pool.clear(); val.clear();
        for (int i = 0; i < 6; i++) { unsigned w = W[R() % 5]; T t = mkSym(w, "v"); env[t] = rnd(w); pool.push_back(t); val.push_back(env[t]); }
        for (int i = 0; i < 5; i++) { unsigned w = W[R() % 5]; u64 k = rnd(w); put("const", mkConst(k, w), k); }
        for (int i = 0; i < 25; i++) {
            size_t a = pick(0); T x = pool[a]; u64 p = val[a]; unsigned w = x->w; size_t b = pick(w); T y = pool[b]; u64 q = val[b]; u64 m = maskw(w);
            switch (R() % 22) {
            case 0: put("add", mkAdd(x, y), p + q); break; case 1: put("sub", mkSub(x, y), p - q); break; case 2: { u64 k = rnd(w); put("mulc", mkMulC(x, k), p * k); break; }
            case 3: put("mul", mkMul(x, y), p * q); break; case 4: put("neg", mkNeg(x), -p); break;
            case 5: { unsigned n = W[R() % 5]; if (n >= w) put("zext", mkZExt(x, n), p); break; } case 6: { unsigned n = W[R() % 5]; if (n >= w) put("sext", mkSExt(x, n), (u64)sx(p, w)); break; }
            case 7: { unsigned lo = R() % w, len = 1 + R() % (w - lo); put("extr", mkExtr(x, lo, len), p >> lo); break; }
            case 8: { unsigned lo = 8 * (R() % ((w + 7) / 8)); if (lo + 8 <= w) put("byte", mkExtr(x, lo, 8), p >> lo); break; }
            case 9: if (w + y->w <= 64) put("concat", mkConcat({x, y}), p | q << w); break;
            case 10: put("and", mkAnd(x, y), p & q); break; case 11: put("or", mkOr(x, y), p | q); break; case 12: put("xor", mkXor(x, y), p ^ q); break;
            case 13: { u64 k = R() % w; T c = mkConst(k, w); int o = R() % 3; if (o == 0) put("shl", mkShl(x, c), p << k); else if (o == 1) put("lshr", mkLShr(x, c), p >> k); else put("ashr", mkAShr(x, c), (u64)(sx(p, w) >> k)); break; }
            case 14: if (q) put("udiv", mkDiv(UDIV, x, y), p / q); break; case 15: if (q) put("urem", mkDiv(UREM, x, y), p % q); break;
            case 16: { int64_t s = sx(p, w), u = sx(q, w); if (u && u != -1) { if (R() % 2) put("sdiv", mkDiv(SDIV, x, y), (u64)(s / u)); else put("srem", mkDiv(SREM, x, y), (u64)(s % u)); } break; }
            case 17: put("eq", mkEq(x, y), p == q); break; case 18: put("ult", mkUlt(x, y), p < q); break; case 19: put("slt", mkSlt(x, y), sx(p, w) < sx(q, w)); break;
            case 20: { u64 k = rnd(w); put("andc", mkAnd(x, mkConst(k, w)), p & k); break; }
            case 21: if (q < w) { int o = R() % 3; if (o == 0) put("shl", mkShl(x, y), p << q); else if (o == 1) put("lshr", mkLShr(x, y), p >> q); else put("ashr", mkAShr(x, y), (u64)(sx(p, w) >> q)); } break;
            }
        }
        for (auto t : pool) for (unsigned i = 0; i < t->w; i++) {   // bit view
            const Poly &p = bitOf(t, i); u64 v = 0; bool ok = true;
            for (auto &mm : p) { u64 z = 1; for (u32 at : mm) { auto inf = atomInfo(at); z &= ev(inf.first) >> inf.second & 1; } v ^= z; }
            if (ok && v != (ev(t) >> i & 1)) { fprintf(stderr, "BIT MISMATCH bit %u of %s seed %llu round %llu\n", i, show(t, 8).c_str(), (unsigned long long)seed, (unsigned long long)r); return 1; }
        }
        Facts F; std::vector<T> conds;
        for (int i = 0; i < 14; i++) { size_t a = pick(0), b = pick(pool[a]->w); int o = R() % 3; T k = R() % 3 ? pool[b] : mkConst(rnd(pool[a]->w), pool[a]->w); conds.push_back(o == 0 ? mkEq(pool[a], k) : o == 1 ? mkUlt(pool[a], k) : mkSlt(pool[a], k)); }
        for (size_t i = 0; i < conds.size(); i++) {
            int v = ev(conds[i]), d = -1; d = F.decide(conds[i]); (d < 0 ? und : dec)++;
            if (d >= 0 && d != v) { fprintf(stderr, "UNSOUND decide %d for %s (is %d) seed %llu round %llu step %zu\n", d, show(conds[i], 8).c_str(), v, (unsigned long long)seed, (unsigned long long)r, i); for (auto &c : F.cons) fprintf(stderr, "   %s\n", showCon(c).c_str()); return 1; }
            try { if (!F.assume(conds[i], v)) { fprintf(stderr, "UNSOUND assume %s = %d seed %llu round %llu step %zu\n", show(conds[i], 8).c_str(), v, (unsigned long long)seed, (unsigned long long)r, i); for (auto &c : F.cons) fprintf(stderr, "   %s\n", showCon(c).c_str()); return 1; } } catch (NeedSplit &) { infe++; }
        }
    }
    fprintf(stderr, "ok: %llu decided, %llu undecided, %llu split\n", (unsigned long long)dec, (unsigned long long)und, (unsigned long long)infe); return 0;
}
