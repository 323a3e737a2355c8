// Abstract domain of gelsa: hash-consed value terms (modular linear forms over atoms), a bit-level
// (GF(2) polynomial) view, and a relational numeric domain (integer linear constraints) with its own
// entailment test (bound propagation, equality elimination, Fourier-Motzkin, bounded case split).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;

enum Op : uint8_t {
    CONST, SYM, LIN, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    ZEXT, SEXT, EXTR, CONCAT, EQ, ULT, SLT, TBL, UF, FCMP
};
struct Term {
    Op op; unsigned w; u32 id; u64 k; unsigned lo;
    std::vector<const Term *> a; std::vector<u64> c; std::string name;
    u64 pm;  // possibly-one bits
};
typedef const Term *T;
inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

T mkConst(u64 v, unsigned w);
T mkSym(unsigned w, const std::string &name);          // fresh
T mkNamed(unsigned w, const std::string &name);        // same name -> same term
T mkUF(const std::string &name, std::vector<T> args, unsigned w);
T mkAdd(T a, T b); T mkSub(T a, T b); T mkMulC(T a, u64 c); T mkMul(T a, T b); T mkNeg(T a);
T mkZExt(T a, unsigned w); T mkSExt(T a, unsigned w); T mkExtr(T a, unsigned lo, unsigned len);
T mkConcat(const std::vector<T> &partsLowFirst);
T mkAnd(T a, T b); T mkOr(T a, T b); T mkXor(T a, T b); T mkNot1(T a);
T mkShl(T a, T b); T mkLShr(T a, T b); T mkAShr(T a, T b);
T mkDiv(Op op, T a, T b);
T mkEq(T a, T b); T mkUlt(T a, T b); T mkSlt(T a, T b);
T mkFcmp(unsigned mask, T a, T b);  // mask over {1:LT,2:EQ,4:GT,8:UN}
T mkTbl(int tableId, unsigned elemBytes, T off, unsigned w);
int regTable(const std::vector<u64> &elems, unsigned elemBytes);
inline bool isC(T t) { return t->op == CONST; }
inline bool isC(T t, u64 v) { return t->op == CONST && t->k == v; }
std::string show(T t, int depth = 6);
double floatConst(T t);
bool floatIsConst(T t);

// ---- bits
typedef std::vector<u32> Mono; typedef std::vector<Mono> Poly;  // sorted
struct BitEnv;  // substitution
const Poly &bitOf(T t, unsigned i);
u32 bitAtom(T t, unsigned i);
std::pair<T, unsigned> atomInfo(u32 a);
bool polyIsConst(const Poly &p, int &v);
Poly polyXor(const Poly &a, const Poly &b);
bool polyMul(const Poly &a, const Poly &b, Poly &out);
typedef std::map<u32, Poly> Subst;
bool polySubst(const Subst &s, const Poly &p, Poly &out);

// ---- numeric
struct Lin {
    std::vector<std::pair<u32, i128>> v; i128 c = 0;
    void add(u32 var, i128 k); void addLin(const Lin &o, i128 k);
    bool operator==(const Lin &o) const { return c == o.c && v == o.v; }
    bool operator<(const Lin &o) const { return c != o.c ? c < o.c : v < o.v; }
};
struct Con {
    Lin e; uint8_t kind;  // 0: e>=0  1: e==0  2: e!=0
    bool operator<(const Con &o) const { return kind != o.kind ? kind < o.kind : e < o.e; }
    bool operator==(const Con &o) const { return kind == o.kind && e == o.e; }
};
Lin numU(T t); Lin numS(T t);
struct Facts {
    std::vector<Con> cons;
    Subst bits;
    std::map<std::pair<T, T>, unsigned> frel;   // float relations, key ordered by id
    std::map<T, int> fnan;                      // 0: not NaN, 1: NaN
    std::set<std::pair<T, int>> boolFacts;      // opaque boolean terms
    bool infeasible = false;
    std::map<u32, i128> pins;                   // auxiliary variables with a known value
    std::map<u32, size_t> pinTried;
    Lin pin(const Lin &e);
    T widen(T t, unsigned w);
    int decide(T cond);              // 1 / 0 / -1
    bool assume(T cond, bool val);   // false if infeasible.
    bool entailsEqual(T a, T b);
    bool entailsGE(const Lin &e);    // e >= 0
    bool entailsEQ0(const Lin &e);
    bool addCon(const Con &c, bool check = true);
    bool rangeU(T t, i128 &lo, i128 &hi);
    bool setBit(const Poly &p, int v);
};
struct NeedSplit { T cond; };   // thrown by assume when a disjunction must be split first
extern u64 nQueries, nRefutes, nSplits;
std::string showLin(const Lin &l);
std::string showCon(const Con &c);
