#include "interp.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

// ------------------------------------------------------------------ per function information
struct LoopRec { const Loop *l; int idx; int hdrRpo; };
struct FnInfo {
    std::unordered_map<const Value *, int> slot; std::vector<const Value *> slots; int n = 0;
    std::unordered_map<const BasicBlock *, int> rpo;
    std::unordered_map<const BasicBlock *, std::vector<int>> nest;      // loop indices, outermost first
    std::unordered_map<const BasicBlock *, std::vector<int>> liveIn;    // slots live at block entry (after phis)
    std::vector<LoopRec> loops; std::unordered_map<const BasicBlock *, int> headerOf;
    std::unique_ptr<DominatorTree> dt; std::unique_ptr<LoopInfo> li;
    bool contract = false;
};
static Module *M; static const DataLayout *DL;
static std::map<const Function *, std::unique_ptr<FnInfo>> fninfo;
static std::string repoPrefix = getenv("GELSA_REPO") ? std::string(getenv("GELSA_REPO")) + "/" : "/repo/";
static std::string fileOf(const Function &f) {
    if (auto *sp = f.getSubprogram()) return (sp->getDirectory() + "/" + sp->getFilename()).str();
    return "";
}
static bool isContractFn(const Function &f) {
    auto *sp = f.getSubprogram(); if (!sp) return true;
    return sp->getFilename().contains("contracts/");
}
static bool ofContract(const Instruction &i) {   // also where library code has been inlined
    if (auto *l = i.getDebugLoc().get()) return l->getFilename().contains("contracts/");
    return isContractFn(*i.getFunction());
}
static FnInfo &info(const Function *f) {
    auto &p = fninfo[f]; if (p) return *p;
    p = std::make_unique<FnInfo>(); FnInfo &i = *p; Function &F = *const_cast<Function *>(f);
    for (auto &a : F.args()) { i.slot[&a] = i.n++; i.slots.push_back(&a); }
    for (auto &b : F) for (auto &in : b) if (!in.getType()->isVoidTy()) { i.slot[&in] = i.n++; i.slots.push_back(&in); }
    i.dt = std::make_unique<DominatorTree>(F); i.li = std::make_unique<LoopInfo>(*i.dt);
    ReversePostOrderTraversal<Function *> r(&F); int k = 0;
    for (auto *b : r) i.rpo[b] = k++;
    for (auto *l : i.li->getLoopsInPreorder()) { int ix = i.loops.size(); i.loops.push_back({l, ix, i.rpo[l->getHeader()]}); i.headerOf[l->getHeader()] = ix; }
    for (auto &b : F) { std::vector<int> v; for (auto *l = i.li->getLoopFor(&b); l; l = l->getParentLoop()) v.push_back(i.headerOf[l->getHeader()]); std::reverse(v.begin(), v.end()); i.nest[&b] = v; }
    // liveness
    std::map<const BasicBlock *, std::set<int>> in; bool ch = true;
    while (ch) { ch = false; for (auto &b : reverse(F)) {
        std::set<int> live;
        for (auto *s : successors(&b)) { for (int x : in[s]) live.insert(x);
            for (auto &phi : s->phis()) { live.erase(i.slot[&phi]); } }
        // phi results of successors are defined at their entry; phi operands flowing along the edge are uses here
        for (auto *s : successors(&b)) for (auto &phi : s->phis()) { auto *v = phi.getIncomingValueForBlock(&b); auto it = i.slot.find(v); if (it != i.slot.end()) live.insert(it->second); }
        for (auto &ins : reverse(b)) {
            if (isa<PHINode>(ins)) continue;
            auto it = i.slot.find(&ins); if (it != i.slot.end()) live.erase(it->second);
            for (auto &op : ins.operands()) { auto o = i.slot.find(op.get()); if (o != i.slot.end()) live.insert(o->second); }
        }
        if (live != in[&b]) { in[&b] = live; ch = true; }
    } }
    for (auto &b : F) i.liveIn[&b] = std::vector<int>(in[&b].begin(), in[&b].end());
    i.contract = isContractFn(F);
    return i;
}
static std::string locOf(const Instruction *in) {
    if (!in) return "?";
    if (auto &d = in->getDebugLoc()) return (d->getFilename() + ":" + std::to_string(d.getLine())).str();
    return (in->getFunction()->getName()).str();
}

// ------------------------------------------------------------------ globals of a run
static std::map<const GlobalValue *, int> gobj; static S initState;
static unsigned uidCounter = 1;
struct Label { u64 proved = 0; std::string where; bool seen = false; std::set<std::string> entries; };
static std::map<std::string, Label> labels;
static u64 nStates, nInstr, nAccess, nJoins, nForks, nCalls, nPaths, nLossy;
static std::map<std::string, std::set<std::string>> covered;   // function -> blocks
static std::set<std::string> callSites;
static std::string curEntry;
struct Report { bool inc = false; std::string entry, msg, where; std::vector<std::string> trace, stack, facts; };
static std::vector<Report> reports;
static double tLimit = 600;
static double elapsed() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }   // CPU time: a busy machine does not change an answer

static T c64(u64 v) { return mkConst(v, 64); }
static unsigned PW = 64;   // width of a pointer; offsets are kept in 64 bits
static T len64(T t) { return t->w < 64 ? mkZExt(t, 64) : t; }
static T addrSym(const State &s, int obj) { return mkNamed(PW, "addr:" + std::to_string(s.mem[obj]->uid)); }
static std::map<T, unsigned> addrBack;   // address symbol -> uid
static T toInt(const State &s, const V &v) {
    if (v.k == 1) return v.t;
    if (v.k == 2) {
        if (v.obj < 0) return PW < 64 ? mkExtr(v.t, 0, PW) : v.t;
        T a = addrSym(s, v.obj); addrBack[a] = s.mem[v.obj]->uid; return mkAdd(a, PW < 64 ? mkExtr(v.t, 0, PW) : v.t);
    }
    return nullptr;
}
static V toPtr(const State &s, const V &v) {
    if (v.k == 2) return v;
    if (v.k != 1) return v;
    T t = v.t;
    if (isC(t)) return vPtr(isC(t, 0) ? OBJ_NULL : OBJ_WILD, len64(t));
    auto find = [&](T a) -> int { auto it = addrBack.find(a); if (it == addrBack.end()) return -3; for (size_t i = 0; i < s.mem.size(); i++) if (s.mem[i] && s.mem[i]->uid == it->second) return i; return -3; };
    if (t->op == SYM) { int o = find(t); if (o >= 0) return vPtr(o, c64(0)); }
    if (t->op == LIN) for (size_t i = 0; i < t->a.size(); i++) if (t->c[i] == 1) { int o = find(t->a[i]); if (o >= 0) { T d = mkSub(t, t->a[i]); return vPtr(o, d->w < 64 ? mkSExt(d, 64) : d); } }
    return vPtr(OBJ_WILD, len64(t));
}
static unsigned bitsOf(Type *ty) { return DL->getTypeSizeInBits(ty).getFixedValue(); }
static u64 storeSize(Type *ty) { return DL->getTypeStoreSize(ty).getFixedValue(); }
static u64 allocSize(Type *ty) { return DL->getTypeAllocSize(ty).getFixedValue(); }
static T undefTerm(const State &, unsigned w, const std::string &n) { return mkNamed(w, "undef:" + n + ":" + std::to_string(w)); }

static V evalConst(State &s, const Constant *c);
static V evalConst(State &s, const Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) return vInt(mkConst(i->getValue().getZExtValue(), i->getBitWidth()));
    if (auto *f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); return vInt(mkConst(a.getZExtValue(), a.getBitWidth())); }
    if (isa<ConstantPointerNull>(c)) return vPtr(OBJ_NULL, c64(0));
    if (isa<UndefValue>(c)) {
        if (c->getType()->isPointerTy()) return vPtr(OBJ_WILD, undefTerm(s, 64, "const"));
        if (c->getType()->isAggregateType()) { V v; v.k = 3; v.agg = std::make_shared<std::vector<V>>(); unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.agg->push_back(evalConst(s, c->getAggregateElement(i))); return v; }
        return vInt(mkConst(0, bitsOf(c->getType())));
    }
    if (auto *g = dyn_cast<GlobalValue>(c)) {
        auto it = gobj.find(g); if (it == gobj.end()) throw Incomplete{"unknown global " + g->getName().str()};
        return vPtr(it->second, c64(0));
    }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        if (e->getOpcode() == Instruction::GetElementPtr) {
            auto *g = cast<GEPOperator>(e); V b = evalConst(s, cast<Constant>(g->getPointerOperand()));
            APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Incomplete{"constant gep"};
            b.t = mkAdd(b.t, c64(off.getZExtValue())); return b;
        }
        if (e->getOpcode() == Instruction::PtrToInt) { V b = evalConst(s, e->getOperand(0)); { T t = toInt(s, b); unsigned w = bitsOf(e->getType()); return vInt(w > t->w ? mkZExt(t, w) : mkExtr(t, 0, w)); } }
        if (e->getOpcode() == Instruction::IntToPtr) { V b = evalConst(s, e->getOperand(0)); return toPtr(s, vInt(b.t->w > PW ? mkExtr(b.t, 0, PW) : mkZExt(b.t, PW))); }
        if (e->getOpcode() == Instruction::BitCast || e->getOpcode() == Instruction::AddrSpaceCast) return evalConst(s, e->getOperand(0));
        throw Incomplete{"constant expression"};
    }
    if (c->getType()->isVectorTy()) {
        T acc = nullptr; std::vector<T> p; unsigned n = cast<FixedVectorType>(c->getType())->getNumElements();
        for (unsigned i = 0; i < n; i++) p.push_back(evalConst(s, c->getAggregateElement(i)).t);
        (void)acc; return vInt(mkConcat(p));
    }
    if (c->getType()->isAggregateType()) {
        V v; v.k = 3; v.agg = std::make_shared<std::vector<V>>();
        unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v.agg->push_back(evalConst(s, c->getAggregateElement(i)));
        return v;
    }
    throw Incomplete{"constant kind"};
}
static V ev(State &s, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return evalConst(s, c);
    Frame &f = s.fr.back(); FnInfo &i = info(f.f);
    auto it = i.slot.find(v); if (it == i.slot.end()) throw Incomplete{"operand"};
    V r = f.regs[it->second]; if (r.k == 0) throw Incomplete{"undefined register"};
    return r;
}
static void setReg(Frame &f, const Value *v, V x) { f.regs[info(f.f).slot[v]] = x; }

// ------------------------------------------------------------------ facts helpers
static int dec(State &s, T c) { return s.facts.decide(c); }
static int decFork(State &s, T c) { int d = dec(s, c); if (d < 0) throw ForkEx{c}; return d; }
static bool asm_(State &s, T c, bool v) {
    try { return s.facts.assume(c, v); } catch (NeedSplit &n) { throw ForkEx{n.cond}; }
}

// ------------------------------------------------------------------ memory
static V intExtr(State &s, const V &v, unsigned byteOff, unsigned size) {
    T t = toInt(s, v); if (!t) throw Incomplete{"partial read of a non-scalar"};
    unsigned w = t->w;
    if (8 * (byteOff + size) > w) { t = mkZExt(t, 8 * (byteOff + size) > 64 ? 64 : 8 * (byteOff + size)); }
    return vInt(mkExtr(t, 8 * byteOff, 8 * size));
}
static std::map<std::pair<const GlobalVariable *, unsigned>, int> tblIds;
static V readBase(State &s, const Content &c, T off, unsigned size) {
    switch (c.base) {
    case B_ZERO: return vInt(mkConst(0, 8 * size));
    case B_UNINIT: if (isC(off)) return vInt(undefTerm(s, 8 * size, c.name + "+" + std::to_string(off->k))); return vInt(mkUF("undef:" + c.name, {off}, 8 * size));
    case B_CONST: {
        if (isC(off)) {
            // constant initialiser: find the value
            Type *ty = size == 8 ? nullptr : (Type *)IntegerType::get(M->getContext(), 8 * size);
            if (!ty) {   // maybe a pointer
                if (auto *r = ConstantFoldLoadFromConst(const_cast<Constant *>(c.gv->getInitializer()), PointerType::get(M->getContext(), 0), APInt(64, off->k), *DL))
                    if (!isa<ConstantInt>(r) && !isa<UndefValue>(r) && !(isa<ConstantExpr>(r) && cast<ConstantExpr>(r)->getOpcode() == Instruction::IntToPtr)) return evalConst(s, r);
                ty = IntegerType::get(M->getContext(), 64);
            }
            auto *r = ConstantFoldLoadFromConst(const_cast<Constant *>(c.gv->getInitializer()), ty, APInt(64, off->k), *DL);
            if (!r) { if (size == 1) throw Incomplete{"constant load from " + c.gv->getName().str()};
                std::vector<T> p; for (unsigned i = 0; i < size; i++) p.push_back(toInt(s, readBase(s, c, c64(off->k + i), 1))); return vInt(mkConcat(p)); }
            return evalConst(s, r);
        }
        if (c.sizeC > 4096 * 8) throw Incomplete{"large constant table"};
        bool allInt = true;
        auto key = std::make_pair(c.gv, size); auto it = tblIds.find(key);
        if (it == tblIds.end()) {
            std::vector<u64> el;
            for (u64 o = 0; o + size <= c.sizeC; o += size) { V v = readBase(s, c, c64(o), size); if (v.k != 1 || !isC(v.t)) { allInt = false; break; } el.push_back(v.t->k); }
            it = tblIds.emplace(key, allInt ? regTable(el, size) : -1).first;
        }
        if (it->second >= 0 && (size & (size - 1)) == 0) {
            T low = size > 1 ? mkExtr(off, 0, __builtin_ctz(size)) : mkConst(0, 1);
            if (dec(s, mkEq(low, mkConst(0, low->w))) == 1) return vInt(mkTbl(it->second, size, off, 8 * size));
        }
        for (u64 o = 0; o + size <= c.sizeC; o++) { T e = mkEq(off, c64(o)); if (dec(s, e) == 0) continue; throw ForkEx{e}; }
        throw Incomplete{"symbolic constant load"};
    }
    case B_SYM: {
        if (size == c.gran) {
            if (isC(off)) { if (off->k % size == 0) return vInt(mkUF("mem:" + c.name, {c64(off->k / size)}, 8 * size)); }
            else {
                // element index
                T idx = nullptr; T d = mkDiv(UREM, off, c64(size));
                if (size == 1) idx = off;
                else if (dec(s, mkEq(d, c64(0))) == 1) idx = mkDiv(UDIV, off, c64(size));
                if (idx) return vInt(mkUF("mem:" + c.name, {idx}, 8 * size));
            }
        }
        if (isC(off)) {
            u64 g = c.gran, first = off->k / g, last = (off->k + size - 1) / g;
            std::vector<T> p; for (u64 e = first; e <= last; e++) p.push_back(mkUF("mem:" + c.name, {c64(e)}, 8 * g));
            if (p.size() == 1) return vInt(mkExtr(p[0], 8 * (off->k - first * g), 8 * size));
            if (8 * g * p.size() <= 64) return vInt(mkExtr(mkConcat(p), 8 * (off->k - first * g), 8 * size));
            std::vector<T> q; for (unsigned i = 0; i < size; i++) { u64 b = off->k + i; q.push_back(mkExtr(p[b / g - first], 8 * (b % g), 8)); }
            return vInt(mkConcat(q));
        }
        if (c.gran > 1 && !(c.gran & (c.gran - 1))) {
            T low = mkExtr(off, 0, __builtin_ctz(c.gran));
            if (isC(low)) {
                u64 lo = low->k; unsigned n = (lo + size + c.gran - 1) / c.gran; T first = mkDiv(UDIV, mkSub(off, c64(lo)), c64(c.gran));
                if (lo + size <= 8) { std::vector<T> p; for (unsigned e = 0; e < n; e++) p.push_back(mkUF("mem:" + c.name, {mkAdd(first, c64(e))}, 8 * c.gran)); return vInt(mkExtr(mkConcat(p), 8 * lo, 8 * size)); }
            }
        }
        if (c.gran == 1 && size <= 8) { std::vector<T> q; for (unsigned i = 0; i < size; i++) q.push_back(mkUF("mem:" + c.name, {mkAdd(off, c64(i))}, 8)); return vInt(mkConcat(q)); }
        throw Incomplete{"misaligned symbolic read of " + c.name};
    }
    }
    throw Incomplete{"base"};
}
// d = distance of a read of `size` bytes from a cell of `len` bytes: the only value it can take when they overlap, if there is just one
static bool oneOffset(T d, u64 size, T len, int64_t &at) {
    if (!isC(len) || len->k > 64 || d->op != LIN) return false;
    u64 g = 0; for (u64 c : d->c) g |= c;
    g &= 0 - g; if (g < 2) return false;
    int n = 0; for (int64_t x = 1 - (int64_t)size; x < (int64_t)len->k; x++) if (((u64)x - d->k) % g == 0) { at = x; n++; }
    return n == 1;
}
static V readRange(State &s, const Content &c, int from, T off, unsigned size) {
    for (int i = from; i >= 0; i--) {
        const Entry &e = c.log[i];
        T d = mkSub(off, e.off);
        bool inside = false, partial = false; u64 dk = 0;
        if (isC(d) && isC(e.len)) {
            int64_t x = (int64_t)d->k; int64_t L = (int64_t)e.len->k;
            if (x >= L || x + (int64_t)size <= 0) continue;
            if (x >= 0 && x + (int64_t)size <= L) { inside = true; dk = x; } else partial = true;
        } else {
            T end = mkAdd(e.off, e.len), rend = mkAdd(off, c64(size));
            // equality first for same-size scalar cells
            if (e.kind == 0 && isC(e.len, size)) {
                int q = dec(s, mkEq(off, e.off));
                if (q == 1) { inside = true; dk = 0; }
                else {
                    int a = dec(s, mkUlt(off, end)); if (a == 0) continue;
                    int b = dec(s, mkUlt(e.off, rend)); if (b == 0) continue;
                    if (q < 0) throw ForkEx{mkEq(off, e.off)};
                    if (a < 0) throw ForkEx{mkUlt(off, end)};
                    if (b < 0) throw ForkEx{mkUlt(e.off, rend)};
                    // overlapping at another offset
                    for (int64_t k = -(int64_t)size + 1; k < (int64_t)size; k++) if (k) { T q2 = mkEq(mkSub(off, e.off), c64((u64)k)); if (dec(s, q2) != 0) throw ForkEx{q2}; }
                    continue;
                }
            } else if (int64_t at; oneOffset(d, size, e.len, at)) {   // only one distance makes them overlap: decide it as an equality
                T q = mkEq(d, c64((u64)at)); int r = dec(s, q); if (r == 0) continue;
                if (r < 0) throw ForkEx{q};
                if (at >= 0 && at + (int64_t)size <= (int64_t)e.len->k) { inside = true; dk = at; } else partial = true;
            } else {
                int a = dec(s, mkUlt(off, end)); if (a == 0) continue;
                int b = dec(s, mkUlt(e.off, rend)); if (b == 0) continue;
                int lo = dec(s, mkUlt(off, e.off)), hi = dec(s, mkUlt(end, rend));
                if (lo == 0 && hi == 0 && a == 1 && b == 1) inside = true;
                else {
                    if (a < 0) throw ForkEx{mkUlt(off, end)};
                    if (b < 0) throw ForkEx{mkUlt(e.off, rend)};
                    if (lo < 0) throw ForkEx{mkUlt(off, e.off)};
                    if (hi < 0) throw ForkEx{mkUlt(end, rend)};
                    partial = true;
                }
                if (inside && e.kind == 0) {
                    bool got = false; for (u64 k = 0; k + size <= e.len->k; k++) { T q = mkEq(d, c64(k)); int r = dec(s, q); if (r == 1) { dk = k; got = true; break; } if (r < 0) throw ForkEx{q}; }
                    if (!got) { s.facts.infeasible = true; throw Violation{"contradictory offsets"}; }
                }
            }
        }
        if (partial) {
            if (size == 1) throw Incomplete{"partial byte"};
            std::vector<T> p; for (unsigned b = 0; b < size; b++) p.push_back(toInt(s, readRange(s, c, i, mkAdd(off, c64(b)), 1)));
            if (size > 8) throw Incomplete{"wide read"};
            return vInt(mkConcat(p));
        }
        if (inside) {
            if (e.kind == 0) { if (dk == 0 && isC(e.len, size)) return e.val; return intExtr(s, e.val, dk, size); }
            if (e.kind == 1) return readRange(s, *e.src, (int)e.src->log.size() - 1, mkAdd(e.srcOff, d), size);
            if (e.kind == 2) { std::vector<T> p(size, e.val.t); return vInt(mkConcat(p)); }
        }
    }
    return readBase(s, c, off, size);
}
static std::string objName(State &s, int o) { return o == OBJ_NULL ? "NULL" : o == OBJ_WILD ? "unknown pointer" : o < (int)s.mem.size() && s.mem[o] ? s.mem[o]->name : "dead object"; }
static void checkAccess(State &s, const V &p, T size, bool wr) {
    nAccess++;
    if (p.k != 2) throw Incomplete{"access through a non-pointer"};
    const char *w = wr ? "write" : "read";
    if (p.obj == OBJ_NULL) throw Violation{std::string(w) + " through a null pointer (offset " + show(p.t) + ")"};
    if (p.obj == OBJ_WILD) throw Violation{std::string(w) + " through an unknown pointer " + show(p.t)};
    if (p.obj >= (int)s.mem.size() || !s.mem[p.obj]) throw Violation{std::string(w) + " of a dead stack object"};
    Obj &o = *s.mem[p.obj];
    if (o.freed) throw Violation{std::string(w) + " of freed object " + o.name};
    if (o.fn) throw Violation{std::string(w) + " of code " + o.name};
    if (wr && o.ro) throw Violation{"write to read-only object " + o.name};
    if (isC(p.t) && isC(size) && isC(o.size)) {
        if (p.t->k > o.size->k || size->k > o.size->k - p.t->k) throw Violation{std::string(w) + " out of bounds of " + o.name + ": offset " + std::to_string((int64_t)p.t->k) + " size " + std::to_string((int64_t)size->k) + " of " + std::to_string(o.size->k)};
        return;
    }
    auto must = [&](T bad) { int d = dec(s, bad); if (d != 0) {
        State t = s; bool f = true; try { f = t.facts.assume(bad, true); } catch (NeedSplit &n) { throw ForkEx{n.cond}; }
        if (f) throw Violation{std::string(w) + " possibly out of bounds of " + o.name + ": offset " + show(p.t) + ", size " + show(size) + ", object size " + show(o.size)};
        asm_(s, bad, false); } };
    must(mkUlt(o.size, p.t));
    must(mkUlt(mkSub(o.size, p.t), size));
}
static Content &wcontent(State &s, int obj) {
    auto &o = s.mem[obj];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    if (o->c.use_count() > 1) o->c = std::make_shared<Content>(*o->c);
    return *o->c;
}
static V loadMem(State &s, const V &p, unsigned size) {
    checkAccess(s, p, c64(size), false);
    Content &c = *s.mem[p.obj]->c;
    return readRange(s, c, (int)c.log.size() - 1, p.t, size);
}
static void storeMem(State &s, const V &p, unsigned size, V v) {
    checkAccess(s, p, c64(size), true);
    Content &c = wcontent(s, p.obj);
    Entry e; e.kind = 0; e.off = p.t; e.len = c64(size); e.val = v;
    for (int i = (int)c.log.size() - 1; i >= 0; i--) {
        Entry &o = c.log[i];
        if (o.kind == 0 && o.off == e.off && o.len == e.len) { o.val = v; return; }
        if (o.kind != 0 || !isC(o.len)) break;
        T d = mkSub(o.off, e.off);
        if (!isC(d)) break;
        int64_t x = (int64_t)d->k; if (!(x >= (int64_t)size || x + (int64_t)o.len->k <= 0)) break;
    }
    c.log.push_back(e);
}
static V loadTyped(State &s, const V &p, Type *ty) {
    if (auto *st = dyn_cast<StructType>(ty)) {
        V v; v.k = 3; v.agg = std::make_shared<std::vector<V>>(); auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) { V q = p; q.t = mkAdd(p.t, c64(sl->getElementOffset(i))); v.agg->push_back(loadTyped(s, q, st->getElementType(i))); }
        return v;
    }
    if (ty->isArrayTy()) {
        V v; v.k = 3; v.agg = std::make_shared<std::vector<V>>(); Type *e = ty->getArrayElementType();
        for (unsigned i = 0; i < ty->getArrayNumElements(); i++) { V q = p; q.t = mkAdd(p.t, c64(i * allocSize(e))); v.agg->push_back(loadTyped(s, q, e)); }
        return v;
    }
    u64 sz = storeSize(ty); V v = loadMem(s, p, sz);
    if (ty->isPointerTy()) return toPtr(s, v);
    T t = toInt(s, v); if (!t) throw Incomplete{"load of aggregate as scalar"};
    unsigned w = bitsOf(ty); if (t->w > w) t = mkExtr(t, 0, w);
    return vInt(t);
}
static void storeTyped(State &s, const V &p, Type *ty, const V &v) {
    if (v.k == 3) {
        auto *st = dyn_cast<StructType>(ty);
        for (unsigned i = 0; i < v.agg->size(); i++) {
            V q = p; Type *et = st ? st->getElementType(i) : ty->getArrayElementType();
            q.t = mkAdd(p.t, c64(st ? (u64)DL->getStructLayout(st)->getElementOffset(i) : i * allocSize(et))); storeTyped(s, q, et, (*v.agg)[i]);
        }
        return;
    }
    V x = v; unsigned sz = storeSize(ty);
    if (x.k == 1 && x.t->w < 8 * sz) x.t = mkZExt(x.t, 8 * sz);
    storeMem(s, p, sz, x);
}
static void copyMem(State &s, const V &d, const V &src, T n) {
    if (isC(n, 0)) return;
    if (!isC(n)) { int z = dec(s, mkEq(n, mkConst(0, n->w))); if (z == 1) return; }
    n = mkZExt(n, 64);
    checkAccess(s, d, n, true); checkAccess(s, src, n, false);
    if (isC(n) && n->k <= 16) {   // small copies of whole cells become values
        Content &sc = *s.mem[src.obj]->c;
        if (isC(src.t) || true) for (int i = (int)sc.log.size() - 1; i >= 0; i--) {
            if (sc.log[i].kind == 0 && sc.log[i].off == src.t && sc.log[i].len == n) { V v = sc.log[i].val; storeMem(s, d, n->k, v); return; }
            break;
        }
        if (n->k <= 8 && (n->k & (n->k - 1)) == 0 && sc.base == B_SYM && sc.gran == n->k) { V v = readRange(s, sc, (int)sc.log.size() - 1, src.t, n->k); storeMem(s, d, n->k, v); return; }
    }
    CSnap snap = s.mem[src.obj]->c;
    Content &c = wcontent(s, d.obj);
    // drop fully covered constant cells
    if (isC(n) && isC(d.t)) { std::vector<Entry> nl; for (auto &e : c.log) { if (isC(e.off) && isC(e.len) && e.off->k >= d.t->k && e.off->k + e.len->k <= d.t->k + n->k) continue; nl.push_back(e); } c.log.swap(nl); }
    Entry e; e.kind = 1; e.off = d.t; e.len = n; e.src = snap; e.srcOff = src.t; c.log.push_back(e);
}
static void setMem(State &s, const V &d, T byte, T n) {
    if (isC(n, 0)) return;
    n = mkZExt(n, 64);
    checkAccess(s, d, n, true);
    Content &c = wcontent(s, d.obj);
    if (isC(n) && isC(d.t)) { std::vector<Entry> nl; for (auto &e : c.log) { if (isC(e.off) && isC(e.len) && e.off->k >= d.t->k && e.off->k + e.len->k <= d.t->k + n->k) continue; nl.push_back(e); } c.log.swap(nl); }
    Entry e; e.kind = 2; e.off = d.t; e.len = n; e.val = vInt(byte); c.log.push_back(e);
}
static int newObj(State &s, const std::string &name, T size, int kind, Base b) {
    auto o = std::make_shared<Obj>(); o->name = name; o->size = size; o->kind = kind;
    int id = s.mem.size();
    static std::map<std::string, unsigned> uids;
    std::string key = name + "#" + std::to_string(id); auto it = uids.find(key); if (it == uids.end()) it = uids.emplace(key, uidCounter++).first;
    o->uid = it->second;
    o->c = std::make_shared<Content>(); o->c->base = b; o->c->name = key;
    s.mem.push_back(o); return id;
}

// a typed access needs the alignment of its type: the base of the object must have it, and the offset must keep it
static void aligned(State &s, const V &p, u64 need) {
    if (need <= 1 || p.k != 2 || p.obj < 0) return;
    Obj &o = *s.mem[p.obj]; T low = mkExtr(p.t, 0, __builtin_ctzll(need));
    if (o.align < need) throw Violation{"access of " + std::to_string(need) + "-byte alignment to " + o.name + ", which may lie at any address that is a multiple of " + std::to_string(o.align)};
    if (isC(low) && low->k) throw Violation{"misaligned access to " + o.name + ": the offset is not a multiple of " + std::to_string(need)};
}

// ------------------------------------------------------------------ floats
static V fop(const char *op, std::vector<T> a, unsigned w, bool comm = false) {
    bool allc = true; for (T x : a) allc &= isC(x);
    if (comm && a.size() == 2 && a[0]->id > a[1]->id) std::swap(a[0], a[1]);
    std::string o = op;
    if (allc && a.size() == 2 && a[0]->w == w) {
        if (w == 32) { float x = (float)floatConst(a[0]), y = (float)floatConst(a[1]), r; bool ok = true; if (o == "fadd") r = x + y; else if (o == "fsub") r = x - y; else if (o == "fmul") r = x * y; else if (o == "fdiv") r = x / y; else ok = false; if (ok) { u32 b; memcpy(&b, &r, 4); return vInt(mkConst(b, 32)); } }
        else { double x = floatConst(a[0]), y = floatConst(a[1]), r; bool ok = true; if (o == "fadd") r = x + y; else if (o == "fsub") r = x - y; else if (o == "fmul") r = x * y; else if (o == "fdiv") r = x / y; else ok = false; if (ok) { u64 b; memcpy(&b, &r, 8); return vInt(mkConst(b, 64)); } }
    }
    return vInt(mkUF(o, a, w));
}
static V fromDouble(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return vInt(mkConst(b, 32)); } u64 b; memcpy(&b, &d, 8); return vInt(mkConst(b, 64)); }
static int64_t sxk(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static V fcast(unsigned opc, T a, unsigned w) {
    switch (opc) {
    case Instruction::SIToFP: if (isC(a)) return w == 32 ? fromDouble((float)sxk(a->k, a->w), 32) : fromDouble((double)sxk(a->k, a->w), 64); return vInt(mkUF("sitofp", {mkSExt(a, 64)}, w));
    case Instruction::UIToFP:
        if (isC(a)) return w == 32 ? fromDouble((float)a->k, 32) : fromDouble((double)a->k, 64);
        if (a->w < 64) return vInt(mkUF("sitofp", {mkZExt(a, 64)}, w));
        return vInt(mkUF("uitofp", {a}, w));
    case Instruction::FPExt: if (isC(a)) return fromDouble(floatConst(a), 64); return vInt(mkUF("fpext", {a}, w));
    case Instruction::FPTrunc: if (isC(a)) return fromDouble(floatConst(a), 32); if (a->op == UF && a->name == "fpext") return vInt(a->a[0]); return vInt(mkUF("fptrunc", {a}, w));
    case Instruction::FPToSI: if (isC(a)) { double d = floatConst(a); if (d > -9e18 && d < 9e18) return vInt(mkConst((u64)(int64_t)d, w)); } return vInt(mkUF("fptosi", {a}, w));
    case Instruction::FPToUI: if (isC(a)) { double d = floatConst(a); if (d > -1 && d < 1.8e19) return vInt(mkConst((u64)d, w)); } return vInt(mkUF("fptoui", {a}, w));
    }
    throw Incomplete{"fcast"};
}
static unsigned fmask(CmpInst::Predicate p) {
    switch (p) {
    case CmpInst::FCMP_FALSE: return 0; case CmpInst::FCMP_OEQ: return 2; case CmpInst::FCMP_OGT: return 4; case CmpInst::FCMP_OGE: return 6;
    case CmpInst::FCMP_OLT: return 1; case CmpInst::FCMP_OLE: return 3; case CmpInst::FCMP_ONE: return 5; case CmpInst::FCMP_ORD: return 7;
    case CmpInst::FCMP_UNO: return 8; case CmpInst::FCMP_UEQ: return 10; case CmpInst::FCMP_UGT: return 12; case CmpInst::FCMP_UGE: return 14;
    case CmpInst::FCMP_ULT: return 9; case CmpInst::FCMP_ULE: return 11; case CmpInst::FCMP_UNE: return 13; default: return 15;
    }
}

// ------------------------------------------------------------------ instructions
static T icmp(State &s, CmpInst::Predicate p, V a, V b) {
    if (a.k == 2 || b.k == 2) {
        if (a.k == 1) a = toPtr(s, a); if (b.k == 1) b = toPtr(s, b);
        if (a.obj >= 0 && b.obj >= 0 && a.obj != b.obj && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return mkConst(p == CmpInst::ICMP_NE, 1);
        if ((a.obj >= 0 && b.obj == OBJ_NULL && isC(b.t, 0)) || (b.obj >= 0 && a.obj == OBJ_NULL && isC(a.t, 0))) {
            if (p == CmpInst::ICMP_EQ) return mkConst(0, 1); if (p == CmpInst::ICMP_NE) return mkConst(1, 1);
            if (p == CmpInst::ICMP_UGT) return mkConst(a.obj >= 0, 1);
        }
        if (a.obj == b.obj && a.obj >= 0) { a = vInt(a.t); b = vInt(b.t); }
        else { a = vInt(toInt(s, a)); b = vInt(toInt(s, b)); }
    }
    T x = a.t, y = b.t;
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(x, y); case CmpInst::ICMP_NE: return mkNot1(mkEq(x, y));
    case CmpInst::ICMP_ULT: return mkUlt(x, y); case CmpInst::ICMP_UGT: return mkUlt(y, x);
    case CmpInst::ICMP_ULE: return mkNot1(mkUlt(y, x)); case CmpInst::ICMP_UGE: return mkNot1(mkUlt(x, y));
    case CmpInst::ICMP_SLT: return mkSlt(x, y); case CmpInst::ICMP_SGT: return mkSlt(y, x);
    case CmpInst::ICMP_SLE: return mkNot1(mkSlt(y, x)); case CmpInst::ICMP_SGE: return mkNot1(mkSlt(x, y));
    default: throw Incomplete{"icmp"};
    }
}
static T divide(State &s, unsigned opc, T a, T b) {
    unsigned w = a->w; T z = mkConst(0, w);
    if (isC(b, 0)) throw Violation{"division by zero"};
    if (!isC(b)) { int d = dec(s, mkEq(b, z)); if (d == 1) throw Violation{"division by zero"}; if (d < 0) { State t = s; bool f = true; try { f = t.facts.assume(mkEq(b, z), true); } catch (NeedSplit &n) { throw ForkEx{n.cond}; } if (f) throw Violation{"division by a value that may be zero: " + show(b)}; asm_(s, mkEq(b, z), false); } }
    bool sg = opc == Instruction::SDiv || opc == Instruction::SRem, rem = opc == Instruction::URem || opc == Instruction::SRem;
    if (sg && !(isC(a) && isC(b))) {
        auto neg = [&](T x) { return x->op == CONST ? (int)(x->k >> (w - 1) & 1) : dec(s, mkSlt(x, z)); };
        int nb = neg(b), na = neg(a);
        if (nb < 0) throw ForkEx{mkSlt(b, z)}; if (na < 0) throw ForkEx{mkSlt(a, z)};
        T ua = na ? mkNeg(a) : a, ub = nb ? mkNeg(b) : b;
        T r = divide(s, rem ? Instruction::URem : Instruction::UDiv, ua, ub);
        return (rem ? na : na ^ nb) ? mkNeg(r) : r;
    }
    Op o = opc == Instruction::UDiv ? UDIV : opc == Instruction::URem ? UREM : opc == Instruction::SDiv ? SDIV : SREM;
    if (!isC(b) || !isC(a)) if (!sg) {
        int lt = dec(s, mkUlt(a, b)); if (lt == 1) return rem ? a : z;
        if (!isC(b)) {
            // x < 2d (no wrap) is common: one subtraction
            if (lt < 0) { T w2 = mkSub(a, b); if (dec(s, mkUlt(w2, b)) == 1 || true) throw ForkEx{mkUlt(a, b)}; }
            T w2 = mkSub(a, b);
            int l2 = dec(s, mkUlt(w2, b));
            if (l2 == 1) return rem ? w2 : mkConst(1, w);
        } else if (b->k > 1 && b->k < (1ull << (w - 1)) && dec(s, mkUlt(a, mkConst(2 * b->k, w))) == 1) {
            if (lt < 0) throw ForkEx{mkUlt(a, b)};
            return rem ? mkSub(a, b) : mkConst(1, w);
        }
    }
    return mkDiv(o, a, b);
}
static T binop(State &s, unsigned opc, T a, T b) {
    switch (opc) {
    case Instruction::Add: return mkAdd(a, b); case Instruction::Sub: return mkSub(a, b); case Instruction::Mul: return mkMul(a, b);
    case Instruction::And: return mkAnd(a, b); case Instruction::Or: return mkOr(a, b); case Instruction::Xor: return mkXor(a, b);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (!isC(b)) { // resolve small shift amounts
            for (unsigned k = 0; k < a->w; k++) { T e = mkEq(b, mkConst(k, b->w)); int d = dec(s, e); if (d == 1) { b = mkConst(k, b->w); break; } }
            if (!isC(b)) for (unsigned k = 0; k < a->w; k++) { T e = mkEq(b, mkConst(k, b->w)); if (dec(s, e) == 0) continue; throw ForkEx{e}; }
            if (!isC(b)) throw Violation{"shift amount not below the width of the type"};
        }
        if (b->k >= a->w) throw Violation{"shift by " + std::to_string(b->k) + " of a " + std::to_string(a->w) + "-bit value"};
        return opc == Instruction::Shl ? mkShl(a, b) : opc == Instruction::LShr ? mkLShr(a, b) : mkAShr(a, b);
    }
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: return divide(s, opc, a, b);
    }
    throw Incomplete{"binop"};
}
static bool bitLike(T t) { return t->op == EXTR || t->op == SYM || t->op == CONST || (t->op == XOR && bitLike(t->a[0]) && bitLike(t->a[1])) || (t->op == AND && bitLike(t->a[0]) && bitLike(t->a[1])); }

static const bool muxOn = getenv("GELSA_MUX");
// select as a value (GELSA_MUX): a choice between two values that differ by a mask or an amount, without a case distinction
static T mux(State &s, T c, const V &x, const V &y) {
    if (!muxOn || !c || c->w != 1 || x.k != 1 || y.k != 1 || !x.t || !y.t || x.t->w != y.t->w || x.t->w > 64 || x.t == y.t) return nullptr;
    if (dec(s, c) >= 0) return nullptr;
    const Poly &p = bitOf(c, 0); T b = mkConst(0, 1);
    if (bitLike(c)) b = c;
    else if (p.size() > 64) return nullptr;
    else for (auto &m : p) {
        if (m.size() > 1) return nullptr;
        if (m.empty()) { b = mkXor(b, mkConst(1, 1)); continue; }
        auto a = atomInfo(m[0]); if (a.first == c || (a.first->w == 1 && !bitLike(a.first))) return nullptr;
        b = mkXor(b, mkExtr(a.first, a.second, 1));
    }
    T A = x.t, B = y.t; unsigned w = A->w; u64 mask = 0; bool ok = true;
    for (unsigned i = 0; i < w && ok; i++) { int v; ok = polyIsConst(polyXor(bitOf(A, i), bitOf(B, i)), v); if (ok && v) mask |= 1ull << i; }
    T d = mkSub(A, B);
    if (ok && !(isC(d) && w > 1)) {
        std::vector<T> parts; for (unsigned i = 0; i < w; i++) parts.push_back(mask >> i & 1 ? b : mkConst(0, 1));
        return mkXor(B, mkConcat(parts));
    }
    if (isC(d)) return w == 1 ? mkXor(B, b) : mkAdd(B, mkMulC(mkZExt(b, w), d->k));
    if (w == 1) return nullptr;
    return mkAdd(B, mkMul(mkZExt(b, w), d));
}

// worklist ----------------------------------------------------------
typedef std::vector<int> PKey;
static std::map<const Function *, int> fnIds;
static int fnId(const Function *f) { auto it = fnIds.find(f); if (it == fnIds.end()) it = fnIds.emplace(f, fnIds.size()).first; return it->second; }
static PKey keyOf(State &s) {
    PKey k;
    for (size_t i = 0; i < s.fr.size(); i++) {
        Frame &f = s.fr[i]; FnInfo &in = info(f.f);
        k.push_back(fnId(f.f));
        for (int l : in.nest[f.bb]) { k.push_back(in.loops[l].hdrRpo); k.push_back(f.iters[l]); }
        k.push_back(in.rpo[f.bb]);
        k.push_back(i + 1 < s.fr.size() ? (int)std::distance(f.bb->begin(), f.it) : (f.it == f.bb->begin() ? 0 : (int)std::distance(f.bb->begin(), f.it)));
    }
    return k;
}
static std::map<PKey, std::vector<S>> work;
static void push(S s) { work[keyOf(*s)].push_back(s); }
static void addTrace(State &s, const std::string &m) { auto n = std::make_shared<TraceNode>(); n->up = s.trace; n->s = m; s.trace = n; }

static Report mkReport(State &s, const std::string &msg) {
    Report r; r.entry = curEntry; r.msg = msg; if (getenv("GELSA_F")) for (auto &c : s.facts.cons) r.facts.push_back(showCon(c));
    for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
        Frame &f = s.fr[i]; const Instruction *in = f.it == f.bb->end() ? nullptr : &*f.it;
        r.stack.push_back(f.f->getName().str() + " at " + locOf(in));
        if (r.where.empty() && !info(f.f).contract && in) r.where = locOf(in) + " (" + f.f->getName().str() + ")";
    }
    if (r.where.empty() && !s.fr.empty()) { Frame &f = s.fr.back(); r.where = locOf(f.it == f.bb->end() ? nullptr : &*f.it); }
    int n = 0; for (auto t = s.trace; t && n < 60; t = t->up, n++) r.trace.push_back(t->s);
    std::reverse(r.trace.begin(), r.trace.end());
    return r;
}
#include "loops.h"

static void enterBlock(S sp, const BasicBlock *to) {   // transfers control; pushes if a merge point
    State &s = *sp; Frame &f = s.fr.back(); FnInfo &in = info(f.f);
    const BasicBlock *from = f.bb;
    std::vector<std::pair<const Value *, V>> vals;
    for (auto &phi : to->phis()) {
        const Value *iv = phi.getIncomingValueForBlock(from);
        V v; if (isa<UndefValue>(iv)) { v = evalConst(s, cast<Constant>(iv)); } else v = ev(s, iv);
        vals.push_back({&phi, v});
    }
    for (auto &p : vals) setReg(f, p.first, p.second);
    auto h = in.headerOf.find(to); bool header = h != in.headerOf.end(), back = false;
    if (header) {
        back = in.loops[h->second].l->contains(from);
        if (back) f.iters[h->second]++; else f.iters[h->second] = 0;
        // reset inner loops
        for (auto &l : in.loops) if (l.idx != h->second && in.loops[h->second].l->contains(l.l->getHeader())) f.iters[l.idx] = 0;
    }
    f.prev = from; f.bb = to; f.it = to->begin(); while (isa<PHINode>(*f.it)) ++f.it;
    covered[f.f->getName().str()].insert(std::to_string(in.rpo[to]));
    if (header && f.iters[h->second] > s.loopCap) throw Incomplete{"loop in " + f.f->getName().str() + " (" + locOf(to->getTerminator()) + ") not shown to terminate within " + std::to_string(s.loopCap) + " iterations"};
}
static const Function *calleeOf(State &s, const CallBase &cb) {
    if (auto *f = cb.getCalledFunction()) return f;
    V v = ev(s, cb.getCalledOperand());
    v = toPtr(s, v);
    if (v.obj == OBJ_NULL) throw Violation{"call through a null function pointer"};
    if (v.obj < 0 || !s.mem[v.obj] || !s.mem[v.obj]->fn) throw Violation{"call through an unknown function pointer " + objName(s, v.obj) + " " + show(v.t)};
    if (!isC(v.t, 0)) throw Violation{"call through a misaligned function pointer"};
    return s.mem[v.obj]->fn;
}
static std::string strArg(State &s, const V &v) {
    std::string r; if (v.k != 2 || v.obj < 0 || !isC(v.t)) return "?";
    for (u64 i = 0; i < 200; i++) { V b = loadMem(s, vPtr(v.obj, c64(v.t->k + i)), 1); if (!isC(b.t)) return r + "?"; if (!b.t->k) break; r += (char)b.t->k; }
    return r;
}
static std::string freshName(State &s, const std::string &n) { int k = s.names[n]++; return k ? n + "#" + std::to_string(k) : n; }
static bool clobbersSym(const std::string &) { return false; }
static void popFrame(State &s, bool hasRet, V ret) {
    Frame f = s.fr.back(); s.fr.pop_back();
    for (int a : f.allocas) s.mem[a] = nullptr;
    while (!s.mem.empty() && !s.mem.back()) s.mem.pop_back();
    if (s.fr.empty()) { s.done = true; return; }
    Frame &c = s.fr.back();
    if (f.hook) { s.hookDone = f.hook == 1; s.inHook = false; return; }   // re-execute the hooked instruction
    const Instruction *ci = &*c.it;
    if (hasRet && !ci->getType()->isVoidTy()) setReg(c, ci, ret);
    ++c.it;
}
static void pushCall(State &s, const Function *fn, const std::vector<V> &args, const CallBase *cb) {
    if (s.fr.size() > 60) throw Violation{"recursion too deep in " + fn->getName().str()};
    FnInfo &in = info(fn); Frame f; f.f = fn; f.bb = &fn->getEntryBlock(); f.it = f.bb->begin(); f.regs.resize(in.n); f.iters.resize(in.loops.size());
    unsigned i = 0;
    for (auto &a : fn->args()) {
        if (i >= args.size()) throw Violation{"call of " + fn->getName().str() + " with too few arguments"};
        V v = args[i];
        if (cb && a.hasByValAttr()) {
            Type *ty = a.getParamByValType(); int o = newObj(s, fn->getName().str() + ".byval" + std::to_string(i), c64(allocSize(ty)), 0, B_UNINIT);
            f.allocas.push_back(o); copyMem(s, vPtr(o, c64(0)), v, c64(allocSize(ty))); v = vPtr(o, c64(0));
        }
        if (a.getType()->isPointerTy()) v = toPtr(s, v);
        f.regs[in.slot[&a]] = v; i++;
    }
    s.fr.push_back(f); nCalls++;
    covered[fn->getName().str()].insert(std::to_string(in.rpo[f.bb]));
}
static bool hookFires(State &s, const V &p, unsigned size, bool store) {
    if (s.inHook || s.hooks.empty() || p.k != 2) return false;
    if (s.hookDone) return false;
    for (auto &h : s.hooks) if (h.obj == p.obj && h.store == store) {
        if (isC(p.t) && (p.t->k >= h.off + h.size || p.t->k + size <= h.off)) continue;
        if (!isC(p.t)) { T lo = mkUlt(p.t, c64(h.off + h.size)), hi = mkUlt(c64(h.off), mkAdd(p.t, c64(size))); if (dec(s, lo) == 0 || dec(s, hi) == 0) continue; }
        pushCall(s, h.cb, {}, nullptr); s.fr.back().hook = store ? 2 : 1; s.inHook = true; return true;
    }
    return false;
}
static bool hookTouched(State &s, const V &p, bool store) { for (auto &h : s.hooks) if (h.obj == p.obj && h.store == store) return true; return false; }
struct Splits { std::vector<S> out; };
static std::set<std::string> unknownExt;

// returns false when the path ends
static bool gelCall(S sp, const CallBase &cb, const std::string &n, std::vector<S> &extra) {
    State &s = *sp; Frame &f = s.fr.back();
    auto arg = [&](unsigned i) { return ev(s, cb.getArgOperand(i)); };
    auto ret = [&](V v) { if (!cb.getType()->isVoidTy()) setReg(f, &cb, v); ++f.it; };
    const unsigned IW = cb.getType()->isIntegerTy() ? cb.getType()->getIntegerBitWidth() : 32;   // results of type int: 16 or 32 bits
    if (n == "gel_u8" || n == "gel_u16" || n == "gel_u32" || n == "gel_u64" || n == "gel_f32" || n == "gel_f64") {
        unsigned w = n == "gel_u8" ? 8 : n == "gel_u16" ? 16 : (n == "gel_u32" || n == "gel_f32") ? 32 : 64;
        ret(vInt(mkNamed(w, freshName(s, strArg(s, arg(0)))))); return true;
    }
    if (n == "gel_assume") { T c = arg(0).t; c = mkNot1(mkEq(c, mkConst(0, c->w))); if (!asm_(s, c, true)) return false; ret({}); return true; }
    if (n == "gel_prove") {
        T c = arg(0).t; c = mkNot1(mkEq(c, mkConst(0, c->w))); std::string lb = strArg(s, arg(1));
        Label &l = labels[lb]; l.where = locOf(&cb); l.seen = true; l.entries.insert(curEntry);
        int d = dec(s, c);
        if (d == 1) { l.proved++; ret({}); return true; }
        if (d < 0) { State t = s; bool fe = true; try { fe = t.facts.assume(c, false); } catch (NeedSplit &q) { throw ForkEx{q.cond}; } if (!fe) { l.proved++; ret({}); return true; }
            throw Violation{"obligation \"" + lb + "\" cannot be established: " + show(c)}; }
        throw Violation{"obligation \"" + lb + "\" fails"};
    }
    if (n == "gel_choose") {
        T c = arg(0).t; if (!isC(c)) throw Incomplete{"gel_choose"};
        std::string nm = freshName(s, "choose");
        for (u64 i = 1; i < c->k; i++) { S t = std::make_shared<State>(s); setReg(t->fr.back(), &cb, vInt(mkConst(i, IW))); ++t->fr.back().it; t->tags.push_back((int)i); addTrace(*t, locOf(&cb) + ": case " + std::to_string(i)); extra.push_back(t); }
        s.tags.push_back(0); addTrace(s, locOf(&cb) + ": case 0"); ret(vInt(mkConst(0, IW))); return true;
    }
    if (n == "gel_split") {   // keep the two outcomes apart
        T c = arg(0).t; c = mkNot1(mkEq(c, mkConst(0, c->w))); int d = decFork(s, c); s.tags.push_back(d); ret({}); return true;
    }
    if (n == "gel_object") {
        T size = len64(arg(0).t), g = arg(1).t; std::string nm = freshName(s, strArg(s, arg(2)));
        if (!isC(g)) throw Incomplete{"gel_object granule"};
        int o = newObj(s, nm, size, 4, B_SYM); s.mem[o]->c->gran = g->k; s.mem[o]->c->name = nm; s.mem[o]->align = g->k;
        if (!isC(size)) { asm_(s, mkUlt(size, c64(PW < 64 ? 1ull << 31 : 1ull << 46)), true); }
        ret(vPtr(o, c64(0))); return true;
    }
    if (n == "gel_align") { V p = arg(0); auto &o = s.mem[p.obj]; if (o.use_count() > 1) o = std::make_shared<Obj>(*o); o->align = arg(1).t->k; ret({}); return true; }
    if (n == "gel_readonly") { V p = arg(0); int on = (int)arg(1).t->k; auto &o = s.mem[p.obj]; if (o.use_count() > 1) o = std::make_shared<Obj>(*o); o->ro = on; ret({}); return true; }
    if (n == "gel_loop_mode") { s.loopMode = (int)arg(0).t->k; ret({}); return true; }
    if (n == "gel_loop_cap") { s.loopCap = (int)arg(0).t->k; ret({}); return true; }
    if (n == "gel_loop_hint") { V a = arg(0), b = arg(1); s.hints.push_back({toInt(s, a), toInt(s, b)}); ret({}); return true; }
    if (n == "gel_malloc_may_fail") { s.mallocMayFail = arg(0).t->k; ret({}); return true; }
    if (n == "gel_key") { V p = arg(0); s.keys.push_back({p.obj, p.t, (unsigned)arg(1).t->k, (int)sxk(arg(2).t->k, arg(2).t->w)}); ret({}); return true; }
    if (n == "gel_must_stop") {   // from here the path has to end in a failing assertion
        s.stop = strArg(s, arg(0)); s.stopAt = locOf(&cb); s.tags.push_back(-2); Label &l = labels[s.stop]; l.where = s.stopAt; l.seen = true; l.entries.insert(curEntry); ret({}); return true;
    }
    if (n == "gel_key_clear") { s.keys.clear(); ret({}); return true; }
    if (n == "gel_hook_load" || n == "gel_hook_store") {
        V p = arg(0); V fnp = arg(2); Hook h; h.obj = p.obj; h.off = p.t->k; h.size = arg(1).t->k; h.cb = s.mem[fnp.obj]->fn; h.store = n == "gel_hook_store"; s.hooks.push_back(h); ret({}); return true;
    }
    if (n == "gel_unhook") { s.hooks.clear(); ret({}); return true; }
    if (n == "gel_freed") { V a = toPtr(s, arg(0)); ret(vInt(mkConst(a.obj >= 0 && s.mem[a.obj]->kind == 2 && s.mem[a.obj]->freed, IW))); return true; }
    if (n == "gel_same_ptr") { V a = toPtr(s, arg(0)), b = toPtr(s, arg(1)); ret(vInt(mkConst(a.obj == b.obj && dec(s, mkEq(a.t, b.t)) == 1, IW))); return true; }
    if (n == "gel_dump") { V v = arg(0); fprintf(stderr, "DUMP %s\n", v.k == 2 ? (objName(s, v.obj) + "+" + show(v.t)).c_str() : show(v.t).c_str()); ret({}); return true; }
    if (n == "gel_facts") { for (auto &c : s.facts.cons) fprintf(stderr, "  FACT %s\n", showCon(c).c_str()); ret({}); return true; }
    throw Incomplete{"unknown contract primitive " + n};
}
static bool execCall(S sp, const CallBase &cb, std::vector<S> &extra) {
    State &s = *sp; Frame &f = s.fr.back(); const unsigned IW = cb.getType()->isIntegerTy() ? cb.getType()->getIntegerBitWidth() : 32;
    if (isa<DbgInfoIntrinsic>(cb)) { ++f.it; return true; }
    auto arg = [&](unsigned i) { return ev(s, cb.getArgOperand(i)); };
    auto ret = [&](V v) { if (!cb.getType()->isVoidTy()) setReg(f, &cb, v); ++f.it; };
    if (auto *ii = dyn_cast<IntrinsicInst>(&cb)) {
        switch (ii->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::stackrestore: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: ++f.it; return true;
        case Intrinsic::stacksave: ret(vPtr(OBJ_WILD, c64(1))); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: if (!s.hooks.empty() && !s.inHook && hookTouched(s, toPtr(s, arg(0)), true)) throw Incomplete{"block write of a location shared with the other side"}; if (!s.hooks.empty() && isC(arg(2).t) && hookFires(s, toPtr(s, arg(1)), arg(2).t->k, false)) return true; s.hookDone = false; copyMem(s, toPtr(s, arg(0)), toPtr(s, arg(1)), len64(arg(2).t)); ++f.it; return true;
        case Intrinsic::memset: setMem(s, toPtr(s, arg(0)), arg(1).t, len64(arg(2).t)); ++f.it; return true;
        case Intrinsic::fabs: { T a = arg(0).t; ret(vInt(mkAnd(a, mkConst(maskw(a->w - 1), a->w)))); return true; }
        case Intrinsic::is_fpclass: { T a = arg(0).t; u64 m = arg(1).t->k; if (m == 3) { ret(vInt(mkFcmp(8, a, a))); return true; } throw Incomplete{"is_fpclass"}; }
        case Intrinsic::abs: { T a = arg(0).t; T z = mkConst(0, a->w); int d = decFork(s, mkSlt(a, z)); ret(vInt(d ? mkNeg(a) : a)); return true; }
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
            T a = arg(0).t, b = arg(1).t; bool sg = ii->getIntrinsicID() == Intrinsic::smax || ii->getIntrinsicID() == Intrinsic::smin, mx = ii->getIntrinsicID() == Intrinsic::smax || ii->getIntrinsicID() == Intrinsic::umax;
            int d = decFork(s, sg ? mkSlt(a, b) : mkUlt(a, b)); ret(vInt((d != 0) == mx ? b : a)); return true; }
        case Intrinsic::fmuladd: { T a = arg(0).t, b = arg(1).t, c = arg(2).t; V m = fop("fmul", {a, b}, a->w, true); ret(fop("fadd", {m.t, c}, a->w, true)); return true; }
        case Intrinsic::expect: ret(arg(0)); return true;
        case Intrinsic::bswap: { T a = arg(0).t; std::vector<T> p; for (unsigned i = a->w; i; i -= 8) p.push_back(mkExtr(a, i - 8, 8)); ret(vInt(mkConcat(p))); return true; }
        case Intrinsic::bitreverse: { T a = arg(0).t; std::vector<T> p; for (unsigned i = a->w; i; i--) p.push_back(mkExtr(a, i - 1, 1)); ret(vInt(mkConcat(p))); return true; }
        case Intrinsic::ctpop: { T a = arg(0).t, r = mkConst(0, a->w); for (unsigned i = 0; i < a->w; i++) r = mkAdd(r, a->w == 1 ? a : mkZExt(mkExtr(a, i, 1), a->w)); ret(vInt(r)); return true; }
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            bool lead = ii->getIntrinsicID() == Intrinsic::ctlz; T a = arg(0).t; unsigned i = 0;
            for (; i < a->w; i++) if (decFork(s, mkEq(mkExtr(a, lead ? a->w - 1 - i : i, 1), mkConst(1, 1)))) break;
            if (i == a->w && isC(arg(1).t, 1)) throw Violation{"count of leading or trailing zeros of 0"};
            ret(vInt(mkConst(i, a->w))); return true; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            T a = arg(0).t, b = arg(1).t, c = arg(2).t; unsigned w = a->w; bool left = ii->getIntrinsicID() == Intrinsic::fshl; if (!isC(c)) throw Incomplete{"funnel shift by a symbolic amount"};
            unsigned n = c->k % w; if (!n) { ret(vInt(left ? a : b)); return true; } if (!left) n = w - n;
            ret(vInt(mkConcat({mkExtr(b, w - n, n), mkExtr(a, 0, w - n)}))); return true; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
            T a = arg(0).t, b = arg(1).t, r, o, z = mkConst(0, a->w); auto id = ii->getIntrinsicID();
            if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::uadd_sat) { r = mkAdd(a, b); o = mkUlt(r, a); }
            else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::usub_sat) { r = mkSub(a, b); o = mkUlt(a, b); }
            else if (id == Intrinsic::sadd_with_overflow) { r = mkAdd(a, b); o = mkXor(mkSlt(r, a), mkSlt(b, z)); }
            else if (id == Intrinsic::ssub_with_overflow) { r = mkSub(a, b); o = mkXor(mkSlt(r, z), mkSlt(a, b)); }
            else {
                bool sg = id == Intrinsic::smul_with_overflow; if (a->w > 32) throw Incomplete{"overflow of a 64-bit product"};
                auto ext = [&](T x) { return sg ? mkSExt(x, 2 * x->w) : mkZExt(x, 2 * x->w); };
                T p = mkMul(ext(a), ext(b)); r = mkExtr(p, 0, a->w); o = mkNot1(mkEq(p, ext(r)));
            }
            if (id == Intrinsic::uadd_sat || id == Intrinsic::usub_sat) { ret(vInt(decFork(s, o) ? id == Intrinsic::uadd_sat ? mkConst(~0ull, a->w) : z : r)); return true; }
            V v; v.k = 3; v.agg = std::make_shared<std::vector<V>>(std::vector<V>{vInt(r), vInt(mkConst(decFork(s, o), 1))}); ret(v); return true; }
        case Intrinsic::minnum: case Intrinsic::maxnum: {
            T a = arg(0).t, b = arg(1).t; bool mx = ii->getIntrinsicID() == Intrinsic::maxnum;
            if (decFork(s, mkFcmp(8, a, a))) ret(vInt(b)); else if (decFork(s, mkFcmp(8, b, b))) ret(vInt(a)); else ret(vInt((decFork(s, mkFcmp(1, a, b)) != 0) == mx ? b : a));
            return true; }
        case Intrinsic::copysign: { T a = arg(0).t, b = arg(1).t, m = mkConst(maskw(a->w - 1), a->w); ret(vInt(mkOr(mkAnd(a, m), mkAnd(b, mkConst(~maskw(a->w - 1), a->w))))); return true; }
        case Intrinsic::trap: case Intrinsic::ubsantrap: throw Violation{"a trap may be reached"};
        default: throw Incomplete{"intrinsic " + cb.getCalledFunction()->getName().str()};
        }
    }
    if (cb.isInlineAsm()) throw Incomplete{"inline assembly"};
    const Function *fn = calleeOf(s, cb);
    std::string n = fn->getName().str();
    callSites.insert(locOf(&cb) + ">" + n);
    if (n.compare(0, 4, "gel_") == 0 && fn->isDeclaration()) return gelCall(sp, cb, n, extra);
    if (!fn->isDeclaration()) {
        // a call through a declaration other than the definition: what it passes is not what is received
        if (cb.getType() != fn->getReturnType() && !(cb.getType()->isVoidTy() && cb.use_empty())) throw Violation{"call of " + n + " through a declaration with another result type"};
        for (unsigned i = 0; i < cb.arg_size() && i < fn->arg_size(); i++) if (cb.getArgOperand(i)->getType() != fn->getArg(i)->getType()) throw Violation{"call of " + n + " through a declaration in which the type of argument " + std::to_string(i + 1) + " differs from the definition"};
        std::vector<V> a; for (unsigned i = 0; i < cb.arg_size(); i++) a.push_back(arg(i));
        pushCall(s, fn, a, &cb); return true;
    }
    if (n == "__assert_fail" && !s.stop.empty()) { labels[s.stop].proved++; nPaths++; return false; }
    if (n == "__assert_fail") throw Violation{"assertion may fail: " + strArg(s, arg(0))};
    if (n == "abort" || n == "exit") throw Violation{"call of " + n};
    if (n == "memcpy" || n == "memmove") { V d = toPtr(s, arg(0)); copyMem(s, d, toPtr(s, arg(1)), len64(arg(2).t)); ret(d); return true; }
    if (n == "memset") { V d = toPtr(s, arg(0)); setMem(s, d, mkExtr(arg(1).t, 0, 8), len64(arg(2).t)); ret(d); return true; }
    if (n == "memcmp") {
        V a = toPtr(s, arg(0)), b = toPtr(s, arg(1)); T len = arg(2).t;
        for (u64 i = 0;; i++) {
            if (isC(len) ? i >= len->k : decFork(s, mkEq(len, mkConst(i, len->w)))) break;
            if (!isC(len) && i >= 64) throw Incomplete{"memcmp of symbolic length"};
            T x = toInt(s, loadMem(s, vPtr(a.obj, mkAdd(a.t, c64(i))), 1)), y = toInt(s, loadMem(s, vPtr(b.obj, mkAdd(b.t, c64(i))), 1));
            if (decFork(s, mkEq(x, y))) continue;
            int d = dec(s, mkUlt(x, y));
            T r = mkNamed(IW, freshName(s, "memcmp")); if (d < 0) asm_(s, mkEq(r, mkConst(0, IW)), false); else asm_(s, mkSlt(d ? r : mkConst(0, IW), d ? mkConst(0, IW) : r), true); ret(vInt(r)); return true;
        }
        ret(vInt(mkConst(0, IW))); return true;
    }
    if (n == "malloc" || n == "calloc") {
        T size = len64(n == "malloc" ? arg(0).t : mkMul(arg(0).t, arg(1).t));
        if (s.mallocMayFail) { S t = std::make_shared<State>(s); setReg(t->fr.back(), &cb, vPtr(OBJ_NULL, c64(0))); ++t->fr.back().it; t->tags.push_back(-1); addTrace(*t, locOf(&cb) + ": " + n + " returns NULL"); extra.push_back(t); }
        int o = newObj(s, freshName(s, "heap"), size, 2, n == "malloc" ? B_UNINIT : B_ZERO);
        if (!isC(size)) asm_(s, mkUlt(size, c64(PW < 64 ? 1ull << 31 : 1ull << 46)), true);
        ret(vPtr(o, c64(0))); return true;
    }
    if (n == "free") { V p = toPtr(s, arg(0)); if (p.obj >= 0) { if (s.mem[p.obj]->kind != 2 || !isC(p.t, 0)) throw Violation{"free of a pointer not obtained from malloc"}; if (s.mem[p.obj]->freed) throw Violation{"double free"}; auto &o = s.mem[p.obj]; if (o.use_count() > 1) o = std::make_shared<Obj>(*o); o->freed = true; } ret({}); return true; }
    if (n == "fmin" || n == "fminf" || n == "fmax" || n == "fmaxf") {
        T a = arg(0).t, b = arg(1).t; bool mx = n[2] == 'a';
        if (decFork(s, mkFcmp(8, a, a))) ret(vInt(b)); else if (decFork(s, mkFcmp(8, b, b))) ret(vInt(a)); else ret(vInt((decFork(s, mkFcmp(1, a, b)) != 0) == mx ? b : a));
        return true;
    }
    if (n == "fabs" || n == "fabsf") { T a = arg(0).t; ret(vInt(mkAnd(a, mkConst(maskw(a->w - 1), a->w)))); return true; }
    if (n == "__isnan" || n == "__isnanf" || n == "isnan") { T a = arg(0).t; ret(vInt(mkConst(decFork(s, mkFcmp(8, a, a)), IW))); return true; }
    if (n == "labs" || n == "abs") { T a = arg(0).t; ret(vInt(decFork(s, mkSlt(a, mkConst(0, a->w))) ? mkNeg(a) : a)); return true; }
    if (n == "sprintf" || n == "snprintf") {   // one formatted argument: handed to the contract's model as raw bits and kind (0 int, 1 long, 2 double, 3 pointer)
        const Function *mf = M->getFunction("gel_model_sprintf"); unsigned fi = n == "sprintf" ? 1 : 2;
        if (mf && !mf->isDeclaration() && cb.arg_size() == fi + 2) {
            V x = arg(fi + 1); Type *ty = cb.getArgOperand(fi + 1)->getType(); int kind = ty->isDoubleTy() ? 2 : x.k == 2 ? 3 : bitsOf(ty) == 64 ? 1 : 0;
            T bits = x.k == 2 ? toInt(s, x) : x.t; if (bits->w < 64) bits = mkZExt(bits, 64);
            pushCall(s, mf, {arg(0), arg(fi), vInt(bits), vInt(mkConst(kind, bitsOf(mf->getFunctionType()->getParamType(3))))}, &cb); return true;
        }
    }
    throw Violation{"call of external function " + n + " whose effects are unknown"};
}
// executes until the state ends, is pushed back to the worklist or forks
static void runState(S sp0) {
    std::vector<S> stack{sp0};
    while (!stack.empty()) {
        S sp = stack.back(); stack.pop_back();
        State &s = *sp;
        bool live = true;
        while (live) {
            if ((++nInstr & 1023) == 0 && elapsed() > tLimit) throw Incomplete{"analysis time limit"};
            const Instruction &in = *s.fr.back().it; Frame &f = s.fr.back();
            try {
                std::vector<S> extra;
                switch (in.getOpcode()) {
                case Instruction::Ret: {
                    auto &r = cast<ReturnInst>(in); V v; bool has = r.getReturnValue() != nullptr; if (has) v = ev(s, r.getReturnValue());
                    if (s.fr.size() == 1 && !s.stop.empty()) throw Violation{"obligation \"" + s.stop + "\" fails: the call returns"};
                    popFrame(s, has, v); if (s.done) { nPaths++; live = false; } break;
                }
                case Instruction::Br: {
                    auto &b = cast<BranchInst>(in); const BasicBlock *to;
                    if (b.isUnconditional()) to = b.getSuccessor(0);
                    else {
                        V c = ev(s, b.getCondition()); int d = decFork(s, c.t);
                        if (!isC(c.t)) { std::string m = locOf(&in) + ": " + show(c.t, 4) + (d ? " true" : " false"); if (!s.trace || s.trace->s != m) addTrace(s, m); }
                        to = b.getSuccessor(d ? 0 : 1);
                    }
                    enterBlock(sp, to);
                    if (to->hasNPredecessorsOrMore(2)) { push(sp); live = false; }
                    break;
                }
                case Instruction::Switch: {
                    auto &sw = cast<SwitchInst>(in); V c = ev(s, sw.getCondition()); const BasicBlock *to = nullptr;
                    for (auto &k : sw.cases()) { T e = mkEq(c.t, mkConst(k.getCaseValue()->getZExtValue(), c.t->w)); if (decFork(s, e)) { to = k.getCaseSuccessor(); if (!isC(c.t)) addTrace(s, locOf(&in) + ": case " + std::to_string(k.getCaseValue()->getSExtValue())); break; } }
                    if (!to) to = sw.getDefaultDest();
                    enterBlock(sp, to);
                    if (to->hasNPredecessorsOrMore(2)) { push(sp); live = false; }
                    break;
                }
                case Instruction::Unreachable: throw Violation{"unreachable code reached (undefined behaviour)"};
                case Instruction::Call: live = execCall(sp, cast<CallBase>(in), extra); break;
                case Instruction::Alloca: {
                    auto &a = cast<AllocaInst>(in); T n = ev(s, a.getArraySize()).t; T size = mkMul(mkZExt(n, 64), c64(allocSize(a.getAllocatedType())));
                    if (!isC(size)) { if (dec(s, mkUlt(size, c64(1ull << 40))) != 1) asm_(s, mkUlt(size, c64(1ull << 40)), true); }
                    int o = newObj(s, f.f->getName().str() + "." + (a.hasName() ? a.getName().str() : "tmp"), size, 0, B_UNINIT); s.mem[o]->align = a.getAlign().value(); f.allocas.push_back(o); setReg(f, &in, vPtr(o, c64(0))); ++f.it; break;
                }
                case Instruction::Load: {
                    auto &l = cast<LoadInst>(in); V p = toPtr(s, ev(s, l.getPointerOperand())); if (!ofContract(in)) aligned(s, p, l.getAlign().value());
                    if (hookFires(s, p, storeSize(l.getType()), false)) break;
                    setReg(f, &in, loadTyped(s, p, l.getType())); s.hookDone = false; ++f.it; break;
                }
                case Instruction::Store: {
                    auto &st = cast<StoreInst>(in); V p = toPtr(s, ev(s, st.getPointerOperand())); if (!ofContract(in)) aligned(s, p, st.getAlign().value());
                    storeTyped(s, p, st.getValueOperand()->getType(), ev(s, st.getValueOperand())); s.hookDone = false; ++f.it;
                    hookFires(s, p, storeSize(st.getValueOperand()->getType()), true); break;
                }
                case Instruction::GetElementPtr: {
                    auto &g = cast<GetElementPtrInst>(in); V b = toPtr(s, ev(s, g.getPointerOperand())); T off = b.t;
                    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                        if (StructType *st = gi.getStructTypeOrNull()) off = mkAdd(off, c64(DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue())));
                        else { V ix = ev(s, gi.getOperand()); off = mkAdd(off, mkMul(mkSExt(ix.t, 64), c64(allocSize(gi.getIndexedType())))); }
                    }
                    b.t = off; if (b.obj == OBJ_NULL && !isC(off, 0)) b.obj = OBJ_WILD; setReg(f, &in, b); ++f.it; break;
                }
                case Instruction::ICmp: { auto &c = cast<ICmpInst>(in); setReg(f, &in, vInt(icmp(s, c.getPredicate(), ev(s, c.getOperand(0)), ev(s, c.getOperand(1))))); ++f.it; break; }
                case Instruction::FCmp: { auto &c = cast<FCmpInst>(in); setReg(f, &in, vInt(mkFcmp(fmask(c.getPredicate()), ev(s, c.getOperand(0)).t, ev(s, c.getOperand(1)).t))); ++f.it; break; }
                case Instruction::Select: {
                    V c = ev(s, in.getOperand(0)); T mx = mux(s, c.t, ev(s, in.getOperand(1)), ev(s, in.getOperand(2)));
                    if (mx) { setReg(f, &in, vInt(mx)); ++f.it; break; }
                    int d = decFork(s, c.t); setReg(f, &in, ev(s, in.getOperand(d ? 1 : 2))); ++f.it; break;
                }
                case Instruction::ZExt: {
                    T a = ev(s, in.getOperand(0)).t;
                    if (a->w == 1 && !bitLike(a)) a = mkConst(decFork(s, a), 1);
                    T z = muxOn ? s.facts.widen(a, bitsOf(in.getType())) : nullptr;
                    setReg(f, &in, vInt(z ? z : mkZExt(a, bitsOf(in.getType())))); ++f.it; break;
                }
                case Instruction::SExt: { T a = ev(s, in.getOperand(0)).t; if (a->w == 1) a = mkConst(decFork(s, a), 1); setReg(f, &in, vInt(mkSExt(a, bitsOf(in.getType())))); ++f.it; break; }
                case Instruction::Trunc: setReg(f, &in, vInt(mkExtr(ev(s, in.getOperand(0)).t, 0, bitsOf(in.getType())))); ++f.it; break;
                case Instruction::BitCast: case Instruction::Freeze: setReg(f, &in, ev(s, in.getOperand(0))); ++f.it; break;
                case Instruction::PtrToInt: { T t = toInt(s, ev(s, in.getOperand(0))); unsigned w = bitsOf(in.getType()); setReg(f, &in, vInt(w > t->w ? mkZExt(t, w) : mkExtr(t, 0, w))); ++f.it; break; }
                case Instruction::IntToPtr: { T t = ev(s, in.getOperand(0)).t; setReg(f, &in, toPtr(s, vInt(t->w > PW ? mkExtr(t, 0, PW) : mkZExt(t, PW)))); ++f.it; break; }
                case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI:
                    setReg(f, &in, fcast(in.getOpcode(), ev(s, in.getOperand(0)).t, bitsOf(in.getType()))); ++f.it; break;
                case Instruction::FAdd: case Instruction::FMul: case Instruction::FSub: case Instruction::FDiv: {
                    static std::map<unsigned, const char *> nm = {{Instruction::FAdd, "fadd"}, {Instruction::FMul, "fmul"}, {Instruction::FSub, "fsub"}, {Instruction::FDiv, "fdiv"}};
                    if (in.getType()->isVectorTy()) throw Incomplete{"vector arithmetic"};
                    setReg(f, &in, fop(nm[in.getOpcode()], {ev(s, in.getOperand(0)).t, ev(s, in.getOperand(1)).t}, bitsOf(in.getType()), in.getOpcode() == Instruction::FAdd || in.getOpcode() == Instruction::FMul)); ++f.it; break;
                }
                case Instruction::FNeg: { T a = ev(s, in.getOperand(0)).t; setReg(f, &in, vInt(mkXor(a, mkConst(1ull << (a->w - 1), a->w)))); ++f.it; break; }
                case Instruction::ExtractValue: { V a = ev(s, in.getOperand(0)); for (unsigned ix : cast<ExtractValueInst>(in).indices()) { V t = (*a.agg)[ix]; a = t; } setReg(f, &in, a); ++f.it; break; }
                case Instruction::InsertValue: {
                    V a = ev(s, in.getOperand(0)), v = ev(s, in.getOperand(1)); auto ix = cast<InsertValueInst>(in).getIndices(); if (ix.size() != 1) throw Incomplete{"insertvalue"};
                    auto n = std::make_shared<std::vector<V>>(*a.agg); (*n)[ix[0]] = v; a.agg = n; setReg(f, &in, a); ++f.it; break;
                }
                case Instruction::ExtractElement: {
                    T a = ev(s, in.getOperand(0)).t, ix = ev(s, in.getOperand(1)).t; unsigned w = bitsOf(in.getType()); setReg(f, &in, vInt(mkExtr(a, w * ix->k, w))); ++f.it; break;
                }
                case Instruction::InsertElement: {
                    T a = ev(s, in.getOperand(0)).t, e = ev(s, in.getOperand(1)).t, ix = ev(s, in.getOperand(2)).t; unsigned w = e->w, n = a->w / w;
                    std::vector<T> p; for (unsigned i = 0; i < n; i++) p.push_back(i == ix->k ? e : mkExtr(a, w * i, w)); setReg(f, &in, vInt(mkConcat(p))); ++f.it; break;
                }
                default:
                    if (in.isBinaryOp()) { setReg(f, &in, vInt(binop(s, in.getOpcode(), ev(s, in.getOperand(0)).t, ev(s, in.getOperand(1)).t))); ++f.it; break; }
                    throw Incomplete{std::string("instruction ") + in.getOpcodeName()};
                }
                for (auto &e : extra) stack.push_back(e);
            } catch (ForkEx &fk) {
                nForks++; nStates++;
                S a = std::make_shared<State>(s); bool fa = true, fb = true;
                auto tryAssume = [&](S x, bool v, bool &feas) { try { feas = x->facts.assume(fk.cond, v); return true; } catch (NeedSplit &n) { fk.cond = n.cond; return false; } };
                T orig = fk.cond; int guard = 0;
                for (;;) {
                    S x = std::make_shared<State>(s), y = std::make_shared<State>(s);
                    if (!tryAssume(x, true, fa)) { if (++guard > 20) throw Incomplete{"split"}; continue; }
                    T c0 = fk.cond;
                    if (!tryAssume(y, false, fb)) { if (++guard > 20 || fk.cond == c0) throw Incomplete{"split"}; continue; }
                    if (fk.cond != orig || true) {
                        std::string w = locOf(&in);
                        if (fa && fb) { addTrace(*x, w + ": " + show(fk.cond, 4) + " true"); addTrace(*y, w + ": " + show(fk.cond, 4) + " false"); }
                        if (fb) stack.push_back(y); if (fa) stack.push_back(x);
                    }
                    break;
                }
                live = false;
            } catch (Violation &v) {
                // infeasible state?
                if (refuteState(s)) { live = false; continue; }
                reports.push_back(mkReport(s, v.msg)); throw;
            } catch (Incomplete &i) {
                reports.push_back(mkReport(s, "analysis incomplete: " + i.msg)); reports.back().inc = true; throw Violation{"incomplete: " + i.msg};
            }
            if (s.done) live = false;
        }
    }
}
static void analyse(const Function *f) {
    curEntry = f->getName().str(); work.clear();
    S s = std::make_shared<State>(*initState);
    pushCall(*s, f, {}, nullptr); push(s); nStates++;
    u64 paths0 = nPaths; size_t rep0 = reports.size();
    try {
        while (!work.empty()) {
            auto it = work.begin(); std::vector<S> v = it->second; work.erase(it);
            mergeStates(v); lossyMerge(v);
            for (auto &x : v) runState(x);
        }
    } catch (Violation &) {}
    catch (Incomplete &i) { Report r; r.entry = curEntry; r.msg = "analysis incomplete: " + i.msg; r.inc = true; reports.push_back(r); }
    if (reports.size() == rep0 && nPaths == paths0) { Report r; r.entry = curEntry; r.msg = "no execution of the contract completes (vacuous)"; reports.push_back(r); }
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
// a mutable variable of the library that some library code may write: earlier calls may have left anything in it
static bool mayBeWritten(const Value *v, std::set<const Value *> &seen) {
    if (!seen.insert(v).second) return false;
    for (auto *u : v->users()) {
        if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue;
        if (auto *st = dyn_cast<StoreInst>(u)) { (void)st; return true; }
        if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawSource() == v && mt->getRawDest() != v) continue; return true; }
        if (isa<GEPOperator>(u) || isa<BitCastOperator>(u) || isa<AddrSpaceCastInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { if (mayBeWritten(u, seen)) return true; continue; }
        return true;
    }
    return false;
}
static bool hiddenState(const GlobalVariable &g) {
    if (g.isConstant() || !g.hasInitializer()) return false;
    SmallVector<DIGlobalVariableExpression *, 1> d; g.getDebugInfo(d); if (d.empty()) return false;
    auto *v = d[0]->getVariable(); if (v->getFilename().contains("contracts/") && !isa<DILexicalBlock>(v->getScope())) return false;   // in a block of a contract: from a macro of the library
    std::set<const Value *> seen; return mayBeWritten(&g, seen);
}
int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "gelsa module.bc prefix [outfile] [timelimit]\n"); return 2; }
    LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("gelsa", errs()); return 2; }
    M = m.get(); DL = &M->getDataLayout(); PW = DL->getPointerSizeInBits(0);
    std::string prefix = argv[2]; const char *out = argc > 3 ? argv[3] : nullptr; if (argc > 4) tLimit = atof(argv[4]);
    const char *only = getenv("GELSA_ONLY");
    initState = std::make_shared<State>();
    for (auto &g : M->globals()) {
        auto o = std::make_shared<Obj>(); o->name = g.getName().str(); o->kind = 1; o->ro = g.isConstant(); o->uid = uidCounter++;
        Type *ty = g.getValueType(); u64 sz = ty->isSized() ? allocSize(ty) : 0; o->size = c64(sz);
        o->c = std::make_shared<Content>(); o->c->name = o->name; o->c->sizeC = sz; if (auto al = g.getAlign()) o->align = al->value();
        if (g.hasInitializer()) { o->c->gv = &g; o->c->base = isa<ConstantAggregateZero>(g.getInitializer()) ? B_ZERO : B_CONST; if (o->c->base == B_ZERO) o->c->gv = nullptr; } else o->c->base = B_UNINIT;
        if (hiddenState(g)) { o->c->gv = nullptr; o->c->base = B_SYM; Type *e = ty; while (auto *at = dyn_cast<ArrayType>(e)) e = at->getElementType(); o->c->gran = e->isIntegerTy() || e->isFloatingPointTy() ? allocSize(e) : 1; }
        gobj[&g] = initState->mem.size(); initState->mem.push_back(o);
    }
    for (auto &f : *M) { auto o = std::make_shared<Obj>(); o->name = f.getName().str(); o->kind = 3; o->fn = &f; o->uid = uidCounter++; o->size = c64(1); o->c = std::make_shared<Content>(); gobj[&f] = initState->mem.size(); initState->mem.push_back(o); }
    if (out && !strcmp(out, "--list")) {
        for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with(prefix) && f.arg_size() == 0 && !f.hasLocalLinkage()) printf("ENTRY %s\n", f.getName().str().c_str());
        for (auto &f : *M) { if (f.isDeclaration() || !info(&f).contract) continue; for (auto &b : f) for (auto &i : b) if (auto *cb = dyn_cast<CallInst>(&i)) if (cb->getCalledFunction() && (cb->getCalledFunction()->getName() == "gel_prove" && isa<Constant>(cb->getArgOperand(1)) || cb->getCalledFunction()->getName() == "gel_must_stop")) { State s = *initState; printf("LABEL %s\n", strArg(s, toPtr(s, evalConst(s, cast<Constant>(cb->getArgOperand(cb->arg_size() - 1))))).c_str()); } }
        return 0;
    }
    const char *exact = getenv("GELSA_ENTRY");
    int entries = 0; std::vector<std::string> enames;
    std::vector<std::pair<std::string, double>> times;
    for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with(prefix) && f.arg_size() == 0 && !f.hasLocalLinkage()) {
        if (only && f.getName().str().find(only) == std::string::npos) continue;
        if (exact && f.getName() != exact) continue;
        double t0 = elapsed(); u64 i0 = nInstr, p0 = nPaths;
        entries++; enames.push_back(f.getName().str()); analyse(&f);
        if (getenv("GELSA_V")) fprintf(stderr, "[%s] %.2fs instr=%llu paths=%llu states=%llu forks=%llu joins=%llu refutes=%llu\n", f.getName().str().c_str(), elapsed() - t0, (unsigned long long)(nInstr - i0), (unsigned long long)(nPaths - p0), (unsigned long long)nStates, (unsigned long long)nForks, (unsigned long long)nJoins, (unsigned long long)nRefutes);
    }
    // vacuity: every gel_prove call in the module's contract functions must have been evaluated
    if (!only && !exact) for (auto &f : *M) { if (f.isDeclaration() || !info(&f).contract) continue; for (auto &b : f) for (auto &i : b) if (auto *cb = dyn_cast<CallInst>(&i)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "gel_prove" && isa<Constant>(cb->getArgOperand(1))) {
        State s = *initState; std::string lb = strArg(s, toPtr(s, evalConst(s, cast<Constant>(cb->getArgOperand(1)))));
        if (!labels.count(lb)) { bool stopped = !reports.empty(); if (!stopped) { Report r; r.entry = f.getName().str(); r.msg = "obligation \"" + lb + "\" was never reached"; r.where = locOf(cb); reports.push_back(r); } }
    } }
    FILE *o = out ? fopen(out, "w") : stdout; if (!o) return 2;
    u64 repoFns = 0, repoBlocks = 0, ctrFns = 0, ob = 0;
    std::string fl;
    for (auto &kv : covered) { auto *f = M->getFunction(kv.first); if (!f) continue; if (info(f).contract) { ctrFns++; continue; } repoFns++; repoBlocks += kv.second.size(); if (!fl.empty()) fl += ", "; fl += "\"" + kv.first + ":" + std::to_string(kv.second.size()) + "/" + std::to_string(f->size()) + "\""; }
    for (auto &l : labels) ob += l.second.proved;
    fprintf(o, "{\n\"entries\": %d, \"paths\": %llu, \"states\": %llu, \"instructions\": %llu, \"forks\": %llu, \"joins\": %llu, \"lossy_joins\": %llu, \"memory_accesses_checked\": %llu, \"entailment_queries\": %llu, \"refutations\": %llu,\n", entries, (unsigned long long)nPaths, (unsigned long long)nStates, (unsigned long long)nInstr, (unsigned long long)nForks, (unsigned long long)nJoins, (unsigned long long)nLossy, (unsigned long long)nAccess, (unsigned long long)nQueries, (unsigned long long)nRefutes);
    u64 cs = 0; for (auto &c : callSites) if (c.find(">gel_") == std::string::npos) cs++;
    fprintf(o, "\"repo_functions\": %llu, \"repo_blocks\": %llu, \"contract_functions\": %llu, \"call_sites\": %llu, \"obligations_checked\": %llu,\n\"functions\": [%s],\n", (unsigned long long)repoFns, (unsigned long long)repoBlocks, (unsigned long long)ctrFns, (unsigned long long)cs, (unsigned long long)ob, fl.c_str());
    fprintf(o, "\"sites\": ["); { bool fi = true; for (auto &c : callSites) if (c.find(">gel_") == std::string::npos) { fprintf(o, "%s\"%s\"", fi ? "" : ", ", jesc(c).c_str()); fi = false; } } fprintf(o, "],\n\"blocks\": ["); { bool fi = true; for (auto &kv : covered) { auto *f = M->getFunction(kv.first); if (!f || info(f).contract) continue; for (auto &b : kv.second) { fprintf(o, "%s\"%s:%s\"", fi ? "" : ", ", kv.first.c_str(), b.c_str()); fi = false; } } } fprintf(o, "],\n"); fprintf(o, "\"entry_names\": ["); for (size_t i = 0; i < enames.size(); i++) fprintf(o, "%s\"%s\"", i ? ", " : "", enames[i].c_str());
    fprintf(o, "],\n\"obligations\": {"); bool first = true; for (auto &l : labels) { fprintf(o, "%s\n  \"%s\": %llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second.proved); first = false; }
    fprintf(o, "},\n\"violations\": ["); first = true;
    for (auto &r : reports) {
        fprintf(o, "%s\n {\"incomplete\": %s, \"entry\": \"%s\", \"where\": \"%s\", \"message\": \"%s\", \"stack\": [", first ? "" : ",", r.inc ? "true" : "false", r.entry.c_str(), jesc(r.where).c_str(), jesc(r.msg).c_str()); first = false;
        for (size_t i = 0; i < r.stack.size(); i++) fprintf(o, "%s\"%s\"", i ? ", " : "", jesc(r.stack[i]).c_str());
        fprintf(o, "], \"path\": ["); for (size_t i = 0; i < r.trace.size(); i++) fprintf(o, "%s\"%s\"", i ? ", " : "", jesc(r.trace[i]).c_str());
        fprintf(o, "]}");
    }
    fprintf(o, "],\n\"seconds\": %.2f}\n", elapsed()); if (out) fclose(o);
    for (auto &r : reports) if (getenv("GELSA_V")) { if (getenv("GELSA_F")) for (auto &c : r.facts) fprintf(stderr, "    FACT %s\n", c.c_str()); fprintf(stderr, "VIOL %s: %s @ %s\n", r.entry.c_str(), r.msg.c_str(), r.where.c_str()); for (auto &x : r.stack) fprintf(stderr, "    in %s\n", x.c_str()); for (auto &x : r.trace) fprintf(stderr, "      %s\n", x.c_str()); }
    return reports.empty() ? (entries ? 0 : 2) : 1;
}
