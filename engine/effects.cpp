// Effect analysis of one LLVM module: mutable globals, uses of functions defined elsewhere, provenance of indirect
// calls and of written memory, inline assembly; per function what it writes and passes on, its loops and its variable
// stack use, and what happens inside assertions. Prints one JSON object; the rules are in tools/structural.py.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <set>
#include <string>
#include <cstdio>
using namespace llvm;
typedef std::set<std::string> Prov;
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }
static std::string where(const Instruction *i) {
    const DebugLoc &d = i->getDebugLoc(); std::string f = i->getFunction()->getName().str();
    if (!d) return f; auto *s = cast<DIScope>(d.getScope()); return s->getFilename().str() + ":" + std::to_string(d.getLine()) + " (" + f + ")";
}
// position of an argument in the source (the ABI may split, add or reorder them), -1 when it is not one (structure returned in memory)
static int argNo(const Argument *a) {
    static std::map<const Function *, std::map<std::string, int>> names; const Function *f = a->getParent();
    if (!names.count(f)) { auto &m = names[f]; for (auto &I : instructions(*f)) if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) { auto *v = d->getVariable(); if (v->getArg() && !d->getDebugLoc().getInlinedAt()) m[v->getName().str()] = v->getArg() - 1; } }
    if (a->hasStructRetAttr()) return -1;
    auto &m = names[f]; std::string n = a->getName().str(); if (m.count(n)) return m[n];
    size_t dot = n.find('.'); if (dot != std::string::npos && m.count(n.substr(0, dot))) return m[n.substr(0, dot)];
    return a->getArgNo();
}
// where a value comes from: arg#N, local, heap, fn:NAME, global:NAME, const, int, call:NAME, asm
static void prov(const Value *v, Prov &o, std::set<const Value *> &seen);
static void held(const Value *v, Prov &o, std::set<const Value *> &seen);
static void storedInto(const AllocaInst *a, Prov &o, std::set<const Value *> &seen) {   // values put into a local
    std::set<const Value *> ptrs{a}; bool ch = true;
    while (ch) { ch = false; for (auto &b : *a->getFunction()) for (auto &i : b) {
        if (isa<GetElementPtrInst>(i) || isa<PHINode>(i) || isa<SelectInst>(i)) { for (auto &u : i.operands()) if (ptrs.count(u) && ptrs.insert(&i).second) ch = true; } } }
    for (auto &b : *a->getFunction()) for (auto &i : b) {
        if (auto *s = dyn_cast<StoreInst>(&i)) { if (ptrs.count(s->getPointerOperand())) prov(s->getValueOperand(), o, seen); }
        else if (auto *m = dyn_cast<MemTransferInst>(&i)) { if (ptrs.count(m->getRawDest())) held(m->getRawSource(), o, seen); }
        else if (auto *c = dyn_cast<CallBase>(&i)) { if (isa<IntrinsicInst>(c)) continue; bool in = false; for (auto &x : c->args()) in |= ptrs.count(x) != 0; if (in) for (auto &x : c->args()) if (x->getType()->isPointerTy() && !ptrs.count(x)) { prov(x, o, seen); std::set<const Value *> s2; held(x, o, s2); } }
    }
}
static void prov(const Value *v, Prov &o, std::set<const Value *> &seen) {
    v = v->stripPointerCasts();
    if (!seen.insert(v).second) return;
    if (auto *a = dyn_cast<Argument>(v)) { int n = argNo(a); o.insert(n < 0 || a->hasByValAttr() ? "local" : "arg#" + std::to_string(n)); return; }
    if (auto *f = dyn_cast<Function>(v)) { o.insert("fn:" + f->getName().str()); return; }
    if (auto *g = dyn_cast<GlobalVariable>(v)) {
        o.insert("global:" + g->getName().str());
        if (g->isConstant() && g->hasInitializer()) { std::vector<const Value *> w{g->getInitializer()}; std::set<const Value *> s2; while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (!s2.insert(x).second) continue; if (auto *f = dyn_cast<Function>(x)) o.insert("fn:" + f->getName().str()); else if (auto *u = dyn_cast<User>(x)) for (auto &q : u->operands()) w.push_back(q); } }
        return;
    }
    if (auto *g = dyn_cast<GEPOperator>(v)) { prov(g->getPointerOperand(), o, seen); return; }
    if (auto *l = dyn_cast<LoadInst>(v)) { held(l->getPointerOperand(), o, seen); return; }
    if (isa<AllocaInst>(v)) { o.insert("local"); return; }
    if (auto *c = dyn_cast<CallBase>(v)) {
        if (c->isInlineAsm()) { o.insert("asm"); return; }
        if (auto *f = c->getCalledFunction()) o.insert(f->getName() == "malloc" || f->getName() == "calloc" || f->getName() == "realloc" ? "heap" : "call:" + f->getName().str()); else o.insert("call:(indirect)");
        for (auto &x : c->args()) if (x->getType()->isPointerTy()) prov(x, o, seen);
        return;
    }
    if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) { o.insert("const"); return; }
    if (auto *op = dyn_cast<Operator>(v)) {
        if (op->getOpcode() == Instruction::IntToPtr && isa<ConstantInt>(op->getOperand(0))) { o.insert("int"); return; }
        for (auto &u : op->operands()) prov(u, o, seen);
        return;
    }
    if (isa<Constant>(v)) { o.insert("const"); return; }
    if (auto *u = dyn_cast<User>(v)) { for (auto &x : u->operands()) prov(x, o, seen); return; }
    o.insert("unknown");
}
// where the pointers stored in the memory v points to come from; arg#N* is memory reached through argument N
static void held(const Value *v, Prov &o, std::set<const Value *> &seen) {
    v = v->stripPointerCasts();
    if (auto *g = dyn_cast<GEPOperator>(v)) return held(g->getPointerOperand(), o, seen);
    if (auto *a = dyn_cast<AllocaInst>(v)) { static std::set<const Value *> in; o.insert("local"); if (in.insert(a).second) { storedInto(a, o, seen); in.erase(a); } return; }
    if (isa<PHINode>(v) || isa<SelectInst>(v)) { static std::set<const Value *> in; if (in.insert(v).second) { for (auto &u : cast<User>(v)->operands()) held(u, o, seen); in.erase(v); } return; }
    if (auto *a = dyn_cast<Argument>(v)) if (a->hasByValAttr()) { o.insert("arg#" + std::to_string(argNo(a)) + "*"); return; }
    Prov p; prov(v, p, seen); for (auto &x : p) o.insert(x.rfind("arg#", 0) == 0 && x.back() != '*' ? x + "*" : x);
}
static std::string join(const Prov &p) { std::string s; for (auto &x : p) s += (s.empty() ? "" : ",") + x; return s; }
static std::string list(const Prov &p) { std::string s; for (auto &x : p) s += (s.empty() ? "\"" : ",\"") + esc(x) + "\""; return "[" + s + "]"; }
static const Value *base(const Value *b) { while (true) { b = b->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(b)) b = g->getPointerOperand(); else return b; } }
static const Value *written(const Instruction &I) {
    if (auto *st = dyn_cast<StoreInst>(&I)) return st->getPointerOperand(); if (auto *m = dyn_cast<MemIntrinsic>(&I)) return m->getRawDest();
    if (auto *m = dyn_cast<AtomicRMWInst>(&I)) return m->getPointerOperand(); if (auto *m = dyn_cast<AtomicCmpXchgInst>(&I)) return m->getPointerOperand(); return nullptr;
}
static bool ownFrame(const Value *b) { if (auto *a = dyn_cast<Argument>(b)) return a->hasByValAttr() || a->hasStructRetAttr(); return isa<AllocaInst>(b); }
// may the function write memory other than its own frame (callbacks do not count: they are somebody else)
static bool alters(const Function *f, std::set<const Function *> &seen, std::set<std::string> &ext) {
    if (!seen.insert(f).second) return false; bool r = false;
    for (auto &I : instructions(*f)) {
        if (auto *p = written(I)) if (!ownFrame(base(p))) r = true;
        if (auto *c = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(c)) if (auto *g = c->getCalledFunction()) { if (g->isDeclaration()) ext.insert(g->getName().str()); else r |= alters(g, seen, ext); }
    }
    return r;
}
// can the condition differ from one round to the next because of what the loop itself does?
struct Exit { const Loop *l; bool writes; std::set<const Value *> seen; std::set<std::string> ext; bool narrow = false, wraps = false; };   // ext: only if this outside function does more than look
static bool cast8(const Value *v) { return isa<ZExtInst>(v) || isa<SExtInst>(v); }
static unsigned width(const Value *v) { return v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64; }
static bool steps(const Value *v, const Value *from, const Loop *l, bool arith, int d = 0) {   // is v made from the earlier value of the variable by arithmetic?
    if (v == from) return arith; auto *i = dyn_cast<Instruction>(v); if (!i || !l->contains(i) || d > 8) return false;
    auto *a = dyn_cast<LoadInst>(i), *b = dyn_cast<LoadInst>(from); if (a && b && a->getPointerOperand()->stripPointerCasts() == b->getPointerOperand()->stripPointerCasts()) return arith;
    if (isa<BinaryOperator>(i) || isa<CastInst>(i) || isa<SelectInst>(i) || isa<PHINode>(i)) for (auto &u : i->operands()) if (steps(u, from, l, arith || isa<BinaryOperator>(i), d + 1)) return true;
    return false;
}
static bool counter(const Value *v, const Loop *l, int d = 0) {    // a variable of its own width that the loop counts with
    auto *i = dyn_cast<Instruction>(v); if (!i || !l->contains(i) || d > 6) return false;
    if (auto *p = dyn_cast<PHINode>(i)) { if (p->getParent() != l->getHeader()) return false; for (unsigned n = 0; n < p->getNumIncomingValues(); n++) if (l->contains(p->getIncomingBlock(n)) && steps(p->getIncomingValue(n), p, l, false)) return true; return false; }
    if (auto *x = dyn_cast<LoadInst>(i)) {
        for (auto *b : l->blocks()) for (auto &I : *b) if (auto *st = dyn_cast<StoreInst>(&I)) if (st->getPointerOperand()->stripPointerCasts() == x->getPointerOperand()->stripPointerCasts() && steps(st->getValueOperand(), x, l, false)) return true;
        return false;
    }
    if (isa<BinaryOperator>(i) || isa<CastInst>(i)) { for (auto &u : i->operands()) if (counter(u, l, d + 1)) return true; }
    return false;
}
static unsigned origin(const Value *v, int d = 0) {    // the number of bits a value was made of
    if (cast8(v)) return origin(cast<User>(v)->getOperand(0), d + 1); if (d > 6) return width(v);
    if (auto *c = dyn_cast<ConstantInt>(v)) return c->getValue().getActiveBits();
    if (auto *b = dyn_cast<BinaryOperator>(v)) { unsigned x = origin(b->getOperand(0), d + 1), y = origin(b->getOperand(1), d + 1); switch (b->getOpcode()) { case Instruction::And: return std::min(x, y); case Instruction::URem: case Instruction::SRem: return std::min(x, y); case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: return x; case Instruction::Shl: return width(v); default: return std::max(x, y); } }
    if (auto *b = dyn_cast<SelectInst>(v)) return std::max(origin(b->getOperand(1), d + 1), origin(b->getOperand(2), d + 1));
    return width(v);
}
static bool narrow(const Value *v, const Loop *l) { return cast8(v) && width(cast<User>(v)->getOperand(0)) < 32 && counter(cast<User>(v)->getOperand(0), l); }
// an element of memory of unknown length, chosen by a counter of few bits
static bool openArray(const GetElementPtrInst *g) { auto *b = base(g); return !isa<AllocaInst>(b) && !isa<GlobalVariable>(b) && !g->getSourceElementType()->isArrayTy(); }
static bool walksNarrow(const Value *p, const Loop *l) {
    for (int d = 0; d < 6; d++) { p = p->stripPointerCasts(); auto *g = dyn_cast<GetElementPtrInst>(p); if (!g) return false; for (auto &u : g->indices()) if (narrow(u, l) && openArray(g)) return true; p = g->getPointerOperand(); }
    return false;
}
static bool changes(const Value *v, Exit &x) {
    auto *i = dyn_cast<Instruction>(v); if (!i || !x.l->contains(i) || !x.seen.insert(v).second) return false;
    if (isa<PHINode>(i)) { if (i->getParent() == x.l->getHeader()) return true; }
    if (auto *ld = dyn_cast<LoadInst>(i)) if (x.writes && !walksNarrow(ld->getPointerOperand(), x.l)) return true;
    if (auto *c = dyn_cast<CallBase>(i)) if (!isa<IntrinsicInst>(c)) {
        if (auto *g = c->getCalledFunction()) {
            if (g->isDeclaration()) x.ext.insert(g->getName().str());
            else { std::set<const Function *> s; bool w = alters(g, s, x.ext); if (w || x.writes) return true; }
        }
        for (auto &u : c->args()) if (changes(u, x)) return true;
        return false;
    }
    if (auto *k = dyn_cast<ICmpInst>(i)) for (int n = 0; n < 2; n++) if (auto *u = k->getOperand(n), *o = k->getOperand(1 - n); narrow(u, x.l) && !isa<ConstantInt>(o)) {
        Exit y{x.l, false, {}, {}}; if (!changes(o, y) && origin(o) > width(cast<User>(u)->getOperand(0))) { x.narrow = x.wraps = true; return false; } }
    for (auto &u : i->operands()) {
        if (auto *g = dyn_cast<GetElementPtrInst>(i)) if (u.getOperandNo() && narrow(u, x.l) && openArray(g)) { x.narrow = true; continue; }
        if (changes(u, x)) return true;
    }
    if (auto *p = dyn_cast<PHINode>(i)) for (auto *b : p->blocks()) if (x.l->contains(b)) if (auto *t = b->getTerminator()) for (auto &u : t->operands()) if (changes(u, x)) return true;
    return false;
}
static std::string loc(const DebugLoc &d, const Function &f) { if (!d) return f.getName().str(); return cast<DIScope>(d.getScope())->getFilename().str() + ":" + std::to_string(d.getLine()) + " (" + f.getName().str() + ")"; }
static void loops(Loop *l, Function &f, std::string &out) {
    bool writes = false; std::set<std::string> wext;
    for (auto *b : l->blocks()) for (auto &I : *b) { if (written(I)) writes = true; if (auto *c = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(c)) if (auto *g = c->getCalledFunction()) { std::set<const Function *> s; if (g->isDeclaration()) wext.insert(g->getName().str()); else writes |= alters(g, s, wext); } }
    SmallVector<BasicBlock *, 4> ex; l->getExitingBlocks(ex); std::string st = ex.empty() ? "never" : "stuck", ext; std::set<std::string> e;
    for (auto *b : ex) { Exit x{l, writes, {}, {}}; for (auto &u : b->getTerminator()->operands()) if (changes(u, x)) st = "ok"; if (x.wraps || (x.narrow && st == "stuck")) { st = "narrow"; break; }
        if (st != "ok") { e.insert(x.ext.begin(), x.ext.end()); Exit y{l, true, {}, {}}; bool m = false; for (auto &u : b->getTerminator()->operands()) m |= changes(u, y); if (m) e.insert(wext.begin(), wext.end()); } }
    for (auto &n : e) ext += (ext.empty() ? "\"" : ",\"") + n + "\"";
    out += (out.empty() ? "" : ",") + std::string("{\"where\":\"") + esc(loc(l->getStartLoc(), f)) + "\",\"exit\":\"" + st + "\",\"unless\":[" + (st == "ok" || st == "never" ? "" : ext) + "]}";
    for (auto *s : *l) loops(s, f, out);
}
static std::string summary(Function &f) {
    std::string w, c, d, a, lo; auto add = [](std::string &s, const std::string &x) { s += (s.empty() ? "" : ",") + x; };
    for (auto &I : instructions(f)) {
        if (auto *p = written(I)) { auto *b = base(p); if (!ownFrame(b)) { Prov o; std::set<const Value *> s; prov(b, o, s); add(w, "{\"to\":" + list(o) + ",\"where\":\"" + esc(where(&I)) + "\"}"); } }
        if (auto *al = dyn_cast<AllocaInst>(&I)) if (!al->isStaticAlloca()) add(d, "\"" + esc(where(&I)) + "\"");
        if (auto *cb = dyn_cast<CallBase>(&I)) if (!cb->isInlineAsm() && !isa<IntrinsicInst>(cb)) {
            std::string args; Prov to; std::set<const Value *> s; auto *g = cb->getCalledFunction();
            if (g) to.insert("fn:" + g->getName().str()); else prov(cb->getCalledOperand(), to, s);
            // the arguments by their place in the source, when the callee is here; otherwise as passed
            std::map<int, Prov> by, deep; for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->getArgOperand(k)->getType()->isPointerTy()) {
                int n = g && !g->isDeclaration() && k < g->arg_size() ? argNo(g->getArg(k)) : (int)k; if (n < 0) continue;
                if (!g || g->isDeclaration()) { if (cb->paramHasAttr(k, Attribute::StructRet)) continue; n = k - (cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet)); }
                std::set<const Value *> s2, s3; prov(cb->getArgOperand(k), by[n], s2); held(cb->getArgOperand(k), deep[n], s3); }
            for (auto &x : by) add(args, "\"" + std::to_string(x.first) + "\":[" + list(x.second) + "," + list(deep[x.first]) + "]");
            add(c, "{\"to\":" + list(to) + ",\"args\":{" + args + "},\"where\":\"" + esc(where(&I)) + "\"}");
            if (g && g->getName() == "__gel_assert_begin") {   // what is done until the matching end
                std::set<const BasicBlock *> seen; std::vector<std::pair<const BasicBlock *, BasicBlock::const_iterator>> work{{I.getParent(), std::next(I.getIterator())}}; std::vector<const Instruction *> in;
                while (!work.empty()) { auto [b, it] = work.back(); work.pop_back(); bool end = false;
                    for (; it != b->end(); ++it) { if (auto *q = dyn_cast<CallBase>(&*it)) if (auto *h = q->getCalledFunction()) if (h->getName() == "__gel_assert_end") { end = true; break; } in.push_back(&*it); }
                    if (!end) for (auto *n : successors(b)) if (seen.insert(n).second) work.push_back({n, n->begin()}); }
                std::set<const Instruction *> ins(in.begin(), in.end()); std::string acts;
                for (auto *x : in) {
                    if (auto *p = written(*x)) { auto *b = base(p); bool tmp = isa<AllocaInst>(b); if (tmp) for (auto *u : b->users()) if (auto *ui = dyn_cast<Instruction>(u)) if (!isa<DbgInfoIntrinsic>(ui) && !ins.count(ui)) tmp = false;
                        if (!tmp) add(acts, "{\"what\":\"write\",\"where\":\"" + esc(where(x)) + "\"}"); }
                    if (auto *q = dyn_cast<CallBase>(x)) if (!isa<IntrinsicInst>(q)) { auto *h = q->getCalledFunction(); add(acts, "{\"what\":\"call\",\"fn\":\"" + (h ? h->getName().str() : std::string("(indirect)")) + "\",\"where\":\"" + esc(where(x)) + "\"}"); }
                    if (auto *q = dyn_cast<LoadInst>(x)) if (q->isVolatile()) add(acts, "{\"what\":\"volatile read\",\"where\":\"" + esc(where(x)) + "\"}");
                }
                add(a, "{\"where\":\"" + esc(where(&I)) + "\",\"instructions\":" + std::to_string(in.size()) + ",\"acts\":[" + acts + "]}");
            }
        }
    }
    DominatorTree dt(f); LoopInfo li(dt); for (auto *l : li) loops(l, f, lo);
    auto *sp = f.getSubprogram();
    return "{\"name\":\"" + f.getName().str() + "\",\"local\":" + (f.hasLocalLinkage() ? "1" : "0") + ",\"params\":" + std::to_string(sp && sp->getType() && sp->getType()->getTypeArray() ? sp->getType()->getTypeArray().size() - 1 : f.arg_size()) + ",\"where\":\"" + (sp ? esc(sp->getFilename().str() + ":" + std::to_string(sp->getLine())) : "") + "\",\"writes\":[" + w + "],\"calls\":[" + c + "],\"dynamic\":[" + d + "],\"loops\":[" + lo + "],\"asserts\":[" + a + "]}";
}
int main(int argc, char **argv) {
    LLVMContext C; SMDiagnostic d; auto M = parseIRFile(argv[1], d, C);
    if (!M) { fprintf(stderr, "%s: %s\n", argv[1], d.getMessage().str().c_str()); return 2; }
    std::string prefix = argc > 2 ? argv[2] : "";   // functions whose name starts with it are not library code
    std::string fns;
    auto skip = [&](const Function *f) { return !prefix.empty() && f->getName().starts_with(prefix); };
    printf("{\"globals\":["); const char *sep = "";
    for (auto &g : M->globals()) {
        if (g.getName().starts_with("llvm.") || (!prefix.empty() && g.getName().starts_with(prefix))) continue;
        bool used = false; for (auto *u : g.users()) { if (auto *i = dyn_cast<Instruction>(u)) used |= !skip(i->getFunction()); else used = true; }
        SmallVector<DIGlobalVariableExpression *, 1> e; g.getDebugInfo(e); std::string loc; if (!e.empty()) { auto *v = e[0]->getVariable(); loc = v->getFilename().str() + ":" + std::to_string(v->getLine()) + " " + v->getName().str(); if (auto *sc = dyn_cast_or_null<DISubprogram>(v->getScope())) loc += " in " + sc->getName().str(); }
        printf("%s{\"name\":\"%s\",\"constant\":%d,\"defined\":%d,\"thread_local\":%d,\"local\":%d,\"where\":\"%s\"}", sep, esc(g.getName().str()).c_str(), g.isConstant(), !g.isDeclaration(), g.isThreadLocal(), g.hasLocalLinkage() || g.hasPrivateLinkage(), esc(loc).c_str()); sep = ",";
    }
    printf("],\"functions\":["); sep = ""; std::string calls, uses, writes, asms; unsigned nst = 0, nld = 0, ndirect = 0;
    for (auto &f : *M) {
        if (f.isDeclaration() || skip(&f)) continue;
        printf("%s\"%s\"", sep, f.getName().str().c_str()); sep = ",";
        for (auto &I : instructions(f)) {
            for (auto &u : I.operands()) {   // any mention of a function that is only declared here
                std::vector<const Value *> w{u.get()}; std::set<const Value *> s2;
                while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (!isa<Constant>(x) || !s2.insert(x).second) continue;
                    if (auto *g = dyn_cast<Function>(x)) { if (g->isDeclaration() && !g->isIntrinsic()) uses += std::string(uses.empty() ? "" : ",") + "{\"fn\":\"" + g->getName().str() + "\",\"where\":\"" + esc(where(&I)) + "\"}"; if (g->isIntrinsic() && (g->getIntrinsicID() == Intrinsic::trap || g->getIntrinsicID() == Intrinsic::debugtrap || g->getIntrinsicID() == Intrinsic::ubsantrap)) uses += std::string(uses.empty() ? "" : ",") + "{\"fn\":\"" + g->getName().str() + "\",\"where\":\"" + esc(where(&I)) + "\"}"; }
                    else if (auto *us = dyn_cast<User>(x)) for (auto &q : us->operands()) w.push_back(q); }
            }
            if (auto *cb = dyn_cast<CallBase>(&I)) {
                if (cb->isInlineAsm()) asms += std::string(asms.empty() ? "" : ",") + "\"" + esc(where(&I)) + "\"";
                else if (!cb->getCalledFunction()) { Prov p; std::set<const Value *> s; prov(cb->getCalledOperand(), p, s); calls += std::string(calls.empty() ? "" : ",") + "{\"from\":\"" + join(p) + "\",\"where\":\"" + esc(where(&I)) + "\"}"; }
                else ndirect += !cb->getCalledFunction()->isIntrinsic();
            }
            const Value *dst = nullptr; if (auto *st = dyn_cast<StoreInst>(&I)) dst = st->getPointerOperand(); else if (auto *m = dyn_cast<MemIntrinsic>(&I)) dst = m->getRawDest(); else if (auto *m = dyn_cast<AtomicRMWInst>(&I)) dst = m->getPointerOperand(); else if (auto *m = dyn_cast<AtomicCmpXchgInst>(&I)) dst = m->getPointerOperand();
            if (isa<LoadInst>(&I)) nld++;
            if (dst) { nst++; Prov p; std::set<const Value *> s; const Value *b = dst; while (true) { b = b->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(b)) b = g->getPointerOperand(); else break; }
                if (isa<AllocaInst>(b)) continue; prov(b, p, s); writes += std::string(writes.empty() ? "" : ",") + "{\"to\":\"" + join(p) + "\",\"where\":\"" + esc(where(&I)) + "\"}"; }
        }
    }
    for (auto &f : *M) if (!f.isDeclaration() && !skip(&f)) fns += (fns.empty() ? "" : ",") + summary(f);
    printf("],\"declared\":["); sep = ""; for (auto &f : *M) if (f.isDeclaration() && !f.isIntrinsic() && !f.use_empty()) { printf("%s\"%s\"", sep, f.getName().str().c_str()); sep = ","; }
    printf("],\"indirect\":[%s],\"uses\":[%s],\"writes\":[%s],\"asm\":[%s],\"module_asm\":%d,\"stores\":%u,\"loads\":%u,\"direct_calls\":%u,\"fn\":[%s]}\n", calls.c_str(), uses.c_str(), writes.c_str(), asms.c_str(), !M->getModuleInlineAsm().empty(), nst, nld, ndirect, fns.c_str());
}
