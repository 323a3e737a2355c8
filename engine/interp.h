// Abstract interpreter over LLVM IR: abstract states, memory, and the fixpoint engine.
#pragma once
#include "dom.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>

enum { OBJ_NULL = -1, OBJ_WILD = -2 };
struct V {                       // abstract value
    uint8_t k = 0;               // 0 undef/none, 1 int/float bits, 2 pointer, 3 aggregate
    T t = nullptr;               // int term, or pointer offset (64 bit)
    int obj = OBJ_NULL;
    std::shared_ptr<std::vector<V>> agg;
    bool operator==(const V &o) const {
        if (k != o.k || t != o.t || (k == 2 && obj != o.obj)) return false;
        if (k == 3) { if (agg == o.agg) return true; if (agg->size() != o.agg->size()) return false; for (size_t i = 0; i < agg->size(); i++) if (!((*agg)[i] == (*o.agg)[i])) return false; }
        return true;
    }
};
inline V vInt(T t) { V v; v.k = 1; v.t = t; return v; }
inline V vPtr(int obj, T off) { V v; v.k = 2; v.obj = obj; v.t = off; return v; }

struct Content;
typedef std::shared_ptr<const Content> CSnap;
struct Entry {
    uint8_t kind;                // 0 value, 1 copy, 2 set
    T off, len;                  // 64 bit
    V val;                       // value (kind 0) or byte (kind 2)
    CSnap src; T srcOff = nullptr;   // copy
    bool operator==(const Entry &o) const { return kind == o.kind && off == o.off && len == o.len && val == o.val && src == o.src && srcOff == o.srcOff; }
};
enum Base { B_UNINIT, B_ZERO, B_SYM, B_CONST };
struct Content {
    Base base = B_UNINIT; std::string name; unsigned gran = 1;
    const llvm::GlobalVariable *gv = nullptr; u64 sizeC = 0;
    std::vector<Entry> log;
    bool same(const Content &o) const { return base == o.base && name == o.name && gv == o.gv && log == o.log; }
};
struct Obj {
    std::string name; T size; int kind = 0;  // 0 stack 1 global 2 heap 3 func 4 contract object
    const llvm::Function *fn = nullptr; bool ro = false; bool freed = false; unsigned uid = 0; u64 align = 16;   // of the base address
    std::shared_ptr<Content> c;
};
struct Frame {
    const llvm::Function *f = nullptr; const llvm::BasicBlock *bb = nullptr, *prev = nullptr;
    llvm::BasicBlock::const_iterator it;
    std::vector<V> regs; std::vector<int> allocas; std::vector<int> iters;   // iteration count per loop index
    uint8_t hook = 0;            // 1: this frame is an interference callback: re-execute caller instruction; 2: callback after a store
};
struct TraceNode { std::shared_ptr<TraceNode> up; std::string s; };
struct Hook { int obj; u64 off, size; const llvm::Function *cb; bool store; };
struct KeyCell { int obj; T off; unsigned size; int bit; };
struct State {
    std::vector<Frame> fr;
    std::vector<std::shared_ptr<Obj>> mem;
    Facts facts;
    std::shared_ptr<TraceNode> trace;
    std::map<std::string, int> names;
    std::vector<int> tags;
    std::vector<Hook> hooks; bool hookDone = false; bool inHook = false;
    int loopMode = 0; int loopCap = 160;
    bool mallocMayFail = false;
    std::string stop;   // gel_must_stop: the call under way has to end in an assertion
    std::string stopAt;
    std::vector<KeyCell> keys;
    std::vector<std::pair<T, T>> hints;
    bool done = false;
};
typedef std::shared_ptr<State> S;
struct ForkEx { T cond; };
struct Violation { std::string msg; };
struct Incomplete { std::string msg; };
