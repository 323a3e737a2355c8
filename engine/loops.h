// Joins of abstract states at control-flow merge points.
static bool refuteState(State &s) { return s.facts.infeasible; }
static bool sameShape(const State &a, const State &b) {
    if (a.fr.size() != b.fr.size() || a.mem.size() != b.mem.size() || a.tags != b.tags || a.hookDone != b.hookDone || a.inHook != b.inHook) return false;
    if (a.names != b.names || a.hooks.size() != b.hooks.size() || a.loopMode != b.loopMode || a.loopCap != b.loopCap) return false;
    for (size_t i = 0; i < a.fr.size(); i++) if (a.fr[i].f != b.fr[i].f || a.fr[i].bb != b.fr[i].bb || a.fr[i].it != b.fr[i].it || a.fr[i].allocas != b.fr[i].allocas) return false;
    return true;
}
static bool sameContent(const Content &a, const Content &b) { return &a == &b || a.same(b); }
static std::vector<int> liveSlots(Frame &f, bool top) {
    FnInfo &in = info(f.f);
    if (top && (f.it == f.bb->begin() || isa<PHINode>(*std::prev(f.it)))) { std::vector<int> v = in.liveIn[f.bb]; for (auto &p : f.bb->phis()) { int sl = in.slot[&p]; if (std::find(v.begin(), v.end(), sl) == v.end()) v.push_back(sl); } return v; }
    std::vector<int> v; for (int i = 0; i < in.n; i++) v.push_back(i); return v;
}
static bool sameValues(State &a, State &b) {
    for (size_t i = 0; i < a.fr.size(); i++) {
        auto ls = liveSlots(a.fr[i], i + 1 == a.fr.size());
        for (int sl : ls) if (!(a.fr[i].regs[sl] == b.fr[i].regs[sl])) return false;
    }
    for (size_t i = 0; i < a.mem.size(); i++) {
        if (a.mem[i] == b.mem[i]) continue;
        if (!a.mem[i] || !b.mem[i]) return false;
        Obj &x = *a.mem[i], &y = *b.mem[i];
        if (x.name != y.name || x.size != y.size || x.freed != y.freed || x.ro != y.ro || x.uid != y.uid || !sameContent(*x.c, *y.c)) return false;
    }
    return true;
}
static bool complementary(const Con &a, const Con &b) {
    if (a.kind == 0 && b.kind == 0) { Lin s = a.e; s.addLin(b.e, 1); return s.v.empty() && s.c == -1; }
    if ((a.kind == 1 && b.kind == 2) || (a.kind == 2 && b.kind == 1)) { if (a.e == b.e) return true; Lin s = a.e; s.addLin(b.e, 1); return s.v.empty() && s.c == 0; }
    return false;
}
// exact join only: subsumption, or facts that differ in one complementary constraint
static bool exactJoin0(State &a, State &b) {
    if (a.facts.frel != b.facts.frel || a.facts.fnan != b.facts.fnan) return false;
    std::vector<Con> da, db;
    for (auto &c : a.facts.cons) if (std::find(b.facts.cons.begin(), b.facts.cons.end(), c) == b.facts.cons.end()) da.push_back(c);
    for (auto &c : b.facts.cons) if (std::find(a.facts.cons.begin(), a.facts.cons.end(), c) == a.facts.cons.end()) db.push_back(c);
    bool bits = a.facts.bits == b.facts.bits && a.facts.boolFacts == b.facts.boolFacts;
    if (bits && db.empty()) { a.facts = b.facts; return true; }
    if (bits && da.empty()) return true;
    if (bits && da.size() == 1 && db.size() == 1 && complementary(da[0], db[0])) {
        a.facts.cons.erase(std::find(a.facts.cons.begin(), a.facts.cons.end(), da[0])); return true;
    }
    if (!bits && da.size() <= 1 && db.size() <= 1 && (da.empty() || db.empty() || complementary(da[0], db[0]))) {
        // one two-valued condition recorded in the bit view as well
        auto dec1 = [](const Facts &x, const Facts &y, std::vector<std::pair<u32, Poly>> &o) { for (auto &kv : x.bits) { auto i = y.bits.find(kv.first); if (i == y.bits.end() || i->second != kv.second) o.push_back(kv); } };
        std::vector<std::pair<u32, Poly>> ba, bb; dec1(a.facts, b.facts, ba); dec1(b.facts, a.facts, bb);
        std::vector<std::pair<T, int>> fa, fb;
        for (auto &x : a.facts.boolFacts) if (!b.facts.boolFacts.count(x)) fa.push_back(x);
        for (auto &x : b.facts.boolFacts) if (!a.facts.boolFacts.count(x)) fb.push_back(x);
        bool ok = ba.size() <= 1 && bb.size() <= 1 && ba.size() + bb.size() == 2 && ba[0].first == bb[0].first && fa.empty() && fb.empty();
        if (ok) { Poly d = polyXor(ba[0].second, bb[0].second); int v; ok = polyIsConst(d, v) && v == 1; }
        if (ok && da.size() == db.size()) { a.facts.bits.erase(ba[0].first); if (!da.empty()) a.facts.cons.erase(std::find(a.facts.cons.begin(), a.facts.cons.end(), da[0])); return true; }
    }
    return false;
}
static bool exactJoin(State &a, State &b) {
    std::map<u32, i128> pins; for (auto &p : a.facts.pins) { auto i = b.facts.pins.find(p.first); if (i != b.facts.pins.end() && i->second == p.second) pins.insert(p); }
    if (!exactJoin0(a, b)) return false;
    a.facts.pins = pins; a.facts.pinTried.clear(); return true;
}
static u32 conId(const Con &c) {
    static std::map<Con, u32> ids; auto it = ids.find(c); if (it != ids.end()) return it->second; u32 n = ids.size() + 1; ids.emplace(c, n); return n;
}
static void mergeStates(std::vector<S> &v) {
    if (v.size() < 2) return;
    if (v.size() > 6000) throw Incomplete{"too many disjuncts"};
    std::vector<std::vector<u32>> ids(v.size());
    auto sig = [&](size_t i) { ids[i].clear(); for (auto &c : v[i]->facts.cons) ids[i].push_back(conId(c)); std::sort(ids[i].begin(), ids[i].end()); };
    for (size_t i = 0; i < v.size(); i++) sig(i);
    auto few = [&](size_t a, size_t b) {   // at most one constraint more on each side
        size_t i = 0, j = 0; int da = 0, db = 0; auto &x = ids[a], &y = ids[b];
        while (i < x.size() || j < y.size()) {
            if (j == y.size() || (i < x.size() && x[i] < y[j])) { da++; i++; } else if (i == x.size() || y[j] < x[i]) { db++; j++; } else { i++; j++; }
            if (da > 1 && db > 1) return false;
        }
        return da == 0 || db == 0 || (da == 1 && db == 1);
    };
    std::vector<char> dead(v.size());
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < v.size(); i++) if (!dead[i]) for (size_t j = i + 1; j < v.size(); j++) {
            if (dead[j] || !few(i, j) || !sameShape(*v[i], *v[j]) || !sameValues(*v[i], *v[j])) continue;
            S c = std::make_shared<State>(*v[i]);
            if (exactJoin(*c, *v[j])) { v[i] = c; sig(i); dead[j] = 1; nJoins++; ch = true; j = i; }
        }
    }
    size_t k = 0; for (size_t i = 0; i < v.size(); i++) if (!dead[i]) v[k++] = v[i]; v.resize(k);
}
// ---- lossy join at loop headers (gel_loop_mode(1)): values that differ become fresh, facts are intersected.
// Keyed cells (gel_key) are never blurred: states that differ there stay separate disjuncts.
static V loadMem(State &s, const V &p, unsigned size);
static V readRange(State &s, const Content &c, int from, T off, unsigned size);
static T freshJoin(unsigned w) { static u64 n; return mkNamed(w, "join:" + std::to_string(n++)); }
static const std::vector<T> &bitsOfTerm(T x) {
    static std::unordered_map<T, std::vector<T>> memo; auto it = memo.find(x); if (it != memo.end()) return it->second;
    std::vector<T> v; for (unsigned i = 0; i < x->w; i++) v.push_back(mkExtr(x, i, 1));
    return memo.emplace(x, std::move(v)).first->second;
}
static bool joinInt(const State &a, T x, T y, T &o) {
    if (x == y) { o = x; return true; }
    if (x->w != y->w) return false;
    if (x->w > 64) return false;
    unsigned w = x->w; auto &bx = bitsOfTerm(x), &by = bitsOfTerm(y);
    for (auto &k : a.keys) if (k.obj == OBJ_NULL && k.bit >= 0 && (unsigned)k.bit < w) { T p = bx[k.bit], q = by[k.bit]; if (p != q && isC(p) && isC(q)) return false; }
    std::vector<T> run;
    for (unsigned i = 0; i < w;) {
        unsigned j = i + 1;
        if (bx[i] == by[i]) { while (j < w && bx[j] == by[j]) j++; run.push_back(mkExtr(x, i, j - i)); }
        else { while (j < w && bx[j] != by[j]) j++; run.push_back(freshJoin(j - i)); }
        i = j;
    }
    o = run.size() == 1 ? run[0] : mkConcat(run); return true;
}
static bool joinV(const State &a, const V &x, const V &y, V &o) {
    if (x == y) { o = x; return true; }
    if (x.k == 0 || y.k == 0) { o = V(); return true; }
    if (x.k != y.k) return false;
    if (x.k == 1) { o = x; return joinInt(a, x.t, y.t, o.t); }
    if (x.k == 2 && x.obj == y.obj) { o = x; o.t = freshJoin(64); return true; }
    return false;
}
static bool joinContent(State &a, const Content &x, const Content &y, Content &o) {
    if (x.base != y.base || x.name != y.name || x.gv != y.gv || x.gran != y.gran || x.sizeC != y.sizeC) return false;
    size_t p = 0; while (p < x.log.size() && p < y.log.size() && x.log[p] == y.log[p]) p++;
    std::set<std::pair<u64, u64>> cells;
    for (auto *c : {&x, &y}) for (size_t i = p; i < c->log.size(); i++) { auto &e = c->log[i]; if (e.kind != 0 || !isC(e.off) || !isC(e.len)) return false; cells.insert({e.off->k, e.len->k}); }
    u64 end = 0; for (auto &c : cells) { if (c.first < end) return false; end = c.first + c.second; }
    o = x; o.log.resize(p);
    for (auto &c : cells) {
        if (c.second > 8) return false;
        V u = readRange(a, x, (int)x.log.size() - 1, c64(c.first), c.second), v = readRange(a, y, (int)y.log.size() - 1, c64(c.first), c.second);
        Entry e; e.kind = 0; e.off = c64(c.first); e.len = c64(c.second);
        if (!joinV(a, u, v, e.val)) return false;
        o.log.push_back(e);
    }
    return true;
}
static void meetFacts(Facts &a, Facts &b) {   // keeps what holds in both
    Facts r; std::vector<Con> extra;
    for (auto &c : a.cons) { if (std::find(b.cons.begin(), b.cons.end(), c) != b.cons.end()) r.cons.push_back(c); else extra.push_back(c); }
    for (auto &c : extra) { bool k = c.kind == 0 ? b.entailsGE(c.e) : c.kind == 1 ? b.entailsEQ0(c.e) : false; if (k) r.cons.push_back(c); }
    for (auto &p : a.bits) { auto i = b.bits.find(p.first); if (i != b.bits.end() && i->second == p.second) r.bits.insert(p); }
    for (auto &p : a.frel) { auto i = b.frel.find(p.first); if (i != b.frel.end()) r.frel[p.first] = p.second | i->second; }
    for (auto &p : a.fnan) { auto i = b.fnan.find(p.first); if (i != b.fnan.end() && i->second == p.second) r.fnan.insert(p); }
    for (auto &p : a.boolFacts) if (b.boolFacts.count(p)) r.boolFacts.insert(p);
    for (auto &p : a.pins) { auto i = b.pins.find(p.first); if (i != b.pins.end() && i->second == p.second) r.pins.insert(p); }
    a = r;
}
static bool lossyJoin(State &a, State &b) {
    if (!sameShape(a, b) || a.keys.size() != b.keys.size()) return false;
    std::vector<std::pair<std::pair<size_t, int>, V>> regs; std::vector<std::pair<size_t, Content>> mems;
    for (size_t i = 0; i < a.fr.size(); i++) for (int sl : liveSlots(a.fr[i], i + 1 == a.fr.size())) {
        V &x = a.fr[i].regs[sl], &y = b.fr[i].regs[sl]; if (x == y) continue;
        V o; if (!joinV(a, x, y, o)) return false; regs.push_back({{i, sl}, o});
    }
    for (size_t i = 0; i < a.mem.size(); i++) {
        if (a.mem[i] == b.mem[i]) continue; if (!a.mem[i] || !b.mem[i]) return false;
        Obj &x = *a.mem[i], &y = *b.mem[i];
        if (x.name != y.name || x.size != y.size || x.freed != y.freed || x.ro != y.ro || x.uid != y.uid) return false;
        if (sameContent(*x.c, *y.c)) continue;
        Content o; if (!joinContent(a, *x.c, *y.c, o)) return false; mems.push_back({i, o});
    }
    for (auto &r : regs) a.fr[r.first.first].regs[r.first.second] = r.second;
    for (auto &m : mems) { auto o = std::make_shared<Obj>(*a.mem[m.first]); o->c = std::make_shared<Content>(m.second); a.mem[m.first] = o; }
    meetFacts(a.facts, b.facts);
    return true;
}
static void lossyMerge(std::vector<S> &v) {
    if (v.size() < 2) return;
    auto &f = v[0]->fr.back(); if (v[0]->loopMode != 1 || !info(f.f).headerOf.count(f.bb) || info(f.f).contract) return;
    std::vector<S> out; std::vector<bool> own; std::map<std::vector<T>, std::vector<size_t>> groups;
    for (auto &x : v) {
        std::vector<T> sig; bool ok = true;
        try { for (auto &k : x->keys) if (k.obj != OBJ_NULL) { V c = loadMem(*x, vPtr(k.obj, k.off), k.size); if (c.k != 1) ok = false; else sig.push_back(k.bit < 0 ? c.t : bitsOfTerm(c.t)[k.bit]); } }
        catch (ForkEx &) { ok = false; } catch (Violation &) { ok = false; } catch (Incomplete &) { ok = false; }
        bool done = false;
        if (ok) for (size_t q : groups[sig]) {
            if (!own[q]) { out[q] = std::make_shared<State>(*out[q]); own[q] = true; }
            try { done = lossyJoin(*out[q], *x); } catch (ForkEx &) {} catch (Violation &) {} catch (Incomplete &) {}
            if (done) { nLossy++; break; }
        }
        if (!done) { out.push_back(x); own.push_back(false); if (ok) groups[sig].push_back(out.size() - 1); }
    }
    v = out;
}
