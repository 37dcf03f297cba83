// Abstract interpreter over LLVM IR, specialised for mickjc750/str.
#include "state.h"
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
#include <cstdio>
#include <functional>
#include <iostream>
#include <sstream>
#include <csignal>
#include <unordered_set>

static const I I64 = (I)1 << 64;
static I p2(int w) { return (I)1 << w; }
static I smin(int w) { return -p2(w - 1); }
static I smax(int w) { return p2(w - 1) - 1; }

struct Atom { int kind; Lin e; int bs; CSet cs; int b2 = 0, kt = 0; }; // 0: e>=0  1: e==0  2: byte symbol in set  3/4: kt(bs) equals / differs from kt(b2)
struct Split { std::vector<std::vector<Atom>> alts; };
struct Choose { int n; };
struct PathEnd {};
struct Budget { std::string why; };

struct FnInfo {
  std::unordered_map<const Value *, int> num; int n = 0;
  std::unordered_map<const BasicBlock *, int> rpo;
  std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
  std::unordered_map<const BasicBlock *, std::vector<char>> liveIn;
};
struct Alarm { std::string cat, file, func, msg; int line; std::vector<std::string> stack, trace; std::string entry, lastRet, state; bool definite = false; };
struct Ob { uint64_t n = 0, bad = 0; };

static std::vector<std::vector<int64_t>> tables;
static std::map<std::vector<int64_t>, int> tableIx;
static int internTable(const std::vector<int64_t> &t) { auto it = tableIx.find(t); if (it != tableIx.end()) return it->second; tables.push_back(t); return tableIx[t] = (int)tables.size() - 1; }

struct Ctx { Loop *loop = nullptr; std::vector<State> *rets = nullptr; std::vector<State> *backs = nullptr; std::vector<std::pair<const BasicBlock *, State>> *exits = nullptr; };

static int PW = 64; // width of pointers
struct An {
  Module &M; const DataLayout &DL;
  std::unordered_map<const Function *, std::unique_ptr<FnInfo>> infos;
  int nextSym = 1, nextK = 1, nextBs = 1;
  std::map<int, const GlobalVariable *> Kgv; std::map<const GlobalVariable *, int> gvK;
  std::map<int, std::string> Kname;
  int quiet = 0; int tuning = 0; /* -T: how long loop invariants keep exact shapes before being widened (any value is sound) */ uint64_t steps = 0, maxSteps = 3000000; double deadline = 1e18;
  std::map<std::string, Alarm> alarms; std::map<std::pair<std::string, std::string>, Ob> obs; // (cat, site)
  std::set<const BasicBlock *> covered; std::set<std::string> unmodelled;
  uint64_t nStates = 0, nJoins = 0, nLoops = 0, maxPart = 0, nSplits = 0; std::string curEntry; bool debug = false; int unrollDefault = 6;
  std::vector<char> idTable; int identTab;
  size_t mergeAt = 400; int bound = 0; // bound > 0: every range of sizes is cut to its first values and every loop is unrolled completely
  An(Module &m) : M(m), DL(m.getDataLayout()) { PW = (int)DL.getPointerSizeInBits(); std::vector<int64_t> t(256); for (int i = 0; i < 256; i++) t[i] = (int8_t)i; identTab = internTable(t); }

  FnInfo &info(const Function *F) {
    auto &p = infos[F]; if (p) return *p; p = std::make_unique<FnInfo>(); FnInfo &f = *p;
    for (auto &a : F->args()) f.num[&a] = f.n++;
    for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) f.num[&i] = f.n++;
    f.DT = std::make_unique<DominatorTree>(*const_cast<Function *>(F)); f.LI = std::make_unique<LoopInfo>(*f.DT);
    { ReversePostOrderTraversal<const Function *> R(F); int k = 0; for (auto *b : R) f.rpo[b] = k++; for (auto &b : *F) if (!f.rpo.count(&b)) f.rpo[&b] = k++; }
    for (auto &bb : *F) f.liveIn[&bb] = std::vector<char>(f.n, 0);
    for (bool ch = true; ch;) { ch = false;
      for (auto it = F->end(); it != F->begin();) { --it; const BasicBlock *bb = &*it; std::vector<char> live(f.n, 0);
        for (auto *s : successors(bb)) { auto &l = f.liveIn[s]; for (int i = 0; i < f.n; i++) live[i] |= l[i]; for (auto &ph : s->phis()) { live[f.num[&ph]] = 0; } }
        for (auto *s : successors(bb)) for (auto &ph : s->phis()) { const Value *v = ph.getIncomingValueForBlock(bb); auto q = f.num.find(v); if (q != f.num.end()) live[q->second] = 1; }
        // phi results of successors that are live-in there through a path not via phi are handled by dominance
        for (auto ii = bb->rbegin(); ii != bb->rend(); ++ii) { auto q = f.num.find(&*ii); if (q != f.num.end()) live[q->second] = 0; if (isa<PHINode>(*ii)) { live[f.num[&*ii]] = 1; continue; } for (auto &op : ii->operands()) { auto q2 = f.num.find(op.get()); if (q2 != f.num.end()) live[q2->second] = 1; } }
        auto &cur = f.liveIn[bb]; if (cur != live) { cur = live; ch = true; } } }
    return f;
  }
  // ---------------------------------------------------------------- numeric state
  int newSym(State &S) { (void)S; return nextSym++; }
  Lin fresh(State &S, I lo, I hi) { int s = nextSym++; auto &b = S.P.b[s]; b.hl = b.hu = true; b.lo = lo; b.hi = hi; return Lin::sym(s); }
  AV freshInt(State &S, int w, bool uns = false) { return AV::mkInt(w, uns ? fresh(S, 0, p2(w) - 1) : w == 1 ? fresh(S, 0, 1) : fresh(S, smin(w), smax(w)), uns || w == 1); }
  // symbols that stand for results the domains cannot express; a decision on one of them makes a path vague
  std::unordered_set<int> impS; uint64_t ovfMark = 0; bool splitVague = false;
  Lin imp(Lin l) { for (auto &p : l.t) impS.insert(p.first); return l; }
  AV impInt(State &S, int w, bool uns = false) { AV a = freshInt(S, w, uns); imp(a.e); return a; }
  bool isImp(const Lin &e) { if (!impS.empty()) for (auto &p : e.t) if (impS.count(p.first)) return true; return false; }
  void subst(State &S, int s, const Lin &e) {

    auto f = [&](Lin &l) { substLin(l, s, e); };
    for (auto &F : S.fr) for (auto &a : F.env) avLins(a, f);
    for (auto &p : S.packs) for (auto &a : p) avLins(a, f);
    for (size_t i = 0; i < S.rg.size(); i++) if (S.rg[i]) { bool has = false; auto t = [&](Lin &l) { if (l.coef(s)) has = true; }; regionLins(const_cast<Region &>(*S.rg[i]), t); if (has) regionLins(S.R(i), f); }
    for (auto &sn : S.snaps) { f(sn.len); for (auto &g : sn.segs) segLins(g, f); }
    for (auto &g : S.ghost) avLins(g.second, f);
    avLins(S.ret, f);
    factLins(S, f);
    { std::map<std::pair<Lin, int>, int> nb; for (auto &x : S.bits) { Lin l = x.first.first; f(l); nb[{l, x.first.second}] = x.second; } S.bits.swap(nb); }
    { std::map<std::pair<Lin, I>, Lin> nb; for (auto &x : S.divs) { Lin l = x.first.first, v = x.second; f(l); f(v); if (!l.isConst()) nb[{l, x.first.second}] = v; } S.divs.swap(nb); }
    for (auto &x : S.elim) f(x.second);
    if (s < S.elimKeep) S.elim[s] = e;
    std::vector<Lin> ge; ge.swap(S.P.ge); std::vector<Lin> eq; eq.swap(S.P.eq);
    Bnd bd; auto it = S.P.b.find(s); if (it != S.P.b.end()) { bd = it->second; S.P.b.erase(it); }
    for (auto &g : ge) { f(g); S.P.addGe(g); }
    if (bd.hl) { Lin x = e; x.c = isub(x.c, bd.lo); S.P.addGe(x); }
    if (bd.hu) { Lin x = -e; x.c = iadd(x.c, bd.hi); S.P.addGe(x); }
    for (auto &q : eq) { f(q); assumeEq(S, q); }
    fixBounds(S);
  }
  void fixBounds(State &S) { // substitute symbols pinned to a constant
    for (auto &x : S.P.b) if (x.second.hl && x.second.hu && x.second.lo == x.second.hi) { int s = x.first; I v = x.second.lo; subst(S, s, Lin(v)); return; }
  }
  void assumeEq(State &S, Lin e) {
    if (e.isConst()) { if (e.c) throw Infeasible(); return; }
    I g = 0; for (auto &p : e.t) g = igcd(g, p.second);
    if (g > 1) { if (e.c % g) throw Infeasible(); for (auto &p : e.t) p.second /= g; e.c /= g; }
    if (e.t.size() > 1) { I v; if ((S.P.lower(e, v) && v == 0) || (S.P.upper(e, v) && v == 0)) { // every term is at its end
      bool low = S.P.lower(e, v) && v == 0; std::vector<std::pair<int, I>> fix; for (auto &p : e.t) { auto &bd = S.P.b[p.first]; fix.push_back({p.first, (p.second > 0) == low ? bd.lo : bd.hi}); }
      for (auto &x : fix) { if (S.P.b.count(x.first)) subst(S, x.first, Lin(x.second)); } return; } }
    for (int i = (int)e.t.size() - 1; i >= 0; i--) if (iabs(e.t[i].second) == 1) { int s = e.t[i].first; I k = e.t[i].second; Lin r; r.c = e.c; for (auto &p : e.t) if (p.first != s) r.t.push_back(p); r = r * (-k); subst(S, s, r); return; }
    S.P.eq.push_back(e);
  }
  void assumeGe(State &S, Lin e) {
    Poly::normalise(e);
    if (e.isConst()) { if (e.c < 0) throw Infeasible(); return; }
    if (S.P.entails(e)) return;
    Lin ne = -e; Lin n1 = ne; n1.c = isub(n1.c, 1);
    if (S.P.entails(n1)) throw Infeasible();
    if (S.P.entails(ne)) { assumeEq(S, e); return; }
    S.P.addGe(e);
    bool big = false; for (auto &p : e.t) if (p.second > 2 || p.second < -2) big = true;
    if (big && e.t.size() > 1) { // weighted sums of digits: what is left for each of the symbols
      for (auto &p : e.t) { try { Lin rest = e; for (auto it = rest.t.begin(); it != rest.t.end(); ++it) if (it->first == p.first) { rest.t.erase(it); break; } I hi; if (!S.P.upper(rest, hi)) continue; Lin one; one.t.push_back(p); one.c = hi; S.P.addGe(one); } catch (Ovf) {} }
    }
    fixBounds(S);
  }
  bool decideGe(State &S, const Lin &e) {
    if (S.P.entails(e)) return true;
    Lin n = -e; n.c = isub(n.c, 1);
    if (S.P.entails(n)) return false;
    if (isImp(e)) splitVague = true;
    throw Split{{{Atom{0, e, 0, {}}}, {Atom{0, n, 0, {}}}}};
  }
  bool decideEq(State &S, const Lin &e) {
    if (e.isConst()) return e.c == 0;
    I g = 0; for (auto &p : e.t) g = igcd(g, p.second);
    if (g > 1 && e.c % g) return false;
    Lin gt = e; gt.c = isub(gt.c, 1); Lin lt = -e; lt.c = isub(lt.c, 1);
    if (S.P.entails(gt) || S.P.entails(lt)) return false;
    bool ge = S.P.entails(e), le = S.P.entails(-e);
    if (ge && le) return true;
    if (isImp(e)) splitVague = true;
    { int b1, b2, t; if (isTabDiff(S, e, b1, b2, t)) { int k = kernelOf(t), c = knownRel(S, k, b1, b2); if (c == 0 && !ge && !le) { throw Split{{{Atom{0, gt, 0, {}}}, {Atom{0, lt, 0, {}}}}}; } if (c == 0) return false; if (c == 1) throw Split{{{Atom{1, e, 0, {}}}}};
        Atom q{3, {}, b1, {}}, n{4, {}, b1, {}}; q.b2 = n.b2 = b2; q.kt = n.kt = k; Split sp; sp.alts.push_back({q, Atom{1, e, 0, {}}}); if (!le) sp.alts.push_back({n, Atom{0, gt, 0, {}}}); if (!ge) sp.alts.push_back({n, Atom{0, lt, 0, {}}}); throw sp; } }
    Split sp; sp.alts.push_back({Atom{1, e, 0, {}}});
    if (!le) sp.alts.push_back({Atom{0, gt, 0, {}}});
    if (!ge) sp.alts.push_back({Atom{0, lt, 0, {}}});
    throw sp;
  }
  int choose(State &S, int n) {
    if (n <= 1) return 0;
    if (S.rpos < S.replay.size()) return S.replay[S.rpos++];
    throw Choose{n};
  }
  // ---- equality of byte symbols up to a table
  std::map<int, int> kernels; std::map<std::pair<int, int>, bool> finer_;
  int kernelOf(int t) { auto it = kernels.find(t); if (it != kernels.end()) return it->second; std::vector<int64_t> k(256); for (int c = 0; c < 256; c++) { k[c] = c; for (int d = 0; d < c; d++) if (tables[t][d] == tables[t][c]) { k[c] = d; break; } } int r = internTable(k); kernels[t] = r; return r; }
  bool finer(int k, int k2) { if (k == k2) return true; auto q = std::make_pair(k, k2); auto it = finer_.find(q); if (it != finer_.end()) return it->second; std::map<int64_t, int64_t> m; bool ok = true; for (int c = 0; c < 256 && ok; c++) { auto j = m.insert({tables[k][c], tables[k2][c]}); if (j.first->second != tables[k2][c]) ok = false; } return finer_[q] = ok; } // k-equal implies k2-equal
  bool injective(int k) { for (int c = 0; c < 256; c++) if (tables[k][c] != c) return false; return true; }
  CSet image(int k, const CSet &c) { CSet r; for (int i = 0; i < 256; i++) if (c[i]) r.set((size_t)tables[k][i]); return r; }
  CSet preimage(int k, const CSet &c) { CSet r; for (int i = 0; i < 256; i++) if (c[(size_t)tables[k][i]]) r.set(i); return r; }
  bool isTabDiff(State &S, const Lin &e, int &b1, int &b2, int &t) {
    if (e.c || e.t.size() != 2) return false; if (!((e.t[0].second == 1 && e.t[1].second == -1) || (e.t[0].second == -1 && e.t[1].second == 1))) return false;
    for (auto &x : S.tabLin) if (x.second == Lin::sym(e.t[0].first)) { auto y = Lin::sym(e.t[1].first); for (auto &z : S.tabLin) if (z.first.second == x.first.second && z.second == y && z.first.first != x.first.first && S.bs.count(x.first.first) && S.bs.count(z.first.first)) { b1 = x.first.first; b2 = z.first.first; t = x.first.second; return true; } }
    return false;
  }
  int knownRel(State &S, int k, int b1, int b2) { // 1 equal, 0 different, -1 unknown
    if (b1 == b2) return 1; if (b1 > b2) std::swap(b1, b2);
    CSet i1 = image(k, S.bs[b1]), i2 = image(k, S.bs[b2]); if ((i1 & i2).none()) return 0; if (i1.count() == 1 && i2.count() == 1) return 1;
    for (auto &x : S.rel) if (x.first[1] == b1 && x.first[2] == b2) { if (x.second && finer(x.first[0], k)) return 1; if (!x.second && finer(k, x.first[0])) return 0; }
    for (auto &x : S.tabLin) if (x.first.first == b1) { auto it = S.tabLin.find({b2, x.first.second}); if (it == S.tabLin.end()) continue; Lin d = x.second - it->second; int kt = kernelOf(x.first.second); if (finer(k, kt)) { Lin g = d, l = -d; g.c = isub(g.c, 1); l.c = isub(l.c, 1); if (d.isConst() ? d.c != 0 : S.P.entails(g) || S.P.entails(l)) return 0; } if (finer(kt, k) && (d.isConst() ? d.c == 0 : S.P.entailsEq(d))) return 1; }
    return -1;
  }
  bool decideTabEq(State &S, int t, int b1, int b2) {
    int k = kernelOf(t), c = knownRel(S, k, b1, b2); if (c >= 0) return c;
    Atom q{3, {}, b1, {}}, n{4, {}, b1, {}}; q.b2 = n.b2 = b2; q.kt = n.kt = k; throw Split{{{q}, {n}}};
  }
  void renameByte(State &S, int from, int to) {
    std::function<void(AV &)> g = [&](AV &a) { if (a.k == AV::Tab && a.s == from) a.s = to; if (a.k == AV::Agg) { bool h = false; std::function<void(const AV &)> q = [&](const AV &x) { if (x.k == AV::Tab && x.s == from) h = true; if (x.k == AV::Agg) for (auto &y : *x.agg) q(y); }; q(a); if (h) { a.agg = std::make_shared<std::vector<AV>>(*a.agg); for (auto &x : const_cast<std::vector<AV> &>(*a.agg)) g(x); } } };
    for (auto &F : S.fr) for (auto &a : F.env) g(a); for (auto &p : S.packs) for (auto &a : p) g(a);
    for (size_t i = 0; i < S.rg.size(); i++) if (S.rg[i]) { bool h = false; for (auto &c : S.r((int)i).cells) if (c.second.v.k == AV::Tab || c.second.v.k == AV::Agg) h = true; for (auto &s : S.r((int)i).segs) if (s.d.k == Desc::Val) h = true; if (!h) continue; Region &R = S.R((int)i); for (auto &c : R.cells) g(c.second.v); for (auto &s : R.segs) if (s.d.k == Desc::Val) g(s.d.val); }
    for (auto &x : S.ghost) g(x.second); g(S.ret); for (auto &sn : S.snaps) for (auto &s : sn.segs) if (s.d.k == Desc::Val) g(s.d.val);
    for (auto &f : S.facts) if (f.bs == from) f.bs = to;
  }
  void relate(State &S, int k, int b1, int b2, bool eq) {
    if (b1 == b2) { if (!eq) throw Infeasible(); return; } if (b1 > b2) std::swap(b1, b2);
    if (!S.bs.count(b1) || !S.bs.count(b2)) { CSet all; all.set(); if (!S.bs.count(b1)) S.bs[b1] = all; if (!S.bs.count(b2)) S.bs[b2] = all; }
    if (eq && injective(k)) {
      CSet c1 = S.bs[b1], c2 = S.bs[b2]; restrictCS(S, b1, c2); restrictCS(S, b2, c1);
      renameByte(S, b2, b1); S.bs.erase(b2);
      std::vector<Lin> eqs; for (auto it = S.tabLin.begin(); it != S.tabLin.end();) { if (it->first.first == b2) { auto q = std::make_pair(b1, it->first.second); Lin v = it->second; auto jt = S.tabLin.find(q); if (jt != S.tabLin.end()) eqs.push_back(jt->second - v); else S.tabLin[q] = v; it = S.tabLin.erase(it); } else ++it; }
      std::map<std::array<int, 3>, bool> nr; for (auto &x : S.rel) { int u = x.first[1] == b2 ? b1 : x.first[1], v = x.first[2] == b2 ? b1 : x.first[2]; if (u == v) { if (!x.second) throw Infeasible(); continue; } if (u > v) std::swap(u, v); std::array<int, 3> q{x.first[0], u, v}; auto it = nr.find(q); if (it != nr.end() && it->second != x.second) throw Infeasible(); nr[q] = x.second; } S.rel.swap(nr);
      for (auto &e : eqs) assumeEq(S, e);
      propagate(S, b1); return;
    }
    auto it = S.rel.find({k, b1, b2}); if (it != S.rel.end()) { if (it->second != eq) throw Infeasible(); return; }
    S.rel[{k, b1, b2}] = eq;
    if (eq) { std::vector<Lin> es; for (auto &x : S.tabLin) if (x.first.first == b1 && finer(k, kernelOf(x.first.second))) { auto jt = S.tabLin.find({b2, x.first.second}); if (jt != S.tabLin.end()) es.push_back(x.second - jt->second); } for (auto &e : es) assumeEq(S, e); }
    propagate(S, b1); propagate(S, b2);
  }
  void propagate(State &S, int b) {
    std::vector<std::pair<std::array<int, 3>, bool>> rs; for (auto &x : S.rel) if (x.first[1] == b || x.first[2] == b) rs.push_back(x);
    for (auto &x : rs) { int o = x.first[1] == b ? x.first[2] : x.first[1]; if (!S.bs.count(o) || !S.bs.count(b)) continue; CSet im = image(x.first[0], S.bs[b]); if (x.second) restrictCS(S, o, preimage(x.first[0], im)); else if (im.count() == 1) restrictCS(S, o, ~preimage(x.first[0], im)); }
  }
  void restrictCS(State &S, int b, const CSet &c) {
    CSet n = S.bs[b] & c; if (n.none()) throw Infeasible(); if (n == S.bs[b]) return; S.bs[b] = n; if (!S.rel.empty()) propagate(S, b);
    std::vector<std::pair<int, int>> keys; for (auto &x : S.tabLin) if (x.first.first == b) keys.push_back(x.first);
    for (auto &k : keys) { auto mm = range(S, b, k.second); { Lin l = S.tabLin[k]; l.c = isub(l.c, mm.first); assumeGe(S, l); } { Lin h = -S.tabLin[k]; h.c = iadd(h.c, mm.second); assumeGe(S, h); } }
  }
  std::pair<I, I> range(State &S, int b, int tab) { I lo = 0, hi = 0; bool f = true; auto &cs = S.bs[b]; for (int i = 0; i < 256; i++) if (cs[i]) { I v = tables[tab][i]; if (f) { lo = hi = v; f = false; } else { if (v < lo) lo = v; if (v > hi) hi = v; } } return {lo, hi}; }
  Lin tabToLin(State &S, int b, int tab) {
    auto mm = range(S, b, tab); if (mm.first == mm.second) return Lin(mm.first);
    auto k = std::make_pair(b, tab); auto it = S.tabLin.find(k); if (it != S.tabLin.end()) return it->second;
    { int64_t g = 0, t0 = 0; bool first = true; auto &t = tables[tab]; auto &c0 = S.bs[b]; for (int i = 0; i < 256; i++) if (c0[i]) { if (first) { t0 = t[i]; first = false; } else g = (int64_t)igcd(g, (I)t[i] - t0); }
      if (g > 1) { std::vector<int64_t> pt(256, 0); for (int i = 0; i < 256; i++) if (c0[i]) pt[i] = (int64_t)(((I)t[i] - t0) / g); Lin r = tabToLin(S, b, internTable(pt)) * (I)g; r.c = iadd(r.c, (I)t0); S.tabLin[k] = r; return r; } }
    // another function of the same byte already has a name: use it if the two are related linearly on the byte's values
    auto &cs = S.bs[b];
    for (auto jt = S.tabLin.lower_bound({b, -1}); jt != S.tabLin.end() && jt->first.first == b; ++jt) {
      auto &t = tables[tab], &u = tables[jt->first.second]; int p = -1, q = -1; for (int i = 0; i < 256 && q < 0; i++) if (cs[i]) { if (p < 0) p = i; else if (u[i] != u[p]) q = i; }
      if (q < 0) continue; const int64_t du = u[q] - u[p], dt = t[q] - t[p]; if (!dt || dt % du) continue; int64_t al = dt / du; bool ok = true;
      for (int i = 0; i < 256 && ok; i++) if (cs[i] && t[i] - t[p] != al * (u[i] - u[p])) ok = false;
      if (!ok) continue; Lin r = jt->second * (I)al; r.c = iadd(r.c, (I)t[p] - (I)al * u[p]); S.tabLin[k] = r; return r;
    }
    Lin l = fresh(S, mm.first, mm.second); for (auto jt = S.tabLin.lower_bound({b, -1}); jt != S.tabLin.end() && jt->first.first == b; ++jt) if (!jt->second.isConst()) { imp(l); break; }
    S.tabLin[k] = l; return l;
  }
  // the same, separating the bytes for which the table is linear
  Lin tabLinF(State &S, int b, int tab) {
    if (!bound) return tabToLin(S, b, tab);
    auto &cs = S.bs[b]; auto &t = tables[tab]; int p = -1, q = -1; bool lin = true; std::map<int64_t, CSet> byVal, byOff;
    for (int i = 0; i < 256; i++) if (cs[i]) { byVal[t[i]].set(i); byOff[t[i] - (int64_t)(signed char)i].set(i); if (p < 0) p = i; else if (q < 0) q = i; else if ((I)(t[i] - t[p]) * (q - p) != (I)(t[q] - t[p]) * (i - p)) lin = false; }
    if (lin || byVal.size() == 1) return tabToLin(S, b, tab);
    auto &c = byVal.size() < byOff.size() ? byVal : byOff; if (c.size() > 4 || c.size() < 2) return tabToLin(S, b, tab);
    Split sp; for (auto &x : c) sp.alts.push_back({Atom{2, {}, b, x.second}}); throw sp;
  }
  void apply(State &S, const Atom &a) { if (a.kind == 0) assumeGe(S, a.e); else if (a.kind == 1) assumeEq(S, a.e); else if (a.kind == 2) restrictCS(S, a.bs, a.cs); else relate(S, a.kt, a.bs, a.b2, a.kind == 3); }
  // ---------------------------------------------------------------- obligations
  static std::string base(StringRef f) { return f.str(); }
  std::string where(const Instruction *i, int *line = nullptr, std::string *file = nullptr) {
    if (!i) return "?"; if (auto &dl = i->getDebugLoc()) { std::string f = dl->getFilename().str(); if (f.rfind("/repo/", 0) == 0) f = f.substr(6); if (line) *line = dl.getLine(); if (file) *file = f; return f + ":" + std::to_string(dl.getLine()); }
    if (auto *sp = i->getFunction()->getSubprogram()) { std::string f = sp->getFilename().str(); if (line) *line = sp->getLine(); if (file) *file = f; return f + ":" + std::to_string(sp->getLine()); }
    return i->getFunction()->getName().str();
  }
  bool oblige(State &S, const Instruction *i, const std::string &cat, bool ok, const std::string &msg) {
    if (quiet && ok) return ok;
    if (quiet) return ok;
    std::string file; int line = 0; std::string w = where(i, &line, &file);
    const Function *fn = i ? i->getFunction() : nullptr;
    std::string site = w + " " + (fn ? fn->getName().str() : "") + (cat == "check" ? " " + msg : "");
    auto &o = obs[{cat, site}]; o.n++;
    if (!ok) {
      o.bad++;
      std::string key = cat + "|" + site + "|" + msg + "|" + curEntry; bool def = !S.approx && !S.vague && nOvf == ovfMark;
      if (def && alarms.count(key)) alarms[key].definite = true;
      if (!alarms.count(key)) {
        Alarm a; a.cat = cat; a.file = file; a.line = line; a.func = fn ? fn->getName().str() : ""; a.msg = msg; a.entry = curEntry; a.lastRet = S.lastRet; a.definite = def;
        for (int k = (int)S.fr.size() - 1; k >= 0; k--) { std::string e = S.fr[k].F->getName().str(); if (S.fr[k].cs) e += " (called at " + where(S.fr[k].cs) + ")"; a.stack.push_back(e); }
        int n = 0; for (auto t = S.trace; t && n < 24; t = t->up, n++) a.trace.push_back(where(t->i) + (t->v ? " true" : " false"));
        std::reverse(a.trace.begin(), a.trace.end());
        if (debug) a.state = dump(S);
        alarms[key] = a;
      }
    }
    return ok;
  }
  bool geOb(State &S, const Instruction *i, const std::string &cat, const Lin &e, const std::string &msg) {
    bool ok = S.P.entails(e); if (!ok && isImp(e)) S.vague = true; oblige(S, i, cat, ok, msg);
    if (!ok) { try { assumeGe(S, e); } catch (Infeasible &) { throw PathEnd(); } }
    return ok;
  }
  // ---------------------------------------------------------------- values
  AV norm(State &S, AV a) {
    if (a.k == AV::Tab) { auto &cs = S.bs[a.s]; bool f = true; int64_t v = 0; for (int i = 0; i < 256; i++) if (cs[i]) { if (f) { v = tables[a.r][i]; f = false; } else if (v != tables[a.r][i]) return a; } return AV::mkInt(a.w, Lin((I)v), a.w == 1); }
    return a;
  }
  AV constVal(State &S, const Constant *C) {
    Type *T = C->getType();
    if (auto *ci = dyn_cast<ConstantInt>(C)) { int w = ci->getBitWidth(); if (w == 1) return AV::mkInt(1, Lin((I)ci->getZExtValue()), true); if (w > 64) { return AV::mkInt(w, Lin((I)ci->getValue().getSExtValue())); } return AV::mkInt(w, Lin((I)ci->getSExtValue())); }
    if (isa<ConstantPointerNull>(C)) return AV::mkNull();
    if (isa<UndefValue>(C)) { if (auto *st = dyn_cast<StructType>(T)) { AV a; a.k = AV::Agg; a.agg = std::make_shared<std::vector<AV>>(st->getNumElements()); return a; } return AV(); }
    if (auto *f = dyn_cast<Function>(C)) { AV a; a.k = AV::Fn; a.fn = f; a.w = 64; return a; }
    if (auto *g = dyn_cast<GlobalVariable>(C)) return AV::mkPtr(globalRegion(S, g), Lin((I)0));
    if (auto *fp = dyn_cast<ConstantFP>(C)) { AV a; a.k = AV::FPc; bool li; APFloat v = fp->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); a.d = v.convertToDouble(); return a; }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
      if (auto *gep = dyn_cast<GEPOperator>(ce)) { AV b = constVal(S, cast<Constant>(gep->getPointerOperand())); APInt off(64, 0); if (gep->accumulateConstantOffset(DL, off)) { b.e = b.e + Lin((I)off.getSExtValue()); return b; } }
      if (ce->isCast()) return constVal(S, ce->getOperand(0));
    }
    if (isa<ConstantAggregateZero>(C) || isa<ConstantStruct>(C)) { if (auto *st = dyn_cast<StructType>(T)) { auto v = std::make_shared<std::vector<AV>>(); for (unsigned i = 0; i < st->getNumElements(); i++) v->push_back(constVal(S, C->getAggregateElement(i))); AV a; a.k = AV::Agg; a.agg = v; return a; } }
    AV a; a.k = AV::Unk; return a;
  }
  AV val(State &S, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(S, c);
    auto &f = S.fr.back(); auto it = f.info->num.find(v); if (it == f.info->num.end()) { AV a; a.k = AV::Unk; return a; }
    return norm(S, f.env[it->second]);
  }
  void set(State &S, const Instruction *i, AV a) { auto &f = S.fr.back(); f.env[f.info->num[i]] = std::move(a); }
  Lin linOf(State &S, const AV &a, const Instruction *i) { // canonical value as linear expression (by a.uns)
    switch (a.k) {
    case AV::Int: return a.e;
    case AV::Tab: return tabToLin(S, a.s, a.r);
    case AV::Null: return a.e;
    case AV::Ptr: return addrOf(S, a.r) + a.e;
    case AV::Undef: oblige(S, i, "uninit", false, "value of an uninitialised variable is used"); return fresh(S, smin(32), smax(32));
    default: return fresh(S, smin(32), smax(32));
    }
  }
  Lin toS(State &S, const AV &a, int w, const Instruction *i) { if (w == 1) { Lin e = linOf(S, a, i); return e; } Lin e = linOf(S, a, i); if (!a.uns) return e; Lin t = -e; t.c = iadd(t.c, smax(w)); if (decideGe(S, t)) return e; e.c = isub(e.c, p2(w)); return e; }
  Lin toU(State &S, const AV &a, int w, const Instruction *i) { Lin e = linOf(S, a, i); if (a.uns) return e; if (decideGe(S, e)) return e; e.c = iadd(e.c, p2(w)); return e; }
  Lin addrOf(State &S, int r) {
    if (!S.r(r).hasAddr) { Region &R = S.R(r); R.hasAddr = true; bool al = R.kind == Region::Heap || R.kind == Region::Raw || R.kind == Region::Stack; R.addr = PW == 32 ? (al ? fresh(S, (I)1 << 13, p2(28)) * 8 : fresh(S, (I)1 << 16, p2(31))) : al ? fresh(S, (I)1 << 29, p2(44)) * 8 : fresh(S, (I)1 << 32, p2(47)); Lin l = Lin((I)(PW == 32 ? p2(31) - 1 : p2(47))) - R.addr - R.size; try { S.P.addGe(l); } catch (Infeasible) {} }
    return S.r(r).addr;
  }
  static int64_t sx(I v, int w) { I m = p2(w); v = v % m; if (v < 0) v += m; if (v > smax(w)) v -= m; return (int64_t)v; }
  // concrete evaluation of integer binary operators on signed-canonical values
  static bool evalBin(unsigned op, int64_t a, int64_t b, int w, int64_t &r, bool &sov) {
    sov = false; I A = a, B = b, m = p2(w); I ua = A < 0 ? A + m : A, ub = B < 0 ? B + m : B; I x;
    switch (op) {
    case Instruction::Add: x = A + B; sov = x < smin(w) || x > smax(w); break;
    case Instruction::Sub: x = A - B; sov = x < smin(w) || x > smax(w); break;
    case Instruction::Mul: if (__builtin_mul_overflow(A, B, &x)) return false; sov = x < smin(w) || x > smax(w); break;
    case Instruction::And: x = ua & ub; break; case Instruction::Or: x = ua | ub; break; case Instruction::Xor: x = ua ^ ub; break;
    case Instruction::Shl: if (ub >= w) return false; x = ua << (int)ub; { I y = A << (int)ub; sov = y < smin(w) || y > smax(w); } break;
    case Instruction::LShr: if (ub >= w) return false; x = ua >> (int)ub; break;
    case Instruction::AShr: if (ub >= w) return false; x = A >> (int)ub; break;
    case Instruction::UDiv: if (!ub) return false; x = ua / ub; break; case Instruction::URem: if (!ub) return false; x = ua % ub; break;
    case Instruction::SDiv: if (!B) return false; x = A / B; sov = x > smax(w); break; case Instruction::SRem: if (!B) return false; x = A % B; break;
    default: return false;
    }
    r = sx(x, w); return true;
  }
  static bool evalCmp(CmpInst::Predicate p, int64_t a, int64_t b, int w) {
    I m = p2(w); I ua = a < 0 ? (I)a + m : a, ub = b < 0 ? (I)b + m : b;
    switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_SLT: return a < b; case CmpInst::ICMP_SLE: return a <= b; case CmpInst::ICMP_SGT: return a > b; case CmpInst::ICMP_SGE: return a >= b; case CmpInst::ICMP_ULT: return ua < ub; case CmpInst::ICMP_ULE: return ua <= ub; case CmpInst::ICMP_UGT: return ua > ub; case CmpInst::ICMP_UGE: return ua >= ub; default: return false; }
  }
  AV tabAV(State &S, int bs, const std::vector<int64_t> &t, int w) { AV a; a.k = AV::Tab; a.w = w; a.s = bs; a.r = internTable(t); return norm(S, a); }
  bool isTabLike(const AV &a) { return a.k == AV::Tab; }
  // make an int AV from value range-checked expression, choosing representation; modular otherwise
  AV wrapInt(State &S, Lin e, int w, bool preferU) {
    if (e.isConst()) { I m = p2(w); I v = e.c % m; if (v < 0) v += m; if (!preferU && v > smax(w)) v -= m; return AV::mkInt(w, Lin(v), preferU); }
    Lin lo = e, hi = -e; lo.c = isub(e.c, smin(w)); hi.c = iadd(-e.c, smax(w));
    Lin uhi = -e; uhi.c = iadd(-e.c, p2(w) - 1);
    if (!preferU) {
      if (S.P.entails(lo) && S.P.entails(hi)) return AV::mkInt(w, e, false);
      if (S.P.entails(e) && S.P.entails(uhi)) return AV::mkInt(w, e, true);
      // decide the number of wraps
      if (!decideGe(S, lo)) { e.c = iadd(e.c, p2(w)); Lin l2 = e; l2.c = isub(e.c, smin(w)); if (S.P.entails(l2)) return AV::mkInt(w, e, false); return impInt(S, w); }
      if (!decideGe(S, hi)) { e.c = isub(e.c, p2(w)); Lin h2 = -e; h2.c = iadd(h2.c, smax(w)); if (S.P.entails(h2)) return AV::mkInt(w, e, false); return impInt(S, w); }
      return AV::mkInt(w, e, false);
    }
    if (!decideGe(S, e)) { e.c = iadd(e.c, p2(w)); if (S.P.entails(e)) return AV::mkInt(w, e, true); return impInt(S, w, true); }
    if (!decideGe(S, uhi)) { e.c = isub(e.c, p2(w)); Lin h = -e; h.c = iadd(h.c, p2(w) - 1); if (S.P.entails(h)) return AV::mkInt(w, e, true); return impInt(S, w, true); }
    return AV::mkInt(w, e, true);
  }
#include "mem.inc"
#include "fp.inc"
#include "exec.inc"
#include "join.inc"
#include "intrin.inc"
};
#include "main.inc"
