// Abstract state of the analyser.
#pragma once
#include "num.h"
#include <array>
#include <bitset>
#include <memory>
#include <set>
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/GlobalVariable.h"
using namespace llvm;
typedef std::bitset<256> CSet;

struct AV {
  enum K : uint8_t { Undef, Int, Tab, Ptr, Null, Fn, FP, FPc, Agg, Va, Unk } k = Undef;
  uint8_t w = 0;      // bit width (Int/Tab)
  bool uns = false;   // canonical range: signed [-2^(w-1),2^(w-1)) or unsigned [0,2^w)
  int r = -1;         // region id (Ptr) / table id (Tab) / vararg pack (Va)
  int s = -1;         // byte symbol (Tab) / status (Va)
  Lin e;              // value (Int) / offset (Ptr, Null) / position (Va)
  const Function *fn = nullptr;
  double d = 0;
  std::shared_ptr<const std::vector<AV>> agg;
  static AV mkInt(int w, Lin e, bool uns = false) { AV a; a.k = Int; a.w = w; a.e = e; a.uns = uns; return a; }
  static AV mkPtr(int r, Lin off) { AV a; a.k = Ptr; a.r = r; a.e = off; a.w = 64; return a; }
  static AV mkNull() { AV a; a.k = Null; a.w = 64; return a; }
  static AV mkFP() { AV a; a.k = FP; return a; }
  bool isC() const { return k == Int && e.isConst(); }
};

struct Desc {
  enum K : uint8_t { Uninit, Top, Const, Orig, Val } k = Top;
  uint8_t cst = 0; // Const
  int K_ = -1;     // Orig: content id
  Lin sh;          // Orig: byte at region offset o is K_[o + sh]
  AV val;          // Val: single byte value
};
struct Seg { Lin lo, hi; Desc d; };
struct Cell { int size = 0; AV v; };

struct Region {
  enum K : uint8_t { Stack, Heap, Ext, Global, Raw } kind = Stack;
  std::string name;
  Lin size; Lin addr; bool hasAddr = false;
  bool alive = true, ro = false, unk = false, bytey = false, cstr = false;
  int wrote = 0;
  Lin slen;                       // cstr: index of the terminator
  const GlobalVariable *gv = nullptr;
  std::map<int64_t, Cell> cells;
  std::vector<Seg> segs;
  AV ownFn, ownApp;               // allocator that produced it
};
struct Fact { int K; Lin idx; int bs; };          // K[idx] is byte symbol bs
struct RFact { int K; Lin lo, hi; CSet cs; };     // forall lo<=i<hi: K[i] in cs
struct CmpFact { int Ka, Kb; Lin a, b, n; int rel; bool fold; }; // memcmp(Ka+a,Kb+b,n): rel 0 eq, 1 ne
struct Snap { std::vector<Seg> segs; Lin len; bool bad = false; };
struct FnInfo;
struct Frame {
  const Function *F = nullptr; FnInfo *info = nullptr;
  std::vector<AV> env; const CallBase *cs = nullptr;
  std::vector<int> allocas; int vapack = -1;
};
struct TNode { std::shared_ptr<TNode> up; const Instruction *i = nullptr; int v = 0; };

struct State {
  Poly P;
  std::vector<Frame> fr;
  std::vector<std::shared_ptr<Region>> rg; // null when collected
  std::map<int, CSet> bs;                  // byte symbols
  std::map<std::pair<int, int>, Lin> tabLin; // (byte symbol, table) -> linear value
  std::map<std::array<int, 3>, bool> rel;  // (kernel table, byte symbol, byte symbol): images equal / different
  std::vector<Fact> facts; std::vector<RFact> rfacts; std::vector<CmpFact> cfacts;
  std::map<std::pair<Lin, int>, int> bits; // bit k of expression
  std::map<std::pair<Lin, I>, Lin> divs;   // floor division memo
  std::set<std::pair<int, int>> order;     // region a entirely before region b
  std::vector<Snap> snaps; std::map<int, Lin> elim; int elimKeep = 0;
  std::vector<std::vector<AV>> packs; std::map<std::pair<int,std::string>, Lin> fmtLen;
  std::map<int, int> cnt;                  // event counters
  std::map<const GlobalVariable *, int> gmap;
  std::map<std::string, AV> ghost;
  AV ret; std::vector<int> replay; size_t rpos = 0; int unroll = 0; bool approx = false, vague = false; // approx: passed through a join; vague: a value the domains cannot express was used
  std::string lastRet; std::shared_ptr<TNode> trace;
  Region &R(int i) { if (rg[i].use_count() > 1) rg[i] = std::make_shared<Region>(*rg[i]); return *rg[i]; }
  const Region &r(int i) const { return *rg[i]; }
};

template <class Fx> static void avLins(AV &a, Fx f) {
  switch (a.k) {
  case AV::Int: case AV::Ptr: case AV::Null: case AV::Va: f(a.e); break;
  case AV::FP: if (!a.agg) break; [[fallthrough]];
  case AV::Agg: { bool has = false; for (auto &x : *a.agg) if (x.k == AV::Int || x.k == AV::Ptr || x.k == AV::Null || x.k == AV::Agg) has = true; if (has) { if (a.agg.use_count() > 1) a.agg = std::make_shared<std::vector<AV>>(*a.agg); for (auto &x : const_cast<std::vector<AV> &>(*a.agg)) avLins(x, f); } break; }
  default: break;
  }
}
// structural slots (those that must be matched by a join); facts etc. handled separately
template <class Fx> static void segLins(Seg &s, Fx f) { f(s.lo); f(s.hi); if (s.d.k == Desc::Orig) f(s.d.sh); if (s.d.k == Desc::Val) avLins(s.d.val, f); }
template <class Fx> static void regionLins(Region &R, Fx f) {
  f(R.size); if (R.hasAddr) f(R.addr); if (R.cstr) f(R.slen);
  for (auto &c : R.cells) avLins(c.second.v, f);
  for (auto &s : R.segs) segLins(s, f);
  avLins(R.ownApp, f);
}
template <class Fx> static void slotLins(State &S, Fx f) {
  for (auto &F : S.fr) for (auto &a : F.env) avLins(a, f);
  for (auto &p : S.packs) for (auto &a : p) avLins(a, f);
  for (size_t i = 0; i < S.rg.size(); i++) if (S.rg[i]) regionLins(S.R(i), f);
  for (auto &sn : S.snaps) { f(sn.len); for (auto &s : sn.segs) segLins(s, f); }
  for (auto &g : S.ghost) avLins(g.second, f);
  avLins(S.ret, f);
}
template <class Fx> static void factLins(State &S, Fx f) {
  for (auto &x : S.facts) f(x.idx);
  for (auto &x : S.rfacts) { f(x.lo); f(x.hi); }
  for (auto &x : S.cfacts) { f(x.a); f(x.b); f(x.n); }
  for (auto &x : S.tabLin) f(x.second);
  for (auto &x : S.fmtLen) f(x.second);
}
