  // ---------------------------------------------------------------- memory
  int newRegion(State &S, Region::K k, const std::string &nm, const Lin &size) { auto r = std::make_shared<Region>(); r->kind = k; r->name = nm; r->size = size; S.rg.push_back(r); return (int)S.rg.size() - 1; }
  static bool hasI8Array(Type *t) {
    if (auto *a = dyn_cast<ArrayType>(t)) return (a->getNumElements() && a->getElementType()->isIntegerTy(8)) || hasI8Array(a->getElementType());
    if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) if (hasI8Array(e)) return true;
    return false;
  }
  int kOf(const GlobalVariable *g) { auto it = gvK.find(g); if (it != gvK.end()) return it->second; int k = nextK++; gvK[g] = k; Kgv[k] = g; return k; }
  void leafCells(State &S, int r, const Constant *c, int64_t off, int &budget) {
    Type *T = c->getType(); if (budget <= 0) return;
    if (T->isStructTy()) { auto *st = cast<StructType>(T); auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) leafCells(S, r, e, off + (int64_t)sl->getElementOffset(i).getFixedValue(), budget); return; }
    if (auto *at = dyn_cast<ArrayType>(T)) { if (at->getElementType()->isIntegerTy(8)) { writeDescConst(S, r, c, off, at->getNumElements()); return; } uint64_t es = DL.getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements() && budget > 0; i++) leafCells(S, r, c->getAggregateElement(i), off + (int64_t)(i * es), budget); return; }
    budget--; Cell ce; ce.size = (int)DL.getTypeStoreSize(T).getFixedValue(); ce.v = constVal(S, c); S.R(r).cells[off] = ce;
  }
  void writeDescConst(State &S, int r, const Constant *c, int64_t off, uint64_t n) {
    if (!S.r(r).bytey) return;
    for (uint64_t i = 0; i < n && i < 4096;) {
      auto at = [&](uint64_t k) { auto *e = dyn_cast_or_null<ConstantInt>(c->getAggregateElement((unsigned)k)); return e ? (int)(e->getZExtValue() & 255) : c->isNullValue() ? 0 : -1; };
      int v = at(i); uint64_t j = i + 1; if (c->isNullValue()) j = n; else while (j < n && at(j) == v) j++;
      Seg s; s.lo = Lin((I)(off + (int64_t)i)); s.hi = Lin((I)(off + (int64_t)j)); s.d.k = v < 0 ? Desc::Top : Desc::Const; s.d.cst = (uint8_t)v; writeSegs(S, r, s.lo, s.hi, {s}); i = j;
    }
  }
  int globalRegion(State &S, const GlobalVariable *g) {
    auto it = S.gmap.find(g); if (it != S.gmap.end()) return it->second;
    Lin size((I)DL.getTypeAllocSize(g->getValueType()).getFixedValue());
    int r = newRegion(S, Region::Global, g->getName().str(), size); S.gmap[g] = r; Region &R = S.R(r); R.gv = g; R.ro = g->isConstant();
    bool arr = hasI8Array(g->getValueType()); R.bytey = arr;
    Seg sg; sg.lo = Lin((I)0); sg.hi = size;
    if (g->hasInitializer() && (g->isConstant() || true)) {
      if (arr && g->isConstant()) { sg.d.k = Desc::Orig; sg.d.K_ = kOf(g); }
      else if (g->getInitializer()->isZeroValue()) { sg.d.k = Desc::Const; sg.d.cst = 0; }
      else sg.d.k = Desc::Top;
      S.R(r).segs.push_back(sg);
      if ((!arr || (!g->isConstant() && isa<StructType>(g->getValueType()))) && !g->getInitializer()->isZeroValue() && !isa<ArrayType>(g->getValueType())) { int b = 64; leafCells(S, r, g->getInitializer(), 0, b); }
    } else { sg.d.k = Desc::Top; S.R(r).segs.push_back(sg); S.R(r).unk = true; }
    return r;
  }
  // bounds / liveness obligations for an access of n bytes
  // returns false when the access cannot be performed
  void derefOb(State &S, const Instruction *i, AV &p, const Lin &n, bool write, const char *what) {
    std::string acc = std::string(write ? "write" : "read") + what;
    if (p.k == AV::Undef) { oblige(S, i, "mem", false, acc + " through an uninitialised pointer"); throw PathEnd(); }
    if (p.k == AV::Int) p = intToPtr(S, p);
    if (p.k == AV::Null) { oblige(S, i, "mem", false, acc + " through a null pointer"); throw PathEnd(); }
    if (p.k != AV::Ptr) { S.vague = true; oblige(S, i, "mem", false, acc + " through a pointer the analysis cannot resolve"); throw PathEnd(); }
    if (!S.r(p.r).alive) { oblige(S, i, "mem", false, acc + " of released memory (" + S.r(p.r).name + ")"); throw PathEnd(); }
    oblige(S, i, "mem", true, acc);
    std::string rn = S.r(p.r).name;
    Lin off = p.e; bool ok = S.P.entails(off);
    Lin up = S.r(p.r).size - off - n; bool ok2 = S.P.entails(up);
    oblige(S, i, "mem", ok && ok2, acc + (ok ? " past the end of " : " before the start of ") + rn);
    if (!ok || !ok2) { try { assumeGe(S, off); assumeGe(S, S.r(p.r).size - p.e - n); } catch (Infeasible &) { throw PathEnd(); } }
    if (write && S.r(p.r).ro) { oblige(S, i, "ro", false, "write to memory that the operation must not modify (" + rn + ")"); }
    else if (write) oblige(S, i, "ro", true, "write target");
    if (write) { if (!S.r(p.r).wrote) S.R(p.r).wrote = 1; }
  }
  AV intToPtr(State &S, const AV &a) {
    if (a.k == AV::Int) for (size_t i = 0; i < S.rg.size(); i++) if (S.rg[i] && S.rg[i]->hasAddr) { Lin d = a.e - S.rg[i]->addr; bool sh = false; for (auto &p : S.rg[i]->addr.t) if (d.coef(p.first)) sh = true; if (!sh && !S.rg[i]->addr.t.empty()) return AV::mkPtr((int)i, d); }
    if (a.k == AV::Int && a.e.isConst() && a.e.c == 0) return AV::mkNull();
    AV u; u.k = AV::Unk; return u;
  }
  bool leq(State &S, const Lin &a, const Lin &b) { return S.P.entails(b - a); }
  bool provEq(State &S, const Lin &a, const Lin &b) { if (a == b) return true; Lin d = a - b; if (d.isConst()) return d.c == 0; return S.P.entailsEq(d); }
  static bool sameDesc(const Desc &a, const Desc &b) { if (a.k != b.k) return false; switch (a.k) { case Desc::Uninit: case Desc::Top: return true; case Desc::Const: return a.cst == b.cst; case Desc::Orig: return a.K_ == b.K_ && a.sh == b.sh; default: return false; } }
  void tidy(State &S, std::vector<Seg> &v) {
    std::vector<Seg> o;
    for (auto &s : v) { if (provEq(S, s.lo, s.hi)) continue; if (!o.empty() && sameDesc(o.back().d, s.d)) { o.back().hi = s.hi; continue; } if (!o.empty()) s.lo = o.back().hi; o.push_back(s); }
    v.swap(o);
  }
  // index of the first segment of v starting at x (splitting one if needed)
  size_t cut(State &S, std::vector<Seg> &v, const Lin &x) {
    if (v.empty()) return 0;
    if (provEq(S, x, v[0].lo)) return 0;
    for (size_t i = 0; i < v.size(); i++) {
      if (v[i].hi == x) return i + 1;
      Lin d = v[i].hi - x;
      if (S.P.entails(d)) { if (S.P.entails(-d)) return i + 1; if (i && provEq(S, v[i].lo, x)) return i; Seg n = v[i]; n.lo = x; v[i].hi = x; v.insert(v.begin() + i + 1, n); return i + 1; }
      if (S.P.entails(-d)) continue;
      Lin nd = -d; nd.c = isub(nd.c, 1);
      throw Split{{{Atom{0, d, 0, {}}}, {Atom{0, nd, 0, {}}}}};
    }
    return v.size();
  }
  bool disjointCell(State &S, int64_t co, int cs, const Lin &lo, const Lin &hi) { return S.P.entails(lo - Lin((I)co + cs)) || S.P.entails(Lin((I)co) - hi); }
  void killCells(State &S, int r, const Lin &lo, const Lin &hi) {
    if (provEq(S, lo, hi)) return;
    bool cst = lo.isConst() && hi.isConst(); std::vector<int64_t> del;
    for (auto &c : S.r(r).cells) { bool dis = cst ? ((I)c.first >= hi.c || (I)c.first + c.second.size <= lo.c) : disjointCell(S, c.first, c.second.size, lo, hi); if (!dis) del.push_back(c.first); }
    if (!del.empty()) { Region &R = S.R(r); for (auto d : del) R.cells.erase(d); if (!cst) R.unk = true; }
  }
  std::vector<Seg> extract(State &S, int r, const Lin &lo, const Lin &hi) {
    for (auto &c : S.r(r).cells) if (!disjointCell(S, c.first, c.second.size, lo, hi)) { Seg s; s.lo = lo; s.hi = hi; s.d.k = Desc::Top; return {s}; }
    std::vector<Seg> v = S.r(r).segs; size_t a = cut(S, v, lo); size_t b = cut(S, v, hi); if (a > v.size()) a = v.size();
    a = cut(S, v, lo); b = cut(S, v, hi);
    std::vector<Seg> o(v.begin() + std::min(a, v.size()), v.begin() + std::min(b, v.size()));
    return o;
  }
  void writeSegs(State &S, int r, const Lin &lo, const Lin &hi, std::vector<Seg> ns) {
    std::vector<Seg> v = S.r(r).segs; size_t a = cut(S, v, lo); size_t b = cut(S, v, hi); a = cut(S, v, lo); if (b < a) b = a; b = cut(S, v, hi);
    std::vector<Seg> o(v.begin(), v.begin() + std::min(a, v.size())); for (auto &s : ns) o.push_back(s); if (b < v.size()) o.insert(o.end(), v.begin() + b, v.end());
    tidy(S, o); S.R(r).segs = o;
  }
  AV byteOfK(State &S, int K, const Lin &idx) {
    auto g = Kgv.find(K);
    if (g != Kgv.end() && idx.isConst()) { if (auto *c = ConstantFoldLoadFromConst(const_cast<Constant *>(g->second->getInitializer()), Type::getInt8Ty(M.getContext()), APInt(64, (int64_t)idx.c), DL)) if (auto *ci = dyn_cast<ConstantInt>(c)) return AV::mkInt(8, Lin((I)ci->getSExtValue())); }
    for (auto &f : S.facts) if (f.K == K && (f.idx == idx || ((f.idx - idx).isConst() ? false : S.P.entailsEq(f.idx - idx)))) return tabAV(S, f.bs, tables[identTab], 8);
    int b = nextBs++; CSet cs; cs.set();
    if (g != Kgv.end()) { cs.reset(); auto *ini = g->second->getInitializer(); uint64_t n = DL.getTypeAllocSize(ini->getType()); for (uint64_t i = 0; i < n && i < 4096; i++) if (auto *c = ConstantFoldLoadFromConst(const_cast<Constant *>(ini), Type::getInt8Ty(M.getContext()), APInt(64, i), DL)) if (auto *ci = dyn_cast<ConstantInt>(c)) cs.set(ci->getZExtValue() & 255); }
    for (auto &rf : S.rfacts) if (rf.K == K && leq(S, rf.lo, idx) && S.P.entails(rf.hi - idx - Lin((I)1))) cs &= rf.cs;
    if (cs.none()) throw PathEnd();
    S.bs[b] = cs; S.facts.push_back({K, idx, b});
    return tabAV(S, b, tables[identTab], 8);
  }
  AV freshByte(State &S) { int b = nextBs++; CSet cs; cs.set(); S.bs[b] = cs; return tabAV(S, b, tables[identTab], 8); }
  AV loadByte(State &S, int r, const Lin &off, const Instruction *i) {
    const Region &R0 = S.r(r);
    if (R0.cstr) { // C string: bytes below the terminator are non-zero, the terminator is zero
      Lin d = R0.slen - off; if (decideEq(S, d)) return AV::mkInt(8, Lin((I)0));
      AV b; const Seg *sg = nullptr; for (auto &s : S.r(r).segs) if (leq(S, s.lo, off) && S.P.entails(s.hi - off - Lin((I)1))) { sg = &s; break; }
      if (sg && sg->d.k == Desc::Orig) { b = byteOfK(S, sg->d.K_, off + sg->d.sh); if (b.k == AV::Tab && b.r == identTab && S.P.entails(S.r(r).slen - off - Lin((I)1))) { CSet nz; nz.set(); nz.reset(0); restrictCS(S, b.s, nz); return norm(S, b); } return b; }
    }
    std::vector<int64_t> cov; for (auto &c : S.r(r).cells) { Lin o2 = off; if (decideGe(S, o2 - Lin((I)c.first + c.second.size))) continue; if (decideGe(S, Lin((I)c.first) - o2 - Lin((I)1))) continue; if (c.second.size == 1 && c.second.v.k != AV::Agg) return c.second.v; S.vague = true; return freshByte(S); }
    std::vector<Seg> v = S.r(r).segs;
    for (size_t k = 0; k < v.size(); k++) {
      Lin d = v[k].hi - off - Lin((I)1);
      if (!decideGe(S, d)) continue;
      switch (v[k].d.k) {
      case Desc::Orig: return byteOfK(S, v[k].d.K_, off + v[k].d.sh);
      case Desc::Const: return AV::mkInt(8, Lin((I)(int8_t)v[k].d.cst));
      case Desc::Val: return norm(S, v[k].d.val);
      case Desc::Uninit: if (!S.r(r).unk) { return AV(); } [[fallthrough]];
      default: { gaveUp(S, r); AV b = freshByte(S); Seg s; s.lo = off; s.hi = off + Lin((I)1); s.d.k = Desc::Val; s.d.val = b; State bk; try { writeSegs(S, r, s.lo, s.hi, {s}); } catch (Split &) {} return b; }
      }
    }
    (void)i; return freshByte(S);
  }
  // content of memory that the code itself has written, but the domains have lost
  void gaveUp(State &S, int r) { auto k = S.r(r).kind; if (k == Region::Stack || k == Region::Heap || (k == Region::Global && !S.r(r).unk)) S.vague = true; }
  AV freshOf(State &S, Type *T) {
    if (T->isIntegerTy(8)) return freshByte(S);
    if (T->isIntegerTy()) return freshInt(S, T->getIntegerBitWidth());
    if (T->isFloatingPointTy()) return AV::mkFP();
    if (auto *st = dyn_cast<StructType>(T)) { auto v = std::make_shared<std::vector<AV>>(); for (auto *e : st->elements()) v->push_back(freshOf(S, e)); AV a; a.k = AV::Agg; a.agg = v; return a; }
    AV u; u.k = AV::Unk; return u;
  }
  static bool sizeOK(const AV &v, Type *T, int n) { (void)n; if (v.k == AV::Undef || v.k == AV::Unk) return true; if (T->isPointerTy()) return v.k == AV::Ptr || v.k == AV::Null || v.k == AV::Fn; if (T->isIntegerTy()) return (v.k == AV::Int || v.k == AV::Tab) && v.w == (int)T->getIntegerBitWidth(); if (T->isFloatingPointTy()) return v.k == AV::FP || v.k == AV::FPc; return false; }
  AV load(State &S, const Instruction *i, AV p, Type *T, bool ob = true) {
    if (auto *st = dyn_cast<StructType>(T)) { auto *sl = DL.getStructLayout(st); auto v = std::make_shared<std::vector<AV>>(); for (unsigned k = 0; k < st->getNumElements(); k++) { AV q = p; q.e = q.e + Lin((I)(int64_t)sl->getElementOffset(k).getFixedValue()); v->push_back(load(S, i, q, st->getElementType(k), ob)); } AV a; a.k = AV::Agg; a.agg = v; return a; }
    int n = (int)DL.getTypeStoreSize(T).getFixedValue();
    if (ob) derefOb(S, i, p, Lin((I)n), false, "");
    int r = p.r; Lin off = p.e;
    if (off.isConst()) {
      int64_t o = (int64_t)off.c; auto &cells = S.r(r).cells; auto it = cells.find(o);
      if (it != cells.end() && it->second.size == n) { AV v = it->second.v; if (sizeOK(v, T, n)) return norm(S, v); if (v.k == AV::Null && T->isIntegerTy()) return AV::mkInt(n * 8, v.e); if (v.k == AV::Ptr && T->isIntegerTy(PW)) return AV::mkInt(PW, linOf(S, v, i)); if (v.k == AV::Int && T->isPointerTy()) return intToPtr(S, v); AV f = freshOf(S, T); S.R(r).cells[o].v = f; if (v.k != AV::Undef && v.k != AV::Unk) S.vague = true; return f; }
      for (auto &c : cells) if (!(c.first >= o + n || c.first + c.second.size <= o)) {
          // part of a wider constant / nested access
          if (c.first <= o && c.first + c.second.size >= o + n && c.second.v.isC() && T->isIntegerTy()) { I v = c.second.v.e.c; int w = c.second.size * 8; I m = p2(w); if (v < 0) v += m; v >>= (int)((o - c.first) * 8); return AV::mkInt(n * 8, Lin((I)sx(v, n * 8))); }
          S.vague = true; return freshOf(S, T); }
      if (S.r(r).gv && S.r(r).gv->isConstant() && S.r(r).gv->hasInitializer()) if (auto *c = ConstantFoldLoadFromConst(const_cast<Constant *>(S.r(r).gv->getInitializer()), T, APInt(64, o), DL)) return constVal(S, c);
      if (n == 1 && (S.r(r).bytey)) return loadByte(S, r, off, i);
      // covering segment
      for (auto &s : S.r(r).segs) if (leq(S, s.lo, off) && S.P.entails(s.hi - off - Lin((I)n))) {
          if (s.d.k == Desc::Const) { if (T->isPointerTy() && s.d.cst == 0) return AV::mkNull(); if (T->isIntegerTy()) { I v = 0; for (int k = 0; k < n; k++) v = v * 256 + s.d.cst; int w = T->getIntegerBitWidth(); return AV::mkInt(w, Lin(w == 1 ? v & 1 : (I)sx(v, w)), w == 1); } if (T->isFloatingPointTy() && s.d.cst == 0) { AV a; a.k = AV::FPc; a.d = 0; return a; } }
          if (s.d.k == Desc::Uninit && !S.r(r).unk) return AV();
          if (n == 1 && (s.d.k == Desc::Orig || s.d.k == Desc::Val)) return loadByte(S, r, off, i);
          break; }
      gaveUp(S, r); AV f = freshOf(S, T); if (f.k != AV::Unk) { Cell c; c.size = n; c.v = f; if (!S.r(r).bytey || n > 1) S.R(r).cells[o] = c; }
      return f;
    }
    if (n == 1) return loadByte(S, r, off, i);
    gaveUp(S, r); return freshOf(S, T);
  }
  void store(State &S, const Instruction *i, AV p, AV v, Type *T) {
    if (v.k == AV::Agg) { auto *st = cast<StructType>(T); auto *sl = DL.getStructLayout(st); auto agg = v.agg; for (unsigned k = 0; k < st->getNumElements(); k++) { AV q = p; q.e = q.e + Lin((I)(int64_t)sl->getElementOffset(k).getFixedValue()); store(S, i, q, (*agg)[k], st->getElementType(k)); } return; }
    int n = (int)DL.getTypeStoreSize(T).getFixedValue();
    if (T->isIntegerTy() && v.k == AV::Int && v.w == 1) v.w = 8;
    derefOb(S, i, p, Lin((I)n), true, "");
    int r = p.r; Lin off = p.e, end = off + Lin((I)n);
    if (S.r(r).cstr) S.R(r).cstr = false;
    if (n == 1 && S.r(r).bytey && v.k != AV::Ptr) {
      Seg s; s.lo = off; s.hi = end; v = norm(S, v);
      if (v.isC()) { s.d.k = Desc::Const; s.d.cst = (uint8_t)((int)v.e.c & 255); }
      else if (v.k == AV::Undef) s.d.k = Desc::Uninit;
      else { s.d.k = Desc::Val; s.d.val = v; if (v.k == AV::Tab && v.r == identTab) for (auto &f : S.facts) if (f.bs == v.s) { s.d.k = Desc::Orig; s.d.K_ = f.K; s.d.sh = f.idx - off; s.d.val = AV(); break; } }
      killCellsDec(S, r, off, end); writeSegs(S, r, off, end, {s}); return;
    }
    if (off.isConst()) { killCells(S, r, off, end); Cell c; c.size = n; c.v = v; S.R(r).cells[(int64_t)off.c] = c; if (S.r(r).bytey) { Seg s; s.lo = off; s.hi = end; s.d.k = Desc::Top; State bk = S; try { writeSegs(S, r, off, end, {s}); } catch (Split &) { S = bk; throw; } } return; }
    killCells(S, r, off, end); S.R(r).unk = true;
    Seg s; s.lo = off; s.hi = end; s.d.k = Desc::Top; writeSegs(S, r, off, end, {s});
  }
  void killCellsDec(State &S, int r, const Lin &lo, const Lin &hi) { // decide overlap exactly where possible
    std::vector<std::pair<int64_t, int>> cs; for (auto &c : S.r(r).cells) cs.push_back({c.first, c.second.size});
    for (auto &c : cs) { if (disjointCell(S, c.first, c.second, lo, hi)) continue; if (decideGe(S, lo - Lin((I)c.first + c.second))) continue; if (decideGe(S, Lin((I)c.first) - hi)) continue; S.R(r).cells.erase(c.first); }
  }
  void copyMem(State &S, const Instruction *i, AV d, AV s, const AV &nv, bool move, const char *fn) {
    Lin n = toU(S, nv, nv.w ? nv.w : 64, i);
    if (n.isConst() && n.c == 0) return;
    if (d.k == AV::Int) d = intToPtr(S, d); if (s.k == AV::Int) s = intToPtr(S, s);
    bool zero = S.P.entails(-n);
    if (zero) return;
    if (s.k != AV::Ptr || d.k != AV::Ptr) { if (!decideGe(S, n - Lin((I)1))) return; }
    std::string w = std::string(" by ") + fn;
    // a zero-length copy accesses nothing
    if (!S.P.entails(n - Lin((I)1))) { bool inb = S.r(s.r).alive && S.r(d.r).alive && S.P.entails(s.e) && S.P.entails(d.e) && leq(S, s.e + n, S.r(s.r).size) && leq(S, d.e + n, S.r(d.r).size); if (!inb && !decideGe(S, n - Lin((I)1))) return; }
    derefOb(S, i, s, n, false, w.c_str()); derefOb(S, i, d, n, true, w.c_str());
    if (!move && s.r == d.r && !(!strcmp(fn, "struct copy") && provEq(S, s.e, d.e))) { bool ok = leq(S, d.e + n, s.e) || leq(S, s.e + n, d.e); if (!ok) { /* decide exactly */ if (!decideGe(S, s.e - d.e - n) && !decideGe(S, d.e - s.e - n)) { oblige(S, i, "mem", false, std::string("overlapping ranges passed to ") + fn); } } else oblige(S, i, "mem", true, "overlap"); }
    if (S.r(d.r).cstr) S.R(d.r).cstr = false;
    std::vector<std::pair<int64_t, Cell>> cc; bool cst = n.isConst() && s.e.isConst() && d.e.isConst();
    if (cst) {
      const Region &R = S.r(s.r); int64_t so = (int64_t)s.e.c, nn = (int64_t)n.c;
      for (auto &c : R.cells) if (c.first >= so && c.first + c.second.size <= so + nn) cc.push_back({c.first - so + (int64_t)d.e.c, c.second});
      if (R.gv && R.gv->isConstant() && R.cells.empty() && R.gv->hasInitializer() && !hasI8Array(R.gv->getValueType())) { State &T = S; int b = 128; int tmp = newRegion(T, Region::Stack, "tmp", R.size); leafCells(T, tmp, S.r(s.r).gv->getInitializer(), 0, b); for (auto &c : S.r(tmp).cells) if (c.first >= so && c.first + c.second.size <= so + nn) cc.push_back({c.first - so + (int64_t)d.e.c, c.second}); S.rg.pop_back(); }
    }
    std::vector<Seg> ex;
    if (cst && !cc.empty()) { // copy bytes around the cells too
      auto sv = S.R(s.r).cells; S.R(s.r).cells.clear(); try { ex = extract(S, s.r, s.e, s.e + n); } catch (...) { S.R(s.r).cells = sv; throw; } S.R(s.r).cells = sv;
      bool srcUnk = S.r(s.r).unk; if (srcUnk) for (auto &g : ex) if (g.d.k == Desc::Uninit) g.d.k = Desc::Top;
    } else { ex = extract(S, s.r, s.e, s.e + n); if (S.r(s.r).unk) for (auto &g : ex) if (g.d.k == Desc::Uninit) g.d.k = Desc::Top; }
    Lin sh = d.e - s.e;
    for (auto &g : ex) { g.lo = g.lo + sh; g.hi = g.hi + sh; if (g.d.k == Desc::Orig) g.d.sh = g.d.sh - sh; }
    Lin end = d.e + n;
    State bk = S;
    try { killCellsX(S, d.r, d.e, end, cst); writeSegs(S, d.r, d.e, end, ex); } catch (Split &) { S = bk; throw; }
    for (auto &c : cc) S.R(d.r).cells[c.first] = c.second;
  }
  void killCellsX(State &S, int r, const Lin &lo, const Lin &hi, bool cst) { (void)cst; killCells(S, r, lo, hi); }
  void fillMem(State &S, const Instruction *i, AV d, const AV &c, const AV &nv) {
    Lin n = toU(S, nv, nv.w ? nv.w : 64, i); if (S.P.entails(-n)) return;
    if (!S.P.entails(n - Lin((I)1))) if (!decideGe(S, n - Lin((I)1))) return;
    derefOb(S, i, d, n, true, " by memset"); AV cv = norm(S, c);
    Seg s; s.lo = d.e; s.hi = d.e + n; if (cv.isC()) { s.d.k = Desc::Const; s.d.cst = (uint8_t)((int)cv.e.c & 255); } else s.d.k = Desc::Top;
    State bk = S; try { killCells(S, d.r, s.lo, s.hi); writeSegs(S, d.r, s.lo, s.hi, {s}); } catch (Split &) { S = bk; throw; }
  }
