  // ---------------------------------------------------------------- models of library functions and harness primitives
  bool isNativeName(StringRef n) { (void)n; return false; }
  bool isHarness(const Function *F) { auto *sp = F->getSubprogram(); if (!sp) return true; return sp->getFilename().str().find("specs/") != std::string::npos || sp->getFilename().starts_with("specs/"); }
  bool constStr(State &S, const AV &a, std::string &out) {
    if (a.k != AV::Ptr || !a.e.isConst() || !S.r(a.r).gv || !S.r(a.r).gv->hasInitializer()) return false;
    auto *ini = S.r(a.r).gv->getInitializer(); uint64_t n = DL.getTypeAllocSize(ini->getType()); out.clear();
    for (uint64_t k = (uint64_t)a.e.c; k < n; k++) { auto *c = ConstantFoldLoadFromConst(const_cast<Constant *>(ini), Type::getInt8Ty(M.getContext()), APInt(64, k), DL); auto *ci = c ? dyn_cast<ConstantInt>(c) : nullptr; if (!ci) return false; if (ci->isZero()) return true; out.push_back((char)ci->getZExtValue()); }
    return true;
  }
  Lin argS(State &S, const CallBase *cb, unsigned k) { AV a = val(S, cb->getArgOperand(k)); int w = cb->getArgOperand(k)->getType()->isIntegerTy() ? (int)cb->getArgOperand(k)->getType()->getIntegerBitWidth() : 64; return toS(S, a, w, cb); }
  Lin argU(State &S, const CallBase *cb, unsigned k) { AV a = val(S, cb->getArgOperand(k)); int w = cb->getArgOperand(k)->getType()->isIntegerTy() ? (int)cb->getArgOperand(k)->getType()->getIntegerBitWidth() : 64; return toU(S, a, w, cb); }
  I argC(State &S, const CallBase *cb, unsigned k) { AV a = val(S, cb->getArgOperand(k)); if (!a.isC()) throw Budget{"non-constant argument of a harness primitive at " + where(cb)}; return a.e.c; }
  Seg whole(State &S, int r, Desc::K k) { Seg s; s.lo = Lin((I)0); s.hi = S.r(r).size; s.d.k = k; return s; }
  int extRegion(State &S, const Lin &n, bool ro, const std::string &nm) { int r = newRegion(S, Region::Ext, nm, n); Region &R = S.R(r); R.ro = ro; R.bytey = true; Seg s = whole(S, r, Desc::Orig); s.d.K_ = nextK++; Kname[s.d.K_] = nm; R.segs.push_back(s); return r; }
  AV heapNew(State &S, const Lin &n, const AV &fn, const AV &app) { int r = newRegion(S, Region::Heap, "heap block", n); Region &R = S.R(r); R.bytey = true; R.ownFn = fn; R.ownApp = app; R.segs.push_back(whole(S, r, Desc::Uninit)); return AV::mkPtr(r, Lin((I)0)); }
  void bump(State &S, int k) { auto &c = S.cnt[k]; if (c >= 0) c++; }
  bool heapBase(State &S, const CallBase *cb, AV &p, const char *op) {
    if (p.k == AV::Int) p = intToPtr(S, p);
    bool ok = p.k == AV::Ptr && S.r(p.r).kind == Region::Heap && S.r(p.r).alive && (p.e.isConst() ? p.e.c == 0 : S.P.entailsEq(p.e));
    std::string why = p.k != AV::Ptr ? "a pointer that is not an allocation" : !S.r(p.r).alive ? "an already released block" : S.r(p.r).kind != Region::Heap ? "memory that did not come from the allocator (" + S.r(p.r).name + ")" : "the middle of a block";
    oblige(S, cb, "alloc", ok, std::string(op) + " of " + (ok ? "a block" : why)); if (!ok) throw PathEnd(); return ok;
  }
  AV reallocTo(State &S, const CallBase *cb, AV p, const Lin &n, const AV &fn, const AV &app) {
    if (p.k == AV::Null) { bump(S, 1); return heapNew(S, n, fn, app); }
    heapBase(S, cb, p, "reallocation");
    bool moved = choose(S, 2); int o = p.r; Lin old = S.r(o).size; bool grow = decideGe(S, n - old); Lin keep = grow ? old : n;
    std::vector<Seg> ex; { auto sv = S.r(o).cells; S.R(o).cells.clear(); ex = extract(S, o, Lin((I)0), keep); S.R(o).cells = sv; }
    std::map<int64_t, Cell> cells; for (auto &c : S.r(o).cells) if (S.P.entails(keep - Lin((I)c.first + c.second.size))) cells[c.first] = c.second;
    if (grow && !provEq(S, keep, n)) { Seg s; s.lo = keep; s.hi = n; s.d.k = Desc::Uninit; ex.push_back(s); }
    bump(S, 3);
    if (moved) { AV q = heapNew(S, n, fn, app); Region &R = S.R(q.r); R.segs = ex; R.cells = cells; R.unk = S.r(o).unk; S.R(o).alive = false; return q; }
    Region &R = S.R(o); R.size = n; R.segs = ex; R.cells = cells; if (R.hasAddr && grow) { Lin end = R.addr + n; for (auto &x : S.order) if (x.first == o && S.rg[x.second] && S.r(x.second).hasAddr && S.r(x.second).alive) { try { assumeGe(S, S.r(x.second).addr - end); } catch (Infeasible &) { throw PathEnd(); } } }
    return AV::mkPtr(o, Lin((I)0));
  }
  // expected content as a list of descriptors positioned from 0
  bool sliceSnap(State &S, int id, Lin lo, Lin hi, std::vector<Seg> &out, Lin &pos) {
    if (id < 0 || id >= (int)S.snaps.size() || S.snaps[id].bad) return false;
    if (provEq(S, lo, hi)) return true;
    std::vector<Seg> v = S.snaps[id].segs; cut(S, v, lo); cut(S, v, hi); size_t a = cut(S, v, lo), b = cut(S, v, hi);
    if (b > v.size()) b = v.size(); Lin sh = pos - lo;
    for (size_t k = a; k < b; k++) { Seg s = v[k]; s.lo = s.lo + sh; s.hi = s.hi + sh; if (s.d.k == Desc::Orig) s.d.sh = s.d.sh - sh; out.push_back(s); }
    pos = pos + (hi - lo); return true;
  }
  bool descEq(State &S, const Seg &x, const Seg &y) {
    const Desc &a = x.d, &b = y.d;
    if (a.k == Desc::Orig && b.k == Desc::Orig && a.K_ == b.K_ && provEq(S, a.sh, b.sh)) return true;
    if (a.k == Desc::Const && b.k == Desc::Const) return a.cst == b.cst;
    if (a.k == Desc::Top || b.k == Desc::Top || a.k == Desc::Uninit || b.k == Desc::Uninit) return false;
    // byte-wise comparison of short ranges
    Lin n = x.hi - x.lo; if (!n.isConst() || n.c > 64) return false;
    for (I k = 0; k < n.c; k++) { AV p = segByte(S, x, k), q = segByte(S, y, k); p = norm(S, p); q = norm(S, q); if (p.isC() && q.isC()) { if (sx(p.e.c, 8) != sx(q.e.c, 8)) return false; continue; } if (p.k == AV::Tab && q.k == AV::Tab && p.s == q.s && p.r == q.r) continue; if (p.k == AV::Int && q.k == AV::Int && p.e == q.e && p.uns == q.uns) continue; return false; }
    return true;
  }
  AV segByte(State &S, const Seg &s, I k) { switch (s.d.k) { case Desc::Const: return AV::mkInt(8, Lin((I)(int8_t)s.d.cst)); case Desc::Val: return s.d.val; case Desc::Orig: return byteOfK(S, s.d.K_, s.lo + Lin(k) + s.d.sh); default: { AV u; u.k = AV::Unk; return u; } } }
  bool contentEq(State &S, std::vector<Seg> a, std::vector<Seg> b) {
    for (auto &s : b) cut(S, a, s.lo); for (auto &s : a) cut(S, b, s.lo); for (auto &s : b) cut(S, a, s.hi);
    auto strip = [&](std::vector<Seg> &v) { std::vector<Seg> o; for (auto &s : v) if (!provEq(S, s.lo, s.hi)) o.push_back(s); v.swap(o); }; strip(a); strip(b);
    if (a.size() != b.size()) return false;
    for (size_t k = 0; k < a.size(); k++) { if (!provEq(S, a[k].lo, b[k].lo) || !provEq(S, a[k].hi, b[k].hi)) return false; if (!descEq(S, a[k], b[k])) return false; }
    return true;
  }
  std::vector<Seg> bytesAt(State &S, const CallBase *cb, AV p, const Lin &n) { // rebased to 0
    if (provEq(S, n, Lin((I)0))) return {}; derefOb(S, cb, p, n, false, " (inspected result)");
    std::vector<Seg> ex = extract(S, p.r, p.e, p.e + n); for (auto &g : ex) { g.lo = g.lo - p.e; g.hi = g.hi - p.e; if (g.d.k == Desc::Orig) g.d.sh = g.d.sh + p.e; if (g.d.k == Desc::Uninit && S.r(p.r).unk) g.d.k = Desc::Top; } return ex;
  }
  CSet setOf(const std::string &s, bool neg) { CSet c; for (unsigned char ch : s) c.set(ch); return neg ? ~c : c; }
  AV vaCell(State &S, const CallBase *cb, AV p, bool need) {
    if (p.k != AV::Ptr || !S.r(p.r).alive) { oblige(S, cb, "va", false, "use of an invalid va_list"); throw PathEnd(); }
    if (p.e.isConst()) { auto it = S.r(p.r).cells.find((int64_t)p.e.c); if (it != S.r(p.r).cells.end() && it->second.v.k == AV::Va) return it->second.v; }
    if (need) { oblige(S, cb, "va", false, "use of a va_list that was not started"); throw PathEnd(); } return AV();
  }
  void setVa(State &S, AV p, AV v) { Cell c; c.size = 24; c.v = v; Region &R = S.R(p.r); for (auto it = R.cells.begin(); it != R.cells.end();) if (it->first >= (int64_t)p.e.c && it->first < (int64_t)p.e.c + 24) it = R.cells.erase(it); else ++it; R.cells[(int64_t)p.e.c] = c; }
  AV vaUse(State &S, const CallBase *cb, AV p) { AV v = vaCell(S, cb, p, true); bool ok = v.s == 1; oblige(S, cb, "va", ok, v.s == 2 ? "va_list used after va_end" : "va_list used again after it was consumed"); if (!ok) throw PathEnd(); return v; }
  AV memcmpModel(State &S, const CallBase *cb, AV p, AV q, const AV &nv) {
    Lin n = toU(S, nv, 64, cb);
    if (S.P.entails(-n)) return AV::mkInt(32, Lin((I)0));
    if (!decideGe(S, n - Lin((I)1))) return AV::mkInt(32, Lin((I)0));
    derefOb(S, cb, p, n, false, " by memcmp"); derefOb(S, cb, q, n, false, " by memcmp");
    if (p.r == q.r && provEq(S, p.e, q.e)) return AV::mkInt(32, Lin((I)0));
    if (n.isConst() && n.c <= 24) { // byte by byte
      for (I k = 0; k < n.c; k++) {
        AV a = loadByte(S, p.r, p.e + Lin(k), cb), b = loadByte(S, q.r, q.e + Lin(k), cb); a = norm(S, a); b = norm(S, b);
        if (a.k == AV::Undef || b.k == AV::Undef) { oblige(S, cb, "uninit", false, "memcmp reads uninitialised memory"); return freshInt(S, 32); }
        if (a.isC() && b.isC()) { int x = (int)((unsigned)(int)a.e.c & 255), y = (int)((unsigned)(int)b.e.c & 255); if (x != y) return AV::mkInt(32, x < y ? fresh(S, smin(32), -1) : fresh(S, 1, smax(32))); continue; }
        if (a.k == AV::Tab && b.k == AV::Tab && a.s == b.s && a.r == b.r) continue;
        if (a.k != AV::Tab && b.k != AV::Tab) return freshInt(S, 32);
        if (a.k == AV::Tab && b.isC()) { int y = (int)((unsigned)(int)b.e.c & 255); CSet lt, eq; for (int c = 0; c < 256; c++) { int x = (int)(tables[a.r][c] & 255); if (x < y) lt.set(c); if (x == y) eq.set(c); } if (decideCS(S, a.s, eq)) continue; return AV::mkInt(32, decideCS(S, a.s, lt) ? fresh(S, smin(32), -1) : fresh(S, 1, smax(32))); }
        if (b.k == AV::Tab && a.isC()) { int x = (int)((unsigned)(int)a.e.c & 255); CSet gt, eq; for (int c = 0; c < 256; c++) { int y = (int)(tables[b.r][c] & 255); if (x < y) gt.set(c); if (x == y) eq.set(c); } if (decideCS(S, b.s, eq)) continue; return AV::mkInt(32, decideCS(S, b.s, gt) ? fresh(S, smin(32), -1) : fresh(S, 1, smax(32))); }
        { std::vector<int64_t> ua(256), ub(256); if (a.k != AV::Tab || b.k != AV::Tab) return freshInt(S, 32); for (int c = 0; c < 256; c++) { ua[c] = tables[a.r][c] & 255; ub[c] = tables[b.r][c] & 255; } { int t1 = internTable(ua), t2 = internTable(ub); if (t1 == t2 && decideTabEq(S, t1, a.s, b.s)) continue; } Lin x = tabToLin(S, a.s, internTable(ua)), y = tabToLin(S, b.s, internTable(ub)); if (decideEq(S, x - y)) continue; Lin d = y - x; d.c -= 1; return AV::mkInt(32, decideGe(S, d) ? fresh(S, smin(32), -1) : fresh(S, 1, smax(32))); }
      }
      return AV::mkInt(32, Lin((I)0));
    }
    int Ka = -1, Kb = -1; Lin ia, ib; auto one = [&](const AV &x, int &K, Lin &ix) { for (auto &s : S.r(x.r).segs) if (leq(S, s.lo, x.e) && S.P.entails(s.hi - x.e - n)) { if (s.d.k == Desc::Orig) { K = s.d.K_; ix = x.e + s.d.sh; } break; } };
    one(p, Ka, ia); one(q, Kb, ib);
    if (Ka >= 0 && Kb >= 0) {
      if (Ka == Kb && provEq(S, ia, ib)) return AV::mkInt(32, Lin((I)0));
      for (auto &f : S.cfacts) if (!f.fold && f.Ka == Ka && f.Kb == Kb && provEq(S, f.a, ia) && provEq(S, f.b, ib) && provEq(S, f.n, n)) return AV::mkInt(32, f.rel == 0 ? Lin((I)0) : f.rel < 0 ? fresh(S, smin(32), -1) : fresh(S, 1, smax(32)));
      int c = choose(S, 3); int rel = c == 0 ? 0 : c == 1 ? -1 : 1; S.cfacts.push_back({Ka, Kb, ia, ib, n, rel, false}); return AV::mkInt(32, rel == 0 ? Lin((I)0) : rel < 0 ? fresh(S, smin(32), -1) : fresh(S, 1, smax(32)));
    }
    int c = choose(S, 3); return AV::mkInt(32, c == 0 ? Lin((I)0) : c == 1 ? fresh(S, smin(32), -1) : fresh(S, 1, smax(32)));
  }
  AV strlenModel(State &S, const CallBase *cb, AV p) {
    if (p.k != AV::Ptr) { derefOb(S, cb, p, Lin((I)1), false, " by strlen"); }
    if (!S.r(p.r).alive) derefOb(S, cb, p, Lin((I)1), false, " by strlen");
    if (S.r(p.r).cstr) { Lin d = S.r(p.r).slen - p.e; if (S.P.entails(d) && S.P.entails(p.e)) { oblige(S, cb, "mem", true, "strlen"); return AV::mkInt(64, d); } derefOb(S, cb, p, Lin((I)1), false, " by strlen"); assumeGe(S, d); return AV::mkInt(64, d); }
    std::string s; if (S.r(p.r).gv && S.r(p.r).gv->isConstant() && constStr(S, p, s)) return AV::mkInt(64, Lin((I)s.size()));
    for (auto &c : std::vector<Seg>(S.r(p.r).segs)) if (c.d.k == Desc::Const && c.d.cst == 0 && leq(S, p.e, c.lo) && S.P.entails(c.hi - c.lo - Lin((I)1))) {
        Lin n = fresh(S, 0, p2(40)); assumeGe(S, c.lo - p.e - n); // first terminator is at or before this one
        oblige(S, cb, "mem", true, "strlen"); if (provEq(S, c.lo, p.e)) return AV::mkInt(64, Lin((I)0)); return AV::mkInt(64, n); }
    if (p.e.isConst()) { for (I k = p.e.c;; k++) { AV q = AV::mkPtr(p.r, Lin(k)); derefOb(S, cb, q, Lin((I)1), false, " by strlen"); AV b = loadByte(S, p.r, Lin(k), cb); CSet z; z.set(0); b = norm(S, b); bool zero = b.isC() ? b.e.c == 0 : b.k == AV::Tab ? [&] { CSet t; for (int c = 0; c < 256; c++) if ((tables[b.r][c] & 255) == 0) t.set(c); return decideCS(S, b.s, t); }() : (bool)choose(S, 2); if (zero) return AV::mkInt(64, Lin(k - p.e.c)); if (k > p.e.c + 4096) break; } }
    oblige(S, cb, "mem", false, "strlen of memory not known to contain a terminator"); Lin n = fresh(S, 0, p2(31)); assumeGe(S, S.r(p.r).size - p.e - n - Lin((I)1)); return AV::mkInt(64, n);
  }
  AV ctype(State &S, const CallBase *cb, const std::string &nm, AV a) {
    a = norm(S, a); std::vector<int64_t> f(257); // index -1..255 -> 0..256
    for (int c = -1; c < 256; c++) { int64_t r = 0; if (nm == "toupper") r = c >= 'a' && c <= 'z' ? c - 32 : c; else if (nm == "tolower") r = c >= 'A' && c <= 'Z' ? c + 32 : c; else if (nm == "isdigit") r = c >= '0' && c <= '9'; else if (nm == "isxdigit") r = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); else if (nm == "isspace") r = c == ' ' || (c >= 9 && c <= 13); else if (nm == "isalpha") r = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); else if (nm == "isalnum") r = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); else if (nm == "isupper") r = c >= 'A' && c <= 'Z'; else if (nm == "islower") r = c >= 'a' && c <= 'z'; else if (nm == "isblank") r = c == ' ' || c == '\t'; else if (nm == "isprint") r = c >= 32 && c < 127; f[c + 1] = r; }
    if (a.isC()) { I v = sx(a.e.c, 32); bool ok = v >= -1 && v <= 255; oblige(S, cb, "ctype", ok, nm + " called with a value outside unsigned char and EOF"); if (!ok) return freshInt(S, 32); return AV::mkInt(32, Lin((I)f[(int)v + 1])); }
    if (a.k == AV::Tab) { bool ok = true; std::vector<int64_t> t(256); for (int k = 0; k < 256; k++) { int64_t v = tables[a.r][k]; if (v < -1 || v > 255) { if (S.bs[a.s][k]) ok = false; t[k] = (nm[0] == 't') ? v : 0; } else t[k] = f[v + 1]; } oblige(S, cb, "ctype", ok, nm + " called with a value outside unsigned char and EOF"); AV r; r.k = AV::Tab; r.w = 32; r.s = a.s; r.r = internTable(t); return norm(S, r); }
    if (a.k == AV::Undef) oblige(S, cb, "uninit", false, nm + " of an uninitialised value");
    else { Lin e = linOf(S, a, cb); Lin lo = e; lo.c += 1; Lin hi = -e; hi.c += 255; oblige(S, cb, "ctype", S.P.entails(lo) && S.P.entails(hi), nm + " called with a value outside unsigned char and EOF"); }
    return freshInt(S, 32);
  }
  void havocPtr(State &S, AV p) { if (p.k != AV::Ptr || S.r(p.r).ro) return; Region &R = S.R(p.r); R.cells.clear(); R.unk = true; R.segs.clear(); Seg s; s.lo = Lin((I)0); s.hi = R.size; s.d.k = Desc::Top; R.segs.push_back(s); }
  void nativeCall(State &S, const CallBase *cb) {
    if (isa<DbgInfoIntrinsic>(cb)) return;
    auto A = [&](unsigned k) { return val(S, cb->getArgOperand(k)); };
    auto retv = [&](AV v) { if (v.k == AV::Int && cb->getType()->isIntegerTy() && v.w == 64 && cb->getType()->getIntegerBitWidth() == PW) v.w = PW; if (!cb->getType()->isVoidTy()) set(S, cb, v); };
    if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
      switch (ii->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyMem(S, cb, A(0), A(1), A(2), false, "struct copy"); return;
      case Intrinsic::memmove: copyMem(S, cb, A(0), A(1), A(2), true, "memmove"); return;
      case Intrinsic::memset: fillMem(S, cb, A(0), A(1), A(2)); return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::donothing: return;
      case Intrinsic::stacksave: retv(AV::mkNull()); return;
      case Intrinsic::vastart: { AV p = A(0); AV v = vaCell(S, cb, p, false); oblige(S, cb, "va", !(v.k == AV::Va && v.s == 1), "va_start on a va_list that is already started"); AV n; n.k = AV::Va; n.r = S.fr.back().vapack; n.s = 1; n.e = Lin((I)0); setVa(S, p, n); return; }
      case Intrinsic::vacopy: { AV d = A(0); AV v = vaCell(S, cb, A(1), true); bool ok = v.s == 1; oblige(S, cb, "va", ok, "va_copy from a va_list that is not usable"); if (!ok) throw PathEnd(); AV o = vaCell(S, cb, d, false); oblige(S, cb, "va", !(o.k == AV::Va && o.s == 1), "va_copy over a started va_list"); if (v.r == -2) { int &c = S.cnt[90]; if (c >= 0 && c < 7) c++; else c = 7; v.e = Lin((I)c); } setVa(S, d, v); return; }
      case Intrinsic::vaend: { AV p = A(0); AV v = vaCell(S, cb, p, true); bool ok = v.s != 2; oblige(S, cb, "va", ok, "va_end twice"); v.s = 2; setVa(S, p, v); return; }
      case Intrinsic::expect: retv(A(0)); return;
      case Intrinsic::fmuladd: case Intrinsic::fma: { AV x = A(0), y = A(1), z = A(2); if (x.k == AV::Undef || y.k == AV::Undef || z.k == AV::Undef) { oblige(S, cb, "uninit", false, "floating-point arithmetic on an uninitialised value"); retv(AV::mkFP()); return; } retv(fpBin(S, Instruction::FAdd, fpBin(S, Instruction::FMul, x, y, cb->getType()), z, cb->getType())); return; }
      case Intrinsic::fabs: { AV a = A(0); if (a.k == AV::FPc) a.d = a.d < 0 ? -a.d : a.d; retv(a); return; }
      case Intrinsic::bswap: { AV a = A(0); retv(a.k == AV::Undef ? a : impInt(S, a.w ? a.w : 32)); return; }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { bool s = ii->getIntrinsicID() == Intrinsic::smax || ii->getIntrinsicID() == Intrinsic::smin, mx = ii->getIntrinsicID() == Intrinsic::smax || ii->getIntrinsicID() == Intrinsic::umax; bool g = cmpInt(S, s ? CmpInst::ICMP_SGE : CmpInst::ICMP_UGE, A(0), A(1), (int)cb->getType()->getIntegerBitWidth(), cb); retv(g == mx ? A(0) : A(1)); return; }
      case Intrinsic::abs: { AV a = A(0); Lin e = toS(S, a, a.w, cb); retv(AV::mkInt(a.w, decideGe(S, e) ? e : -e)); return; }
      default: {
        // llvm.{s,u}{add,sub,mul}.with.overflow
        auto id = ii->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow, ug = id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow || id == Intrinsic::umul_with_overflow;
        if (sg || ug) { int w = (int)cb->getArgOperand(0)->getType()->getIntegerBitWidth(); Lin x = sg ? argS(S, cb, 0) : argU(S, cb, 0), y = sg ? argS(S, cb, 1) : argU(S, cb, 1); Lin e; bool okk = true; if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) e = x + y; else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) e = x - y; else if (y.isConst()) e = x * y.c; else if (x.isConst()) e = y * x.c; else okk = false;
          auto v = std::make_shared<std::vector<AV>>(2); if (!okk) { S.vague = true; (*v)[0] = freshInt(S, w, ug); (*v)[1] = boolAV(choose(S, 2)); } else { Lin lo = e, hi = -e; lo.c = isub(lo.c, sg ? smin(w) : 0); hi.c = iadd(hi.c, sg ? smax(w) : p2(w) - 1); bool of = !decideGe(S, lo) || !decideGe(S, hi); (*v)[0] = of ? freshInt(S, w, ug) : AV::mkInt(w, e, ug); (*v)[1] = boolAV(of); }
          AV a; a.k = AV::Agg; a.agg = v; retv(a); return; }
        unmodelled.insert("intrinsic " + ii->getCalledFunction()->getName().str()); if (!cb->getType()->isVoidTy()) retv(freshOf(S, cb->getType())); return; }
      }
    }
    const Function *F = calleeOf(S, cb);
    if (!F) { AV a = val(S, cb->getCalledOperand()); oblige(S, cb, "mem", false, a.k == AV::Null ? "call through a null function pointer" : a.k == AV::Undef ? "call through an uninitialised function pointer" : "call through an unresolved function pointer"); throw PathEnd(); }
    std::string nm = F->getName().str();
    // ---- harness primitives
    if (nm.rfind("sv_", 0) == 0) {
      if (nm == "sv_int") { retv(freshInt(S, 32)); return; }
      if (nm == "sv_range") { I lo = argC(S, cb, 0), hi = argC(S, cb, 1); if (bound && lo >= 0 && hi - lo > bound) { retv(AV::mkInt(32, Lin(lo + (I)choose(S, bound + 1)))); return; } retv(AV::mkInt(32, lo == hi ? Lin(lo) : fresh(S, lo, hi))); return; }
      if (nm == "sv_lrange") { I lo = argC(S, cb, 0), hi = argC(S, cb, 1); if (bound && lo >= 0 && hi - lo > bound) { retv(AV::mkInt(64, Lin(lo + (I)choose(S, bound + 1)))); return; } retv(AV::mkInt(64, lo == hi ? Lin(lo) : fresh(S, lo, hi))); return; }
      if (nm == "sv_i64") { retv(freshInt(S, 64)); return; }
      if (nm == "sv_u64") { retv(freshInt(S, 64, true)); return; }
      if (nm == "sv_char") { retv(freshByte(S)); return; }
      if (nm == "sv_choice") { retv(AV::mkInt(32, Lin((I)choose(S, (int)argC(S, cb, 0))))); return; }
      if (nm == "sv_float") { retv(AV::mkFP()); return; }
      if (nm == "sv_assume") { if (!truth(S, A(0), cb)) throw PathEnd(); return; }
      if (nm == "sv_fp_bits") { std::string m; constStr(S, A(2), m); AV v = A(0); oblige(S, cb, "check", !(v.k == AV::FP && v.agg && v.w && v.w < argC(S, cb, 1)), m); return; }
      if (nm == "sv_fp_is") { std::string m; constStr(S, A(1), m); int n = (int)argC(S, cb, 2); Poly10 w; for (int k = 0; k < n; k++) w.push_back({argS(S, cb, 3 + 2 * k), argS(S, cb, 4 + 2 * k)}); fpIs(S, cb, A(0), m, w); return; }
      if (nm == "sv_check") { std::string m; constStr(S, A(1), m); bool ok = truth(S, A(0), cb); oblige(S, cb, "check", ok, m); return; }
      if (nm == "sv_fail") { std::string m; constStr(S, A(0), m); oblige(S, cb, "check", false, m); throw PathEnd(); }
      if (nm == "sv_reach") { std::string m; constStr(S, A(0), m); reached[curEntry].insert(m); return; }
      if (nm == "sv_ext") { Lin n = argU(S, cb, 0); bool ro = argC(S, cb, 1); std::string m; constStr(S, A(2), m); retv(AV::mkPtr(extRegion(S, n, ro, m), Lin((I)0))); return; }
      if (nm == "sv_raw") { Lin n = argU(S, cb, 0); I un = argC(S, cb, 1); std::string m; constStr(S, A(2), m); int r = newRegion(S, Region::Raw, m, n); Region &R = S.R(r); R.bytey = true; R.segs.push_back(whole(S, r, Desc::Top)); R.unk = true; if (un) { R.hasAddr = true; R.addr = PW == 32 ? fresh(S, (I)1 << 16, p2(31) - 1) : fresh(S, (I)1 << 32, p2(47)); } retv(AV::mkPtr(r, Lin((I)0))); return; }
      if (nm == "sv_tmp") { Lin n = argU(S, cb, 0); int r = newRegion(S, Region::Stack, "argument", n); S.R(r).segs.push_back(whole(S, r, Desc::Uninit)); retv(AV::mkPtr(r, Lin((I)0))); return; }
      if (nm == "sv_cstring") { Lin n = argU(S, cb, 0); std::string m; constStr(S, A(1), m); Lin sz = n + Lin((I)1); int r = extRegion(S, sz, true, m); Region &R = S.R(r); R.cstr = true; R.slen = n; R.segs[0].hi = n; Seg z; z.lo = n; z.hi = sz; z.d.k = Desc::Const; R.segs.push_back(z); retv(AV::mkPtr(r, Lin((I)0))); return; }
      if (nm == "sv_alloc") { // (ptr, size, owner): reallocating allocator protocol
        AV p = A(0); Lin n = argU(S, cb, 1); AV own = A(2);
        if (!decideGe(S, n - Lin((I)1))) { if (p.k == AV::Null) { retv(AV::mkNull()); return; } heapBase(S, cb, p, "release"); oblige(S, cb, "alloc", own.k == S.r(p.r).ownApp.k && own.r == S.r(p.r).ownApp.r && own.e == S.r(p.r).ownApp.e, "block released through a different allocator"); S.R(p.r).alive = false; bump(S, 2); retv(AV::mkNull()); return; }
        if (p.k == AV::Ptr && S.r(p.r).kind == Region::Heap && S.r(p.r).alive) oblige(S, cb, "alloc", own.k == S.r(p.r).ownApp.k && own.r == S.r(p.r).ownApp.r && own.e == S.r(p.r).ownApp.e, "block reallocated through a different allocator");
        { bool ok = S.P.entails(Lin(p2(40)) - n); oblige(S, cb, "alloc", ok, "allocation size is negative or wrapped around"); if (!ok) { try { assumeGe(S, Lin(p2(40)) - n); } catch (Infeasible &) { throw PathEnd(); } } }
        retv(reallocTo(S, cb, p, n, AV(), own)); return; }
      if (nm == "sv_heap") { Lin n = argU(S, cb, 0); retv(heapNew(S, n, AV(), A(1))); return; }
      if (nm == "sv_bytes") { AV p = A(0); Lin n = toU(S, A(1), 64, cb); if (provEq(S, n, Lin((I)0))) return; derefOb(S, cb, p, n, true, " by the harness"); Seg s; s.lo = p.e; s.hi = p.e + n; s.d.k = Desc::Orig; s.d.K_ = nextK++; s.d.sh = -p.e; writeSegs(S, p.r, s.lo, s.hi, {s}); return; }
      if (nm == "sv_rsize") { AV p = A(0); retv(AV::mkInt(64, p.k == AV::Ptr ? S.r(p.r).size : Lin((I)-1))); return; }
      if (nm == "sv_roff") { AV p = A(0); retv(AV::mkInt(64, p.k == AV::Ptr ? p.e : Lin((I)-1))); return; }
      if (nm == "sv_alive") { AV p = A(0); retv(AV::mkInt(32, Lin((I)(p.k == AV::Ptr && S.r(p.r).alive)))); return; }
      if (nm == "sv_isheap") { AV p = A(0); retv(AV::mkInt(32, Lin((I)(p.k == AV::Ptr && S.r(p.r).alive && S.r(p.r).kind == Region::Heap)))); return; }
      if (nm == "sv_sameobj") { AV p = A(0), q = A(1); retv(AV::mkInt(32, Lin((I)(p.k == AV::Ptr && q.k == AV::Ptr && p.r == q.r)))); return; }
      if (nm == "sv_count") { int k = (int)argC(S, cb, 0); auto it = S.cnt.find(k); int v = it == S.cnt.end() ? 0 : it->second; retv(AV::mkInt(32, v < 0 ? fresh(S, 0, 1 << 30) : Lin((I)v))); return; }
      if (nm == "sv_count_reset") { S.cnt.clear(); return; }
      if (nm == "sv_event") { bump(S, (int)argC(S, cb, 0)); return; }
      if (nm == "sv_live") { int n = 0; for (auto &r : S.rg) if (r && r->kind == Region::Heap && r->alive) n++; retv(AV::mkInt(32, Lin((I)n))); return; }
      if (nm == "sv_freeze") { AV p = A(0); if (p.k == AV::Ptr) S.R(p.r).ro = argC(S, cb, 1) != 0; return; }
      if (nm == "sv_inside") { AV p = A(0), q = A(2); Lin n = toS(S, A(1), 64, cb), m = toS(S, A(3), 64, cb); bool ok = false; if (p.k == AV::Ptr && q.k == AV::Ptr && p.r == q.r) { ok = S.P.entails(p.e - q.e) && S.P.entails(n) && S.P.entails(q.e + m - p.e - n); } retv(AV::mkInt(32, Lin((I)ok))); return; }
      if (nm == "sv_snap") { AV p = A(0); Lin n = toS(S, A(1), 64, cb); Snap sn; sn.len = n; if (!provEq(S, n, Lin((I)0))) { if (p.k != AV::Ptr) throw PathEnd(); sn.segs = bytesAt(S, cb, p, n); } S.snaps.push_back(sn); retv(AV::mkInt(32, Lin((I)S.snaps.size() - 1))); return; }
      if (nm == "sv_content") { AV p = A(0); Lin n = toS(S, A(1), 64, cb); std::string m; constStr(S, A(2), m); int np = (int)argC(S, cb, 3); std::vector<Seg> ex; Lin pos((I)0); bool ok = true;
        for (int k = 0; k < np && ok; k++) { int id = (int)argC(S, cb, 4 + 3 * k); Lin lo = toS(S, A(5 + 3 * k), 64, cb), hi = toS(S, A(6 + 3 * k), 64, cb); ok = sliceSnap(S, id, lo, hi, ex, pos); }
        if (ok) ok = provEq(S, pos, n); if (ok && !provEq(S, n, Lin((I)0))) { std::vector<Seg> got = bytesAt(S, cb, p, n); ok = contentEq(S, got, ex); }
        oblige(S, cb, "check", ok, m); return; }
      if (nm == "sv_all" || nm == "sv_none" || nm == "sv_assume_none" || nm == "sv_assume_all") { AV p = A(0); Lin n = toS(S, A(1), 64, cb); std::string set; constStr(S, A(2), set); CSet cs = setOf(set, nm.find("none") != std::string::npos); bool asmp = nm.find("assume") != std::string::npos;
        bool ok = true; if (!provEq(S, n, Lin((I)0))) { if (p.k != AV::Ptr) ok = false; else for (auto &g : bytesAt(S, cb, p, n)) { if (g.d.k == Desc::Orig) { if (asmp) { RFact f; f.K = g.d.K_; f.lo = g.lo + g.d.sh; f.hi = g.hi + g.d.sh; f.cs = cs; S.rfacts.push_back(f); } else if (!covers(S, g.d.K_, g.lo + g.d.sh, g.hi + g.d.sh, cs)) { Lin len = g.hi - g.lo; bool o2 = false; if (len.isConst() && len.c <= 32) { o2 = true; for (I k = 0; k < len.c && o2; k++) { AV b = norm(S, segByte(S, g, k)); if (b.isC()) o2 = cs[(int)b.e.c & 255]; else if (b.k == AV::Tab && b.r == identTab) o2 = (S.bs[b.s] & ~cs).none(); else o2 = false; } } if (!o2) ok = false; } } else if (g.d.k == Desc::Const) { if (!asmp && !cs[g.d.cst]) ok = false; } else if (g.d.k == Desc::Val) { AV b = norm(S, g.d.val); if (asmp) {} else if (b.isC()) { if (!cs[(int)b.e.c & 255]) ok = false; } else if (b.k == AV::Tab && b.r == identTab) { if ((S.bs[b.s] & ~cs).any()) ok = false; } else ok = false; } else if (!asmp) ok = false; } }
        if (!asmp) { std::string m; constStr(S, A(3), m); oblige(S, cb, "check", ok, m); } return; }
      if (nm == "sv_unroll") { S.unroll = (int)argC(S, cb, 0); return; }
      if (nm == "sv_api") { std::string m; constStr(S, A(0), m); S.lastRet = m; return; }
      if (nm == "sv_tick") { return; }
      if (nm == "sv_va_stream") { AV p = A(0); AV v; v.k = AV::Va; v.r = -2; v.s = 1; v.e = Lin((I)0); setVa(S, p, v); return; }
      if (nm == "sv_va_is_stream") { AV v = vaUse(S, cb, A(0)); retv(AV::mkInt(32, v.r == -2 ? v.e + Lin((I)1) : Lin((I)0))); return; }
      if (nm == "sv_va_status") { AV v = vaCell(S, cb, A(0), false); retv(AV::mkInt(32, Lin((I)(v.k == AV::Va ? v.s : 0)))); return; }
      if (nm == "sv_va_next") { AV p = A(0); AV v = vaUse(S, cb, p); I want = argC(S, cb, 1);
        if (v.r >= 0 && v.r < (int)S.packs.size() && v.e.isConst() && v.e.c < (I)S.packs[v.r].size()) { AV a = S.packs[v.r][(size_t)v.e.c]; if (a.k == AV::Ptr && S.r(a.r).name == "byval" && a.e.isConst() && a.e.c == 0) { v.e = v.e + Lin((I)1); oblige(S, cb, "va", S.r(a.r).size.isConst() && S.r(a.r).size.c == want, "va_arg type does not match the argument"); setVa(S, p, v); retv(a); return; } }
        int r = newRegion(S, Region::Stack, "variadic argument", Lin(want)); S.R(r).segs.push_back(whole(S, r, Desc::Uninit)); I got = 0; if (v.r < 0 || v.r >= (int)S.packs.size()) { oblige(S, cb, "va", false, "va_arg on an unknown argument list"); throw PathEnd(); }
        bool ok = true; while (got < want) { if (!v.e.isConst() || v.e.c >= (I)S.packs[v.r].size()) { ok = false; break; } AV a = S.packs[v.r][(size_t)v.e.c]; v.e = v.e + Lin((I)1); Cell c; c.v = a; c.size = a.k == AV::Int || a.k == AV::Tab ? std::max(1, (int)a.w / 8) : PW / 8; if (got % c.size) got += c.size - got % c.size; S.R(r).cells[(int64_t)got] = c; got += c.size; if (want == 16 && got == 12) got = 16; }
        oblige(S, cb, "va", ok && got == want, ok ? "va_arg type does not match the argument" : "va_arg past the last argument"); if (!ok) throw PathEnd(); setVa(S, p, v); retv(AV::mkPtr(r, Lin((I)0))); return; }
      if (nm == "sv_fmt_len") { // (va_list, format): length the formatter produces, negative on an encoding error; consumes the list
        AV p = A(0); AV v = vaUse(S, cb, p); AV f = A(1); std::string key = std::to_string((long long)v.e.c) + "/" + (f.k == AV::Ptr ? std::to_string(f.r) + "+" + lstr(f.e) : "?"); auto k = std::make_pair(v.r, key); auto it = S.fmtLen.find(k); Lin l; if (it != S.fmtLen.end()) l = it->second; else { l = fresh(S, -1, smax(32)); S.fmtLen[k] = l; } v.s = 3; setVa(S, p, v); retv(AV::mkInt(32, l)); return; }
      if (nm == "sv_fmt_bytes") { // (dst, from 0 to n): the first n bytes of the formatted text of this format
        AV p = A(0); Lin n = toU(S, A(1), 64, cb); AV f = A(2); if (provEq(S, n, Lin((I)0))) return; derefOb(S, cb, p, n, true, " by vsnprintf"); std::string key = f.k == AV::Ptr ? std::to_string(f.r) + "+" + lstr(f.e) : "?"; int &K = fmtK[key]; if (!K) K = nextK++; Seg s; s.lo = p.e; s.hi = p.e + n; s.d.k = Desc::Orig; s.d.K_ = K; s.d.sh = -p.e; killCellsX(S, p.r, s.lo, s.hi, false); writeSegs(S, p.r, s.lo, s.hi, {s}); return; }
      throw Budget{"unknown harness primitive " + nm};
    }
    // ---- C library
    if (nm == "memcpy" || nm == "memmove" || nm == "__memcpy_chk" || nm == "__memmove_chk") { copyMem(S, cb, A(0), A(1), A(2), nm.find("move") != std::string::npos, nm.c_str()); retv(A(0)); return; }
    if (nm == "memset") { fillMem(S, cb, A(0), castInt(S, cb, Instruction::Trunc, A(1), 32, 8), A(2)); retv(A(0)); return; }
    if (nm == "memcmp" || nm == "bcmp") { AV r = memcmpModel(S, cb, A(0), A(1), A(2)); retv(r); return; }
    if (nm == "strlen") { AV r = strlenModel(S, cb, A(0)); retv(r); return; }
    if (nm == "toupper" || nm == "tolower" || nm.rfind("is", 0) == 0) { AV r = ctype(S, cb, nm, A(0)); retv(r); return; }
    if (nm == "malloc") { Lin n = argU(S, cb, 0); bump(S, 1); retv(heapNew(S, n, AV(), AV())); return; }
    if (nm == "calloc") { Lin n = argU(S, cb, 0), m = argU(S, cb, 1); Lin t = n.isConst() ? m * n.c : m.isConst() ? n * m.c : fresh(S, 0, p2(40)); bump(S, 1); AV p = heapNew(S, t, AV(), AV()); S.R(p.r).segs[0].d.k = Desc::Const; S.R(p.r).segs[0].d.cst = 0; retv(p); return; }
    if (nm == "realloc") { Lin n = argU(S, cb, 1); AV r = reallocTo(S, cb, A(0), n, AV(), AV()); retv(r); return; }
    if (nm == "free") { AV p = A(0); if (p.k == AV::Null) return; heapBase(S, cb, p, "release"); S.R(p.r).alive = false; bump(S, 2); return; }
    if (nm == "__assert_fail" || nm == "abort" || nm == "exit" || nm == "_exit") throw PathEnd();
    if (nm == "abs" || nm == "labs" || nm == "llabs") { AV a = A(0); Lin e = toS(S, a, a.w, cb); retv(AV::mkInt(a.w, decideGe(S, e) ? e : -e)); return; }
    if ((nm == "pow" || nm == "powf" || nm == "powl") && cb->arg_size() == 2) { retv(fpPow(S, A(0), A(1), cb->getType())); return; }
    if ((nm == "exp10" || nm == "exp10f" || nm == "exp10l" || nm == "pow10" ) && cb->arg_size() == 1) { retv(fpPow(S, fpC(10), A(0), cb->getType())); return; }
    if ((nm == "__isnan" || nm == "isnan" || nm == "__isnanf" || nm == "__isnanl") && cb->arg_size() == 1) { AV a = A(0); retv(AV::mkInt(32, Lin((I)(fpCmp(S, CmpInst::FCMP_UNO, a, a, cb->getArgOperand(0)->getType()) ? 1 : 0)))); return; }
    static const std::set<std::string> pure = {"pow", "powf", "powl", "fabs", "fabsf", "fabsl", "exp10", "ldexp", "scalbn", "nan", "nanf", "__isnan", "__isinf", "isnan", "log10", "floor", "isinf", "__errno_location"};
    if (!pure.count(nm)) { unmodelled.insert("function " + nm); S.vague = true; for (unsigned k = 0; k < cb->arg_size(); k++) { AV a = A(k); if (a.k == AV::Ptr) havocPtr(S, a); } }
    if (!cb->getType()->isVoidTy()) retv(freshOf(S, cb->getType()));
  }
  std::map<std::string, int> fmtK; std::map<std::string, std::set<std::string>> reached;
  // ---------------------------------------------------------------- printing
  std::string avs(const AV &a) { switch (a.k) { case AV::Undef: return "undef"; case AV::Int: return "i" + std::to_string(a.w) + (a.uns ? "u " : " ") + lstr(a.e); case AV::Tab: return "tab" + std::to_string(a.r) + "(b" + std::to_string(a.s) + ")"; case AV::Ptr: return "&R" + std::to_string(a.r) + "+" + lstr(a.e); case AV::Null: return "null" + lstr(a.e); case AV::Fn: return "fn " + a.fn->getName().str(); case AV::FP: { if (!a.agg) return "fp?"; std::string s = "fp("; for (auto &x : *a.agg) s += lstr(x.e) + ","; return s + ")"; }; case AV::FPc: return "fp " + std::to_string(a.d); case AV::Agg: { std::string s = "{"; for (auto &x : *a.agg) s += avs(x) + ","; return s + "}"; } case AV::Va: return "va"; default: return "?"; } }
  std::string dump(State &S) {
    std::ostringstream o; for (auto &F : S.fr) { o << "frame " << F.F->getName().str() << "\n"; for (auto &p : F.info->num) if (F.env[p.second].k != AV::Undef) { std::string n; raw_string_ostream rs(n); p.first->printAsOperand(rs, false); o << "   " << rs.str() << " = " << avs(F.env[p.second]) << "\n"; } }
    for (size_t i = 0; i < S.rg.size(); i++) if (S.rg[i]) { auto &R = *S.rg[i]; if (R.gv && R.gv->isConstant()) continue; o << " R" << i << " " << R.name << (R.alive ? "" : " DEAD") << " size " << lstr(R.size) << "\n"; for (auto &c : R.cells) o << "     @" << c.first << ":" << c.second.size << " " << avs(c.second.v) << "\n"; for (auto &s : R.segs) o << "     [" << lstr(s.lo) << "," << lstr(s.hi) << ") " << (s.d.k == Desc::Uninit ? "uninit" : s.d.k == Desc::Top ? "top" : s.d.k == Desc::Const ? "const " + std::to_string(s.d.cst) : s.d.k == Desc::Orig ? "K" + std::to_string(s.d.K_) + "@" + lstr(s.d.sh) : "val " + avs(s.d.val)) << "\n"; }
    for (auto &g : S.P.ge) o << "   " << lstr(g) << " >= 0\n"; for (auto &g : S.P.eq) o << "   " << lstr(g) << " == 0\n";
    std::set<int> L; liveSyms(S, L); for (auto &b : S.P.b) if (L.count(b.first)) o << "   " << (b.second.hl ? i2s(b.second.lo) : "-oo") << " <= s" << b.first << " <= " << (b.second.hu ? i2s(b.second.hi) : "oo") << "\n";
    auto csn = [&](const CSet &c) { std::string s; for (int k = 0; k < 256; k++) if (c[k] && s.size() < 60) { if (k > 32 && k < 127) s += (char)k; else s += "\\" + std::to_string(k); } return s; };
    for (auto &f : S.facts) o << "   K" << f.K << "[" << lstr(f.idx) << "] = b" << f.bs << " in {" << csn(S.bs[f.bs]) << "}\n";
    for (auto &f : S.rfacts) o << "   K" << f.K << "[" << lstr(f.lo) << ".." << lstr(f.hi) << ") in {" << csn(f.cs) << "}\n";
    for (auto &x : S.bits) o << "   bit " << x.first.second << " of " << lstr(x.first.first) << " = " << x.second << "\n";
    return o.str();
  }
