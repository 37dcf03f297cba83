  // ---------------------------------------------------------------- instruction semantics
  bool decideCS(State &S, int b, const CSet &T) { CSet c = S.bs[b]; if ((c & T).none()) return false; if ((c & ~T).none()) return true; throw Split{{{Atom{2, {}, b, T}}, {Atom{2, {}, b, ~T}}}}; }
  bool truth(State &S, const AV &a0, const Instruction *i) {
    AV a = norm(S, a0);
    switch (a.k) {
    case AV::Int: if (a.e.isConst()) return a.e.c != 0; return !decideEq(S, a.e);
    case AV::Tab: { CSet t; for (int k = 0; k < 256; k++) if (tables[a.r][k]) t.set(k); return decideCS(S, a.s, t); }
    case AV::Undef: oblige(S, i, "uninit", false, "branch on an uninitialised value"); return choose(S, 2);
    case AV::Ptr: case AV::Fn: return true;
    case AV::Null: return false;
    default: S.vague = true; return choose(S, 2);
    }
  }
  static AV boolAV(bool b) { return AV::mkInt(1, Lin((I)b), true); }
  // x = k*q + r with 0 <= r < k   (floor division by a positive constant)
  std::pair<Lin, Lin> divmod(State &S, const Lin &x, I k) {
    if (x.isConst()) { I q = floordiv(x.c, k); return {Lin(q), Lin(x.c - q * k)}; }
    bool allDiv = true; for (auto &p : x.t) if (p.second % k) allDiv = false;
    if (allDiv) { Lin q; for (auto &p : x.t) q.t.push_back({p.first, p.second / k}); q.c = floordiv(x.c, k); return {q, Lin(x.c - q.c * k)}; }
    { Lin A, B = x; B.t.clear(); for (auto &p : x.t) (p.second % k ? B : A).t.push_back(p); if (!A.t.empty()) { I c = floordiv(B.c, k); B.c -= c * k; auto y = divmod(S, B, k); Lin q; for (auto &p : A.t) q.t.push_back({p.first, p.second / k}); q.c = c; return {q + y.first, y.second}; } }
    auto key = std::make_pair(x, k); auto it = S.divs.find(key); if (it != S.divs.end()) { Lin q = it->second; return {q, x - q * k}; }
    Lin hi = -x; hi.c = iadd(hi.c, k - 1); if (S.P.entails(x) && S.P.entails(hi)) return {Lin((I)0), x};
    I lo, up; Lin q; { int s = nextSym++; auto &b = S.P.b[s]; if (S.P.lower(x, lo)) { b.hl = true; b.lo = floordiv(lo, k); } if (S.P.upper(x, up)) { b.hu = true; b.hi = floordiv(up, k); } q = Lin::sym(s); }
    Lin r = x - q * k; assumeGe(S, r); Lin r2 = -r; r2.c = iadd(r2.c, k - 1); assumeGe(S, r2);
    S.divs[key] = q; return {q, r};
  }
  void addLinOb(State &S, const Instruction *i, const Lin &e, int w, const char *what) {
    Lin lo = e, hi = -e; lo.c = isub(lo.c, smin(w)); hi.c = iadd(hi.c, smax(w));
    bool ok = S.P.entails(lo) && S.P.entails(hi); oblige(S, i, "ovf", ok, std::string("signed overflow in ") + what);
    if (!ok) { try { assumeGe(S, lo); assumeGe(S, hi); } catch (Infeasible &) { throw PathEnd(); } }
  }
  AV andMask(State &S, const AV &x, I m, int w, const Instruction *i) { // m in unsigned form
    I full = p2(w) - 1; m &= full;
    if (m == 0) return AV::mkInt(w, Lin((I)0)); if (m == full) return x;
    int lo = 0; while (!((m >> lo) & 1)) lo++; int hi = w; while (!((m >> (hi - 1)) & 1)) hi--;
    bool contig = (m >> lo) == p2(hi - lo) - 1; int pop = 0; for (int k = 0; k < w; k++) pop += (int)((m >> k) & 1);
    auto byDiv = [&]() { Lin u = toU(S, x, w, i); Lin q = divmod(S, u, p2(lo)).first; Lin r = hi == w ? q : divmod(S, q, p2(hi - lo)).second; Lin v = r * p2(lo); return hi == w ? AV::mkInt(w, v, true) : AV::mkInt(w, v, false); };
    if (contig && (hi == w || (lo == 0 && pop > 1))) return byDiv();
    if (pop <= 6) {
      Lin key = x.k == AV::Int ? x.e : toS(S, x, w, i); I v = 0;
      for (int k = 0; k < w; k++) if ((m >> k) & 1) {
        int bit; auto it = S.bits.find({key, k}); if (it != S.bits.end()) bit = it->second; else { bit = choose(S, 2); S.bits[{key, k}] = bit; }
        if (bit) v |= p2(k); }
      return AV::mkInt(w, Lin((I)sx(v, w)));
    }
    if (contig) return byDiv();
    // generic: 0 <= r <= m
    if (hi == w) return impInt(S, w); return AV::mkInt(w, imp(fresh(S, 0, m)));
  }
  AV binop(State &S, const Instruction *i, unsigned op, AV a, AV b, int w, bool nsw) {
    a = norm(S, a); b = norm(S, b);
    if (a.k == AV::Undef || b.k == AV::Undef) { oblige(S, i, "uninit", false, "arithmetic on an uninitialised value"); return impInt(S, w); }
    if (a.k == AV::Unk || b.k == AV::Unk) return impInt(S, w);
    if (a.k == AV::Ptr || a.k == AV::Null) a = AV::mkInt(PW, linOf(S, a, i)); if (b.k == AV::Ptr || b.k == AV::Null) b = AV::mkInt(PW, linOf(S, b, i));
    oblige(S, i, "uninit", true, "operands");
    if ((op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)) { bool ok = !(b.isC() && b.e.c == 0); if (!b.isC()) { Lin e = linOf(S, b, i); Lin m1 = e; m1.c -= 1; Lin m2 = -e; m2.c -= 1; ok = S.P.entails(m1) || S.P.entails(m2); } oblige(S, i, "ovf", ok, "division by zero"); if (!ok && b.isC()) throw PathEnd(); }
    if (w == 1 && !(a.isC() && b.isC())) { // logical
      bool x = truth(S, a, i), y = truth(S, b, i); a = boolAV(x); b = boolAV(y);
    }
    if (a.isC() && b.isC()) { int64_t r; bool sov; if (evalBin(op, sx(a.e.c, w), sx(b.e.c, w), w, r, sov)) { if (nsw) { oblige(S, i, "ovf", !sov, "signed overflow in constant arithmetic"); if (sov) return impInt(S, w); } return w == 1 ? boolAV(r & 1) : AV::mkInt(w, Lin((I)r)); } return impInt(S, w); }
    auto tabular = [&](const AV &x) { return x.k == AV::Tab; };
    if ((tabular(a) && (b.isC() || (tabular(b) && b.s == a.s))) || (tabular(b) && a.isC())) {
      int bs = tabular(a) ? a.s : b.s; std::vector<int64_t> t(256, 0); bool ok = true, ov = false;
      for (int k = 0; k < 256 && ok; k++) { int64_t x = tabular(a) ? tables[a.r][k] : sx(a.e.c, w), y = tabular(b) ? tables[b.r][k] : sx(b.e.c, w), r = 0; bool sov = false; if (!evalBin(op, x, y, w, r, sov)) { if (S.bs[bs][k]) ok = false; } else { t[k] = r; if (sov && S.bs[bs][k]) ov = true; } }
      if (ok) { if (nsw) oblige(S, i, "ovf", !ov, "signed overflow"); return tabAV(S, bs, t, w); }
    }
    if (a.k == AV::Tab) a = AV::mkInt(w, tabLinF(S, a.s, a.r)); if (b.k == AV::Tab) b = AV::mkInt(w, tabLinF(S, b.s, b.r));
    switch (op) {
    case Instruction::Add: case Instruction::Sub:
      if (nsw) { Lin x = toS(S, a, w, i), y = toS(S, b, w, i); Lin e = op == Instruction::Add ? x + y : x - y; addLinOb(S, i, e, w, op == Instruction::Add ? "addition" : "subtraction"); return AV::mkInt(w, e); }
      { Lin e = op == Instruction::Add ? a.e + b.e : a.e - b.e; return wrapInt(S, e, w, a.uns || b.uns); }
    case Instruction::Mul: {
      if (a.isC()) std::swap(a, b);
      if (b.isC()) { if (nsw) { Lin e = toS(S, a, w, i) * b.e.c; addLinOb(S, i, e, w, "multiplication"); return AV::mkInt(w, e); }
        if (b.e.c == -1) { Lin e = -toU(S, a, w, i); return wrapInt(S, e, w, false); }
        Lin e = a.e * b.e.c; I lo, hi; if (S.P.lower(e, lo) && S.P.upper(e, hi) && lo >= smin(w) && hi <= p2(w) - 1 && (lo >= 0 || hi <= smax(w))) return AV::mkInt(w, e, lo >= 0 && hi > smax(w));
        // possible wrap-around
        e = toU(S, a, w, i) * b.e.c; if (b.e.c > 0) { Lin u = -e; u.c = iadd(u.c, p2(w) - 1); if (decideGe(S, u)) return AV::mkInt(w, e, true); auto dm = divmod(S, e, p2(w)); return AV::mkInt(w, dm.second, true); }
        return impInt(S, w); }
      Lin x = nsw ? toS(S, a, w, i) : a.e, y = nsw ? toS(S, b, w, i) : b.e; I xl, xh, yl, yh; bool bounded = S.P.lower(x, xl) && S.P.upper(x, xh) && S.P.lower(y, yl) && S.P.upper(y, yh); I lo = 0, hi = 0;
      if (bounded) try { I c[4] = {imul(xl, yl), imul(xl, yh), imul(xh, yl), imul(xh, yh)}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); } catch (Ovf &) { bounded = false; }
      if (nsw) { bool ok = bounded && lo >= smin(w) && hi <= smax(w); oblige(S, i, "ovf", ok, "signed overflow in multiplication"); if (!ok) return impInt(S, w); return AV::mkInt(w, imp(fresh(S, lo, hi))); }
      if (bounded && lo >= 0 && hi < p2(w)) return AV::mkInt(w, imp(fresh(S, lo, hi)), true);
      return impInt(S, w); }
    case Instruction::And: if (a.isC()) std::swap(a, b); if (b.isC()) { I m = b.e.c; if (m < 0) m += p2(w); return andMask(S, a, m, w, i); } { Lin x = toU(S, a, w, i), y = toU(S, b, w, i); I h1, h2; I h = p2(w) - 1; if (S.P.upper(x, h1)) h = std::min(h, h1); if (S.P.upper(y, h2)) h = std::min(h, h2); Lin r = imp(fresh(S, 0, h)); assumeGe(S, x - r); assumeGe(S, y - r); return AV::mkInt(w, r, true); }
    case Instruction::Or: case Instruction::Xor: {
      if (a.isC()) std::swap(a, b); if (b.isC() && b.e.c == 0) return a;
      if (op == Instruction::Xor && b.isC() && (b.e.c == -1 || (b.uns && b.e.c == p2(w) - 1))) { Lin e = -toS(S, a, w, i); e.c = isub(e.c, 1); return AV::mkInt(w, e); }
      for (int sw = 0; sw < 2; sw++) { // disjoint bits: x a multiple of 2^k, 0 <= y < 2^k
        AV &x = sw ? b : a, &y = sw ? a : b; I g = x.e.c; for (auto &p : x.e.t) g = igcd(g, p.second); int k = 0; while (k < w && g % p2(k + 1) == 0) k++; if (!k) continue;
        Lin up = -y.e; up.c = iadd(up.c, p2(k) - 1); if (S.P.entails(y.e) && S.P.entails(up)) return AV::mkInt(w, x.e + y.e, x.uns || y.uns); }
      Lin x = toU(S, a, w, i), y = toU(S, b, w, i); I h1, h2; if (S.P.upper(x, h1) && S.P.upper(y, h2)) { int k = 0; while (k < w && (p2(k) <= h1 || p2(k) <= h2)) k++; Lin r = imp(fresh(S, 0, p2(k) - 1)); if (op == Instruction::Or) { assumeGe(S, r - x); assumeGe(S, r - y); } assumeGe(S, x + y - r); return AV::mkInt(w, r, true); }
      return impInt(S, w, true); }
    case Instruction::Shl: {
      if (!b.isC()) { AV r = impInt(S, w, false); return r; }
      I k = b.e.c; if (k < 0 || k >= w) { oblige(S, i, "ovf", false, "shift out of range"); return impInt(S, w); }
      if (nsw) { Lin e = toS(S, a, w, i) * p2((int)k); addLinOb(S, i, e, w, "left shift"); return AV::mkInt(w, e); }
      Lin e = toU(S, a, w, i); Lin u = -e; u.c = iadd(u.c, p2(w - (int)k) - 1); if (S.P.entails(u)) return AV::mkInt(w, e * p2((int)k), true);
      return AV::mkInt(w, divmod(S, e, p2(w - (int)k)).second * p2((int)k), true); }
    case Instruction::LShr: if (!b.isC() || b.e.c < 0 || b.e.c >= w) { return impInt(S, w, true); } return AV::mkInt(w, divmod(S, toU(S, a, w, i), p2((int)b.e.c)).first, b.e.c == 0);
    case Instruction::AShr: if (!b.isC() || b.e.c < 0 || b.e.c >= w) return impInt(S, w); return AV::mkInt(w, divmod(S, toS(S, a, w, i), p2((int)b.e.c)).first);
    case Instruction::UDiv: case Instruction::URem: if (b.isC()) { I k = b.e.c < 0 ? b.e.c + p2(w) : b.e.c; auto dm = divmod(S, toU(S, a, w, i), k); return AV::mkInt(w, op == Instruction::UDiv ? dm.first : dm.second, true); } { Lin x = toU(S, a, w, i), y = toU(S, b, w, i); Lin r = imp(fresh(S, 0, p2(w) - 1)); assumeGe(S, x - r); if (op == Instruction::URem) { Lin t = y - r; t.c -= 1; assumeGe(S, t); } return AV::mkInt(w, r, true); }
    case Instruction::SDiv: case Instruction::SRem:
      if (b.isC() && b.e.c > 0) { Lin x = toS(S, a, w, i); bool pos = decideGe(S, x); auto dm = divmod(S, pos ? x : -x, b.e.c); Lin r = op == Instruction::SDiv ? dm.first : dm.second; return AV::mkInt(w, pos ? r : -r); }
      return impInt(S, w);
    default: return impInt(S, w);
    }
  }
  bool before(State &S, int a, int b) { // region a lies entirely below region b (forks when unknown)
    if (S.order.count({a, b})) return true; if (S.order.count({b, a})) return false;
    addrOf(S, a); addrOf(S, b);
    Lin d = S.r(b).addr - S.r(a).addr - S.r(a).size, d2 = S.r(a).addr - S.r(b).addr - S.r(b).size;
    if (S.P.entails(d)) { S.order.insert({a, b}); return true; } if (S.P.entails(d2)) { S.order.insert({b, a}); return false; }
    int c = choose(S, 2); if (c == 0) { S.order.insert({a, b}); assumeGe(S, d); return true; } S.order.insert({b, a}); assumeGe(S, d2); return false;
  }
  // addresses of different objects compared as integers: settle first which object lies below the other
  void sepAddr(State &S, const Lin &d) {
    if (d.t.size() < 2 || d.isConst()) return; std::vector<int> rs;
    for (size_t r = 0; r < S.rg.size(); r++) if (S.rg[r] && S.rg[r]->hasAddr) { auto &ad = S.rg[r]->addr; if (ad.t.size() == 1 && d.coef(ad.t[0].first)) rs.push_back((int)r); }
    if (rs.size() == 2) before(S, rs[0], rs[1]);
  }
  bool cmpPtr(State &S, CmpInst::Predicate p, const AV &a, const AV &b, const Instruction *i) {
    bool eqp = p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE;
    if (a.k == AV::Fn || b.k == AV::Fn) { if (!eqp) return choose(S, 2); bool eq = a.k == b.k && a.fn == b.fn; if (a.k == AV::Unk || b.k == AV::Unk) return choose(S, 2); return (p == CmpInst::ICMP_EQ) == eq; }
    if (a.k == AV::Undef || b.k == AV::Undef) { oblige(S, i, "uninit", false, "comparison of an uninitialised pointer"); return choose(S, 2); }
    auto ok = [](const AV &x) { return x.k == AV::Ptr || x.k == AV::Null || x.k == AV::Int; };
    if (!ok(a) || !ok(b)) { S.vague = true; return choose(S, 2); }
    Lin x, y;
    if (a.k == AV::Ptr && b.k == AV::Ptr && a.r == b.r) { x = a.e; y = b.e; }
    else {
      if (eqp && (a.k == AV::Null || b.k == AV::Null) && a.k != b.k && (a.k == AV::Ptr || b.k == AV::Ptr)) { const AV &n = a.k == AV::Null ? a : b; if (n.e.isConst() && n.e.c == 0) return p == CmpInst::ICMP_NE; }
      if (a.k == AV::Ptr && b.k == AV::Ptr) {
        if (eqp) { auto inside = [&](const AV &q) { return S.P.entails(q.e) && S.P.entails(S.r(q.r).size - q.e - Lin((I)1)); }; if (inside(a) && inside(b)) return p == CmpInst::ICMP_NE; }
        before(S, a.r, b.r); }
      x = linOf(S, a, i); y = linOf(S, b, i);
    }
    switch (p) {
    case CmpInst::ICMP_EQ: return decideEq(S, x - y); case CmpInst::ICMP_NE: return !decideEq(S, x - y);
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: { Lin d = y - x; d.c -= 1; return decideGe(S, d); }
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return decideGe(S, y - x);
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: { Lin d = x - y; d.c -= 1; return decideGe(S, d); }
    default: return decideGe(S, x - y);
    }
  }
  bool cmpInt(State &S, CmpInst::Predicate p, AV a, AV b, int w, const Instruction *i) {
    a = norm(S, a); b = norm(S, b);
    if (a.k == AV::Undef || b.k == AV::Undef) { oblige(S, i, "uninit", false, "comparison of an uninitialised value"); return choose(S, 2); }
    oblige(S, i, "uninit", true, "operands");
    if (a.k == AV::Unk || b.k == AV::Unk) { S.vague = true; return choose(S, 2); }
    if (a.isC() && b.isC()) return evalCmp(p, sx(a.e.c, w), sx(b.e.c, w), w);
    bool ta = a.k == AV::Tab, tb = b.k == AV::Tab;
    if ((ta && (b.isC() || (tb && a.s == b.s))) || (tb && a.isC())) {
      int bs = ta ? a.s : b.s; CSet t; for (int k = 0; k < 256; k++) if (evalCmp(p, ta ? tables[a.r][k] : sx(a.e.c, w), tb ? tables[b.r][k] : sx(b.e.c, w), w)) t.set(k);
      return decideCS(S, bs, t);
    }
    if (ta && tb && a.r == b.r && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return decideTabEq(S, a.r, a.s, b.s) == (p == CmpInst::ICMP_EQ);
    if (ta && tb && a.r == b.r && p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) { // order two table values: separate "equal" first, then order strictly
      if (decideTabEq(S, a.r, a.s, b.s)) return evalCmp(p, 0, 0, w);
      bool u = !CmpInst::isSigned(p), lt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE;
      AV xa = AV::mkInt(w, tabToLin(S, a.s, a.r)), xb = AV::mkInt(w, tabToLin(S, b.s, b.r)); Lin x = u ? toU(S, xa, w, i) : toS(S, xa, w, i), y = u ? toU(S, xb, w, i) : toS(S, xb, w, i);
      Lin l = y - x, g = x - y; l.c = isub(l.c, 1); g.c = isub(g.c, 1);
      if (S.P.entails(l)) return lt; if (S.P.entails(g)) return !lt;
      throw Split{{{Atom{0, l, 0, {}}}, {Atom{0, g, 0, {}}}}};
    }
    if (ta) a = AV::mkInt(w, tabLinF(S, a.s, a.r)); if (tb) b = AV::mkInt(w, tabLinF(S, b.s, b.r));
    if (a.k == AV::Ptr || a.k == AV::Null) a = AV::mkInt(PW, linOf(S, a, i)); if (b.k == AV::Ptr || b.k == AV::Null) b = AV::mkInt(PW, linOf(S, b, i));
    if (w == 1) { bool x = truth(S, a, i), y = truth(S, b, i); return evalCmp(p, x, y, 1); }
    Lin x, y;
    if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) { if (a.uns == b.uns) { x = a.e; y = b.e; } else if (a.isC() || b.isC()) { x = a.uns ? a.e : a.isC() ? Lin(a.e.c < 0 ? a.e.c + p2(w) : a.e.c) : toU(S, a, w, i); y = b.uns ? b.e : b.isC() ? Lin(b.e.c < 0 ? b.e.c + p2(w) : b.e.c) : toU(S, b, w, i); } else { x = toU(S, a, w, i); y = toU(S, b, w, i); } sepAddr(S, x - y); bool e = decideEq(S, x - y); return (p == CmpInst::ICMP_EQ) == e; }
    if (CmpInst::isSigned(p)) { x = toS(S, a, w, i); y = toS(S, b, w, i); } else { x = toU(S, a, w, i); y = toU(S, b, w, i); }
    sepAddr(S, x - y);
    switch (p) {
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: { Lin d = y - x; d.c -= 1; return decideGe(S, d); }
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return decideGe(S, y - x);
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: { Lin d = x - y; d.c -= 1; return decideGe(S, d); }
    default: return decideGe(S, x - y);
    }
  }
  AV castInt(State &S, const Instruction *i, unsigned op, AV a, int w, int w2) {
    a = norm(S, a);
    if (a.k == AV::Undef || a.k == AV::Unk) return a.k == AV::Undef ? a : impInt(S, w2);
    if (a.k == AV::Ptr || a.k == AV::Null) a = AV::mkInt(PW, linOf(S, a, i));
    if (a.isC()) { I m = p2(w); I v = a.e.c % m; if (v < 0) v += m; if (op == Instruction::SExt && v > smax(w)) v -= m; if (op == Instruction::SExt && w == 1) v = (a.e.c & 1) ? -1 : 0; if (w2 == 1) return boolAV((int)(v & 1)); return AV::mkInt(w2, Lin((I)(w2 > 64 ? (int64_t)v : sx(v, w2)))); }
    if (a.k == AV::Tab) { std::vector<int64_t> t(256); for (int k = 0; k < 256; k++) { I v = tables[a.r][k]; if (op == Instruction::ZExt && v < 0) v += p2(w); if (w == 1 && op == Instruction::SExt) v = v ? -1 : 0; t[k] = w2 == 1 ? (int64_t)(v & 1) : sx(v, w2); } AV r; r.k = AV::Tab; r.w = w2; r.s = a.s; r.r = internTable(t); r.uns = w2 == 1; return norm(S, r); }
    if (w == 1 && op != Instruction::Trunc) { bool b = truth(S, a, i); return AV::mkInt(w2, Lin((I)(b ? (op == Instruction::SExt ? -1 : 1) : 0))); }
    if (op == Instruction::SExt) return AV::mkInt(w2, toS(S, a, w, i));
    if (op == Instruction::ZExt) return AV::mkInt(w2, toU(S, a, w, i));
    // truncation
    if (w2 == 1) { I lo, hi; if (S.P.lower(a.e, lo) && S.P.upper(a.e, hi) && lo >= 0 && hi <= 1) return boolAV(!decideEq(S, a.e)); AV r = andMask(S, a, 1, w, i); return castInt(S, i, op, r, w, 1); }
    { Lin lo = a.e, hi = -a.e; lo.c = isub(lo.c, smin(w2)); hi.c = iadd(hi.c, smax(w2)); if (S.P.entails(lo) && S.P.entails(hi)) return AV::mkInt(w2, a.e); hi.c = iadd(-a.e.c, p2(w2) - 1); if (S.P.entails(a.e) && S.P.entails(hi)) return AV::mkInt(w2, a.e, true); }
    return AV::mkInt(w2, divmod(S, a.e, p2(w2)).second, true);
  }
  AV gep(State &S, const GEPOperator *g, const Instruction *i) {
    AV b = val(S, g->getPointerOperand());
    if (b.k == AV::Int) b = intToPtr(S, b);
    if (b.k == AV::Undef) { oblige(S, i, "uninit", false, "address computed from an uninitialised pointer"); AV u; u.k = AV::Unk; return u; }
    if (b.k != AV::Ptr && b.k != AV::Null) return b;
    for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt) {
      const Value *ix = gt.getOperand();
      if (auto *st = gt.getStructTypeOrNull()) { b.e = b.e + Lin((I)(int64_t)DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()).getFixedValue()); continue; }
      I sz = (I)(int64_t)DL.getTypeAllocSize(gt.getIndexedType()).getFixedValue();
      AV x = val(S, ix); int w = ix->getType()->getIntegerBitWidth();
      if (x.k == AV::Undef) { oblige(S, i, "uninit", false, "address computed from an uninitialised index"); }
      Lin e = x.isC() ? Lin((I)sx(x.e.c, w)) : toS(S, x, w, i); b.e = b.e + e * sz;
    }
    return b;
  }
  void step(State &S, const Instruction *i) {
    if (auto *bo = dyn_cast<BinaryOperator>(i)) {
      Type *T = i->getType();
      if (T->isIntegerTy()) { bool nsw = false; if (auto *o = dyn_cast<OverflowingBinaryOperator>(i)) nsw = o->hasNoSignedWrap(); set(S, i, binop(S, i, bo->getOpcode(), val(S, i->getOperand(0)), val(S, i->getOperand(1)), (int)T->getIntegerBitWidth(), nsw)); return; }
      AV a = val(S, i->getOperand(0)), b = val(S, i->getOperand(1));
      if (a.k == AV::Undef || b.k == AV::Undef) oblige(S, i, "uninit", false, "floating-point arithmetic on an uninitialised value");
      if (T->isFloatingPointTy() && a.k != AV::Undef && b.k != AV::Undef) { set(S, i, fpBin(S, bo->getOpcode(), a, b, T)); return; }
      set(S, i, AV::mkFP()); return;
    }
    switch (i->getOpcode()) {
    case Instruction::FNeg: { AV a = val(S, i->getOperand(0)); if (a.k == AV::FPc) a.d = -a.d; else if (a.k == AV::FP && a.agg) { Poly10 p; toPoly(a, p); for (auto &t : p) t.first = -t.first; uint8_t w = a.w; a = fromPoly(p); a.w = w; } set(S, i, a); return; }
    case Instruction::ICmp: { auto *c = cast<ICmpInst>(i); AV a = val(S, c->getOperand(0)), b = val(S, c->getOperand(1)); bool r = c->getOperand(0)->getType()->isPointerTy() ? cmpPtr(S, c->getPredicate(), a, b, i) : cmpInt(S, c->getPredicate(), a, b, (int)c->getOperand(0)->getType()->getIntegerBitWidth(), i); set(S, i, boolAV(r)); return; }
    case Instruction::FCmp: { auto *c = cast<FCmpInst>(i); AV a = val(S, c->getOperand(0)), b = val(S, c->getOperand(1)); if (a.k == AV::Undef || b.k == AV::Undef) oblige(S, i, "uninit", false, "comparison of an uninitialised floating-point value"); if (a.k == AV::Undef || b.k == AV::Undef) { set(S, i, boolAV(choose(S, 2))); return; } set(S, i, boolAV(fpCmp(S, c->getPredicate(), a, b, c->getOperand(0)->getType()))); return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: set(S, i, castInt(S, i, i->getOpcode(), val(S, i->getOperand(0)), (int)i->getOperand(0)->getType()->getIntegerBitWidth(), (int)i->getType()->getIntegerBitWidth())); return;
    case Instruction::PtrToInt: { AV a = val(S, i->getOperand(0)); if (a.k == AV::Undef || a.k == AV::Unk || a.k == AV::Fn) { set(S, i, a.k == AV::Undef ? a : freshInt(S, PW)); return; } AV r = AV::mkInt(PW, linOf(S, a, i)); int w = (int)i->getType()->getIntegerBitWidth(); if (w < PW) r = castInt(S, i, Instruction::Trunc, r, PW, w); else if (w > PW) r.w = w; set(S, i, r); return; }
    case Instruction::IntToPtr: { AV a = val(S, i->getOperand(0)); if (a.k == AV::Int) a = intToPtr(S, a); set(S, i, a); return; }
    case Instruction::BitCast: case Instruction::Freeze: set(S, i, val(S, i->getOperand(0))); return;
    case Instruction::FPExt: case Instruction::FPTrunc: { AV a = val(S, i->getOperand(0)); if (i->getOpcode() == Instruction::FPTrunc) fpRound(S, a, i->getType()); set(S, i, a); return; }
    case Instruction::SIToFP: case Instruction::UIToFP: { AV a = val(S, i->getOperand(0)); if (a.k == AV::Undef) oblige(S, i, "uninit", false, "conversion of an uninitialised value"); if (a.k != AV::Int && a.k != AV::Tab) { set(S, i, AV::mkFP()); return; } int w = (int)i->getOperand(0)->getType()->getIntegerBitWidth(); AV r = fpOfInt(S, i->getOpcode() == Instruction::UIToFP ? toU(S, a, w, i) : toS(S, a, w, i)); fpRound(S, r, i->getType()); set(S, i, r); return; }
    case Instruction::FPToSI: case Instruction::FPToUI: set(S, i, impInt(S, (int)i->getType()->getIntegerBitWidth())); return;
    case Instruction::Select: set(S, i, truth(S, val(S, i->getOperand(0)), i) ? val(S, i->getOperand(1)) : val(S, i->getOperand(2))); return;
    case Instruction::GetElementPtr: set(S, i, gep(S, cast<GEPOperator>(i), i)); return;
    case Instruction::ExtractValue: { auto *x = cast<ExtractValueInst>(i); AV a = val(S, x->getAggregateOperand()); for (unsigned k : x->indices()) { if (a.k == AV::Agg) { AV t = (*a.agg)[k]; a = t; } else { AV u; u.k = a.k == AV::Undef ? AV::Undef : AV::Unk; a = u; } } if (a.k == AV::Unk) a = freshOf(S, i->getType()); set(S, i, a); return; }
    case Instruction::InsertValue: { auto *x = cast<InsertValueInst>(i); AV a = val(S, x->getAggregateOperand()), v = val(S, x->getInsertedValueOperand()); std::vector<AV> n; if (a.k == AV::Agg) n = *a.agg; else n.resize(cast<StructType>(x->getType())->getNumElements()); n[*x->idx_begin()] = v; AV r; r.k = AV::Agg; r.agg = std::make_shared<std::vector<AV>>(n); set(S, i, r); return; }
    case Instruction::Alloca: { auto *al = cast<AllocaInst>(i); I n = 1; Lin sz; I es = (I)(int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue(); AV c = val(S, al->getArraySize()); (void)n; sz = c.isC() ? Lin(c.e.c * es) : toU(S, c, 64, i) * es;
      int r = newRegion(S, Region::Stack, al->hasName() ? al->getName().str() : "local", sz); Region &R = S.R(r); R.bytey = hasI8Array(al->getAllocatedType()) || al->getAllocatedType()->isIntegerTy(8); Seg s; s.lo = Lin((I)0); s.hi = sz; s.d.k = Desc::Uninit; R.segs.push_back(s); S.fr.back().allocas.push_back(r); set(S, i, AV::mkPtr(r, Lin((I)0))); return; }
    case Instruction::Load: set(S, i, load(S, i, val(S, i->getOperand(0)), i->getType())); return;
    case Instruction::Store: store(S, i, val(S, i->getOperand(1)), val(S, i->getOperand(0)), i->getOperand(0)->getType()); return;
    case Instruction::Call: nativeCall(S, cast<CallBase>(i)); return;
    case Instruction::Fence: return;
    default: unmodelled.insert(std::string("instruction ") + i->getOpcodeName()); if (!i->getType()->isVoidTy()) set(S, i, freshOf(S, i->getType())); return;
    }
  }
  // ---------------------------------------------------------------- control flow
  struct Out { std::vector<State> rets, backs; std::vector<std::pair<const BasicBlock *, State>> exits; };
  typedef std::map<int, std::vector<std::pair<const BasicBlock *, State>>> Work;
  static bool mayFork(const Instruction *i) {
    switch (i->getOpcode()) { case Instruction::Alloca: case Instruction::ExtractValue: case Instruction::InsertValue: case Instruction::BitCast: case Instruction::FNeg: case Instruction::PHI: return false; default: return true; }
  }
  void tick() { if (++steps > maxSteps) throw Budget{"step budget exhausted"}; if ((steps & 255) == 0 && now() > deadline) throw Budget{"time budget exhausted"}; }
  static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  void phiAssign(State &S, const BasicBlock *from, const BasicBlock *to) {
    auto &f = S.fr.back(); std::vector<std::pair<int, AV>> nv;
    for (auto &ph : to->phis()) nv.push_back({f.info->num[&ph], val(S, ph.getIncomingValueForBlock(from))});
    auto &F = S.fr.back(); for (auto &p : nv) F.env[p.first] = p.second;
    auto &live = F.info->liveIn[to]; for (int k = 0; k < F.info->n; k++) if (!live[k] && F.env[k].k != AV::Undef) F.env[k] = AV();
  }
  void route(Loop *L, const BasicBlock *from, const BasicBlock *to, State S, Out &out, Work &w) {
    if (from) phiAssign(S, from, to);
    if (L && to == L->getHeader()) { out.backs.push_back(std::move(S)); return; }
    if (L && !L->contains(to)) { out.exits.push_back({to, std::move(S)}); return; }
    FnInfo *fi = S.fr.back().info; w[fi->rpo[to]].push_back({to, std::move(S)});
  }
  void runRegion(Loop *L, const BasicBlock *start, std::vector<State> in, Out &out) {
    if (in.empty()) return;
    FnInfo *fi = in[0].fr.back().info; Work w; for (auto &s : in) w[fi->rpo[start]].push_back({start, std::move(s)});
    bool first = true;
    while (!w.empty()) {
      auto it = w.begin(); auto items = std::move(it->second); w.erase(it);
      const BasicBlock *bb = items[0].first; Loop *bl = fi->LI->getLoopFor(bb);
      if (bl && bl != L && bl->getHeader() == bb && !(first && L && bb == L->getHeader())) {
        std::vector<State> ss; for (auto &x : items) ss.push_back(std::move(x.second));
        Out o; solveLoop(bl, std::move(ss), o);
        for (auto &r : o.rets) out.rets.push_back(std::move(r));
        for (auto &e : o.exits) { if (L && e.first == L->getHeader()) out.backs.push_back(std::move(e.second)); else if (L && !L->contains(e.first)) out.exits.push_back(std::move(e)); else { int n = fi->rpo[e.first]; w[n].push_back(std::move(e)); } }
        first = false; continue;
      }
      first = false;
      if (items.size() > mergeAt) { std::vector<State> ss; for (auto &x : items) ss.push_back(std::move(x.second)); mergeStates(ss); items.clear(); for (auto &s : ss) items.push_back({bb, std::move(s)}); }
      for (auto &x : items) execBlock(L, bb, std::move(x.second), out, w);
    }
  }
  // knowledge about values first named by an abandoned step: kept, so that the repeated step finds the same names
  void carry(State &T, const State &S, int symB, int bsB) {
    if (nextSym == symB && nextBs == bsB) return;
    auto isNew = [&](const Lin &l) { for (auto &p : l.t) if (p.first >= symB) return true; return false; };
    for (auto &x : S.P.b) if (x.first >= symB) T.P.b[x.first] = x.second;
    for (auto &g : S.P.ge) if (isNew(g)) T.P.ge.push_back(g);
    for (auto &g : S.P.eq) if (isNew(g)) T.P.eq.push_back(g);
    for (auto &x : S.bs) if (!T.bs.count(x.first)) T.bs.insert(x);
    for (auto &x : S.tabLin) if (!T.tabLin.count(x.first)) T.tabLin.insert(x);
    for (auto &f : S.facts) if (f.bs >= bsB) T.facts.push_back(f);
    for (size_t k = 0; k < T.rg.size() && k < S.rg.size(); k++) if (T.rg[k] && S.rg[k] && S.r((int)k).hasAddr && !T.r((int)k).hasAddr) { Region &R = T.R((int)k); R.hasAddr = true; R.addr = S.r((int)k).addr; }
    for (auto &x : S.divs) if (!T.divs.count(x.first)) T.divs.insert(x);
    for (auto &x : S.fmtLen) if (!T.fmtLen.count(x.first)) T.fmtLen.insert(x);
  }
  void execBlock(Loop *L, const BasicBlock *bb, State S0, Out &out, Work &w) {
    covered.insert(bb);
    std::vector<std::pair<BasicBlock::const_iterator, State>> st; st.push_back({bb->begin(), std::move(S0)});
    while (!st.empty()) {
      auto it = st.back().first; State S = std::move(st.back().second); st.pop_back();
      for (bool go = true; go;) {
        const Instruction *i = &*it; if (isa<PHINode>(i)) { ++it; continue; }
        tick();
        if (auto *cb = dyn_cast<CallBase>(i)) if (const Function *F = bodyOf(S, cb)) {
          std::vector<State> rs; callFunction(std::move(S), cb, F, rs); ++it;
          for (size_t k = rs.size(); k-- > 0;) st.push_back({it, std::move(rs[k])});
          break;
        }
        bool fk = mayFork(i); State bk; if (fk) bk = S; int symB = nextSym, bsB = nextBs;
        try {
          if (i->isTerminator()) {
            if (auto *br = dyn_cast<BranchInst>(i)) {
              if (br->isUnconditional()) { route(L, bb, br->getSuccessor(0), std::move(S), out, w); go = false; continue; }
              ovfMark = nOvf; bool t = truth(S, val(S, br->getCondition()), i); if (nOvf != ovfMark) S.vague = true; S.replay.clear(); S.rpos = 0;
              auto n = std::make_shared<TNode>(); n->up = S.trace; n->i = i; n->v = t; S.trace = n;
              route(L, bb, br->getSuccessor(t ? 0 : 1), std::move(S), out, w); go = false; continue;
            }
            if (auto *sw = dyn_cast<SwitchInst>(i)) {
              AV c = val(S, sw->getCondition()); const BasicBlock *tgt = sw->getDefaultDest(); int ww = (int)sw->getCondition()->getType()->getIntegerBitWidth();
              for (auto &cs : sw->cases()) if (cmpInt(S, CmpInst::ICMP_EQ, c, constVal(S, cs.getCaseValue()), ww, i)) { tgt = cs.getCaseSuccessor(); break; }
              S.replay.clear(); S.rpos = 0; route(L, bb, tgt, std::move(S), out, w); go = false; continue;
            }
            if (auto *rt = dyn_cast<ReturnInst>(i)) { if (rt->getReturnValue()) S.ret = val(S, rt->getReturnValue()); else S.ret = AV(); out.rets.push_back(std::move(S)); go = false; continue; }
            go = false; continue; // unreachable
          }
          ovfMark = nOvf; step(S, i); if (nOvf != ovfMark) S.vague = true; S.replay.clear(); S.rpos = 0; ++it;
        } catch (Split &sp) { if (getenv("AI_SPLIT")) { std::string n; raw_string_ostream rs(n); i->print(rs); fprintf(stderr, "split %s %s\n", where(i).c_str(), n.c_str()); for (auto &al : sp.alts) { fprintf(stderr, "   alt:"); for (auto &a : al) fprintf(stderr, " [k%d %s]", (int)a.kind, lstr(a.e).c_str()); fprintf(stderr, "\n"); } }
          nSplits++; go = false; bool sv = splitVague || nOvf != ovfMark; splitVague = false;
          for (size_t k = sp.alts.size(); k-- > 0;) { State T = bk; T.rpos = 0; T.vague |= sv; carry(T, S, symB, bsB); try { for (auto &a : sp.alts[k]) apply(T, a); st.push_back({it, std::move(T)}); } catch (Infeasible &) {} }
        } catch (Choose &c) {
          nSplits++; go = false;
          for (int k = c.n; k-- > 0;) { State T = bk; T.rpos = 0; carry(T, S, symB, bsB); T.replay.push_back(k); st.push_back({it, std::move(T)}); }
        } catch (PathEnd &) { go = false; } catch (Infeasible &) { go = false; }
      }
    }
  }
  const Function *calleeOf(State &S, const CallBase *cb) {
    if (auto *f = cb->getCalledFunction()) return f;
    AV a = val(S, cb->getCalledOperand()); if (a.k == AV::Fn) return a.fn; return nullptr;
  }
  const Function *bodyOf(State &S, const CallBase *cb) { const Function *f = calleeOf(S, cb); if (!f || f->isDeclaration() || f->isIntrinsic()) return nullptr; if (isNativeName(f->getName())) return nullptr; return f; }
  void callFunction(State S, const CallBase *cb, const Function *F, std::vector<State> &res) {
    if (S.fr.size() > 60) throw Budget{"call depth exceeded in " + F->getName().str()};
    std::vector<AV> args, extra; unsigned np = F->arg_size();
    if (cb->arg_size() < np) { oblige(S, cb, "mem", false, "call with too few arguments"); return; }
    for (unsigned k = 0; k < cb->arg_size(); k++) {
      AV a = val(S, cb->getArgOperand(k));
      if (cb->isByValArgument(k)) {
        Type *T = cb->getParamByValType(k); int r = newRegion(S, Region::Stack, "byval", Lin((I)(int64_t)DL.getTypeAllocSize(T).getFixedValue())); Seg s; s.lo = Lin((I)0); s.hi = S.r(r).size; s.d.k = Desc::Uninit; S.R(r).segs.push_back(s);
        try { copyMem(S, cb, AV::mkPtr(r, Lin((I)0)), a, AV::mkInt(64, S.r(r).size), false, "argument copy"); } catch (PathEnd &) { return; } a = AV::mkPtr(r, Lin((I)0)); S.fr.back().allocas.push_back(r);
      }
      if (k < np) args.push_back(a); else extra.push_back(a);
    }
    Frame fr; fr.F = F; fr.info = &info(F); fr.env.resize(fr.info->n); fr.cs = cb;
    for (unsigned k = 0; k < np; k++) fr.env[fr.info->num[F->getArg(k)]] = args[k];
    if (F->isVarArg()) { fr.vapack = (int)S.packs.size(); S.packs.push_back(extra); }
    if (isHarness(cb->getFunction())) S.lastRet = F->getName().str();
    S.fr.push_back(std::move(fr));
    Out o; std::vector<State> in; in.push_back(std::move(S)); runRegion(nullptr, &F->getEntryBlock(), std::move(in), o);
    for (auto &T : o.rets) {
      AV rv = T.ret; T.ret = AV(); popFrame(T); if (!cb->getType()->isVoidTy()) set(T, cb, rv);
      res.push_back(std::move(T));
    }
    if (res.size() > mergeAt) { for (auto &T : res) gc(T); mergeStates(res); }
    else for (auto &T : res) if (T.rg.size() > 40) gc(T);
  }
  void popFrame(State &S) {
    Frame &f = S.fr.back();
    for (int r : f.allocas) if (S.rg[r]) {
      for (auto &c : S.r(r).cells) if (c.second.v.k == AV::Va && c.second.v.s == 1) { const Instruction *ci = f.F->getEntryBlock().getTerminator(); oblige(S, ci, "va", false, "function returns without va_end for a started va_list"); }
      S.R(r).alive = false; }
    S.fr.pop_back();
  }
