  // ---------------------------------------------------------------- floating-point values as exact decimal polynomials
  // An AV::FP with agg = [c0,e0,c1,e1,...] stands for the real number sum(c_k * 10^e_k), rounding ignored; without agg: unknown.
  typedef std::vector<std::pair<Lin, Lin>> Poly10;
  static int maxExp10(Type *T) { return T->isFloatTy() ? 38 : T->isDoubleTy() ? 308 : 4932; }
  static bool isInf(const AV &a) { return a.k == AV::FPc && (a.d == __builtin_inf() || a.d == -__builtin_inf()); }
  static bool isNan(const AV &a) { return a.k == AV::FPc && a.d != a.d; }
  static AV fpC(double d) { AV a; a.k = AV::FPc; a.d = d; return a; }
  bool toPoly(const AV &a, Poly10 &o) {
    o.clear();
    if (a.k == AV::FP && a.agg) { for (size_t i = 0; i + 1 < a.agg->size(); i += 2) o.push_back({(*a.agg)[i].e, (*a.agg)[i + 1].e}); return true; }
    if (a.k != AV::FPc || isInf(a) || isNan(a)) return false;
    if (a.d == 0) return true;
    char b[64]; int p = 1; for (; p <= 17; p++) { snprintf(b, sizeof b, "%.*e", p - 1, a.d); if (strtod(b, nullptr) == a.d) break; }
    std::string m; int ex = 0; bool neg = false; for (char *c = b; *c; c++) { if (*c == '-' && c == b) neg = true; else if (*c == 'e') { ex = atoi(c + 1); break; } else if (*c != '.') m.push_back(*c); }
    ex -= (int)m.size() - 1; while (m.size() > 1 && m.back() == '0') { m.pop_back(); ex++; }
    I v = 0; for (char c : m) v = v * 10 + (c - '0'); o.push_back({Lin(neg ? -v : v), Lin((I)ex)}); return true;
  }
  static I pow10I(int k) { I r = 1; if (k < 0 || k > 37) throw Ovf(); while (k--) r = imul(r, 10); return r; }
  AV fromPoly(const Poly10 &p0) {
    Poly10 p; for (auto &t : p0) { bool f = false; for (auto &q : p) if (q.second == t.second) { q.first = q.first + t.first; f = true; break; } if (!f) p.push_back(t); }
    auto v = std::make_shared<std::vector<AV>>(); for (auto &t : p) if (!(t.first.isConst() && t.first.c == 0)) { v->push_back(AV::mkInt(64, t.first)); v->push_back(AV::mkInt(64, t.second)); }
    if (v->size() > 120) return AV::mkFP(); if (v->empty()) return fpC(0); AV a = AV::mkFP(); a.agg = v; return a;
  }
  AV fpOfInt(State &S, const Lin &e) { (void)S; if (e.isConst() && iabs(e.c) < ((I)1 << 53)) return fpC((double)e.c); return fromPoly({{e, Lin((I)0)}}); }
  // the number of bits the roundings so far have kept is in w (0: no rounding yet)
  static int mantBits(Type *T) { return T->isFloatTy() ? 24 : T->isDoubleTy() ? 53 : 64; }
  void fpRound(State &S, AV &a, Type *T) {
    if (a.k != AV::FP || !a.agg) return; int b = mantBits(T); if (a.w && a.w <= b) return; bool exact = a.w == 0 && a.agg->size() == 2 && (*a.agg)[1].e.isConst() && (*a.agg)[1].e.c == 0;
    if (exact) { I hi, lo; const Lin &c = (*a.agg)[0].e; exact = S.P.upper(c, hi) && S.P.lower(c, lo) && hi <= ((I)1 << b) && lo >= -((I)1 << b); }
    if (!exact) a.w = b;
  }
  int polySign(State &S, const Poly10 &p) { bool nn = true, np = true; for (auto &t : p) { if (!S.P.entails(t.first)) nn = false; if (!S.P.entails(-t.first)) np = false; } return nn && np ? 0 : nn ? 1 : np ? -1 : 2; }
  // the whole as one linear expression times 10^x, where the exponents differ by constants
  bool collapse(const Poly10 &p, Lin &out) {
    out = Lin((I)0); if (p.empty()) return true; I lo = 0; bool f = true;
    for (auto &t : p) { Lin d = t.second - p[0].second; if (!d.isConst()) return false; if (f || d.c < lo) lo = d.c; f = false; }
    try { for (auto &t : p) { Lin d = t.second - p[0].second; out = out + t.first * pow10I((int)isub(d.c, lo)); } } catch (Ovf) { return false; }
    return true;
  }
  // 1 infinite in type T, 0 finite, -1 unknown
  int polyInf(State &S, const Poly10 &p, int mx) {
    int sg = polySign(S, p); if (sg == 2) return -1; if (sg == 0) return 0; bool fin = true;
    for (auto &t : p) { I hi, lo; Lin c = sg < 0 ? -t.first : t.first; int len = 0; if (S.P.upper(c, hi) && S.P.lower(c, lo)) { I m = std::max(iabs(hi), iabs(lo)); while (m) { m /= 10; len++; } } else len = 40;
      Lin d = -t.second; d.c = iadd(d.c, mx - 3 - len); if (!decideGe(S, d)) { fin = false; break; } }
    if (fin) return 0;
    for (auto &t : p) { Lin c = sg < 0 ? -t.first : t.first; c.c = isub(c.c, 1); Lin d = t.second; d.c = isub(d.c, mx + 1); if (S.P.entails(d) && decideGe(S, c)) return 1; if (decideGe(S, d) && decideGe(S, c)) return 1; }
    return -1;
  }
  AV fpBin(State &S, unsigned op, const AV &a, const AV &b, Type *T) {
    AV r = fpBin0(S, op, a, b, T);
    if (r.k == AV::FP && r.agg) {
      bool add = op == Instruction::FAdd || op == Instruction::FSub, ta = a.k == AV::FPc && a.d == (add ? 0 : 1), tb = b.k == AV::FPc && b.d == (add ? 0 : 1);
      if (ta && op != Instruction::FDiv) r.w = b.w; else if (tb) r.w = a.w; else { int w = mantBits(T); if (a.w) w = std::min<int>(w, a.w); if (b.w) w = std::min<int>(w, b.w); r.w = w; }
    }
    if (getenv("AI_FP") && r.k == AV::FP && !r.agg) fprintf(stderr, "FPBIN %u %s , %s\n", op, avs(a).c_str(), avs(b).c_str()); return r; }
  AV fpBin0(State &S, unsigned op, const AV &a, const AV &b, Type *T) {
    if (a.k == AV::FPc && b.k == AV::FPc && T->isDoubleTy() && op != Instruction::FDiv && op != Instruction::FRem) return fpC(op == Instruction::FAdd ? a.d + b.d : op == Instruction::FSub ? a.d - b.d : a.d * b.d);
    if (isNan(a) || isNan(b)) return fpC(__builtin_nan(""));
    try {
      Poly10 x, y; bool px = toPoly(a, x), py = toPoly(b, y);
      switch (op) {
      case Instruction::FAdd: case Instruction::FSub: {
        if (isInf(a) && py) return a; if (isInf(b) && px) return fpC(op == Instruction::FAdd ? b.d : -b.d);
        if (!px || !py) return AV::mkFP(); for (auto &t : y) x.push_back({op == Instruction::FAdd ? t.first : -t.first, t.second}); return fromPoly(x); }
      case Instruction::FMul: case Instruction::FDiv: {
        if (op == Instruction::FMul && (isInf(a) || isInf(b))) {
          const AV &f = isInf(a) ? a : b; const AV &o = isInf(a) ? b : a; Poly10 &q = isInf(a) ? y : x; if (isInf(o)) return fpC(f.d * o.d); if (!(isInf(a) ? py : px)) return AV::mkFP();
          int sg = polySign(S, q); if (sg == 2) return AV::mkFP(); if (sg == 0) return fpC(__builtin_nan(""));
          for (auto &t : q) { Lin c = sg < 0 ? -t.first : t.first; c.c = isub(c.c, 1); if (decideGe(S, c)) return fpC(sg * f.d); }
          return fpC(__builtin_nan("")); }
        if (!px || !py) return AV::mkFP();
        if (op == Instruction::FDiv) { if (y.size() != 1 || !y[0].first.isConst() || iabs(y[0].first.c) != 1) return AV::mkFP(); for (auto &t : x) { t.first = t.first * y[0].first.c; t.second = t.second - y[0].second; } return fromPoly(x); }
        if (x.empty() || y.empty()) return fpC(0);
        if (!(y.size() == 1 && y[0].first.isConst())) std::swap(x, y); if (!(y.size() == 1 && y[0].first.isConst())) return AV::mkFP();
        for (auto &t : x) { t.first = t.first * y[0].first.c; t.second = t.second + y[0].second; } return fromPoly(x); }
      default: return AV::mkFP();
      }
    } catch (Ovf) { return AV::mkFP(); }
  }
  AV fpPow(State &S, const AV &base, const AV &ex, Type *T) {
    Poly10 b, e; if (!toPoly(base, b) || b.size() != 1 || !b[0].first.isConst() || !b[0].second.isConst()) return AV::mkFP();
    if (!((b[0].first.c == 10 && b[0].second.c == 0) || (b[0].first.c == 1 && b[0].second.c == 1))) return AV::mkFP();
    if (!toPoly(ex, e)) return AV::mkFP(); Lin E((I)0);
    try { for (auto &t : e) { if (!t.second.isConst()) return AV::mkFP(); if (t.second.c < 0) return AV::mkFP(); E = E + t.first * pow10I((int)t.second.c); } } catch (Ovf) { return AV::mkFP(); }
    int mx = maxExp10(T); { Lin d = E; d.c = isub(d.c, mx + 1); if (decideGe(S, d)) return fpC(__builtin_inf()); } { Lin d = -E; d.c = isub(d.c, mx + 20); if (decideGe(S, d)) return fpC(0); }
    AV r = fromPoly({{Lin((I)1), E}}); I hi, lo; if (!(S.P.upper(E, hi) && S.P.lower(E, lo) && lo >= 0 && hi <= (T->isFloatTy() ? 10 : T->isDoubleTy() ? 22 : 27))) r.w = mantBits(T); return r;
  }
  bool fpCmp(State &S, CmpInst::Predicate p, const AV &a, const AV &b, Type *T) {
    auto ev = [&](double x, double y) { return FCmpInst::compare(APFloat(x), APFloat(y), p); };
    if (a.k == AV::FPc && b.k == AV::FPc) return ev(a.d, b.d);
    if (isNan(a) || isNan(b)) return ev(__builtin_nan(""), 0);
    Poly10 x, y; bool px = toPoly(a, x), py = toPoly(b, y);
    auto unknown = [&]() -> bool { S.vague = true; if (getenv("AI_FP")) fprintf(stderr, "FPCMP %s ? %s  %s %s\n", avs(a).c_str(), avs(b).c_str(), a.agg ? avs((*a.agg)[0]).c_str() : "-", a.agg ? avs((*a.agg)[1]).c_str() : "-"); return choose(S, 2); };
    if (!(px || isInf(a)) || !(py || isInf(b))) return unknown();
    if (isInf(a) || isInf(b)) { int r = polyInf(S, px ? x : y, maxExp10(T)); if (r < 0) return unknown(); double v = r ? (polySign(S, px ? x : y) < 0 ? -__builtin_inf() : __builtin_inf()) : 0; return px ? ev(v, b.d) : ev(a.d, v); }
    // an infinite value is equal to itself; NaN does not arise here
    if (p == CmpInst::FCMP_ORD) return true; if (p == CmpInst::FCMP_UNO) return false;
    for (auto &t : y) x.push_back({-t.first, t.second}); Poly10 d; AV dv; try { dv = fromPoly(x); } catch (Ovf) { return unknown(); } if (!toPoly(dv, d)) return unknown();
    if (d.empty()) return ev(0, 0);
    Lin l; int sg = polySign(S, d);
    if (sg == 1 || sg == -1) { for (auto &t : d) { Lin c = sg < 0 ? -t.first : t.first; c.c = isub(c.c, 1); if (decideGe(S, c)) return ev(sg, 0); } return ev(0, 0); }
    if (!collapse(d, l)) return unknown();
    try { if (decideEq(S, l)) return ev(0, 0); l.c = isub(l.c, 1); return ev(decideGe(S, l) ? 1 : -1, 0); } catch (Ovf) { return unknown(); }
  }
  // sv_fp_is(value, message, number of parts, { long factor, int exponent }...): the value is the sum of factor*10^exponent
  void fpIs(State &S, const CallBase *cb, const AV &v, const std::string &m, const Poly10 &want) {
    Poly10 x; if (isInf(v) || isNan(v)) { oblige(S, cb, "check", false, m); return; }
    auto give = [&]() { S.vague = true; oblige(S, cb, "check", false, "a floating-point value the domain cannot express: " + m); };
    if (!toPoly(v, x)) { give(); return; }
    for (auto &t : want) x.push_back({-t.first, t.second});
    Poly10 d; AV dv; Lin l; try { dv = fromPoly(x); } catch (Ovf) { give(); return; } if (!toPoly(dv, d) || !collapse(d, l)) { give(); return; }
    if (l.isConst()) { oblige(S, cb, "check", l.c == 0, m); return; }
    uint64_t o = nOvf; bool ok = false; try { ok = S.P.entailsEq(l); } catch (Ovf) {} if (!ok && nOvf != o) { give(); return; }
    oblige(S, cb, "check", ok, m);
  }
