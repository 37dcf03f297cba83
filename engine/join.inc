  // ---------------------------------------------------------------- canonical form, garbage collection
  static void avRegions(const AV &a, std::vector<int> &o) { if (a.k == AV::Ptr) o.push_back(a.r); if (a.k == AV::Agg) for (auto &x : *a.agg) avRegions(x, o); }
  void mapRegions(AV &a, const std::vector<int> &m) { if (a.k == AV::Ptr) a.r = m[a.r]; if (a.k == AV::Agg) { bool h = false; std::vector<int> t; avRegions(a, t); h = !t.empty(); if (h) { auto v = std::make_shared<std::vector<AV>>(*a.agg); for (auto &x : *v) mapRegions(x, m); a.agg = v; } } }
  struct Canon { std::vector<int> order; std::string sig; std::vector<std::pair<int, std::string>> consts; };
  void sigAV(State &S, const AV &a, Canon &c, std::map<int, int> &ix, std::vector<int> &queue, int &pos) {
    auto reg = [&](int r) { auto it = ix.find(r); if (it != ix.end()) return it->second; int n = (int)c.order.size(); ix[r] = n; c.order.push_back(r); queue.push_back(r); return n; };
    switch (a.k) {
    case AV::Undef: c.sig += 'u'; break;
    case AV::Int: { pos++; if (a.e.isConst()) { c.consts.push_back({pos, i2s(a.e.c)}); } c.sig += a.uns && a.w > 1 ? 'U' : 'i'; c.sig += std::to_string(a.w); break; }
    case AV::Tab: c.sig += 't'; c.sig += std::to_string(a.w); break;
    case AV::Ptr: c.sig += 'p'; c.sig += std::to_string(reg(a.r)); break;
    case AV::Null: c.sig += 'n'; break;
    case AV::Fn: c.sig += "F" + a.fn->getName().str(); break;
    case AV::FP: c.sig += 'f'; break;
    case AV::FPc: c.sig += 'f'; pos++; c.consts.push_back({pos, a.d != a.d ? std::string("nan") : std::to_string(a.d)}); break;
    case AV::Agg: c.sig += '{'; for (auto &x : *a.agg) sigAV(S, x, c, ix, queue, pos); c.sig += '}'; break;
    case AV::Va: c.sig += "v" + std::to_string(a.r) + "." + std::to_string(a.s); pos++; if (a.e.isConst()) c.consts.push_back({pos, i2s(a.e.c)}); break;
    case AV::Unk: c.sig += '?'; break;
    }
  }
  void normUns(State &S, AV &a) { if (a.k == AV::Int && a.uns && a.w > 1) { Lin t = -a.e; t.c = iadd(t.c, smax(a.w)); if (S.P.entails(t)) a.uns = false; } else if (a.k == AV::Tab) a = norm(S, a); }
  Canon canonSig(State &S) {
    Canon c; std::map<int, int> ix; std::vector<int> queue; int pos = 0;
    for (auto &f : S.fr) for (auto &a : f.env) normUns(S, a);
    auto drain = [&]() { while (!queue.empty()) { int r = queue.back(); queue.pop_back(); const Region &R = S.r(r);
        c.sig += "[" + std::to_string((int)R.kind) + (R.alive ? "a" : "d") + (R.ro ? "r" : "") + (R.unk ? "k" : "") + (R.bytey ? "b" : "") + (R.cstr ? "c" : "") + (R.gv ? R.gv->getName().str() : "") + (R.hasAddr ? "@" : "");
        for (auto &ce : S.r(r).cells) { c.sig += "," + std::to_string(ce.first) + ":" + std::to_string(ce.second.size); sigAV(S, ce.second.v, c, ix, queue, pos); }
        c.sig += ";"; sigAV(S, R.ownFn, c, ix, queue, pos); sigAV(S, R.ownApp, c, ix, queue, pos); c.sig += "]"; } };
    for (auto &f : S.fr) { c.sig += "|"; c.sig += f.F->getName().str(); for (auto &a : f.env) { sigAV(S, a, c, ix, queue, pos); } drain(); for (int r : f.allocas) { AV p = AV::mkPtr(r, Lin((I)0)); sigAV(S, p, c, ix, queue, pos); drain(); } }
    c.sig += "|P"; for (auto &p : S.packs) { c.sig += "("; for (auto &a : p) sigAV(S, a, c, ix, queue, pos); c.sig += ")"; drain(); }
    c.sig += "|G"; for (auto &g : S.ghost) { c.sig += g.first; sigAV(S, g.second, c, ix, queue, pos); drain(); }
    c.sig += "|R"; sigAV(S, S.ret, c, ix, queue, pos); drain();
    std::vector<std::pair<std::string, int>> gl; for (auto &g : S.gmap) if (!g.first->isConstant()) gl.push_back({g.first->getName().str(), g.second}); std::sort(gl.begin(), gl.end());
    for (auto &g : gl) { c.sig += "|g" + g.first; AV p = AV::mkPtr(g.second, Lin((I)0)); sigAV(S, p, c, ix, queue, pos); drain(); }
    for (size_t r = 0; r < S.rg.size(); r++) if (S.rg[r] && S.rg[r]->alive && S.rg[r]->kind == Region::Heap && !ix.count((int)r)) { AV p = AV::mkPtr((int)r, Lin((I)0)); sigAV(S, p, c, ix, queue, pos); drain(); }
    c.sig += "|s" + std::to_string(S.snaps.size());
    for (auto &sn : S.snaps) { c.sig += "."; for (auto &g : sn.segs) c.sig += std::to_string((int)g.d.k); }
    return c;
  }
  void renumber(State &S, const Canon &c) {
    std::vector<int> m(S.rg.size(), -1); std::vector<std::shared_ptr<Region>> nr; for (size_t k = 0; k < c.order.size(); k++) { m[c.order[k]] = (int)k; nr.push_back(S.rg[c.order[k]]); }
    for (auto &f : S.fr) { for (auto &a : f.env) mapRegions(a, m); for (auto &r : f.allocas) r = m[r]; }
    for (auto &p : S.packs) for (auto &a : p) mapRegions(a, m);
    S.rg.swap(nr);
    for (size_t k = 0; k < S.rg.size(); k++) { bool need = false; std::vector<int> t; for (auto &ce : S.rg[k]->cells) avRegions(ce.second.v, t); avRegions(S.rg[k]->ownApp, t); for (auto &g : S.rg[k]->segs) if (g.d.k == Desc::Val) avRegions(g.d.val, t); for (int x : t) if (m[x] != x) need = true; if (need) { Region &R = S.R((int)k); for (auto &ce : R.cells) mapRegions(ce.second.v, m); mapRegions(R.ownApp, m); for (auto &g : R.segs) if (g.d.k == Desc::Val) mapRegions(g.d.val, m); } }
    for (auto &g : S.ghost) mapRegions(g.second, m); mapRegions(S.ret, m);
    std::map<const GlobalVariable *, int> ng; for (auto &g : S.gmap) if (m[g.second] >= 0) ng[g.first] = m[g.second]; S.gmap.swap(ng);
    std::set<std::pair<int, int>> no; for (auto &o : S.order) if (m[o.first] >= 0 && m[o.second] >= 0) no.insert({m[o.first], m[o.second]}); S.order.swap(no);
  }
  void gc(State &S) { Canon c = canonSig(S); renumber(S, c); projectDead(S); }
  void liveSyms(State &S, std::set<int> &L) { auto f = [&](Lin &l) { for (auto &p : l.t) L.insert(p.first); }; for (auto &F : S.fr) for (auto &a : F.env) avLins(a, f); for (auto &p : S.packs) for (auto &a : p) avLins(a, f); for (auto &r : S.rg) if (r) regionLins(const_cast<Region &>(*r), f); for (auto &sn : S.snaps) { f(sn.len); for (auto &g : sn.segs) segLins(g, f); } for (auto &g : S.ghost) avLins(g.second, f); avLins(S.ret, f); }
  void liveBytes(State &S, std::set<int> &B) { std::function<void(const AV &)> g = [&](const AV &a) { if (a.k == AV::Tab) B.insert(a.s); if (a.k == AV::Agg) for (auto &x : *a.agg) g(x); }; for (auto &F : S.fr) for (auto &a : F.env) g(a); for (auto &p : S.packs) for (auto &a : p) g(a); for (auto &r : S.rg) if (r) { for (auto &c : r->cells) g(c.second.v); for (auto &s : r->segs) if (s.d.k == Desc::Val) g(s.d.val); } for (auto &x : S.ghost) g(x.second); g(S.ret); for (auto &sn : S.snaps) for (auto &s : sn.segs) if (s.d.k == Desc::Val) g(s.d.val); }
  // Fourier-Motzkin elimination of symbols no longer referenced
  void projectDead(State &S) {
    std::set<int> L; liveSyms(S, L); std::set<int> B; liveBytes(S, B);
    auto allLive = [&](const Lin &l) { for (auto &p : l.t) if (!L.count(p.first)) return false; return true; };
    // facts over dead indices are forgotten; their byte symbols die with them
    { std::set<int> used = B; for (auto &t : S.tabLin) used.insert(t.first.first); for (auto &x : S.rel) { used.insert(x.first[1]); used.insert(x.first[2]); } std::vector<Fact> nf; for (auto &f : S.facts) if (allLive(f.idx) && (used.count(f.bs) || !S.bs[f.bs].all())) { nf.push_back(f); B.insert(f.bs); } S.facts.swap(nf); } // (a byte nothing is known of and nothing refers to says nothing)
    { std::vector<RFact> nf; for (auto &f : S.rfacts) if (allLive(f.lo) && allLive(f.hi)) nf.push_back(f); S.rfacts.swap(nf); }
    { std::vector<CmpFact> nf; for (auto &f : S.cfacts) if (allLive(f.a) && allLive(f.b) && allLive(f.n)) nf.push_back(f); S.cfacts.swap(nf); }
    for (auto it = S.tabLin.begin(); it != S.tabLin.end();) { if (!B.count(it->first.first) && !allLive(it->second)) it = S.tabLin.erase(it); else { for (auto &p : it->second.t) L.insert(p.first); ++it; } }
    for (auto it = S.bits.begin(); it != S.bits.end();) { if (!allLive(it->first.first)) it = S.bits.erase(it); else ++it; }
    for (auto it = S.divs.begin(); it != S.divs.end();) { if (!allLive(it->first.first)) it = S.divs.erase(it); else { for (auto &p : it->second.t) L.insert(p.first); ++it; } }
    for (auto it = S.fmtLen.begin(); it != S.fmtLen.end(); ++it) for (auto &p : it->second.t) L.insert(p.first);
    for (auto &e : S.elim) for (auto &p : e.second.t) L.insert(p.first);
    for (auto it = S.rel.begin(); it != S.rel.end();) { if (!B.count(it->first[1]) || !B.count(it->first[2])) it = S.rel.erase(it); else ++it; }
    for (auto it = S.bs.begin(); it != S.bs.end();) { if (!B.count(it->first)) { bool used = false; for (auto &t : S.tabLin) if (t.first.first == it->first) used = true; if (!used) { it = S.bs.erase(it); continue; } } ++it; }
    std::set<int> dead; for (auto &g : S.P.ge) for (auto &p : g.t) if (!L.count(p.first)) dead.insert(p.first); for (auto &g : S.P.eq) for (auto &p : g.t) if (!L.count(p.first)) dead.insert(p.first);
    for (auto &b : S.P.b) if (!L.count(b.first)) dead.insert(b.first);
    for (int d : dead) {
      bool ineq = false; for (auto &q : S.P.eq) if (q.coef(d)) ineq = true;
      std::vector<Lin> pos, neg, keep; for (auto &g : S.P.ge) { I k = g.coef(d); if (k > 0) pos.push_back(g); else if (k < 0) neg.push_back(g); else keep.push_back(g); }
      if (ineq) { // integrality equation: keep symbol (cannot be removed exactly), unless everything in it is dead
        bool any = false; for (auto &q : S.P.eq) if (q.coef(d)) for (auto &p : q.t) if (L.count(p.first)) any = true; if (any) continue; std::vector<Lin> ne; for (auto &q : S.P.eq) if (!q.coef(d)) ne.push_back(q); S.P.eq.swap(ne); }
      if (pos.empty() && neg.empty()) { S.P.b.erase(d); continue; }
      auto bi = S.P.b.find(d); if (bi != S.P.b.end()) { if (bi->second.hl) { Lin l = Lin::sym(d); l.c = -bi->second.lo; pos.push_back(l); } if (bi->second.hu) { Lin l = -Lin::sym(d); l.c = bi->second.hi; neg.push_back(l); } }
      S.P.b.erase(d); S.P.ge.swap(keep);
      if (pos.size() * neg.size() <= std::max<size_t>(24, pos.size() + neg.size() + 4)) for (auto &p : pos) for (auto &q : neg) { try { Lin r = combine(p, -q.coef(d), q, p.coef(d)); if (!S.P.entails(r)) S.P.addGe(r); } catch (Ovf &) {} catch (Infeasible &) {} }
    }
  }
  // ---------------------------------------------------------------- segment shapes
  static bool descKind(const Desc &a, const Desc &b) { if (a.k != b.k) return false; switch (a.k) { case Desc::Const: return a.cst == b.cst; case Desc::Orig: return a.K_ == b.K_; default: return true; } }
  bool keepOrig = true;
  void alignSegs(State &A, State &B, int r) {
    auto &x = A.r(r).segs; auto &y = B.r(r).segs; bool same = x.size() == y.size(); if (same) for (size_t k = 0; k < x.size(); k++) if (!descKind(x[k].d, y[k].d) || (x[k].d.k == Desc::Val && x[k].d.val.k != y[k].d.val.k)) same = false;
    if (same) return;
    std::vector<Seg> a = A.r(r).segs, b = B.r(r).segs;
    for (auto *v : {&a, &b}) { State &Z = v == &a ? A : B; for (size_t k = 0; k < v->size(); k++) { Seg &s = (*v)[k]; if (s.d.k != Desc::Val) continue;
      // a copy of one known byte of some content
      const Fact *best = nullptr; if (s.d.val.k == AV::Tab && s.d.val.r == 0) for (auto &f : Z.facts) if (f.bs == s.d.val.s) { bool adj = k && (*v)[k - 1].d.k == Desc::Orig && (*v)[k - 1].d.K_ == f.K && (*v)[k - 1].d.sh == f.idx - s.lo; if (!best || adj) best = &f; if (adj) break; }
      s.d.val = AV(); if (best) { s.d.k = Desc::Orig; s.d.K_ = best->K; s.d.sh = best->idx - s.lo; } else s.d.k = Desc::Top; } }
    tidy(A, a); tidy(B, b);
    if (a.empty() || b.empty()) { Seg s; s.d.k = Desc::Top; s.lo = Lin((I)0); s.hi = A.r(r).size; Seg t = s; t.hi = B.r(r).size; A.R(r).segs = {s}; B.R(r).segs = {t}; return; }
    // best alignment: terminators and constants first, those tied to the same variable of the region most of all; what is left between becomes unknown
    auto anchored = [&](const Seg &x, const Seg &y) { for (auto &c : A.r(r).cells) { if (c.second.v.k != AV::Int) continue; auto it = B.r(r).cells.find(c.first); if (it == B.r(r).cells.end() || it->second.v.k != AV::Int) continue; Lin da = x.lo - c.second.v.e, db = y.lo - it->second.v.e; if (da.isConst() && da == db) return true; } return false; };
    size_t n = a.size(), m = b.size(); std::vector<std::vector<int>> sc(n + 1, std::vector<int>(m + 1, 0)), w(n, std::vector<int>(m, 0));
    for (size_t x = 0; x < n; x++) for (size_t y = 0; y < m; y++) if (descKind(a[x].d, b[y].d)) { w[x][y] = a[x].d.k == Desc::Const ? (anchored(a[x], b[y]) ? 200 : 20) : a[x].d.k == Desc::Orig ? 6 : 2; if (a[x].lo == b[y].lo) w[x][y]++; }
    for (size_t x = n; x-- > 0;) for (size_t y = m; y-- > 0;) { sc[x][y] = std::max(sc[x + 1][y], sc[x][y + 1]); if (w[x][y]) sc[x][y] = std::max(sc[x][y], sc[x + 1][y + 1] + w[x][y]); }
    std::vector<Seg> oa, ob; auto put = [&](Seg x, Seg y) { if (!oa.empty() && oa.back().d.k == Desc::Top && x.d.k == Desc::Top) { oa.back().hi = x.hi; ob.back().hi = y.hi; } else { oa.push_back(x); ob.push_back(y); } };
    auto gap = [&](size_t x0, size_t x1, size_t y0, size_t y1) { if (x0 == x1 && y0 == y1) return; auto one = [&](std::vector<Seg> &v, size_t s, size_t e) { Seg g; g.d.k = Desc::Top; if (e > s) { g.lo = v[s].lo; g.hi = v[e - 1].hi; } else g.lo = g.hi = s < v.size() ? v[s].lo : v.back().hi; return g; };
      Seg ga = one(a, x0, x1), gb = one(b, y0, y1); // a piece of known content opposite of nothing
      if (!keepOrig) {} else if (x0 == x1 && y1 == y0 + 1 && b[y0].d.k == Desc::Orig) { ga.d = gb.d = b[y0].d; ga.d.sh = gb.d.sh + gb.lo - ga.lo; } else if (y0 == y1 && x1 == x0 + 1 && a[x0].d.k == Desc::Orig) { ga.d = gb.d = a[x0].d; gb.d.sh = ga.d.sh + ga.lo - gb.lo; }
      put(ga, gb); };
    size_t i = 0, j = 0, x0 = 0, y0 = 0;
    while (i < n && j < m) { if (w[i][j] && sc[i][j] == sc[i + 1][j + 1] + w[i][j]) { gap(x0, i, y0, j); put(a[i], b[j]); i++; j++; x0 = i; y0 = j; } else if (sc[i][j] == sc[i + 1][j]) i++; else j++; }
    gap(x0, n, y0, m); a.swap(oa); b.swap(ob);
    A.R(r).segs = a; B.R(r).segs = b;
  }
  // ---------------------------------------------------------------- range facts
  bool covers(State &S, int K, Lin lo, const Lin &hi, const CSet &cs) {
    for (int it = 0; it < 8; it++) {
      if (leq(S, hi, lo)) return true; bool adv = false;
      for (auto &f : S.rfacts) if (f.K == K && (f.cs & ~cs).none() && leq(S, f.lo, lo) && !(f.hi == lo) && leq(S, lo, f.hi) && !provEq(S, f.hi, lo)) { lo = f.hi; adv = true; break; }
      if (adv) continue;
      for (auto &f : S.facts) if (f.K == K && (S.bs[f.bs] & ~cs).none() && provEq(S, f.idx, lo)) { lo = f.idx + Lin((I)1); adv = true; break; }
      if (!adv) return false;
    }
    return leq(S, hi, lo);
  }
  // ---------------------------------------------------------------- join
  void flatAV(AV &a, std::vector<AV *> &o) { if (a.k == AV::Agg) { auto v = std::make_shared<std::vector<AV>>(*a.agg); a.agg = v; for (auto &x : *v) flatAV(x, o); } else o.push_back(&a); }
  void allAV(State &S, std::vector<AV *> &o) {
    for (auto &F : S.fr) for (auto &a : F.env) flatAV(a, o);
    for (auto &p : S.packs) for (auto &a : p) flatAV(a, o);
    for (size_t k = 0; k < S.rg.size(); k++) if (S.rg[k]) { Region &R = S.R((int)k); for (auto &c : R.cells) flatAV(c.second.v, o); for (auto &s : R.segs) if (s.d.k == Desc::Val) flatAV(s.d.val, o); flatAV(R.ownApp, o); }
    for (auto &g : S.ghost) flatAV(g.second, o); flatAV(S.ret, o);
  }
  void otherLins(State &S, std::vector<Lin *> &o) {
    for (size_t k = 0; k < S.rg.size(); k++) if (S.rg[k]) { Region &R = S.R((int)k); o.push_back(&R.size); if (R.hasAddr) o.push_back(&R.addr); if (R.cstr) o.push_back(&R.slen); for (auto &s : R.segs) { o.push_back(&s.lo); o.push_back(&s.hi); if (s.d.k == Desc::Orig) o.push_back(&s.d.sh); } }
    for (auto &sn : S.snaps) { o.push_back(&sn.len); for (auto &s : sn.segs) { o.push_back(&s.lo); o.push_back(&s.hi); if (s.d.k == Desc::Orig) o.push_back(&s.d.sh); } }
  }
  static bool hasE(const AV &a) { return a.k == AV::Int || a.k == AV::Ptr || a.k == AV::Null || a.k == AV::Va; }
  struct Gen { Lin a, b; int sym; };
  static Lin substMap(const Lin &l, const std::map<int, Lin> &m) { Lin r; r.c = l.c; for (auto &p : l.t) { auto it = m.find(p.first); if (it == m.end()) { Lin s = Lin::sym(p.first); r = combine(r, 1, s, p.second); } else r = combine(r, 1, it->second, p.second); } return r; }
  void unelim(State &A, State &B) { // symbols used by A but eliminated in B: reintroduce them in B
    std::set<int> U; liveSyms(A, U); for (auto &g : A.P.ge) for (auto &p : g.t) U.insert(p.first); for (auto &b : A.P.b) U.insert(b.first);
    for (auto it = B.elim.begin(); it != B.elim.end();) { if (U.count(it->first) && !A.elim.count(it->first)) { Lin e = it->second - Lin::sym(it->first); B.P.eq.push_back(e); I x; Bnd &bd = B.P.b[it->first]; if (B.P.lower(it->second, x) && (!bd.hl || bd.lo < x)) { bd.hl = true; bd.lo = x; } if (B.P.upper(it->second, x) && (!bd.hu || bd.hi > x)) { bd.hu = true; bd.hi = x; } it = B.elim.erase(it); } else ++it; }
  }
  bool express(const std::vector<Gen> &gs, const Lin &a, const Lin &b, Lin &out, bool slot = false) {
    if (a == b) { out = a; return true; } Lin d = b - a;
    std::vector<Lin> ds; for (auto &g : gs) ds.push_back(g.b - g.a);
    auto ratio = [](const Lin &x, const Lin &y, I &k) { // x == k*y ?
      if (y.t.empty()) { if (!x.t.empty() || !y.c || x.c % y.c) return false; k = x.c / y.c; return true; }
      if (x.t.size() != y.t.size()) return false; if (x.t[0].second % y.t[0].second) return false; k = x.t[0].second / y.t[0].second; return x == y * k; };
    for (size_t i = 0; i < gs.size(); i++) { I k; if (ratio(d, ds[i], k)) { out = combine(Lin::sym(gs[i].sym), k, combine(a, 1, gs[i].a, -k), 1); return true; } }
    for (size_t i = 0; i < gs.size(); i++) for (int s = -1; s <= 1; s += 2) { Lin d2 = combine(d, 1, ds[i], -s); for (size_t j = 0; j < gs.size(); j++) { I k; if (j != i && ratio(d2, ds[j], k)) { Lin r = combine(a, 1, gs[i].a, -s); r = combine(r, 1, gs[j].a, -k); r = combine(r, 1, Lin::sym(gs[i].sym), s); r = combine(r, 1, Lin::sym(gs[j].sym), k); out = r; return true; } } }
    if (!slot || d.isConst() || gs.size() < 3 || gs.size() > 40) return false;
    // any integer combination of the differences of the generalised slots
    struct Row { Lin v; std::map<size_t, I> k; }; // v == sum k_i * ds_i  (scaled)
    std::vector<Row> ech; auto lead = [](const Lin &l) { return l.t.empty() ? (l.c ? -2 : -1) : l.t[0].first; };
    auto big = [](const Lin &l) { if (iabs(l.c) > ((I)1 << 50)) return true; for (auto &p : l.t) if (iabs(p.second) > ((I)1 << 20)) return true; return false; };
    auto lc = [](const Lin &l) { return l.t.empty() ? l.c : l.t[0].second; };
    auto reduce = [&](Lin &v, std::map<size_t, I> &k, I &scale) { for (size_t n = 0; n < ech.size(); n++) { Row &r = ech[n]; int ld = lead(r.v); I c = ld == -2 ? (v.t.empty() ? v.c : (I)0) : v.coef(ld); if (!c) continue; I p = lc(r.v), f = c, m = p; if (c % p == 0) { f = c / p; m = 1; } v = combine(v, m, r.v, -f); scale = scale * m; for (auto &x : k) x.second = x.second * m; for (auto &x : r.k) k[x.first] = k[x.first] - x.second * f; if (big(v) || iabs(scale) > 64) return false; } return true; };
    try {
      for (size_t i = 0; i < gs.size(); i++) { Row r; r.v = ds[i]; r.k[i] = 1; I sc = 1; if (!reduce(r.v, r.k, sc)) continue; if (lead(r.v) == -1) continue;
        // keep constants last
        size_t at = ech.size(); if (lead(r.v) != -2) { while (at > 0 && lead(ech[at - 1].v) == -2) at--; } ech.insert(ech.begin() + (long)at, r); }
      Lin v = d; std::map<size_t, I> k; I sc = 1; if (!reduce(v, k, sc) || lead(v) != -1) return false;
      Lin r = a; for (auto &x : k) if (x.second) { if (x.second % sc) return false; I q = -(x.second / sc); r = combine(r, 1, gs[x.first].a, -q); r = combine(r, 1, Lin::sym(gs[x.first].sym), q); }
      out = r; return true;
    } catch (Ovf &) {}
    return false;
  }
  bool join(State A, State B, int widen, State &R, int hard = INT_MAX) {
    nJoins++;
    unelim(A, B); unelim(B, A);
    if (A.rg.size() != B.rg.size()) return false;
    for (size_t r = 0; r < A.rg.size(); r++) alignSegs(A, B, (int)r);
    std::map<std::pair<int, int>, int> bmap; std::vector<std::pair<int, CSet>> newBs;
    { std::vector<AV *> va, vb; allAV(A, va); allAV(B, vb); if (va.size() != vb.size()) return false;
      for (size_t k = 0; k < va.size(); k++) { AV &a = *va[k], &b = *vb[k];
        if (a.k == AV::Tab && b.k == AV::Tab) { if (a.r == b.r && a.s == b.s) continue;
          if (a.r == b.r) { auto key = std::make_pair(a.s, b.s); auto it = bmap.find(key); int s; if (it != bmap.end()) s = it->second; else { s = nextBs++; bmap[key] = s; newBs.push_back({s, A.bs[a.s] | B.bs[b.s]}); } a.s = b.s = s; continue; }
          int w = a.w; a = AV::mkInt(w, tabToLin(A, a.s, a.r)); b = AV::mkInt(w, tabToLin(B, b.s, b.r)); continue; }
        if (a.k == AV::Tab && b.k == AV::Int) { a = AV::mkInt(a.w, tabToLin(A, a.s, a.r)); continue; } if (a.k == AV::Int && b.k == AV::Tab) { b = AV::mkInt(b.w, tabToLin(B, b.s, b.r)); continue; }
        if (a.k == AV::FPc && b.k == AV::FPc && (a.d == b.d || (a.d != a.d && b.d != b.d))) continue;
        if ((a.k == AV::FPc || a.k == AV::FP) && (b.k == AV::FPc || b.k == AV::FP)) { a = b = AV::mkFP(); continue; }
        if (a.k != b.k) return false; } }
    R = A; for (size_t r = 0; r < R.rg.size(); r++) if (R.rg[r] && !R.rg[r]->wrote && B.rg[r]->wrote) R.R((int)r).wrote = 1;
    std::vector<AV *> va, vb, vr; allAV(A, va); allAV(B, vb); allAV(R, vr); std::vector<Lin *> la, lb, lr; otherLins(A, la); otherLins(B, lb); otherLins(R, lr);
    if (va.size() != vb.size() || la.size() != lb.size()) return false;
    std::vector<Gen> gs; std::vector<Lin> changed; std::vector<std::pair<int, std::pair<I, I>>> trange;
    auto pairUp = [&](const Lin &a, const Lin &b, Lin &o, int w, bool uns) {
      if (a == b) { o = a; return; }
      if (B.P.entailsEq(a - b)) { o = a; return; } if (A.P.entailsEq(a - b)) { o = b; return; }
      bool ex = express(gs, a, b, o, true);
      if (ex && hard != INT_MAX) for (auto &p : o.t) if (p.first >= hard) { bool own = false; for (auto &g : gs) if (g.sym == p.first) own = true; if (!own) ex = false; } // no symbols of earlier rounds in a changed slot
      if (!ex) { Gen g; g.a = a; g.b = b; g.sym = nextSym++; gs.push_back(g); o = Lin::sym(g.sym); if (w > 0) trange.push_back({g.sym, {uns ? 0 : smin(w), uns ? p2(w) - 1 : smax(w)}}); }
      changed.push_back(o);
    };
    for (size_t k = 0; k < va.size(); k++) if (hasE(*va[k])) pairUp(va[k]->e, vb[k]->e, vr[k]->e, va[k]->k == AV::Int ? va[k]->w : 0, va[k]->uns || va[k]->w == 1);
    for (size_t k = 0; k < la.size(); k++) pairUp(*la[k], *lb[k], *lr[k], 0, false);
    std::map<int, Lin> ma, mb; for (auto &g : gs) { ma[g.sym] = g.a; mb[g.sym] = g.b; }
    // liveness of symbols in the result
    std::set<int> L; liveSyms(R, L);
    Poly P;
    auto inBoth = [&](const Lin &c) { try { return A.P.entails(substMap(c, ma)) && B.P.entails(substMap(c, mb)); } catch (Ovf &) { return false; } };
    // bounds
    static const std::vector<I> thr = [] { std::vector<I> t; for (I v : {(I)0, (I)1, (I)-1, (I)2, (I)9, (I)15, (I)16, (I)24, (I)25, (I)127, (I)-128, (I)255, (I)32767, (I)-32768, (I)65535}) t.push_back(v); for (int w : {31, 32, 33, 47, 63, 64}) { t.push_back(p2(w) - 1); t.push_back(-p2(w)); t.push_back(p2(w)); } std::sort(t.begin(), t.end()); return t; }();
    for (int s : L) { Lin e = Lin::sym(s); Lin ea = substMap(e, ma), eb = substMap(e, mb); Bnd bd; I x, y;
      if (A.P.lower(ea, x) && B.P.lower(eb, y)) { bd.hl = true; bd.lo = std::min(x, y); if (widen && y < x) { bd.hl = false; for (auto t = thr.rbegin(); t != thr.rend(); ++t) if (*t <= y && (widen < 2 || iabs(*t) <= 1 || iabs(*t) >= 0x7FFFFFFF)) { bd.hl = true; bd.lo = *t; break; } } }
      if (A.P.upper(ea, x) && B.P.upper(eb, y)) { bd.hu = true; bd.hi = std::max(x, y); if (widen && y > x) { bd.hu = false; for (auto t : thr) if (t >= y && (widen < 2 || iabs(t) <= 1 || iabs(t) >= 0x7FFFFFFF)) { bd.hu = true; bd.hi = t; break; } } }
      for (auto &tr : trange) if (tr.first == s) { if (!bd.hl || bd.lo < tr.second.first) { bd.hl = true; bd.lo = tr.second.first; } if (!bd.hu || bd.hi > tr.second.second) { bd.hu = true; bd.hi = tr.second.second; } }
      bool isGen = ma.count(s);
      if (!widen) { I u; if (A.P.lower(ea, x) && B.P.lower(eb, y) && x != y) { u = std::max(x, y); Lin c = e; c.c = -u; if (inBoth(c)) { bd.hl = true; bd.lo = u; } } if (A.P.upper(ea, x) && B.P.upper(eb, y) && x != y) { u = std::min(x, y); Lin c = -e; c.c = u; if (inBoth(c)) { bd.hu = true; bd.hi = u; } } }
      if (isGen) for (I t : {(I)1, (I)0, (I)-1}) if (!bd.hl || bd.lo < t) { Lin c = e; c.c = -t; if (inBoth(c)) { bd.hl = true; bd.lo = t; break; } }
      if (bd.hl || bd.hu) P.b[s] = bd; }
    // inverse maps for rewriting one-sided constraints
    auto rewrite = [&](const Lin &c0, bool sideA) -> std::vector<Lin> {
      std::vector<Lin> outv; Lin c = c0;
      for (int it = 0; it < 4; it++) { int d = 0; bool bad = false; for (auto &p : c.t) if (!L.count(p.first) || (sideA ? false : false)) { d = p.first; bad = true; break; } if (!bad) { outv.push_back(c); break; }
        bool done = false; for (auto &g : gs) { const Lin &v = sideA ? g.a : g.b; I k = v.coef(d); if (k == 1 || k == -1) { Lin e = combine(Lin::sym(g.sym), 1, v, -1); Lin r; r.c = e.c; for (auto &p : e.t) if (p.first != d) r.t.push_back(p); r = r * k; substLin(c, d, r); done = true; break; } }
        if (!done) break; }
      // variants where a live symbol equals a generated slot on this side
      Lin c2 = c0; bool ch = false; for (auto &g : gs) { const Lin &v = sideA ? g.a : g.b; if (v.t.size() == 1 && iabs(v.t[0].second) == 1) { int d = v.t[0].first; if (c2.coef(d)) { Lin e = Lin::sym(g.sym); e.c = isub(e.c, v.c); e = e * v.t[0].second; substLin(c2, d, e); ch = true; } } }
      if (ch) { bool ok = true; for (auto &p : c2.t) if (!L.count(p.first)) ok = false; if (ok) outv.push_back(c2); }
      if (!ch && c0.t.size() > 1) for (auto &g : gs) { const Lin &v = sideA ? g.a : g.b; if (!v.isConst()) continue; for (int sg = -1; sg <= 1; sg += 2) { Lin e = Lin::sym(g.sym); e.c = isub(e.c, v.c); Lin c3 = combine(c0, 1, e, sg); bool ok = true; for (auto &p : c3.t) if (!L.count(p.first)) ok = false; if (ok) outv.push_back(c3); } }
      return outv; };
    auto addC = [&](const Lin &c) { if (c.t.size() < 1) return; try { if (P.entails(c)) return; if (inBoth(c)) P.addGe(c); } catch (Infeasible &) {} catch (Ovf &) {} };
    for (auto &c : A.P.ge) for (auto &r : rewrite(c, true)) addC(r);
    if (!widen) for (auto &c : B.P.ge) for (auto &r : rewrite(c, false)) addC(r);
    else for (auto &c : B.P.ge) { bool old = true; for (auto &p : c.t) if (!L.count(p.first)) old = false; if (old) addC(c); }
    // one side's facts shifted by the difference between a generalised slot and its value on that side
    for (int side = 0; side < (widen ? 0 : 2); side++) { const State &Z = side ? B : A; std::vector<Lin> cs(Z.P.ge.begin(), Z.P.ge.end());
      for (auto &x : Z.P.b) if (L.count(x.first) && x.second.hl && x.second.lo >= -1 && x.second.lo <= 2) { Lin l = Lin::sym(x.first); l.c = -x.second.lo; cs.push_back(l); }
      if (cs.size() * gs.size() <= 160) for (auto &c0 : cs) for (auto &g : gs) { const Lin &v = side ? g.b : g.a; if (v.isConst()) continue; for (int sg = -1; sg <= 1; sg += 2) { try { Lin e = Lin::sym(g.sym) - v; Lin c3 = combine(c0, 1, e, sg); bool ok = c3.t.size() > 1 && c3.t.size() <= 4; for (auto &p : c3.t) if (!L.count(p.first)) ok = false; if (ok) addC(c3); } catch (Ovf &) {} } } }
    for (int side = 0; side < 2; side++) for (auto &c : (side ? B : A).P.eq) for (auto &r : rewrite(c, side == 0)) { addC(r); addC(-r); if (inBoth(r) && inBoth(-r)) { bool dup = false; for (auto &q : P.eq) if (q == r) dup = true; if (!dup) P.eq.push_back(r); } }
    // weakly relational templates between changed and unchanged slot expressions
    std::vector<Lin> E, X; auto addU = [](std::vector<Lin> &v, const Lin &l) { Lin z = l; z.c = 0; for (auto &q : v) { Lin t = q; t.c = 0; if (t == z) return; } v.push_back(l); };
    for (auto &c : changed) addU(E, c);
    { std::set<Lin> seen; for (size_t k = 0; k < vr.size(); k++) if (hasE(*vr[k]) && !vr[k]->e.isConst()) { bool g = false; for (auto &p : vr[k]->e.t) if (ma.count(p.first)) g = true; if (!g) addU(X, vr[k]->e); } for (auto *l : lr) if (!l->isConst()) { bool g = false; for (auto &p : l->t) if (ma.count(p.first)) g = true; if (!g) addU(X, *l); }
      std::vector<Lin> X2; for (auto &l : X) { bool ad = false; for (auto &r : R.rg) if (r && r->hasAddr && !r->addr.isConst() && r->addr.t == l.t) ad = true; if (!ad) X2.push_back(l); } X.swap(X2); for (auto &g : gs) { for (const Lin *l : {&g.a, &g.b}) { bool ok = !l->isConst(); for (auto &p : l->t) if (!L.count(p.first) || ma.count(p.first)) ok = false; if (ok) addU(X, *l); } } }
    if (E.size() > 14) E.resize(14); if (X.size() > 40) X.resize(40);
    auto tmpl = [&](Lin D) { D.c = 0; if (D.isConst()) return; Lin da, db; try { da = substMap(D, ma); db = substMap(D, mb); } catch (Ovf &) { return; }
      std::set<I, std::greater<I>> ks{1, 0, -1}; if (da.isConst()) ks.insert(da.c); if (db.isConst()) ks.insert(db.c); if (da.t == D.t || db.t == D.t) {} for (auto &g : gs) { if (g.a.isConst() && D.coef(g.sym)) {} }
      I lo; if (!widen) { if (A.P.lower(da, lo)) ks.insert(lo); if (B.P.lower(db, lo)) ks.insert(lo); }
      for (I k : ks) { if (k > (I)1 << 40 || k < -((I)1 << 40)) continue; Lin c = D; c.c = -k; if (inBoth(c)) { try { if (!P.entails(c)) P.addGe(c); } catch (...) {} break; } } };
    if (widen) for (auto &c : changed) if (!c.isConst()) { try { if (inBoth(c) && !P.entails(c)) P.addGe(c); } catch (Ovf &) {} } // a counter that has not gone below 0
    for (size_t k = 0; k < E.size(); k++) { if (E[k].t.size() > 1) { tmpl(E[k]); tmpl(-E[k]); } for (auto &x : X) { tmpl(E[k] - x); tmpl(x - E[k]); } for (size_t j = k + 1; j < E.size(); j++) { tmpl(E[k] - E[j]); tmpl(E[j] - E[k]); } }
    // byte symbols
    R.bs.clear(); for (auto &x : A.bs) { auto it = B.bs.find(x.first); if (it != B.bs.end()) R.bs[x.first] = x.second | it->second; } for (auto &n : newBs) R.bs[n.first] = n.second;
    { std::set<int> LB; liveBytes(R, LB); for (int b : LB) if (!R.bs.count(b)) { CSet cs; cs.set(); auto i1 = A.bs.find(b), i2 = B.bs.find(b); (void)i1; (void)i2; R.bs[b] = cs; } }
    R.tabLin.clear(); for (auto &x : A.tabLin) { auto it = B.tabLin.find(x.first); if (it != B.tabLin.end() && it->second == x.second) { bool ok = true; for (auto &p : x.second.t) if (ma.count(p.first)) ok = false; if (ok && R.bs.count(x.first.first)) R.tabLin[x.first] = x.second; } }
    R.rel.clear(); for (auto &x : A.rel) { auto it = B.rel.find(x.first); if (it != B.rel.end() && it->second == x.second) R.rel.insert(x); }
    R.facts.clear();
    for (auto &fa : A.facts) for (auto &fb : B.facts) if (fa.K == fb.K) { Lin o; if (!express(gs, fa.idx, fb.idx, o)) { if (B.P.entailsEq(fa.idx - fb.idx)) o = fa.idx; else continue; } bool ok = true; for (auto &p : o.t) if (!L.count(p.first)) ok = false; if (!ok) continue;
          int s; if (fa.bs == fb.bs) { s = fa.bs; } else { auto it = bmap.find({fa.bs, fb.bs}); if (it != bmap.end()) s = it->second; else { CSet u = A.bs[fa.bs] | B.bs[fb.bs]; s = nextBs++; bmap[{fa.bs, fb.bs}] = s; R.bs[s] = u; } } if (!R.bs.count(s)) R.bs[s] = A.bs[fa.bs] | B.bs[fb.bs];
          bool dup = false; for (auto &q : R.facts) if (q.K == fa.K && q.idx == o) dup = true; if (dup) continue; R.facts.push_back({fa.K, o, s}); }
    // range facts
    R.rfacts.clear(); std::vector<RFact> cand;
    auto liveL = [&](const Lin &l) { for (auto &p : l.t) if (!L.count(p.first)) return false; return true; };
    for (auto &f : A.rfacts) { for (auto &l : rewrite(f.lo, true)) for (auto &h : rewrite(f.hi, true)) { RFact n{f.K, l, h, f.cs}; cand.push_back(n); for (auto &g : B.rfacts) if (g.K == f.K) { n.cs = f.cs | g.cs; cand.push_back(n); } for (auto &g : B.facts) if (g.K == f.K) { n.cs = f.cs | B.bs[g.bs]; cand.push_back(n); } } }
    for (auto &f : B.rfacts) { for (auto &l : rewrite(f.lo, false)) for (auto &h : rewrite(f.hi, false)) { RFact n{f.K, l, h, f.cs}; cand.push_back(n); for (auto &g : A.facts) if (g.K == f.K) { n.cs = f.cs | A.bs[g.bs]; cand.push_back(n); } } }
    for (auto &fb : B.facts) { CSet cs = B.bs[fb.bs]; if (cs.all()) continue;
      for (auto &g : gs) { Lin st = g.b - g.a; if (!st.isConst() || (st.c != 1 && st.c != -1)) continue; Lin c = fb.idx - g.a; Lin gl = Lin::sym(g.sym) + c; // K[a + c]
        RFact n; n.K = fb.K; n.cs = cs; if (st.c == 1) { n.lo = g.a + c; n.hi = gl; } else { n.lo = gl + Lin((I)1); n.hi = g.a + c + Lin((I)1); }
        cand.push_back(n);
        for (auto &f : A.rfacts) if (f.K == fb.K) { RFact m = n; m.cs = cs | f.cs; if (st.c == 1) m.lo = f.lo; else m.hi = f.hi; cand.push_back(m); } } }
    { std::vector<RFact> u; for (auto &n : cand) { if (!liveL(n.lo) || !liveL(n.hi) || n.cs.all()) continue; bool dup = false; for (auto &f : u) if (f.K == n.K && f.lo == n.lo && f.hi == n.hi && f.cs == n.cs) { dup = true; break; } if (!dup) u.push_back(n); } if (u.size() > 60) u.resize(60); cand.swap(u); }
    for (auto &n : cand) { if (!liveL(n.lo) || !liveL(n.hi) || n.cs.all()) continue; bool dup = false; for (auto &f : R.rfacts) if (f.K == n.K && f.lo == n.lo && f.hi == n.hi && (f.cs & ~n.cs).none()) dup = true; if (dup) continue; try { if (covers(A, n.K, substMap(n.lo, ma), substMap(n.hi, ma), n.cs) && covers(B, n.K, substMap(n.lo, mb), substMap(n.hi, mb), n.cs)) { std::vector<RFact> k; for (auto &f : R.rfacts) if (!(f.K == n.K && f.lo == n.lo && f.hi == n.hi)) k.push_back(f); k.push_back(n); R.rfacts.swap(k); } } catch (Ovf &) {} }
    R.cfacts.clear(); for (auto &x : A.cfacts) for (auto &y : B.cfacts) if (x.Ka == y.Ka && x.Kb == y.Kb && x.rel == y.rel && x.fold == y.fold && x.a == y.a && x.b == y.b && x.n == y.n) { if (liveL(x.a) && liveL(x.b) && liveL(x.n)) R.cfacts.push_back(x); break; }
    auto noGen = [&](const Lin &l) { for (auto &p : l.t) if (ma.count(p.first) || !L.count(p.first)) return false; return true; };
    R.bits.clear(); for (auto &x : A.bits) { auto it = B.bits.find(x.first); if (it != B.bits.end() && it->second == x.second && noGen(x.first.first)) R.bits.insert(x); }
    R.divs.clear(); for (auto &x : A.divs) { auto it = B.divs.find(x.first); if (it != B.divs.end() && it->second == x.second && noGen(x.first.first) && noGen(x.second)) R.divs.insert(x); }
    { std::set<std::pair<int, int>> o; for (auto &x : A.order) if (B.order.count(x)) o.insert(x); R.order.swap(o); }
    R.fmtLen.clear(); for (auto &x : A.fmtLen) { auto it = B.fmtLen.find(x.first); if (it != B.fmtLen.end() && it->second == x.second && noGen(x.second)) R.fmtLen.insert(x); }
    R.elim.clear(); for (auto &x : A.elim) { auto it = B.elim.find(x.first); if (it != B.elim.end() && it->second == x.second && noGen(x.second)) R.elim.insert(x); }
    for (auto &x : A.cnt) { auto it = B.cnt.find(x.first); int v = it == B.cnt.end() ? 0 : it->second; if (v != x.second) R.cnt[x.first] = -1; } for (auto &x : B.cnt) if (!A.cnt.count(x.first) && x.second != 0) R.cnt[x.first] = -1;
    R.elimKeep = std::max(A.elimKeep, B.elimKeep); R.P = P; R.approx = true; R.vague = A.vague || B.vague;
    for (auto &x : R.tabLin) if (x.second.t.size() == 1 && x.second.c == 0 && x.second.t[0].second == 1 && !R.P.b.count(x.second.t[0].first)) { auto mm = range(R, x.first.first, x.first.second); auto &b = R.P.b[x.second.t[0].first]; b.hl = b.hu = true; b.lo = mm.first; b.hi = mm.second; }
    if (R.rfacts.size() > 1) { // drop facts implied by another one
      std::vector<char> del(R.rfacts.size(), 0);
      for (size_t i = 0; i < R.rfacts.size(); i++) for (size_t j = 0; j < R.rfacts.size() && !del[i]; j++) if (i != j && !del[j]) { auto &x = R.rfacts[i], &y = R.rfacts[j]; if (x.K == y.K && (y.cs & ~x.cs).none() && leq(R, y.lo, x.lo) && leq(R, x.hi, y.hi)) del[i] = 1; }
      std::vector<RFact> k; for (size_t i = 0; i < R.rfacts.size(); i++) if (!del[i] && k.size() < 16) k.push_back(R.rfacts[i]); R.rfacts.swap(k); }
    // the parts of a region are in order
    for (auto &r : R.rg) if (r) for (auto &g : r->segs) { Lin d = g.hi - g.lo; bool gen = false; for (auto &p : d.t) if (ma.count(p.first)) gen = true; if (!gen) continue; try { if (!R.P.entails(d) && A.P.entails(substMap(d, ma)) && B.P.entails(substMap(d, mb))) R.P.addGe(d); } catch (Infeasible &) {} catch (Ovf &) {} }
    try { fixBounds(R); } catch (Infeasible &) {}
    return true;
  }
  // B included in A (same signature, canonically numbered); binders: symbols of A not known before the loop
  bool included(State &B0, State &A0, int loopBase) {
    if (A0.rg.size() != B0.rg.size()) return false;
    State A = A0, B = B0;
    for (size_t r = 0; r < A.rg.size(); r++) { auto &x = A.r((int)r).segs; auto &y = B.r((int)r).segs; bool same = x.size() == y.size(); if (same) for (size_t k = 0; k < x.size(); k++) if (!descKind(x[k].d, y[k].d) || (x[k].d.k == Desc::Val && x[k].d.val.k != y[k].d.val.k)) same = false;
      if (!same) { State A2 = A; bool ko = keepOrig; keepOrig = false; alignSegs(A2, B, (int)r); keepOrig = ko; auto &z = A2.r((int)r).segs; bool un = z.size() == x.size(); if (un) for (size_t k = 0; k < x.size(); k++) if (!descKind(x[k].d, z[k].d)) un = false; if (!un) return false; } }
    unelim(A, B);
    std::vector<AV *> va, vb; allAV(A, va); allAV(B, vb); if (va.size() != vb.size()) return false;
    std::map<int, int> bsig; std::vector<std::pair<Lin, Lin>> sl;
    for (size_t k = 0; k < va.size(); k++) { AV &a = *va[k], &b = *vb[k];
      if (a.k == AV::Tab) { if (b.k != AV::Tab || a.r != b.r) return false; auto it = bsig.find(a.s); if (it != bsig.end() && it->second != b.s) return false; bsig[a.s] = b.s; if ((B.bs[b.s] & ~A.bs[a.s]).any()) return false; continue; }
      if (a.k == AV::FP && (b.k == AV::FP || b.k == AV::FPc)) continue; if (a.k == AV::FPc) { if (b.k != AV::FPc || !(a.d == b.d || (a.d != a.d && b.d != b.d))) return false; continue; }
      if (a.k == AV::Int && b.k == AV::Tab) { sl.push_back({a.e, tabToLin(B, b.s, b.r)}); continue; }
      if (a.k != b.k) return false; if (hasE(a)) sl.push_back({a.e, b.e}); }
    std::vector<Lin *> la, lb; otherLins(A, la); otherLins(B, lb); if (la.size() != lb.size()) return false; for (size_t k = 0; k < la.size(); k++) sl.push_back({*la[k], *lb[k]});
    std::map<int, Lin> sg; std::set<int> binders; for (auto &p : sl) for (auto &q : p.first.t) if (q.first >= loopBase) binders.insert(q.first);
    for (bool ch = true; ch;) { ch = false;
      for (auto &p : sl) { int unb = 0; int d = 0; I kd = 0; for (auto &q : p.first.t) if (binders.count(q.first) && !sg.count(q.first)) { unb++; d = q.first; kd = q.second; }
        if (unb == 1 && (kd == 1 || kd == -1)) { Lin rest; rest.c = p.first.c; for (auto &q : p.first.t) if (q.first != d) rest.t.push_back(q); rest = substMap(rest, sg); sg[d] = (p.second - rest) * kd; ch = true; } } }
    for (int d : binders) if (!sg.count(d)) return false;
    for (auto &p : sl) { Lin e = substMap(p.first, sg) - p.second; if (e.isConst() ? e.c != 0 : !B.P.entailsEq(e)) return false; }
    auto known = [&](const Lin &l) { for (auto &p : l.t) if (p.first >= loopBase && !sg.count(p.first)) return false; return true; };
    for (auto &c : A.P.ge) { if (!known(c)) return false; try { if (!B.P.entails(substMap(c, sg))) return false; } catch (Ovf &) { return false; } }
    for (auto &c : A.P.eq) { if (!known(c)) return false; try { if (!B.P.entailsEq(substMap(c, sg))) return false; } catch (Ovf &) { return false; } }
    for (auto &b : A.P.b) { Lin s = Lin::sym(b.first); if (!known(s)) { continue; } s = substMap(s, sg); if (b.second.hl) { Lin l = s; l.c = isub(l.c, b.second.lo); if (!B.P.entails(l)) return false; } if (b.second.hu) { Lin l = -s; l.c = iadd(l.c, b.second.hi); if (!B.P.entails(l)) return false; } }
    for (auto &f : A.facts) { bool ok = false; Lin ix; try { ix = substMap(f.idx, sg); } catch (Ovf &) { return false; } for (auto &g : B.facts) if (g.K == f.K && (g.idx == ix || B.P.entailsEq(g.idx - ix))) { auto it = bsig.find(f.bs); if (it != bsig.end() && it->second != g.bs) continue; if ((B.bs[g.bs] & ~A.bs[f.bs]).any()) continue; bsig[f.bs] = g.bs; ok = true; break; } if (!ok) return false; }
    for (auto &f : A.rfacts) { try { if (!covers(B, f.K, substMap(f.lo, sg), substMap(f.hi, sg), f.cs)) return false; } catch (Ovf &) { return false; } }
    for (auto &f : A.cfacts) { bool ok = false; for (auto &g : B.cfacts) if (g.Ka == f.Ka && g.Kb == f.Kb && g.rel == f.rel && g.fold == f.fold && g.a == substMap(f.a, sg) && g.b == substMap(f.b, sg) && g.n == substMap(f.n, sg)) ok = true; if (!ok) return false; }
    for (auto &x : A.tabLin) { auto it = bsig.find(x.first.first); int b2 = it == bsig.end() ? x.first.first : it->second; auto jt = B.tabLin.find({b2, x.first.second}); if (jt == B.tabLin.end()) return false; Lin e = substMap(x.second, sg) - jt->second; if (e.isConst() ? e.c != 0 : !B.P.entailsEq(e)) return false; }
    for (auto &x : A.rel) { auto m = [&](int b) { auto it = bsig.find(b); return it == bsig.end() ? b : it->second; }; int u = m(x.first[1]), v = m(x.first[2]); if (u == v) { if (x.second) continue; return false; } if (u > v) std::swap(u, v); auto it = B.rel.find({x.first[0], u, v}); if (it == B.rel.end() || it->second != x.second) return false; }
    for (auto &x : A.bits) { auto it = B.bits.find({substMap(x.first.first, sg), x.first.second}); if (it == B.bits.end() || it->second != x.second) return false; }
    for (auto &x : A.divs) { auto it = B.divs.find({substMap(x.first.first, sg), x.first.second}); if (it == B.divs.end() || !(it->second == substMap(x.second, sg))) return false; }
    for (auto &x : A.order) if (!B.order.count(x)) return false;
    for (auto &x : A.fmtLen) { auto it = B.fmtLen.find(x.first); if (it == B.fmtLen.end() || !(it->second == substMap(x.second, sg))) return false; }
    for (auto &x : A.cnt) if (x.second != -1) { auto it = B.cnt.find(x.first); if ((it == B.cnt.end() ? 0 : it->second) != x.second) return false; } for (auto &x : B.cnt) if (x.second != 0 && !A.cnt.count(x.first)) return false;
    for (auto &x : B.bs) (void)x;
    return true;
  }
  struct Part { State inv; int n = 0; bool dirty = true; std::vector<std::pair<int, std::string>> consts; std::string sig; };
  struct Partition {
    std::map<std::string, Part> parts; std::map<std::string, std::set<std::string>> seen; std::set<std::string> black; size_t cap = 4;
    std::string key(const Canon &c) { std::string k = c.sig; for (auto &x : c.consts) { std::string id = c.sig + "#" + std::to_string(x.first); if (!black.count(id)) k += "#" + std::to_string(x.first) + "=" + x.second; } return k; }
    bool note(const Canon &c) { bool nb = false; for (auto &x : c.consts) { std::string id = c.sig + "#" + std::to_string(x.first); if (black.count(id)) continue; auto &s = seen[id]; s.insert(x.second); if (s.size() > cap) { black.insert(id); nb = true; } } return nb; }
  };
  // a loop whose invariant keeps changing: forget how the content of the regions is divided, except for constants
  void coarsen(State &S) {
    for (size_t k = 0; k < S.rg.size(); k++) if (S.rg[k] && S.rg[k]->segs.size() > 1) {
      auto fuzzy = [](const Seg &s) { return s.d.k == Desc::Top || s.d.k == Desc::Orig || s.d.k == Desc::Val; };
      bool two = false; auto &v0 = S.rg[k]->segs; for (size_t i = 1; i < v0.size(); i++) if (fuzzy(v0[i]) && fuzzy(v0[i - 1])) two = true; if (!two) continue;
      std::vector<Seg> o; for (auto &s : v0) { if (!o.empty() && fuzzy(s) && fuzzy(o.back())) { Seg t; t.lo = o.back().lo; t.hi = s.hi; t.d.k = Desc::Top; o.back() = t; } else o.push_back(s); }
      S.R((int)k).segs = o; }
  }
  // what is recorded of single bytes that nothing refers to any more and that is implied by what is known of a range around them
  void slim(State &S) {
    if (S.facts.size() < 4) return;
    std::set<int> L; liveSyms(S, L); std::set<int> B; liveBytes(S, B); for (auto &x : S.rel) { B.insert(x.first[1]); B.insert(x.first[2]); }
    for (auto &t : S.tabLin) for (auto &p : t.second.t) if (L.count(p.first)) B.insert(t.first.first);
    std::vector<Fact> nf; bool any = false;
    for (auto &f : S.facts) { bool drop = false; if (!B.count(f.bs)) for (auto &r : S.rfacts) if (r.K == f.K && (r.cs & ~S.bs[f.bs]).none() && leq(S, r.lo, f.idx) && leq(S, f.idx + Lin((I)1), r.hi)) { drop = true; break; } if (drop) any = true; else nf.push_back(f); }
    if (!any) return; std::set<int> keep = B; for (auto &f : nf) keep.insert(f.bs);
    for (auto it = S.tabLin.begin(); it != S.tabLin.end();) if (!keep.count(it->first.first)) it = S.tabLin.erase(it); else ++it;
    S.facts.swap(nf);
  }
  // a value lies in the range of its type
  void clampTypes(State &S) {
    std::function<void(const AV &)> g = [&](const AV &a) { if (a.k == AV::Agg) { for (auto &x : *a.agg) g(x); return; } if (a.k != AV::Int || a.w < 8 || a.e.t.size() != 1 || a.e.c || a.e.t[0].second != 1) return; I lo = a.uns ? 0 : smin(a.w), hi = a.uns ? p2(a.w) - 1 : smax(a.w); Lin l = a.e, h = -a.e; l.c = -lo; h.c = hi; try { assumeGe(S, l); assumeGe(S, h); } catch (Infeasible &) {} };
    std::vector<AV> vs; for (auto &F : S.fr) for (auto &a : F.env) vs.push_back(a); for (auto &r : S.rg) if (r && r->alive) for (auto &c : r->cells) vs.push_back(c.second.v);
    for (auto &a : vs) g(a);
  }
  // decimal polynomials do not take part in joins
  void dropPolys(State &S) {
    std::function<bool(const AV &)> has = [&](const AV &a) { if (a.k == AV::FP) return (bool)a.agg; if (a.k == AV::Agg) for (auto &x : *a.agg) if (has(x)) return true; return false; };
    std::function<void(AV &)> g = [&](AV &a) { if (!has(a)) return; if (a.k == AV::FP) { a.agg.reset(); return; } auto v = std::make_shared<std::vector<AV>>(*a.agg); for (auto &x : *v) g(x); a.agg = v; };
    for (auto &F : S.fr) for (auto &a : F.env) g(a);
    for (auto &p : S.packs) for (auto &a : p) g(a);
    for (size_t i = 0; i < S.rg.size(); i++) if (S.rg[i]) { bool h = false; for (auto &c : S.rg[i]->cells) if (has(c.second.v)) h = true; if (h) for (auto &c : S.R((int)i).cells) g(c.second.v); }
    for (auto &x : S.ghost) g(x.second); g(S.ret);
  }
  void addPart(Partition &pt, State s, int loopBase, bool force = false) {
    dropPolys(s); clampTypes(s); Canon c = canonSig(s); renumber(s, c); projectDead(s);
    if (pt.note(c)) { // partition became coarser: regroup
      std::vector<State> all; for (auto &p : pt.parts) all.push_back(std::move(p.second.inv)); pt.parts.clear(); for (auto &x : all) addPart(pt, std::move(x), loopBase); }
    std::string k = pt.key(c); auto it = pt.parts.find(k);
    if (it == pt.parts.end()) { Part p; p.inv = std::move(s); pt.parts[k] = std::move(p); return; }
    Part &p = it->second; if (included(s, p.inv, loopBase)) return; State dbgS, dbgP; if (getenv("AI_JOIN")) { dbgS = s; dbgP = p.inv; }
    keepOrig = force || p.n < (tuning ? 12 : 8); struct Reset { bool &b; ~Reset() { b = true; } } reset{keepOrig};
    State r; if (!join(p.inv, s, force || p.n < 3 ? 0 : p.n < 12 ? 1 : 2, r, !force && p.n >= (tuning ? 26 : 20) ? loopBase : INT_MAX)) { std::string k2 = k; do { k2 += "'"; } while (pt.parts.count(k2)); if (pt.parts.size() > 200) throw Budget{"partition explosion"}; Part q; q.inv = std::move(s); pt.parts[k2] = std::move(q); return; }
    if (!force && p.n >= (tuning ? 18 : 10)) coarsen(r);
    if (!force && p.n >= 3) slim(r);
    Canon c2 = canonSig(r); renumber(r, c2); projectDead(r); p.inv = std::move(r); p.n++; p.dirty = true;
    if (getenv("AI_JOIN") && p.n > atoi(getenv("AI_JOIN"))) fprintf(stderr, "JOIN %d\n%s\nWITH\n%s\nPREV\n%s\n", p.n, dump(p.inv).c_str(), dump(dbgS).c_str(), dump(dbgP).c_str());
    if (p.n > 40 && !force) throw Budget{"loop invariant did not stabilise"};
  }
  void mergeStates(std::vector<State> &ss) {
    Partition pt; pt.cap = 6; int base = nextSym;
    for (auto &s : ss) addPart(pt, std::move(s), base, true);
    ss.clear(); for (auto &p : pt.parts) ss.push_back(std::move(p.second.inv));
  }
  void solveLoop(Loop *L, std::vector<State> in, Out &out) {
    nLoops++; const BasicBlock *h = L->getHeader();
    std::vector<std::pair<State, int>> pend; std::vector<State> fix; for (auto &s : in) pend.push_back({std::move(s), 0});
    size_t peeled = 0;
    while (!pend.empty()) {
      auto p = std::move(pend.back()); pend.pop_back();
      int lim = bound ? 290 : p.first.unroll > 0 ? p.first.unroll : 0; bool forced = p.second < lim;
      if (p.second >= 300 || peeled > (bound ? 300000u : 3000u)) { fix.push_back(std::move(p.first)); continue; }
      Out o; State save = p.first; std::vector<State> v; v.push_back(std::move(p.first)); runRegion(L, h, std::move(v), o); peeled++;
      bool ex = !o.exits.empty() || !o.rets.empty(), bk = !o.backs.empty();
      if (getenv("AI_LOOP")) fprintf(stderr, "%*speel %s d=%d exits %zu rets %zu backs %zu\n", (int)0, "", where(&*h->getFirstNonPHIOrDbg()).c_str(), p.second, o.exits.size(), o.rets.size(), o.backs.size());
      if (ex && bk && !forced) { fix.push_back(std::move(save)); continue; }
      if (!forced && bk && o.backs.size() > 1 && (p.second > 4 || fix.size() + pend.size() > 6)) { fix.push_back(std::move(save)); continue; }
      for (auto &e : o.exits) out.exits.push_back(std::move(e)); for (auto &r : o.rets) out.rets.push_back(std::move(r)); for (auto &b : o.backs) pend.push_back({std::move(b), p.second + 1});
    }
    if (fix.empty()) return;
    Partition pt; int base = nextSym; for (auto &s : fix) s.elimKeep = nextSym;
    for (auto &s : fix) addPart(pt, std::move(s), base);
    for (int rounds = 0;; rounds++) {
      if (rounds > 400) throw Budget{"loop fixpoint did not terminate"};
      std::string k; for (auto &p : pt.parts) if (p.second.dirty) { k = p.first; break; } if (k.empty()) break;
      pt.parts[k].dirty = false; State s = pt.parts[k].inv; Out o; quiet++; std::vector<State> v; v.push_back(std::move(s));
      try { runRegion(L, h, std::move(v), o); } catch (...) { quiet--; throw; } quiet--;
      for (auto &b : o.backs) addPart(pt, std::move(b), base);
      maxPart = std::max<uint64_t>(maxPart, pt.parts.size());
    }
    if (getenv("AI_LOOP")) { int n = 0; for (auto &p : pt.parts) n += p.second.n; fprintf(stderr, "fixpoint %s parts %zu joins %d entered %zu t=%.2f\n", where(&*h->getFirstNonPHIOrDbg()).c_str(), pt.parts.size(), n, fix.size(), now()); }
    for (auto &p : pt.parts) { Out o; std::vector<State> v; v.push_back(p.second.inv); if (debug && !quiet) { fprintf(stderr, "INV at %s\n%s\n", where(&*h->getFirstNonPHIOrDbg()).c_str(), dump(v[0]).c_str()); } runRegion(L, h, std::move(v), o); for (auto &e : o.exits) out.exits.push_back(std::move(e)); for (auto &r : o.rets) out.rets.push_back(std::move(r)); }
  }
