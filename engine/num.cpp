#include "num.h"
#include <gmpxx.h>
#include <set>
#include <unordered_set>
uint64_t nLP, nEnt, nOvf, nBig;
std::string i2s(I v) { if (!v) return "0"; bool n = v < 0; std::string s; while (v) { int d = (int)(v % 10); s.push_back('0' + (d < 0 ? -d : d)); v /= 10; } if (n) s.push_back('-'); std::reverse(s.begin(), s.end()); return s; }
std::string lstr(const Lin &l) { std::string s; for (auto &p : l.t) { if (p.second == 1) s += "+s" + std::to_string(p.first); else if (p.second == -1) s += "-s" + std::to_string(p.first); else s += (p.second > 0 ? "+" : "") + i2s(p.second) + "*s" + std::to_string(p.first); } if (l.c || s.empty()) s += (l.c >= 0 ? "+" : "") + i2s(l.c); return s; }

bool Poly::lower(const Lin &e, I &out) const {
  try { I r = e.c; for (auto &p : e.t) { auto it = b.find(p.first); if (it == b.end()) return false; if (p.second > 0) { if (!it->second.hl) return false; r = iadd(r, imul(p.second, it->second.lo)); } else { if (!it->second.hu) return false; r = iadd(r, imul(p.second, it->second.hi)); } } out = r; return true; } catch (Ovf) { nOvf++; return false; }
}
bool Poly::upper(const Lin &e, I &out) const { I o; if (!lower(-e, o)) return false; out = -o; return true; }
bool Poly::normalise(Lin &e) { I g = 0; for (auto &p : e.t) g = igcd(g, p.second); if (g > 1) { for (auto &p : e.t) p.second /= g; e.c = floordiv(e.c, g); } return true; }
void Poly::addGe(Lin e) {
  normalise(e);
  if (e.isConst()) { if (e.c < 0) throw Infeasible(); return; }
  if (e.t.size() == 1) {
    auto &x = b[e.t[0].first];
    if (e.t[0].second > 0) { I lo = -e.c; if (!x.hl || lo > x.lo) { x.hl = true; x.lo = lo; } }
    else { I hi = e.c; if (!x.hu || hi < x.hi) { x.hu = true; x.hi = hi; } }
    if (x.hl && x.hu && x.lo > x.hi) throw Infeasible();
    return;
  }
  I lo; if (lower(e, lo) && lo >= 0) return;
  for (auto &g : ge) if (g.t == e.t) { if (e.c < g.c) g.c = e.c; return; }
  ge.push_back(e);
}

namespace {
struct Rat { I n, d; };
inline Rat mk(I n, I d) { if (d < 0) { n = -n; d = -d; } if (d == 1) return {n, 1}; I g = igcd(n, d); if (g > 1) { n /= g; d /= g; } return {n, d}; }
inline Rat radd(Rat a, Rat b) { if (a.d == 1 && b.d == 1) return {iadd(a.n, b.n), 1}; return mk(iadd(imul(a.n, b.d), imul(b.n, a.d)), imul(a.d, b.d)); }
inline Rat rneg(Rat a) { return {-a.n, a.d}; }
inline Rat rsub(Rat a, Rat b) { return radd(a, rneg(b)); }
inline Rat rmul(Rat a, Rat b) { if (a.d == 1 && b.d == 1) return {imul(a.n, b.n), 1}; return mk(imul(a.n, b.n), imul(a.d, b.d)); }
inline Rat rdiv(Rat a, Rat b) { return mk(imul(a.n, b.d), imul(a.d, b.n)); }
inline int rcmp(Rat a, Rat b) { if (a.d == b.d) return a.n < b.n ? -1 : a.n > b.n; I x = imul(a.n, b.d), y = imul(b.n, a.d); return x < y ? -1 : x > y; }
inline int rsgn(const Rat &a) { return a.n < 0 ? -1 : a.n > 0; }
// the same over unbounded rationals, for when the fast ones overflow
inline mpz_class z128(I v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; mpz_class r = (unsigned long)(u >> 64); r <<= 64; r += (unsigned long)u; return n ? mpz_class(-r) : r; }
typedef mpq_class Big;
inline Big radd(const Big &a, const Big &b) { return a + b; }
inline Big rsub(const Big &a, const Big &b) { return a - b; }
inline Big rneg(const Big &a) { return -a; }
inline Big rmul(const Big &a, const Big &b) { return a * b; }
inline Big rdiv(const Big &a, const Big &b) { return a / b; }
inline int rcmp(const Big &a, const Big &b) { return cmp(a, b); }
inline int rsgn(const Big &a) { return sgn(a); }
inline void rset(Rat &r, I v) { r = {v, 1}; }
inline void rset(Big &r, I v) { r = Big(z128(v)); }
template <class Rat> struct LP {
  // variables 0..n-1 (structural) then n.. (row slacks); bounds optional
  int n = 0, m = 0;
  std::vector<std::vector<Rat>> T;   // rows: basic var = sum T[r][j]*nonbasic_j   (j indexes nonbasic slots)
  std::vector<int> bas, nb;          // variable in row r / slot j
  std::vector<Rat> val; std::vector<char> hl, hu; std::vector<Rat> lo, hi;
  int addVar() { Rat z; rset(z, 0); val.push_back(z); hl.push_back(0); hu.push_back(0); lo.push_back(z); hi.push_back(z); return (int)val.size() - 1; }
  bool solve() {
    // initial: structural nonbasic at a bound if any
    for (int j = 0; j < n; j++) { int v = nb[j]; Rat x; rset(x, 0); if (hl[v] && rcmp(x, lo[v]) < 0) x = lo[v]; if (hu[v] && rcmp(x, hi[v]) > 0) x = hi[v]; val[v] = x; }
    for (int r = 0; r < m; r++) { Rat s; rset(s, 0); for (int j = 0; j < n; j++) if (rsgn(T[r][j])) s = radd(s, rmul(T[r][j], val[nb[j]])); val[bas[r]] = s; }
    for (int it = 0;; it++) {
      if (it > 2000) throw Ovf();
      int r = -1, bv = 1 << 30; bool low = false;
      for (int i = 0; i < m; i++) { int v = bas[i]; if (v < bv) { if (hl[v] && rcmp(val[v], lo[v]) < 0) { r = i; bv = v; low = true; } else if (hu[v] && rcmp(val[v], hi[v]) > 0) { r = i; bv = v; low = false; } } }
      if (r < 0) return true;
      int j = -1, jv = 1 << 30;
      for (int k = 0; k < n; k++) if (rsgn(T[r][k])) { int v = nb[k]; bool pos = rsgn(T[r][k]) > 0; bool inc = (low == pos); // need to increase v?
          bool ok = inc ? (!hu[v] || rcmp(val[v], hi[v]) < 0) : (!hl[v] || rcmp(val[v], lo[v]) > 0);
          if (ok && v < jv) { jv = v; j = k; } }
      if (j < 0) return false;
      // pivot and update
      Rat target = low ? lo[bv] : hi[bv];
      Rat a = T[r][j];
      Rat theta = rdiv(rsub(target, val[bv]), a);
      val[bv] = target; val[jv] = radd(val[jv], theta);
      for (int i = 0; i < m; i++) if (i != r && rsgn(T[i][j])) val[bas[i]] = radd(val[bas[i]], rmul(T[i][j], theta));
      // swap
      Rat one, zero; rset(one, 1); rset(zero, 0); Rat inv = rdiv(one, a);
      for (int k = 0; k < n; k++) if (k == j) T[r][k] = inv; else if (rsgn(T[r][k])) T[r][k] = rneg(rmul(T[r][k], inv));
      for (int i = 0; i < m; i++) if (i != r && rsgn(T[i][j])) { Rat f = T[i][j]; T[i][j] = zero; for (int k = 0; k < n; k++) if (rsgn(T[r][k])) T[i][k] = radd(T[i][k], rmul(f, T[r][k])); }
      bas[r] = jv; nb[j] = bv;
    }
  }
};
}
struct LinVecHash { size_t operator()(const std::vector<int64_t> &v) const { size_t h = 1469598103934665603ull; for (auto x : v) { h ^= (size_t)x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<int64_t>, char, LinVecHash> lpCache;

bool Poly::feasibleWith(const std::vector<Lin> &extra) const {
  // cone of influence
  std::set<int> S; for (auto &e : extra) for (auto &p : e.t) S.insert(p.first);
  std::vector<char> ug(ge.size(), 0), ue(eq.size(), 0);
  for (bool ch = true; ch;) { ch = false;
    for (size_t i = 0; i < ge.size(); i++) if (!ug[i]) for (auto &p : ge[i].t) if (S.count(p.first)) { ug[i] = 1; ch = true; for (auto &q : ge[i].t) S.insert(q.first); break; }
    for (size_t i = 0; i < eq.size(); i++) if (!ue[i]) for (auto &p : eq[i].t) if (S.count(p.first)) { ue[i] = 1; ch = true; for (auto &q : eq[i].t) S.insert(q.first); break; } }
  std::vector<int> syms(S.begin(), S.end()); std::unordered_map<int, int> ix; for (size_t i = 0; i < syms.size(); i++) ix[syms[i]] = (int)i;
  struct Row { const Lin *l; bool iseq; };
  std::vector<Row> rows; for (auto &e : extra) rows.push_back({&e, false});
  for (size_t i = 0; i < ge.size(); i++) if (ug[i]) rows.push_back({&ge[i], false});
  for (size_t i = 0; i < eq.size(); i++) if (ue[i]) rows.push_back({&eq[i], true});
  // cache key
  std::vector<int64_t> key; auto pushI = [&](I v) { key.push_back((int64_t)v); key.push_back((int64_t)(v >> 64)); };
  for (auto &r : rows) { key.push_back(r.iseq ? -7 : -5); for (auto &p : r.l->t) { key.push_back(ix[p.first]); pushI(p.second); } pushI(r.l->c); }
  for (int s : syms) { auto it = b.find(s); if (it == b.end()) { key.push_back(-11); continue; } key.push_back(it->second.hl * 2 + it->second.hu); if (it->second.hl) pushI(it->second.lo); if (it->second.hu) pushI(it->second.hi); }
  auto ci = lpCache.find(key); if (ci != lpCache.end()) { if (ci->second == 2) nOvf++; return ci->second; }
  nLP++;
  char res = 1;
  auto run = [&](auto zero) {
    typedef decltype(zero) R; auto mkR = [](I v) { R r; rset(r, v); return r; };
    LP<R> lp; lp.n = (int)syms.size(); lp.m = (int)rows.size();
    for (int s : syms) { int v = lp.addVar(); lp.nb.push_back(v); auto it = b.find(s); if (it != b.end()) { if (it->second.hl) { lp.hl[v] = 1; lp.lo[v] = mkR(it->second.lo); } if (it->second.hu) { lp.hu[v] = 1; lp.hi[v] = mkR(it->second.hi); } } }
    for (auto &r : rows) { int v = lp.addVar(); lp.bas.push_back(v); lp.hl[v] = 1; lp.lo[v] = mkR(-r.l->c); if (r.iseq) { lp.hu[v] = 1; lp.hi[v] = mkR(-r.l->c); } std::vector<R> t(lp.n, mkR(0)); for (auto &p : r.l->t) t[ix[p.first]] = mkR(p.second); lp.T.push_back(t); }
    return (char)lp.solve();
  };
  try { res = run(Rat{0, 1}); } catch (Ovf) { nBig++; try { res = run(Big()); } catch (Ovf) { nOvf++; res = 2; } }
  if (lpCache.size() > 2000000) lpCache.clear();
  lpCache.emplace(std::move(key), res);
  return res;
}
bool Poly::entails(const Lin &e) const {
  nEnt++;
  if (e.isConst()) return e.c >= 0;
  I lo; if (lower(e, lo) && lo >= 0) return true;
  I hi; if (upper(e, hi) && hi < 0) return false;
  for (auto &g : ge) if (g.t == e.t && g.c <= e.c) return true;
  try { Lin ne = -e; ne.c = isub(ne.c, 1); normalise(ne); std::vector<Lin> ex{ne}; return !feasibleWith(ex); } catch (Ovf) { nOvf++; return false; }
}
