// Numeric core of the analyser: linear expressions, rational LP (general-form simplex) used as the
// entailment test of the linear-inequality (constraint-form polyhedra) abstract domain.
#pragma once
#include <cstdint>
#include <vector>
#include <map>
#include <string>
#include <algorithm>
#include <cassert>
#include <unordered_map>
typedef __int128 I;
struct Ovf {};
static inline I iadd(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Ovf(); return r; }
static inline I isub(I a, I b) { I r; if (__builtin_sub_overflow(a, b, &r)) throw Ovf(); return r; }
static inline I imul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Ovf(); return r; }
static inline I iabs(I a) { return a < 0 ? -a : a; }
static inline I igcd(I a, I b) { a = iabs(a); b = iabs(b); while (b) { I t = a % b; a = b; b = t; } return a; }
static inline I floordiv(I a, I b) { I q = a / b, r = a % b; if (r && ((r < 0) != (b < 0))) --q; return q; }
std::string i2s(I v);

struct Lin {
  std::vector<std::pair<int, I>> t; // sorted by symbol
  I c = 0;
  Lin() {}
  Lin(I k) : c(k) {}
  static Lin sym(int s) { Lin l; l.t.push_back({s, 1}); return l; }
  bool isConst() const { return t.empty(); }
  I coef(int s) const { for (auto &p : t) if (p.first == s) return p.second; return 0; }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator!=(const Lin &o) const { return !(*this == o); }
  bool operator<(const Lin &o) const { if (t != o.t) return t < o.t; return c < o.c; }
};
static inline Lin combine(const Lin &a, I ka, const Lin &b, I kb) {
  Lin r; r.t.reserve(a.t.size() + b.t.size());
  r.c = iadd(imul(a.c, ka), imul(b.c, kb));
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { I k = imul(a.t[i].second, ka); if (k) r.t.push_back({a.t[i].first, k}); i++; }
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { I k = imul(b.t[j].second, kb); if (k) r.t.push_back({b.t[j].first, k}); j++; }
    else { I k = iadd(imul(a.t[i].second, ka), imul(b.t[j].second, kb)); if (k) r.t.push_back({a.t[i].first, k}); i++; j++; }
  }
  return r;
}
static inline Lin operator+(const Lin &a, const Lin &b) { return combine(a, 1, b, 1); }
static inline Lin operator-(const Lin &a, const Lin &b) { return combine(a, 1, b, -1); }
static inline Lin operator*(const Lin &a, I k) { Lin r; if (!k) return r; r = a; r.c = imul(r.c, k); for (auto &p : r.t) p.second = imul(p.second, k); return r; }
static inline Lin operator-(const Lin &a) { return a * (I)-1; }
// replace symbol s by e in l
static inline void substLin(Lin &l, int s, const Lin &e) {
  I k = l.coef(s); if (!k) return;
  Lin r; r.c = l.c; for (auto &p : l.t) if (p.first != s) r.t.push_back(p);
  l = combine(r, 1, e, k);
}
std::string lstr(const Lin &l);

struct Bnd { bool hl = false, hu = false; I lo = 0, hi = 0; };
struct Infeasible {};

struct Poly {
  std::vector<Lin> ge;            // e >= 0 (two or more symbols)
  std::vector<Lin> eq;            // e == 0 which no unit-coefficient substitution could remove
  std::unordered_map<int, Bnd> b; // interval part
  bool lower(const Lin &e, I &out) const;
  bool upper(const Lin &e, I &out) const;
  bool feasibleWith(const std::vector<Lin> &extra) const; // rational feasibility of cone of influence
  bool entails(const Lin &e) const;                        // e >= 0
  bool entailsEq(const Lin &e) const { return entails(e) && entails(-e); }
  void addGe(Lin e); // raw add (no substitution)
  static bool normalise(Lin &e); // gcd tighten
};
extern uint64_t nLP, nEnt, nOvf, nBig;
