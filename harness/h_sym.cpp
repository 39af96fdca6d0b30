// C01 FSM == sum of terms; C02 compression; C03 symbolic algebra; C04 sparse matrix; C05 pointer
// vector; C08 label interning.  Everything here runs against the headers as they are.
#include "pbt.h"
#include <cassert>
#include <iomanip>
#include <memory>
#include <numeric>
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h"
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
#include "qlmps/one_dim_tn/framework/duovector.h"

using pbt::Src;
typedef unsigned __int128 u128;
static const uint64_t P = (1ULL << 61) - 1;
static uint64_t mul(uint64_t a, uint64_t b) { return (uint64_t) ((u128) a * b % P); }
static uint64_t add(uint64_t a, uint64_t b) { return (a + b) % P; }
static uint64_t val(CNumberLabel l) {           // value given to a coefficient label; identity is 1
  if (l == kIdCoefLabel) return 1;
  uint64_t x = (uint64_t) l * 0x9e3779b97f4a7c15ULL + 12345;
  return pbt::splitmix(x) % P;
}
static uint64_t val(const CoefRepr &c) { uint64_t v = 0; for (auto l : c.GetCoefLabelList()) v = add(v, val(l)); return v; }

// ---- formal operators: linear combinations of basis-operator labels / words ---------------------
typedef std::map<long, uint64_t> Lin;
static void put(Lin &m, long k, uint64_t v) { uint64_t &x = m[k]; x = add(x, v); if (x == 0) m.erase(k); }
static Lin lin(const OpRepr &o) {
  Lin m; auto cs = o.GetCoefReprList(); auto ls = o.GetOpLabelList();
  PBT_REQUIRE(cs.size() == ls.size(), "coefficient list and operator list have different lengths");
  for (size_t i = 0; i < cs.size(); ++i) put(m, ls[i], val(cs[i]));
  return m;
}
typedef std::vector<long> Word;
typedef std::map<Word, uint64_t> Poly;
static void put(Poly &m, const Word &k, uint64_t v) { uint64_t &x = m[k]; x = add(x, v); if (x == 0) m.erase(k); }
template<typename MatVec> static Poly expand(const MatVec &ms) {
  PBT_REQUIRE(!ms.empty(), "no matrices");
  PBT_REQUIRE(ms[0].rows == 1, "first matrix has " << ms[0].rows << " rows");
  PBT_REQUIRE(ms.back().cols == 1, "last matrix has " << ms.back().cols << " columns");
  std::vector<Poly> st(1); st[0][Word{}] = 1;
  for (size_t i = 0; i < ms.size(); ++i) {
    if (i) PBT_REQUIRE(ms[i].rows == ms[i - 1].cols, "bond " << i << ": " << ms[i - 1].cols << " columns meet " << ms[i].rows << " rows");
    PBT_REQUIRE(ms[i].rows == st.size(), "row count");
    std::vector<Poly> nx(ms[i].cols);
    for (size_t r = 0; r < ms[i].rows; ++r) for (size_t c = 0; c < ms[i].cols; ++c) {
      if (ms[i].IsNull(r, c)) continue;
      Lin l = lin(ms[i](r, c));
      for (auto &w : st[r]) for (auto &t : l) { Word k = w.first; k.push_back(t.first); put(nx[c], k, mul(w.second, t.second)); }
    }
    size_t tot = 0; for (auto &p : nx) tot += p.size();
    if (tot > 400000) throw pbt::Discard{};
    st.swap(nx);
  }
  return st[0];
}
static std::string show(const Poly &p, size_t max = 6) {
  std::ostringstream os; size_t n = 0;
  for (auto &t : p) { if (n++ == max) { os << " + ..."; break; } os << (n > 1 ? " + " : "") << t.second << "*["; for (auto l : t.first) os << l << " "; os << "]"; }
  if (p.empty()) os << "0";
  return os.str();
}
static Poly minus(const Poly &a, const Poly &b) { Poly d = a; for (auto &t : b) put(d, t.first, P - t.second % P); return d; }

static CoefRepr gen_coef(Src &s, long maxlab) { return CoefRepr((CNumberLabel) s.range(0, maxlab)); }

// a term: coefficient at its first operator, one basis operator per touched site
struct Term { size_t head, tail; long coef; Word ops; };
static Word full(const Term &t, size_t n, const std::vector<long> &ids) {
  Word w = Word(ids.begin(), ids.begin() + n);
  for (size_t i = t.head; i <= t.tail; ++i) w[i] = t.ops[i - t.head];
  return w;
}
static std::ostream &operator<<(std::ostream &os, const Term &t) {
  os << "c" << t.coef << "@" << t.head; for (auto o : t.ops) os << " " << o; return os << "; ";
}
struct Model { size_t n; std::vector<long> ids; std::vector<Term> terms; bool custom_id; };
static Model gen_model(Src &s, size_t nmax, size_t tmax) {
  Model m;
  m.n = s.big(1, nmax, 2 * nmax, 60);
  m.custom_id = s.chance(1, 3);
  for (size_t i = 0; i < m.n; ++i) m.ids.push_back(m.custom_id ? (s.chance(1, 4) ? (long) s.range(7, 8) : 0) : 0);
  size_t nt = s.big(1, tmax, 2 * tmax, 60);
  long ncoef = s.big(0, 4, 30), nops = s.big(1, 4, 30);
  size_t span = s.weighted({1, 2, 2}) == 0 ? 1 : (size_t) s.range(1, m.n);
  for (size_t k = 0; k < nt; ++k) {
    Term t;
    if (k && s.chance(1, 6)) t = m.terms[s.below(k)];                 // exact duplicate of an earlier term
    else {
      t.head = s.below(m.n);
      t.tail = std::min(m.n - 1, t.head + s.below(span));
      t.coef = s.range(0, ncoef);
      bool jw = s.chance(1, 4);                                        // the same filler between the ends
      long filler = s.range(0, nops);
      for (size_t i = t.head; i <= t.tail; ++i)
        t.ops.push_back(jw && i > t.head && i < t.tail ? filler : (i > t.head && i < t.tail && s.chance(1, 2) ? m.ids[i] : s.range(0, nops)));
      if (k && s.chance(1, 5)) { Term u = m.terms[s.below(k)]; u.coef = t.coef; t = u; }   // same string, other coefficient
    }
    m.terms.push_back(t);
  }
  s.note << "N=" << m.n << " ids=";
  for (auto i : m.ids) s.note << i << ",";
  s.note << " terms: ";
  for (auto &t : m.terms) s.note << t;
  return m;
}
static Poly expected(const Model &m) { Poly p; for (auto &t : m.terms) put(p, full(t, m.n, m.ids), val(t.coef)); return p; }
static FSM build(const Model &m) {
  std::vector<OpRepr> ids; for (auto i : m.ids) ids.push_back(OpRepr((BasisOpLabel) i));
  FSM f = m.custom_id ? FSM(m.n, ids) : FSM(m.n);
  for (auto &t : m.terms) {
    OpReprVec ops;
    for (size_t i = 0; i < t.ops.size(); ++i) ops.push_back(i == 0 ? OpRepr(CoefRepr(t.coef), t.ops[0]) : OpRepr(t.ops[i]));
    f.AddPath(t.head, t.tail, ops);
  }
  return f;
}
static void classify(Src &s, const Model &m) {
  bool multi = false, dup = false, overlap = false; std::set<Word> seen;
  for (auto &t : m.terms) { multi |= t.tail > t.head; auto w = full(t, m.n, m.ids); dup |= !seen.insert(w).second; }
  overlap = m.terms.size() > 1;
  if (multi) s.label("some term spans several sites");
  if (dup) s.label("the same operator string occurs twice");
  if (m.n >= 5) s.label("five or more sites");
  if (m.terms.size() >= 6) s.label("six or more terms");
  s.nontrivial(multi && overlap && m.n >= 3);
}
static void prop_fsm(Src &s) {
  Model m = gen_model(s, 8, 12);
  classify(s, m);
  FSM f = build(m);
  PBT_REQUIRE(f.phys_size() == m.n && f.fsm_size() == m.n + 1, "reported sizes");
  auto paths = f.GetFSMPaths();
  PBT_REQUIRE(paths.size() == m.terms.size(), "number of recorded terms: " << paths.size());
  for (size_t k = 0; k < paths.size(); ++k) {
    const Term &t = m.terms[k]; Word w = full(t, m.n, m.ids);
    for (size_t i = 0; i <= m.n; ++i) {
      PBT_REQUIRE(paths[k].Node(i).Site() == i, "term " << k << ": node " << i << " says it sits at site " << paths[k].Node(i).Site());
      bool rdy = i <= t.head, fin = i > t.tail;
      PBT_REQUIRE(rdy ? paths[k].Node(i).Stat() == kFSMReadyStatIdx : fin ? paths[k].Node(i).Stat() == kFSMFinalStatIdx : paths[k].Node(i).Stat() > 0, "term " << k << ": state before site " << i << " is " << paths[k].Node(i).Stat());
      if (i < m.n) { Lin l = lin(paths[k].Opr(i)), e; e[w[i]] = i == t.head ? val(t.coef) : 1; PBT_REQUIRE(l == e, "term " << k << ": recorded operator at site " << i); }
    }
  }
  Poly got = expand(f.GenMatRepr()), want = expected(m);
  PBT_REQUIRE(got == want, "the matrix representation is not the sum of the added terms; difference: " << show(minus(got, want)));
}
static void prop_fsm_multi(Src &s) {        // operators that are themselves sums of labelled operators (incl. coefficients, heads only)
  size_t n = s.big(1, 6, 14); FSM f(n); size_t nt = s.big(1, 6, 20); Poly want;
  s.note << "N=" << n << " ";
  bool nt_ = false;
  for (size_t k = 0; k < nt; ++k) {
    size_t h = s.below(n), t = h + s.below(n - h); OpReprVec ops; std::vector<Lin> ls;
    s.note << "term " << h << ".." << t << ": ";
    for (size_t i = h; i <= t; ++i) {
      size_t m = s.big(1, 3, 12); CoefReprVec cs; std::vector<BasisOpLabel> bs; Lin l;
      for (size_t j = 0; j < m; ++j) {
        long c = s.range(0, 3), b = s.range(0, 4);
        cs.push_back(CoefRepr(c)); bs.push_back(b); put(l, b, val(c)); s.note << "c" << c << "*" << b << "+";
      }
      s.note << " ";
      nt_ |= m > 1;
      ops.push_back(OpRepr(cs, bs)); ls.push_back(l);
    }
    f.AddPath(h, t, ops);
    Poly p; p[Word{}] = 1;
    for (size_t i = 0; i < n; ++i) {
      Lin l; if (i >= h && i <= t) l = ls[i - h]; else l[0] = 1;
      Poly q; for (auto &w : p) for (auto &x : l) { Word k2 = w.first; k2.push_back(x.first); put(q, k2, mul(w.second, x.second)); }
      p.swap(q);
    }
    for (auto &w : p) put(want, w.first, w.second);
  }
  s.nontrivial(nt_ && nt > 1);
  Poly got = expand(f.GenMatRepr());
  PBT_REQUIRE(got == want, "the matrix representation is not the sum of the added terms; difference: " << show(minus(got, want)));
}
static void check_compressed(Src &s, const Model &m) {
  FSM f = build(m);
  auto raw = f.GenMatRepr(); auto cmp = f.GenCompressedMatRepr();
  PBT_REQUIRE(cmp.size() == m.n, "one matrix per site expected");
  Poly got = expand(cmp), want = expected(m);
  PBT_REQUIRE(got == want, "the compressed representation is not the sum of the added terms; difference: " << show(minus(got, want)));
  bool smaller = false;
  for (size_t i = 0; i + 1 < m.n; ++i) {
    PBT_REQUIRE(cmp[i].cols <= raw[i].cols, "compression enlarged bond " << i << ": " << raw[i].cols << " -> " << cmp[i].cols);
    smaller |= cmp[i].cols < raw[i].cols;
  }
  if (smaller) s.label("compression removed states");
  auto cmp2 = f.GenCompressedMatRepr();
  PBT_REQUIRE(expand(f.GenMatRepr()) == want && expand(cmp2) == want, "generating twice gives a different operator");
}
static void prop_compress(Src &s) { Model m = gen_model(s, 8, 12); classify(s, m); check_compressed(s, m); }
static void prop_compress_big(Src &s) {
  Model m = gen_model(s, 12, 30); classify(s, m); check_compressed(s, m);
}
// uniform models: compressed bond dimension must not exceed (number of channels) + 2
static void prop_compress_optimal(Src &s) {
  Model m; m.n = s.big(3, 12, 16, 60); m.custom_id = false; m.ids.assign(m.n, 0);
  size_t ch = s.big(1, 4, 6); bool longr = s.flip(); size_t range_ = longr ? m.n - 1 : 1;
  // channel k: A_k then identity/filler then B_k, all distances up to range_
  struct C { long a, b, fill, coef; bool allr; }; std::vector<C> cs;
  for (size_t k = 0; k < ch; ++k) cs.push_back({(long) (1 + 2 * k), (long) (2 + 2 * k), s.flip() ? 0L : 30L + (long) k, s.range(0, 2), longr});
  bool onsite = s.flip();
  s.note << "uniform chain N=" << m.n << " channels=" << ch << (longr ? " all distances" : " nearest neighbour") << (onsite ? " + onsite" : "") << " coefs:";
  for (auto &c : cs) {
    s.note << c.coef << (c.fill ? "f " : " ");
    for (size_t i = 0; i < m.n; ++i) for (size_t j = i + 1; j < m.n && j <= i + range_; ++j) {
      Term t{i, j, c.coef, {}}; t.ops.push_back(c.a); for (size_t q = i + 1; q < j; ++q) t.ops.push_back(c.fill); t.ops.push_back(c.b); m.terms.push_back(t);
    }
  }
  if (onsite) for (size_t i = 0; i < m.n; ++i) m.terms.push_back(Term{i, i, 3, {50}});
  if (s.flip()) {                                   // order in which terms are added must not matter
    auto p = s.perm(m.terms.size()); std::vector<Term> q; for (auto i : p) q.push_back(m.terms[i]); m.terms = q; s.note << " shuffled";
  }
  s.nontrivial(m.n >= 4);
  FSM f = build(m);
  auto cmp = f.GenCompressedMatRepr();
  PBT_REQUIRE(expand(cmp) == expected(m), "compressed representation is not the sum of the added terms");
  for (size_t i = 0; i + 1 < m.n; ++i)
    PBT_REQUIRE(cmp[i].cols <= ch + 2, "bond " << i << " of a uniform model with " << ch << " channels keeps dimension " << cmp[i].cols);
}
// the two compressors on arbitrary pairs of matrices: target*follower is preserved
static void prop_compressors(Src &s) {
  bool col = s.flip();
  size_t a = s.big(1, 4, 10), k = s.big(1, 6, 14), b = s.big(1, 4, 10);
  long nc = s.range(0, 3), no = s.range(1, 3);
  auto genop = [&](bool coefs) {
    size_t m = s.weighted({6, 1}) + 1; CoefReprVec cs; std::vector<BasisOpLabel> bs; std::set<long> used;
    CoefRepr common = coefs ? gen_coef(s, nc) : kIdCoefRepr; bool same = s.flip();
    for (size_t j = 0; j < m; ++j) { long o = s.range(0, no); if (!used.insert(o).second) continue; bs.push_back(o); cs.push_back(same || !coefs ? common : gen_coef(s, nc)); }
    return OpRepr(cs, bs);
  };
  // the coefficients live in the target, the follower has none: the only case the (documented)
  // incomplete multiplication supports
  SparOpReprMat L(a, k), R(k, b); s.note << (col ? "col" : "row") << " L=" << a << "x" << k << " R=" << k << "x" << b << " ";
  auto filln = [&](SparOpReprMat &m, bool coefs, const char *nm) {
    for (size_t i = 0; i < m.rows; ++i) for (size_t j = 0; j < m.cols; ++j) if (s.chance(2, 3)) { auto o = genop(coefs); m.SetElem(i, j, o); s.note << nm << i << j << "=" << o.ToString() << " "; }
  };
  filln(L, col, "L"); filln(R, !col, "R");
  if (col && k > 1 && s.flip()) {                         // make a column a copy / multiple of another one
    size_t x = s.below(k), y = s.below(k); CoefRepr c = gen_coef(s, nc);
    for (size_t i = 0; i < a; ++i) if (!L.IsNull(i, x) && x != y) L.SetElem(i, y, CoefReprOpReprIncompleteMulti(c, SeparateCoefAndBase(L(i, x)).second.GetOpLabelList().size() ? OpRepr(SeparateCoefAndBase(L(i, x)).second.GetOpLabelList()) : L(i, x)));
    s.note << "dup " << x << "->" << y << " ";
  }
  typedef std::map<std::pair<long, long>, uint64_t> Two;
  auto prod = [&](const SparOpReprMat &A, const SparOpReprMat &B) {
    PBT_REQUIRE(A.cols == B.rows, "inner dimensions " << A.cols << " and " << B.rows << " differ after compression");
    std::vector<Two> r(A.rows * B.cols);
    for (size_t i = 0; i < A.rows; ++i) for (size_t q = 0; q < A.cols; ++q) if (!A.IsNull(i, q))
      for (size_t j = 0; j < B.cols; ++j) if (!B.IsNull(q, j))
        for (auto &x : lin(A(i, q))) for (auto &y : lin(B(q, j))) { auto &v = r[i * B.cols + j][{x.first, y.first}]; v = add(v, mul(x.second, y.second)); if (!v) r[i * B.cols + j].erase({x.first, y.first}); }
    return r;
  };
  auto before = prod(L, R); size_t k0 = k;
  if (col) SparOpReprMatColCompresser(L, R); else SparOpReprMatRowCompresser(R, L);
  PBT_REQUIRE(L.rows == a && R.cols == b, "outer dimensions changed");
  auto after = prod(L, R);
  PBT_REQUIRE(before == after, "compression changed the product of the two matrices");
  PBT_REQUIRE(L.cols <= k0, "inner dimension grew");
  s.nontrivial(k > 1 && L.cols < k0);
  if (L.cols < k0) s.label("inner dimension reduced");
}

// ---- C03 ------------------------------------------------------------------------------------------
static void prop_coef(Src &s) {
  auto g = [&](std::vector<CNumberLabel> &m) { size_t n = s.big(0, 5, 25); m.clear(); for (size_t i = 0; i < n; ++i) m.push_back(s.range(0, 26)); return CoefRepr(m); };
  auto ms = [](const CoefRepr &c) { auto v = c.GetCoefLabelList(); return std::multiset<long>(v.begin(), v.end()); };
  std::vector<CNumberLabel> a, b, c; CoefRepr A = g(a), B = g(b), C = g(c);
  if (s.chance(1, 3)) { b = a; auto p = s.perm(a.size()); for (size_t i = 0; i < p.size(); ++i) b[i] = a[p[i]]; B = CoefRepr(b); }
  s.note << "A={"; for (auto x : a) s.note << x << ","; s.note << "} B={"; for (auto x : b) s.note << x << ","; s.note << "} C={"; for (auto x : c) s.note << x << ","; s.note << "}";
  s.nontrivial(a.size() >= 2 && b.size() >= 1);
  auto M = [](const std::vector<CNumberLabel> &v) { return std::multiset<long>(v.begin(), v.end()); };
  PBT_REQUIRE(ms(A) == M(a), "label list is not what was given");
  PBT_REQUIRE((A == B) == (M(a) == M(b)), "equality is not equality of the label multisets");
  PBT_REQUIRE((A != B) == !(A == B), "!= is not the negation of ==");
  auto u = M(a); for (auto x : b) u.insert(x);
  PBT_REQUIRE(ms(A + B) == u, "A+B is not the sum");
  PBT_REQUIRE(A + B == B + A && (A + B) + C == A + (B + C) && A + kNullCoefRepr == A, "addition is not commutative/associative with the null coefficient as zero");
  CoefRepr D(A); D += B; PBT_REQUIRE(D == A + B && ms(A) == M(a), "+= differs from +");
  CoefRepr E; E = A; CoefRepr F(std::move(E)); PBT_REQUIRE(F == A, "copy/move changed the value");
  E = std::move(F); PBT_REQUIRE(E == A, "move assignment changed the value");
  E = *&E; PBT_REQUIRE(E == A, "self assignment changed the value");
  // strict weak ordering usable as a map key
  PBT_REQUIRE(!(A < A) && !(A > A) && A <= A && A >= A && (A < B) == (B > A) && (A <= B) == (B >= A) && !((A < B) && (B < A)), "ordering operators are inconsistent");
  PBT_REQUIRE(((A < B) ? 1 : 0) + ((B < A) ? 1 : 0) + ((A == B) ? 1 : 0) == 1 && (A <= B) == (A < B || A == B), "exactly one of <, ==, > must hold");
  PBT_REQUIRE(!(A < B && B < C) || A < C, "ordering is not transitive");
  { OpRepr oa(A, 3), ob(B, 3); PBT_REQUIRE((oa == ob) == (A == B) && (oa < ob) == (A < B), "operators with one base operator do not compare like their coefficients"); }
  std::vector<long> ival(27); ival[0] = 1; for (size_t i = 1; i < 27; ++i) ival[i] = (long) ((val((CNumberLabel) i) % 1000003));
  long want = 0; for (auto x : a) want += ival[x];
  PBT_REQUIRE(A.Realize(ival) == want, "Realize gives " << A.Realize(ival) << " instead of " << want);
  PBT_REQUIRE(A.ToString(ival) == std::to_string(want), "ToString(mapping)");
  // symbolic text: parse it back
  std::string t = A.ToString(); std::multiset<long> back; bool ok = true;
  if (t != "0") for (char ch : t) { if (ch == '(' || ch == ')' || ch == '+') continue; if (ch == '1') back.insert(0); else if (ch >= 'a' && ch <= 'z') back.insert(ch - 'a' + 1); else ok = false; }
  PBT_REQUIRE(ok && back == M(a), "the symbolic text '" << t << "' does not show the coefficient");
}
static OpRepr gen_op(Src &s, Lin &m, size_t maxt = 4, long maxc = 5, long maxo = 5) {
  size_t n = s.big(0, maxt, 5 * maxt); CoefReprVec cs; std::vector<BasisOpLabel> bs; m.clear();
  for (size_t i = 0; i < n; ++i) {
    CoefRepr c; size_t k = s.big(1, 2, 8); std::vector<CNumberLabel> v; for (size_t j = 0; j < k; ++j) v.push_back(s.range(0, maxc)); c = CoefRepr(v);
    long b = s.range(0, maxo); cs.push_back(c); bs.push_back(b); put(m, b, val(c));
  }
  s.note << "{"; for (size_t i = 0; i < n; ++i) { for (auto l : cs[i].GetCoefLabelList()) s.note << "c" << l << "+"; s.note << "*" << bs[i] << " "; } s.note << "} ";
  switch (n == 1 ? s.below(3) : 0) {
    case 1: return OpRepr(cs[0], bs[0]);
    case 2: if (cs[0] == kIdCoefRepr) return OpRepr(bs[0]); [[fallthrough]];
    default: return OpRepr(cs, bs);
  }
}
static void prop_op(Src &s) {
  Lin a, b, c; OpRepr A = gen_op(s, a), B = gen_op(s, b), C = gen_op(s, c);
  s.nontrivial(a.size() >= 2 && b.size() >= 1);
  PBT_REQUIRE(lin(A) == a, "constructed operator is not the given linear combination");
  PBT_REQUIRE((A == B) == (!(A != B)), "!= is not the negation of ==");
  if (A == B) PBT_REQUIRE(a == b, "operators with different content compare equal");
  // equal content built in another order compares equal
  {
    auto cs = A.GetCoefReprList(); auto ls = A.GetOpLabelList(); auto p = s.perm(cs.size()); CoefReprVec c2; std::vector<BasisOpLabel> l2;
    for (auto i : p) { auto v = cs[i].GetCoefLabelList(); std::reverse(v.begin(), v.end()); c2.push_back(CoefRepr(v)); l2.push_back(ls[i]); }
    PBT_REQUIRE(OpRepr(c2, l2) == A, "an operator rebuilt from its own terms in another order differs from it");
    for (auto &x : a) { (void) x; break; }
  }
  auto sum = [](Lin x, const Lin &y) { for (auto &t : y) put(x, t.first, t.second); return x; };
  PBT_REQUIRE(lin(A + B) == sum(a, b), "A+B is not the sum");
  PBT_REQUIRE(A + B == B + A && (A + B) + C == A + (B + C) && A + kNullOpRepr == A && kNullOpRepr + A == A, "addition of operators is not commutative/associative with zero");
  OpRepr D(A); D += B; PBT_REQUIRE(D == A + B && lin(A) == a, "+= differs from +");
  OpRepr D2(A); D2 += D2; PBT_REQUIRE(lin(D2) == sum(a, a), "A += A is not 2A");
  PBT_REQUIRE(!(A < A) && !((A < B) && (B < A)), "ordering");
  PBT_REQUIRE((A == kNullOpRepr) == (A.GetOpLabelList().empty()), "null test");
  auto sep = SeparateCoefAndBase(A);
  Lin r; for (auto &t : lin(sep.second)) put(r, t.first, mul(t.second, val(sep.first)));
  PBT_REQUIRE(r == a, "coefficient times base is not the operator");
  PBT_REQUIRE(GetOpReprCoef(A) == sep.first, "GetOpReprCoef");
  // Realize over integers
  std::vector<long> cv(8), ov(8); cv[0] = 1; for (size_t i = 1; i < 8; ++i) cv[i] = (long) (val((CNumberLabel) i) % 1009); for (size_t i = 0; i < 8; ++i) ov[i] = (long) (val((CNumberLabel) (i + 50)) % 10007);
  long want = 0; { auto cs = A.GetCoefReprList(); auto ls = A.GetOpLabelList(); for (size_t i = 0; i < cs.size(); ++i) { long k = 0; for (auto l : cs[i].GetCoefLabelList()) k += cv[l]; want += k * ov[ls[i]]; } }
  PBT_REQUIRE(A.Realize(cv, ov) == want, "Realize gives " << A.Realize(cv, ov) << " instead of " << want);
  // incomplete multiplication in its supported cases
  CoefRepr k((CNumberLabel) s.range(0, 5));
  OpRepr base(A.GetOpLabelList());
  Lin kb; for (auto l : A.GetOpLabelList()) put(kb, l, val(k));
  PBT_REQUIRE(lin(CoefReprOpReprIncompleteMulti(k, base)) == kb, "coefficient * operator");
  PBT_REQUIRE(CoefReprOpReprIncompleteMulti(kIdCoefRepr, A) == A && CoefReprOpReprIncompleteMulti(k, kNullOpRepr) == kNullOpRepr, "identity/zero multiplication");
}
static void prop_text(Src &s) {                  // printed form of operators identifies the operator
  size_t n = s.big(1, 4, 20); std::vector<BasisOpLabel> bs; CoefReprVec cs; std::set<long> used; Lin want;
  for (size_t i = 0; i < n; ++i) {
    long b = s.chance(1, 4) ? s.range(27, 120) : s.range(0, 26); if (!used.insert(b).second) continue;
    size_t k = s.big(1, 3, 15); std::vector<CNumberLabel> v; for (size_t j = 0; j < k; ++j) v.push_back(s.range(0, 26));
    bs.push_back(b); cs.push_back(CoefRepr(v)); put(want, b, val(CoefRepr(v)));
  }
  OpRepr A(cs, bs); std::string t = A.ToString(); s.note << t; s.nontrivial(bs.size() > 1);
  std::ostringstream os; os << A; PBT_REQUIRE(os.str() == t, "operator<< differs from ToString");
  // grammar: coef op (+ coef op)*, coef = letter|1|(..+..), op = Id | Letter digits*
  Lin got; size_t i = 0; bool ok = true;
  while (i < t.size() && ok) {
    uint64_t cv = 0;
    auto one = [&](char ch) { if (ch == '1') return val((CNumberLabel) 0); if (ch >= 'a' && ch <= 'z') return val((CNumberLabel) (ch - 'a' + 1)); ok = false; return (uint64_t) 0; };
    if (t[i] == '(') { ++i; while (i < t.size() && t[i] != ')') { if (t[i] != '+') cv = add(cv, one(t[i])); ++i; } ++i; } else cv = one(t[i++]);
    long lab = 0;
    if (t.compare(i, 2, "Id") == 0) { lab = 0; i += 2; }
    else if (i < t.size() && t[i] >= 'A' && t[i] <= 'Z') { lab = t[i++] - 'A' + 1; long q = 0; bool d = false; while (i < t.size() && isdigit((unsigned char) t[i])) { q = q * 10 + (t[i++] - '0'); d = true; } if (d) lab += 26 * q; }
    else ok = false;
    put(got, lab, cv);
    if (i < t.size()) { if (t[i] != '+') ok = false; ++i; }
  }
  PBT_REQUIRE(ok && got == want, "the printed operator '" << t << "' does not describe the operator");
}
// matrix products of coefficient and operator matrices, and linear-combination evaluation
static void prop_matmul(Src &s) {
  size_t a = s.big(1, 4, 9), k = s.big(1, 4, 9), b = s.big(1, 4, 9); bool left = s.flip();
  SparCoefReprMat C(left ? a : k, left ? k : b); SparOpReprMat O(left ? k : a, left ? b : k);
  s.note << (left ? "C*O " : "O*C ") << a << "x" << k << "x" << b << " ";
  size_t nn = 0;
  for (size_t i = 0; i < C.rows; ++i) for (size_t j = 0; j < C.cols; ++j) if (s.chance(2, 3)) { long l = s.range(0, 3); C.SetElem(i, j, CoefRepr(l)); s.note << "C" << i << j << "=" << l << " "; ++nn; }
  for (size_t i = 0; i < O.rows; ++i) for (size_t j = 0; j < O.cols; ++j) if (s.chance(2, 3)) {
    std::vector<BasisOpLabel> l; std::set<long> u; size_t m = s.range(1, 2); for (size_t q = 0; q < m; ++q) { long x = s.range(0, 4); if (u.insert(x).second) l.push_back(x); }
    O.SetElem(i, j, OpRepr(l)); s.note << "O" << i << j << "=" << OpRepr(l).ToString() << " "; ++nn;
  }
  s.nontrivial(nn >= 4 && k > 1);
  SparOpReprMat R = left ? SparCoefReprMatSparOpReprMatIncompleteMulti(C, O) : SparOpReprMatSparCoefReprMatIncompleteMulti(O, C);
  PBT_REQUIRE(R.rows == a && R.cols == b, "result has the wrong shape");
  for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) {
    Lin w;
    for (size_t q = 0; q < k; ++q) {
      size_t ci = left ? i : q, cj = left ? q : j, oi = left ? q : i, oj = left ? j : q;
      if (C.IsNull(ci, cj) || O.IsNull(oi, oj)) continue;
      for (auto &t : lin(O(oi, oj))) put(w, t.first, mul(t.second, val(C(ci, cj))));
    }
    PBT_REQUIRE(lin(R(i, j)) == w, "element (" << i << "," << j << ") of the product is wrong");
  }
  // explicit linear combinations of rows / columns
  CoefReprVec cmb; size_t m = s.range(1, O.rows); for (size_t i = 0; i < m; ++i) cmb.push_back(s.flip() ? kNullCoefRepr : CoefRepr((CNumberLabel) s.range(0, 3)));
  auto row = CalcSparOpReprMatRowLinCmb(O, cmb);
  PBT_REQUIRE(row.size() == O.cols, "row combination length");
  for (size_t j = 0; j < O.cols; ++j) { Lin w; for (size_t i = 0; i < m; ++i) if (!O.IsNull(i, j) && !(cmb[i] == kNullCoefRepr)) for (auto &t : lin(O(i, j))) put(w, t.first, mul(t.second, val(cmb[i]))); PBT_REQUIRE(lin(row[j]) == w, "row linear combination, column " << j); }
  CoefReprVec cmc; m = s.range(1, O.cols); for (size_t i = 0; i < m; ++i) cmc.push_back(s.flip() ? kNullCoefRepr : CoefRepr((CNumberLabel) s.range(0, 3)));
  auto col = CalcSparOpReprMatColLinCmb(O, cmc);
  PBT_REQUIRE(col.size() == O.rows, "column combination length");
  for (size_t i = 0; i < O.rows; ++i) { Lin w; for (size_t j = 0; j < m; ++j) if (!O.IsNull(i, j) && !(cmc[j] == kNullCoefRepr)) for (auto &t : lin(O(i, j))) put(w, t.first, mul(t.second, val(cmc[j]))); PBT_REQUIRE(lin(col[i]) == w, "column linear combination, row " << i); }
}
// common divisors and linear-combination search on rows and columns
static void prop_rowcol(Src &s) {
  size_t r = s.big(1, 5, 12), c = s.big(1, 5, 12); SparOpReprMat M(r, c); long nc = s.range(0, 2), no = s.range(1, 3);
  std::vector<std::vector<Lin>> ref(r, std::vector<Lin>(c));
  for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (s.chance(2, 3)) { long k = s.range(0, nc), o = s.range(0, no); M.SetElem(i, j, OpRepr(CoefRepr(k), o)); ref[i][j] = Lin{{o, val(k)}}; s.note << i << j << "=c" << k << "*" << o << " "; }
  s.nontrivial(r > 1 && c > 1);
  SparOpReprMat T = M;
  bool rows = s.flip();
  std::vector<size_t> ord = rows ? T.SortRows() : T.SortCols();
  std::vector<size_t> chk = ord; std::sort(chk.begin(), chk.end()); for (size_t i = 0; i < chk.size(); ++i) PBT_REQUIRE(chk[i] == i, "the sort order is not a permutation");
  PBT_REQUIRE(ord.size() == (rows ? r : c), "sort order length");
  size_t prev = 0;
  for (size_t i = 0; i < ord.size(); ++i) {
    size_t cnt = 0;
    for (size_t j = 0; j < (rows ? c : r); ++j) {
      size_t x = rows ? i : j, y = rows ? j : i, ox = rows ? ord[i] : j, oy = rows ? j : ord[i];
      PBT_REQUIRE(lin(T(x, y)) == ref[ox][oy], "sorting did not move rows/columns as reported"); cnt += !T.IsNull(x, y);
    }
    PBT_REQUIRE(cnt >= prev, "not sorted by the number of non-null elements"); prev = cnt;
  }
  for (size_t i = 0; i < (rows ? r : c); ++i) {
    SparOpReprMat U = M; CoefRepr d = rows ? U.TryCatchRowCommonDivisorCoef(i) : U.TryCatchColCommonDivisorCoef(i);
    bool any = false; for (size_t j = 0; j < (rows ? c : r); ++j) any |= rows ? !M.IsNull(i, j) : !M.IsNull(j, i);
    PBT_REQUIRE(any == !(d == kNullCoefRepr), "common divisor null-ness");
    if (!(d == kNullCoefRepr) && !(d == kIdCoefRepr)) {
      if (rows) U.RemoveRowCoef(i); else U.RemoveColCoef(i);
      for (size_t x = 0; x < r; ++x) for (size_t y = 0; y < c; ++y) {
        Lin w; uint64_t f = ((rows ? x : y) == i) ? val(d) : 1; for (auto &t : lin(U(x, y))) put(w, t.first, mul(t.second, f));
        PBT_REQUIRE(w == ref[x][y], "dividing out the common coefficient changed element " << x << "," << y);
      }
    }
  }
}

// ---- C04: SparMat against a dense model -------------------------------------------------------------
static void prop_sparmat(Src &s) {
  size_t r = s.big(1, 6, 16), c = s.big(1, 6, 16);
  SparMat<long> m(r, c); std::vector<std::vector<long>> ref(r, std::vector<long>(c, 0));
  s.note << r << "x" << c << ": ";
  size_t nops = s.big(1, 25, 150), removals = 0, perms = 0;
  auto same = [&](const char *when) {
    PBT_REQUIRE(m.rows == ref.size(), when << ": rows " << m.rows << " expected " << ref.size());
    size_t cc = ref.empty() ? 0 : ref[0].size();
    PBT_REQUIRE(m.cols == cc, when << ": cols " << m.cols << " expected " << cc);
    for (size_t i = 0; i < m.rows; ++i) for (size_t j = 0; j < m.cols; ++j) {
      PBT_REQUIRE(m(i, j) == ref[i][j], when << ": element (" << i << "," << j << ") is " << m(i, j) << " expected " << ref[i][j]);
      PBT_REQUIRE(m.IsNull(i, j) == (ref[i][j] == 0), when << ": IsNull(" << i << "," << j << ")");
    }
    for (size_t i = 0; i < m.rows; ++i) PBT_REQUIRE(m.GetRow(i) == ref[i], when << ": GetRow " << i);
    for (size_t j = 0; j < m.cols; ++j) { std::vector<long> col; for (auto &x : ref) col.push_back(x[j]); PBT_REQUIRE(m.GetCol(j) == col, when << ": GetCol " << j); }
  };
  auto t = [&] { return std::vector<std::vector<long>>(ref); };
  for (size_t k = 0; k < nops && !ref.empty(); ++k) {
    size_t R = ref.size(), C = ref[0].size();
    switch (s.weighted({8, 2, 2, 2, 2, 2, 2, 1, 1})) {
      case 0: { size_t x = s.below(R), y = s.below(C); long v = s.range(1, 99); m.SetElem(x, y, v); ref[x][y] = v; s.note << "set" << x << y << "=" << v << " "; break; }
      case 1: { size_t x = s.below(R); m.RemoveRow(x); ref.erase(ref.begin() + x); s.note << "rmrow" << x << " "; ++removals; break; }
      case 2: { size_t y = s.below(C); m.RemoveCol(y); if (C == 1) ref.clear(); else for (auto &q : ref) q.erase(q.begin() + y); s.note << "rmcol" << y << " "; ++removals; break; }
      case 3: { size_t x = s.below(R), y = s.below(R); m.SwapTwoRows(x, y); std::swap(ref[x], ref[y]); s.note << "swr" << x << y << " "; ++perms; break; }
      case 4: { size_t x = s.below(C), y = s.below(C); m.SwapTwoCols(x, y); for (auto &q : ref) std::swap(q[x], q[y]); s.note << "swc" << x << y << " "; ++perms; break; }
      case 5: { auto p = s.perm(R); m.TransposeRows(p); auto o = t(); for (size_t i = 0; i < R; ++i) ref[i] = o[p[i]]; s.note << "permr "; ++perms; break; }
      case 6: { auto p = s.perm(C); m.TransposeCols(p); auto o = t(); for (size_t i = 0; i < C; ++i) for (size_t x = 0; x < R; ++x) ref[x][i] = o[x][p[i]]; s.note << "permc "; ++perms; break; }
      case 7: { SparMat<long> q(m); SparMat<long> w(1, 1); w = q; w.SetElem(0, 0, 777); PBT_REQUIRE(m == q, "copy is not equal to the original"); m = q; m = *&m; s.note << "copy "; break; }
      default: { m.Reserve(s.below(50)); s.note << "reserve "; }
    }
    same("after the last operation");
  }
  s.nontrivial(removals + perms >= 2);
  if (removals) s.label("rows or columns removed");
  // equality distinguishes
  if (!ref.empty()) {
    SparMat<long> q(m); size_t x = s.below(ref.size()), y = s.below(ref[0].size()); q.SetElem(x, y, 12345);
    PBT_REQUIRE(!(q == m), "matrices that differ in one element compare equal");
    SparMat<long> z(ref.size(), ref[0].size()); for (size_t i = ref.size(); i-- > 0;) for (size_t j = 0; j < ref[0].size(); ++j) if (ref[i][j]) z.SetElem(i, j, ref[i][j]);
    PBT_REQUIRE(z == m, "matrices with the same elements compare different");
    PBT_REQUIRE(!(SparMat<long>(ref.size() + 1, ref[0].size()) == m) && !(SparMat<long>(ref.size(), ref[0].size() + 1) == m), "different shapes compare equal");
  }
}

// ---- C05: DuoVector ------------------------------------------------------------------------------------
struct Obj {
  static std::set<const Obj *> &live() { static std::set<const Obj *> l; return l; }
  static bool &bad() { static bool b = false; return b; }
  int v; std::unique_ptr<int> heap;
  Obj() : v(0), heap(new int(0)) { live().insert(this); }
  explicit Obj(int x) : v(x), heap(new int(x)) { live().insert(this); }
  Obj(const Obj &o) : v(o.v), heap(new int(*o.heap)) { if (!live().count(&o)) bad() = true; live().insert(this); }
  Obj &operator=(const Obj &o) { if (!live().count(&o) || !live().count(this)) bad() = true; v = o.v; heap.reset(new int(*o.heap)); return *this; }
  ~Obj() { if (!live().erase(this)) bad() = true; }
};
typedef qlmps::DuoVector<Obj> DV;
typedef std::vector<int> DM;             // -1 == nullptr
static void prop_duovector(Src &s) {
  Obj::live().clear(); Obj::bad() = false;
  {
    std::vector<std::unique_ptr<DV>> vs; std::vector<DM> ms;
    size_t n0 = s.big(0, 4, 60); vs.emplace_back(new DV(n0)); ms.push_back(DM(n0, -1));
    s.note << "v0(" << n0 << ") ";
    size_t nops = s.big(1, 40, 200), kinds = 0; bool copied = false, moved = false, self = false;
    auto same = [&] {
      size_t want = 0;
      for (size_t k = 0; k < vs.size(); ++k) {
        const DV &d = *vs[k]; const DM &m = ms[k];
        PBT_REQUIRE(d.size() == m.size(), "vector " << k << " has size " << d.size() << ", expected " << m.size());
        bool empty = true; auto cd = d.cdata();
        PBT_REQUIRE(cd.size() == m.size(), "cdata() length");
        for (size_t i = 0; i < m.size(); ++i) {
          PBT_REQUIRE((d(i) == nullptr) == (m[i] == -1), "vector " << k << " slot " << i << (m[i] == -1 ? " should be empty" : " should hold an element"));
          PBT_REQUIRE(cd[i] == d(i), "cdata() differs from operator()");
          if (m[i] != -1) { empty = false; ++want; PBT_REQUIRE(Obj::live().count(d(i)), "slot " << i << " points to a destroyed element"); PBT_REQUIRE(d[i].v == m[i] && *d[i].heap == m[i], "vector " << k << " slot " << i << " holds " << d[i].v << ", expected " << m[i]); }
        }
        PBT_REQUIRE(d.empty() == empty, "empty() of vector " << k);
        if (!m.empty() && m.front() != -1) PBT_REQUIRE(d.front().v == m.front(), "front()");
        if (!m.empty() && m.back() != -1) PBT_REQUIRE(d.back().v == m.back(), "back()");
      }
      std::set<const Obj *> uniq; for (auto &v : vs) for (auto p : v->cdata()) if (p) uniq.insert(p);
      PBT_REQUIRE(uniq.size() == want, "two slots share one element");
      PBT_REQUIRE(Obj::live().size() == want, Obj::live().size() << " elements are alive, the vectors hold " << want << " (leak or early destruction)");
      PBT_REQUIRE(!Obj::bad(), "an element was used or destroyed after its destruction");
    };
    for (size_t q = 0; q < nops; ++q) {
      size_t k = s.below(vs.size()); DV &d = *vs[k]; DM &m = ms[k]; size_t n = m.size();
      switch (s.weighted({6, 3, 3, 2, 1, 2, 3, 2, 2, 2, 1, 1})) {
        case 0: if (n) { size_t i = s.below(n); int x = s.range(0, 99); d[i] = Obj(x); m[i] = x; s.note << k << "[" << i << "]=" << x << " "; } break;
        case 1: if (n) { size_t i = s.below(n); int x = s.range(0, 99); if (d(i) != nullptr) delete d(i); d(i) = new Obj(x); m[i] = x; s.note << k << "(" << i << ")=new " << x << " "; } break;
        case 2: if (n) { size_t i = s.below(n); d.alloc(i); m[i] = 0; s.note << k << ".alloc" << i << " "; } break;
        case 3: if (n) { size_t i = s.below(n); d.dealloc(i); m[i] = -1; s.note << k << ".dealloc" << i << " "; } break;
        case 4: d.clear(); m.assign(n, -1); s.note << k << ".clear "; break;
        case 5: if (vs.size() < 4) { vs.emplace_back(new DV(d)); ms.push_back(DM(ms[k])); copied = true; s.note << "v" << vs.size() - 1 << "=copy " << k << " "; } break;
        case 6: { size_t j = s.below(vs.size()); *vs[j] = *vs[k]; DM t = ms[k]; ms[j] = t; copied = true; self |= j == k; s.note << j << "=" << k << " "; break; }
        case 7: if (vs.size() < 4) { vs.emplace_back(new DV(std::move(d))); DM t = ms[k]; ms.push_back(t); moved = true; s.note << "v" << vs.size() - 1 << "=move " << k << " "; size_t z = vs[k]->size(); PBT_REQUIRE(vs[k]->empty(), "a moved-from vector still holds elements"); ms[k] = DM(z, -1); } break;
        case 8: { size_t j = s.below(vs.size()); *vs[j] = std::move(*vs[k]); ms[j] = DM(ms[k]); moved = true; s.note << j << "=move " << k << " "; if (j == k) break; PBT_REQUIRE(vs[k]->empty(), "a moved-from vector still holds elements"); ms[k] = DM(vs[k]->size(), -1); break; }
        case 9: if (vs.size() < 4) { size_t z = s.big(0, 5, 60); vs.emplace_back(new DV(z)); ms.push_back(DM(z, -1)); s.note << "v" << vs.size() - 1 << "(" << z << ") "; } break;
        case 10: if (vs.size() > 1) { vs.erase(vs.begin() + k); ms.erase(ms.begin() + k); s.note << "del " << k << " "; } break;
        default: { std::unique_ptr<DV> e(new DV()); PBT_REQUIRE(e->size() == 0 && e->empty(), "default constructed vector"); break; }
      }
      ++kinds;
      same();
    }
    s.nontrivial(copied || moved);
    if (copied) s.label("copied"); if (moved) s.label("moved"); if (self) s.label("self assignment");
  }
  PBT_REQUIRE(Obj::live().empty(), Obj::live().size() << " elements leaked after all vectors were destroyed");
  PBT_REQUIRE(!Obj::bad(), "an element was used or destroyed after its destruction");
}

// ---- C08: label interning ---------------------------------------------------------------------------------
template<typename T, typename G> static void interning(Src &s, G gen, T id) {
  LabelConvertor<T> lc(id), other; std::vector<T> hub{id}; size_t n = s.big(1, 40, 400, 60); bool wide = n > 40; size_t again = 0;
  for (size_t i = 0; i < n; ++i) {
    T v = gen(); if (wide && s.flip()) v = (T) (v * s.range(1, 90)); size_t want = std::find(hub.begin(), hub.end(), v) - hub.begin(); if (want == hub.size()) hub.push_back(v); else ++again;
    s.note << v << " ";
    size_t got = lc.Convert(v);
    PBT_REQUIRE(got == want, "object " << v << " got label " << got << ", expected " << want);
    PBT_REQUIRE(lc.Convert(v) == want, "the same object got another label the second time");
    if (s.chance(1, 10)) { other = lc; LabelConvertor<T> cp(other); PBT_REQUIRE(cp.GetLabelObjMapping() == hub, "copy lost the mapping"); cp.Convert(gen()); }
    auto map = lc.GetLabelObjMapping();
    PBT_REQUIRE(map == hub, "label -> object mapping is not the inverse of object -> label");
  }
  s.nontrivial(again >= 1 && hub.size() > 2);
}
static void prop_label(Src &s) {
  switch (s.below(3)) {
    case 0: interning<long>(s, [&] { return s.range(-6, 6); }, 0L); break;
    case 1: interning<double>(s, [&] { double d = s.coef(); return s.chance(1, 5) ? d * (1 + 1e-15 * (double) s.range(1, 3)) : d; }, 1.0); break;
    default: interning<int>(s, [&] { return (int) s.range(0, 200); }, 5); break;
  }
}

int main(int argc, char **argv) {
  return pbt::main_(argc, argv, {
      {"C01", "fsm_is_sum_of_terms", prop_fsm, 120000, 1200000},
      {"C01", "fsm_composite_operators", prop_fsm_multi, 60000, 600000},
      {"C02", "compressed_is_sum_of_terms", prop_compress, 120000, 1200000},
      {"C02", "compressed_large", prop_compress_big, 20000, 250000},
      {"C02", "compressed_uniform_bond", prop_compress_optimal, 3000, 30000},
      {"C02", "row_and_column_compressor", prop_compressors, 150000, 1500000},
      {"C03", "coefficients", prop_coef, 200000, 2000000},
      {"C03", "operators", prop_op, 120000, 1200000},
      {"C03", "text_form", prop_text, 100000, 1000000},
      {"C03", "matrix_products", prop_matmul, 80000, 800000},
      {"C03", "row_column_tools", prop_rowcol, 80000, 800000},
      {"C04", "sparse_matrix_model", prop_sparmat, 200000, 2000000},
      {"C05", "duovector_model", prop_duovector, 120000, 1500000},
      {"C08", "label_interning", prop_label, 150000, 1500000},
  });
}
