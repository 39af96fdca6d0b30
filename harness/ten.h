// Shared by the harnesses of C10 and later: random local Hilbert spaces, random matrix product states with a
// definite total charge, and dense (full Hilbert space) reference arithmetic written independently of the library.
#pragma once
#include "qlten/qlten.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpo.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h"
#include "pbt.h"
#include <complex>
#include <cmath>

namespace tn {
using namespace qlten;
using namespace qlmps;
using pbt::Src;
using cd = std::complex<double>;
using Vec = std::vector<cd>;
using TrivQ = special_qn::TrivialRepQN;
using U1 = special_qn::U1QN;
using U1U1 = special_qn::U1U1QN;

struct Mat {                                    // row major, (out, in)
  size_t n = 0;
  Vec a;
  Mat() = default;
  explicit Mat(size_t n_) : n(n_), a(n_ * n_) {}
  cd &operator()(size_t i, size_t j) { return a[i * n + j]; }
  cd operator()(size_t i, size_t j) const { return a[i * n + j]; }
};
inline Mat eye(size_t n) { Mat m(n); for (size_t i = 0; i < n; ++i) m(i, i) = 1; return m; }
inline Mat mul(const Mat &x, const Mat &y) {
  Mat r(x.n);
  for (size_t i = 0; i < x.n; ++i)
    for (size_t k = 0; k < x.n; ++k) {
      cd v = x(i, k);
      if (v == cd(0)) continue;
      for (size_t j = 0; j < x.n; ++j) r(i, j) += v * y(k, j);
    }
  return r;
}
inline Mat axpy(cd c, const Mat &x, const Mat &y) { Mat r(y); for (size_t i = 0; i < r.a.size(); ++i) r.a[i] += c * x.a[i]; return r; }
inline Mat scaled(cd c, const Mat &x) { Mat r(x); for (auto &v : r.a) v *= c; return r; }
inline Mat dag(const Mat &x) { Mat r(x.n); for (size_t i = 0; i < x.n; ++i) for (size_t j = 0; j < x.n; ++j) r(j, i) = std::conj(x(i, j)); return r; }
inline Mat kron(const Mat &x, const Mat &y) {
  Mat r(x.n * y.n);
  for (size_t i = 0; i < x.n; ++i) for (size_t j = 0; j < x.n; ++j) {
    if (x(i, j) == cd(0)) continue;
    for (size_t k = 0; k < y.n; ++k) for (size_t l = 0; l < y.n; ++l) r(i * y.n + k, j * y.n + l) = x(i, j) * y(k, l);
  }
  return r;
}
inline double fro(const Mat &x) { double s = 0; for (auto &v : x.a) s += std::norm(v); return std::sqrt(s); }
inline double maxdiff(const Vec &x, const Vec &y) {
  if (x.size() != y.size()) return 1e300;
  double m = 0;
  for (size_t i = 0; i < x.size(); ++i) { double d = std::abs(x[i] - y[i]); if (!(d <= m)) m = d; if (d != d) return 1e300; }
  return m;
}
inline double maxabs(const Vec &x) { double m = 0; for (auto &v : x) m = std::max(m, std::abs(v)); return m; }
inline Vec apply(const Mat &m, const Vec &v) {
  Vec r(m.n);
  for (size_t i = 0; i < m.n; ++i) { cd s = 0; for (size_t j = 0; j < m.n; ++j) s += m(i, j) * v[j]; r[i] = s; }
  return r;
}
inline cd dot(const Vec &x, const Vec &y) { cd s = 0; for (size_t i = 0; i < x.size(); ++i) s += std::conj(x[i]) * y[i]; return s; }   // <x|y>
inline double nrm(const Vec &x) { return std::sqrt(std::real(dot(x, x))); }
inline Vec scalev(cd c, Vec x) { for (auto &v : x) v *= c; return x; }
inline Vec addv(cd a, const Vec &x, cd b, const Vec &y) { Vec r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = a * x[i] + b * y[i]; return r; }

extern "C" void zheev_(const char *, const char *, const int *, cd *, const int *, double *, cd *, const int *, double *, int *);
// eigenvalues ascending; vecs[k] the k-th eigenvector
inline std::vector<double> eigh(const Mat &m, std::vector<Vec> *vecs = nullptr) {
  int n = (int) m.n, info = 0, lwork = 4 * n + 16;
  Vec a(m.n * m.n), work(lwork);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[j * n + i] = m(i, j);
  std::vector<double> w(n), rw(3 * n + 4);
  zheev_(vecs ? "V" : "N", "U", &n, a.data(), &n, w.data(), work.data(), &lwork, rw.data(), &info);
  if (info) pbt::fail("reference diagonalisation failed");
  if (vecs) { vecs->clear(); for (int k = 0; k < n; ++k) vecs->emplace_back(a.begin() + (size_t) k * n, a.begin() + (size_t) (k + 1) * n); }
  return w;
}

// ---------------------------------------------------------------- numbers
template<typename E> struct IsC { static constexpr bool v = false; };
template<> struct IsC<cd> { static constexpr bool v = true; };
template<typename E> E mk(double re, double im) { if constexpr (IsC<E>::v) return E(re, im); else return re; }
template<typename E> E coef(Src &s, bool zero = false) {
  double re = s.coef(zero);
  if constexpr (IsC<E>::v) { if (s.flip()) return E(re, s.coef(true)); }
  return mk<E>(re, 0);
}
// a stream of tensor elements determined by one draw; draw 0 gives all ones
struct Elems {
  uint64_t seed, st;
  explicit Elems(Src &s) : seed(s.below(1u << 20)), st(seed * 7919 + 13) {}
  double real() { return seed == 0 ? 1.0 : 2.0 * (double) (pbt::splitmix(st) >> 11) / 9007199254740992.0 - 1.0; }
  template<typename E> E next() { double r = real(); if constexpr (IsC<E>::v) return E(r, seed == 0 ? 0.0 : real()); else return r; }
};

// ---------------------------------------------------------------- Hilbert spaces
template<typename Q> struct MkQ;
template<> struct MkQ<TrivQ> { static TrivQ gen(Src &) { return TrivQ(); } };
template<> struct MkQ<U1> { static U1 gen(Src &s) { return U1({QNCard("N", U1QNVal((int) s.range(-1, 2)))}); } };
template<> struct MkQ<U1U1> { static U1U1 gen(Src &s) { int a = (int) s.range(0, 2), b = (int) s.range(-1, 1); return U1U1({QNCard("N", U1QNVal(a)), QNCard("Sz", U1QNVal(b))}); } };

// Adjacent sectors have distinct charges; dimension dmin..dmax
template<typename Q> Index<Q> gen_site(Src &s, size_t dmin = 2, size_t dmax = 3) {
  QNSectorVec<Q> v;
  if constexpr (std::is_same_v<Q, TrivQ>) {
    v.push_back(QNSector<Q>(Q(), (size_t) s.range(dmin, dmax)));
  } else {
    size_t target = (size_t) s.range(dmin, dmax), d = 0;
    for (int t = 0; d < target && t < 40; ++t) {
      Q q = MkQ<Q>::gen(s);
      bool has = false;
      for (auto &x : v) has |= x.GetQn() == q;
      if (has) continue;
      size_t g = (target - d >= 2 && s.chance(1, 4)) ? 2 : 1;
      v.push_back(QNSector<Q>(q, g));
      d += g;
    }
    if (d < target) v.push_back(QNSector<Q>(MkQ<Q>::gen(s) + v[0].GetQn() + v[0].GetQn() + v[0].GetQn() + v[0].GetQn(), target - d));
  }
  return Index<Q>(v, OUT);
}
struct Dims {
  std::vector<size_t> d;
  size_t total() const { size_t t = 1; for (auto x : d) t *= x; return t; }
  std::vector<size_t> cfg(size_t o) const { std::vector<size_t> c(d.size()); for (size_t i = d.size(); i-- > 0;) { c[i] = o % d[i]; o /= d[i]; } return c; }
  size_t off(const std::vector<size_t> &c) const { size_t o = 0; for (size_t i = 0; i < d.size(); ++i) o = o * d[i] + c[i]; return o; }
};
template<typename E, typename Q> Dims dims_of(const SiteVec<E, Q> &sv) { Dims r; for (auto &x : sv.sites) r.d.push_back(x.dim()); return r; }

// total dimension at most maxtot; now and then a chain of up to `more` further sites of dimension 2
template<typename E, typename Q> SiteVec<E, Q> gen_sites(Src &s, size_t nmin, size_t nmax, bool uniform, size_t maxtot = 260, size_t dmax = 3, size_t more = 0) {
  size_t n = (size_t) s.range(nmin, nmax);
  if (more && s.chance(1, 40)) { n = nmax + (size_t) s.range(1, (int64_t) more); dmax = 2; s.label("long chain"); }
  IndexVec<Q> v;
  size_t tot = 1;
  if (uniform) {
    size_t cap = 2; while (cap < dmax && std::pow((double) cap + 1, (double) n) <= (double) maxtot) ++cap;
    auto i = gen_site<Q>(s, 2, cap);
    return SiteVec<E, Q>(n, i);
  }
  for (size_t k = 0; k < n; ++k) {
    size_t rest = 1; for (size_t j = k + 1; j < n; ++j) rest *= 2;
    size_t cap = std::max<size_t>(2, std::min<size_t>(dmax, maxtot / (tot * rest)));
    v.push_back(gen_site<Q>(s, 2, cap));
    tot *= v.back().dim();
  }
  return SiteVec<E, Q>(v);
}
template<typename E, typename Q> Q charge(const SiteVec<E, Q> &sv, const std::vector<size_t> &c) {
  Q q = sv.sites[0].QnAt(c[0]);
  for (size_t i = 1; i < c.size(); ++i) q = q + sv.sites[i].QnAt(c[i]);
  return q;
}
template<typename E, typename Q> std::string show(const SiteVec<E, Q> &sv) {
  std::ostringstream os;
  os << sv.size << " sites:";
  for (size_t i = 0; i < sv.size; ++i) {
    if (i && sv.sites[i] == sv.sites[i - 1]) { os << " \""; continue; }
    os << " [";
    for (auto &x : sv.sites[i].GetQNScts()) os << x.GetQn().Str() << "x" << x.dim() << " ";
    os << "]";
  }
  return os.str();
}

// ---------------------------------------------------------------- operators
// a local operator of definite charge; M[out][in]
template<typename E, typename Q> QLTensor<E, Q> op_from(const Index<Q> &out, const Mat &m) {
  QLTensor<E, Q> t({InverseIndex(out), out});
  for (size_t i = 0; i < m.n; ++i) for (size_t o = 0; o < m.n; ++o) if (m(o, i) != cd(0)) {
    if constexpr (IsC<E>::v) t({i, o}) = m(o, i); else t({i, o}) = m(o, i).real();
  }
  return t;
}
template<typename E, typename Q> Mat mat_of(const QLTensor<E, Q> &t) {
  Mat m(t.GetShape()[0]);
  for (size_t i = 0; i < m.n; ++i) for (size_t o = 0; o < m.n; ++o) m(o, i) = t.GetElem({i, o});
  return m;
}
// random non-zero matrix mapping charge q to q+dq
template<typename E, typename Q> bool gen_opmat(Src &s, const Index<Q> &x, const Q &dq, Mat &m) {
  m = Mat(x.dim());
  std::vector<std::pair<size_t, size_t>> pos;
  for (size_t o = 0; o < m.n; ++o) for (size_t i = 0; i < m.n; ++i) if (x.QnAt(o) == x.QnAt(i) + dq) pos.push_back({o, i});
  if (pos.empty()) return false;
  bool any = false;
  for (auto &p : pos) if (s.chance(3, 4)) { m(p.first, p.second) = coef<E>(s); any = true; }
  if (!any) m(pos[0].first, pos[0].second) = coef<E>(s);
  return true;
}
inline Mat embed(const Dims &D, const std::map<size_t, Mat> &ops) {
  Mat r = eye(1);
  for (size_t i = 0; i < D.d.size(); ++i) { auto it = ops.find(i); r = kron(r, it == ops.end() ? eye(D.d[i]) : it->second); }
  return r;
}
// apply a single-site matrix to a state
inline Vec apply1(const Dims &D, const Vec &v, size_t site, const Mat &m) {
  size_t right = 1; for (size_t i = site + 1; i < D.d.size(); ++i) right *= D.d[i];
  size_t d = D.d[site], left = v.size() / (right * d);
  Vec r(v.size());
  for (size_t l = 0; l < left; ++l) for (size_t o = 0; o < d; ++o) for (size_t i = 0; i < d; ++i) {
    cd c = m(o, i);
    if (c == cd(0)) continue;
    for (size_t k = 0; k < right; ++k) r[(l * d + o) * right + k] += c * v[(l * d + i) * right + k];
  }
  return r;
}

// ---------------------------------------------------------------- states
// dense vector of any sequence of rank-3 tensors (boundary legs of dimension 1)
template<typename TenGet> Vec dense_state(size_t n, TenGet get) {
  Vec cur(1, 1.0);
  size_t bond = 1, rows = 1;
  for (size_t i = 0; i < n; ++i) {
    const auto &t = get(i);
    auto sh = t.GetShape();
    if (sh.size() != 3) pbt::fail("an MPS tensor is not of rank 3");
    if (sh[0] != bond) pbt::fail("MPS bond dimensions do not match");
    Vec nx(rows * sh[1] * sh[2]);
    for (size_t r = 0; r < rows; ++r) for (size_t l = 0; l < bond; ++l) {
      cd c = cur[r * bond + l];
      if (c == cd(0)) continue;
      for (size_t p = 0; p < sh[1]; ++p) for (size_t b = 0; b < sh[2]; ++b) nx[(r * sh[1] + p) * sh[2] + b] += c * cd(t.GetElem({l, p, b}));
    }
    rows *= sh[1]; bond = sh[2]; cur.swap(nx);
  }
  if (bond != 1) pbt::fail("the last MPS bond has dimension " + std::to_string(bond));
  return cur;
}
template<typename E, typename Q> Vec dense(const FiniteMPS<E, Q> &m) {
  for (size_t i = 0; i < m.size(); ++i) if (m(i) == nullptr) pbt::fail("MPS tensor " + std::to_string(i) + " is missing");
  return dense_state(m.size(), [&](size_t i) -> const QLTensor<E, Q> & { return m[i]; });
}
template<typename TenGet> Mat dense_op(size_t n, TenGet get) {
  // cur[(o,i),b]
  Vec cur(1, 1.0);
  size_t bond = 1, D = 1;
  for (size_t k = 0; k < n; ++k) {
    const auto &t = get(k);
    auto sh = t.GetShape();
    if (sh.size() != 4) pbt::fail("an MPO tensor is not of rank 4");
    if (sh[0] != bond) pbt::fail("MPO bond dimensions do not match");
    size_t d = sh[1];
    Vec nx(D * d * D * d * sh[3]);
    for (size_t o = 0; o < D; ++o) for (size_t i = 0; i < D; ++i) for (size_t l = 0; l < bond; ++l) {
      cd c = cur[(o * D + i) * bond + l];
      if (c == cd(0)) continue;
      for (size_t pi = 0; pi < d; ++pi) for (size_t po = 0; po < d; ++po) for (size_t b = 0; b < sh[3]; ++b) {
        cd e = t.GetElem({l, pi, po, b});
        if (e != cd(0)) nx[((o * d + po) * (D * d) + i * d + pi) * sh[3] + b] += c * e;
      }
    }
    D *= d; bond = sh[3]; cur.swap(nx);
  }
  if (bond != 1) pbt::fail("the last MPO bond has dimension " + std::to_string(bond));
  Mat m(D); m.a = cur;
  return m;
}
template<typename T> Mat dense_mpo(const T &m) {
  return dense_op(m.size(), [&](size_t i) -> const auto & { return m[i]; });
}

// A random MPS of definite total charge. `where`: 0 the head tensor carries the total charge (the form the library's
// initialisers use), 1 every tensor neutral with the charge on the last bond, 2 the charge carried by a random tensor.
struct MpsSpec { size_t configs = 2, deg = 2; int where = 0; };
template<typename E, typename Q> std::vector<std::vector<size_t>> gen_configs(Src &s, const SiteVec<E, Q> &sv, size_t k) {
  std::vector<std::vector<size_t>> cs;
  std::vector<size_t> c(sv.size);
  for (size_t i = 0; i < sv.size; ++i) c[i] = s.below(sv.sites[i].dim());
  cs.push_back(c);
  Q q = charge(sv, c);
  for (size_t t = 0; t < 6 * k && cs.size() < k; ++t) {
    std::vector<size_t> e = cs[s.below(cs.size())];
    if (s.chance(2, 3)) {     // exchange-like move on two sites
      size_t a = s.below(sv.size), b = s.below(sv.size);
      e[a] = s.below(sv.sites[a].dim());
      for (size_t x = 0; x < sv.sites[b].dim(); ++x) { auto f = e; f[b] = x; if (charge(sv, f) == q) { e = f; break; } }
    } else for (size_t i = 0; i < sv.size; ++i) e[i] = s.below(sv.sites[i].dim());
    if (charge(sv, e) == q) cs.push_back(e);
  }
  return cs;
}
template<typename E, typename Q> void fill_mps(Src &s, FiniteMPS<E, Q> &mps, const std::vector<std::vector<size_t>> &cs, size_t maxdeg, int where,
                                               bool boundary_ones = true) {
  auto &sv = mps.GetSitesInfo();
  size_t n = sv.size;
  (void) boundary_ones;
  Q tot = charge(sv, cs[0]), zero = tot - tot;
  size_t carrier = where == 0 ? 0 : where == 1 ? n : s.below(n);
  std::vector<Index<Q>> bonds;    // bonds[i] the OUT leg right of site i
  for (size_t i = 0; i < n; ++i) {
    QNSectorVec<Q> v;
    for (auto &c : cs) {
      Q q = zero;
      for (size_t j = 0; j <= i; ++j) q = q - sv.sites[j].QnAt(c[j]);
      if (i >= carrier) q = q + tot;
      bool has = false;
      for (auto &x : v) has |= x.GetQn() == q;
      if (!has) v.push_back(QNSector<Q>(q, i + 1 == n ? 1 : (size_t) s.range(1, maxdeg)));
    }
    bonds.push_back(Index<Q>(v, OUT));
  }
  Elems el(s);
  for (size_t i = 0; i < n; ++i) {
    Index<Q> l = i == 0 ? Index<Q>({QNSector<Q>(zero, 1)}, IN) : InverseIndex(bonds[i - 1]);
    Q div = i == carrier ? tot : zero;
    mps.alloc(i);
    mps[i] = QLTensor<E, Q>({l, sv.sites[i], bonds[i]});
    for (size_t a = 0; a < l.dim(); ++a) for (size_t p = 0; p < sv.sites[i].dim(); ++p) for (size_t b = 0; b < bonds[i].dim(); ++b)
      if (sv.sites[i].QnAt(p) + bonds[i].QnAt(b) - l.QnAt(a) == div) mps[i]({a, p, b}) = el.template next<E>();
  }
}
template<typename E, typename Q> FiniteMPS<E, Q> gen_mps(Src &s, const SiteVec<E, Q> &sv, int where = -1, size_t maxconf = 4, size_t maxdeg = 3) {
  auto cs = gen_configs(s, sv, (size_t) s.range(1, maxconf));
  FiniteMPS<E, Q> m(sv);
  fill_mps(s, m, cs, (size_t) s.range(1, maxdeg), where >= 0 ? where : (int) s.below(3));
  return m;
}
template<typename E, typename Q> std::string show_bonds(const FiniteMPS<E, Q> &m) {
  std::ostringstream os;
  os << "bonds";
  for (size_t i = 0; i < m.size(); ++i) os << " " << m[i].GetShape()[2];
  return os.str();
}
template<typename E> const char *ename() { return IsC<E>::v ? "complex" : "real"; }
template<typename Q> const char *qname() { return std::is_same_v<Q, TrivQ> ? "no symmetry" : std::is_same_v<Q, U1> ? "U1" : "U1xU1"; }

// ---------------------------------------------------------------- canonical forms
// deviation of the tensor from being an isometry
template<typename E, typename Q> double left_defect(const QLTensor<E, Q> &t) {
  auto sh = t.GetShape();
  double m = 0;
  for (size_t a = 0; a < sh[2]; ++a) for (size_t b = 0; b < sh[2]; ++b) {
    cd s = 0;
    for (size_t l = 0; l < sh[0]; ++l) for (size_t p = 0; p < sh[1]; ++p) s += std::conj(cd(t.GetElem({l, p, a}))) * cd(t.GetElem({l, p, b}));
    double d = std::abs(s - cd(a == b ? 1 : 0)); if (!(d <= m)) m = d != d ? 1e300 : d;
  }
  return m;
}
template<typename E, typename Q> double right_defect(const QLTensor<E, Q> &t) {
  auto sh = t.GetShape();
  double m = 0;
  for (size_t a = 0; a < sh[0]; ++a) for (size_t b = 0; b < sh[0]; ++b) {
    cd s = 0;
    for (size_t r = 0; r < sh[2]; ++r) for (size_t p = 0; p < sh[1]; ++p) s += std::conj(cd(t.GetElem({a, p, r}))) * cd(t.GetElem({b, p, r}));
    double d = std::abs(s - cd(a == b ? 1 : 0)); if (!(d <= m)) m = d != d ? 1e300 : d;
  }
  return m;
}
// Schmidt coefficients squared (normalised) across the cut after `k` sites, descending
inline std::vector<double> schmidt(const Dims &D, const Vec &v, size_t k) {
  size_t L = 1; for (size_t i = 0; i < k; ++i) L *= D.d[i];
  size_t R = v.size() / L;
  size_t n = std::min(L, R);
  Mat rho(n);
  for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) {
    cd s = 0;
    if (L <= R) for (size_t r = 0; r < R; ++r) s += v[a * R + r] * std::conj(v[b * R + r]);
    else for (size_t l = 0; l < L; ++l) s += v[l * R + a] * std::conj(v[l * R + b]);
    rho(a, b) = s;
  }
  auto w = eigh(rho);
  double t = 0; for (auto &x : w) { x = std::max(x, 0.0); t += x; }
  for (auto &x : w) x /= t;
  std::reverse(w.begin(), w.end());
  return w;
}
// a random MPO with neutral tensors
template<typename E, typename Q> FiniteMPO<E, Q> gen_mpo(Src &s, const SiteVec<E, Q> &sv, size_t maxdeg = 2) {
  Q zero = sv.sites[0].QnAt(0) - sv.sites[0].QnAt(0);
  FiniteMPO<E, Q> m(sv.size);
  Index<Q> l({QNSector<Q>(zero, 1)}, IN);
  Elems el(s);
  for (size_t i = 0; i < sv.size; ++i) {
    QNSectorVec<Q> v;
    std::vector<Q> qs;
    if (i + 1 == sv.size) qs.push_back(zero);
    else {
      qs.push_back(zero);
      // charges that can be closed again on the next site
      for (size_t k = (size_t) s.range(0, 2); k; --k) {
        auto &a = sv.sites[i], &b = sv.sites[i + 1];
        Q q = l.QnAt(s.below(l.dim())) + a.QnAt(s.below(a.dim())) - a.QnAt(s.below(a.dim()));
        (void) b;
        if (std::find(qs.begin(), qs.end(), q) == qs.end()) qs.push_back(q);
      }
    }
    for (auto &q : qs) v.push_back(QNSector<Q>(q, i + 1 == sv.size ? 1 : (size_t) s.range(1, maxdeg)));
    Index<Q> r(v, OUT), p = sv.sites[i];
    QLTensor<E, Q> t({l, InverseIndex(p), p, r});
    for (size_t o = 0; o < t.data().size(); ++o) if (t.Flux(t.Coor(o)) == zero) t.data()[o] = el.template next<E>();
    m[i] = t;
    l = InverseIndex(r);
  }
  return m;
}
}  // namespace tn

// run F<E,Q>(src) for one of the supported element/charge types
#define TN_DISPATCH(fn)                                                        \
  [](::pbt::Src &s) {                                                          \
    switch (s.below(3)) {                                                      \
      case 0: s.label("real, U1"); fn<double, ::tn::U1>(s); break;             \
      case 1: s.label("complex, U1"); fn<::tn::cd, ::tn::U1>(s); break;        \
      default: s.label("real, U1xU1"); fn<double, ::tn::U1U1>(s); break;       \
    }                                                                          \
  }
