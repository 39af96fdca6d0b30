// Shared by the harnesses of the ground-state and time-evolution properties: random Hermitian Hamiltonians as MPO
// together with their dense matrix, states spanning a charge sector, states stored on disk.
#pragma once
#include "ten.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/algorithm/vmps/vmps_all.h"

namespace tn {
using SV = std::vector<double>;
template<typename E, typename Q> struct Ham { MPO<QLTensor<E, Q>> mpo{0}; Mat H; size_t terms = 0; std::shared_ptr<MPOGenerator<E, Q>> gen; };
inline void hermitise(Mat &m) { for (size_t i = 0; i < m.n; ++i) for (size_t j = 0; j <= i; ++j) { cd v = 0.5 * (m(i, j) + std::conj(m(j, i))); m(i, j) = v; m(j, i) = std::conj(v); } }
// real, unnormalised |cfg> pieces are never needed here: everything below works on dense vectors
// single-site neutral Hermitian terms and A_i B_j + h.c. with opposite charges
template<typename E, typename Q> Ham<E, Q> gen_ham(Src &s, const SiteVec<E, Q> &sv, size_t maxterms = 8) {
  size_t n = sv.size;
  Dims D = dims_of(sv);
  Q zero = sv.sites[0].QnAt(0) - sv.sites[0].QnAt(0);
  Ham<E, Q> h;
  h.gen = std::make_shared<MPOGenerator<E, Q>>(sv, zero);
  auto &gen = *h.gen;
  h.H = Mat(D.total());
  auto add1 = [&](size_t i) {
    Mat m;
    if (!gen_opmat<E>(s, sv.sites[i], zero, m)) return;
    hermitise(m);
    if (fro(m) == 0) m = eye(m.n);
    double c = s.coef();
    gen.AddTerm(mk<E>(c, 0), {op_from<E>(sv.sites[i], m)}, {i});
    h.H = axpy(c, embed(D, {{i, m}}), h.H);
    ++h.terms;
  };
  auto add2 = [&](size_t i, size_t j) {
    if (i > j) std::swap(i, j);
    Q dq = sv.sites[i].QnAt(s.below(D.d[i])) - sv.sites[i].QnAt(s.below(D.d[i]));
    Mat a, b;
    if (!gen_opmat<E>(s, sv.sites[i], dq, a) || !gen_opmat<E>(s, sv.sites[j], Q(zero - dq), b)) { add1(i); return; }
    E c = coef<E>(s);
    cd cc = c;
    gen.AddTerm(c, {op_from<E>(sv.sites[i], a), op_from<E>(sv.sites[j], b)}, {i, j});
    Mat ad = dag(a), bd = dag(b);
    E cs; if constexpr (IsC<E>::v) cs = std::conj(c); else cs = c;
    gen.AddTerm(cs, {op_from<E>(sv.sites[i], ad), op_from<E>(sv.sites[j], bd)}, {i, j});
    Mat t = embed(D, {{i, a}, {j, b}});
    h.H = axpy(cc, t, h.H);
    h.H = axpy(std::conj(cc), dag(t), h.H);
    h.terms += 2;
  };
  if (s.chance(2, 3)) for (size_t i = 0; i + 1 < n; ++i) add2(i, i + 1);   // a connected chain
  for (size_t k = (size_t) s.range(h.terms ? 0 : 1, maxterms); k; --k) {
    if (s.chance(1, 3)) add1(s.below(n));
    else { size_t i = s.below(n), j = s.below(n); if (i == j) add1(i); else add2(i, j); }
  }
  h.mpo = gen.Gen();
  return h;
}
// all basis states with charge q
template<typename E, typename Q> std::vector<size_t> sector(const SiteVec<E, Q> &sv, const Q &q) {
  Dims D = dims_of(sv);
  std::vector<size_t> r;
  for (size_t o = 0; o < D.total(); ++o) if (charge(sv, D.cfg(o)) == q) r.push_back(o);
  return r;
}
inline Mat sub(const Mat &m, const std::vector<size_t> &ix) { Mat r(ix.size()); for (size_t i = 0; i < r.n; ++i) for (size_t j = 0; j < r.n; ++j) r(i, j) = m(ix[i], ix[j]); return r; }
// a random state whose bonds are wide enough for every state of the sector
template<typename E, typename Q> FiniteMPS<E, Q> full_mps(Src &s, const SiteVec<E, Q> &sv, const Q &tot, int where) {
  size_t n = sv.size;
  Dims D = dims_of(sv);
  Q zero = tot - tot;
  std::vector<std::map<size_t, int>> dummy;
  auto sec = sector(sv, tot);
  size_t carrier = where == 0 ? 0 : where == 1 ? n : s.below(n);
  std::vector<Index<Q>> bonds;
  for (size_t i = 0; i < n; ++i) {
    std::vector<Q> qs; std::vector<std::set<size_t>> L, R;
    size_t right = 1; for (size_t j = i + 1; j < n; ++j) right *= D.d[j];
    for (auto o : sec) {
      auto c = D.cfg(o);
      Q q = zero;
      for (size_t j = 0; j <= i; ++j) q = q - sv.sites[j].QnAt(c[j]);
      if (i >= carrier) q = q + tot;
      size_t k = 0; while (k < qs.size() && !(qs[k] == q)) ++k;
      if (k == qs.size()) { qs.push_back(q); L.emplace_back(); R.emplace_back(); }
      L[k].insert(o / right); R[k].insert(o % right);
    }
    QNSectorVec<Q> v;
    for (size_t k = 0; k < qs.size(); ++k) v.push_back(QNSector<Q>(qs[k], i + 1 == n ? 1 : std::min(L[k].size(), R[k].size())));
    bonds.push_back(Index<Q>(v, OUT));
  }
  FiniteMPS<E, Q> mps(sv);
  Elems el(s);
  for (size_t i = 0; i < n; ++i) {
    Index<Q> l = i == 0 ? Index<Q>({QNSector<Q>(zero, 1)}, IN) : InverseIndex(bonds[i - 1]);
    Q div = i == carrier ? tot : zero;
    mps.alloc(i);
    mps[i] = QLTensor<E, Q>({l, sv.sites[i], bonds[i]});
    for (size_t a = 0; a < l.dim(); ++a) for (size_t p = 0; p < sv.sites[i].dim(); ++p) for (size_t b = 0; b < bonds[i].dim(); ++b)
      if (sv.sites[i].QnAt(p) + bonds[i].QnAt(b) - l.QnAt(a) == div) mps[i]({a, p, b}) = el.template next<E>();
  }
  return mps;
}
template<typename E, typename Q> Vec vec_of(const QLTensor<E, Q> &t) { Vec v(t.size()); for (size_t o = 0; o < v.size(); ++o) v[o] = t.GetElem(t.Coor(o)); return v; }
// the states of the sites x..y-1 which the bond right (left) of them labels: r[bond] over their configurations
template<typename E, typename Q> std::vector<Vec> half(const FiniteMPS<E, Q> &m, size_t x, size_t y, bool left) {
  std::vector<Vec> r = {Vec(1, 1.0)};
  for (size_t k = 0; k < y - x; ++k) {
    size_t i = left ? x + k : y - 1 - k;
    auto sh = m[i].GetShape();
    size_t w = r[0].size();
    std::vector<Vec> q(left ? sh[2] : sh[0], Vec(w * sh[1]));
    for (size_t l = 0; l < sh[0]; ++l) for (size_t p = 0; p < sh[1]; ++p) for (size_t e = 0; e < sh[2]; ++e) {
      cd c = m[i].GetElem({l, p, e});
      if (c == cd(0)) continue;
      if (left) for (size_t k2 = 0; k2 < w; ++k2) q[e][k2 * sh[1] + p] += c * r[l][k2];
      else for (size_t k2 = 0; k2 < w; ++k2) q[l][p * w + k2] += c * r[e][k2];
    }
    r.swap(q);
  }
  return r;
}
// columns: the full-space vectors of the basis |l p (q) r> around the sites [a, b] of a state
template<typename E, typename Q> std::vector<Vec> frame(const FiniteMPS<E, Q> &m, size_t a, size_t b) {
  auto L = half(m, 0, a, true), R = half(m, b + 1, m.size(), false);
  size_t mid = 1;
  for (size_t i = a; i <= b; ++i) mid *= m[i].GetShape()[1];
  std::vector<Vec> f;
  for (auto &l : L) for (size_t p = 0; p < mid; ++p) for (auto &r : R) {
    Vec v(l.size() * mid * r.size());
    for (size_t x = 0; x < l.size(); ++x) if (l[x] != cd(0)) for (size_t y = 0; y < r.size(); ++y) v[(x * mid + p) * r.size() + y] = l[x] * r[y];
    f.push_back(v);
  }
  return f;
}
// an MPO cut behind (before) the sites x..y-1: what the operators which its bond labels make of a state of these sites
template<typename E, typename Q> std::vector<Vec> cut_apply(const MPO<QLTensor<E, Q>> &mpo, size_t x, size_t y, bool left, const Vec &v) {
  std::vector<Vec> cur = {v};
  size_t before = 1, after = v.size();          // around the next site
  if (!left) std::swap(before, after);
  for (size_t k = 0; k < y - x; ++k) {
    size_t i = left ? x + k : y - 1 - k;
    auto sh = mpo[i].GetShape();
    size_t d = sh[1], out = left ? sh[3] : sh[0];
    if (left) after /= d; else before /= d;
    std::vector<Vec> nx(out, Vec(v.size()));
    for (size_t l = 0; l < sh[0]; ++l) for (size_t p = 0; p < d; ++p) for (size_t q = 0; q < d; ++q) for (size_t e = 0; e < sh[3]; ++e) {
      cd c = mpo[i].GetElem({l, p, q, e});
      if (c == cd(0)) continue;
      const Vec &src = cur[left ? l : e];
      Vec &dst = nx[left ? e : l];
      for (size_t f = 0; f < before; ++f) for (size_t g = 0; g < after; ++g) dst[(f * d + q) * after + g] += c * src[(f * d + p) * after + g];
    }
    cur.swap(nx);
    if (left) before *= d; else after *= d;
  }
  return cur;
}
inline Mat project(const Mat &H, const std::vector<Vec> &f) {
  Mat r(f.size());
  for (size_t j = 0; j < f.size(); ++j) { Vec h = tn::apply(H, f[j]); for (size_t i = 0; i < f.size(); ++i) r(i, j) = dot(f[i], h); }
  return r;
}
inline double rayleigh(const Mat &H, const Vec &v) { return std::real(dot(v, tn::apply(H, v)) / dot(v, v)); }
// Ritz values of the Krylov spaces of dimension 1, 2, ... (full re-orthogonalisation); `off` the off-diagonal elements
struct Krylov { SV theta, off; std::vector<Vec> q; };
inline Krylov krylov(const Mat &A, Vec v, size_t kmax, double tiny) {
  Krylov k;
  double nv = nrm(v);
  k.q.push_back(scalev(1 / nv, v));
  Mat T(kmax);
  for (size_t m = 0; m < kmax; ++m) {
    Vec w = tn::apply(A, k.q[m]);
    for (int rep = 0; rep < 2; ++rep) for (size_t j = 0; j <= m; ++j) { cd c = dot(k.q[j], w); w = addv(1, w, -c, k.q[j]); if (rep == 0 && j + 1 >= m) { T(j, m) = c; T(m, j) = std::conj(c); } }
    T(m, m) = T(m, m).real();
    Mat t(m + 1);
    for (size_t i = 0; i <= m; ++i) for (size_t j = 0; j <= m; ++j) t(i, j) = T(i, j);
    hermitise(t);
    k.theta.push_back(eigh(t)[0]);
    double b = nrm(w);
    k.off.push_back(b);
    if (b < tiny || m + 1 == kmax) break;
    T(m + 1, m) = b; T(m, m + 1) = b;
    k.q.push_back(scalev(1 / b, w));
  }
  return k;
}
template<typename T> std::string mps_file(const T &dir, size_t i) { return GenMPSTenName(dir, i); }
// the state as it is on disk
template<typename E, typename Q> FiniteMPS<E, Q> read_mps(const SiteVec<E, Q> &sv, const std::string &dir) {
  FiniteMPS<E, Q> m(sv);
  m.Load(dir);
  return m;
}
struct Quiet {                 // swallow the progress output of the sweeps
  std::ostringstream sink; std::streambuf *o;
  Quiet() : o(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(o); if (const char *f = getenv("PBT_LOUD")) std::ofstream(f, std::ios::app) << sink.str(); }
};
inline std::vector<std::string> ls(const std::string &d) {
  std::vector<std::string> r;
  if (std::filesystem::exists(d)) for (auto &e : std::filesystem::directory_iterator(d)) r.push_back(e.path().filename().string());
  std::sort(r.begin(), r.end());
  return r;
}
// a Lanczos solver against the dense matrix A it works on; `st` (given away) is the start
template<typename E, typename Q, typename Solve> void check_lanczos(Src &s, const Mat &A, QLTensor<E, Q> *st, double err, size_t maxit, Solve solve) {
  using T = QLTensor<E, Q>;
  Vec v0 = vec_of(*st);
  size_t dim = v0.size();
  double scale = std::max(1.0, fro(A));
  // the sector of the state
  std::vector<size_t> ix;
  auto dv = Div(*st);
  for (size_t o = 0; o < dim; ++o) if (st->Flux(st->Coor(o)) == dv) ix.push_back(o);
  std::vector<Vec> ev;
  auto w = eigh(sub(A, ix), &ev);
  int start = (int) s.weighted({6, 2, 2});
  if (start == 1 || start == 2) {       // an eigenvector, or a combination of two
    size_t k = s.below(w.size()), k2 = start == 2 ? s.below(w.size()) : k;
    Vec x(ix.size());
    for (size_t i = 0; i < ix.size(); ++i) x[i] = ev[k][i] + (k2 == k ? cd(0) : 0.7 * ev[k2][i]);
    double y = 0; for (auto &c : x) y = std::max(y, std::abs(c.real()));
    if (!IsC<E>::v && y < 1e-3) throw pbt::Discard();
    for (size_t o = 0; o < dim; ++o) v0[o] = 0;
    for (size_t i = 0; i < ix.size(); ++i) { cd c = x[i]; if (!IsC<E>::v) c = c.real(); v0[ix[i]] = c; if constexpr (IsC<E>::v) (*st)(st->Coor(ix[i])) = c; else (*st)(st->Coor(ix[i])) = c.real(); }
    s.label("invariant subspace as start");
    s.note << ", start from eigenvector" << (k2 == k ? " " : "s ") << k << " " << k2;
  }
  auto K = krylov(A, v0, std::min<size_t>(dim, maxit + 1), 1e-9 * scale);
  double e1 = rayleigh(A, v0);
  auto res = solve(st);
  std::unique_ptr<T> g(res.gs_vec);
  size_t kd = K.theta.size();           // the Krylov space, or maxit+1
  double tol = 1e-8 * scale;
  s.note << ", Krylov dimension " << kd << ", iterations " << res.iters;
  PBT_REQUIRE(g != nullptr, "no vector returned");
  PBT_REQUIRE(res.iters >= 1 && res.iters <= maxit, res.iters << " iterations, at most " << maxit << " allowed");
  PBT_REQUIRE(res.gs_eng >= w[0] - tol, "energy " << res.gs_eng << " below the lowest eigenvalue " << w[0]);
  PBT_REQUIRE(res.gs_eng <= e1 + tol, "energy " << res.gs_eng << " above the initial " << e1);
  Vec gv = vec_of(*g);
  PBT_REQUIRE(gv.size() == dim, "the returned vector has another shape");
  for (size_t o = 0; o < dim; ++o) PBT_REQUIRE(gv[o] == cd(0) || g->Flux(g->Coor(o)) == dv, "the returned vector left the sector of the initial state");
  double ng = nrm(gv);
  for (size_t i = 0; i < kd; ++i) if (K.off[i] > 1e-15 * scale && K.off[i] < 1e-4 * scale) { s.label("nearly invariant subspace"); break; }
  PBT_REQUIRE(std::abs(ng - 1) < 1e-9, "the returned vector has norm " << ng);
  double eg = rayleigh(A, gv);
  PBT_REQUIRE(std::abs(eg - res.gs_eng) < 10 * tol, "reported energy " << res.gs_eng << ", the returned vector has " << eg);
  double t = K.theta[std::min(res.iters, kd) - 1];
  PBT_REQUIRE(res.gs_eng <= t + tol, "energy " << res.gs_eng << " after " << res.iters << " iterations, the Krylov space contains " << t);
  if (res.iters <= kd) PBT_REQUIRE(std::abs(res.gs_eng - t) < tol, "energy " << res.gs_eng << " after " << res.iters << " iterations, the Krylov space gives " << t);
  if (res.iters < maxit && res.iters < kd) {
    PBT_REQUIRE(res.iters >= 2, "stopped after one iteration although the state is no eigenvector");
    double d = K.theta[res.iters - 2] - K.theta[res.iters - 1];
    PBT_REQUIRE(d < err + 1e-11 * scale, "stopped although the last iteration lowered the energy by " << d);
  }
  for (size_t j = 2; j < std::min(res.iters, kd); ++j) {
    double d = K.theta[j - 2] - K.theta[j - 1];
    PBT_REQUIRE(d > err - 1e-11 * scale, "went on after an iteration that lowered the energy by only " << d);
  }
  s.nontrivial(res.iters >= 3 && dim >= 6);
}
// ---- whole runs of the algorithms
template<typename E, typename Q> struct Setup {
  SiteVec<E, Q> sv; Dims D; size_t n; Ham<E, Q> h; FiniteMPS<E, Q> start; Q tot; std::vector<size_t> sec; Mat Hs; SV w; double scale, e_init; bool full;
  std::string mps_path, temp_path;
};
template<typename E, typename Q> Setup<E, Q> setup(Src &s, size_t nmax, size_t maxtot, size_t nmin = 3) {
  auto sv = gen_sites<E, Q>(s, nmin, nmax, s.flip(), maxtot, 3, 2);
  Setup<E, Q> u{sv, dims_of(sv), sv.size, gen_ham(s, sv, 6), FiniteMPS<E, Q>(sv), Q(), {}, Mat(), {}, 0, 0, s.chance(1, 3), "", ""};
  std::vector<size_t> c(u.n); for (size_t i = 0; i < u.n; ++i) c[i] = s.below(u.D.d[i]);
  u.tot = charge(sv, c);
  u.sec = sector(sv, u.tot);
  if (u.full) u.start = full_mps(s, sv, u.tot, (int) s.below(3)); else {
    u.start = gen_mps<E, Q>(s, sv);
    Vec v = dense(u.start);
    for (size_t o = 0; o < v.size(); ++o) if (std::abs(v[o]) > 1e-9) u.tot = charge(sv, u.D.cfg(o));
    u.sec = sector(sv, u.tot);
  }
  if (nrm(dense(u.start)) < 1e-6) throw pbt::Discard();
  u.Hs = sub(u.h.H, u.sec);
  hermitise(u.Hs);
  u.w = eigh(u.Hs);
  u.scale = std::max(1.0, std::max(std::abs(u.w[0]), std::abs(u.w.back())));
  u.e_init = rayleigh(u.h.H, dense(u.start));
  bool own = s.chance(1, 3);
  u.mps_path = own ? "state" : kMpsPath; u.temp_path = own ? "work" : kRuntimeTempPath;
  s.note << ename<E>() << " " << qname<Q>() << ", " << show(sv) << ", " << u.h.terms << " terms, " << (u.full ? "full " : "") << show_bonds(u.start) << ", sector of " << u.sec.size();
  return u;
}
// the largest Schmidt rank a state of the sector can have
template<typename E, typename Q> size_t max_rank(const Setup<E, Q> &u) {
  size_t best = 1, right = u.D.total();
  for (size_t i = 0; i + 1 < u.n; ++i) {
    right /= u.D.d[i];
    std::vector<Q> qs; std::vector<std::set<size_t>> L, R;
    for (auto o : u.sec) {
      auto c = u.D.cfg(o);
      Q q = u.sv.sites[0].QnAt(c[0]);
      for (size_t j = 1; j <= i; ++j) q = q + u.sv.sites[j].QnAt(c[j]);
      size_t k = 0; while (k < qs.size() && !(qs[k] == q)) ++k;
      if (k == qs.size()) { qs.push_back(q); L.emplace_back(); R.emplace_back(); }
      L[k].insert(o / right); R[k].insert(o % right);
    }
    size_t r = 0;
    for (size_t k = 0; k < qs.size(); ++k) r += std::min(L[k].size(), R[k].size());
    best = std::max(best, r);
  }
  return best;
}
// by SVD every bond leg keeps its usual direction; Centralize turns them round right of the center
template<typename E, typename Q> void store(Setup<E, Q> &u, int center, const std::string &path, bool svd = false) {
  auto m = u.start;
  if (svd) for (size_t i = u.n - 1; i > 0; --i) m.RightCanonicalizeTen(i, true); else m.Centralize(center);
  m.Dump(path, true);
}
struct Para { size_t dmin, dmax; double trunc; double lerr; size_t lit; bool lossless, tight; };
inline Para para(Src &s, bool full) {
  Para p;
  p.lossless = full || s.chance(1, 2);
  p.dmax = p.lossless ? 100000 : (size_t) s.range(1, 8);
  p.trunc = 0; p.dmin = 1;
  if (p.lossless && s.chance(1, 3)) { p.dmin = 100000; p.trunc = 0.3; }
  if (!p.lossless) { p.dmin = (size_t) s.range(1, (int64_t) p.dmax); p.trunc = s.flip() ? 0 : std::pow(10.0, -(double) s.range(1, 12)); }
  p.tight = s.chance(2, 3);
  p.lerr = p.tight ? 1e-12 : std::pow(10.0, -(double) s.range(1, 9));
  p.lit = p.tight ? 100 : (size_t) s.range(1, 20);
  s.note << ", D " << p.dmin << ".." << p.dmax << ", truncation error " << p.trunc << ", Lanczos " << p.lerr << "/" << p.lit;
  return p;
}
// what holds for the state on disk after any of the algorithms
template<typename E, typename Q> Vec inspect(Setup<E, Q> &u, const std::string &path, size_t center, size_t dmax, double e, bool lossless, const std::string &what, int noisy = 0) {
  auto fin = read_mps(u.sv, path);
  Vec v = dense(fin);
  double nv = nrm(v);
  PBT_REQUIRE(nv < 1 + 1e-9 && nv > 1e-3, what << ": the final state has norm " << nv);
  double out = 0;
  std::vector<char> in(v.size(), 0);
  for (auto o : u.sec) in[o] = 1;
  for (size_t o = 0; o < v.size(); ++o) if (!in[o]) out = std::max(out, std::abs(v[o]));
  PBT_REQUIRE(out < 1e-9, what << ": the final state left its charge sector");
  for (size_t i = 0; i < u.n; ++i) {
    if (i < center) PBT_REQUIRE(left_defect(fin[i]) < 1e-7, what << ": tensor " << i << " left of the documented center " << center << " is not left canonical");
    if (i > center) PBT_REQUIRE(right_defect(fin[i]) < 1e-7, what << ": tensor " << i << " right of the documented center " << center << " is not right canonical");
    // the noise that enlarged the bond left of the final center is only cut by the next sweep
    if (noisy == 1 && i + 1 == center) continue;
    if (noisy == 2 && i + 1 < u.n && fin[i].GetShape()[2] > dmax) { noisy = 3; continue; }      // the center was moved on to the first site
    PBT_REQUIRE(i + 1 == u.n || fin[i].GetShape()[2] <= dmax, what << ": bond " << i << " has dimension " << fin[i].GetShape()[2] << " > " << dmax);
  }
  double tol = 1e-7 * u.scale;
  PBT_REQUIRE(e >= u.w[0] - tol, what << ": energy " << e << " below the exact ground state energy " << u.w[0]);
  PBT_REQUIRE(e <= u.w.back() + tol, what << ": energy " << e << " above the whole spectrum");
  // the energy is that of the normalised state before the last truncation, which projects it
  double eps = std::max(0.0, 1 - nv * nv), eu = std::real(dot(v, tn::apply(u.h.H, v))) / std::max(1.0, nv * nv), width = std::max(std::abs(u.w[0]), std::abs(u.w.back()));
  PBT_REQUIRE(std::abs(eu - e) <= (2 * std::sqrt(eps) + eps) * width + tol + 1e-6 * u.scale, what << ": energy " << e << " returned, the state has " << eu / nv / nv << " and norm " << nv);
  double ev = rayleigh(u.h.H, v);
  if (lossless) {
    PBT_REQUIRE(std::abs(nv - 1) < 1e-9, what << ": the final state has norm " << nv << " although nothing was truncated");
    PBT_REQUIRE(std::abs(ev - e) < tol, what << ": energy " << e << " returned, the state has " << ev);
  }
  return v;
}
// the left boundary of the sweeps: the first site that, with all sites to the left of it, has more states than the bond limit
inline size_t left_boundary(const Dims &D, size_t dmax) {
  size_t lm = (D.d.size() - 1) / 2, f = 1;
  for (size_t i = 0; i < lm; ++i) if ((f *= D.d[i]) > dmax) return i;
  return lm - 1;
}
// the bond right of site c was truncated last, from a normalised state: it keeps between dmin and dmax states, and of those no
// more and no fewer than the truncation error asks for (the margin covers what noise adds to the weights)
template<typename E, typename Q> void check_truncation(Setup<E, Q> &u, const Vec &v, size_t D, size_t c, size_t dmin, size_t dmax, double trunc, const std::string &what, double margin = 1e-9) {
  double nv = nrm(v), disc = std::max(0.0, 1 - nv * nv);
  auto w = schmidt(u.D, v, c + 1);
  double least = D <= w.size() ? w[D - 1] * nv * nv : 0;
  PBT_REQUIRE(D <= dmax, what << ": the bond truncated last has dimension " << D << " > " << dmax);
  if (D < dmax) PBT_REQUIRE(disc <= trunc + margin, what << ": the last truncation discarded " << disc << ", more than the error " << trunc << ", and kept only " << D << " of up to " << dmax << " states");
  if (D < dmin) PBT_REQUIRE(disc <= margin, what << ": the last truncation kept only " << D << " states, at least " << dmin << " were asked for, and discarded " << disc);
  if (D > std::max<size_t>(dmin, 1)) PBT_REQUIRE(disc + least >= trunc - margin, what << ": the last truncation kept " << D << " states, but with one fewer (weight " << least << ") it would still have discarded only " << disc + least << " of the allowed " << trunc);
}
// the state solves the eigenvalue problem of the sites a..b
template<typename E, typename Q> double residual(Setup<E, Q> &u, const std::string &path, size_t a, size_t b, double e) {
  auto fin = read_mps(u.sv, path);
  auto f = frame(fin, a, b);
  Vec v = dense(fin), hv = tn::apply(u.h.H, v);
  double r = 0;
  for (auto &x : f) r += std::norm(dot(x, hv) - e * dot(x, v));
  return std::sqrt(r);
}
// the same when the state was brought into another form since: block states are only known where they have a weight
inline double support_residual(const Dims &D, const Mat &H, const Vec &v, size_t a, size_t b, double e) {
  size_t dl = 1, dm = 1, dr = 1;
  for (size_t i = 0; i < D.d.size(); ++i) (i < a ? dl : i <= b ? dm : dr) *= D.d[i];
  Vec g = tn::apply(H, v);
  for (size_t o = 0; o < v.size(); ++o) g[o] -= e * v[o];
  auto at = [&](size_t l, size_t m, size_t r) { return (l * dm + m) * dr + r; };
  auto vecs = [&](bool left) {
    size_t n = left ? dl : dr;
    Mat rho(n);
    for (size_t x = 0; x < n; ++x) for (size_t y = 0; y < n; ++y) for (size_t m = 0; m < dm; ++m) for (size_t k = 0; k < (left ? dr : dl); ++k)
      rho(x, y) += left ? v[at(x, m, k)] * std::conj(v[at(y, m, k)]) : v[at(k, m, x)] * std::conj(v[at(k, m, y)]);
    std::vector<Vec> ev, r;
    auto w = eigh(rho, &ev);
    for (size_t k = 0; k < w.size(); ++k) if (w[k] > 1e-8 * w.back()) r.push_back(ev[k]);
    return r;
  };
  auto L = vecs(true), R = vecs(false);
  double r = 0;
  for (auto &l : L) {
    Vec t(dm * dr);
    for (size_t x = 0; x < dl; ++x) if (l[x] != cd(0)) for (size_t y = 0; y < t.size(); ++y) t[y] += std::conj(l[x]) * g[x * dm * dr + y];
    for (auto &q : R) for (size_t m = 0; m < dm; ++m) { cd z = 0; for (size_t y = 0; y < dr; ++y) z += std::conj(q[y]) * t[m * dr + y]; r += std::norm(z); }
  }
  return std::sqrt(r);
}

// a Hamiltonian and a state centered at the sites a..b, with the environments the sweeps would have
template<typename E, typename Q> struct ExpandCase {
  using T = QLTensor<E, Q>;
  Ham<E, Q> h; FiniteMPS<E, Q> mps; size_t a, b; bool right; double noise; T l, r;
  T *vec() { auto *v = new T; if (b > a) Contract(&mps[a], &mps[b], {{2}, {0}}, v); else *v = mps[a]; return v; }
};
template<typename E, typename Q> ExpandCase<E, Q> gen_expand(Src &s, bool two, bool turn) {
  using T = QLTensor<E, Q>;
  auto sv = gen_sites<E, Q>(s, two ? 3 : 2, 6, s.flip(), 100);
  Dims D = dims_of(sv);
  size_t n = sv.size;
  ExpandCase<E, Q> c{gen_ham(s, sv), FiniteMPS<E, Q>(sv), 0, 0, s.flip(), std::pow(10.0, -(double) s.range(0, 3)) * s.range(1, 9), T(), T()};
  size_t w = two ? 2 : 1;
  c.a = s.below(n - w) + (c.right ? 0 : 1);
  c.b = c.a + w - 1;
  if (s.chance(1, 3)) {
    std::vector<size_t> x(n); for (size_t i = 0; i < n; ++i) x[i] = s.below(D.d[i]);
    c.mps = full_mps(s, sv, charge(sv, x), (int) s.below(3));
  } else c.mps = gen_mps<E, Q>(s, sv);
  if (nrm(dense(c.mps)) < 1e-6) throw pbt::Discard();
  bool turned = turn && two && s.chance(1, 3);
  c.mps.Centralize(c.a);
  if (!turned) {                  // by SVD the legs keep their directions
    for (size_t i = 0; i + 1 < n; ++i) c.mps.LeftCanonicalizeTen(i);
    for (size_t i = n - 1; i > c.a; --i) c.mps.RightCanonicalizeTen(i, true);
  }
  s.note << ename<E>() << " " << qname<Q>() << ", " << show(sv) << ", " << c.h.terms << " terms, sites " << c.a << ".." << c.b << " to the " << (c.right ? "right" : "left") << ", " << show_bonds(c.mps) << ", noise " << c.noise;
  auto &mps = c.mps; auto &mpo = c.h.mpo;
  c.l = T({InverseIndex(InverseIndex(mps[0].GetIndexes()[0])), InverseIndex(mpo[0].GetIndexes()[0]), InverseIndex(mps[0].GetIndexes()[0])});
  c.l({0, 0, 0}) = 1;
  for (size_t i = 0; i < c.a; ++i) c.l = UpdateSiteLenvs(c.l, mps[i], mpo[i]);
  c.r = T({mps[n - 1].GetIndexes()[2], InverseIndex(mpo[n - 1].GetIndexes()[3]), InverseIndex(mps[n - 1].GetIndexes()[2])});
  c.r({0, 0, 0}) = 1;
  for (size_t i = n - 1; i > c.b; --i) c.r = UpdateSiteRenvs(c.r, mps[i], mpo[i]);
  return c;
}
// The noise. Before the bond of the sites a..b in the direction of the sweep is cut, it is enlarged: the state stays what it is,
// and the space its tensor spans on the block and the sites a..b gains noise * (parts of H on them) * state.
// `expand(mps, vec)` replaces mps[next] and returns the tensor of the sites a..b
template<typename E, typename Q, typename Expand> void check_expand(Src &s, FiniteMPS<E, Q> &mps, const MPO<QLTensor<E, Q>> &mpo, size_t a, size_t b, bool right, double noise, QLTensor<E, Q> *vec, Expand expand) {
  using T = QLTensor<E, Q>;
  size_t n = mps.size(), next = right ? b + 1 : a - 1;
  bool turned = right && vec->GetIndexes().back().GetDir() == IN;     // then the parts of H enter in another normalisation
  // the tensor as a matrix: rows (block and sites), columns (enlarged bond)
  auto cols = [&](const T &t) {
    auto sh = t.GetShape();
    size_t bond = right ? sh.back() : sh[0], rows = t.size() / bond;
    std::vector<Vec> c(bond, Vec(rows));
    for (size_t o = 0; o < t.size(); ++o) { cd x = t.GetElem(t.Coor(o)); if (right) c[o % bond][o / bond] = x; else c[o / rows][o % rows] = x; }
    return c;
  };
  // the states of the sites 0..b (a..n-1) and the frame they are written in
  auto old = cols(*vec);
  auto blk = right ? half(mps, 0, a, true) : half(mps, b + 1, n, false);
  size_t rows = old[0].size(), mid = rows / blk.size(), bd = blk[0].size();
  auto lift = [&](const Vec &c) {
    Vec v(bd * mid);
    for (size_t k = 0; k < blk.size(); ++k) for (size_t p = 0; p < mid; ++p) {
      cd x = right ? c[k * mid + p] : c[p * blk.size() + k];
      if (x != cd(0)) for (size_t z = 0; z < bd; ++z) v[right ? z * mid + p : p * bd + z] += x * blk[k][z];
    }
    return v;
  };
  auto drop = [&](const Vec &v) {
    Vec c(rows);
    for (size_t k = 0; k < blk.size(); ++k) for (size_t p = 0; p < mid; ++p) {
      cd x = 0;
      for (size_t z = 0; z < bd; ++z) x += std::conj(blk[k][z]) * v[right ? z * mid + p : p * bd + z];
      c[right ? k * mid + p : p * blk.size() + k] = x;
    }
    return c;
  };
  std::vector<Vec> add;
  for (auto &c : old) for (auto &x : cut_apply(mpo, right ? 0 : a, right ? b + 1 : n, right, lift(c))) add.push_back(drop(x));
  auto join = [&](const T &t) {           // with the tensor beyond the bond
    T r;
    auto l = t.GetShape().size();
    if (right) Contract(&t, &mps[next], {{l - 1}, {0}}, &r); else Contract(&mps[next], &t, {{2}, {0}}, &r);
    return vec_of(r);
  };
  Vec before = join(*vec);
  size_t bond0 = old.size();
  T now = expand(mps, vec);
  PBT_REQUIRE(now.GetShape()[right ? now.GetShape().size() - 1 : 0] == mps[next].GetShape()[right ? 0 : 2], "the noise left a bond of dimension " << mps[next].GetShape()[right ? 0 : 2] << " next to one of " << now.GetShape()[right ? now.GetShape().size() - 1 : 0]);
  Vec after = join(now);
  auto nw = cols(now);
  PBT_REQUIRE(nw[0].size() == rows && after.size() == before.size(), "the noise changed other legs than the enlarged one");
  double d = maxdiff(after, before);
  PBT_REQUIRE(d < 1e-10 * std::max(1.0, nrm(before)), "adding noise changed the state by " << d);
  auto gram = [&](const std::vector<Vec> &c, double f, Mat &g) {
    for (auto &x : c) for (size_t i = 0; i < rows; ++i) if (x[i] != cd(0)) for (size_t j = 0; j < rows; ++j) g(i, j) += f * x[i] * std::conj(x[j]);
  };
  Mat want(rows), got(rows);
  gram(old, 1, want);
  gram(nw, 1, got);
  double big = 0;
  for (auto &x : add) big += std::real(dot(x, x));
  s.note << ", bond " << bond0 << " to " << nw.size() << (turned ? ", turned leg" : "");
  if (!turned) {
    gram(add, noise * noise, want);
    double df = fro(axpy(-1, want, got));
    PBT_REQUIRE(df < 1e-9 * std::max(1.0, noise * noise * big), "the enlarged bond spans something else than the state and noise * parts of H * state, the density matrices differ by " << df << " of " << fro(want));
  } else {
    std::vector<Vec> ev;          // span: every added vector lies in that of the enlarged tensor
    auto w = eigh(got, &ev);
    double top = std::max(1e-300, w.back()), out = 0, m = 1e-300;
    for (auto &x : add) { double r = std::real(dot(x, x)); m = std::max(m, r); for (size_t k = 0; k < w.size(); ++k) if (w[k] > 1e-13 * top * std::min(1.0, noise * noise)) r -= std::norm(dot(ev[k], x)); out = std::max(out, r); }
    PBT_REQUIRE(out < 1e-8 * m, "parts of H times the state are not in the enlarged basis: weight " << out << " of " << m);
    s.label("turned leg");
  }
  s.nontrivial(rows >= 6 && add.size() >= 6);
}

// some files of a directory get lost between two runs
inline void lose_files(Src &s, const std::string &dir) {
  if (!std::filesystem::exists(dir)) return;
  std::vector<std::string> fs;
  for (auto &e : std::filesystem::directory_iterator(dir)) if (e.is_regular_file()) fs.push_back(e.path().string());
  std::sort(fs.begin(), fs.end());
  if (fs.empty()) return;
  size_t k = s.chance(2, 3) ? 1 : (size_t) s.range(1, (int64_t) fs.size());
  s.note << ", lost";
  for (auto i : s.perm(fs.size())) { if (!k--) break; std::filesystem::remove(fs[i]); s.note << " " << fs[i]; }
}

}  // namespace tn
