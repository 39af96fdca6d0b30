// A dense reference for two-site time evolution: projector splitting on dense vectors, with the same cuts.
#pragma once
#include "gs.h"
namespace tn {
// exp(-i delta A) v for Hermitian A
inline Vec expmv(const Mat &A, const Vec &v, double delta) {
  std::vector<Vec> ev;
  auto w = eigh(A, &ev);
  Vec r(v.size());
  for (size_t k = 0; k < w.size(); ++k) r = addv(1, r, dot(ev[k], v) * std::exp(cd(0, -delta * w[k])), ev[k]);
  return r;
}

// a(i,j) = sum_k u[k][i] s[k] v[k][j]
inline void dense_svd(size_t m, size_t n, const std::function<cd(size_t, size_t)> &f, std::vector<double> &sg, std::vector<Vec> &u, std::vector<Vec> &v) {
  int M = (int) m, N = (int) n, k = std::min(M, N), lw = 5 * (M + N) + 64, info;
  Vec a(m * n), U(m * k), V((size_t) k * n), w(lw);
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) a[j * m + i] = f(i, j);
  std::vector<double> rw(5 * k + 8);
  sg.assign(k, 0);
  zgesvd_("S", "S", &M, &N, a.data(), &M, sg.data(), U.data(), &M, V.data(), &k, w.data(), &lw, rw.data(), &info);
  if (info) pbt::fail("reference singular value decomposition failed");
  u.assign(k, Vec(m)); v.assign(k, Vec(n));
  for (int x = 0; x < k; ++x) { for (size_t i = 0; i < m; ++i) u[x][i] = U[x * m + i]; for (size_t j = 0; j < n; ++j) v[x][j] = V[j * k + x]; }
}
// two-site projector splitting on dense vectors: orthonormal left and right frames at every cut, with their charges
template<typename Q> struct Dense {
  struct F { Q q; Vec v; };
  const SiteVec<cd, Q> &sv; const Mat &H; Dims D; size_t n; Q tot;
  std::vector<std::vector<F>> L, R;
  Vec v;
  struct Cut { size_t site, D; double lost; std::vector<double> s; };     // site: the one the update is called after
  std::vector<Cut> cuts;        // what was done, one entry per pair
  std::string fragile;          // why the comparison is not well conditioned (any more)
  size_t dmin, dmax; double trunc;
  Dense(const SiteVec<cd, Q> &sv_, const Mat &H_, size_t a, size_t b, double t) : sv(sv_), H(H_), D(dims_of(sv_)), n(sv_.size), L(n + 1), R(n + 1), dmin(a), dmax(b), trunc(t) {}
  std::vector<F> wide_l(size_t cut) const {         // frames of the first `cut` sites from those of cut-1
    std::vector<F> r;
    for (auto &f : L[cut - 1]) for (size_t p = 0; p < D.d[cut - 1]; ++p) {
      Vec x(f.v.size() * D.d[cut - 1]);
      for (size_t i = 0; i < f.v.size(); ++i) x[i * D.d[cut - 1] + p] = f.v[i];
      r.push_back({cut == 1 ? sv.sites[0].QnAt(p) : f.q + sv.sites[cut - 1].QnAt(p), x});
    }
    return r;
  }
  std::vector<F> wide_r(size_t cut) const {         // frames of the sites from `cut` on
    std::vector<F> r;
    for (size_t p = 0; p < D.d[cut]; ++p) for (auto &f : R[cut + 1]) {
      Vec x(f.v.size() * D.d[cut]);
      for (size_t i = 0; i < f.v.size(); ++i) x[p * f.v.size() + i] = f.v[i];
      r.push_back({cut + 1 == n ? sv.sites[cut].QnAt(p) : sv.sites[cut].QnAt(p) + f.q, x});
    }
    return r;
  }
  Vec joint(const Vec &a, const Vec &b) const { Vec x(a.size() * b.size()); for (size_t i = 0; i < a.size(); ++i) if (a[i] != cd(0)) for (size_t j = 0; j < b.size(); ++j) x[i * b.size() + j] = a[i] * b[j]; return x; }
  // right frames from the tensors of the prepared state
  void frames(const FiniteMPS<cd, Q> &m, size_t canon_from) {
    Q zero = sv.sites[0].QnAt(0) - sv.sites[0].QnAt(0);
    L[0] = {{zero, Vec(1, 1.0)}};
    R[n] = {{zero, Vec(1, 1.0)}};
    v = dense(m);
    bool have = false;
    for (size_t o = 0; o < v.size(); ++o) if (std::abs(v[o]) > 1e-12) { tot = charge(sv, D.cfg(o)); have = true; }
    if (!have) throw pbt::Discard();
    auto f = frame(m, 0, 0);
    std::vector<Vec> r = {Vec(1, 1.0)};
    for (size_t i = n; i-- > 1;) {
      auto sh = m[i].GetShape();
      size_t w = r[0].size();
      std::vector<Vec> q(sh[0], Vec(w * sh[1]));
      for (size_t l = 0; l < sh[0]; ++l) for (size_t p = 0; p < sh[1]; ++p) for (size_t e = 0; e < sh[2]; ++e) {
        cd c = m[i].GetElem({l, p, e});
        if (c != cd(0)) for (size_t k = 0; k < w; ++k) q[l][p * w + k] += c * r[e][k];
      }
      r.swap(q);
      // orthonormalise
      Dims Dr; Dr.d.assign(D.d.begin() + (long) i, D.d.end());
      std::vector<F> got;
      std::vector<Q> qs;       // charge of every bond state
      for (auto &x : r) {
        double big = maxabs(x);
        bool set = false; Q c;
        if (big > 1e-12) for (size_t o = 0; o < x.size(); ++o) if (std::abs(x[o]) > 1e-9 * big) { auto g = Dr.cfg(o); c = sv.sites[i].QnAt(g[0]); for (size_t j = 1; j < g.size(); ++j) c = c + sv.sites[i + j].QnAt(g[j]); set = true; break; }
        if (!set) { fragile = "a bond state of the start vanishes"; continue; }
        qs.push_back(c);
        Vec y = scalev(1 / nrm(x), x);
        for (int rep = 0; rep < 2; ++rep) for (auto &z : got) y = addv(1, y, -dot(z.v, y), z.v);
        double ny = nrm(y);
        if (ny > 1e-9 && ny < 1e-4) fragile = "nearly dependent bond states";
        if (ny > 1e-9) got.push_back({c, scalev(1 / ny, y)});
      }
      // every block of the tensor must have full rank, else the factorisation is free to add what it likes
      R[i + 1].size();
      auto wide = wide_r(i);
      for (auto &c : qs) {
        size_t rows = 0, cols = 0, rank = 0;
        for (auto &x : qs) rows += x == c;
        for (auto &x : wide) cols += x.q == c;
        for (auto &x : got) rank += x.q == c;
        if (rank != std::min(rows, cols)) fragile = "rank-deficient start";
      }
      R[i] = got;
      if (i >= 2) complete &= got.size() >= need(i, false);
      if (i > canon_from && r.size() != got.size()) fragile = "redundant bond";
    }
  }
  // the spaces of the sites before / from `cut` that can occur at the total charge
  size_t need(size_t cut, bool left) const {
    size_t right = 1; for (size_t i = cut; i < n; ++i) right *= D.d[i];
    std::set<size_t> x;
    for (auto o : sector(sv, tot)) x.insert(left ? o / right : o % right);
    return x.size();
  }
  bool complete = true;         // no pair was ever restricted to a part of the space
  void evolve(const std::vector<F> &l, const std::vector<F> &r, double delta) {
    std::vector<Vec> f;
    for (auto &a : l) for (auto &b : r) if (a.v.size() == 1 ? b.q == tot : b.v.size() == 1 ? a.q == tot : Q(a.q + b.q) == tot) f.push_back(joint(a.v, b.v));
    Mat A = project(H, f);
    hermitise(A);
    Vec c(f.size());
    for (size_t i = 0; i < c.size(); ++i) c[i] = dot(f[i], v);
    c = expmv(A, c, delta);
    Vec x(v.size());
    for (size_t i = 0; i < c.size(); ++i) x = addv(1, x, c[i], f[i]);
    v = x;
  }
  void split(size_t cut, bool right) {      // cut the pair around it; right: moving right, left frames are renewed
    auto l = wide_l(cut), r = wide_r(cut);
    struct Item { double s; size_t b, k; };
    std::vector<Item> it;
    struct B { Q q, qr; std::vector<size_t> rows, cols; std::vector<double> s; std::vector<Vec> u, w; };
    std::vector<B> bs;
    for (size_t i = 0; i < l.size(); ++i) {
      size_t k = 0; while (k < bs.size() && !(bs[k].q == l[i].q)) ++k;
      if (k == bs.size()) { B x; x.q = l[i].q; x.qr = tot - l[i].q; bs.push_back(x); }
      bs[k].rows.push_back(i);
    }
    Vec w;
    double big = 0, total = 0;
    for (size_t k = 0; k < bs.size(); ++k) {
      auto &x = bs[k];
      for (size_t j = 0; j < r.size(); ++j) if (r[j].q == x.qr) x.cols.push_back(j);
      if (x.cols.empty()) continue;
      dense_svd(x.rows.size(), x.cols.size(), [&](size_t i, size_t j) { return dot(joint(l[x.rows[i]].v, r[x.cols[j]].v), v); }, x.s, x.u, x.w);
      for (size_t j = 0; j < x.s.size(); ++j) { it.push_back({x.s[j], k, j}); big = std::max(big, x.s[j]); total += x.s[j] * x.s[j]; }
    }
    for (auto &x : it) if (x.s < 1e-5 * big) fragile = "vanishing Schmidt value";
    std::stable_sort(it.begin(), it.end(), [](const Item &a, const Item &b) { return a.s > b.s; });
    // as many as Dmax allows, and the smallest number (at least Dmin) that keeps the discarded weight below the error
    size_t keep = std::min(it.size(), dmax);
    double lost = 0;
    for (size_t i = keep; i < it.size(); ++i) lost += it[i].s * it[i].s / total;
    while (keep > std::max<size_t>(dmin, 1)) {
      double x = lost + it[keep - 1].s * it[keep - 1].s / total;
      if (trunc > 0 && std::abs(x - trunc) < 1e-5 * trunc) fragile = "discarded weight close to the limit";
      if (x > trunc) break;
      lost = x; --keep;
    }
    if (keep < it.size() && it[keep - 1].s - it[keep].s < 1e-5 * big) fragile = "degenerate Schmidt values at the cut";
    Cut rec{right ? cut - 1 : cut, keep, lost, {}};
    for (size_t i = 0; i < keep; ++i) rec.s.push_back(it[i].s);
    cuts.push_back(rec);
    Vec x(v.size());
    std::vector<F> nl, nr;
    for (size_t i = 0; i < keep; ++i) {
      auto &b = bs[it[i].b];
      size_t k = it[i].k;
      Vec a(l[0].v.size()), c(r[0].v.size());
      for (size_t j = 0; j < b.rows.size(); ++j) a = addv(1, a, b.u[k][j], l[b.rows[j]].v);
      for (size_t j = 0; j < b.cols.size(); ++j) c = addv(1, c, b.w[k][j], r[b.cols[j]].v);
      x = addv(1, x, b.s[k], joint(a, c));
      nl.push_back({b.q, a});
      nr.push_back({b.qr, c});
    }
    v = x;
    if (right) L[cut] = nl; else R[cut] = nr;
    if (right && cut + 2 <= n) complete &= nl.size() >= need(cut, true);
    if (!right && cut >= 2) complete &= nr.size() >= need(cut, false);
  }
  double keep_norm = 0;      // the distributed evolution restores the norm before every pair but the last
  void restore() { if (keep_norm) v = scalev(keep_norm / nrm(v), v); }
  void step(double tau) {
    for (size_t i = 0; i + 2 < n; ++i) {
      restore();
      evolve(wide_l(i + 1), wide_r(i + 1), tau / 2); split(i + 1, true);
      evolve(wide_l(i + 2), R[i + 2], -tau / 2);
    }
    for (size_t i = n - 1; i > 1; --i) {
      restore();
      evolve(wide_l(i), wide_r(i), i == n - 1 ? tau : tau / 2); split(i, false);
      evolve(wide_l(i), R[i], -tau / 2);
    }
    evolve(wide_l(1), wide_r(1), tau / 2); split(1, true);
  }
};

}  // namespace tn
