// C17 algebra and compression of finite MPOs, C18 exponential of an MPO; against dense matrices.
#include "ten.h"
#include "qlmps/algorithm/vmps/vmps_all.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h"
using namespace tn;

template<typename E, typename Q> const FiniteMPO<E, Q> &c_(const FiniteMPO<E, Q> &m) { return m; }
template<typename E, typename Q> double mpo_defect(const QLTensor<E, Q> &t, bool left) {
  auto sh = t.GetShape();
  double m = 0;
  size_t D = left ? sh[3] : sh[0];
  for (size_t a = 0; a < D; ++a) for (size_t b = 0; b < D; ++b) {
    cd s = 0;
    for (size_t x = 0; x < (left ? sh[0] : sh[3]); ++x) for (size_t i = 0; i < sh[1]; ++i) for (size_t o = 0; o < sh[2]; ++o)
      s += left ? std::conj(cd(t.GetElem({x, i, o, a}))) * cd(t.GetElem({x, i, o, b})) : std::conj(cd(t.GetElem({a, i, o, x}))) * cd(t.GetElem({b, i, o, x}));
    double d = std::abs(s - cd(a == b ? 1 : 0)); if (!(d <= m)) m = d != d ? 1e300 : d;
  }
  return m;
}
template<typename E, typename Q> void flags(const FiniteMPO<E, Q> &m, const std::string &w) {
  int c = m.GetCenter(), n = (int) m.size();
  auto ty = m.GetTensCanoType();
  PBT_REQUIRE((int) ty.size() == n, w << ": " << ty.size() << " canonical types for " << n << " tensors");
  PBT_REQUIRE(c == -1 || (c >= 0 && c < n), w << ": center " << c);
  for (int i = 0; i < n; ++i) {
    PBT_REQUIRE(ty[i] == m.GetTenCanoType(i), w << ": the flag getters disagree");
    if (ty[i] == MPSTenCanoType::LEFT || (c >= 0 && i < c)) PBT_REQUIRE(mpo_defect(m[i], true) < 1e-8, w << ": tensor " << i << " counts as left canonical but is not (center " << c << ")");
    if (ty[i] == MPSTenCanoType::RIGHT || (c >= 0 && i > c)) PBT_REQUIRE(mpo_defect(m[i], false) < 1e-8, w << ": tensor " << i << " counts as right canonical but is not (center " << c << ")");
  }
}
template<typename E, typename Q> std::string bonds(const FiniteMPO<E, Q> &m) {
  std::ostringstream os;
  for (size_t i = 0; i + 1 < m.size(); ++i) os << (i ? "," : "") << m[i].GetShape()[3];
  return os.str();
}
static double mdiff(const Mat &a, const Mat &b) { return maxdiff(a.a, b.a); }
static cd tr(const Mat &a) { cd t = 0; for (size_t i = 0; i < a.n; ++i) t += a(i, i); return t; }
static cd inner(const Mat &a, const Mat &b) { return dot(a.a, b.a); }
// the operator as a vector over the per-site pairs (out, in)
static Vec opvec(const Dims &D, const Mat &m, Dims &D2) {
  D2.d.clear();
  for (auto d : D.d) D2.d.push_back(d * d);
  Vec v(m.a.size());
  for (size_t o = 0; o < m.n; ++o) {
    auto co = D.cfg(o);
    for (size_t i = 0; i < m.n; ++i) {
      if (m(o, i) == cd(0)) continue;
      auto ci = D.cfg(i);
      size_t x = 0;
      for (size_t k = 0; k < D.d.size(); ++k) x = x * D.d[k] * D.d[k] + co[k] * D.d[k] + ci[k];
      v[x] = m(o, i);
    }
  }
  return v;
}
// one tensor charged: apply a local operator of charge q on the output of a site
template<typename E, typename Q> void charge_it(Src &s, FiniteMPO<E, Q> &m, const SiteVec<E, Q> &sv) {
  size_t k = s.below(m.size());
  auto &x = sv.sites[k];
  Mat op;
  if (!gen_opmat<E, Q>(s, x, x.QnAt(s.below(x.dim())) - x.QnAt(s.below(x.dim())), op)) return;
  auto t = op_from<E, Q>(x, op);
  QLTensor<E, Q> r;
  Contract(&c_(m)[k], &t, {{2}, {0}}, &r);
  r.Transpose({0, 1, 3, 2});
  m[k] = r;
  s.label("charged operator");
}
static const double kMax = 1e6, kMin = 1e-6;

template<typename E, typename Q> void p_algebra(Src &s) {
  using M = FiniteMPO<E, Q>;
  auto sv = gen_sites<E, Q>(s, 2, 5, s.flip(), 36, 3, 2);
  size_t n = sv.size;
  Dims D = dims_of(sv);
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "\n";
  struct Ent { M m; Mat d; bool charged; };
  std::vector<Ent> pool;
  size_t np = (size_t) s.range(2, 3);
  for (size_t i = 0; i < np; ++i) {
    Ent e{gen_mpo<E, Q>(s, sv), {}, false};
    if (i && s.chance(1, 5)) { charge_it(s, e.m, sv); e.charged = true; }
    e.d = dense_mpo(c_(e.m));
    pool.push_back(std::move(e));
  }
  size_t K = (size_t) s.big(2, 10, 24), alg = 0, cen = 0;
  for (size_t t = 0; t < K; ++t) {
    size_t ia = s.below(np), ib = s.below(np);
    Ent &a = pool[ia], &b = pool[ib];
    std::ostringstream w;
    size_t Da = c_(a.m).GetMaxBondDim(), Db = c_(b.m).GetMaxBondDim();
    switch (s.weighted({3, 2, 2, 2, 3, 2, 2, 2, 2, 1, 1, 2, 1, 2})) {
      case 0: {                               // a += b
        if (a.charged != b.charged || (a.charged && ia != ib) || Da + Db > 40) break;
        w << ia << " += " << ib; if (ia == ib) s.label("self addition");
        Mat want = axpy(1, a.d, b.d);
        a.m += b.m; a.d = want; ++alg; break;
      }
      case 1: {                               // c = a + b
        if (a.charged || b.charged || Da + Db > 40) break;
        size_t ic = s.below(np);
        w << ic << " = " << ia << " + " << ib;
        M r = c_(a.m) + b.m;
        PBT_REQUIRE(mdiff(dense_mpo(c_(a.m)), a.d) <= 1e-9 * (1 + fro(a.d)), "operator+ changed its left operand");
        Mat want = axpy(1, a.d, b.d);
        pool[ic] = Ent{r, want, false}; ++alg; break;
      }
      case 2: {
        E x = coef<E>(s, true);
        bool st = s.flip();
        w << (st ? "Scale " : "*= ") << ia << " by " << cd(x);
        int c0 = c_(a.m).GetCenter();
        if (st) a.m.Scale(x); else a.m *= x;
        PBT_REQUIRE(c_(a.m).GetCenter() == c0 || c_(a.m).GetCenter() == -1, "scaling moved the center");
        a.d = scaled(cd(x), a.d); ++alg; break;
      }
      case 3: {
        double x = s.pick(std::vector<double>{1, -1, 2, 0.5});
        w << "scale every tensor of " << ia << " by " << x;
        MpoAllScale(a.m, E(x)); a.d = scaled(std::pow(x, (double) n), a.d); break;
      }
      case 4: {                               // exact product
        if (Da * Db > 40) break;
        size_t ic = s.below(np);
        bool simple = s.flip();
        w << ic << " = " << ia << " * " << ib << (simple ? " (SimpleProduct)" : "");
        Mat want = mul(a.d, b.d);
        bool ch = a.charged || b.charged;
        if (simple) { M r = c_(a.m).SimpleProduct(b.m); pool[ic].m = r; }
        else if (ic != ia && ic != ib) { s.label("product into an operator in use"); MpoProduct(c_(a.m), c_(b.m), pool[ic].m); }
        else { M r(n); MpoProduct(c_(a.m), c_(b.m), r); pool[ic].m = r; }
        PBT_REQUIRE(pool[ic].m.size() == n, "the product has another length");
        pool[ic].d = want; pool[ic].charged = ch; ++alg; break;
      }
      case 5: { int c = (int) s.below(n); w << "centralize " << ia << " at " << c; a.m.Centralize(c);
        PBT_REQUIRE(a.m.GetCenter() == c, "Centralize(" << c << ") reports center " << a.m.GetCenter());
        for (int i = 0; i < (int) n; ++i) if (i != c) PBT_REQUIRE(a.m.GetTenCanoType(i) == (i < c ? MPSTenCanoType::LEFT : MPSTenCanoType::RIGHT), "Centralize(" << c << ") leaves tensor " << i << " without its canonical type");
        ++cen; break; }
      case 6: { size_t c = s.below(n - 1); w << "LeftCanonicalize " << ia << " to " << c; a.m.LeftCanonicalize(c); for (size_t i = 0; i <= c; ++i) PBT_REQUIRE(a.m.GetTenCanoType(i) == MPSTenCanoType::LEFT, "LeftCanonicalize left out tensor " << i); ++cen; break; }
      case 7: { size_t c = 1 + s.below(n - 1); w << "RightCanonicalize " << ia << " to " << c; a.m.RightCanonicalize(c); for (size_t i = c; i < n; ++i) PBT_REQUIRE(a.m.GetTenCanoType(i) == MPSTenCanoType::RIGHT, "RightCanonicalize left out tensor " << i); ++cen; break; }
      case 8: {
        cd want = tr(a.d), got = a.m.Trace();
        w << "Trace " << ia;
        PBT_REQUIRE(std::abs(want - got) <= 1e-9 * (1 + fro(a.d)), "Trace gives " << got << ", the trace is " << want); break;
      }
      case 9: {
        double f = fro(a.d);
        if (f < 1e-3) break;
        w << "Normalize " << ia;
        double r = a.m.Normalize();
        PBT_REQUIRE(std::abs(r - f) <= 1e-9 * (1 + f), "Normalize returns " << r << ", the norm was " << f);
        a.d = scaled(1 / f, a.d); break;
      }
      case 10: {
        w << "identity like " << ia;
        if (a.charged) break;
        M r = GenerateIdentityMPO(c_(a.m));
        PBT_REQUIRE(r.GetMaxBondDim() == 1, "the identity has bond dimension " << r.GetMaxBondDim());
        a.m = r; a.d = eye(D.total()); break;
      }
      case 11: {
        size_t ic = s.below(np);
        if (ic == ia) break;
        int k = (int) s.below(3);
        w << "copy " << ia << " to " << ic << " form " << k; s.label("copied");
        Mat d = a.d; bool ch = a.charged;
        if (k == 0) pool[ic].m = c_(a.m);
        else if (k == 1) { M x(c_(a.m)); int c0 = c_(x).GetCenter(); flags(x, "in a copy"); pool[ic].m = std::move(x); PBT_REQUIRE(c_(pool[ic].m).GetCenter() == c0, "moving lost the center"); }
        else { MPO<QLTensor<E, Q>> g = a.m; pool[ic].m = M(g); }
        pool[ic].d = d; pool[ic].charged = ch; break;
      }
      case 12: { size_t i = s.below(n); w << "modify tensor " << i << " of " << ia; a.m[i] *= E(2); a.d = scaled(2, a.d); break; }
      default: {
        if (fro(a.d) < 1e-6) break;
        w << "compress " << ia << " without loss"; s.label("lossless truncation");
        size_t d0 = Da;
        a.m.Truncate(1e-26, 1, 1000);
        PBT_REQUIRE(c_(a.m).GetMaxBondDim() <= std::max<size_t>(d0, 1), "truncation enlarged a bond");
        break;
      }
    }
    if (w.str().empty()) continue;
    s.note << w.str() << "\n";
    for (size_t i = 0; i < np; ++i) {
      const M &x = pool[i].m;
      Mat g = dense_mpo(x);
      double df = mdiff(g, pool[i].d);
      PBT_REQUIRE(df <= 1e-9 * (1 + fro(pool[i].d)), "after " << w.str() << " operator " << i << " differs from the expected one by " << df);
      flags(x, "after " + w.str());
      size_t mx = 1; for (size_t k = 0; k + 1 < n; ++k) mx = std::max(mx, x[k].GetShape()[3]);
      PBT_REQUIRE(x.GetMaxBondDim() == mx, "GetMaxBondDim gives " << x.GetMaxBondDim() << " instead of " << mx);
      double f = fro(pool[i].d);
      if (!(f < kMax && f > kMin)) { pool[i].m = gen_mpo<E, Q>(s, sv); pool[i].d = dense_mpo(c_(pool[i].m)); pool[i].charged = false; }
    }
  }
  s.nontrivial(alg >= 1 && alg + cen >= 3);
}

template<typename E, typename Q> void p_truncate(Src &s) {
  auto sv = gen_sites<E, Q>(s, 2, 5, s.flip(), 36, 3, 2);
  size_t n = sv.size;
  Dims D = dims_of(sv), D2;
  auto m = gen_mpo<E, Q>(s, sv, 4);
  if (s.chance(1, 5)) charge_it(s, m, sv);
  Mat d = dense_mpo(c_(m));
  double nn = fro(d);
  if (nn < 1e-6) throw pbt::Discard();
  Vec v = opvec(D, d, D2);
  static const double errs[] = {0, 1e-12, 1e-6, 1e-3, 1e-2, 0.1, 0.3};
  double eps = errs[s.below(7)];
  size_t dmin = (size_t) s.range(1, 3), dmax = s.chance(1, 3) ? 100 : dmin + s.below(3);
  if (s.flip()) m.Centralize((int) s.below(n));
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "; bonds " << bonds(m) << "; trunc_err " << eps << " D in [" << dmin << "," << dmax << "]\n";
  m.Truncate(eps, dmin, dmax);
  Mat g = dense_mpo(c_(m));
  flags(m, "after Truncate");
  double budget = 0, budget2 = 0;
  bool cut = false;
  for (size_t k = n - 1; k >= 1; --k) {
    size_t b = c_(m)[k].GetShape()[0];
    PBT_REQUIRE(b <= dmax, "bond " << k << " has dimension " << b << ", more than " << dmax);
    auto p = schmidt(D2, v, k);
    double tail = 0;
    for (size_t x = b; x < p.size(); ++x) tail += p[x];
    if (tail > 1e-13) cut = true;
    budget += tail;
    budget2 += b < dmax ? eps : tail;
    if (k == n - 1) {
      size_t rank = 0; for (auto x : p) if (x > 1e-11) ++rank;
      PBT_REQUIRE(b >= std::min(dmin, rank), "bond " << k << " was cut to " << b << " below the minimum " << dmin);
      if (b > dmin && b <= p.size()) { double t1 = 0; for (size_t x = b - 1; x < p.size(); ++x) t1 += p[x]; PBT_REQUIRE(t1 > eps * (1 - 1e-6) - 1e-13, "bond " << k << " keeps " << b << " although fewer would do for an error of " << eps); }
      if (b < dmax) PBT_REQUIRE(tail <= eps + 1e-11, "bond " << k << " was cut to " << b << " with error " << tail << " above the target " << eps);
    }
  }
  budget = std::min(budget, budget2);
  Mat df = axpy(-1, g, d);
  double e2 = std::pow(fro(df) / nn, 2), keep = std::pow(fro(g) / nn, 2);
  PBT_REQUIRE(e2 <= budget + 1e-9, "truncation changed the operator by " << e2 << " of its squared norm, the discarded weight is " << budget);
  PBT_REQUIRE(std::abs(e2 - (1 - keep)) <= 1e-9, "truncation is not an orthogonal projection: squared error " << e2 << ", lost squared norm " << 1 - keep);
  s.label(cut ? "weight discarded" : "exact");
  s.nontrivial(cut && n >= 3);
}

template<typename E, typename Q> void p_product(Src &s) {
  using M = FiniteMPO<E, Q>;
  auto sv = gen_sites<E, Q>(s, 3, 5, s.flip(), 36, 3, 1);
  size_t n = sv.size;
  Dims D = dims_of(sv), D2;
  M a = gen_mpo<E, Q>(s, sv), b = gen_mpo<E, Q>(s, sv);
  bool square = s.chance(1, 3);
  if (square) b = a;
  if (s.flip()) a.Centralize((int) s.below(n));
  Mat da = dense_mpo(c_(a)), db = dense_mpo(c_(b)), want = mul(da, db);
  double nn = fro(want);
  if (nn < 1e-4 * fro(da) * fro(db) || nn < 1e-6) throw pbt::Discard();
  M ex(n);
  MpoProduct(c_(a), c_(b), ex);
  ex.Truncate(1e-26, 1, 1000);
  size_t Dex = c_(ex).GetMaxBondDim();
  int init = (int) s.below(3);          // 0 nothing, 1 the exact product, 2 some operator
  size_t dmin = 1, dmax = s.flip() ? 200 : (size_t) s.range(1, std::max<size_t>(Dex, 2));
  double eps = s.chance(2, 3) ? 0 : s.pick(std::vector<double>{1e-10, 1e-4, 1e-2});
  size_t sweeps = (size_t) s.big(1, 5, 15);
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "; bonds " << bonds(a) << " times " << bonds(b) << "; exact " << Dex << "; initial " << (init == 0 ? "none" : init == 1 ? "exact" : "random") << "; eps " << eps << " Dmax " << dmax << " sweeps " << sweeps << (square ? "; Square\n" : "\n");
  M out(n);
  if (init == 1) out = ex; else if (init == 2) out = gen_mpo<E, Q>(s, sv, 3);
  double ov = 0;                        // overlap of the normalised initial operator with the product
  { Mat g = init == 0 ? da : dense_mpo(c_(out)); double f = fro(g); if (f < 1e-6) throw pbt::Discard(); ov = std::abs(inner(g, want)) / f; }
  if (ov < 1e-3 * nn) throw pbt::Discard();      // the documentation asks for a good initial operator
  s.label(init == 0 ? "no initial operator" : init == 1 ? "good initial operator" : "random initial operator");
  if (square) {
    s.label("Square");
    std::string p = "init";
    if (init) out.Dump(p); else p = "absent";
    MpoVOptimizeParams prm(p, dmin, dmax, eps, sweeps, 1e-13, "tmp");
    out = a;
    bool norm = s.flip();
    if (norm) {
      double r = out.SquareAndNormlize(prm), f = fro(dense_mpo(c_(out)));
      PBT_REQUIRE(std::abs(f - 1) < 1e-9, "SquareAndNormlize leaves norm " << f);
      out.Scale(E(r));
    } else out.Square(prm);
  } else {
    MpoProduct(c_(a), c_(b), out, dmin, dmax, eps, sweeps, 1e-13, std::string("tmp"));
    PBT_REQUIRE(mdiff(dense_mpo(c_(a)), da) == 0 && mdiff(dense_mpo(c_(b)), db) == 0, "the product changed a factor");
  }
  if (!square) PBT_REQUIRE(c_(out).GetCenter() == 1, "the documented center of the product is site 1, not " << c_(out).GetCenter());
  flags(out, "after the product");
  Mat g = dense_mpo(c_(out));
  for (size_t i = 0; i + 1 < n; ++i) PBT_REQUIRE(c_(out)[i].GetShape()[3] <= dmax, "bond " << i + 1 << " has dimension " << c_(out)[i].GetShape()[3] << ", more than " << dmax);
  double e2 = std::pow(fro(axpy(-1, g, want)) / nn, 2), keep = std::pow(fro(g) / nn, 2);
  PBT_REQUIRE(std::abs(e2 - (1 - keep)) <= 1e-8, "the compressed product is not an orthogonal projection of the product: squared error " << e2 << ", lost squared norm " << 1 - keep);
  Vec v = opvec(D, want, D2);
  double budget = 0, best = 0;
  for (size_t k = 1; k < n; ++k) { auto p = schmidt(D2, v, k); double t = 0; for (size_t x = dmax; x < p.size(); ++x) t += p[x]; budget += t; best = std::max(best, t); }
  PBT_REQUIRE(e2 >= best - 1e-9, "internal: better than the best possible approximation");
  if (eps == 0 && init == 1) PBT_REQUIRE(e2 <= budget + 1e-8, "started from the product, the compressed product misses " << e2 << " of its squared norm; the bond dimension " << dmax << " allows " << budget);
  if (eps == 0 && dmax == 200) PBT_REQUIRE(std::sqrt(keep) >= ov / nn - 1e-7, "without truncation the sweeps made the initial operator worse: overlap " << ov / nn << " before, " << std::sqrt(keep) << " after");
  if (e2 < 1e-9) s.label("exact result"); else s.label("inexact result");
  s.nontrivial(n >= 4 && Dex >= 3);
}

template<typename E, typename Q> void p_exp(Src &s) {
  using M = FiniteMPO<E, Q>;
  auto sv = gen_sites<E, Q>(s, 3, 5, s.flip(), 32, 3, 1);
  size_t n = sv.size;
  Dims D = dims_of(sv), D2;
  M h = gen_mpo<E, Q>(s, sv, s.flip() ? 1 : 2);
  Mat H = dense_mpo(c_(h));
  double f = fro(H) / std::sqrt((double) H.n);
  if (f < 1e-6) throw pbt::Discard();
  h.Scale(E(1 / f));
  if (s.flip()) h.Centralize((int) s.below(n));
  H = dense_mpo(c_(h));
  const double tau = s.pick(std::vector<double>{0.01, 1e-3, 0.1, 0.3, 1.0, 1e-7});
  size_t K = (size_t) s.big(1, 9, 24);
  double tol = s.pick(std::vector<double>{0, 1e-16, 1e-8, 1e-3});
  bool again = s.chance(1, 2);
  std::string prefix = s.flip() ? "mpo" : "data_", temp = s.flip() ? kRuntimeTempPath : "tmpdir";
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "; bonds of H " << bonds(h) << "; tau " << tau << " order " << K << " tolerance " << tol << (again ? "; repeated with the powers from disk as initial operators" : "") << "\n";
  // Taylor polynomials
  std::vector<Mat> P = {eye(H.n)};
  Mat T = eye(H.n);
  std::vector<double> ratio = {1};
  std::vector<size_t> rk;               // largest bond needed
  auto rank_of = [&](const Mat &m) { Vec v = opvec(D, m, D2); size_t r = 1; for (size_t k = 1; k < n; ++k) { size_t c = 0; for (auto x : schmidt(D2, v, k)) if (x > 1e-15) ++c; r = std::max(r, c); } return r; };
  size_t need = 1;
  for (size_t k = 1; k <= K; ++k) {
    T = scaled(cd(-tau / (double) k), mul(T, H));
    P.push_back(axpy(1, T, P.back()));
    ratio.push_back(std::abs(tr(T)) / (double) H.n);
    need = std::max(need, std::max(rank_of(T), rank_of(P.back())));
  }
  auto judge = [&](const std::pair<double, M> &r, const char *w, double acc, size_t dmax) {
    Mat g = dense_mpo(c_(r.second));
    PBT_REQUIRE(std::abs(fro(g) - 1) < 1e-9, w << ": the density matrix has norm " << fro(g));
    g = scaled(r.first, g);
    PBT_REQUIRE(c_(r.second).GetMaxBondDim() <= dmax, w << ": bond dimension " << c_(r.second).GetMaxBondDim() << ", more than " << dmax);
    flags(r.second, w);
    // the sum stops at the given order (exclusive or inclusive), or at the first even order below the tolerance
    double best = 1e300;
    std::string all;
    auto cmp = [&](size_t k) { double d = fro(axpy(-1, g, P[k])) / fro(P[k]); best = std::min(best, d); all += " " + std::to_string(k); };
    size_t stop = 0;
    for (size_t k = 2; k <= K && !stop; k += 2) {
      if (ratio[k] < tol * (1 - 1e-6)) stop = k;
      else if (ratio[k] < tol * (1 + 1e-6)) cmp(k);
    }
    if (stop) cmp(stop);
    if (!stop || stop >= K - 1) { cmp(K - 1); cmp(K); }
    PBT_REQUIRE(best <= acc, w << ": the result differs from the Taylor polynomial of order" << all << " by " << best << " (relative)");
    if (stop && stop < K - 1) s.label("stopped by tolerance");
  };
  size_t big = 100000;
  auto r = ExpFiniteMPO(c_(h), tau, K, tol, 0.0, (size_t) 1, big, (size_t) 3, 1e-13, prefix, temp);
  judge(r, "without compression", 1e-6, big);
  PBT_REQUIRE(mdiff(dense_mpo(c_(h)), H) == 0, "the Hamiltonian was changed");
  if (again) {
    size_t dmax = std::max<size_t>(need, 1) + s.below(4);
    s.label("powers compressed variationally");
    auto q = ExpFiniteMPO(c_(h), tau, K, tol, 0.0, (size_t) 1, dmax, (size_t) 6, 1e-13, prefix, temp);
    judge(q, "compressed, from the stored powers", 1e-5, dmax);
  }
  s.nontrivial(K >= 4 && need >= 3);
}
int main(int argc, char **argv) {
  pbt::want_scratch() = true;
  return pbt::main_(argc, argv, {
      {"C17", "algebra", TN_DISPATCH(p_algebra), 12000, 200000},
      {"C17", "truncate", TN_DISPATCH(p_truncate), 12000, 200000},
      {"C17", "product", TN_DISPATCH(p_product), 6000, 100000},
      {"C18", "exponential", TN_DISPATCH(p_exp), 2500, 40000},
  });
}
