// C19 ground-state Lanczos solver, C21 two-site, C22 noised and single-site variational optimisation; against dense
// diagonalisation.
#include "gs.h"
using namespace tn;

// ------------------------------------------------------------------ C19
template<typename E, typename Q> void p_lanczos(Src &s) {
  using T = QLTensor<E, Q>;
  auto sv = gen_sites<E, Q>(s, 2, 5, s.flip(), 90);
  Dims D = dims_of(sv);
  size_t n = sv.size;
  auto h = gen_ham(s, sv);
  bool two = s.chance(2, 3);
  size_t a = s.below(two ? n - 1 : n), b = two ? a + 1 : a;
  FiniteMPS<E, Q> mps(sv);
  bool full = s.flip();
  if (full) {
    std::vector<size_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = s.below(D.d[i]);
    mps = full_mps(s, sv, charge(sv, c), (int) s.below(3));
  } else mps = gen_mps<E, Q>(s, sv);
  if (nrm(dense(mps)) < 1e-6) throw pbt::Discard();
  mps.Centralize(a);
  double err = std::pow(10.0, -(double) s.range(1, 12));
  size_t maxit = s.chance(1, 2) ? 60 : (size_t) s.range(1, 12);
  s.note << ename<E>() << " " << qname<Q>() << ", " << show(sv) << ", " << h.terms << " terms, sites " << a << ".." << b << ", " << show_bonds(mps) << ", error " << err << ", at most " << maxit << " iterations";
  // environments as the sweeps build them
  std::vector<T> env;
  T l({InverseIndex(InverseIndex(mps[0].GetIndexes()[0])), InverseIndex(h.mpo[0].GetIndexes()[0]), InverseIndex(mps[0].GetIndexes()[0])});
  l({0, 0, 0}) = 1;
  for (size_t i = 0; i < a; ++i) l = UpdateSiteLenvs(l, mps[i], h.mpo[i]);
  T r({mps[n - 1].GetIndexes()[2], InverseIndex(h.mpo[n - 1].GetIndexes()[3]), InverseIndex(mps[n - 1].GetIndexes()[2])});
  r({0, 0, 0}) = 1;
  for (size_t i = n - 1; i > b; --i) r = UpdateSiteRenvs(r, mps[i], h.mpo[i]);
  std::vector<T *> eff = {&l, &h.mpo[a]};
  if (two) eff.push_back(&h.mpo[b]);
  eff.push_back(&r);
  auto f = frame(mps, a, b);
  Mat A = project(h.H, f);
  hermitise(A);
  auto *st = new T;
  if (two) Contract(&mps[a], &mps[b], {{2}, {0}}, st); else *st = mps[a];
  Vec v0 = vec_of(*st);
  size_t dim = v0.size();
  PBT_REQUIRE(dim == A.n, "the state of the effective problem has " << dim << " elements, expected " << A.n);
  auto mult = two ? &eff_ham_mul_two_site_state<E, Q> : &eff_ham_mul_single_site_state<E, Q>;
  double scale = std::max(1.0, fro(A));
  {   // the effective Hamiltonian itself
    T *hv = mult(eff, st);
    Vec want = tn::apply(A, v0);
    double d = maxdiff(vec_of(*hv), want);
    PBT_REQUIRE(d < 1e-9 * scale * std::max(1.0, nrm(v0)), "effective Hamiltonian times state differs from the projected Hamiltonian by " << d);
    delete hv;
  }
  check_lanczos<E, Q>(s, A, st, err, maxit, [&](T *x) { return LanczosSolver(eff, x, mult, LanczosParams(err, maxit)); });
}

// ------------------------------------------------------------------ C22: what the noise adds
// (called only where functions of these names and arguments exist)
template<typename... A> auto two_expand(int, A &&...a) -> decltype(TwoSiteFiniteVMPSExpand(std::forward<A>(a)...), bool()) { TwoSiteFiniteVMPSExpand(std::forward<A>(a)...); return true; }
template<typename... A> bool two_expand(long, A &&...) { return false; }
template<typename... A> auto one_expand(int, A &&...a) -> decltype(SingleSiteFiniteVMPSExpand(std::forward<A>(a)...), bool()) { SingleSiteFiniteVMPSExpand(std::forward<A>(a)...); return true; }
template<typename... A> bool one_expand(long, A &&...) { return false; }
template<typename E, typename Q> void p_expand(Src &s) {
  using T = QLTensor<E, Q>;
  auto c = gen_expand<E, Q>(s, s.chance(2, 3), true);
  auto *vec = c.vec();
  check_expand<E, Q>(s, c.mps, c.h.mpo, c.a, c.b, c.right, c.noise, vec, [&](FiniteMPS<E, Q> &mps, T *v) {
    std::vector<T *> eff = {&c.l, &c.h.mpo[c.a]};
    if (c.b > c.a) eff.push_back(&c.h.mpo[c.b]);
    eff.push_back(&c.r);
    T res;
    if (c.b > c.a) {
      if (!two_expand(0, mps, v, eff, c.right ? 'r' : 'l', c.right ? c.a : c.b, c.noise)) throw pbt::Discard();
      res = *v;
    } else {
      mps.dealloc(c.a);
      if (!one_expand(0, mps, v, eff, c.right ? 'r' : 'l', c.a, c.noise)) throw pbt::Discard();
      res = mps[c.a];
    }
    delete v;
    return res;
  });
}

// ------------------------------------------------------------------ C21, C22
template<typename E, typename Q> void p_two_site(Src &s) {
  auto u = setup<E, Q>(s, 6, 100);
  auto p = para(s, u.full);
  int center = (int) s.below(2);
  size_t k = (size_t) s.big(1, 3, 9);
  store(u, center, u.mps_path);
  int again = (int) s.weighted({2, 1, 1});
  size_t k2 = again ? (size_t) s.big(1, 2, 5) : 0;
  s.note << ", center " << center << ", " << k << " sweeps" << (again == 1 ? ", continued for " : again == 2 ? ", restarted without environments for " : "") << (again ? std::to_string(k2) : "");
  FiniteVMPSSweepParams sp(k, p.dmin, p.dmax, p.trunc, LanczosParams(p.lerr, p.lit), u.mps_path, u.temp_path);
  FiniteVMPSSweepParams zero(k, p.dmin, p.dmax, p.trunc, LanczosParams(p.lerr, p.lit), s.flip() ? SV{} : SV{0.0, 0.0}, 1.0, 1.02, 0.95, 0.3, u.mps_path, u.temp_path);
  int way = (int) s.weighted({8, 1, 1});    // plain, vanishing noises, the noised algorithm called without noises
  if (way == 2) zero.noises.clear();
  double e;
  auto files = [&](const std::string &w) {
    std::vector<std::string> want = {GenEnvTenName("l", 0, u.temp_path)};
    for (size_t i = 0; i + 1 < u.n; ++i) want.push_back(GenEnvTenName("r", (long) i, u.temp_path));
    for (auto &f : want) PBT_REQUIRE(std::filesystem::exists(f), w << ": " << f << ", needed to continue, is missing");
  };
  FiniteMPS<E, Q> mps(u.sv);
  { Quiet q; e = way == 2 ? TwoSiteFiniteVMPSWithNoise(mps, u.h.mpo, zero) : TwoSiteFiniteVMPS(mps, u.h.mpo, way == 1 ? zero : sp); }
  PBT_REQUIRE(mps.empty(), "tensors were left in memory");
  files("after the sweeps");
  Vec v = inspect(u, u.mps_path, 1, p.dmax, e, p.lossless, "after " + std::to_string(k) + " sweeps");
  check_truncation(u, v, read_mps(u.sv, u.mps_path)[1].GetShape()[2], 1, p.dmin, p.dmax, p.trunc, "after the sweeps");
  double tol = 1e-7 * u.scale;
  if (p.lossless) {
    PBT_REQUIRE(e <= u.e_init + tol, "energy " << e << " above that of the initial state " << u.e_init);
    if (p.tight) {
      double r = residual(u, u.mps_path, 1, 2, e);
      PBT_REQUIRE(r < 3e-4 * u.scale, "the state does not solve the eigenvalue problem of sites 1 and 2, residual " << r);
    }
    if (u.full && p.tight) s.label(e < u.w[0] + 1e-6 * u.scale ? "reached E0" : "not reached E0");
  }
  if (p.lossless && p.tight && !again && s.flip()) {      // at a fixed point of the sweep every pair of sites is optimal
    double last = e;
    sp.sweeps = 1;
    bool fixed = false;
    for (int t = 0; t < 12 && !fixed; ++t) {
      Quiet q;
      e = TwoSiteFiniteVMPS(mps, u.h.mpo, sp);
      fixed = std::abs(e - last) < 1e-10 * u.scale;
      last = e;
    }
    if (fixed) {
      Vec x = dense(read_mps(u.sv, u.mps_path));
      for (size_t i = 0; i + 1 < u.n; ++i) {
        double r = support_residual(u.D, u.h.H, x, i, i + 1, e);
        PBT_REQUIRE(r < 1e-3 * u.scale, "sweeps change nothing any more, but sites " << i << " and " << i + 1 << " are not optimal, residual " << r);
      }
      s.label("fixed point of the sweeps");
    } else s.label("not converged after 12 sweeps");
    if (u.full) s.label(e < u.w[0] + 1e-6 * u.scale ? "reached E0" : "not reached E0");
  }
  if (again) {
    std::string full_path = "ref_state", full_temp = "ref_work";
    store(u, center, full_path);
    FiniteMPS<E, Q> m2(u.sv);
    double er, ec;
    { Quiet q; er = TwoSiteFiniteVMPS(m2, u.h.mpo, FiniteVMPSSweepParams(k + k2, p.dmin, p.dmax, p.trunc, LanczosParams(p.lerr, p.lit), full_path, full_temp)); }
    if (again == 2) std::filesystem::remove_all(u.temp_path);
    sp.sweeps = k2;
    { Quiet q; ec = TwoSiteFiniteVMPS(mps, u.h.mpo, sp); }
    files("after continuing");
    Vec a = inspect(u, u.mps_path, 1, p.dmax, ec, p.lossless, "after continuing"), b = dense(read_mps(u.sv, full_path));
    PBT_REQUIRE(std::abs(er - ec) < 1e-6 * u.scale, "energy " << ec << " when continued, " << er << " in one run");
    if (p.tight || again == 1) {
      double ov = std::abs(dot(a, b)) / nrm(a) / nrm(b);
      if (again == 1) PBT_REQUIRE(ov > 1 - 1e-6, "continuing gave another state than one run, overlap " << ov);
    }
    if (p.lossless) PBT_REQUIRE(ec <= e + tol, "energy rose from " << e << " to " << ec);
    s.label("continued");
  }
  s.nontrivial(u.n >= 4 && u.sec.size() >= 4);
}

template<typename E, typename Q> void p_boundary(Src &s) {
  auto u = setup<E, Q>(s, 7, 260);
  size_t dmax = s.chance(1, 4) ? 100000 : (size_t) s.range(1, 12);
  store(u, 0, u.mps_path);
  s.note << ", Dmax " << dmax;
  FiniteMPS<E, Q> mps(u.sv);
  std::pair<size_t, size_t> lr;
  { Quiet q; lr = CheckAndUpdateBoundaryMPSTensors(mps, u.mps_path, dmax); }
  PBT_REQUIRE(mps.empty(), "tensors were left in memory");
  auto fin = read_mps(u.sv, u.mps_path);
  Vec a = dense(u.start), b = dense(fin);
  double d = maxdiff(a, b);
  PBT_REQUIRE(d < 1e-9 * std::max(1.0, nrm(a)), "the state changed by " << d);
  size_t lb = lr.first, rb = lr.second, lm = (u.n - 1) / 2, rm = u.n / 2;
  PBT_REQUIRE(lb < lm && rb > rm && rb < u.n, "boundaries " << lb << ", " << rb << " of " << u.n << " sites");
  for (size_t i = 0; i <= lb; ++i) {
    auto sh = fin[i].GetShape();
    PBT_REQUIRE(left_defect(fin[i]) < 1e-8, "tensor " << i << " is not left canonical");
    if (i < lb) PBT_REQUIRE(sh[0] * sh[1] <= dmax && sh[2] == sh[0] * sh[1], "tensor " << i << " outside the boundaries has shape " << sh[0] << "," << sh[1] << "," << sh[2]);
    if (i == lb && i + 1 < lm) PBT_REQUIRE(sh[0] * sh[1] > dmax, "left boundary " << lb << " although " << sh[0] << "x" << sh[1] << " fits");
  }
  for (size_t i = rb; i < u.n; ++i) {
    auto sh = fin[i].GetShape();
    PBT_REQUIRE(right_defect(fin[i]) < 1e-8, "tensor " << i << " is not right canonical");
    if (i > rb) PBT_REQUIRE(sh[1] * sh[2] <= dmax && sh[0] == sh[1] * sh[2], "tensor " << i << " outside the boundaries has shape " << sh[0] << "," << sh[1] << "," << sh[2]);
    if (i == rb && i > rm + 1) PBT_REQUIRE(sh[1] * sh[2] > dmax, "right boundary " << rb << " although " << sh[1] << "x" << sh[2] << " fits");
  }
  for (size_t i = lb + 2; i < rb; ++i) PBT_REQUIRE(right_defect(fin[i]) < 1e-8, "tensor " << i << " between the boundaries is not right canonical");
  s.nontrivial(u.n >= 5);
}

template<typename E, typename Q> void p_noise(Src &s) {
  bool single = s.flip();
  auto u = setup<E, Q>(s, 6, 100, single ? 2 : 3);
  auto p = para(s, u.full);
  SV noises;
  for (size_t i = (size_t) s.big(single ? 0 : 1, 3, 8); i; --i) noises.push_back(s.chance(1, 4) ? 0.0 : std::pow(10.0, -(double) s.range(p.lossless ? 0 : 3, 6)));
  bool any = false; for (auto x : noises) any |= x != 0;
  if (!single && !any) noises[0] = 1e-3, any = true;
  size_t k = (size_t) s.big(1, 3, 9);
  s.note << (single ? ", single-site, " : ", two-site, ") << k << " sweeps, noises";
  for (auto x : noises) s.note << " " << x;
  store(u, 0, u.mps_path, single || s.flip());     // single-site expansion fuses legs, which must have one direction
  double maxn = s.chance(1, 3) ? 0.05 : 1.0, inc = s.chance(1, 3) ? 2.0 : 1.02, dec = s.chance(1, 3) ? 0.3 : 0.95;
  auto mkp = [&](size_t sweeps, const std::string &mp, const std::string &tp) { return FiniteVMPSSweepParams(sweeps, p.dmin, p.dmax, p.trunc, LanczosParams(p.lerr, p.lit), noises, maxn, inc, dec, 0.3, mp, tp); };
  auto limit = [&] {
    if (!p.lossless) p.dmax = (size_t) s.range(1, 8);      // the noise fills up the bonds beyond the rank of the state
    p.dmin = std::min(p.dmin, p.dmax);
  };
  double tol = 1e-7 * u.scale, last = u.e_init;
  FiniteMPS<E, Q> mps(u.sv);
  size_t stages = s.chance(1, 2) ? 1 : (size_t) s.big(2, 4, 8), lastd = p.dmax, lastc = 0;
  bool moved = false;
  for (size_t st = 0; st < stages; ++st) {
    std::string what = "stage " + std::to_string(st);
    if (st) {          // go on with the same files
      limit();
      k = (size_t) s.range(1, 2);
      noises = {};
      if (!single || s.flip()) noises = {s.chance(1, 3) ? 1e-5 : 1e-3};
      any = !noises.empty();
      bool drop = s.chance(1, 4);
      if (!single) {      // the center must not lie beyond the left boundary + 1; a lower bond limit can move that to the left
        auto cur = read_mps(u.sv, u.mps_path);
        size_t lm = (u.n - 1) / 2, lb = lm - 1, D = 1;
        for (size_t i = 0; i < lm; ++i) { D *= u.D.d[i]; if (D > p.dmax) { lb = i; break; } }
        if (lb + 1 < lastc) { cur.Centralize(0); cur.Dump(u.mps_path, true); drop = true; s.note << " centered"; }
      }
      if (drop) std::filesystem::remove_all(u.temp_path);
      s.note << "; continued " << (drop ? "without" : "with") << " environments for " << k << " sweeps, Dmax " << p.dmax;
      if (!single && !drop && s.chance(1, 3)) { lose_files(s, u.temp_path); s.label("lost environments"); }      // they are made again
      s.label("continued");
    } else s.note << ", Dmax " << p.dmax;
    moved |= p.dmax != lastd; lastd = p.dmax;
    auto sp = mkp(k, u.mps_path, u.temp_path);
    PBT_REQUIRE(sp.noise_valid == any, "noise_valid is " << sp.noise_valid);
    double e;
    { Quiet q; e = single ? SingleSiteFiniteVMPS(mps, u.h.mpo, sp) : TwoSiteFiniteVMPS(mps, u.h.mpo, sp); }
    PBT_REQUIRE(mps.empty(), "tensors were left in memory");
    // the bonds outside the boundaries are as wide as fits; the center ends at left_boundary + 1
    auto fin = read_mps(u.sv, u.mps_path);
    size_t center = 0;
    if (!single) {
      lastc = center = left_boundary(u.D, p.dmax) + 1;
    }
    Vec v = inspect(u, u.mps_path, center, p.dmax, e, p.lossless, what, !single);
    if (!single) check_truncation(u, v, fin[center].GetShape()[2], center, p.dmin, p.dmax, p.trunc, what, any ? 3e-3 : 1e-9);
    if (p.lossless) PBT_REQUIRE(e <= last + tol, what << ": energy " << e << " above that of the state it started from " << last);
    last = e;
    if (p.lossless && p.tight && (noises.empty() || noises[std::min(k, noises.size()) - 1] == 0)) {
      double r = single ? residual(u, u.mps_path, u.n > 1 ? 1 : 0, 1, e) : residual(u, u.mps_path, center, center + 1, e);
      PBT_REQUIRE(r < 3e-4 * u.scale, what << ": the state does not solve the last eigenvalue problem, residual " << r);
    }
    if (!st && single && !any) for (size_t i = 0; i + 1 < u.n; ++i) PBT_REQUIRE(fin[i].GetShape()[2] <= u.start[i].GetShape()[2], "bond " << i << " grew without noise");
  }
  if (moved) s.label("bond limit changed between stages");
  s.nontrivial(u.n >= 4 && u.sec.size() >= 4 && any);
}

// whether every quantum number of the second list occurs in the first (decides where noise is added)
template<typename Q> void p_covered(Src &s) {
  auto gen = [&] {
    QNSectorVec<Q> v;
    for (size_t k = (size_t) s.big(1, 6, 30); k; --k) {
      Q q = MkQ<Q>::gen(s);
      if (s.flip()) q = q + MkQ<Q>::gen(s);
      bool has = false;
      for (auto &x : v) has |= x.GetQn() == q;
      if (!has) v.push_back(QNSector<Q>(q, (size_t) s.range(1, 3)));
    }
    return v;
  };
  auto a = gen(), b = gen();
  if (s.flip()) { b.clear(); for (auto i : s.perm(a.size())) if (b.empty() || s.flip()) b.push_back(QNSector<Q>(a[i].GetQn(), 1)); }
  bool want = true;
  for (auto &x : b) { bool has = false; for (auto &y : a) has |= y.GetQn() == x.GetQn(); want &= has; }
  for (auto &x : a) s.note << x.GetQn().Str() << " ";
  s.note << "cover";
  for (auto &x : b) s.note << " " << x.GetQn().Str();
  PBT_REQUIRE(IsQNCovered(a, b) == want, "IsQNCovered gives " << !want);
  s.nontrivial(a.size() >= 3 && b.size() >= 2);
}

int main(int argc, char **argv) {
  pbt::want_scratch() = true;
  return pbt::main_(argc, argv, {
      {"C19", "lanczos", TN_DISPATCH(p_lanczos), 12000, 200000},
      {"C21", "two_site", TN_DISPATCH(p_two_site), 3000, 40000},
      {"C22", "boundary", TN_DISPATCH(p_boundary), 6000, 60000},
      {"C22", "covered", [](Src &s) { if (s.flip()) p_covered<U1>(s); else p_covered<U1U1>(s); }, 20000, 200000},
      {"C22", "expand", TN_DISPATCH(p_expand), 6000, 100000},
      {"C22", "noise", TN_DISPATCH(p_noise), 3000, 40000},
  });
}
