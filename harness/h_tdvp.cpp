// C20 the solver for exp(-i delta H)v, C24 time-dependent variational evolution and the dynamic correlations it
// measures; against dense exponentials and a dense projector-splitting integrator.
#include "tdvp_ref.h"
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#ifdef TDVP_MPI       // C26, see h_mpi_tdvp.cpp
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#include "mpi_gen.h"
constexpr bool MPI = true;
#else
constexpr bool MPI = false;
#endif
using namespace tn;

// ------------------------------------------------------------------ C20
template<typename Q> void p_expmv(Src &s) {
  using E = cd;
  using T = QLTensor<E, Q>;
  auto sv = gen_sites<E, Q>(s, 2, MPI ? 7 : 5, s.flip(), MPI ? 130 : 90);
  Dims D = dims_of(sv);
  size_t n = sv.size;
  auto h = gen_ham(s, sv);
  bool two = MPI || s.chance(2, 3);
  size_t a = MPI && s.flip() ? std::min(n - 2, n / 2) : s.below(two ? n - 1 : n), b = two ? a + 1 : a;
  FiniteMPS<E, Q> mps(sv);
  if (s.flip()) {
    std::vector<size_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = s.below(D.d[i]);
    mps = full_mps(s, sv, charge(sv, c), (int) s.below(3));
  } else mps = gen_mps<E, Q>(s, sv);
  if (nrm(dense(mps)) < 1e-6) throw pbt::Discard();
  mps.Centralize(a);
  double err = std::pow(10.0, -(double) s.range(1, 13));
  size_t maxit = s.chance(1, 2) ? 60 : (size_t) s.range(1, 12);
  double delta = s.coef(true) * std::pow(10.0, -(double) s.range(0, 4));      // in units of the inverse energy scale
  s.note << qname<Q>() << ", " << show(sv) << ", " << h.terms << " terms, sites " << a << ".." << b << ", " << show_bonds(mps) << ", step " << delta << ", error " << err << ", at most " << maxit << " iterations";
  T l({InverseIndex(InverseIndex(mps[0].GetIndexes()[0])), InverseIndex(h.mpo[0].GetIndexes()[0]), InverseIndex(mps[0].GetIndexes()[0])});
  l({0, 0, 0}) = 1;
  for (size_t i = 0; i < a; ++i) l = UpdateSiteLenvs(l, mps[i], h.mpo[i]);
  T r({mps[n - 1].GetIndexes()[2], InverseIndex(h.mpo[n - 1].GetIndexes()[3]), InverseIndex(mps[n - 1].GetIndexes()[2])});
  r({0, 0, 0}) = 1;
  for (size_t i = n - 1; i > b; --i) r = UpdateSiteRenvs(r, mps[i], h.mpo[i]);
  std::vector<T *> eff = {&l, &h.mpo[a]};
  if (two) eff.push_back(&h.mpo[b]);
  eff.push_back(&r);
  Mat A = project(h.H, frame(mps, a, b));
  hermitise(A);
  auto *st = new T;
  if (two) Contract(&mps[a], &mps[b], {{2}, {0}}, st); else *st = mps[a];
  Vec v0 = vec_of(*st);
  size_t dim = v0.size();
  PBT_REQUIRE(dim == A.n, "the state of the effective problem has " << dim << " elements, expected " << A.n);
  double scale = std::max(1.0, fro(A));
  delta /= scale / 4;
  auto dv = Div(*st);
  std::vector<size_t> ix;
  for (size_t o = 0; o < dim; ++o) if (st->Flux(st->Coor(o)) == dv) ix.push_back(o);
  int start = (int) s.weighted({6, 2, 2});
  if (start) {       // an eigenvector, or a combination of two
    std::vector<Vec> ev;
    auto w = eigh(sub(A, ix), &ev);
    size_t k = s.below(w.size()), k2 = start == 2 ? s.below(w.size()) : k;
    double f = 0.5 + (double) s.below(4);
    for (size_t i = 0; i < ix.size(); ++i) { cd c = f * (ev[k][i] + (k2 == k ? cd(0) : 0.7 * ev[k2][i])); v0[ix[i]] = c; (*st)(st->Coor(ix[i])) = c; }
    s.label("invariant subspace as start");
    s.note << ", start from eigenvector" << (k2 == k ? " " : "s ") << k << " " << k2;
  }
  double nv = nrm(v0);
  if (nv < 1e-6) throw pbt::Discard();
  auto K = krylov(A, v0, std::min<size_t>(dim, maxit + 1), 1e-9 * scale);
  size_t kd = K.q.size();
  Mat T0 = project(A, K.q);
  hermitise(T0);
  auto factors = [&](size_t m) {     // exp(-i delta T_m) e_1
    Mat t(m);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) t(i, j) = T0(i, j);
    Vec e(m); e[0] = 1;
    return expmv(t, e, delta);
  };
#ifdef TDVP_MPI
  auto o = gen_world(s, 2);
  size_t tasks = l.GetIndexes()[0].GetQNSctNum();
  s.label(tasks > 2 * (size_t) (o.ranks - 1) ? "many tasks" : tasks >= (size_t) o.ranks ? "more tasks than workers" : "idle workers");
  ExpmvRes<T> res;
  {
    mpisim::World w(o);
    w.run([&](int rank) {
      auto mine = h.mpo;
      T l0, r0;
      std::vector<T *> e = {&l0, &mine[a], &mine[b], &r0};
      if (rank) { SlaveLanczosSolver<T>(e, MPI_COMM_WORLD); return; }
      l0 = l; r0 = r;
      res = MasterLanczosExpmvSolver(e, st, delta, LanczosParams(err, maxit), MPI_COMM_WORLD);
    });
    if (w.stats.choices) s.label("messages overtook");
  }
  v0 = scalev(1 / nv, v0);        // the distributed solver normalises its argument
  nv = 1;
#else
  auto mult = two ? &eff_ham_mul_two_site_state<E, Q> : &eff_ham_mul_single_site_state<E, Q>;
  auto res = LanczosExpmvSolver(eff, st, mult, delta, LanczosParams(err, maxit));
#endif
  std::unique_ptr<T> g(res.expmv);
  PBT_REQUIRE(g != nullptr, "no vector returned");
  s.note << ", Krylov dimension " << kd << ", iterations " << res.iters;
  PBT_REQUIRE(res.iters >= 1 && res.iters <= maxit, res.iters << " iterations, at most " << maxit << " allowed");
  bool near = false;
  for (size_t i = 0; i < kd; ++i) near |= K.off[i] > 1e-15 * scale && K.off[i] < 1e-4 * scale;
  if (near) s.label("nearly invariant subspace");
  double tol = near ? 0.02 : 1e-7;
  Vec gv = vec_of(*g);
  PBT_REQUIRE(gv.size() == dim, "the returned vector has another shape");
  for (size_t o = 0; o < dim; ++o) PBT_REQUIRE(gv[o] == cd(0) || g->Flux(g->Coor(o)) == dv, "the returned vector left the sector of the initial state");
  double ng = nrm(gv);
  PBT_REQUIRE(std::abs(ng - nv) < tol * nv, "the evolution changed the norm from " << nv << " to " << ng);
  double e0 = rayleigh(A, v0), e1 = rayleigh(A, gv);
  PBT_REQUIRE(std::abs(e0 - e1) < tol * scale, "the evolution changed the energy from " << e0 << " to " << e1);
  size_t m = std::min(res.iters, kd);
  Vec c = factors(m), want(dim);
  for (size_t j = 0; j < m; ++j) want = addv(1, want, nv * c[j], K.q[j]);
  double d = maxdiff(gv, want);
  PBT_REQUIRE(d < tol * nv, "the result differs by " << d << " from the exponential in the Krylov space of dimension " << m);
  auto dist = [&](size_t k) {       // change from dimension k-1 to k
    Vec x = factors(k), y = factors(k - 1);
    y.push_back(0);
    return nrm(addv(1, x, -1, y));
  };
  if (res.iters < maxit && res.iters < kd) PBT_REQUIRE(res.iters >= 2 && dist(res.iters) < err + 1e-9, "stopped although the last iteration changed the result by " << (res.iters < 2 ? 1.0 : dist(res.iters)));
  if (!near) for (size_t j = 3; j < m; ++j) PBT_REQUIRE(dist(j) > err - 1e-9, "went on after an iteration that changed the result by only " << dist(j));
  // the whole exponential once the Krylov space is complete or the tolerance is met in earnest
  bool complete = K.off.back() < 1e-9 * scale && res.iters >= kd;
  Vec ex = expmv(A, v0, delta);
  if (complete) PBT_REQUIRE(maxdiff(gv, ex) < tol * nv, "the result differs by " << maxdiff(gv, ex) << " from the exponential although the Krylov space is complete");
  else if (res.iters < maxit && err < 1e-6) { PBT_REQUIRE(maxdiff(gv, ex) < std::max(tol, 10 * err) * nv, "the result differs by " << maxdiff(gv, ex) << " from the exponential, tolerance " << err); }
  s.label(complete ? "complete Krylov space" : res.iters == maxit ? "iteration limit" : "converged");
  s.nontrivial(res.iters >= 3 && dim >= 6);
}

// ------------------------------------------------------------------ C24
extern "C" void zgesvd_(const char *, const char *, const int *, const int *, cd *, const int *, double *, cd *, const int *, cd *, const int *, cd *, const int *, double *, int *);
template<typename Q> void p_tdvp(Src &s) {
  using E = cd;
  using T = QLTensor<E, Q>;
  auto u = [&] {
    for (int t = 0;; ++t) {
      auto sv = gen_sites<E, Q>(s, 3, 6, true, 81, 3, 2);
      Dims D = dims_of(sv);
      Setup<E, Q> u{sv, D, sv.size, gen_ham(s, sv, 6), FiniteMPS<E, Q>(sv), Q(), {}, Mat(), {}, 0, 0, s.chance(2, 3), "", ""};
      if (u.full) {
        std::vector<size_t> c(u.n); for (size_t i = 0; i < u.n; ++i) c[i] = s.below(D.d[i]);
        u.start = full_mps(s, sv, charge(sv, c), (int) s.below(3));
      } else u.start = gen_mps<E, Q>(s, sv);
      if (nrm(dense(u.start)) < 1e-6) throw pbt::Discard();
      return u;
    }
  }();
  size_t n = u.n;
  auto &site = u.sv.sites[0];
  bool own = s.chance(1, 3);
  u.mps_path = own ? "state" : kMpsPath; u.temp_path = own ? "work" : kRuntimeTempPath;
  std::string ini = own ? "before" : "initial_" + kMpsPath, meas = own ? "measure_work" : ".measure_temp", out = own ? "dyn_x" : "dyn";
  size_t site0 = s.below(n), center = s.below(site0 + 1);
  u.start.Centralize((int) center);
  if (s.chance(1, 2)) u.start[center] *= 1 / u.start[center].Get2Norm();
  Q zero = site.QnAt(0) - site.QnAt(0);
  Q dq = s.chance(1, 2) ? zero : Q(site.QnAt(s.below(site.dim())) - site.QnAt(s.below(site.dim())));
  Mat o0, o1, i0 = eye(site.dim()), i1 = eye(site.dim());
  if (s.chance(1, 4)) { dq = zero; o0 = eye(site.dim()); } else if (!gen_opmat<E>(s, site, dq, o0)) throw pbt::Discard();
  if (!gen_opmat<E>(s, site, Q(zero - dq), o1)) throw pbt::Discard();
  bool s0 = s.chance(1, 2), s1 = s.chance(1, 2);
  auto string = [&](Mat &m) { if (s.flip()) { for (size_t k = 0; k < m.n; ++k) m(k, k) = s.flip() ? -1 : 1; } else gen_opmat<E>(s, site, zero, m); };
  if (s0) string(i0);
  if (s1) string(i1);
  double tau = s.coef() * std::pow(10.0, -(double) s.range(0, 3)) / std::max(1.0, fro(u.h.H) / std::sqrt((double) u.h.H.n));
  size_t steps = (size_t) s.weighted({1, 5, 4, 2});
  if (s.chance(1, 30)) steps = (size_t) s.range(4, 9);
  double e0 = s.flip() ? 0 : s.coef();
  bool lossless = s.chance(3, 5);
  size_t dmin = 1, dmax = 100000; double trunc = 0;
  if (!lossless) { dmax = (size_t) s.range(1, 8); dmin = (size_t) s.range(1, (int64_t) dmax); trunc = s.flip() ? 0 : std::pow(10.0, -(double) s.range(1, 8)); }
  else if (s.chance(1, 4)) { dmin = 100000; trunc = 0.3; }
  bool tight = s.chance(3, 4);
  LanczosParams lp(tight ? 1e-13 : std::pow(10.0, -(double) s.range(1, 9)), tight ? 80 : (size_t) s.range(1, 10));
  s.note << qname<Q>() << ", " << show(u.sv) << ", " << u.h.terms << " terms, " << (u.full ? "full " : "") << show_bonds(u.start) << ", center " << center << ", site_0 " << site0
         << (dq == zero ? "" : ", charged operator") << (s0 ? ", string in front" : "") << (s1 ? ", string in the measurement" : "") << ", " << steps << " steps of " << tau << ", e0 " << e0
         << ", D " << dmin << ".." << dmax << ", truncation error " << trunc << ", Lanczos " << lp.error << "/" << lp.max_iterations;
  Vec psi0 = dense(u.start);
  // what is evolved
  auto m0 = u.start;
  auto on = [&](size_t i, const Mat &o) {
    T op = op_from<E>(site, o), *r = new T;
    Contract(&op, m0(i), {{0}, {1}}, r);
    r->Transpose({1, 0, 2});
    m0[i] = *r;
    delete r;
  };
  Vec v = apply1(u.D, psi0, site0, o0);
  on(site0, o0);
  if (s0) for (size_t i = 0; i < site0; ++i) { v = apply1(u.D, v, i, i0); on(i, i0); }
  double nv = nrm(v);
  if (nv < 1e-3) throw pbt::Discard();
  for (size_t i = 0; i < n; ++i) if (m0[i].Get2Norm() < 1e-9) throw pbt::Discard();
  Dense<Q> ref(u.sv, u.h.H, dmin, dmax, trunc);
  ref.frames(m0, site0);
  PBT_REQUIRE(maxdiff(ref.v, v) < 1e-10 * std::max(1.0, nv), "HARNESS: the prepared state is not the expected one");
  if (MPI) ref.keep_norm = nv;
  double on_disk = MPI ? nv : 1;       // the distributed evolution keeps a normalised state on disk
  std::vector<size_t> sec = sector(u.sv, ref.tot);
  double scale = std::max(1.0, fro(sub(u.h.H, sec)));
  double tol = 1e-6 * std::max(1.0, nv) * (1 + std::abs(tau) * scale);
  // the initial state as the bra: copied, or one that is already there
  bool present = s.chance(1, 6);
  Vec bra = psi0;
  u.start.Dump(u.mps_path);
  if (present) {
    auto b = gen_mps<E, Q>(s, u.sv);
    Q q = zero, q0 = zero;
    bool hb = false, h0 = false;
    Vec x = dense(b);
    for (size_t o = 0; o < x.size(); ++o) { if (std::abs(x[o]) > 1e-9) { q = charge(u.sv, u.D.cfg(o)); hb = true; } if (std::abs(psi0[o]) > 1e-9) { q0 = charge(u.sv, u.D.cfg(o)); h0 = true; } }
    if (hb && h0 && q == q0 && b[0].GetIndexes()[0] == u.start[0].GetIndexes()[0] && b[n - 1].GetIndexes()[2] == u.start[n - 1].GetIndexes()[2]) { b.Dump(ini); bra = x; s.label("given bra"); }
    else present = false;
  }
  Mat h1 = o1;
  auto corr = [&](const Vec &x, double t) {
    std::vector<cd> r;
    Vec y = x;
    for (size_t i = 0; i < n; ++i) { r.push_back(dot(bra, apply1(u.D, y, i, o1)) * std::exp(cd(0, e0 * t))); if (s1) y = apply1(u.D, y, i, i1); }
    return r;
  };
  double osz = std::max(1.0, std::pow(fro(o1), 1)) * std::max(1.0, nrm(bra)) * std::max(1.0, std::pow(std::max(1.0, fro(i1)), (double) (s1 ? n : 0)));
#ifdef TDVP_MPI
  auto net = gen_world(s, 2);
#endif
  auto go = [&](size_t k) {
    // environments of another run in the temporary directory are not used
    switch ((int) s.weighted({2, 1, 1})) {
      case 0: std::filesystem::remove_all(u.temp_path); break;
      case 1: {
        auto b = gen_mps<E, Q>(s, u.sv);
        std::filesystem::create_directories(u.temp_path);
        b.Dump("other_state", true);
        Quiet q;
        InitEnvs(b, u.h.mpo, "other_state", u.temp_path, 1);
        s.label("foreign environments");
        break;
      }
      default: break;
    }
#ifdef TDVP_MPI
    MPITDVPSweepParams<Q> p(
#else
    TDVPEvolveParams<Q> p(
#endif
                          tau, k, site0, op_from<E>(site, o0), s0 ? op_from<E>(site, i0) : T(), op_from<E>(site, o1), s1 ? op_from<E>(site, i1) : T(), e0,
                          dmin, dmax, trunc, lp, u.mps_path, ini, u.temp_path, meas);
    Quiet q;
#ifdef TDVP_MPI
    DynamicMeasuRes<E> r;
    mpisim::World world(net);
    world.run([&](int rank) {
      FiniteMPS<E, Q> empty(u.sv);
      auto mine = u.h.mpo;
      auto x = TwoSiteFiniteTDVP(empty, mine, p, out, MPI_COMM_WORLD);
      PBT_REQUIRE(empty.empty(), "the state is left in memory of rank " << rank);
      if (rank == 0) r = x;
    });
    if (world.stats.choices) s.label("messages overtook");
#else
    FiniteMPS<E, Q> empty(u.sv);
    auto r = TwoSiteFiniteTDVP(empty, u.h.mpo, p, out);
    PBT_REQUIRE(empty.empty(), "the state is left in memory");
#endif
    return r;
  };
  auto inspect_res = [&](const DynamicMeasuRes<E> &r, size_t k) {
    PBT_REQUIRE(r.size() == (k + 1) * n, r.size() << " measured values, expected " << (k + 1) * n);
    for (size_t j = 0; j <= k; ++j) for (size_t i = 0; i < n; ++i) {
      auto &x = r[j * n + i];
      PBT_REQUIRE(x.sites == std::vector<size_t>({site0, i}), "entry " << j * n + i << " names the wrong sites");
      PBT_REQUIRE(x.times.size() == 2 && x.times[0] == 0 && std::abs(x.times[1] - tau * (double) j) < 1e-12 * (1 + std::abs(x.times[1])), "entry " << j * n + i << " names the wrong times");
    }
    std::ifstream f(out + ".json");
    auto js = nlohmann::json::parse(f, nullptr, false);
    PBT_REQUIRE(js.is_array() && js.size() == r.size(), out << ".json does not hold " << r.size() << " entries");
    for (size_t i = 0; i < r.size(); ++i) {
      auto &x = js[i];
      PBT_REQUIRE(x.is_array() && x.size() == 3 && x[0].size() == 2 && x[1].size() == 2 && x[2].size() == 2, out << ".json: entry " << i << " is not [sites, times, value]");
      auto near = [&](double a, double b) { return std::abs(a - b) <= 1e-11 * std::abs(b) + 1e-300; };
      PBT_REQUIRE(x[0][0].get<double>() == (double) site0 && x[0][1].get<double>() == (double) r[i].sites[1] && near(x[1][0].get<double>(), 0) && near(x[1][1].get<double>(), r[i].times[1])
                  && near(x[2][0].get<double>(), r[i].avg.real()) && near(x[2][1].get<double>(), r[i].avg.imag()), out << ".json: entry " << i << " differs from the returned value");
    }
  };
  auto check_corr = [&](const DynamicMeasuRes<E> &r, size_t j, const Vec &x, const char *what) {
    auto want = corr(x, tau * (double) j);
    for (size_t i = 0; i < n; ++i) PBT_REQUIRE(std::abs(r[j * n + i].avg - want[i]) < tol * osz, what << ": correlation at step " << j << " on site " << i << " is " << r[j * n + i].avg << ", expected " << want[i]);
  };
  auto r = go(steps);
  inspect_res(r, steps);
  check_corr(r, 0, v, "equal time");
  if (!present) { auto b = read_mps(u.sv, ini); PBT_REQUIRE(maxdiff(dense(b), psi0) < 1e-12 * std::max(1.0, nrm(psi0)), "the copy of the initial state is not the initial state"); }
  auto fin = read_mps(u.sv, u.mps_path);
  Vec w = scalev(on_disk, dense(fin));
  std::vector<char> in(w.size(), 0);
  for (auto o : sec) in[o] = 1;
  for (size_t o = 0; o < w.size(); ++o) PBT_REQUIRE(in[o] || std::abs(w[o]) < 1e-9 * std::max(1.0, nv), "the evolved state left its charge sector");
  double nw = nrm(w);
  PBT_REQUIRE(nw < nv * (1 + 1e-6), "the evolution raised the norm from " << nv << " to " << nw);
  if (lossless || steps == 0) {
    PBT_REQUIRE(std::abs(nw - nv) < 1e-6 * nv, "the evolution changed the norm from " << nv << " to " << nw);
    double ea = rayleigh(u.h.H, v), eb = rayleigh(u.h.H, w);
    PBT_REQUIRE(std::abs(ea - eb) < 1e-6 * scale, "the evolution changed the energy from " << ea << " to " << eb);
  }
  if (steps) for (size_t i = 0; i + 1 < n; ++i) PBT_REQUIRE(fin[i].GetShape()[2] <= dmax, "bond " << i << " has dimension " << fin[i].GetShape()[2]);
  if (steps) for (size_t i = 0; i < n; ++i) if (i != 1) PBT_REQUIRE((i ? right_defect(fin[i]) : left_defect(fin[i])) < 1e-7, "tensor " << i << " of the evolved state is not canonical around site 1, where the last pair was evolved");
  check_corr(r, steps, w, "state on disk");
  // step by step against the dense integrator
  size_t exact = 0;
  if (tight && ref.fragile.empty()) {
    for (size_t j = 1; j <= steps; ++j) {
      ref.step(tau);
      if (!ref.fragile.empty()) break;
      ++exact;
      check_corr(r, j, ref.v, "dense integrator");
      if (j == steps) { double d = maxdiff(ref.v, w); PBT_REQUIRE(d < tol, "the final state differs by " << d << " from the dense integrator"); }
    }
  }
  if (steps) s.label(!tight ? "loose solver" : exact == steps ? "compared with the dense integrator" : "not compared: " + ref.fragile);
  // with complete spaces on both sides of every pair nothing is projected away
  if (tight && steps && lossless && exact == steps) {
    if (ref.complete) {
      s.label("compared with exp(-iHt)");
      Vec ex = expmv(u.h.H, v, tau * (double) steps);
      PBT_REQUIRE(maxdiff(ex, w) < tol, "the final state differs by " << maxdiff(ex, w) << " from exp(-iHt) on complete spaces");
    }
  }
  // a shorter run is the beginning of the longer one, and starting again from the copy repeats it
  if (steps >= 2 && s.chance(1, 3) && !present) {
    size_t k = (size_t) s.range(1, (int64_t) steps - 1);
    u.start.Dump(u.mps_path);
    auto r2 = go(k);
    inspect_res(r2, k);
    for (size_t i = 0; i < r2.size(); ++i) PBT_REQUIRE(std::abs(r2[i].avg - r[i].avg) < 1e-9 * osz * std::max(1.0, nv), "value " << i << " of " << k << " steps differs from the same value of " << steps << " steps");
    check_corr(r2, k, scalev(on_disk, dense(read_mps(u.sv, u.mps_path))), "shorter run");
    s.label("shorter run");
  }
  s.nontrivial(steps >= 1 && n >= 4 && sec.size() >= 4);
}

#define TD_DISPATCH(fn) [](pbt::Src &s) { if (s.flip()) { s.label("U1xU1"); fn<tn::U1U1>(s); } else { s.label("U1"); fn<tn::U1>(s); } }
int main(int argc, char **argv) {
  pbt::want_scratch() = true;
  return pbt::main_(argc, argv, {
#ifdef TDVP_MPI
      {"C26", "expmv", TD_DISPATCH(p_expmv), 4000, 100000},
      {"C26", "tdvp", TD_DISPATCH(p_tdvp), 1500, 20000},
#else
      {"C20", "expmv", TD_DISPATCH(p_expmv), 12000, 300000},
      {"C24", "tdvp", TD_DISPATCH(p_tdvp), 2500, 30000},
#endif
  });
}
