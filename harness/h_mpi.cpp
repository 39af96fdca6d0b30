// C25 the distributed ground-state search: matrix-vector products, environments and Lanczos solvers spread over ranks, and
// whole runs of the distributed two-site (plain and noised) and DMRG algorithms, under a seeded scheduler; against dense
// diagonalisation and the serial runs.
#define STANDIN_MPI
#include "gs.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#include "mpi_gen.h"
using namespace tn;

// ------------------------------------------------------------------ solvers and environments
template<typename E, typename Q> void p_solver(Src &s) {
  using T = QLTensor<E, Q>;
  auto sv = gen_sites<E, Q>(s, 2, 7, s.flip(), 130);
  Dims D = dims_of(sv);
  size_t n = sv.size;
  auto h = gen_ham(s, sv);
  size_t a = s.chance(1, 2) ? s.below(n - 1) : std::min(n - 2, n / 2), b = a + 1;
  FiniteMPS<E, Q> mps(sv);
  if (s.flip()) {
    std::vector<size_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = s.below(D.d[i]);
    mps = full_mps(s, sv, charge(sv, c), (int) s.below(3));
  } else mps = gen_mps<E, Q>(s, sv);
  if (nrm(dense(mps)) < 1e-6) throw pbt::Discard();
  mps.Centralize(a);
  double err = std::pow(10.0, -(double) s.range(1, 12));
  size_t maxit = s.chance(1, 2) ? 60 : (size_t) s.range(1, 12);
  s.note << ename<E>() << " " << qname<Q>() << ", " << show(sv) << ", " << h.terms << " terms, sites " << a << ".." << b << ", " << show_bonds(mps) << ", error " << err << ", at most " << maxit << " iterations";
  auto o = gen_world(s, 2);
  // environments grown over the ranks against those grown in one process
  T l({InverseIndex(InverseIndex(mps[0].GetIndexes()[0])), InverseIndex(h.mpo[0].GetIndexes()[0]), InverseIndex(mps[0].GetIndexes()[0])});
  l({0, 0, 0}) = 1;
  T r({mps[n - 1].GetIndexes()[2], InverseIndex(h.mpo[n - 1].GetIndexes()[3]), InverseIndex(mps[n - 1].GetIndexes()[2])});
  r({0, 0, 0}) = 1;
  size_t most = 0;
  {
    auto l1 = l, r1 = r;
    bool init = s.flip();
    mpisim::World w(o);
    w.run([&](int rank) {
      auto mine = h.mpo;
      auto lm = l, rm = r;
      for (size_t i = 0; i < a; ++i) {
        most = std::max(most, mps[i].GetIndexes()[2].GetQNSctNum());
        std::unique_ptr<T> x;
        if (rank == 0) { auto t = mps[i]; if (init) x.reset(MasterGrowLeftEnvironmentInit(l1, mine[i], t, MPI_COMM_WORLD)); else { l1.MPI_Bcast(0, MPI_COMM_WORLD); x.reset(MasterGrowLeftEnvironment(mine[i], t, MPI_COMM_WORLD)); } l1 = *x; }
        else if (init) SlaveGrowLeftEnvironmentInit<E, Q>(MPI_COMM_WORLD); else { lm.MPI_Bcast(0, MPI_COMM_WORLD); SlaveGrowLeftEnvironment(lm, mine[i], MPI_COMM_WORLD); }
      }
      for (size_t i = n - 1; i > b; --i) {
        most = std::max(most, mps[i].GetIndexes()[0].GetQNSctNum());
        std::unique_ptr<T> x;
        if (rank == 0) { auto t = mps[i]; if (init) x.reset(MasterGrowRightEnvironmentInit(r1, mine[i], t, MPI_COMM_WORLD)); else { r1.MPI_Bcast(0, MPI_COMM_WORLD); x.reset(MasterGrowRightEnvironment(mine[i], t, MPI_COMM_WORLD)); } r1 = *x; }
        else if (init) SlaveGrowRightEnvironmentInit<E, Q>(MPI_COMM_WORLD); else { rm.MPI_Bcast(0, MPI_COMM_WORLD); SlaveGrowRightEnvironment(rm, mine[i], MPI_COMM_WORLD); }
      }
    });
    for (size_t i = 0; i < a; ++i) l = UpdateSiteLenvs(l, mps[i], h.mpo[i]);
    for (size_t i = n - 1; i > b; --i) r = UpdateSiteRenvs(r, mps[i], h.mpo[i]);
    auto cmp = [&](const T &x, const T &y, const char *w) {
      PBT_REQUIRE(x.GetIndexes() == y.GetIndexes(), "the " << w << " environment grown over " << o.ranks << " ranks has other legs");
      auto p = vec_of(x), q = vec_of(y);
      double d = maxdiff(p, q);
      PBT_REQUIRE(d < 1e-10 * std::max(1.0, nrm(q)), "the " << w << " environment grown over " << o.ranks << " ranks differs by " << d);
    };
    cmp(l1, l, "left");
    cmp(r1, r, "right");
  }
  Mat A = project(h.H, frame(mps, a, b));
  hermitise(A);
  auto *st = new T;
  Contract(&mps[a], &mps[b], {{2}, {0}}, st);
  Vec v0 = vec_of(*st);
  PBT_REQUIRE(v0.size() == A.n, "the state of the effective problem has " << v0.size() << " elements, expected " << A.n);
  double scale = std::max(1.0, fro(A));
  size_t tasks = l.GetIndexes()[0].GetQNSctNum();
  most = std::max(most, tasks);
  s.note << ", " << tasks << " tasks";
  s.label(tasks > 2 * (size_t) (o.ranks - 1) ? "many tasks" : tasks >= (size_t) o.ranks ? "more tasks than workers" : "idle workers");
  {   // one product
    T res; double ov = 0;
    mpisim::World w(o);
    w.run([&](int rank) {
      auto mine = h.mpo;
      auto x = l, y = r;
      std::vector<T *> eff = {&x, &mine[a], &mine[b], &y};
      if (rank == 0) { auto t = *st; ov = master_two_site_eff_ham_mul_state(eff, &t, res, MPI_COMM_WORLD); }
      else slave_two_site_eff_ham_mul_state(eff, MPI_COMM_WORLD);
    });
    Vec want = tn::apply(A, v0);
    double d = maxdiff(vec_of(res), want), e = std::real(dot(v0, want));
    PBT_REQUIRE(d < 1e-9 * scale * std::max(1.0, nrm(v0)), "effective Hamiltonian times state over " << o.ranks << " ranks differs by " << d);
    PBT_REQUIRE(std::abs(ov - e) < 1e-9 * scale * std::max(1.0, dot(v0, v0).real()), "expectation value " << ov << " over " << o.ranks << " ranks, expected " << e);
  }
  check_lanczos<E, Q>(s, A, st, err, maxit, [&](T *x) {
    LanczosRes<T> res;
    mpisim::World w(o);
    w.run([&](int rank) {
      auto mine = h.mpo;
      auto lx = l, rx = r;
      std::vector<T *> eff = {&lx, &mine[a], &mine[b], &rx};
      T l0, r0;
      if (rank == 0) res = MasterLanczosSolver(eff, x, LanczosParams(err, maxit), MPI_COMM_WORLD);
      else { eff[0] = &l0; eff[3] = &r0; SlaveLanczosSolver<T>(eff, MPI_COMM_WORLD); }
    });
    if (w.stats.choices) s.label("messages overtook");
    return res;
  });
  s.nontrivial(most >= 2);
}

// ------------------------------------------------------------------ what the noise adds
// (called only where functions of these names and arguments exist)
#define EXPAND_CALL(name, fn) \
  template<typename... A> auto name(int, A &&...a) -> decltype(fn(std::forward<A>(a)...), bool()) { fn(std::forward<A>(a)...); return true; } \
  template<typename... A> bool name(long, A &&...) { return false; }
EXPAND_CALL(master_right, MasterTwoSiteFiniteVMPSRightMovingExpand)
EXPAND_CALL(master_left, MasterTwoSiteFiniteVMPSLeftMovingExpand)
EXPAND_CALL(slave_right, SlaveTwoSiteFiniteVMPSRightMovingExpand)
EXPAND_CALL(slave_left, SlaveTwoSiteFiniteVMPSLeftMovingExpand)
template<typename E, typename Q> void p_expand(Src &s) {
  using T = QLTensor<E, Q>;
  auto c = gen_expand<E, Q>(s, true, true);
  auto o = gen_world(s, 2);
  auto *vec = c.vec();
  size_t tasks = (c.right ? c.l : c.r).GetIndexes()[0].GetQNSctNum();
  s.note << ", " << tasks << " tasks";
  s.label(tasks > 2 * (size_t) (o.ranks - 1) ? "many tasks" : tasks >= (size_t) o.ranks ? "more tasks than workers" : "idle workers");
  check_expand<E, Q>(s, c.mps, c.h.mpo, c.a, c.b, c.right, c.noise, vec, [&](FiniteMPS<E, Q> &mps, T *v) {
    mpisim::World w(o);
    bool there = true;
    w.run([&](int rank) {
      auto mine = c.h.mpo;
      auto lx = c.l, rx = c.r;
      std::vector<T *> eff = {&lx, &mine[c.a], &mine[c.b], &rx};
      bool ok;
      if (rank == 0) ok = c.right ? master_right(0, mps, v, eff, c.a, c.noise, MPI_COMM_WORLD) : master_left(0, mps, v, eff, c.b, c.noise, MPI_COMM_WORLD);
      else ok = c.right ? slave_right(0, eff, MPI_COMM_WORLD) : slave_left(0, eff, MPI_COMM_WORLD);
      if (!ok && rank == 0) there = false;
    });
    if (!there) throw pbt::Discard();
    if (w.stats.choices) s.label("messages overtook");
    T res = *v;
    delete v;
    return res;
  });
}

// ------------------------------------------------------------------ runs
// what holds for the state after a run that ended at `center`
template<typename E, typename Q> void p_run(Src &s) {
  int kind = (int) s.weighted({4, 4, 5});      // two-site, noised, DMRG
  auto u = setup<E, Q>(s, 6, 81);
  auto p = para(s, u.full);
  static const char *KIND[3] = {", two-site", ", noised", ", DMRG"};
  s.note << KIND[kind];
  SV noises;
  if (kind == 1) {
    for (size_t i = (size_t) s.big(1, 3, 8); i; --i) noises.push_back(s.chance(1, 4) ? 0.0 : std::pow(10.0, -(double) s.range(p.lossless ? 0 : 3, 6)));
    bool any = false; for (auto x : noises) any |= x != 0;
    if (!any) noises[0] = 1e-3;
    s.note << " with"; for (auto x : noises) s.note << " " << x;
  }
  bool limit = !p.lossless;
  store(u, 0, u.mps_path, kind == 1 && s.flip());
  store(u, 0, "ref_state");
  auto mat = u.h.gen->GenMatReprMPO(true);
  size_t stages = s.chance(1, 2) ? 1 : (size_t) s.big(2, 3, 6), lastc = 0, most = 0, choices = 0;
  double last = u.e_init, tol = 1e-7 * u.scale;
  bool same = kind != 1, one = false;
  for (size_t st = 0; st < stages; ++st) {
    size_t k = (size_t) s.big(1, 2, 6);
    auto o = gen_world(s, 1);
    std::string what = "stage " + std::to_string(st);
    if (st) {
      if (limit) p.dmax = (size_t) s.range(1, 8), p.dmin = std::min(p.dmin, p.dmax);
      bool drop = s.chance(1, 4);
      if (kind == 0) {      // the center must not lie beyond the left boundary + 1; a lower bond limit can move that to the left
        auto cur = read_mps(u.sv, u.mps_path);
        size_t lm = (u.n - 1) / 2, lb = lm - 1, D = 1;
        for (size_t i = 0; i < lm; ++i) { D *= u.D.d[i]; if (D > p.dmax) { lb = i; break; } }
        if (o.ranks == 1) lb = 0;
        if (lb + 1 < lastc) { cur.Centralize(0); cur.Dump(u.mps_path, true); drop = true; s.note << " centered"; same = false; }
      }
      if (kind == 0 && (o.ranks == 1) != one) drop = true;       // the two searches keep other environments
      if (drop) { std::filesystem::remove_all(u.temp_path); if (same) std::filesystem::remove_all("ref_work"); }
      s.note << "; continued " << (drop ? "without" : "with") << " environments, Dmax " << p.dmax;
      if (!drop && !(kind == 0 && o.ranks == 1) && s.chance(1, 3)) { lose_files(s, u.temp_path); s.label("lost environments"); }      // they are made again
      s.label("continued");
    }
    one = o.ranks == 1;
    s.note << ", " << k << " sweeps";
    auto mk = [&](const std::string &mp, const std::string &tp) {
      LanczosParams lp(p.lerr, p.lit);
      return kind == 1 ? FiniteVMPSSweepParams(k, p.dmin, p.dmax, p.trunc, lp, noises, 1.0, 1.02, 0.95, 0.3, mp, tp) : FiniteVMPSSweepParams(k, p.dmin, p.dmax, p.trunc, lp, mp, tp);
    };
    auto sp = mk(u.mps_path, u.temp_path);
    std::vector<double> es(o.ranks, -1);
    {
      Quiet q;
      mpisim::World w(o);
      w.run([&](int rank) {
        FiniteMPS<E, Q> mps(u.sv);
        if (kind == 2) { auto mine = mat; es[rank] = FiniteDMRG(mps, mine, sp, MPI_COMM_WORLD); }
        else { auto mine = u.h.mpo; es[rank] = TwoSiteFiniteVMPS(mps, mine, sp, MPI_COMM_WORLD); }
        PBT_REQUIRE(mps.empty(), "tensors were left in memory of rank " << rank);
      });
      choices += w.stats.choices;
    }
    double e = es[0];
    for (int r = 1; r < o.ranks; ++r) PBT_REQUIRE(es[r] == 0, "rank " << r << " returned " << es[r] << " instead of 0");
    auto fin = read_mps(u.sv, u.mps_path);
    for (size_t i = 0; i + 1 < u.n; ++i) most = std::max(most, fin[i].GetIndexes()[2].GetQNSctNum());
    // the two-site search ends at left_boundary + 1, the others move the center to the first site
    size_t center = 0;
    if (kind == 0 || (kind == 1 && o.ranks == 1)) {
      lastc = center = kind == 0 && one ? 1 : left_boundary(u.D, p.dmax) + 1;
    }
    Vec v = inspect(u, u.mps_path, center, p.dmax, e, p.lossless, what, kind == 1 ? (one ? 1 : 2) : 0);
    {
      size_t c = kind == 0 && one ? 1 : left_boundary(u.D, p.dmax) + 1;
      check_truncation(u, v, fin[c].GetShape()[2], c, p.dmin, p.dmax, p.trunc, what, noises.empty() ? 1e-9 : 3e-3);
    }
    if (p.lossless) PBT_REQUIRE(e <= last + tol, what << ": energy " << e << " above that of the state it started from " << last);
    last = e;
    if (p.lossless && p.tight && (noises.empty() || noises[std::min(k, noises.size()) - 1] == 0)) {      // (else the noise enlarged the basis afterwards)
      // (with the center moved away from the sites that were optimised last, states without weight are not the ones they were)
      size_t c = (u.n - 1) / 2;
      double r = kind == 2 || (kind && !one) ? support_residual(u.D, u.h.H, v, c, c + 1, e) : residual(u, u.mps_path, center, center + 1, e);
      PBT_REQUIRE(r < 3e-4 * u.scale, what << ": the state does not solve the last eigenvalue problem, residual " << r);
    }
    if (kind == 1 && stages > 1 && o.ranks == 1) { auto c = read_mps(u.sv, u.mps_path); c.Centralize(0); c.Dump(u.mps_path, true); std::filesystem::remove_all(u.temp_path); }
    if (same) {         // the same in one process
      double es;
      Quiet q;
      FiniteMPS<E, Q> mps(u.sv);
      auto rp = mk("ref_state", "ref_work");
      es = kind == 2 ? FiniteDMRG(mps, mat, rp) : TwoSiteFiniteVMPS(mps, u.h.mpo, rp);
      Vec b = dense(read_mps(u.sv, "ref_state"));
      double d = std::abs(es - e), ov = std::abs(dot(v, b)) / nrm(v) / nrm(b);
      s.label(d < 1e-8 * u.scale ? (ov > 1 - 1e-6 ? "same state as in one process" : "same energy as in one process") : "other energy than in one process");
      if (d > 1e-8 * u.scale) s.note << ", energy differs by " << d << " from one process";
    }
  }
  if (choices) s.label("messages overtook");
  s.nontrivial(u.n >= 4 && u.sec.size() >= 4 && most >= 2);
}

int main(int argc, char **argv) {
  pbt::want_scratch() = true;
  return pbt::main_(argc, argv, {
      {"C25", "solver", TN_DISPATCH(p_solver), 3000, 100000},
      {"C25", "expand", TN_DISPATCH(p_expand), 3000, 60000},
      {"C25", "run", TN_DISPATCH(p_run), 2000, 40000},
  });
}
