// C23 DMRG in the matrix-of-operators form: effective Hamiltonian and solver, runs in several stages, interruption by
// signals; against dense diagonalisation.
#include "gs.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace tn;

// ------------------------------------------------------------------ super-block Hamiltonian
template<typename E, typename Q> void p_superblock(Src &s) {
  using T = QLTensor<E, Q>;
  auto sv = gen_sites<E, Q>(s, 2, 5, s.flip(), 90);
  Dims D = dims_of(sv);
  size_t n = sv.size;
  auto h = gen_ham(s, sv);
  auto mat = h.gen->GenMatReprMPO(s.flip());
  size_t a = s.below(n - 1), b = a + 1;
  FiniteMPS<E, Q> mps(sv);
  if (s.flip()) {
    std::vector<size_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = s.below(D.d[i]);
    mps = full_mps(s, sv, charge(sv, c), (int) s.below(3));
  } else mps = gen_mps<E, Q>(s, sv);
  if (nrm(dense(mps)) < 1e-6) throw pbt::Discard();
  mps.Centralize(a);
  double err = std::pow(10.0, -(double) s.range(1, 12));
  size_t maxit = s.chance(1, 2) ? 60 : (size_t) s.range(1, 12);
  s.note << ename<E>() << " " << qname<Q>() << ", " << show(sv) << ", " << h.terms << " terms, sites " << a << ".." << b << ", " << show_bonds(mps) << ", error " << err << ", at most " << maxit << " iterations";
  auto one = [](const Index<Q> &i) { T t({InverseIndex(i), i}); t({0, 0}) = 1; return t; };
  std::vector<T> l = {one(mps[0].GetIndexes()[0])}, r = {one(mps[n - 1].GetIndexes()[2])};
  for (size_t i = 0; i < a; ++i) l = UpdateLeftBlockOps(l, mps[i], mat[i]);
  for (size_t i = n - 1; i > b; --i) r = UpdateRightBlockOps(r, mps[i], mat[i]);
  auto terms = [&] {
    SuperBlockHamiltonianTerms<T> t;
    for (size_t j = 0; j < mat[a].cols; ++j) {
      BlockSiteHamiltonianTermGroup<T> x; SiteBlockHamiltonianTermGroup<T> y;
      for (size_t i = 0; i < mat[a].rows; ++i) if (!mat[a].IsNull(i, j)) x.push_back({&l[i], const_cast<T *>(&mat[a](i, j))});
      for (size_t k = 0; k < mat[b].cols; ++k) if (!mat[b].IsNull(j, k)) y.push_back({const_cast<T *>(&mat[b](j, k)), &r[k]});
      t.emplace_back(x, y);
    }
    return t;
  };
  auto f = frame(mps, a, b);
  Mat A = project(h.H, f);
  hermitise(A);
  auto *st = new T;
  Contract(&mps[a], &mps[b], {{2}, {0}}, st);
  Vec v0 = vec_of(*st);
  PBT_REQUIRE(v0.size() == A.n, "the state of the effective problem has " << v0.size() << " elements, expected " << A.n);
  double scale = std::max(1.0, fro(A));
  Vec want = tn::apply(A, v0);
  auto eff = terms();
  {
    std::unique_ptr<T> hv(super_block_hamiltonian_mul_two_site_state<E, Q>(eff, st));
    double d = maxdiff(vec_of(*hv), want);
    PBT_REQUIRE(d < 1e-9 * scale * std::max(1.0, nrm(v0)), "super-block Hamiltonian times state differs from the projected Hamiltonian by " << d);
  }
  if (s.chance(1, 3)) {      // the combined operators
    auto l0 = l, r0 = r;
    auto e2 = terms();
    std::vector<T> bs, sb;
    combine_operators_in_super_blk_hamiltonian(e2, bs, sb);
    std::unique_ptr<T> hv(super_block_hamiltonian_mul_two_site_state<E, Q>(bs, sb, st));
    double d = maxdiff(vec_of(*hv), want);
    PBT_REQUIRE(d < 1e-9 * scale * std::max(1.0, nrm(v0)), "the combined operators times state differ from the projected Hamiltonian by " << d);
    // the next block operators from the combined ones are those of the direct way
    auto cmp = [&](const std::vector<T> &x, const std::vector<T> &y, const char *w) {
      PBT_REQUIRE(x.size() == y.size(), x.size() << " " << w << " block operators, expected " << y.size());
      for (size_t i = 0; i < x.size(); ++i) {
        double q = maxdiff(vec_of(x[i]), vec_of(y[i]));
        PBT_REQUIRE(x[i].GetShape() == y[i].GetShape() && q < 1e-9 * scale, w << " block operator " << i << " from the combined operators differs by " << q);
      }
    };
    cmp(UpdateLeftBlockOps(bs, mps[a]), UpdateLeftBlockOps(l0, mps[a], mat[a]), "left");
    cmp(UpdateRightBlockOps(sb, mps[b]), UpdateRightBlockOps(r0, mps[b], mat[b]), "right");
    l = l0; r = r0;
    eff = terms();
  }
  check_lanczos<E, Q>(s, A, st, err, maxit, [&](T *x) { return LanczosSolver(eff, x, LanczosParams(err, maxit)); });
}

// ------------------------------------------------------------------ runs
template<typename E, typename Q> void p_dmrg(Src &s) {
  auto u = setup<E, Q>(s, 6, 100);
  bool lossless = s.chance(2, 3);
  size_t full = max_rank(u);
  store(u, (int) s.below(2), u.mps_path);
  auto mat = u.h.gen->GenMatReprMPO(s.flip());
  size_t stages = (size_t) s.big(1, 4, 8);
  double last = u.e_init;
  double tol = 1e-7 * u.scale;
  FiniteMPS<E, Q> mps(u.sv);
  bool moved = false; size_t lastd = 0;
  std::unique_ptr<DMRGExecutor<E, Q>> keep;
  for (size_t st = 0; st < stages; ++st) {
    size_t dmax = lossless ? (s.flip() ? 100000 : full + s.below(4)) : (size_t) s.range(1, 8), dmin = s.flip() ? 1 : (size_t) s.range(1, (int64_t) dmax);
    double trunc = lossless || s.flip() ? 0 : std::pow(10.0, -(double) s.range(1, 12));
    bool tight = s.chance(2, 3);
    double lerr = tight ? 1e-12 : std::pow(10.0, -(double) s.range(1, 9));
    size_t lit = tight ? 100 : (size_t) s.range(1, 20), k = (size_t) s.big(1, 2, 7);
    moved |= st && dmax != lastd; lastd = dmax;
    std::string what = "stage " + std::to_string(st);
    s.note << (st ? "; " : "; stages: ") << k << " sweeps, D " << dmin << ".." << dmax << ", truncation error " << trunc << ", Lanczos " << lerr << "/" << lit;
    FiniteVMPSSweepParams sp(k, dmin, dmax, trunc, LanczosParams(lerr, lit), u.mps_path, u.temp_path);
    if (st && s.chance(1, 4)) { s.note << " without block operators"; std::filesystem::remove_all(u.temp_path); }
    else if (st && s.chance(1, 3)) { lose_files(s, u.temp_path); s.label("lost block operators"); }      // they are made again
    double e;
    int way = (int) s.weighted({3, 1, 1});
    {
      Quiet q;
      if (way == 0) e = FiniteDMRG(mps, mat, sp);
      else {
        if (way == 1 || !keep) keep.reset(new DMRGExecutor<E, Q>(mat, sp)); else keep->sweep_params = sp;
        keep->Execute();
        e = keep->GetEnergy();
      }
    }
    PBT_REQUIRE(mps.empty(), "tensors were left in memory");
    Vec v = inspect(u, u.mps_path, 0, dmax, e, lossless, what);
    {
      auto fin = read_mps(u.sv, u.mps_path);
      size_t c = left_boundary(u.D, dmax) + 1;
      check_truncation(u, v, fin[c].GetShape()[2], c, dmin, dmax, trunc, what);
    }
    if (lossless) {
      PBT_REQUIRE(e <= last + tol, what << ": energy " << e << " above that of the state it started from " << last);
      if (u.full && tight) s.label(e < u.w[0] + 1e-6 * u.scale ? "reached E0" : "not reached E0");
    }
    last = e;
  }
  if (lossless && s.chance(1, 3)) {      // at a fixed point of the sweep every pair of sites is optimal
    FiniteVMPSSweepParams sp(1, 1, 100000, 0, LanczosParams(1e-12, 100), u.mps_path, u.temp_path);
    bool fixed = false; double e = last;
    for (int t = 0; t < 12 && !fixed; ++t) {
      Quiet q;
      e = FiniteDMRG(mps, mat, sp);
      fixed = std::abs(e - last) < 1e-10 * u.scale;
      last = e;
    }
    if (fixed) {
      Vec x = dense(read_mps(u.sv, u.mps_path));
      for (size_t i = 0; i + 1 < u.n; ++i) {
        double r = support_residual(u.D, u.h.H, x, i, i + 1, e);
        PBT_REQUIRE(r < 1e-3 * u.scale, "sweeps change nothing any more, but sites " << i << " and " << i + 1 << " are not optimal, residual " << r);
      }
      s.label("fixed point of the sweeps");
    }
  }
  if (moved) s.label("bond limit changed between stages");
  s.nontrivial(u.n >= 4 && u.sec.size() >= 4 && stages >= 2);
}

// ------------------------------------------------------------------ signals
static size_t g_count, g_at, g_lines; static int g_sig; static std::ostringstream *g_out;
static size_t count_of(const std::string &t, const std::string &w) { size_t c = 0; for (size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1)) ++c; return c; }
static void hook(const char *) {
  if (++g_count == g_at) { g_lines = count_of(g_out->str(), "Site ("); raise(g_sig); }
}
struct Run { bool ok = false; double e = 0; size_t points = 0, before = 0, lines = 0; };
// one run in a process of its own, as the stop flags live as long as the process
template<typename E, typename Q, typename M> Run run(const M &mat, const FiniteVMPSSweepParams &sp, const SiteVec<E, Q> &sv, int sig, size_t at) {
  int fd[2];
  if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    g_count = 0; g_at = at; g_sig = sig; g_lines = 0;
    Quiet q; g_out = &q.sink;
    StandinHook = hook;
    FiniteMPS<E, Q> mps(sv);
    double e = FiniteDMRG(mps, mat, sp);
    StandinHook = nullptr;
    size_t r[4] = {0, g_count, g_lines, count_of(q.sink.str(), "Site (")};
    memcpy(&r[0], &e, sizeof e);
    if (write(fd[1], r, sizeof r) != sizeof r) _exit(9);
    _exit(0);
  }
  close(fd[1]);
  size_t r[4]; size_t got = 0; ssize_t g;
  while (got < sizeof r && (g = read(fd[0], (char *) r + got, sizeof r - got)) > 0) got += (size_t) g;
  close(fd[0]);
  int st = 0; waitpid(pid, &st, 0);
  Run x;
  x.ok = got == sizeof r && WIFEXITED(st) && WEXITSTATUS(st) == 0;
  if (x.ok) { memcpy(&x.e, &r[0], sizeof x.e); x.points = r[1]; x.before = r[2]; x.lines = r[3]; }
  return x;
}
template<typename E, typename Q> void p_signal(Src &s) {
  auto u = setup<E, Q>(s, 6, 64);
  auto p = para(s, u.full);
  store(u, (int) s.below(2), u.mps_path);
  store(u, 0, "ref_state");
  auto mat = u.h.gen->GenMatReprMPO(true);
  size_t k = (size_t) s.big(1, 3, 8);
  FiniteVMPSSweepParams sp(k, p.dmin, p.dmax, p.trunc, LanczosParams(p.lerr, p.lit), u.mps_path, u.temp_path), rp = sp;
  rp.mps_path = "ref_state"; rp.temp_path = "ref_work";
  Run ref = run<E, Q>(mat, rp, u.sv, 0, 0);
  PBT_REQUIRE(ref.ok, "the run without signal failed");
  PBT_REQUIRE(ref.lines % k == 0 && ref.lines > 0, ref.lines << " updates in " << k << " sweeps");
  size_t per = ref.lines / k;
  static const int SG[4] = {SIGUSR1, SIGUSR2, SIGINT, SIGTERM};
  int sig = SG[s.below(4)];
  bool hard = sig == SIGINT || sig == SIGTERM;
  size_t at = 1 + s.below(ref.points);
  s.note << ", " << k << " sweeps, signal " << sig << " at point " << at << " of " << ref.points;
  Run r = run<E, Q>(mat, sp, u.sv, sig, at);
  PBT_REQUIRE(r.ok, "the run did not survive the signal");
  s.note << ", after " << r.before << " updates, " << r.lines << " in all";
  double tol = 1e-7 * u.scale;
  if (hard) PBT_REQUIRE(r.lines <= std::min(r.before + 1, ref.lines) && r.lines >= r.before, r.lines << " updates although the signal came after " << r.before);
  else {
    size_t want = std::min(k, r.before / per + 1) * per;
    PBT_REQUIRE(r.lines == want || (r.before % per == 0 && r.before > 0 && r.lines == r.before), r.lines << " updates, the signal came after " << r.before << " with " << per << " per sweep");
  }
  auto fin = read_mps(u.sv, u.mps_path);
  Vec v = dense(fin);
  if (!hard || r.lines == 0) inspect(u, u.mps_path, 0, p.dmax, r.e, p.lossless, "after the signal");
  else {
    size_t upd = (r.lines - 1) % per, c = upd < per / 2 ? upd + 1 : 0;      // where the sweep was
    (void) c;
    double nv = nrm(v), ev = rayleigh(u.h.H, v);
    PBT_REQUIRE(nv > 1e-3 && nv < 1 + 1e-9, "the interrupted state has norm " << nv);
    PBT_REQUIRE(ev >= u.w[0] - tol && ev <= u.w.back() + tol, "the interrupted state has energy " << ev);
    PBT_REQUIRE(r.e >= u.w[0] - tol, "energy " << r.e << " below the exact ground state energy " << u.w[0]);
    std::vector<char> in(v.size(), 0);
    for (auto o : u.sec) in[o] = 1;
    for (size_t o = 0; o < v.size(); ++o) PBT_REQUIRE(in[o] || std::abs(v[o]) < 1e-9, "the interrupted state left its charge sector");
    for (size_t i = 0; i + 1 < u.n; ++i) PBT_REQUIRE(fin[i].GetShape()[2] <= std::max(p.dmax, u.start[i].GetShape()[2]), "bond " << i << " has dimension " << fin[i].GetShape()[2]);
    if (p.lossless) {
      PBT_REQUIRE(std::abs(nv - 1) < 1e-9, "the interrupted state has norm " << nv << " although nothing was truncated");
      PBT_REQUIRE(std::abs(ev - r.e) < tol, "energy " << r.e << " returned, the interrupted state has " << ev);
      PBT_REQUIRE(ev <= u.e_init + tol, "energy " << ev << " above that of the initial state " << u.e_init);
    }
  }
  s.label(hard ? "emergency" : "graceful");
  // resumed in a new process
  if (hard) {        // documented: the state may be left in the middle of a sweep
    std::filesystem::remove_all(u.temp_path);
    fin.Centralize(0);
    fin.Dump(u.mps_path, true);
  }
  double before = rayleigh(u.h.H, v);
  Run c = run<E, Q>(mat, sp, u.sv, 0, 0);
  PBT_REQUIRE(c.ok, "the resumed run failed");
  PBT_REQUIRE(c.lines == ref.lines, "the resumed run made " << c.lines << " updates instead of " << ref.lines);
  inspect(u, u.mps_path, 0, p.dmax, c.e, p.lossless, "resumed");
  if (p.lossless) PBT_REQUIRE(c.e <= before + tol, "the resumed run raised the energy from " << before << " to " << c.e);
  s.nontrivial(r.before > 0 && r.before < ref.lines);
}

int main(int argc, char **argv) {
  pbt::want_scratch() = true;
  return pbt::main_(argc, argv, {
      {"C23", "superblock", TN_DISPATCH(p_superblock), 3000, 100000},
      {"C23", "dmrg", TN_DISPATCH(p_dmrg), 1800, 40000},
      {"C23", "signal", TN_DISPATCH(p_signal), 700, 20000},
  });
}
