// C27 the progress report of the sweeps (the "Site ..." lines on standard output): every line of every algorithm, parsed back
// and compared with the state on disk, the dense spectrum and, for time evolution, a dense integrator line by line.
#define STANDIN_MPI
#include "tdvp_ref.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#include "mpi_gen.h"
using namespace tn;

struct Line { size_t sweep = 0; long site = -1, site2 = -1; std::map<std::string, double> val; std::string text; bool has(const char *k) const { return val.count(k); } };
struct Report { std::vector<size_t> sweeps; std::vector<Line> lines; std::string text; };
// "key = number" pairs of the lines that start with Site; the numbers of the lines that start with sweep
static Report parse(const std::string &text) {
  Report r;
  r.text = text;
  std::istringstream in(text);
  for (std::string l; std::getline(in, l);) {
    size_t b = l.find_first_not_of(" \t");
    if (b == std::string::npos) continue;
    if (l.compare(b, 6, "sweep ") == 0 && isdigit((unsigned char) l[b + 6])) r.sweeps.push_back(strtoul(l.c_str() + b + 6, nullptr, 10));
    if (l.compare(b, 5, "Site ") != 0) continue;
    Line x;
    x.text = l;
    x.sweep = r.sweeps.empty() ? 0 : r.sweeps.back();
    const char *p = l.c_str() + b + 5;
    char *e;
    bool pair = *p == '(';
    x.site = strtol(p + pair, &e, 10);
    if (pair) { PBT_REQUIRE(*e == ',', "cannot read the sites of the line: " << l); x.site2 = strtol(e + 1, nullptr, 10); }
    for (size_t q = l.find('='); q != std::string::npos; q = l.find('=', q + 1)) {
      size_t k1 = l.find_last_not_of(" \t", q - 1), k0 = l.find_last_of(" \t)", k1);
      std::string key = l.substr(k0 + 1, k1 - k0);
      const char *v = l.c_str() + q + 1;
      double d = strtod(v, &e);
      PBT_REQUIRE(e != v, "no number after " << key << " in the line: " << l);
      x.val[key] = d;
    }
    r.lines.push_back(x);
  }
  return r;
}
struct Capture {
  std::ostringstream sink; std::streambuf *o;
  Capture() : o(std::cout.rdbuf(sink.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(o); }
};
static double entropy(const SV &p) { double r = 0; for (auto x : p) if (x > 0) r -= x * std::log(x); return r; }

// ------------------------------------------------------------------ ground-state searches
static const char *KIND[7] = {"two-site", "noised two-site", "single-site", "DMRG", "distributed two-site", "distributed noised", "distributed DMRG"};
template<typename E, typename Q, bool MPI> void p_search(Src &s) {
  int kind = MPI ? 4 + (int) s.below(3) : (int) s.below(4);
  bool single = kind == 2, noised = kind == 1 || kind == 2 || kind == 5, dmrg = kind == 3 || kind == 6, mpi = kind >= 4;
  auto u = setup<E, Q>(s, 6, 90, 3);
  auto p = para(s, u.full);
  size_t k = (size_t) s.big(1, 3, 9);
  SV noises;
  if (noised) {
    for (size_t i = (size_t) s.range(single ? 0 : 1, 3); i; --i) noises.push_back(s.chance(1, 3) ? 0.0 : std::pow(10.0, -(double) s.range(p.lossless ? 0 : 3, 6)));
    bool any = false; for (auto x : noises) any |= x != 0;
    if (!single && !any) noises[0] = 1e-3;
  }
  double maxn = s.chance(1, 3) ? 0.05 : 1.0, inc = s.chance(1, 3) ? 2.0 : 1.02, dec = s.chance(1, 3) ? 0.3 : 0.95;
  s.note << ", " << KIND[kind] << ", " << k << " sweeps, noises";
  for (auto x : noises) s.note << " " << x;
  if (noised) s.note << ", at most " << maxn << ", *" << inc << ", *" << dec;
  s.label(KIND[kind]);
  store(u, 0, u.mps_path, single || (noised && s.flip()));
  LanczosParams lp(p.lerr, p.lit);
  FiniteVMPSSweepParams sp = noised ? FiniteVMPSSweepParams(k, p.dmin, p.dmax, p.trunc, lp, noises, maxn, inc, dec, 0.3, u.mps_path, u.temp_path) : FiniteVMPSSweepParams(k, p.dmin, p.dmax, p.trunc, lp, u.mps_path, u.temp_path);
  auto mat = dmrg ? u.h.gen->GenMatReprMPO(true) : decltype(u.h.gen->GenMatReprMPO(true)){};
  double e = 0;
  std::string text;
  mpisim::Options o;
  if (mpi) o = gen_world(s, 2);
  {
    Capture c;
    FiniteMPS<E, Q> mps(u.sv);
    if constexpr (MPI) {
      mpisim::World w(o);
      w.run([&](int rank) {
        FiniteMPS<E, Q> m(u.sv);
        double x;
        if (kind == 6) { auto mine = mat; x = FiniteDMRG(m, mine, sp, MPI_COMM_WORLD); } else { auto mine = u.h.mpo; x = TwoSiteFiniteVMPS(m, mine, sp, MPI_COMM_WORLD); }
        if (rank == 0) e = x;
      });
    } else e = kind == 3 ? FiniteDMRG(mps, mat, sp) : single ? SingleSiteFiniteVMPS(mps, u.h.mpo, sp) : TwoSiteFiniteVMPS(mps, u.h.mpo, sp);
    text = c.sink.str();
  }
  auto rep = parse(text);
  auto fin = read_mps(u.sv, u.mps_path);
  Vec v = dense(fin);
  size_t lb = kind == 0 || single ? 0 : left_boundary(u.D, p.dmax);
  // one heading per sweep
  PBT_REQUIRE(rep.sweeps.size() == k, rep.sweeps.size() << " sweep headings for " << k << " sweeps");
  for (size_t i = 0; i < k; ++i) PBT_REQUIRE(rep.sweeps[i] == i + 1, "sweep " << i + 1 << " is announced as sweep " << rep.sweeps[i]);
  // the updates of every sweep: to the right, then to the left
  size_t at = 0;
  for (size_t sw = 1; sw <= k; ++sw) {
    std::vector<const Line *> l;
    while (at < rep.lines.size() && rep.lines[at].sweep == sw) l.push_back(&rep.lines[at++]);
    size_t top = 0;
    while (top + 1 < l.size() && l[top + 1]->site == l[top]->site + 1) ++top;     // the last update to the right
    std::vector<long> want;
    long b = (long) lb, rb = kind == 0 || single ? (long) u.n - 1 : l.empty() ? 0 : dmrg ? l[top]->site2 : l[top]->site;
    if (!dmrg && !single && kind != 0 && l.size() > 1) { rb = 0; for (auto x : l) rb = std::max(rb, x->site); }
    PBT_REQUIRE(rb < (long) u.n && (rb >= b + 2 || single), "sweep " << sw << ": the updates reported do not reach from site " << b << " to site " << rb << " of " << u.n);
    for (long i = b; i < (single ? rb : rb - 1); ++i) want.push_back(i);
    for (long i = rb; i > (single ? b : b + 1); --i) want.push_back(dmrg ? i - 1 : i);
    PBT_REQUIRE(l.size() == want.size(), "sweep " << sw << " reports " << l.size() << " updates, expected " << want.size());
    for (size_t i = 0; i < l.size(); ++i) {
      PBT_REQUIRE(l[i]->site == want[i], "sweep " << sw << ", update " << i << " reports site " << l[i]->site << ", expected " << want[i]);
      if (dmrg) PBT_REQUIRE(l[i]->site2 == want[i] + 1, "sweep " << sw << ", update " << i << " reports sites " << l[i]->site << " and " << l[i]->site2);
    }
  }
  PBT_REQUIRE(at == rep.lines.size(), "updates are reported outside the sweeps");
  // every line
  double prev = u.e_init, tol = 1e-7 * u.scale;
  std::set<double> now = {0.0};
  size_t cursw = 0;
  for (auto &l : rep.lines) {
    for (auto key : {"E0", "TruncErr", "D", "Iter", "S"}) PBT_REQUIRE(l.has(key) && std::isfinite(l.val.at(key)), "no " << key << " in the line: " << l.text);
    double e0 = l.val.at("E0"), te = l.val.at("TruncErr"), S = l.val.at("S"), noise = 0;
    size_t D = (size_t) l.val.at("D"), it = (size_t) l.val.at("Iter");
    PBT_REQUIRE(e0 >= u.w[0] - tol && e0 <= u.w.back() + tol, "energy outside the spectrum " << u.w[0] << ".." << u.w.back() << ": " << l.text);
    PBT_REQUIRE(it >= 1 && it <= p.lit, "at most " << p.lit << " iterations are allowed: " << l.text);
    PBT_REQUIRE(D >= 1 && D <= p.dmax, "at most " << p.dmax << " states are allowed: " << l.text);
    PBT_REQUIRE(te > -1e-9 && te < 1, "no truncation error: " << l.text);
    if (D < p.dmax) PBT_REQUIRE(te <= p.trunc * 1.006 + 1e-9, "the truncation error exceeds the allowed " << p.trunc << " although fewer than " << p.dmax << " states were kept: " << l.text);
    if (D < p.dmin) PBT_REQUIRE(te <= 1e-9, "fewer than " << p.dmin << " states were kept: " << l.text);
    if (noised && !noises.empty()) {     // the noise starts a sweep at the preset value and is raised and lowered by the given rates up to the maximum
      if (l.sweep != cursw) { cursw = l.sweep; if (cursw <= noises.size()) now = {noises[cursw - 1]}; }
      if (kind != 5) {                    // (the distributed search keeps the preset noise)
        std::set<double> next;
        for (auto x : now) for (double y : {x, x * dec, std::min(x * inc, maxn)}) { auto z = next.lower_bound(y * (1 - 1e-9)); if (z == next.end() || *z > y * (1 + 1e-9)) next.insert(y); }
        now = next;
      }
      double lo = *now.begin(), hi = *now.rbegin();
      noise = hi;
      if (l.has("noise")) {
        noise = l.val.at("noise");
        std::set<double> fit;
        for (auto x : now) if (std::abs(x - noise) <= 0.0051 * std::pow(10, std::floor(std::log10(std::max(x, 1e-300)) + 1e-12)) * 1.1) fit.insert(x);
        PBT_REQUIRE(noise == 0 || !fit.empty(), "the noise is none of those that the rates lead to (" << lo << ".." << hi << "): " << l.text);
        if (noise != 0) now = fit;
      } else PBT_REQUIRE(mpi, "no noise in the line: " << l.text);
    } else if (l.has("noise")) PBT_REQUIRE(l.val.at("noise") == 0, "noise although none was asked for: " << l.text);
    if (noise == 0) {
      PBT_REQUIRE(S > -2e-6 && S <= std::log((double) D) + te * 1.006 + 2e-6, "no entropy of " << D << " states: " << l.text);
    }
    if (p.lossless) PBT_REQUIRE(e0 <= prev + tol, "the energy rose from " << prev << ": " << l.text);
    prev = e0;
  }
  // the last one describes the state on disk
  auto &last = rep.lines.back();
  size_t c = single ? 0 : kind == 0 ? 1 : lb + 1;
  PBT_REQUIRE(std::abs(last.val.at("E0") - e) < 1e-7 * std::max(1.0, std::abs(e)), "energy " << e << " was returned, reported last is: " << last.text);
  PBT_REQUIRE((size_t) last.val.at("D") == fin[c].GetShape()[2], "the bond cut last has dimension " << fin[c].GetShape()[2] << ", reported is: " << last.text);
  bool quiet = !noised || (last.has("noise") ? last.val.at("noise") == 0 : *now.rbegin() == 0);
  if (quiet) {
    double nv = nrm(v), lost = 1 - nv * nv, te = last.val.at("TruncErr");
    PBT_REQUIRE(std::abs(te - lost) < 1e-9 + 0.006 * te, "the last truncation discarded " << lost << ", reported is: " << last.text);
    auto w = schmidt(u.D, v, c + 1);
    for (auto &x : w) x *= nv * nv;
    double S = entropy(w);
    PBT_REQUIRE(std::abs(S - last.val.at("S")) < 2e-6, "the state on disk has entropy " << S << ", reported is: " << last.text);
    s.label("last line compared with the state");
  } else s.label("last line with noise");
  s.nontrivial(u.n >= 4 && u.sec.size() >= 4);
}

// ------------------------------------------------------------------ time evolution
template<typename Q, bool MPI> void p_evolution(Src &s) {
  using E = cd;
  using T = QLTensor<E, Q>;
  auto sv = gen_sites<E, Q>(s, 3, 6, true, 81, 3, 2);
  Dims D = dims_of(sv);
  size_t n = sv.size;
  auto h = gen_ham(s, sv, 6);
  FiniteMPS<E, Q> start(sv);
  bool full = s.chance(1, 2);
  if (full) {
    std::vector<size_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = s.below(D.d[i]);
    start = full_mps(s, sv, charge(sv, c), (int) s.below(3));
  } else start = gen_mps<E, Q>(s, sv);
  if (nrm(dense(start)) < 1e-6) throw pbt::Discard();
  start.Centralize(0);
  start[0] *= 1 / start[0].Get2Norm();
  bool lossless = s.chance(1, 2);
  size_t dmin = 1, dmax = 100000; double trunc = 0;
  if (!lossless) { dmax = (size_t) s.range(1, 8); dmin = (size_t) s.range(1, (int64_t) dmax); trunc = s.flip() ? 0 : std::pow(10.0, -(double) s.range(1, 8)); }
  double tau = s.coef() * std::pow(10.0, -(double) s.range(0, 2)) / std::max(1.0, fro(h.H) / std::sqrt((double) h.H.n));
  size_t steps = (size_t) s.big(1, 2, 5);
  LanczosParams lp(1e-13, 80);
  s.note << qname<Q>() << ", " << show(sv) << ", " << h.terms << " terms, " << show_bonds(start) << ", " << (MPI ? "distributed, " : "") << steps << " steps of " << tau << ", D " << dmin << ".." << dmax << ", truncation error " << trunc;
  start.Dump(kMpsPath);
  Dense<Q> ref(sv, h.H, dmin, dmax, trunc);
  ref.frames(start, 0);
  if (MPI) ref.keep_norm = 1;
  auto &site = sv.sites[0];
  T id = op_from<E>(site, eye(site.dim()));
  std::string text;
  mpisim::Options o;
  if (MPI) o = gen_world(s, 2);
  {
    Capture c;
    if constexpr (MPI) {
      MPITDVPSweepParams<Q> p(tau, steps, 0, id, T(), id, T(), 0, dmin, dmax, trunc, lp);
      mpisim::World w(o);
      w.run([&](int) { FiniteMPS<E, Q> m(sv); auto mine = h.mpo; TwoSiteFiniteTDVP(m, mine, p, "out", MPI_COMM_WORLD); });
    } else {
      TDVPEvolveParams<Q> p(tau, steps, 0, id, T(), id, T(), 0, dmin, dmax, trunc, lp);
      FiniteMPS<E, Q> m(sv);
      TwoSiteFiniteTDVP(m, h.mpo, p, "out");
    }
    text = c.sink.str();
  }
  auto rep = parse(text);
  size_t per = 4 * n - 7, at = 0;       // 2n-3 pairs and 2n-4 single sites
  PBT_REQUIRE(rep.lines.size() == steps * per, rep.lines.size() << " updates are reported, expected " << steps * per);
  size_t compared = 0;
  for (size_t st = 0; st < steps; ++st) {
    if (ref.fragile.empty()) ref.step(tau);
    for (size_t i = 0; i < 2 * n - 3; ++i) {
      long want = i + 2 < n ? (long) i : i + 1 < 2 * n - 3 ? (long) (2 * n - 3 - i) : 0, back = i + 2 < n ? want + 1 : want - 1;
      auto &l = rep.lines[at++];
      PBT_REQUIRE(l.site == want, "step " << st << ", pair " << i << " is reported for site " << l.site << ", expected " << want);
      for (auto key : {"TruncErr", "D", "Iter", "S"}) PBT_REQUIRE(l.has(key) && std::isfinite(l.val.at(key)), "no " << key << " in the line: " << l.text);
      size_t d = (size_t) l.val.at("D");
      double te = l.val.at("TruncErr"), S = l.val.at("S");
      PBT_REQUIRE(d >= 1 && d <= dmax, "at most " << dmax << " states are allowed: " << l.text);
      PBT_REQUIRE(te > -1e-9 && te < 1, "no truncation error: " << l.text);
      if (d < dmax) PBT_REQUIRE(te <= trunc * 1.006 + 1e-9, "the truncation error exceeds the allowed " << trunc << ": " << l.text);
      PBT_REQUIRE(S > -1e-6 && S <= std::log((double) d) + 1, "no entropy of " << d << " states: " << l.text);
      if (ref.fragile.empty() && st * (2 * n - 3) + i < ref.cuts.size()) {
        auto &c = ref.cuts[st * (2 * n - 3) + i];
        ++compared;
        PBT_REQUIRE(c.site == (size_t) want, "HARNESS: the integrator cuts elsewhere");
        PBT_REQUIRE(c.D == d, "step " << st << ", the integrator keeps " << c.D << " states: " << l.text);
        PBT_REQUIRE(std::abs(c.lost - te) < 1e-6 + 0.006 * te, "step " << st << ", the integrator discards " << c.lost << ": " << l.text);
        SV w; for (auto x : c.s) w.push_back(x * x);
        PBT_REQUIRE(std::abs(entropy(w) - S) < 1e-5, "step " << st << ", the entropy of the cut is " << entropy(w) << ": " << l.text);
      }
      if (i + 1 < 2 * n - 3) {
        auto &b = rep.lines[at++];
        PBT_REQUIRE(b.site == back, "step " << st << ", the backward evolution of site " << back << " is reported for site " << b.site);
        PBT_REQUIRE(b.has("Iter") && b.val.at("Iter") >= 1 && b.val.at("Iter") <= 80, "iterations: " << b.text);
      }
    }
  }
  s.label(compared == steps * (2 * n - 3) ? "compared with the dense integrator" : "not compared: " + ref.fragile);
  s.nontrivial(n >= 4 && compared >= 5);
}

#define RP_DISPATCH(fn, mpi) [](pbt::Src &s) { if (s.flip()) { s.label("complex, U1xU1"); fn<cd, U1U1, mpi>(s); } else { s.label("real, U1"); fn<double, U1, mpi>(s); } }
int main(int argc, char **argv) {
  pbt::want_scratch() = true;
  return pbt::main_(argc, argv, {
      {"C27", "search", RP_DISPATCH(p_search, false), 3000, 60000},
      {"C27", "distributed_search", RP_DISPATCH(p_search, true), 1500, 40000},
      {"C27", "evolution", p_evolution<U1, false>, 1500, 40000},
      {"C27", "distributed_evolution", p_evolution<U1, true>, 500, 10000},
  });
}
