// C10 (matrix product operator generation) and C11 (model spaces, operators and coupling helpers)
#include "ten.h"
#include "qlmps/one_dim_tn/mpo/mpo.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/model_relevant/operators/operators_all.h"
#include <memory>
using namespace tn;

// ---------------------------------------------------------------- C10
template<typename E, typename Q> struct Pool {
  struct It { Index<Q> site; Q dq; Mat m; };
  std::vector<It> items;
  Mat get(Src &s, const Index<Q> &x, const Q &dq) {
    std::vector<size_t> fit;
    for (size_t i = 0; i < items.size(); ++i) if (items[i].site == x && items[i].dq == dq) fit.push_back(i);
    if (!fit.empty() && s.chance(2, 3)) {
      Mat m = items[s.pick(fit)].m;
      if (s.chance(1, 4)) m = scaled(s.flip() ? -1.0 : 2.0, m);
      return m;
    }
    Mat m;
    if (!gen_opmat<E, Q>(s, x, dq, m)) pbt::fail("generator: no such operator");
    items.push_back({x, dq, m});
    return m;
  }
};
template<typename E, typename Q> std::map<size_t, Mat> gen_term(Src &s, const SiteVec<E, Q> &sv, Pool<E, Q> &pool, size_t kmax) {
  size_t n = sv.size, k = (size_t) s.range(1, std::min(kmax, n));
  auto pm = s.perm(n);
  std::vector<size_t> sites(pm.begin(), pm.begin() + k);
  std::sort(sites.begin(), sites.end());
  std::vector<size_t> from(k), to(k);
  for (size_t i = 0; i < k; ++i) from[i] = to[i] = s.below(sv.sites[sites[i]].dim());
  auto tot = [&](const std::vector<size_t> &c) { Q q = sv.sites[sites[0]].QnAt(c[0]); for (size_t i = 1; i < k; ++i) q = q + sv.sites[sites[i]].QnAt(c[i]); return q; };
  Q q0 = tot(from);
  if (k > 1 && s.chance(3, 4))
    for (int t = 0; t < 12; ++t) {
      auto e = from;
      for (size_t i = 0; i < k; ++i) e[i] = s.below(sv.sites[sites[i]].dim());
      if (tot(e) == q0) { to = e; if (e != from) break; }
    }
  std::map<size_t, Mat> r;
  for (size_t i = 0; i < k; ++i) {
    auto &x = sv.sites[sites[i]];
    r[sites[i]] = pool.get(s, x, x.QnAt(to[i]) - x.QnAt(from[i]));
  }
  return r;
}
template<typename E> cd C(E e) { return cd(e); }

template<typename T> void check_structure(const T &mpo, const std::string &what) {
  for (size_t i = 0; i < mpo.size(); ++i) {
    const auto &t = mpo[i];
    auto d = Div(t);
    PBT_REQUIRE(d == d - d, what << ": MPO tensor " << i << " carries a charge");
    if (i + 1 < mpo.size())
      PBT_REQUIRE(t.GetIndexes()[3] == InverseIndex(mpo[i + 1].GetIndexes()[0]), what << ": the bond between MPO tensors " << i << " and " << i + 1 << " does not match");
  }
}

template<typename E, typename Q> void p_mpogen(Src &s) {
  bool uniform = s.chance(1, 2);
  auto sv = gen_sites<E, Q>(s, 2, 5, uniform, 100, 3, 2);
  Dims D = dims_of(sv);
  size_t n = sv.size;
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "\n";
  MPOGenerator<E, Q> gen = s.flip() ? MPOGenerator<E, Q>(sv, Q(sv.sites[0].QnAt(0) - sv.sites[0].QnAt(0))) : MPOGenerator<E, Q>(sv);
  Pool<E, Q> pool;
  size_t nt = (size_t) s.big(1, 8, 30), live = 0, wide = 0;
  Mat ref(D.total());
  using T = QLTensor<E, Q>;
  auto op = [&](size_t site, const Mat &m) { return op_from<E, Q>(sv.sites[site], m); };
  std::vector<std::map<size_t, Mat>> hist;
  for (size_t t = 0; t < nt; ++t) {
    E c = coef<E>(s);
    if (t > 0 && s.chance(1, 12)) c = s.flip() ? E(0) : E(1e-17);
    auto term = (!hist.empty() && s.chance(1, 6)) ? s.pick(hist) : gen_term<E, Q>(s, sv, pool, 4);
    hist.push_back(term);
    std::vector<size_t> sites;
    std::vector<Mat> ms;
    for (auto &x : term) { sites.push_back(x.first); ms.push_back(x.second); }
    size_t k = sites.size();
    std::map<size_t, Mat> all = term;
    auto pick_inst = [&](const Index<Q> &x) { Mat m; Q z = x.QnAt(0) - x.QnAt(0); if (s.chance(1, 3)) { m = eye(x.dim()); for (size_t i = 0; i < x.dim(); ++i) if (s.flip()) m(i, i) = -1; } else m = pool.get(s, x, z); return m; };
    int form = (int) s.below(5);
    s.note << "term " << c << " on";
    for (auto x : sites) s.note << " " << x;
    if (k == 1 && form >= 2) {
      s.note << " (single operator form)\n"; s.label("single-operator form");
      gen.AddTerm(c, op(sites[0], ms[0]), sites[0]);
    } else if (k == 2 && form == 2) {
      bool swap = s.chance(1, 3) && sites[0] != 0;
      s.note << " (pair form" << (swap ? ", reversed" : "") << ")\n"; s.label("pair form");
      size_t a = swap ? 1 : 0, b = 1 - a;
      gen.AddTerm(c, op(sites[a], ms[a]), sites[a], op(sites[b], ms[b]), sites[b]);
    } else if (k == 2 && form == 3) {
      // pair with an insertion operator
      std::vector<size_t> mid;
      for (size_t j = sites[0] + 1; j < sites[1]; ++j) if (uniform || sv.sites[j] == sv.sites[sites[0]]) mid.push_back(j);
      Mat im = pick_inst(sv.sites[sites[0]]);
      bool all_mid = mid.size() == sites[1] - sites[0] - 1;
      if (all_mid && s.flip()) {
        s.note << " (pair with insertion everywhere between)\n"; s.label("pair with insertion");
        for (auto j : mid) all[j] = im;
        gen.AddTerm(c, op(sites[0], ms[0]), sites[0], op(sites[1], ms[1]), sites[1], op(sites[0], im));
      } else {
        std::vector<size_t> at;
        for (auto j : mid) if (s.flip()) at.push_back(j);
        if (at.empty() && !all_mid) { s.note << " (pair)\n"; gen.AddTerm(c, op(sites[0], ms[0]), sites[0], op(sites[1], ms[1]), sites[1]); }
        else {
          // an empty list means "everywhere between"
          for (auto j : at.empty() ? mid : at) all[j] = im;
          s.note << " (pair with insertion at listed sites)\n"; s.label("pair with listed insertion");
          gen.AddTerm(c, op(sites[0], ms[0]), sites[0], op(sites[1], ms[1]), sites[1], op(sites[0], im), at);
        }
      }
    } else if (k >= 2 && form == 4) {
      // strings, possibly with a tail
      bool tail = s.flip(), listed = !uniform || s.flip();
      std::vector<T> inst;
      std::vector<std::vector<size_t>> lists;
      std::vector<T> phys;
      for (size_t i = 0; i < k; ++i) phys.push_back(op(sites[i], ms[i]));
      for (size_t g = 0; g < (tail ? k : k - 1); ++g) {
        size_t lo = sites[g] + 1, hi = g + 1 < k ? sites[g + 1] : n;
        Mat im = pick_inst(sv.sites[sites[g]]);
        inst.push_back(op(sites[g], im));
        lists.emplace_back();
        for (size_t j = lo; j < hi; ++j) {
          if (listed && !(sv.sites[j] == sv.sites[sites[g]] && s.flip())) continue;
          lists.back().push_back(j);
          all[j] = im;
        }
      }
      s.note << " (string form" << (listed ? ", listed sites" : "") << (tail ? ", tail" : "") << ")\n";
      s.label(std::string("string form") + (listed ? ", listed sites" : "") + (tail ? ", tail" : ""));
      if (listed) gen.AddTerm(c, phys, sites, inst, lists); else gen.AddTerm(c, phys, sites, inst);
    } else {
      auto pm = s.chance(1, 3) ? s.perm(k) : std::vector<size_t>();
      std::vector<T> ops; std::vector<size_t> idx;
      for (size_t i = 0; i < k; ++i) { size_t j = pm.empty() ? i : pm[i]; ops.push_back(op(sites[j], ms[j])); idx.push_back(sites[j]); }
      s.note << (pm.empty() ? "\n" : " (given in another order)\n");
      s.label(pm.empty() ? "general form" : "general form, unsorted");
      gen.AddTerm(c, ops, idx);
    }
    if (std::abs(c) > 1e-15) { ++live; if (all.rbegin()->first - all.begin()->first >= 1) ++wide; ref = axpy(C(c), embed(D, all), ref); }
  }
  s.nontrivial(live >= 2 && wide >= 1 && n >= 3);
  double tol = 1e-10 * (1 + fro(ref)) ;
  auto order = s.below(2);
  for (int pass = 0; pass < 3; ++pass) {
    bool compress = (pass + order) % 2 == 0;
    auto mpo = gen.Gen(compress);
    PBT_REQUIRE(mpo.size() == n, "the MPO has " << mpo.size() << " tensors for " << n << " sites");
    std::string what = compress ? "compressed MPO" : "uncompressed MPO";
    check_structure(mpo, what);
    Mat got = dense_mpo(mpo);
    double d = maxdiff(got.a, ref.a);
    PBT_REQUIRE(d < tol, what << (pass == 2 ? " (generated again)" : "") << " is not the sum of the added terms: largest deviation " << d);
  }
  auto mr = gen.GenMatReprMPO();
  PBT_REQUIRE(mr.size() == n, "wrong number of matrices");
  std::vector<std::pair<size_t, Mat>> row = {{0, eye(1)}};
  size_t cols = 1;
  double mem = 0;
  for (size_t i = 0; i < n; ++i) {
    PBT_REQUIRE(mr[i].rows == cols, "matrix form: " << mr[i].rows << " rows on site " << i << " after " << cols << " columns");
    size_t dim = 1; for (size_t j = 0; j <= i; ++j) dim *= D.d[j];
    std::vector<Mat> nx(mr[i].cols, Mat(dim));
    std::vector<char> used(mr[i].cols, 0);
    for (auto &r : row) for (size_t y = 0; y < mr[i].cols; ++y) if (!mr[i].IsNull(r.first, y)) {
      const T &t = mr[i](r.first, y);
      nx[y] = axpy(1.0, kron(r.second, mat_of<E, Q>(t)), nx[y]);
      used[y] = 1;
    }
    for (size_t x = 0; x < mr[i].rows; ++x) for (size_t y = 0; y < mr[i].cols; ++y) if (!mr[i].IsNull(x, y)) mem += mr[i](x, y).GetRawDataMemUsage();
    row.clear();
    for (size_t y = 0; y < nx.size(); ++y) if (used[y]) row.push_back({y, nx[y]});
    cols = mr[i].cols;
  }
  PBT_REQUIRE(cols == 1 && row.size() == 1, "matrix form does not end in one column");
  double d = maxdiff(row[0].second.a, ref.a);
  PBT_REQUIRE(d < tol, "the matrix form of the MPO is not the sum of the added terms: largest deviation " << d);
  PBT_REQUIRE(std::abs(MemUsage(mr) - mem) <= 1e-12 * (1 + mem), "MemUsage is not the sum over the stored operators");
}

// ---------------------------------------------------------------- C11
// Fock space built here: modes ordered by site, spin up before spin down
struct Fock {
  size_t modes;
  size_t dim() const { return (size_t) 1 << modes; }
  // c_m |bits>, mode 0 is the leftmost creation operator
  Mat annih(size_t m) const {
    Mat r(dim());
    for (size_t b = 0; b < dim(); ++b) if (b >> m & 1) {
      int sg = 0; for (size_t j = 0; j < m; ++j) sg += (int) (b >> j & 1);
      r(b & ~((size_t) 1 << m), b) = sg % 2 ? -1.0 : 1.0;
    }
    return r;
  }
};
// bits (up: bit 0, down: bit 1) of the local basis states
template<typename Site> std::vector<size_t> hub_bits(const Site &st) {
  std::vector<size_t> b(4, 99);
  b.at(st.empty) = 0; b.at(st.spin_up) = 1; b.at(st.spin_down) = 2; b.at(st.double_occupancy) = 3;
  for (auto x : b) PBT_REQUIRE(x != 99, "two local states share a label");
  return b;
}
template<typename Site> std::vector<size_t> tj_bits(const Site &st) {
  std::vector<size_t> b(3, 99);
  b.at(st.empty) = 0; b.at(st.spin_up) = 1; b.at(st.spin_down) = 2;
  for (auto x : b) PBT_REQUIRE(x != 99, "two local states share a label");
  return b;
}
inline Mat project(const Mat &m, const std::vector<size_t> &states) {
  Mat r(states.size());
  for (size_t i = 0; i < r.n; ++i) for (size_t j = 0; j < r.n; ++j) r(i, j) = m(states[i], states[j]);
  return r;
}
// Fock index of every chain basis state
inline std::vector<size_t> chain_states(size_t n, const std::vector<size_t> &bits) {
  std::vector<size_t> r; size_t d = bits.size(), tot = 1;
  for (size_t i = 0; i < n; ++i) tot *= d;
  for (size_t o = 0; o < tot; ++o) {
    size_t x = o, f = 0;
    for (size_t i = n; i-- > 0;) { f |= bits[x % d] << (2 * i); x /= d; }
    r.push_back(f);
  }
  return r;
}
template<typename E, typename Q> void same(const QLTensor<E, Q> &t, const Mat &m, const char *name) {
  PBT_REQUIRE(t.Rank() == 2 && t.GetShape()[0] == m.n && t.GetShape()[1] == m.n, name << " has the wrong shape");
  PBT_REQUIRE(t.GetIndexes()[0].GetDir() == IN && t.GetIndexes()[1].GetDir() == OUT, name << " has the wrong leg directions");
  double d = maxdiff(mat_of<E, Q>(t).a, m.a);
  PBT_REQUIRE(d < 1e-14, "operator " << name << " is wrong (largest deviation " << d << ")");
}
template<typename E, typename Q> void check_ferm_charges(const Index<Q> &x, const std::vector<size_t> &bits) {
  for (size_t c = 0; c < bits.size(); ++c) {
    int nn = (int) (bits[c] & 1) + (int) (bits[c] >> 1), sz = (int) (bits[c] & 1) - (int) (bits[c] >> 1);
    if constexpr (std::is_same_v<Q, U1U1>) PBT_REQUIRE(x.QnAt(c).val(0) == nn && x.QnAt(c).val(1) == sz, "local state " << c << " carries the wrong charges " << x.QnAt(c).Str());
    if constexpr (std::is_same_v<Q, U1>) PBT_REQUIRE(x.QnAt(c).val(0) == sz, "local state " << c << " carries the wrong charge");
  }
}

template<typename E, typename Q> void p_hub_ops(Src &s) {
  sites::HubbardSite<Q> st;
  auto bits = hub_bits(st);
  PBT_REQUIRE(st.phys_bond_out.dim() == 4 && st.phys_bond_out.GetDir() == OUT && st.phys_bond_in == InverseIndex(st.phys_bond_out), "Hubbard site space");
  check_ferm_charges<E, Q>(st.phys_bond_out, bits);
  Fock F{2};
  Mat cu = F.annih(0), cdn = F.annih(1), cuD = dag(cu), cdD = dag(cdn);
  Mat nu = mul(cuD, cu), nd = mul(cdD, cdn), N = axpy(1.0, nu, nd), par = eye(4);
  for (size_t b = 0; b < 4; ++b) par(b, b) = (b == 1 || b == 2) ? -1 : 1;
  // hard-core bosons: the same matrix elements without exchange signs
  Mat bu = cu, bd = cdn;
  for (auto &x : bu.a) x = std::abs(x);
  for (auto &x : bd.a) x = std::abs(x);
  auto P = [&](const Mat &m) { return project(m, bits); };
  using Ops = HubbardOperators<E, Q>;
  auto all = [&](const Ops &o) {
    same(o.sz, P(scaled(0.5, axpy(-1.0, nd, nu))), "sz");
    same(o.sp, P(mul(cuD, cdn)), "sp"); same(o.sm, P(mul(cdD, cu)), "sm"); same(o.id, eye(4), "id"); same(o.f, P(par), "f");
    same(o.bupc, P(dag(bu)), "bupc"); same(o.bupa, P(bu), "bupa"); same(o.bdnc, P(dag(bd)), "bdnc"); same(o.bdna, P(bd), "bdna");
    same(o.bupcF, P(mul(dag(bu), par)), "bupcF"); same(o.bupaF, P(mul(bu, par)), "bupaF");
    same(o.Fbdnc, P(mul(par, dag(bd))), "Fbdnc"); same(o.Fbdna, P(mul(par, bd)), "Fbdna");
    same(o.cupccdnc, P(mul(cuD, cdD)), "cupccdnc"); same(o.cdnacupa, P(mul(cdn, cu)), "cdnacupa");
    same(o.cupccdna, P(mul(cuD, cdn)), "cupccdna"); same(o.cdnccupa, P(mul(cdD, cu)), "cdnccupa");
    same(o.nupndn, P(mul(nu, nd)), "nupndn"); same(o.Uterm, P(mul(nu, nd)), "Uterm"); same(o.nf, P(N), "nf"); same(o.nfsquare, P(mul(N, N)), "nfsquare");
    same(o.nup, P(nu), "nup"); same(o.ndn, P(nd), "ndn");
    if constexpr (std::is_same_v<Q, TrivQ>) {
      same(o.GetSx(), P(scaled(0.5, axpy(1.0, mul(cuD, cdn), mul(cdD, cu)))), "sx");
      if constexpr (IsC<E>::v) same(o.GetSy(), P(scaled(cd(0, -0.5), axpy(-1.0, mul(cdD, cu), mul(cuD, cdn)))), "sy");
    }
  };
  // the same operators from a default object, an explicit site, and copies that outlive their source
  size_t hist = s.below(4);
  s.note << "Hubbard operators " << ename<E>() << " " << qname<Q>() << " history " << hist << "\n";
  s.nontrivial();
  if (hist == 0) { Ops o; all(o); }
  else if (hist == 1) { Ops o(st); all(o); }
  else {
    auto p = std::make_unique<Ops>();
    Ops q(*p);
    if (hist == 3) { *p->sp.data().data() = 7; }      // the copy must not change with its source
    p.reset();
    std::vector<Ops> junk(3, q);
    all(q); all(junk[1]);
  }
}
template<typename E, typename Q> void p_tj_ops(Src &s) {
  sites::tJSite<Q> st;
  auto bits = tj_bits(st);
  PBT_REQUIRE(st.phys_bond_out.dim() == 3 && st.phys_bond_out.GetDir() == OUT && st.phys_bond_in == InverseIndex(st.phys_bond_out), "tJ site space");
  check_ferm_charges<E, Q>(st.phys_bond_out, bits);
  Fock F{2};
  Mat cu = F.annih(0), cdn = F.annih(1), cuD = dag(cu), cdD = dag(cdn);
  Mat nu = mul(cuD, cu), nd = mul(cdD, cdn), N = axpy(1.0, nu, nd), par = eye(4);
  for (size_t b = 0; b < 4; ++b) par(b, b) = (b == 1 || b == 2) ? -1 : 1;
  auto P = [&](const Mat &m) { return project(m, bits); };
  bool copy = s.flip();
  s.note << "tJ operators " << ename<E>() << " " << qname<Q>() << (copy ? " (copied)" : "") << "\n"; s.nontrivial();
  auto o0 = std::make_unique<tJOperators<E, Q>>(st);
  tJOperators<E, Q> o(*o0);
  if (copy) o0.reset();
  same(o.sz, P(scaled(0.5, axpy(-1.0, nd, nu))), "sz"); same(o.sp, P(mul(cuD, cdn)), "sp"); same(o.sm, P(mul(cdD, cu)), "sm");
  same(o.id, eye(3), "id"); same(o.f, P(par), "f");
  same(o.bupc, P(cuD), "bupc"); same(o.bupa, P(cu), "bupa"); same(o.bdnc, P(cdD), "bdnc"); same(o.bdna, P(cdn), "bdna");
  same(o.nf, P(N), "nf"); same(o.nup, P(nu), "nup"); same(o.ndn, P(nd), "ndn");
  same(o.bdnc_multi_bupa, P(mul(cdD, cu)), "bdnc_multi_bupa"); same(o.bupc_multi_bdna, P(mul(cuD, cdn)), "bupc_multi_bdna");
}
template<typename E, typename Q> void p_spin_ops(Src &s) {
  sites::SpinOneHalfSite<Q> st;
  PBT_REQUIRE(st.phys_bond_out.dim() == 2 && st.phys_bond_in == InverseIndex(st.phys_bond_out) && st.spin_up + st.spin_down == 1, "spin-1/2 site space");
  if constexpr (std::is_same_v<Q, U1>) PBT_REQUIRE(st.phys_bond_out.QnAt(st.spin_up).val(0) == 1 && st.phys_bond_out.QnAt(st.spin_down).val(0) == -1, "spin-1/2 charges");
  s.note << "spin operators " << ename<E>() << " " << qname<Q>() << "\n"; s.nontrivial();
  auto sv = st.template GenUniformSites<E>((size_t) s.range(1, 6));
  for (auto &x : sv.sites) PBT_REQUIRE(x == st.phys_bond_out, "uniform sites");
  for (size_t i = 0; i < sv.size; ++i) same(sv.id_ops[i], eye(2), "identity of the site vector");
  SpinOneHalfOperators<E, Q> o(st);
  size_t u = st.spin_up, d = st.spin_down;
  Mat sz(2), sp(2); sz(u, u) = 0.5; sz(d, d) = -0.5; sp(u, d) = 1;
  same(o.sz, sz, "sz"); same(o.sp, sp, "sp"); same(o.sm, dag(sp), "sm"); same(o.id, eye(2), "id");
  if constexpr (std::is_same_v<Q, TrivQ>) {
    same(o.GetSx(), scaled(0.5, axpy(1.0, sp, dag(sp))), "sx");
    if constexpr (IsC<E>::v) same(o.GetSy(), scaled(cd(0, -0.5), axpy(-1.0, dag(sp), sp)), "sy");
  }
}
// Hamiltonians assembled with the helpers, against the same Hamiltonian written in Fock space
enum Model { SPIN, TJ, HUB };
template<typename E, typename Q, Model M> void p_model(Src &s) {
  size_t nmax = M == SPIN ? 6 : M == TJ ? 4 : 3;
  size_t n = (size_t) s.range(2, nmax);
  auto mkops = [&] {
    if constexpr (M == SPIN) return std::make_pair(sites::SpinOneHalfSite<Q>(), SpinOneHalfOperators<E, Q>());
    else if constexpr (M == TJ) return std::make_pair(sites::tJSite<Q>(), tJOperators<E, Q>());
    else return std::make_pair(sites::HubbardSite<Q>(), 0);
  };
  auto so = mkops();
  auto &site = so.first;
  SiteVec<E, Q> sv = site.template GenUniformSites<E>(n);
  PBT_REQUIRE(sv.size == n, "GenUniformSites");
  MPOGenerator<E, Q> gen(sv);
  std::vector<size_t> bits;
  if constexpr (M == SPIN) { bits.resize(2); bits[site.spin_up] = 1; bits[site.spin_down] = 2; }
  else if constexpr (M == TJ) bits = tj_bits(site); else bits = hub_bits(site);
  auto states = chain_states(n, bits);
  Fock F{2 * n};
  // work in the chain basis directly: apply Fock operators to basis states
  size_t dim = states.size();
  std::map<size_t, size_t> inv; for (size_t i = 0; i < dim; ++i) inv[states[i]] = i;
  Mat ref(dim);
  // add coef * product of (mode, dagger) applied right to left
  auto add = [&](cd c, std::vector<std::pair<size_t, bool>> w) {
    for (size_t i = 0; i < dim; ++i) {
      size_t b = states[i]; double sg = 1; bool ok = true;
      for (size_t k = w.size(); k-- > 0 && ok;) {
        size_t m = w[k].first; bool occ = b >> m & 1;
        if (occ == w[k].second) { ok = false; break; }
        for (size_t j = 0; j < m; ++j) if (b >> j & 1) sg = -sg;
        b ^= (size_t) 1 << m;
      }
      if (ok && inv.count(b)) ref(inv[b], i) += c * sg;
    }
  };
  size_t nb = (size_t) s.big(1, 6, 16);
  s.note << (M == SPIN ? "spin" : M == TJ ? "tJ" : "Hubbard") << " " << ename<E>() << " " << qname<Q>() << " N=" << n << ":";
  bool far = false;
  HubbardOperators<E, TrivQ> *dummy = nullptr; (void) dummy;
  for (size_t t = 0; t < nb; ++t) {
    size_t i = s.below(n), j = s.below(n - 1); if (j >= i) ++j;
    far |= (i > j ? i - j : j - i) >= 2;
    bool heis = M == SPIN || s.chance(1, 3);
    bool dflt = s.flip();
    if (heis) {
      double J = s.coef();
      s.note << " J(" << i << "," << j << ")=" << J;
      if constexpr (M == HUB) { HubbardOperators<E, Q> o; AddHeisenbergCoupling(gen, J, i, j, o); }
      else AddHeisenbergCoupling(gen, J, i, j, so.second);
      size_t iu = 2 * i, id = iu + 1, ju = 2 * j, jd = ju + 1;
      for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b)
        add(J * 0.25 * (a == b ? 1 : -1), {{a ? id : iu, true}, {a ? id : iu, false}, {b ? jd : ju, true}, {b ? jd : ju, false}});
      add(J * 0.5, {{iu, true}, {id, false}, {jd, true}, {ju, false}});
      add(J * 0.5, {{id, true}, {iu, false}, {ju, true}, {jd, false}});
    } else {
      E tt = coef<E>(s);
      if (M == HUB) tt = E(std::real(cd(tt)));
      if (std::abs(tt) < 1e-3) tt = E(1);
      s.note << " t(" << i << "," << j << ")=" << tt;
      if constexpr (M == TJ) { if (dflt) AddTJHoppingTerms(gen, tt, i, j); else AddTJHoppingTerms(gen, tt, i, j, so.second); }
      if constexpr (M == HUB) {
        if (dflt) AddHubbardHoppingTerms(gen, std::real(cd(tt)), i, j);
        else { HubbardOperators<E, Q> o(site); AddHubbardHoppingTerms(gen, std::real(cd(tt)), i, j, o); }
      }
      for (size_t sp = 0; sp < 2; ++sp) {
        add(-cd(tt), {{2 * i + sp, true}, {2 * j + sp, false}});
        add(-std::conj(cd(tt)), {{2 * j + sp, true}, {2 * i + sp, false}});
      }
    }
  }
  s.note << "\n";
  s.nontrivial(nb >= 2 && (n >= 3 ? far : true));
  s.label(M == SPIN ? "spin model" : M == TJ ? "tJ model" : "Hubbard model");
  auto mpo = gen.Gen(s.flip());
  Mat got = dense_mpo(mpo);
  double d = maxdiff(got.a, ref.a);
  PBT_REQUIRE(d < 1e-10 * (1 + fro(ref)), "the assembled Hamiltonian differs from the Fock-space one: largest deviation " << d);
}
static void p_ops(Src &s) {
  switch (s.below(13)) {
    case 0: p_spin_ops<double, U1>(s); break;
    case 1: p_spin_ops<cd, TrivQ>(s); break;
    case 2: p_spin_ops<double, TrivQ>(s); break;
    case 3: p_tj_ops<double, U1U1>(s); break;
    case 4: p_tj_ops<cd, TrivQ>(s); break;
    case 5: p_tj_ops<double, U1>(s); break;
    case 6: case 7: p_hub_ops<double, U1U1>(s); break;
    case 8: case 9: p_hub_ops<cd, TrivQ>(s); break;
    default: p_hub_ops<double, U1>(s); break;
  }
}
static void p_models(Src &s) {
  switch (s.below(9)) {
    case 0: p_model<double, U1, SPIN>(s); break;
    case 1: p_model<cd, TrivQ, SPIN>(s); break;
    case 2: p_model<cd, U1U1, TJ>(s); break;
    case 3: p_model<double, U1, TJ>(s); break;
    case 4: p_model<cd, TrivQ, TJ>(s); break;
    case 5: p_model<double, U1U1, HUB>(s); break;
    case 6: p_model<cd, U1U1, HUB>(s); break;
    case 7: p_model<double, U1, HUB>(s); break;
    default: p_model<cd, TrivQ, HUB>(s); break;
  }
}
static void p_gen(Src &s) {
  switch (s.below(4)) {
    case 0: p_mpogen<double, U1>(s); break;
    case 1: p_mpogen<cd, U1>(s); break;
    case 2: p_mpogen<double, U1U1>(s); break;
    default: p_mpogen<cd, TrivQ>(s); break;
  }
}
int main(int argc, char **argv) {
  return pbt::main_(argc, argv, {
      {"C10", "mpo_is_sum_of_terms", p_gen, 8000, 150000},
      {"C11", "local_operators", p_ops, 400, 2000},
      {"C11", "model_hamiltonians", p_models, 4000, 60000},
  });
}
