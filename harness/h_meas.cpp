// C16 measurements, in memory and from disk, against expectation values of the dense state.
#include "ten.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h"
using namespace tn;

// ---- a minimal JSON reader: nested lists of numbers ------------------------
struct Node { bool leaf = true; double v = 0; std::vector<Node> l; };
struct Js {
  std::string t; size_t p = 0;
  void ws() { while (p < t.size() && isspace((unsigned char) t[p])) ++p; }
  Node parse() {
    ws();
    Node n;
    if (p < t.size() && t[p] == '[') {
      n.leaf = false; ++p; ws();
      if (p < t.size() && t[p] == ']') { ++p; return n; }
      for (;;) {
        n.l.push_back(parse()); ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == ']') { ++p; return n; }
        pbt::fail("the result file is not valid JSON near position " + std::to_string(p) + ": " + t);
      }
    }
    const char *b = t.c_str() + p; char *e = nullptr;
    n.v = strtod(b, &e);
    if (e == b || !(isdigit((unsigned char) *b) || *b == '-')) pbt::fail("the result file is not valid JSON near position " + std::to_string(p) + ": " + t);
    p += e - b;
    return n;
  }
};
static Node read_json(const std::string &f) {
  std::ifstream in(f);
  PBT_REQUIRE(in.good(), "the result file " << f << " is missing");
  Js j; j.t.assign((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  Node n = j.parse(); j.ws();
  PBT_REQUIRE(j.p == j.t.size() && !n.leaf, "the result file " << f << " is not one JSON list");
  return n;
}
static bool digits12(double file, double val) { return std::abs(file - val) <= 1e-11 * std::abs(val); }
template<typename E> void check_file(const std::string &base, const MeasuRes<E> &r) {
  Node n = read_json(base + ".json");
  PBT_REQUIRE(n.l.size() == r.size(), base << ".json has " << n.l.size() << " entries for " << r.size() << " results");
  for (size_t i = 0; i < r.size(); ++i) {
    auto &e = n.l[i];
    PBT_REQUIRE(!e.leaf && e.l.size() == 2 && !e.l[0].leaf && e.l[0].l.size() == r[i].sites.size(), base << ".json: entry " << i << " is not [sites, value]");
    for (size_t k = 0; k < r[i].sites.size(); ++k) PBT_REQUIRE(e.l[0].l[k].v == (double) r[i].sites[k], base << ".json: entry " << i << " names the wrong sites");
    auto &v = e.l[1];
    cd want = r[i].avg;
    if (IsC<E>::v) PBT_REQUIRE(!v.leaf && v.l.size() == 2 && digits12(v.l[0].v, want.real()) && digits12(v.l[1].v, want.imag()), base << ".json: entry " << i << " has the wrong value");
    else PBT_REQUIRE(v.leaf && digits12(v.v, want.real()), base << ".json: entry " << i << " has the wrong value");
  }
  remove((base + ".json").c_str());
}

template<typename E, typename Q> struct Ctx {
  SiteVec<E, Q> sv; Dims D; Vec v;
  cd avg(const std::map<size_t, Mat> &ops) const { Vec w = v; for (auto &o : ops) w = apply1(D, w, o.first, o.second); return dot(v, w); }
};
template<typename E, typename Q> void expect(const Ctx<E, Q> &c, const MeasuResElem<E> &r, const std::vector<size_t> &sites, const std::map<size_t, Mat> &ops, const char *what) {
  PBT_REQUIRE(r.sites == sites, what << ": the result names other sites than the measured ones");
  cd w = c.avg(ops);
  double sc = 1; for (auto &o : ops) sc *= 1 + fro(o.second);
  std::ostringstream os; for (auto x : sites) os << " " << x;
  PBT_REQUIRE(std::abs(cd(r.avg) - w) < 1e-11 * sc, what << " on" << os.str() << ": measured " << cd(r.avg) << ", expectation value " << w);
}
// a local matrix of a charge that exists on the site; `want` when given
template<typename E, typename Q> Mat rnd_op(Src &s, const Index<Q> &x, const Q &dq) {
  Mat m;
  if (!gen_opmat<E, Q>(s, x, dq, m)) return Mat(x.dim());
  return m;
}
template<typename E, typename Q> Mat neutral(Src &s, const Index<Q> &x) { return rnd_op<E, Q>(s, x, x.QnAt(0) - x.QnAt(0)); }
template<typename E, typename Q> Mat inst(Src &s, const Index<Q> &x) {
  if (s.chance(1, 3)) return eye(x.dim());
  if (s.flip()) { Mat m = eye(x.dim()); for (size_t i = 0; i < m.n; ++i) if (s.flip()) m(i, i) = -1; return m; }
  return neutral<E, Q>(s, x);
}
// charges summing to zero, each realised on its site
template<typename E, typename Q> std::vector<Mat> phys(Src &s, const std::vector<const Index<Q> *> &x) {
  size_t k = x.size();
  Q zero = x[0]->QnAt(0) - x[0]->QnAt(0);
  for (int t = 0; t < 6; ++t) {
    Q sum = zero;
    std::vector<Mat> r;
    bool ok = true;
    for (size_t i = 0; i < k && ok; ++i) {
      Q d = x[i]->QnAt(s.below(x[i]->dim())) - x[i]->QnAt(s.below(x[i]->dim()));
      if (i + 1 == k) d = zero - sum;
      sum = sum + d;
      Mat m;
      ok = gen_opmat<E, Q>(s, *x[i], d, m);
      r.push_back(m);
    }
    if (ok) return r;
  }
  std::vector<Mat> r;
  for (size_t i = 0; i < k; ++i) r.push_back(neutral<E, Q>(s, *x[i]));
  return r;
}
static std::vector<size_t> gen_sites_asc(Src &s, size_t n, size_t k, size_t lo = 0) {
  std::set<size_t> r;
  while (r.size() < k) { size_t x = lo + s.below(n - lo); while (r.count(x)) x = lo + (x - lo + 1) % (n - lo); r.insert(x); }
  return std::vector<size_t>(r.begin(), r.end());
}
template<typename E, typename Q> bool gen_state(Src &s, const SiteVec<E, Q> &sv, FiniteMPS<E, Q> &m, Ctx<E, Q> &c) {
  m = gen_mps<E, Q>(s, sv, -1, 8, 3);
  m.Centralize(0);
  double nn = nrm(dense(m));
  if (nn < 1e-9) return false;
  m[0] *= E(1.0 / nn);
  c.D = dims_of(sv); c.v = dense(m);
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "; " << show_bonds(m) << "\n";
  return true;
}

template<typename E, typename Q> void p_memory(Src &s) {
  using T = QLTensor<E, Q>;
  bool uniform = s.flip();
  auto sv = gen_sites<E, Q>(s, 2, 7, uniform, 300, 3, 4);
  size_t n = sv.size;
  FiniteMPS<E, Q> m(sv);
  Ctx<E, Q> c{sv, {}, {}};
  if (!gen_state(s, sv, m, c)) throw pbt::Discard();
  size_t rounds = (size_t) s.big(1, 3, 10), multi = 0;
  for (size_t r = 0; r < rounds; ++r) {
    if (s.flip()) m.Centralize((int) s.below(n));
    int form = (int) s.below(uniform ? 6 : 2);
    if (form >= 2 && form <= 3) {
      size_t k = form == 2 ? 1 : (size_t) s.big(1, 3, 8);
      std::vector<Mat> ms; std::vector<T> ops; std::vector<std::string> names;
      for (size_t i = 0; i < k; ++i) { ms.push_back(s.chance(1, 5) ? rnd_op<E, Q>(s, sv.sites[0], sv.sites[0].QnAt(s.below(sv.sites[0].dim())) - sv.sites[0].QnAt(0)) : neutral<E, Q>(s, sv.sites[0])); ops.push_back(op_from<E, Q>(sv.sites[0], ms[i])); names.push_back("o" + std::to_string(i)); }
      s.note << "one-site, " << k << " operators\n"; s.label("one-site");
      MeasuResSet<E> set;
      if (form == 2) set.push_back(MeasureOneSiteOp(m, ops[0], names[0])); else set = MeasureOneSiteOp(m, ops, names);
      PBT_REQUIRE(set.size() == k, "wrong number of result lists");
      for (size_t i = 0; i < k; ++i) {
        PBT_REQUIRE(set[i].size() == n, "one-site: " << set[i].size() << " results for " << n << " sites");
        for (size_t x = 0; x < n; ++x) expect(c, set[i][x], {x}, {{x, ms[i]}}, "one-site operator");
        check_file(names[i], set[i]);
      }
    } else if (form >= 4) {
      size_t ev = (size_t) s.big(1, 4, 14);
      std::vector<const Index<Q> *> xs = {&sv.sites[0], &sv.sites[0]};
      auto ph = phys<E, Q>(s, xs);
      std::vector<T> po = {op_from<E, Q>(sv.sites[0], ph[0]), op_from<E, Q>(sv.sites[0], ph[1])};
      std::vector<std::vector<size_t>> sites;
      std::vector<std::map<size_t, Mat>> want;
      std::vector<std::vector<T>> insts;
      Mat one = inst<E, Q>(s, sv.sites[0]);
      for (size_t e = 0; e < ev; ++e) {
        sites.push_back(gen_sites_asc(s, n, 2));
        std::map<size_t, Mat> w = {{sites[e][0], ph[0]}, {sites[e][1], ph[1]}};
        insts.emplace_back();
        for (size_t j = sites[e][0] + 1; j < sites[e][1]; ++j) { Mat im = form == 4 ? one : inst<E, Q>(s, sv.sites[j]); w[j] = im; insts[e].push_back(op_from<E, Q>(sv.sites[j], im)); }
        if (sites[e][1] - sites[e][0] > 1) ++multi;
        want.push_back(w);
      }
      s.note << "two-site, " << ev << " events, " << (form == 4 ? "one insertion operator" : "own insertion operators") << "\n"; s.label("two-site");
      auto res = form == 4 ? MeasureTwoSiteOp(m, po, op_from<E, Q>(sv.sites[0], one), sites, "two") : MeasureTwoSiteOp(m, po, insts, sites, "two");
      PBT_REQUIRE(res.size() == ev, "two-site: wrong number of results");
      for (size_t e = 0; e < ev; ++e) expect(c, res[e], sites[e], want[e], "two-site operator");
      check_file("two", res);
    } else {
      size_t ev = (size_t) s.big(1, 3, 12);
      TenVV<E, Q> ph; TenVVV<E, Q> full; TenVV<E, Q> same;
      std::vector<std::vector<size_t>> sites;
      std::vector<std::map<size_t, Mat>> want;
      for (size_t e = 0; e < ev; ++e) {
        size_t k = (size_t) s.range(2, std::min<size_t>(s.chance(1, 20) ? 8 : 4, n));
        sites.push_back(gen_sites_asc(s, n, k));
        std::vector<const Index<Q> *> xs;
        for (auto x : sites[e]) xs.push_back(&sv.sites[x]);
        auto ms = phys<E, Q>(s, xs);
        std::map<size_t, Mat> w;
        ph.emplace_back(); full.emplace_back(); same.emplace_back();
        bool tail = form == 0 && s.chance(1, 3);
        for (size_t i = 0; i < k; ++i) {
          size_t x = sites[e][i];
          w[x] = ms[i]; ph[e].push_back(op_from<E, Q>(sv.sites[x], ms[i]));
          if (i + 1 == k && !tail) break;
          size_t hi = i + 1 < k ? sites[e][i + 1] : n;
          if (i + 1 == k) hi = x + 1 + s.below(n - x);
          full[e].emplace_back();
          bool uni = true;
          for (size_t j = x + 1; j < hi; ++j) uni = uni && sv.sites[j] == sv.sites[x];
          Mat o = inst<E, Q>(s, sv.sites[x]);
          if (!uni) o = eye(sv.sites[x].dim());
          // the repeated-operator form needs one operator that fits everywhere in the gap
          bool reuse = form == 1;
          if (reuse && !uni) { bool g = true; for (size_t j = x + 1; j < hi; ++j) g = g && sv.sites[j] == sv.sites[x + 1]; if (!g) throw pbt::Discard(); o = inst<E, Q>(s, sv.sites[x + 1]); }
          for (size_t j = x + 1; j < hi; ++j) { Mat im = reuse ? o : inst<E, Q>(s, sv.sites[j]); w[j] = im; full[e].back().push_back(op_from<E, Q>(sv.sites[j], im)); }
          const Index<Q> &ox = (reuse && !uni) ? sv.sites[x + 1] : sv.sites[x];
          same[e].push_back(op_from<E, Q>(ox, o));
        }
        if (tail) s.label("tail string");
        ++multi;
        want.push_back(w);
      }
      s.note << "multi-site, " << ev << " events" << (form == 0 ? ", own insertions" : "") << "\n"; s.label("multi-site");
      auto res = form == 0 ? MeasureMultiSiteOp(m, ph, full, sites, "multi") : MeasureMultiSiteOp(m, ph, same, sites, "multi");
      PBT_REQUIRE(res.size() == ev, "multi-site: wrong number of results");
      for (size_t e = 0; e < ev; ++e) expect(c, res[e], sites[e], want[e], "multi-site operator");
      check_file("multi", res);
    }
    PBT_REQUIRE(maxdiff(dense(m), c.v) < 1e-10, "measuring changed the state");
  }
  s.nontrivial(multi >= 1 && n >= 3);
}

static std::map<std::string, std::string> snapshot(const std::string &dir) {
  std::map<std::string, std::string> r;
  for (auto &e : std::filesystem::recursive_directory_iterator(dir)) {
    if (!e.is_regular_file()) continue;
    std::ifstream in(e.path(), std::ios::binary);
    r[e.path().string()] = std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  }
  return r;
}
template<typename E, typename Q> void p_disk(Src &s) {
  using T = QLTensor<E, Q>;
  bool uniform = !s.chance(1, 4);
  auto sv = gen_sites<E, Q>(s, 2, 8, uniform, 300, 3, 4);
  size_t n = sv.size;
  auto &X = sv.sites[0];
  FiniteMPS<E, Q> m(sv);
  Ctx<E, Q> c{sv, {}, {}};
  if (!gen_state(s, sv, m, c)) throw pbt::Discard();
  m.Centralize(0);
  std::string path = s.flip() ? "mps" : "data";
  m.Dump(path, true);
  auto disk = snapshot(path);
  size_t rounds = (size_t) s.big(1, 4, 12), multi = 0;
  for (size_t r = 0; r < rounds; ++r) {
    int form = (int) s.below(uniform ? 6 : 1);
    if (!uniform) form = 3;
    if (form == 0 || form == 1) {
      Mat a = neutral<E, Q>(s, X);
      if (form == 0) {
        s.note << "disk: one-site\n"; s.label("one-site");
        auto res = MeasureOneSiteOp(m, path, op_from<E, Q>(X, a), "one");
        PBT_REQUIRE(res.size() == n, "disk one-site: wrong number of results");
        for (size_t x = 0; x < n; ++x) expect(c, res[x], {x}, {{x, a}}, "disk one-site operator");
        check_file("one", res);
      } else {
        Mat b = neutral<E, Q>(s, X);
        std::vector<T> ops = {op_from<E, Q>(X, a), op_from<E, Q>(X, b)};
        std::vector<size_t> sites = gen_sites_asc(s, n, (size_t) s.range(1, n));
        bool all = s.chance(1, 3);
        if (all) { sites.clear(); for (size_t i = 0; i < n; ++i) sites.push_back(i); }
        s.note << "disk: one-site, two operators, " << sites.size() << " sites\n"; s.label("one-site, chosen sites");
        auto res = all ? MeasureOneSiteOp(m, path, ops, std::vector<std::string>{"p", "q"}) : MeasureOneSiteOp(m, path, ops, sites, std::vector<std::string>{"p", "q"});
        PBT_REQUIRE(res.size() == 2 && res[0].size() == sites.size() && res[1].size() == sites.size(), "disk one-site: wrong number of results");
        for (size_t i = 0; i < sites.size(); ++i) { expect(c, res[0][i], {sites[i]}, {{sites[i], a}}, "disk one-site operator"); expect(c, res[1][i], {sites[i]}, {{sites[i], b}}, "disk one-site operator"); }
        check_file("p", res[0]); check_file("q", res[1]);
      }
    } else if (form <= 3) {
      // correlations with one reference site
      size_t ref = s.below(n - 1);
      const Index<Q> &A = sv.sites[ref];
      std::vector<size_t> tg = gen_sites_asc(s, n, (size_t) s.range(1, n - 1 - ref), ref + 1);
      if (!uniform) tg.resize(1);
      bool all = uniform && s.chance(1, 3);
      if (all) { tg.clear(); for (size_t i = ref + 1; i < n; ++i) tg.push_back(i); }
      std::vector<const Index<Q> *> xs = {&A, &sv.sites[tg[0]]};
      auto ph = phys<E, Q>(s, xs);
      bool has = uniform && s.flip();
      Mat im = has ? inst<E, Q>(s, X) : Mat();
      T a = op_from<E, Q>(A, ph[0]), b = op_from<E, Q>(sv.sites[tg[0]], ph[1]), it = has ? op_from<E, Q>(X, im) : T();
      bool file = all && s.flip();
      s.note << "disk: pairs from " << ref << " to " << tg.size() << " sites" << (has ? " with insertion" : "") << "\n"; s.label("pair group");
      MeasuRes<E> res;
      if (file) res = MeasureTwoSiteOpGroup(m, path, a, b, ref, it, std::string("grp"));
      else if (all) res = has ? MeasureTwoSiteOpGroup(m, path, a, b, ref, it) : MeasureTwoSiteOpGroup(m, path, a, b, ref);
      else res = has ? MeasureTwoSiteOpGroup(m, path, a, b, ref, tg, it) : MeasureTwoSiteOpGroup(m, path, a, b, ref, tg);
      PBT_REQUIRE(res.size() == tg.size(), "disk pair group: wrong number of results");
      for (size_t i = 0; i < tg.size(); ++i) {
        std::map<size_t, Mat> w = {{ref, ph[0]}, {tg[i], ph[1]}};
        if (has) for (size_t j = ref + 1; j < tg[i]; ++j) w[j] = im;
        if (tg[i] - ref > 1) ++multi;
        expect(c, res[i], {ref, tg[i]}, w, "disk two-site operator");
      }
      if (file) check_file("grp", res);
    } else if (n >= 4) {
      auto rs = gen_sites_asc(s, n - 2, 2);
      std::vector<std::array<size_t, 2>> tg;
      size_t ev = (size_t) s.big(1, 4, 14);
      for (size_t e = 0; e < ev; ++e) { auto t = gen_sites_asc(s, n, 2, rs[1] + 1); tg.push_back({t[0], t[1]}); }
      std::vector<const Index<Q> *> xs(4, &X);
      auto ph = phys<E, Q>(s, xs);
      bool has = s.flip();
      Mat im = has ? inst<E, Q>(s, X) : Mat();
      s.note << "disk: four-site from " << rs[0] << "," << rs[1] << " to";
      for (auto &t : tg) s.note << " " << t[0] << "," << t[1];
      s.note << (has ? " with insertion\n" : "\n"); s.label("four-site group");
      std::array<T, 4> po = {op_from<E, Q>(X, ph[0]), op_from<E, Q>(X, ph[1]), op_from<E, Q>(X, ph[2]), op_from<E, Q>(X, ph[3])};
      std::array<size_t, 2> rr = {rs[0], rs[1]};
      auto res = has ? MeasureFourSiteOpGroup(m, path, po, rr, tg, op_from<E, Q>(X, im)) : MeasureFourSiteOpGroup(m, path, po, rr, tg);
      PBT_REQUIRE(res.size() == tg.size(), "four-site group: wrong number of results");
      std::multiset<std::array<size_t, 2>> want(tg.begin(), tg.end());
      for (size_t e = 0; e < ev; ++e) {
        PBT_REQUIRE(res[e].sites.size() == 4, "four-site group: a result does not name four sites");
        auto it = want.find({res[e].sites[2], res[e].sites[3]});
        PBT_REQUIRE(it != want.end(), "four-site group: a result for targets that were not asked for");
        want.erase(it);
        std::map<size_t, Mat> w = {{rs[0], ph[0]}, {rs[1], ph[1]}, {res[e].sites[2], ph[2]}, {res[e].sites[3], ph[3]}};
        if (has) { for (size_t j = rs[0] + 1; j < rs[1]; ++j) w[j] = im; for (size_t j = res[e].sites[2] + 1; j < res[e].sites[3]; ++j) w[j] = im; }
        expect(c, res[e], {rs[0], rs[1], res[e].sites[2], res[e].sites[3]}, w, "four-site operator");
      }
      multi += 1;
    }
    PBT_REQUIRE(m.empty(), "tensors are left in memory after a measurement from disk");
    PBT_REQUIRE(snapshot(path) == disk, "a measurement changed the data on disk");
  }
  s.nontrivial(multi >= 1 && n >= 4);
}
int main(int argc, char **argv) {
  pbt::want_scratch() = true;
  return pbt::main_(argc, argv, {
      {"C16", "in_memory", TN_DISPATCH(p_memory), 20000, 300000},
      {"C16", "from_disk", TN_DISPATCH(p_disk), 12000, 200000},
  });
}
