// C12 files, C13 canonical forms, C14 truncation and entanglement, C15 constructing and combining states.
#include "ten.h"
#include "qlmps/one_dim_tn/mpo/mpo.h"
#include <sys/stat.h>
using namespace tn;

static bool exists(const std::string &p) { struct stat b; return stat(p.c_str(), &b) == 0; }
template<typename T> static bool same_ten(const T &a, const T &b) { return a.GetIndexes() == b.GetIndexes() && a.data() == b.data(); }
template<typename E, typename Q> static std::vector<QLTensor<E, Q>> tens(const FiniteMPS<E, Q> &m) {
  std::vector<QLTensor<E, Q>> r;
  for (size_t i = 0; i < m.size(); ++i) r.push_back(m[i]);
  return r;
}
template<typename E, typename Q> static Vec dense_of(const std::vector<QLTensor<E, Q>> &t) {
  return dense_state(t.size(), [&](size_t i) -> const QLTensor<E, Q> & { return t[i]; });
}

// ------------------------------------------------------------------ C12 ----
template<typename E, typename Q> QLTensor<E, Q> gen_ten(Src &s) {
  size_t r = (size_t) s.range(0, 4);
  IndexVec<Q> v;
  for (size_t i = 0; i < r; ++i) {
    auto x = gen_site<Q>(s, 1, 3);
    v.push_back(s.flip() ? InverseIndex(x) : x);
  }
  QLTensor<E, Q> t(v);
  Elems el(s);
  for (auto &x : t.data()) x = s.chance(1, 6) ? E(0) : el.template next<E>();
  if (s.chance(1, 4) && !t.data().empty()) t.data()[s.below(t.data().size())] = mk<E>(s.flip() ? 1e300 : -4.9e-324, 1e-310);
  return t;
}
template<typename E, typename Q> void p_tenvec(Src &s) {
  using T = QLTensor<E, Q>;
  using V = TenVec<T>;
  size_t n = (size_t) s.big(1, 4, 24), k = (size_t) s.big(3, 20, 80);
  V v(n);
  std::map<size_t, T> mem;                     // slots in memory
  std::map<std::string, T> disk;               // intact files
  std::set<std::string> damaged;
  std::vector<std::string> names = {"a", "b.qlten", "sub/c", "d d"};
  if (mkdir("sub", 0700)) {}
  auto check = [&](const char *w) {
    const V &c = v;
    for (size_t i = 0; i < n; ++i) {
      auto it = mem.find(i);
      PBT_REQUIRE((c(i) != nullptr) == (it != mem.end()), w << ": slot " << i << (it == mem.end() ? " should be empty" : " lost its tensor"));
      if (it != mem.end()) PBT_REQUIRE(same_ten(c[i], it->second), w << ": slot " << i << " changed");
    }
  };
  size_t io = 0, faults = 0;
  for (size_t t = 0; t < k; ++t) {
    size_t i = s.below(n);
    std::string f = s.pick(names);
    switch (s.weighted({3, 4, 4, 2, 1, 2, 2, 2})) {
      case 0: { s.note << "put " << i << "\n"; T x = gen_ten<E, Q>(s); v[i] = x; mem[i] = x; break; }
      case 1: {
        if (!mem.count(i)) break;
        bool rel = s.flip(), cst = !rel && s.flip();
        s.note << "dump " << i << " to " << f << (rel ? " and release" : cst ? " (const)" : "") << "\n"; ++io;
        if (cst) { const V &c = v; c.DumpTen(i, f); } else if (rel) v.DumpTen(i, f, true); else v.DumpTen(i, f);
        disk[f] = mem[i]; damaged.erase(f);
        if (rel) mem.erase(i);
        break;
      }
      case 2: {
        if (damaged.count(f)) break;
        s.note << "load " << i << " from " << f << "\n"; ++io;
        if (disk.count(f)) { v.LoadTen(i, f); mem[i] = disk[f]; }
        else {
          bool thrown = false;
          try { v.LoadTen(i, f); } catch (const std::runtime_error &e) { thrown = std::string(e.what()).find(f) != std::string::npos; if (!thrown) pbt::fail(std::string("loading a missing file: the error does not name it: ") + e.what()); }
          PBT_REQUIRE(thrown, "loading a missing file was not reported");
          v.dealloc(i); mem.erase(i); ++faults; s.label("missing file");
        }
        break;
      }
      case 3: { s.note << "dealloc " << i << "\n"; v.dealloc(i); mem.erase(i); break; }
      case 4: { s.note << "copy\n"; V w(v); v = w; const V &cw = w; for (auto &x : mem) PBT_REQUIRE(same_ten(cw[x.first], x.second), "copy differs"); break; }
      case 5: {
        // a truncated or overwritten file must be reported, not read as something else
        if (!disk.count(f)) break;
        std::ifstream in(f, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        in.close();
        size_t cut = s.below(d.size() > 8 ? d.size() - 8 : 1);
        std::ofstream(f, std::ios::binary) << d.substr(0, cut);
        s.note << "truncate " << f << " to " << cut << " bytes, load " << i << "\n"; ++faults; s.label("truncated file");
        bool thrown = false;
        try { v.LoadTen(i, f); } catch (const std::runtime_error &) { thrown = true; }
        PBT_REQUIRE(thrown, "a truncated file was loaded without an error");
        v.dealloc(i); mem.erase(i); disk.erase(f); damaged.insert(f);
        break;
      }
      case 6: {
        // nowhere to write: reported, and the tensor stays in memory
        if (!mem.count(i)) break;
        std::string bad = s.flip() ? std::string("no/such/dir/x") : std::string("/dev/full");
        if (bad == "/dev/full" && !exists(bad)) break;
        bool rel = s.flip();
        s.note << "dump " << i << " to " << bad << (rel ? " and release" : "") << "\n"; ++faults; s.label(bad == "/dev/full" ? "full disk" : "unwritable path");
        bool thrown = false;
        try { if (rel) v.DumpTen(i, bad, true); else { const V &c = v; c.DumpTen(i, bad); } } catch (const std::runtime_error &) { thrown = true; }
        PBT_REQUIRE(static_cast<const V &>(v)(i) != nullptr, "a tensor that could not be written was released from memory");
        PBT_REQUIRE(thrown, "a failed write was not reported");
        break;
      }
      default: {
        // WriteQLTensorTOFile / ReadQLTensorFromFile speak the same format
        if (!mem.count(i)) break;
        s.note << "free function write of " << i << " to " << f << "\n"; ++io;
        if (s.flip()) { WriteQLTensorTOFile(mem[i], f); disk[f] = mem[i]; damaged.erase(f); }
        T x;
        bool ok = !damaged.count(f) && ReadQLTensorFromFile(x, f);
        if (!damaged.count(f)) PBT_REQUIRE(ok == (disk.count(f) == 1), "ReadQLTensorFromFile reports the wrong outcome");
        if (ok) PBT_REQUIRE(same_ten(x, disk[f]), "ReadQLTensorFromFile read something else");
        T y;
        PBT_REQUIRE(!ReadQLTensorFromFile(y, "no/such/file"), "reading an absent file reports success");
        break;
      }
    }
    check("after the operation");
  }
  s.nontrivial(io >= 2);
  if (faults) s.label("with faults");
}
template<typename E, typename Q> void p_mpsfiles(Src &s) {
  auto sv = gen_sites<E, Q>(s, 2, 13, true, 8192, 2);
  size_t n = sv.size;
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "\n";
  FiniteMPS<E, Q> m = gen_mps<E, Q>(s, sv);
  if (s.flip()) m.Centralize((int) s.below(n));
  auto ref = tens(m);
  bool deflt = s.chance(1, 3);
  std::string path = deflt ? kMpsPath : s.flip() ? "here" : "../" + std::filesystem::current_path().filename().string() + "/up";
  if (s.chance(1, 3)) { if (mkdir(path.c_str(), 0700)) {} }
  bool rel = s.flip(), single = s.flip();
  s.note << "dump to " << path << (rel ? " and release" : "") << (single ? ", load one by one" : "") << "\n";
  if (rel) { if (deflt && s.flip()) m.Dump(kMpsPath, true); else m.Dump(path, true); PBT_REQUIRE(m.empty(), "tensors remain in memory after a releasing dump"); }
  else { const auto &c = m; if (s.flip()) c.Dump(path); else m.Dump(path); for (size_t i = 0; i < n; ++i) PBT_REQUIRE(same_ten(c[i], ref[i]), "dumping changed the tensors"); }
  FiniteMPS<E, Q> q(sv);
  auto &dst = s.flip() ? m : q;
  if (s.flip()) for (size_t i = 0; i < n; ++i) PBT_REQUIRE(exists(GenMPSTenName(path, i)), "tensor " << i << " has no file");
  if (single) for (size_t i : s.perm(n)) dst.LoadTen(path, i);
  else if (deflt) dst.Load(); else dst.Load(path);
  const auto &cd_ = dst;
  for (size_t i = 0; i < n; ++i) PBT_REQUIRE(same_ten(cd_[i], ref[i]), "tensor " << i << " came back different");
  // a single dumped tensor replaces exactly its own file
  size_t i = s.below(n);
  dst[i] *= E(2);
  dst.DumpTen(path, i);
  FiniteMPS<E, Q> z(sv);
  z.Load(path);
  const auto &cz = z;
  for (size_t j = 0; j < n; ++j) { auto w = ref[j]; if (j == i) w *= E(2); PBT_REQUIRE(same_ten(cz[j], w), "after re-dumping tensor " << i << ", tensor " << j << " is wrong"); }
  unlink(GenMPSTenName(path, i).c_str());
  bool thrown = false;
  try { FiniteMPS<E, Q> y(sv); y.Load(path); } catch (const std::runtime_error &) { thrown = true; }
  PBT_REQUIRE(thrown, "loading a state with a missing tensor was not reported");
  s.nontrivial(n >= 3);
}
template<typename E, typename Q> void p_mpofiles(Src &s) {
  auto sv = gen_sites<E, Q>(s, 2, 6, s.flip(), 400, 3, 6);
  size_t n = sv.size;
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "\n";
  auto m = gen_mpo<E, Q>(s, sv);
  int c = -1;
  if (s.flip()) { c = (int) s.below(n); m.Centralize(c); }
  std::vector<QLTensor<E, Q>> ref;
  const auto &cm = m;
  for (size_t i = 0; i < n; ++i) ref.push_back(cm[i]);
  std::string path = s.flip() ? "op" : kMpoPath;
  s.note << "center " << c << " path " << path << "\n";
  if (path == kMpoPath) m.Dump(); else m.Dump(path);
  FiniteMPO<E, Q> fresh(n);
  auto other = gen_mpo<E, Q>(s, sv);
  if (s.flip()) other.Centralize((int) s.below(n));
  auto &dst = s.flip() ? fresh : other;
  if (&dst == &other) s.label("loaded over another operator");
  PBT_REQUIRE(path == kMpoPath ? dst.Load() : dst.Load(path), "Load reports failure");
  const auto &cdst = dst;
  for (size_t i = 0; i < n; ++i) PBT_REQUIRE(same_ten(cdst[i], ref[i]), "MPO tensor " << i << " came back different");
  PBT_REQUIRE(dst.GetCenter() == c, "the center came back as " << dst.GetCenter() << " instead of " << c);
  auto ty = dst.GetTensCanoType();
  if (c < 0) for (size_t i = 0; i < n; ++i) PBT_REQUIRE(ty[i] == MPSTenCanoType::NONE, "an operator without center is loaded with a canonical tensor at " << i);
  else for (size_t i = 0; i < n; ++i) PBT_REQUIRE(ty[i] == (int(i) < c ? MPSTenCanoType::LEFT : int(i) > c ? MPSTenCanoType::RIGHT : MPSTenCanoType::NONE), "wrong canonical type at " << i << " after loading");
  bool load_absent = FiniteMPO<E, Q>(n).Load("absent");
  PBT_REQUIRE(!load_absent, "loading from an absent directory reports success");
  s.nontrivial(n >= 3);
}

// ------------------------------------------------------------------ C13 ----
template<typename E, typename Q> void flags_ok(const FiniteMPS<E, Q> &m, const std::string &w) {
  auto ty = m.GetTensCanoType();
  int c = m.GetCenter(), n = (int) m.size();
  PBT_REQUIRE(ty.size() == m.size(), w << ": " << ty.size() << " flags for " << n << " tensors");
  PBT_REQUIRE(c == -1 || (c >= 0 && c < n), w << ": center " << c);
  for (int i = 0; i < n; ++i) {
    PBT_REQUIRE(m.GetTenCanoType(i) == ty[i], w << ": the two flag getters disagree");
    bool l = ty[i] == MPSTenCanoType::LEFT || (c >= 0 && i < c), r = ty[i] == MPSTenCanoType::RIGHT || (c >= 0 && i > c);
    if (l) PBT_REQUIRE(left_defect(m[i]) < 1e-9, w << ": tensor " << i << " counts as left canonical" << (c >= 0 ? " (center " + std::to_string(c) + ")" : std::string()) << " but is not an isometry (deviation " << left_defect(m[i]) << ")");
    if (r) PBT_REQUIRE(right_defect(m[i]) < 1e-9, w << ": tensor " << i << " counts as right canonical" << (c >= 0 ? " (center " + std::to_string(c) + ")" : std::string()) << " but is not an isometry (deviation " << right_defect(m[i]) << ")");
  }
}
template<typename E, typename Q> void p_canonical(Src &s) {
  using T = QLTensor<E, Q>;
  using M = FiniteMPS<E, Q>;
  auto sv = gen_sites<E, Q>(s, 2, 6, s.flip(), 200, 3, 4);
  size_t n = sv.size, K = (size_t) s.big(2, 14, 40);
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "\n";
  M m = gen_mps<E, Q>(s, sv);
  std::map<std::string, std::vector<T>> snap;
  size_t cen = 0, disturb = 0;
  const M &cm = m;
  for (size_t t = 0; t < K; ++t) {
    auto cur = tens(m);
    auto expect = cur;                           // tensors whose product is the expected state
    std::ostringstream w;
    size_t i = s.below(n);
    switch (s.weighted({6, 3, 3, 2, 2, 2, 3, 2, 2, 2, 3, 3, 2, 1})) {
      case 0: {
        w << "Centralize(" << i << ")"; ++cen;
        m.Centralize((int) i);
        PBT_REQUIRE(m.GetCenter() == (int) i, "after Centralize(" << i << ") the center is " << m.GetCenter());
        for (size_t k = 0; k < n; ++k) {
          if (k < i) PBT_REQUIRE(left_defect(cm[k]) < 1e-9, "after Centralize(" << i << ") tensor " << k << " is not left canonical");
          if (k > i) PBT_REQUIRE(right_defect(cm[k]) < 1e-9, "after Centralize(" << i << ") tensor " << k << " is not right canonical");
        }
        break;
      }
      case 1: {
        size_t k = s.below(n - 1);
        w << "LeftCanonicalize(" << k << ")"; ++cen;
        m.LeftCanonicalize(k);
        for (size_t j = 0; j <= k; ++j) PBT_REQUIRE(left_defect(cm[j]) < 1e-9, "after LeftCanonicalize(" << k << ") tensor " << j << " is not left canonical");
        break;
      }
      case 2: {
        size_t k = 1 + s.below(n - 1);
        w << "RightCanonicalize(" << k << ")"; ++cen;
        m.RightCanonicalize(k);
        for (size_t j = k; j < n; ++j) PBT_REQUIRE(right_defect(cm[j]) < 1e-9, "after RightCanonicalize(" << k << ") tensor " << j << " is not right canonical");
        break;
      }
      case 3: { size_t k = s.below(n - 1); w << "LeftCanonicalizeTen(" << k << ")"; m.LeftCanonicalizeTen(k); PBT_REQUIRE(left_defect(cm[k]) < 1e-9, w.str() << " did not"); break; }
      case 4: {
        size_t k = 1 + s.below(n - 1);
        bool svd = s.flip();
        w << "RightCanonicalizeTen(" << k << (svd ? ", svd)" : ")");
        bool at_center = m.GetCenter() == (int) k;
        auto sg = svd ? m.RightCanonicalizeTen(k, true) : m.RightCanonicalizeTen(k);
        PBT_REQUIRE(right_defect(cm[k]) < 1e-9, w.str() << " did not");
        if (svd && at_center) {
          auto v = dense_of(cur);
          double nn = std::real(dot(v, v));
          auto p = schmidt(dims_of(sv), v, k);
          std::vector<double> q;
          for (size_t x = 0; x < sg.GetShape()[0]; ++x) { double a = sg(x, x); q.push_back(a * a / nn); }
          std::sort(q.rbegin(), q.rend());
          q.resize(std::max(p.size(), q.size())); p.resize(q.size());
          for (size_t x = 0; x < q.size(); ++x) PBT_REQUIRE(std::abs(q[x] - p[x]) < 1e-9, "the singular values returned at the center are not the Schmidt coefficients");
          s.label("singular values at the center");
        }
        break;
      }
      case 5: {
        E f = coef<E>(s);
        w << "tensor " << i << " *= " << f; ++disturb;
        if (s.flip()) m[i] *= f; else *m(i) *= f;
        expect[i] *= f;
        break;
      }
      case 6: {
        w << "tensor " << i << " replaced"; ++disturb;
        T *x = new T(cur[i]);
        E f = coef<E>(s), g = coef<E>(s);
        for (size_t k = 0; k < x->data().size(); ++k) x->data()[k] *= k % 2 ? f : g;
        expect[i] = *x;
        if (s.flip()) { delete m(i); m(i) = x; } else { if (s.flip()) m.alloc(i); m[i] = *x; delete x; }
        break;
      }
      case 7: { std::string p = s.flip() ? "p" : "q"; w << "Dump(" << p << ")"; m.Dump(p); snap[p] = cur; break; }
      case 8: {
        if (snap.empty()) { w << "-"; break; }
        auto it = snap.begin(); std::advance(it, s.below(snap.size()));
        w << "Load(" << it->first << ")"; ++disturb;
        m.Load(it->first);
        expect = it->second;
        break;
      }
      case 9: {
        if (snap.empty()) { w << "-"; break; }
        auto it = snap.begin(); std::advance(it, s.below(snap.size()));
        if (!(it->second[i].GetIndexes() == cur[i].GetIndexes())) { w << "-"; break; }
        bool by = s.flip();
        w << "LoadTen of " << i << " from " << it->first << (by ? " (by name)" : ""); ++disturb;
        if (by) m.LoadTen(i, GenMPSTenName(it->first, i)); else m.LoadTen(it->first, i);
        expect[i] = it->second[i];
        break;
      }
      case 10: {
        int k = (int) s.below(4);
        w << (k == 0 ? "copy constructed" : k == 1 ? "copy assigned" : k == 2 ? "move constructed" : "move assigned");
        if (k == 0) { M x(m); x[i] *= E(3); PBT_REQUIRE(maxdiff(dense(m), dense_of(cur)) < 1e-12 * (1 + maxabs(dense_of(cur))), "changing a copy changed the original"); M y(m); flags_ok(y, "in a copy"); y.Centralize((int) i); m = y; }
        else if (k == 1) { M x = gen_mps<E, Q>(s, sv); x.Centralize((int) s.below(n)); x = m; flags_ok(x, "in an assigned copy"); m = x; }
        else if (k == 2) { M x(std::move(m)); m = gen_mps<E, Q>(s, sv); m = std::move(x); }
        else { M x = gen_mps<E, Q>(s, sv); x.Centralize((int) s.below(n)); x = std::move(m); m = M(sv); m = std::move(x); }
        break;
      }
      case 11: {
        // canonicalise with only the neighbouring tensors in memory
        size_t k = s.below(n - 1);
        bool left = s.flip();
        w << (left ? "Left" : "Right") << "CanonicalizeTen(" << (left ? k : k + 1) << ") with two tensors in memory"; s.label("two tensors in memory");
        m.Dump("tmp", true);
        m.LoadTen("tmp", k); m.LoadTen("tmp", k + 1);
        if (left) m.LeftCanonicalizeTen(k); else m.RightCanonicalizeTen(k + 1);
        for (size_t j = 0; j < n; ++j) if (j != k && j != k + 1) { PBT_REQUIRE(cm(j) == nullptr, "a tensor away from the site was touched"); m.LoadTen("tmp", j); }
        break;
      }
      case 12: {
        w << "read only access";
        int c = m.GetCenter();
        auto ty = m.GetTensCanoType();
        (void) cm[i].Get2Norm(); (void) cm(i)->Get2Norm(); (void) m.GetSitesInfo();
        PBT_REQUIRE(m.GetCenter() == c && m.GetTensCanoType() == ty, "reading a tensor changed the canonical flags");
        break;
      }
      default: {
        // reversing the chain twice
        w << "Reverse twice";
        m.Reverse();
        auto r = tens(m);
        auto v = dense_of(cur), rv = dense_of(r);
        Dims D = dims_of(sv), RD; RD.d.assign(D.d.rbegin(), D.d.rend());
        for (size_t o = 0; o < v.size(); ++o) { auto c = D.cfg(o); std::reverse(c.begin(), c.end()); PBT_REQUIRE(std::abs(v[o] - rv[RD.off(c)]) < 1e-10 * (1 + maxabs(v)), "the reversed state has wrong amplitudes"); }
        flags_ok(m, "after Reverse");
        m.Reverse();
        break;
      }
    }
    s.note << w.str() << "\n";
    Vec a = dense_of(expect), b = dense(cm);
    double d = maxdiff(a, b);
    PBT_REQUIRE(d <= 1e-10 * (1 + maxabs(a)), "after " << w.str() << " the state differs from the expected one by " << d);
    flags_ok(m, "after " + w.str());
    // keep numbers in range
    double nn = nrm(b);
    if (!(nn > 1e-6 && nn < 1e6)) break;
  }
  s.nontrivial(cen >= 2 && disturb >= 1 && n >= 3);
}

// ------------------------------------------------------------------ C14 ----
template<typename E, typename Q> void p_truncate(Src &s) {
  auto sv = gen_sites<E, Q>(s, 2, 6, s.flip(), 250, 3, 4);
  size_t n = sv.size;
  Dims D = dims_of(sv);
  FiniteMPS<E, Q> m = gen_mps<E, Q>(s, sv, -1, 14, 4);
  Vec v = dense(m);
  double nn = nrm(v);
  if (nn < 1e-9) throw pbt::Discard();
  static const double errs[] = {0, 1e-12, 1e-6, 1e-3, 1e-2, 0.1, 0.3};
  double eps = errs[s.below(7)];
  size_t dmin = (size_t) s.range(1, 3), dmax = s.chance(1, 3) ? 100 : dmin + s.below(3);
  if (s.flip()) m.Centralize((int) s.below(n));
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "; " << show_bonds(m) << "; trunc_err " << eps << " D in [" << dmin << "," << dmax << "]\n";
  TruncateMPS(m, eps, dmin, dmax);
  const auto &cm = m;
  Vec w = dense(cm);
  PBT_REQUIRE(std::abs(nrm(w) - 1) < 1e-9, "the truncated state has norm " << nrm(w));
  flags_ok(m, "after TruncateMPS");
  double budget = 0, budget2 = 0;             // orthogonal projections: the discarded weights add up
  bool cut = false;
  for (size_t k = 1; k < n; ++k) {
    size_t b = cm[k - 1].GetShape()[2];
    PBT_REQUIRE(b <= dmax, "bond " << k << " has dimension " << b << ", more than " << dmax);
    auto p = schmidt(D, v, k);
    double tail = 0;
    for (size_t x = b; x < p.size(); ++x) tail += p[x];
    if (tail > 1e-13) cut = true;
    budget += tail;
    budget2 += b < dmax ? eps : tail;
    if (k == 1) {
      size_t rank = 0;
      for (auto x : p) if (x > 1e-11) ++rank;
      PBT_REQUIRE(b >= std::min(dmin, rank), "bond 1 was cut to " << b << " below the minimum " << dmin);
      if (b > dmin && b <= p.size()) { double t1 = 0; for (size_t x = b - 1; x < p.size(); ++x) t1 += p[x]; PBT_REQUIRE(t1 > eps * (1 - 1e-6) - 1e-13, "bond 1 keeps " << b << " states although " << b - 1 << " would do for an error of " << eps); }
      if (b < dmax) PBT_REQUIRE(tail <= eps + 1e-11, "bond 1 was cut to " << b << " with error " << tail << " above the target " << eps);
    }
  }
  budget = std::min(budget, budget2);
  double f = std::norm(dot(v, w)) / (nn * nn);
  PBT_REQUIRE(f >= 1 - budget - 1e-9, "the truncated state has fidelity " << f << ", the discarded weight allows " << 1 - budget);
  if (!cut) {
    cd ph = dot(w, v) / nn;
    PBT_REQUIRE(std::abs(std::abs(ph) - 1) < 1e-9, "nothing was truncated but the state changed");
    if (nrm(v) > 0) PBT_REQUIRE(std::abs(ph - cd(1)) < 1e-8, "nothing was truncated but the state picked up a phase " << ph);
  }
  s.label(cut ? "weight discarded" : "exact");
  s.nontrivial(n >= 3 && cut);
}
template<typename E, typename Q> void p_entropy(Src &s) {
  auto sv = gen_sites<E, Q>(s, 2, 6, s.flip(), 250, 3, 4);
  size_t n = sv.size, ord = (size_t) s.big(1, 4, 12);
  Dims D = dims_of(sv);
  FiniteMPS<E, Q> m(sv);
  if (s.chance(1, 5)) {
    // states whose bonds are larger than their Schmidt rank
    std::vector<size_t> c(n);
    for (auto i = 0u; i < n; ++i) c[i] = s.below(D.d[i]);
    FiniteMPS<E, Q> a(sv), b(sv);
    DirectStateInitMps(a, c); DirectStateInitMps(b, c);
    FiniteMPSAdd(a, b, m);
    s.label("redundant bonds");
  } else m = gen_mps<E, Q>(s, sv, -1, 12, 4);
  Vec v = dense(m);
  double nn = nrm(v);
  if (nn < 1e-9) throw pbt::Discard();
  if (s.flip()) m.Centralize((int) s.below(n));
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "; " << show_bonds(m) << "; order " << ord << "\n";
  auto ee = m.GetEntanglementEntropy(ord);
  PBT_REQUIRE(ee.size() == n - 1, ee.size() << " entropies for " << n - 1 << " bonds");
  bool ent = false;
  for (size_t k = 1; k < n; ++k) {
    auto p = schmidt(D, v, k);
    double r = 0;
    if (ord == 1) { for (auto x : p) if (x > 1e-300) r -= x * std::log(x); }
    else { double t = 0; for (auto x : p) t += std::pow(x, (double) ord); r = std::log(t) / (1.0 - (double) ord); }
    if (r > 0.01) ent = true;
    PBT_REQUIRE(std::abs(ee[k - 1] - r) < 1e-8, "bond " << k << ": entropy of order " << ord << " is " << ee[k - 1] << ", should be " << r);
  }
  Vec w = dense(m);
  PBT_REQUIRE(maxdiff(scalev(1 / nn, v), w) < 1e-9, "measuring the entropy changed the state beyond normalising it");
  flags_ok(m, "after GetEntanglementEntropy");
  s.nontrivial(ent && n >= 3);
}

// ------------------------------------------------------------------ C15 ----
template<typename E, typename Q> void p_init(Src &s) {
  auto sv = gen_sites<E, Q>(s, 2, 6, s.flip(), 250, 3, 4);
  size_t n = sv.size;
  Dims D = dims_of(sv);
  FiniteMPS<E, Q> m(sv);
  if (s.flip()) { m = gen_mps<E, Q>(s, sv); if (s.flip()) m.Centralize((int) s.below(n)); s.label("over an existing state"); }
  const auto &cm = m;
  std::vector<size_t> c(n);
  for (size_t i = 0; i < n; ++i) c[i] = s.below(D.d[i]);
  Q tot = charge(sv, c), zero = tot - tot;
  int k = (int) s.below(3);
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "; " << (k == 0 ? "product state" : k == 1 ? "product state, zero flux" : "random extension of") << " ";
  for (auto x : c) s.note << x;
  s.note << "\n";
  if (k < 2) {
    if (k == 0) DirectStateInitMps(m, c); else DirectStateInitZeroDivMps(m, c);
    Vec w = dense(cm), r(D.total());
    r[D.off(c)] = 1;
    // a gauge choice may flip signs of the tensors but not of the state
    PBT_REQUIRE(maxdiff(r, w) < 1e-12, "the product state is not the requested basis state");
    for (size_t i = 0; i < n; ++i) PBT_REQUIRE(cm[i].GetShape()[0] == 1 && cm[i].GetShape()[2] == 1 && cm[i].GetIndexes()[1] == sv.sites[i], "a product state has bonds of dimension one and the sites' spaces");
    if (k == 0) { for (size_t i = 1; i < n; ++i) PBT_REQUIRE(Div(cm[i]) == zero, "tensor " << i << " carries a charge"); PBT_REQUIRE(Div(cm[0]) == tot, "the first tensor does not carry the total charge"); }
    else for (size_t i = 0; i < n; ++i) {
      if (Div(cm[i]) == zero) continue;
      if (i + 1 == n && Div(cm[i]) == tot && s.known("zerodiv-last-tensor")) continue;
      pbt::fail("tensor " + std::to_string(i) + " of the zero-flux product state has flux " + Div(cm[i]).Str());
    }
    s.nontrivial(n >= 3 && tot != zero);
  } else {
    size_t num = (size_t) s.big(1, 4, 8), en = (size_t) s.big(1, 3, 8);
    auto cs = gen_configs(s, sv, num);
    cs[0] = c;
    for (size_t i = 1; i < cs.size();) { if (charge(sv, cs[i]) == tot) ++i; else cs.erase(cs.begin() + i); }
    s.note << cs.size() << " states, enlarged by " << en << "\n";
    ExtendDirectRandomInitMps(m, cs, en);
    Vec w = dense(cm);
    PBT_REQUIRE(std::abs(nrm(w) - 1) < 1e-9, "the random state has norm " << nrm(w));
    for (size_t o = 0; o < w.size(); ++o) if (std::abs(w[o]) > 1e-12) PBT_REQUIRE(charge(sv, D.cfg(o)) == tot, "the random state has a component with the wrong total charge");
    for (auto &x : cs) PBT_REQUIRE(std::abs(w[D.off(x)]) > 1e-12, "one of the given product states is missing from the random state");
    for (size_t i = 0; i < n; ++i) PBT_REQUIRE(cm[i].GetShape()[2] <= en * cs.size(), "bond " << i + 1 << " is larger than the number of states times the enlargement");
    s.nontrivial(n >= 3 && cs.size() >= 2);
  }
  for (size_t i = 1; i < n; ++i) PBT_REQUIRE(right_defect(cm[i]) < 1e-9, "tensor " << i << " of an initialised state is not right canonical");
  flags_ok(m, "after initialisation");
}
template<typename E, typename Q> void p_combine(Src &s) {
  auto sv = gen_sites<E, Q>(s, 2, 6, s.flip(), 250, 3, 4);
  size_t n = sv.size;
  int where = (int) s.below(2);
  auto cs = gen_configs(s, sv, 8);
  FiniteMPS<E, Q> a(sv), b(sv);
  auto part = [&] { std::vector<std::vector<size_t>> r; size_t k = 1 + s.below(4); for (size_t i = 0; i < k; ++i) r.push_back(cs[s.below(cs.size())]); return r; };
  fill_mps(s, a, part(), 3, where);
  fill_mps(s, b, part(), 3, where);
  if (s.flip()) { a.Centralize(0); b.Centralize(0); }
  s.note << ename<E>() << " " << qname<Q>() << " " << show(sv) << "; " << show_bonds(a) << "; " << show_bonds(b) << "\n";
  Vec va = dense(a), vb = dense(b);
  double sc = 1 + nrm(va) * nrm(vb);
  E ip = FiniteMPSInnerProd(a, b);
  PBT_REQUIRE(std::abs(cd(ip) - dot(vb, va)) < 1e-10 * sc, "<B|A> is " << dot(vb, va) << " but the inner product function gives " << ip);
  E aa = FiniteMPSInnerProd(a, a);
  PBT_REQUIRE(std::abs(cd(aa) - dot(va, va)) < 1e-10 * (1 + std::abs(dot(va, va))), "<A|A> is wrong");
  FiniteMPS<E, Q> c(sv);
  if (s.flip()) { c = a; s.label("into an existing state"); }
  FiniteMPSAdd(a, b, c);
  Vec vc = dense(c);
  PBT_REQUIRE(maxdiff(addv(1, va, 1, vb), vc) < 1e-10 * (1 + maxabs(va) + maxabs(vb)), "A + B is not the sum of the two states");
  PBT_REQUIRE(maxdiff(dense(a), va) == 0 && maxdiff(dense(b), vb) == 0, "the operands changed");
  for (size_t i = 0; i + 1 < n; ++i) PBT_REQUIRE(c[i].GetShape()[2] == a[i].GetShape()[2] + b[i].GetShape()[2], "the bonds of A + B are not the sums of the bonds");
  flags_ok(c, "in the sum");
  c.Centralize((int) s.below(n));
  PBT_REQUIRE(maxdiff(vc, dense(c)) < 1e-10 * (1 + maxabs(vc)), "canonicalising the sum changed it");
  s.nontrivial(n >= 3 && nrm(va) > 1e-9 && nrm(vb) > 1e-9);
}

int main(int argc, char **argv) {
  pbt::want_scratch() = true;
  return pbt::main_(argc, argv, {
      {"C12", "tensor_vector_history", TN_DISPATCH(p_tenvec), 30000, 400000},
      {"C12", "state_files", TN_DISPATCH(p_mpsfiles), 8000, 100000},
      {"C12", "operator_files", TN_DISPATCH(p_mpofiles), 8000, 100000},
      {"C13", "canonical_history", TN_DISPATCH(p_canonical), 30000, 500000},
      {"C14", "truncate", TN_DISPATCH(p_truncate), 25000, 400000},
      {"C14", "entanglement_entropy", TN_DISPATCH(p_entropy), 15000, 300000},
      {"C15", "initial_states", TN_DISPATCH(p_init), 25000, 400000},
      {"C15", "sum_and_inner_product", TN_DISPATCH(p_combine), 20000, 400000},
  });
}
