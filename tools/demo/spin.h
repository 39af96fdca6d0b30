// Spin-1/2 chains with Sz conservation for the demonstrations.
#pragma once
#include "gs.h"
#include "qlmps/model_relevant/sites/spin/spin_one_half_sites.h"
#include "qlmps/model_relevant/operators/spin/spin_one_half_operators.h"
namespace tn {
template<typename E> struct Chain {
  sites::SpinOneHalfSite<U1> site;
  SpinOneHalfOperators<E, U1> ops;
  SiteVec<E, U1> sv;
  size_t n;
  MPO<QLTensor<E, U1>> mpo{0};
  Mat H;
  // nearest neighbours with couplings J[i], fields h[i]
  explicit Chain(size_t n_, std::vector<double> J = {}, std::vector<double> h = {}) : ops(site), sv(n_, site.phys_bond_out), n(n_) {
    MPOGenerator<E, U1> gen(sv, sv.sites[0].QnAt(0) - sv.sites[0].QnAt(0));
    Dims D = dims_of(sv);
    H = Mat(D.total());
    auto z = mat_of(ops.sz), p = mat_of(ops.sp), m = mat_of(ops.sm);
    for (size_t i = 0; i + 1 < n; ++i) {
      double c = i < J.size() ? J[i] : 1;
      gen.AddTerm(E(c), ops.sz, i, ops.sz, i + 1);
      gen.AddTerm(E(c / 2), ops.sp, i, ops.sm, i + 1);
      gen.AddTerm(E(c / 2), ops.sm, i, ops.sp, i + 1);
      H = axpy(c, embed(D, {{i, z}, {i + 1, z}}), H);
      H = axpy(c / 2, embed(D, {{i, p}, {i + 1, m}}), H);
      H = axpy(c / 2, embed(D, {{i, m}, {i + 1, p}}), H);
    }
    for (size_t i = 0; i < h.size(); ++i) { gen.AddTerm(E(h[i]), ops.sz, i); H = axpy(h[i], embed(D, {{i, z}}), H); }
    mpo = gen.Gen();
  }
  U1 neel_charge() const { std::vector<size_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = i % 2; return charge(sv, c); }
  FiniteMPS<E, U1> neel() const { FiniteMPS<E, U1> m(sv); std::vector<size_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = i % 2; DirectStateInitMps(m, c); return m; }
  FiniteMPS<E, U1> random(uint64_t seed) const { pbt::Src s(seed); return full_mps(s, sv, neel_charge(), 0); }
  double e0() const { Mat h = sub(H, sector(sv, neel_charge())); hermitise(h); return eigh(h)[0]; }
};
inline void expect(bool ok, const std::string &what) { if (!ok) pbt::fail(what); }
}  // namespace tn
