// The distributed calls of the tensor library, see mpi_sim.h.
#ifndef STANDIN_MPI_TEN_H
#define STANDIN_MPI_TEN_H

#include <limits>

namespace qlten {
const int kMPIMasterRank = 0;
namespace hp_numeric {
inline void MPI_Send(const size_t n, int dst, int tag, const MPI_Comm &comm) { ::MPI_Send(&n, 1, MPI_UNSIGNED_LONG_LONG, dst, tag, comm); }
inline MPI_Status MPI_Recv(size_t &n, int src, int tag, const MPI_Comm &comm) {
  MPI_Status st;
  ::MPI_Recv(&n, 1, MPI_UNSIGNED_LONG_LONG, src, tag, comm, &st);
  return st;
}
}  // namespace hp_numeric
template<typename T> inline std::string StandinKind() { return std::string("a tensor ") + typeid(T).name(); }
template<typename T> inline void StandinSend(const T &t, int dst, int tag, bool blk) {
  if (blk && t.IsDefault()) StandinFail("sending the blocks of an empty tensor");
  mpisim::world().send(dst, tag, (blk ? "the blocks of " : "") + StandinKind<T>(), t);
}
template<typename T> inline MPI_Status StandinRecv(T &t, int src, int tag, bool blk) {
  MPI_Status st;
  auto r = std::any_cast<T>(mpisim::world().recv(src, tag, (blk ? "the blocks of " : "") + StandinKind<T>(), st));
  if (blk) t.Same(r, "receiving the blocks of");
  t = std::move(r);
  return st;
}
template<typename T> inline void StandinBcast(T &t, int root) {
  bool me = mpisim::World::rank() == root;
  auto a = mpisim::world().collective("a broadcast of " + StandinKind<T>(), root, me ? std::any(t) : std::any(), false);
  if (!me) t = std::any_cast<T>(a);
}
template<typename E, typename Q> inline void MPI_Bcast(QLTensor<E, Q> &t, const int root, const MPI_Comm &) { StandinBcast(t, root); }

template<typename E, typename Q>
void MPISVDMaster(const QLTensor<E, Q> *pt, const size_t ldims, const Q &lqndiv, const QLTEN_Double trunc_err, const size_t Dmin,
                  const size_t Dmax, QLTensor<E, Q> *pu, QLTensor<QLTEN_Double, Q> *ps, QLTensor<E, Q> *pvt,
                  QLTEN_Double *pactual_trunc_err, size_t *pactual_bond_dim, const MPI_Comm &) {
  mpisim::world().collective("a distributed SVD of " + std::string(typeid(E).name()), 0, 0, true);
  SVD(pt, ldims, lqndiv, trunc_err, Dmin, Dmax, pu, ps, pvt, pactual_trunc_err, pactual_bond_dim);
}
template<typename E> void MPISVDSlave(const MPI_Comm &) { mpisim::world().collective("a distributed SVD of " + std::string(typeid(E).name()), 0, 0, true); }

// the contraction restricted to one sector of one leg of the first tensor; the result has the legs of the whole one
template<typename E, typename Q>
class TensorContraction1SectorExecutor : public Executor {
 public:
  TensorContraction1SectorExecutor(const QLTensor<E, Q> *pa, const size_t idx_a, const size_t sct, const QLTensor<E, Q> *pb,
                                   const std::vector<std::vector<size_t>> &axes, QLTensor<E, Q> *pc)
      : a_(pa), idx_(idx_a), sct_(sct), b_(pb), axes_(axes), c_(pc) { Check(); }
  void SetSelectedQNSect(const size_t s) { sct_ = s; Check(); SetStatus(INITED); }
  void Execute() override {
    SetStatus(EXEING);
    QLTensor<E, Q> a(*a_);
    for (size_t o = 0; o < a.data().size(); ++o) if (a.GetIndexes()[idx_].SctOf(a.Coor(o)[idx_]) != sct_) a.data()[o] = E(0);
    QLTensor<E, Q> r;
    Contract(&a, b_, axes_, &r);
    *c_ = std::move(r);
    SetStatus(FINISH);
  }
 private:
  void Check() {
    if (sct_ >= a_->GetIndexes().at(idx_).GetQNSctNum()) StandinFail("contraction of sector " + std::to_string(sct_) + " of a leg with " + std::to_string(a_->GetIndexes()[idx_].GetQNSctNum()));
    for (auto x : axes_.at(0)) if (x == idx_) StandinFail("the split leg is contracted");
    SetStatus(INITED);
  }
  const QLTensor<E, Q> *a_;
  size_t idx_, sct_;
  const QLTensor<E, Q> *b_;
  std::vector<std::vector<size_t>> axes_;
  QLTensor<E, Q> *c_;
};
template<typename E, typename Q> void CollectiveLinearCombine(const std::vector<QLTensor<E, Q>> ts, QLTensor<E, Q> &res) {
  if (ts.empty()) StandinFail("linear combination of no tensors");
  QLTensor<E, Q> r(ts[0]);
  for (size_t i = 1; i < ts.size(); ++i) r += ts[i];
  res = std::move(r);
}
template<typename Q> Index<Q> ExpandIndexMCAndRecordInfo(const Index<Q> &a, const Index<Q> &b, std::map<size_t, int> &info) {
  std::vector<size_t> pa, pb;
  auto r = StandinSumIndex(a, b, pa, pb);
  info.clear();
  for (size_t i = 0; i < b.GetQNSctNum(); ++i) for (size_t k = 0; k < r.GetQNSctNum(); ++k) if (b.GetQNSct(i).GetQn() == r.GetQNSct(k).GetQn()) info[i] = (int) k;
  return r;
}
}  // namespace qlten
#endif
