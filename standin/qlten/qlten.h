// Stand-in for the tensor library (TensorToolkit, namespace qlten) that the
// repository is written against and that is not available offline.  It is a
// small, dense, symmetry-checking implementation of the calls the repository's
// headers make: the headers under test are the real ones, the tensors below
// them are these.  Every contraction checks that the contracted legs are
// inverse to each other, so a leg mix-up in the code under test aborts the run.
#ifndef STANDIN_QLTEN_H
#define STANDIN_QLTEN_H

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "mkl.h"
#include "qlten/utility/timer.h"
#ifdef STANDIN_MPI
#include "qlten/mpi_sim.h"
#endif

extern "C" {
void dgeqrf_(const int *, const int *, double *, const int *, double *, double *, const int *, int *);
void dorgqr_(const int *, const int *, const int *, double *, const int *, const double *, double *, const int *,
             int *);
void zgeqrf_(const int *, const int *, std::complex<double> *, const int *, std::complex<double> *,
             std::complex<double> *, const int *, int *);
void zungqr_(const int *, const int *, const int *, std::complex<double> *, const int *, const std::complex<double> *,
             std::complex<double> *, const int *, int *);
}

namespace qlten {

typedef double QLTEN_Double;
typedef std::complex<double> QLTEN_Complex;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
const std::string kQLTenFileSuffix = "qlten";
const double kDoubleEpsilon = 1.0E-15;

// A broken calling convention (mismatched legs, bad axis) ends the process with
// a recognisable message: the engine reports it as a failure of the case.
[[noreturn]] inline void StandinFail(const std::string &what) {
  std::fflush(nullptr);
  std::cerr << "STANDIN: " << what << std::endl;
  std::abort();
}

inline double CalcConj(double x) { return x; }
inline QLTEN_Complex CalcConj(const QLTEN_Complex &x) { return std::conj(x); }
inline double conj(double x) { return x; }
inline QLTEN_Complex conj(const QLTEN_Complex &x) { return std::conj(x); }
using std::abs;
using std::norm;

// ------------------------------------------------------------------ QNs ----
class U1QNVal {
 public:
  explicit U1QNVal(int v) : v_(v) {}
  int v() const { return v_; }
 private:
  int v_;
};
class QNCard {
 public:
  QNCard(const std::string &name, const U1QNVal &v) : name_(name), v_(v.v()) {}
  int v() const { return v_; }
  const std::string &name() const { return name_; }
 private:
  std::string name_;
  int v_;
};

template<int N>
class QNN {
 public:
  QNN() { v_.fill(0); }
  QNN(std::initializer_list<QNCard> l) {
    v_.fill(0);
    if (l.size() != (size_t) N) StandinFail("quantum number built with the wrong number of cards");
    int i = 0;
    for (auto &c : l) v_[i++] = c.v();
  }
  template<int M = N, typename = std::enable_if_t<M == 1>>
  explicit QNN(int a) { v_[0] = a; }
  template<int M = N, typename = std::enable_if_t<M == 2>>
  QNN(int a, int b) { v_[0] = a; v_[1] = b; }
  QNN operator-() const { QNN r; for (int i = 0; i < N; ++i) r.v_[i] = -v_[i]; return r; }
  QNN &operator+=(const QNN &o) { for (int i = 0; i < N; ++i) v_[i] += o.v_[i]; return *this; }
  QNN operator+(const QNN &o) const { QNN r(*this); r += o; return r; }
  QNN operator-(const QNN &o) const { return *this + (-o); }
  bool operator==(const QNN &o) const { return v_ == o.v_; }
  bool operator!=(const QNN &o) const { return !(*this == o); }
  bool operator<(const QNN &o) const { return v_ < o.v_; }
  size_t Hash() const {
    size_t h = 1469598103934665603ull;
    for (int i = 0; i < N; ++i) { h ^= (size_t) (v_[i] + 1000003); h *= 1099511628211ull; h ^= h >> 29; }
    return h;
  }
  size_t dim() const { return 1; }
  int val(int i) const { return v_[i]; }
  static constexpr bool IsFermionic() { return false; }
  std::string Str() const {
    std::string s = "(";
    for (int i = 0; i < N; ++i) s += (i ? "," : "") + std::to_string(v_[i]);
    return s + ")";
  }
  void StreamWrite(std::ostream &os) const { for (int i = 0; i < N; ++i) os << v_[i] << "\n"; }
  void StreamRead(std::istream &is) { for (int i = 0; i < N; ++i) is >> v_[i]; }
 private:
  std::array<int, N> v_;
};
template<int N>
inline std::ostream &operator<<(std::ostream &os, const QNN<N> &q) { return os << q.Str(); }

namespace special_qn {
using TrivialRepQN = QNN<0>;
using U1QN = QNN<1>;
using U1U1QN = QNN<2>;
}  // namespace special_qn

template<typename QNT>
class QNSector {
 public:
  QNSector() : dim_(0) {}
  QNSector(const QNT &qn, size_t dim) : qn_(qn), dim_(dim) {}
  const QNT &GetQn() const { return qn_; }
  size_t dim() const { return dim_; }
  size_t GetDegeneracy() const { return dim_; }
  bool operator==(const QNSector &o) const { return qn_ == o.qn_ && dim_ == o.dim_; }
  bool operator!=(const QNSector &o) const { return !(*this == o); }
  size_t Hash() const { return qn_.Hash() * 31 + dim_; }
 private:
  QNT qn_;
  size_t dim_;
};
template<typename QNT>
using QNSectorVec = std::vector<QNSector<QNT>>;

enum TenIndexDirType { IN = 'I', NDIR = 'N', OUT = 'O' };

template<typename QNT>
class Index {
 public:
  Index() : dir_(NDIR), dim_(0) {}
  Index(const QNSectorVec<QNT> &scts, TenIndexDirType dir) : scts_(scts), dir_(dir), dim_(0) {
    for (auto &s : scts_) dim_ += s.dim();
  }
  size_t dim() const { return dim_; }
  TenIndexDirType GetDir() const { return dir_; }
  size_t GetQNSctNum() const { return scts_.size(); }
  const QNSector<QNT> &GetQNSct(size_t i) const { return scts_.at(i); }
  const QNSectorVec<QNT> &GetQNScts() const { return scts_; }
  const QNSector<QNT> &GetQNSctFromActualCoor(size_t c) const { return scts_.at(SctOf(c)); }
  size_t SctOf(size_t c) const {
    for (size_t s = 0; s < scts_.size(); ++s) {
      if (c < scts_[s].dim()) return s;
      c -= scts_[s].dim();
    }
    StandinFail("index coordinate out of range");
  }
  std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t c) const {
    size_t s = SctOf(c), o = c;
    for (size_t i = 0; i < s; ++i) o -= scts_[i].dim();
    return {s, o};
  }
  const QNT &QnAt(size_t c) const { return scts_[SctOf(c)].GetQn(); }
  void Inverse() { if (dir_ == IN) dir_ = OUT; else if (dir_ == OUT) dir_ = IN; }
  bool operator==(const Index &o) const { return dir_ == o.dir_ && scts_ == o.scts_; }
  bool operator!=(const Index &o) const { return !(*this == o); }
  size_t Hash() const {
    size_t h = (size_t) dir_;
    for (auto &s : scts_) h = h * 1000003 + s.Hash();
    return h;
  }
  std::string Str() const {
    std::string s(1, (char) dir_);
    for (auto &x : scts_) s += x.GetQn().Str() + "*" + std::to_string(x.dim()) + " ";
    return s;
  }
  void StreamWrite(std::ostream &os) const {
    os << scts_.size() << "\n" << (char) dir_ << "\n";
    for (auto &s : scts_) { s.GetQn().StreamWrite(os); os << s.dim() << "\n"; }
  }
  void StreamRead(std::istream &is) {
    size_t n = 0;
    char d = 'N';
    is >> n >> d;
    if (!is || n > 1000000) { is.setstate(std::ios::failbit); return; }
    scts_.clear();
    dim_ = 0;
    dir_ = (TenIndexDirType) d;
    for (size_t i = 0; i < n; ++i) {
      QNT q;
      size_t dd = 0;
      q.StreamRead(is);
      is >> dd;
      if (!is) return;
      scts_.emplace_back(q, dd);
      dim_ += dd;
    }
  }
 private:
  QNSectorVec<QNT> scts_;
  TenIndexDirType dir_;
  size_t dim_;
};
template<typename QNT>
inline std::ostream &operator<<(std::ostream &os, const Index<QNT> &i) { i.StreamWrite(os); return os; }
template<typename QNT>
inline std::istream &operator>>(std::istream &is, Index<QNT> &i) { i.StreamRead(is); return is; }
template<typename QNT>
using IndexVec = std::vector<Index<QNT>>;

template<typename QNT>
inline Index<QNT> InverseIndex(const Index<QNT> &i) { Index<QNT> r(i); r.Inverse(); return r; }

// (sector of 1, sector of 2, sector of the fused index, offset in that sector)
using QNSctsOffsetInfo = std::tuple<size_t, size_t, size_t, size_t>;

template<typename QNT>
Index<QNT> FuseTwoIndexAndRecordInfo(const Index<QNT> &a, const Index<QNT> &b, std::vector<QNSctsOffsetInfo> &info) {
  QNSectorVec<QNT> scts;
  info.clear();
  std::vector<size_t> deg;
  std::vector<QNT> qns;
  for (size_t i = 0; i < a.GetQNSctNum(); ++i)
    for (size_t j = 0; j < b.GetQNSctNum(); ++j) {
      QNT q = a.GetQNSct(i).GetQn() + b.GetQNSct(j).GetQn();
      size_t d = a.GetQNSct(i).dim() * b.GetQNSct(j).dim();
      size_t k = std::find(qns.begin(), qns.end(), q) - qns.begin();
      if (k == qns.size()) { qns.push_back(q); deg.push_back(0); }
      info.emplace_back(i, j, k, deg[k]);
      deg[k] += d;
    }
  for (size_t k = 0; k < qns.size(); ++k) scts.emplace_back(qns[k], deg[k]);
  return Index<QNT>(scts, a.GetDir());
}

// Direct sum of two legs; equal quantum numbers share a sector.
template<typename QNT>
Index<QNT> StandinSumIndex(const Index<QNT> &a, const Index<QNT> &b, std::vector<size_t> &pa, std::vector<size_t> &pb) {
  if (a.GetDir() != b.GetDir()) StandinFail("direct sum of legs of different directions");
  std::vector<QNT> qns;
  std::vector<size_t> deg;
  std::vector<std::pair<size_t, size_t>> la, lb;  // (sector, offset)
  auto put = [&](const Index<QNT> &x, std::vector<std::pair<size_t, size_t>> &l) {
    for (auto &s : x.GetQNScts()) {
      size_t k = std::find(qns.begin(), qns.end(), s.GetQn()) - qns.begin();
      if (k == qns.size()) { qns.push_back(s.GetQn()); deg.push_back(0); }
      for (size_t i = 0; i < s.dim(); ++i) l.emplace_back(k, deg[k] + i);
      deg[k] += s.dim();
    }
  };
  put(a, la);
  put(b, lb);
  QNSectorVec<QNT> scts;
  std::vector<size_t> start;
  size_t tot = 0;
  for (size_t k = 0; k < qns.size(); ++k) {
    start.push_back(tot);
    scts.emplace_back(qns[k], deg[k]);
    tot += deg[k];
  }
  pa.clear();
  pb.clear();
  for (auto &p : la) pa.push_back(start[p.first] + p.second);
  for (auto &p : lb) pb.push_back(start[p.first] + p.second);
  return Index<QNT>(scts, a.GetDir());
}

namespace hp_numeric {
extern inline int &StandinThreads() { static int n = 1; return n; }
inline void SetTensorManipulationThreads(int n) { StandinThreads() = n; }
inline int GetTensorManipulationThreads() { return StandinThreads(); }
inline void SetTensorTransposeNumThreads(int) {}
inline unsigned tensor_manipulation_num_threads = 1;
template<typename T, typename S>
inline void VectorScale(T *x, size_t n, S a) { for (size_t i = 0; i < n; ++i) x[i] *= a; }
template<typename T>
inline double Vector2Norm(const T *x, size_t n) {
  double s = 0;
  for (size_t i = 0; i < n; ++i) s += std::norm(x[i]);
  return std::sqrt(s);
}
template<typename T, typename S>
inline void VectorAddTo(const T *x, size_t n, T *y, S a) { for (size_t i = 0; i < n; ++i) y[i] += a * x[i]; }
}  // namespace hp_numeric

inline std::mt19937_64 &StandinRng() { static std::mt19937_64 g(12345); return g; }
inline void SetRandomSeed(unsigned s) { StandinRng().seed(s); }

inline std::string IndentPrinter(size_t n) { return std::string(2 * n, ' '); }

enum ExecutorStatus { INITING, INITED, EXEING, FINISH };
class Executor {
 public:
  Executor() : status_(INITING) {}
  virtual ~Executor() = default;
  virtual void Execute() = 0;
  ExecutorStatus GetStatus() const { return status_; }
  void SetStatus(ExecutorStatus s) { status_ = s; }
 private:
  ExecutorStatus status_;
};

// --------------------------------------------------------------- tensor ----
// called at the start of every contraction, decomposition, tensor read and tensor write; lets a harness act at a chosen
// point of a run
inline void (*StandinHook)(const char *) = nullptr;
inline void StandinPoint(const char *op) { if (StandinHook) StandinHook(op); }

#ifdef STANDIN_MPI
template<typename T> struct StandinBlk {      // the block data of a tensor
  T *t = nullptr;
  void Clear() { for (auto &x : t->data()) x = std::nan(""); }       // freed: not to be read again
  void MPI_Send(const MPI_Comm &, int dst, int tag) const { StandinSend(*t, dst, tag, true); }
  MPI_Status MPI_Recv(const MPI_Comm &, int src, int tag) { return StandinRecv(*t, src, tag, true); }
};
#else
template<typename T> struct StandinBlk { T *t = nullptr; void Clear() {} };
#endif

template<typename ElemT, typename QNT>
class QLTensor {
 public:
  QLTensor() = default;
  QLTensor(const IndexVec<QNT> &idx) : idx_(idx), live_(true) { Init(); }
  QLTensor(IndexVec<QNT> &&idx) : idx_(std::move(idx)), live_(true) { Init(); }
  QLTensor(std::initializer_list<Index<QNT>> l) : idx_(l), live_(true) { Init(); }
  QLTensor(const QLTensor &) = default;
  QLTensor &operator=(const QLTensor &) = default;
  QLTensor(QLTensor &&o) noexcept : idx_(std::move(o.idx_)), shape_(std::move(o.shape_)), d_(std::move(o.d_)), live_(o.live_) { o.Reset(); }
  QLTensor &operator=(QLTensor &&o) noexcept {
    if (this != &o) {
      idx_ = std::move(o.idx_);
      shape_ = std::move(o.shape_);
      d_ = std::move(o.d_);
      live_ = o.live_;
      o.Reset();
    }
    return *this;
  }
  // real -> complex
  template<typename E2, typename = std::enable_if_t<!std::is_same_v<E2, ElemT> && std::is_same_v<E2, double>>>
  explicit QLTensor(const QLTensor<E2, QNT> &o) : idx_(o.GetIndexes()), live_(!o.IsDefault()) {
    Init();
    for (size_t i = 0; i < d_.size(); ++i) d_[i] = o.data()[i];
  }

  static constexpr bool IsFermionic() { return false; }
  void ActFermionPOps() {}
  StandinBlk<QLTensor> &GetBlkSparDataTen() { blk_.t = this; return blk_; }
#ifdef STANDIN_MPI
  void MPI_Send(int dst, int tag, const MPI_Comm &) const { StandinSend(*this, dst, tag, false); }
  MPI_Status MPI_Recv(int src, int tag, const MPI_Comm &) { return StandinRecv(*this, src, tag, false); }
  void MPI_Bcast(int root, const MPI_Comm &) { StandinBcast(*this, root); }
#endif

  bool IsDefault() const { return !live_; }
  bool IsScalar() const { return live_ && idx_.empty(); }
  size_t Rank() const { return idx_.size(); }
  size_t size() const { return live_ ? d_.size() : 0; }
  size_t GetActualDataSize() const { return d_.size(); }
  double GetRawDataMemUsage() const { return (double) d_.size() * sizeof(ElemT) / 1e9; }
  size_t GetBlkNum() const { return 1; }
  const IndexVec<QNT> &GetIndexes() const { return idx_; }
  const Index<QNT> &GetIndex(size_t i) const { return idx_.at(i); }
  const ShapeT &GetShape() const { return shape_; }
  const ElemT *GetRawDataPtr() const { return d_.data(); }
  std::vector<ElemT> &data() { return d_; }
  const std::vector<ElemT> &data() const { return d_; }

  ElemT GetElem(const CoorsT &c) const { return d_[Off(c)]; }
  void SetElem(const CoorsT &c, ElemT v) { d_[Off(c)] = v; }
  ElemT &operator()(const CoorsT &c) { return d_[Off(c)]; }
  ElemT operator()(const CoorsT &c) const { return d_[Off(c)]; }
  template<typename... Is, typename = std::enable_if_t<(sizeof...(Is) > 0) && (std::is_integral_v<Is> && ...)>>
  ElemT &operator()(Is... is) { return d_[Off(CoorsT{(size_t) is...})]; }
  template<typename... Is, typename = std::enable_if_t<(sizeof...(Is) > 0) && (std::is_integral_v<Is> && ...)>>
  ElemT operator()(Is... is) const { return d_[Off(CoorsT{(size_t) is...})]; }
  ElemT &operator()() { if (!IsScalar()) StandinFail("scalar access to a non-scalar"); return d_[0]; }
  ElemT operator()() const { if (!IsScalar()) StandinFail("scalar access to a non-scalar"); return d_[0]; }

  ElemT GetFirstNonZeroElement() const {
    for (auto &x : d_) if (std::abs(x) != 0.0) return x;
    return ElemT(0);
  }

  // Flux; legs' quantum numbers with OUT counted + and IN counted -.
  QNT Flux(const CoorsT &c) const {
    QNT q = QNT();
    for (size_t i = 0; i < c.size(); ++i) {
      if (idx_[i].GetDir() == OUT) q += idx_[i].QnAt(c[i]); else q += -idx_[i].QnAt(c[i]);
    }
    return q;
  }
  QNT Div() const {
    bool have = false;
    QNT q = QNT();
    ForEach([&](const CoorsT &c, const ElemT &v) {
      if (v == ElemT(0)) return;
      QNT f = Flux(c);
      if (!have) { have = true; q = f; }
      else if (f != q && std::abs(v) > 1e-12) StandinFail("tensor without a definite quantum number divergence");
    });
    return q;
  }
  void Random(const QNT &div) {
    std::uniform_real_distribution<double> u(0.0, 1.0);
    for (size_t o = 0; o < d_.size(); ++o) {
      CoorsT c = Coor(o);
      if (Flux(c) == div) {
        if constexpr (std::is_same_v<ElemT, double>) d_[o] = u(StandinRng());
        else d_[o] = ElemT(u(StandinRng()), u(StandinRng()));
      } else d_[o] = ElemT(0);
    }
  }
  void Fill(const QNT &div, const ElemT v) {
    for (size_t o = 0; o < d_.size(); ++o) d_[o] = (Flux(Coor(o)) == div) ? v : ElemT(0);
  }

  void Transpose(const std::vector<size_t> &p) {
    if (p.size() != Rank()) StandinFail("transpose with a wrong number of axes");
    std::vector<bool> seen(p.size(), false);
    for (auto a : p) {
      if (a >= p.size() || seen[a]) StandinFail("transpose axes are not a permutation");
      seen[a] = true;
    }
    if (!live_ || p.empty()) return;
    IndexVec<QNT> ni;
    for (auto a : p) ni.push_back(idx_[a]);
    std::vector<ElemT> nd(d_.size());
    auto st = Strides();
    std::vector<size_t> nst(p.size()), nsh(p.size());
    for (size_t i = 0; i < p.size(); ++i) { nst[i] = st[p[i]]; nsh[i] = shape_[p[i]]; }
    std::vector<size_t> c(p.size(), 0);
    size_t off = 0;
    for (size_t o = 0; o < nd.size(); ++o) {
      nd[o] = d_[off];
      for (size_t k = p.size(); k-- > 0;) {
        if (++c[k] < nsh[k]) { off += nst[k]; break; }
        off -= nst[k] * (nsh[k] - 1);
        c[k] = 0;
      }
    }
    idx_ = std::move(ni);
    shape_ = nsh;
    d_ = std::move(nd);
  }

  // Fuse two legs; the fused leg comes first, the others keep their order.
  void FuseIndex(size_t i, size_t j) {
    if (i >= Rank() || j >= Rank() || i == j) StandinFail("FuseIndex: bad axes");
    std::vector<size_t> p = {i, j};
    for (size_t k = 0; k < Rank(); ++k) if (k != i && k != j) p.push_back(k);
    if (idx_[i].GetDir() != idx_[j].GetDir()) StandinFail("fusing legs of different directions (" + std::to_string((int) idx_[i].GetDir()) + ", " + std::to_string((int) idx_[j].GetDir()) + ") of " + std::to_string(Rank()));
    Transpose(p);
    std::vector<QNSctsOffsetInfo> info;
    Index<QNT> f = FuseTwoIndexAndRecordInfo(idx_[0], idx_[1], info);
    std::vector<size_t> fstart(1, 0);
    for (auto &s : f.GetQNScts()) fstart.push_back(fstart.back() + s.dim());
    std::map<std::pair<size_t, size_t>, std::pair<size_t, size_t>> m;
    for (auto &t : info) m[{std::get<0>(t), std::get<1>(t)}] = {std::get<2>(t), std::get<3>(t)};
    size_t rest = 1;
    for (size_t k = 2; k < Rank(); ++k) rest *= shape_[k];
    std::vector<ElemT> nd(d_.size());
    for (size_t a = 0; a < shape_[0]; ++a)
      for (size_t b = 0; b < shape_[1]; ++b) {
        auto pa = idx_[0].CoorToBlkCoorDataCoor(a), pb = idx_[1].CoorToBlkCoorDataCoor(b);
        auto t = m.at({pa.first, pb.first});
        size_t pos = fstart[t.first] + t.second + pa.second * idx_[1].GetQNSct(pb.first).dim() + pb.second;
        std::copy(d_.begin() + (a * shape_[1] + b) * rest, d_.begin() + (a * shape_[1] + b + 1) * rest,
                  nd.begin() + pos * rest);
      }
    IndexVec<QNT> ni = {f};
    ni.insert(ni.end(), idx_.begin() + 2, idx_.end());
    idx_ = ni;
    d_ = std::move(nd);
    shape_.clear();
    for (auto &x : idx_) shape_.push_back(x.dim());
  }

  double Get2Norm() const { return hp_numeric::Vector2Norm(d_.data(), d_.size()); }
  double GetQuasi2Norm() const { return Get2Norm(); }
  double Normalize() {
    double n = Get2Norm();
    for (auto &x : d_) x /= n;
    return n;
  }
  double QuasiNormalize() { return Normalize(); }
  double GetMaxAbs() const { double m = 0; for (auto &x : d_) m = std::max(m, std::abs(x)); return m; }
  void Dag() {
    for (auto &i : idx_) i.Inverse();
    for (auto &x : d_) x = CalcConj(x);
  }
  QLTensor operator-() const { QLTensor r(*this); for (auto &x : r.d_) x = -x; return r; }
  QLTensor &operator+=(const QLTensor &o) {
    Same(o, "adding");
    for (size_t i = 0; i < d_.size(); ++i) d_[i] += o.d_[i];
    return *this;
  }
  QLTensor operator+(const QLTensor &o) const { QLTensor r(*this); r += o; return r; }
  QLTensor &operator*=(const ElemT s) { for (auto &x : d_) x *= s; return *this; }
  QLTensor operator*(const ElemT s) const { QLTensor r(*this); r *= s; return r; }
  bool operator==(const QLTensor &o) const { return live_ == o.live_ && idx_ == o.idx_ && d_ == o.d_; }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }
  void ElementWiseInv(double = 0) { for (auto &x : d_) if (x != ElemT(0)) x = ElemT(1) / x; }
  void ElementWiseSqrt() { for (auto &x : d_) x = std::sqrt(x); }
  void Show(size_t = 0) const {}
  void ConciseShow(size_t = 0) const {}

  void StreamWrite(std::ostream &os) const {
    StandinPoint("write");
    os << "standin-tensor " << (live_ ? 1 : 0) << " " << idx_.size() << "\n";
    for (auto &i : idx_) i.StreamWrite(os);
    os << d_.size() << "\n";
    os.write(reinterpret_cast<const char *>(d_.data()), (std::streamsize) (d_.size() * sizeof(ElemT)));
    os << "\nend\n";
  }
  void StreamRead(std::istream &is) {
    StandinPoint("read");
    std::string tag;
    int live = 0;
    size_t rank = 0;
    Reset();
    if (!(is >> tag >> live >> rank) || tag != "standin-tensor") { is.setstate(std::ios::failbit); return; }
    IndexVec<QNT> ni(rank);
    size_t expect = live ? 1 : 0;
    for (auto &i : ni) { i.StreamRead(is); expect *= i.dim(); }
    size_t n = 0;
    is >> n;
    is.get();
    if (!is || n != expect) { is.setstate(std::ios::failbit); return; }
    std::vector<ElemT> nd(n);
    is.read(reinterpret_cast<char *>(nd.data()), (std::streamsize) (n * sizeof(ElemT)));
    std::string end;
    is >> end;
    if (!is || end != "end") { is.setstate(std::ios::failbit); return; }
    live_ = live;
    idx_ = std::move(ni);
    d_ = std::move(nd);
    shape_.clear();
    for (auto &x : idx_) shape_.push_back(x.dim());
  }

  template<typename F>
  void ForEach(F f) const {
    for (size_t o = 0; o < d_.size(); ++o) f(Coor(o), d_[o]);
  }
  CoorsT Coor(size_t o) const {
    CoorsT c(shape_.size());
    for (size_t k = shape_.size(); k-- > 0;) { c[k] = o % shape_[k]; o /= shape_[k]; }
    return c;
  }
  std::vector<size_t> Strides() const {
    std::vector<size_t> s(shape_.size());
    size_t t = 1;
    for (size_t k = shape_.size(); k-- > 0;) { s[k] = t; t *= shape_[k]; }
    return s;
  }
  void Same(const QLTensor &o, const char *what) const {
    if (idx_ != o.idx_ || live_ != o.live_)
      StandinFail(std::string(what) + " tensors with different legs: " + LegStr() + " / " + o.LegStr());
  }
  std::string LegStr() const {
    std::string s = "[";
    for (auto &i : idx_) s += i.Str() + "| ";
    return s + "]";
  }

 private:
  void Reset() { idx_.clear(); shape_.clear(); d_.clear(); live_ = false; }
  void Init() {
    shape_.clear();
    size_t n = 1;
    for (auto &i : idx_) { shape_.push_back(i.dim()); n *= i.dim(); }
    d_.assign(live_ ? n : 0, ElemT(0));
  }
  size_t Off(const CoorsT &c) const {
    if (c.size() != shape_.size()) StandinFail("element access with a wrong number of coordinates");
    size_t o = 0;
    for (size_t k = 0; k < c.size(); ++k) {
      if (c[k] >= shape_[k]) StandinFail("element access out of range");
      o = o * shape_[k] + c[k];
    }
    return o;
  }
  IndexVec<QNT> idx_;
  ShapeT shape_;
  std::vector<ElemT> d_;
  bool live_ = false;
  StandinBlk<QLTensor> blk_;
};

template<typename E, typename Q>
inline std::ostream &operator<<(std::ostream &os, const QLTensor<E, Q> &t) { t.StreamWrite(os); return os; }
template<typename E, typename Q>
inline std::istream &operator>>(std::istream &is, QLTensor<E, Q> &t) { t.StreamRead(is); return is; }
template<typename E, typename Q>
inline QLTensor<E, Q> operator*(const E s, const QLTensor<E, Q> &t) { return t * s; }
template<typename Q>
inline QLTensor<std::complex<double>, Q> operator*(const double s, const QLTensor<std::complex<double>, Q> &t) {
  return t * std::complex<double>(s);
}
template<typename E, typename Q>
inline QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { QLTensor<E, Q> r(t); r.Dag(); return r; }
template<typename E, typename Q>
inline Q Div(const QLTensor<E, Q> &t) { return t.Div(); }
template<typename Q>
inline QLTensor<QLTEN_Complex, Q> ToComplex(const QLTensor<QLTEN_Double, Q> &t) { return QLTensor<QLTEN_Complex, Q>(t); }

// ---------------------------------------------------------- contraction ----
template<typename T1, typename T2>
using StandinPromote = std::conditional_t<std::is_same_v<T1, double> && std::is_same_v<T2, double>, double, QLTEN_Complex>;

template<typename EA, typename EB, typename EC, typename Q>
void StandinContract(const QLTensor<EA, Q> &a0, const QLTensor<EB, Q> &b0, const std::vector<size_t> &la,
                     const std::vector<size_t> &ra, const std::vector<size_t> &lb, const std::vector<size_t> &rb,
                     QLTensor<EC, Q> &c) {
  StandinPoint("contract");
  // result legs: a's `la` then b's `rb`; contracted: a's `ra` with b's `lb`
  if (a0.IsDefault() || b0.IsDefault()) StandinFail("contracting an empty tensor");
  if (ra.size() != lb.size()) StandinFail("contraction with different numbers of axes");
  for (size_t i = 0; i < ra.size(); ++i) {
    if (ra[i] >= a0.Rank() || lb[i] >= b0.Rank()) StandinFail("contraction axis out of range");
    if (a0.GetIndexes()[ra[i]] != InverseIndex(b0.GetIndexes()[lb[i]]))
      StandinFail("contracted legs do not match: " + a0.GetIndexes()[ra[i]].Str() + " / " + b0.GetIndexes()[lb[i]].Str());
  }
  QLTensor<EA, Q> a(a0);
  QLTensor<EB, Q> b(b0);
  std::vector<size_t> pa(la), pb(lb);
  pa.insert(pa.end(), ra.begin(), ra.end());
  pb.insert(pb.end(), rb.begin(), rb.end());
  a.Transpose(pa);
  b.Transpose(pb);
  size_t m = 1, k = 1, n = 1;
  IndexVec<Q> idx;
  for (size_t i = 0; i < la.size(); ++i) { m *= a.GetShape()[i]; idx.push_back(a.GetIndexes()[i]); }
  for (size_t i = 0; i < ra.size(); ++i) k *= a.GetShape()[la.size() + i];
  for (size_t i = 0; i < rb.size(); ++i) { n *= b.GetShape()[lb.size() + i]; idx.push_back(b.GetIndexes()[lb.size() + i]); }
  QLTensor<EC, Q> r(idx);
  auto &A = a.data();
  auto &B = b.data();
  auto &C = r.data();
  for (size_t i = 0; i < m; ++i)
    for (size_t p = 0; p < k; ++p) {
      EA x = A[i * k + p];
      if (x == EA(0)) continue;
      const EB *brow = &B[p * n];
      EC *crow = &C[i * n];
      for (size_t j = 0; j < n; ++j) crow[j] += x * brow[j];
    }
  c = std::move(r);
}

template<typename EA, typename EB, typename EC, typename Q>
void Contract(const QLTensor<EA, Q> *a, const QLTensor<EB, Q> *b, const std::vector<std::vector<size_t>> &axes,
              QLTensor<EC, Q> *c) {
  if (axes.size() != 2) StandinFail("contraction needs two axes lists");
  std::vector<size_t> la, rb;
  for (size_t i = 0; i < a->Rank(); ++i)
    if (std::find(axes[0].begin(), axes[0].end(), i) == axes[0].end()) la.push_back(i);
  for (size_t i = 0; i < b->Rank(); ++i)
    if (std::find(axes[1].begin(), axes[1].end(), i) == axes[1].end()) rb.push_back(i);
  StandinContract(*a, *b, la, axes[0], axes[1], rb, *c);
}
template<typename EA, typename EB, typename EC, typename Q>
void Contract(const QLTensor<EA, Q> *a, const std::vector<size_t> &aa, const QLTensor<EB, Q> *b,
              const std::vector<size_t> &bb, QLTensor<EC, Q> *c) {
  Contract(a, b, std::vector<std::vector<size_t>>{aa, bb}, c);
}
// Consecutive-axes form: `n` axes of a from `as` and of b from `bs` (cyclically);
// the result has a's other legs in cyclic order after the contracted ones, then b's.
template<typename E, typename Q, bool a_tail = true, bool b_head = true, typename EA, typename EB, typename EC>
void Contract(const QLTensor<EA, Q> &a, const QLTensor<EB, Q> &b, size_t as, size_t bs, size_t n, QLTensor<EC, Q> &c) {
  std::vector<size_t> la, ra, lb, rb;
  size_t na = a.Rank(), nb = b.Rank();
  if (n > na || n > nb) StandinFail("contracting more axes than there are");
  for (size_t i = 0; i < n; ++i) { ra.push_back((as + i) % na); lb.push_back((bs + i) % nb); }
  for (size_t i = n; i < na; ++i) la.push_back((as + i) % na);
  for (size_t i = n; i < nb; ++i) rb.push_back((bs + i) % nb);
  StandinContract(a, b, la, ra, lb, rb, c);
}

// ---------------------------------------------------- linear combination ---
template<typename T> struct StandinId { using type = T; };
template<typename C, typename E, typename Q>      // real coefficients may go with complex tensors
void LinearCombine(const std::vector<C> &coefs, const std::vector<QLTensor<E, Q> *> &ts, const typename StandinId<E>::type beta,
                   QLTensor<E, Q> *res) {
  if (coefs.size() != ts.size()) StandinFail("linear combination with different numbers of coefficients and tensors");
  if (ts.empty()) { if (!res->IsDefault()) *res *= beta; return; }
  QLTensor<E, Q> r(ts[0]->GetIndexes());
  if (beta != E(0) && !res->IsDefault()) { r = *res; r *= beta; }
  for (size_t i = 0; i < ts.size(); ++i) {
    r.Same(*ts[i], "combining");
    for (size_t k = 0; k < r.data().size(); ++k) r.data()[k] += E(coefs[i]) * ts[i]->data()[k];
  }
  *res = std::move(r);
}
template<typename C, typename E, typename Q>
void LinearCombine(std::initializer_list<C> coefs, std::initializer_list<QLTensor<E, Q> *> ts, const typename StandinId<E>::type beta,
                   QLTensor<E, Q> *res) {
  LinearCombine(std::vector<C>(coefs), std::vector<QLTensor<E, Q> *>(ts), beta, res);
}
template<typename C, typename E, typename Q>
void LinearCombine(const size_t m, const C *coefs, const std::vector<QLTensor<E, Q> *> &ts, const typename StandinId<E>::type beta,
                   QLTensor<E, Q> *res) {
  if (m > ts.size()) StandinFail("linear combination of more tensors than given");
  LinearCombine(std::vector<C>(coefs, coefs + m), std::vector<QLTensor<E, Q> *>(ts.begin(), ts.begin() + m), beta, res);
}

// -------------------------------------------------------- decompositions ---
template<typename E>
struct StandinMat { int m, n; std::vector<E> a; };  // column major

inline void StandinGesvd(int m, int n, std::vector<double> a, std::vector<double> &s, std::vector<double> &u,
                         std::vector<double> &vt) {
  int k = std::min(m, n), lw = std::max(1, 10 * (m + n)), info = 0;
  s.assign(k, 0);
  u.assign((size_t) m * k, 0);
  vt.assign((size_t) k * n, 0);
  std::vector<double> w(lw);
  dgesvd_("S", "S", &m, &n, a.data(), &m, s.data(), u.data(), &m, vt.data(), &k, w.data(), &lw, &info);
  if (info != 0) StandinFail("SVD did not converge (not-a-number input?)");
}
inline void StandinGesvd(int m, int n, std::vector<QLTEN_Complex> a, std::vector<double> &s,
                         std::vector<QLTEN_Complex> &u, std::vector<QLTEN_Complex> &vt) {
  int k = std::min(m, n), lw = std::max(1, 10 * (m + n)), info = 0;
  s.assign(k, 0);
  u.assign((size_t) m * k, 0);
  vt.assign((size_t) k * n, 0);
  std::vector<QLTEN_Complex> w(lw);
  std::vector<double> rw(5 * std::max(1, k));
  zgesvd_("S", "S", &m, &n, a.data(), &m, s.data(), u.data(), &m, vt.data(), &k, w.data(), &lw, rw.data(), &info);
  if (info != 0) StandinFail("SVD did not converge (not-a-number input?)");
}
inline void StandinQr(int m, int n, std::vector<double> &a, std::vector<double> &r) {
  int k = std::min(m, n), lw = std::max(1, 64 * n), info = 0;
  std::vector<double> tau(k), w(lw);
  dgeqrf_(&m, &n, a.data(), &m, tau.data(), w.data(), &lw, &info);
  r.assign((size_t) k * n, 0);
  for (int j = 0; j < n; ++j) for (int i = 0; i <= std::min(j, k - 1); ++i) r[(size_t) j * k + i] = a[(size_t) j * m + i];
  dorgqr_(&m, &k, &k, a.data(), &m, tau.data(), w.data(), &lw, &info);
  a.resize((size_t) m * k);
}
inline void StandinQr(int m, int n, std::vector<QLTEN_Complex> &a, std::vector<QLTEN_Complex> &r) {
  int k = std::min(m, n), lw = std::max(1, 64 * n), info = 0;
  std::vector<QLTEN_Complex> tau(k), w(lw);
  zgeqrf_(&m, &n, a.data(), &m, tau.data(), w.data(), &lw, &info);
  r.assign((size_t) k * n, 0);
  for (int j = 0; j < n; ++j) for (int i = 0; i <= std::min(j, k - 1); ++i) r[(size_t) j * k + i] = a[(size_t) j * m + i];
  zungqr_(&m, &k, &k, a.data(), &m, tau.data(), w.data(), &lw, &info);
  a.resize((size_t) m * k);
}

// Rows and columns of t, cut after ldims legs, grouped by the flux of the left legs.
template<typename E, typename Q>
struct StandinBlocks {
  struct Blk { Q lflux; std::vector<size_t> rows, cols; };
  std::vector<Blk> blks;
  size_t M = 1, N = 1;
  StandinBlocks(const QLTensor<E, Q> &t, size_t ldims) {
    if (ldims == 0 || ldims >= t.Rank()) StandinFail("decomposition needs at least one leg on each side");
    auto &sh = t.GetShape();
    auto &ix = t.GetIndexes();
    for (size_t i = 0; i < t.Rank(); ++i) (i < ldims ? M : N) *= sh[i];
    auto flux = [&](size_t o, size_t b, size_t e) {
      Q q = Q();
      for (size_t k = e; k-- > b;) {
        size_t c = o % sh[k];
        o /= sh[k];
        if (ix[k].GetDir() == OUT) q += ix[k].QnAt(c); else q += -ix[k].QnAt(c);
      }
      return q;
    };
    Q div = t.Div();
    std::vector<Q> cf(N);
    for (size_t c = 0; c < N; ++c) cf[c] = flux(c, ldims, t.Rank());
    std::vector<Q> rf(M);
    for (size_t r = 0; r < M; ++r) {
      rf[r] = flux(r, 0, ldims);
      size_t k = 0;
      while (k < blks.size() && blks[k].lflux != rf[r]) ++k;
      if (k == blks.size()) blks.push_back(Blk{rf[r], {}, {}});
      blks[k].rows.push_back(r);
    }
    for (auto &b : blks) for (size_t c = 0; c < N; ++c) if (b.lflux + cf[c] == div) b.cols.push_back(c);
    blks.erase(std::remove_if(blks.begin(), blks.end(), [](const Blk &b) { return b.cols.empty(); }), blks.end());
  }
};

template<typename E, typename Q>
void SVD(const QLTensor<E, Q> *pt, const size_t ldims, const Q &lqndiv, const QLTEN_Double trunc_err, const size_t Dmin,
         const size_t Dmax, QLTensor<E, Q> *pu, QLTensor<QLTEN_Double, Q> *ps, QLTensor<E, Q> *pvt,
         QLTEN_Double *pactual_trunc_err, size_t *pactual_bond_dim) {
  StandinPoint("svd");
  if (pt->IsDefault()) StandinFail("SVD of an empty tensor");
  StandinBlocks<E, Q> bl(*pt, ldims);
  size_t N = bl.N, nb = bl.blks.size();
  std::vector<std::vector<double>> S(nb);
  std::vector<std::vector<E>> U(nb), V(nb);
  struct Item { double s; size_t b, k; };
  std::vector<Item> items;
  double tot = 0;
  for (size_t b = 0; b < nb; ++b) {
    auto &B = bl.blks[b];
    size_t m = B.rows.size(), n = B.cols.size();
    std::vector<E> a(m * n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) a[j * m + i] = pt->data()[B.rows[i] * N + B.cols[j]];
    StandinGesvd((int) m, (int) n, a, S[b], U[b], V[b]);
    for (size_t k = 0; k < S[b].size(); ++k) { items.push_back({S[b][k], b, k}); tot += S[b][k] * S[b][k]; }
  }
  std::stable_sort(items.begin(), items.end(), [](const Item &x, const Item &y) { return x.s > y.s; });
  size_t kept = items.size();
  double disc = 0;
  while (kept > 1) {
    double s2 = items[kept - 1].s * items[kept - 1].s;
    if (kept > Dmax) { disc += s2; --kept; continue; }
    if (kept <= Dmin) break;
    if (tot > 0 ? (disc + s2) / tot > trunc_err : false) break;
    disc += s2;
    --kept;
  }
  std::vector<std::vector<size_t>> keep(nb);
  for (size_t i = 0; i < kept; ++i) keep[items[i].b].push_back(items[i].k);
  QNSectorVec<Q> scts;
  for (size_t b = 0; b < nb; ++b)
    if (!keep[b].empty()) scts.emplace_back(lqndiv - bl.blks[b].lflux, keep[b].size());
  Index<Q> out(scts, OUT), in(scts, IN);
  IndexVec<Q> ui(pt->GetIndexes().begin(), pt->GetIndexes().begin() + ldims), vi = {in};
  ui.push_back(out);
  vi.insert(vi.end(), pt->GetIndexes().begin() + ldims, pt->GetIndexes().end());
  QLTensor<E, Q> u(ui), v(vi);
  QLTensor<QLTEN_Double, Q> s(IndexVec<Q>{in, out});
  size_t pos = 0;
  for (size_t b = 0; b < nb; ++b) {
    auto &B = bl.blks[b];
    size_t m = B.rows.size(), n = B.cols.size(), kk = std::min(m, n);
    std::sort(keep[b].begin(), keep[b].end());
    for (size_t k : keep[b]) {
      for (size_t i = 0; i < m; ++i) u.data()[B.rows[i] * kept + pos] = U[b][k * m + i];
      for (size_t j = 0; j < n; ++j) v.data()[pos * N + B.cols[j]] = V[b][j * kk + k];
      s.data()[pos * kept + pos] = S[b][k];
      ++pos;
    }
  }
  *pu = std::move(u);
  *ps = std::move(s);
  *pvt = std::move(v);
  *pactual_trunc_err = tot > 0 ? disc / tot : 0.0;
  *pactual_bond_dim = kept;
}

template<typename E, typename Q>
void QR(const QLTensor<E, Q> *pt, const size_t ldims, const Q &lqndiv, QLTensor<E, Q> *pq, QLTensor<E, Q> *pr) {
  if (pt->IsDefault()) StandinFail("QR of an empty tensor");
  StandinBlocks<E, Q> bl(*pt, ldims);
  size_t N = bl.N;
  QNSectorVec<Q> scts;
  size_t tot = 0;
  for (auto &B : bl.blks) {
    size_t k = std::min(B.rows.size(), B.cols.size());
    scts.emplace_back(lqndiv - B.lflux, k);
    tot += k;
  }
  Index<Q> out(scts, OUT), in(scts, IN);
  IndexVec<Q> qi(pt->GetIndexes().begin(), pt->GetIndexes().begin() + ldims), ri = {in};
  qi.push_back(out);
  ri.insert(ri.end(), pt->GetIndexes().begin() + ldims, pt->GetIndexes().end());
  QLTensor<E, Q> q(qi), r(ri);
  size_t pos = 0;
  for (auto &B : bl.blks) {
    size_t m = B.rows.size(), n = B.cols.size(), k = std::min(m, n);
    std::vector<E> a(m * n), rr;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) a[j * m + i] = pt->data()[B.rows[i] * N + B.cols[j]];
    StandinQr((int) m, (int) n, a, rr);
    for (size_t c = 0; c < k; ++c) {
      for (size_t i = 0; i < m; ++i) q.data()[B.rows[i] * tot + pos + c] = a[c * m + i];
      for (size_t j = 0; j < n; ++j) r.data()[(pos + c) * N + B.cols[j]] = rr[j * k + c];
    }
    pos += k;
  }
  *pq = std::move(q);
  *pr = std::move(r);
}

// ------------------------------------------------------------- expansion ---
template<typename E, typename Q>
void Expand(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &axes, QLTensor<E, Q> *c) {
  if (a->Rank() != b->Rank()) StandinFail("Expand: different ranks");
  IndexVec<Q> idx;
  std::vector<std::vector<size_t>> pa(a->Rank()), pb(a->Rank());
  for (size_t k = 0; k < a->Rank(); ++k) {
    if (std::find(axes.begin(), axes.end(), k) != axes.end()) {
      idx.push_back(StandinSumIndex(a->GetIndexes()[k], b->GetIndexes()[k], pa[k], pb[k]));
    } else {
      if (a->GetIndexes()[k] != b->GetIndexes()[k])
        StandinFail("Expand: legs not expanded differ: " + a->GetIndexes()[k].Str() + " / " + b->GetIndexes()[k].Str());
      idx.push_back(a->GetIndexes()[k]);
      for (size_t i = 0; i < idx.back().dim(); ++i) { pa[k].push_back(i); pb[k].push_back(i); }
    }
  }
  QLTensor<E, Q> r(idx);
  auto put = [&](const QLTensor<E, Q> &t, const std::vector<std::vector<size_t>> &p) {
    auto st = r.Strides();
    for (size_t o = 0; o < t.data().size(); ++o) {
      if (t.data()[o] == E(0)) continue;
      CoorsT x = t.Coor(o);
      size_t q = 0;
      for (size_t k = 0; k < x.size(); ++k) q += p[k][x[k]] * st[k];
      r.data()[q] += t.data()[o];
    }
  };
  put(*a, pa);
  put(*b, pb);
  *c = std::move(r);
}
template<typename E, typename Q>
void ExpandQNBlocks(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &axes,
                    QLTensor<E, Q> *c) {
  Expand(a, b, axes, c);
}

// Isometry fusing two legs: legs (inverse of 1, inverse of 2, fused leg with
// direction new_dir), zero divergence.
template<typename E, typename Q>
QLTensor<E, Q> IndexCombine(const Index<Q> &i1, const Index<Q> &i2, const TenIndexDirType new_dir = OUT) {
  auto sgn = [](TenIndexDirType d, const Q &q) { return d == OUT ? q : -q; };
  std::vector<Q> qns;
  std::vector<size_t> deg;
  std::vector<std::pair<size_t, size_t>> loc;
  for (size_t a = 0; a < i1.dim(); ++a)
    for (size_t b = 0; b < i2.dim(); ++b) {
      Q f = sgn(i1.GetDir(), i1.QnAt(a)) + sgn(i2.GetDir(), i2.QnAt(b));
      // legs of the result: i1, i2 as given, third with new_dir, total flux 0
      Q q = new_dir == OUT ? -f : f;
      size_t k = std::find(qns.begin(), qns.end(), q) - qns.begin();
      if (k == qns.size()) { qns.push_back(q); deg.push_back(0); }
      loc.emplace_back(k, deg[k]++);
    }
  QNSectorVec<Q> scts;
  std::vector<size_t> start;
  size_t t = 0;
  for (size_t k = 0; k < qns.size(); ++k) { start.push_back(t); scts.emplace_back(qns[k], deg[k]); t += deg[k]; }
  QLTensor<E, Q> r(IndexVec<Q>{i1, i2, Index<Q>(scts, new_dir)});
  size_t n = 0;
  for (size_t a = 0; a < i1.dim(); ++a)
    for (size_t b = 0; b < i2.dim(); ++b, ++n) r(a, b, start[loc[n].first] + loc[n].second) = E(1);
  return r;
}

template<typename T>
inline void bfwrite(std::ostream &os, const T &t) { os << t; }
template<typename T>
inline void bfread(std::istream &is, T &t) { is >> t; }

}  // namespace qlten
#ifdef STANDIN_MPI
#include "qlten/mpi_ten.h"
#endif
#endif
