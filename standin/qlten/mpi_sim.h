// Stand-in for MPI and for the distributed calls of the tensor library: every rank is a thread, exactly one of them runs
// at a time, and a seeded scheduler decides which one continues whenever a rank makes an MPI call.  Sends are buffered or
// synchronous at random, a receive takes the earliest matching message of a source (messages of one pair do not overtake)
// and any source when the code asks for any; collectives check that all ranks take part in the same one.  A state in which
// no rank can continue, a message of another kind than the receiver expects and a message that nobody receives are
// reported as failures.
#ifndef STANDIN_MPI_SIM_H
#define STANDIN_MPI_SIM_H

#include <algorithm>
#include <any>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>

struct StandinComm { int unused; };
typedef StandinComm *MPI_Comm;
inline StandinComm standin_world_{0};
#define MPI_COMM_WORLD (&standin_world_)
struct MPI_Status { int MPI_SOURCE = -7, MPI_TAG = -7, MPI_ERROR = 0; };
#define MPI_STATUS_IGNORE ((MPI_Status *) nullptr)
enum MPI_Datatype { MPI_INT = 1, MPI_UNSIGNED_LONG_LONG, MPI_DOUBLE, MPI_CHAR, MPI_C_BOOL };
const int MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1, MPI_SUCCESS = 0;
#define HANDLE_MPI_ERROR(x) do { if ((x) != MPI_SUCCESS) { std::cerr << "MPI error" << std::endl; exit(1); } } while (0)

namespace mpisim {
struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Abort {};
struct Options { int ranks = 2; int mode = 0; uint64_t seed = 0; int sync = 0; };      // sync: of 4 sends
struct Msg { int src, tag; std::string kind; std::any data; bool taken = false; };
struct Coll { std::string kind; int root; std::any data; int arrived = 0; bool have = false; };
struct Stats { size_t calls = 0, messages = 0, choices = 0, collectives = 0; };

class World {
 public:
  static World *&current() { static World *w = nullptr; return w; }
  static int &rank() { static thread_local int r = 0; return r; }
  static int nranks() { return current() ? current()->o_.ranks : 1; }
  Stats stats;
  explicit World(const Options &o) : o_(o), g_(o.seed * 7919 + o.mode), cv_(o.ranks), cond_(o.ranks), what_(o.ranks), done_(o.ranks), box_(o.ranks), seq_(o.ranks) {
    starved_ = (int) (g_() % (unsigned) o.ranks);
  }
  // f(rank) on every rank; a failure of any of them is thrown again
  void run(const std::function<void(int)> &f) {
    current() = this;
    std::vector<std::thread> th;
    for (int r = 0; r < o_.ranks; ++r) th.emplace_back([this, r, &f] {
      rank() = r;
      { std::unique_lock<std::mutex> l(m_); cv_[r].wait(l, [&] { return cur_ == r; }); }
      try { if (!abort_) f(r); } catch (Abort &) {} catch (...) { if (!err_) err_ = std::current_exception(); abort_ = true; }
      std::unique_lock<std::mutex> l(m_);
      done_[r] = 1;
      pass(r);
    });
    { std::unique_lock<std::mutex> l(m_); cur_ = next(0); cv_[cur_].notify_one(); }
    for (auto &t : th) t.join();
    current() = nullptr;
    if (err_) std::rethrow_exception(err_);
    if (!why_.empty()) throw Failure(why_);
    for (int r = 0; r < o_.ranks; ++r) for (auto &x : box_[r]) throw Failure("message from rank " + std::to_string(x->src) + " to rank " + std::to_string(r) + " with tag " + std::to_string(x->tag) + " was never received");
    for (int r = 1; r < o_.ranks; ++r) if (seq_[r] != seq_[0]) throw Failure("rank " + std::to_string(r) + " took part in " + std::to_string(seq_[r]) + " collective calls, rank 0 in " + std::to_string(seq_[0]));
  }
  void send(int dst, int tag, const std::string &kind, std::any data) {
    if (dst < 0 || dst >= o_.ranks) fail("send to rank " + std::to_string(dst));
    if (tag < 0) fail("send with tag " + std::to_string(tag));
    ++stats.messages;
    auto x = std::make_shared<Msg>(Msg{rank(), tag, kind, std::move(data)});
    box_[dst].push_back(x);
    if ((int) (g_() % 4) < o_.sync) block([x] { return x->taken; }, "sends to rank " + std::to_string(dst) + " tag " + std::to_string(tag));
    else block(nullptr, "");
  }
  std::any recv(int src, int tag, const std::string &kind, MPI_Status &st) {
    int me = rank();
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= o_.ranks)) fail("receive from rank " + std::to_string(src));
    auto match = [this, me, src, tag] {      // the earliest match of every source
      std::vector<size_t> v; std::set<int> seen;
      for (size_t i = 0; i < box_[me].size(); ++i) {
        auto &x = *box_[me][i];
        if ((src == MPI_ANY_SOURCE || x.src == src) && (tag == MPI_ANY_TAG || x.tag == tag) && seen.insert(x.src).second) v.push_back(i);
      }
      return v;
    };
    block([match] { return !match().empty(); }, "receives from " + (src < 0 ? std::string("any") : std::to_string(src)) + " tag " + (tag < 0 ? std::string("any") : std::to_string(tag)) + " " + kind);
    auto v = match();
    if (v.size() > 1) ++stats.choices;
    size_t k = o_.mode == 0 ? v[0] : v[g_() % v.size()];
    auto x = box_[me][k];
    box_[me].erase(box_[me].begin() + k);
    x->taken = true;
    if (x->kind != kind) fail("receives " + kind + " but rank " + std::to_string(x->src) + " sent " + x->kind + " with tag " + std::to_string(x->tag));
    st.MPI_SOURCE = x->src;
    st.MPI_TAG = x->tag;
    return x->data;
  }
  // all ranks; the root's data is given to the others
  std::any collective(const std::string &kind, int root, std::any data, bool wait_all) {
    ++stats.collectives;
    int me = rank();
    size_t k = seq_[me]++;
    if (coll_.size() <= k) coll_.resize(k + 1);
    auto &c0 = coll_[k];
    if (!c0) { c0 = std::make_shared<Coll>(); c0->kind = kind; c0->root = root; }
    auto c = c0;
    if (c->kind != kind || c->root != root) fail("takes part in " + kind + " of root " + std::to_string(root) + " while another rank is in " + c->kind + " of root " + std::to_string(c->root));
    ++c->arrived;
    if (me == root) { c->data = std::move(data); c->have = true; }
    int n = o_.ranks;
    if (wait_all || (int) (g_() % 4) < o_.sync) block([c, n] { return c->arrived == n && c->have; }, kind);
    else if (me == root) block(nullptr, "");
    else block([c] { return c->have; }, kind);
    return c->data;
  }
  [[noreturn]] void fail(const std::string &w) {
    if (why_.empty()) why_ = "rank " + std::to_string(rank()) + " " + w;
    std::cerr << "MPI: " << why_ << std::endl;
    abort_ = true;
    throw Abort();
  }

 private:
  void block(std::function<bool()> c, const std::string &w) {
    int r = rank();
    std::unique_lock<std::mutex> l(m_);
    ++stats.calls;
    cond_[r] = std::move(c);
    what_[r] = w;
    pass(r);
    cv_[r].wait(l, [&] { return cur_ == r; });
    cond_[r] = nullptr;
    if (abort_) throw Abort();
  }
  void pass(int r) {
    cur_ = next(r);
    if (cur_ >= 0) cv_[cur_].notify_one();
  }
  int next(int from) {
    auto ready = [&] { std::vector<int> v; for (int r = 0; r < o_.ranks; ++r) if (!done_[r] && (abort_ || !cond_[r] || cond_[r]())) v.push_back(r); return v; };
    auto v = ready();
    if (v.empty()) {
      if (std::all_of(done_.begin(), done_.end(), [](int x) { return x; })) return -1;
      if (why_.empty()) {
        why_ = "deadlock:";
        for (int r = 0; r < o_.ranks; ++r) why_ += " rank " + std::to_string(r) + (done_[r] ? " has ended;" : " " + what_[r] + ";");
        std::cerr << "MPI: " << why_ << std::endl;
      }
      abort_ = true;
      v = ready();
    }
    if (abort_) return v[0];
    switch (o_.mode) {
      case 0: return v[0];
      case 2: return v.back();
      case 3: if (g_() % 5 && std::find(v.begin(), v.end(), from) != v.end()) return from; break;
      case 4: if (v.size() > 1) v.erase(std::remove(v.begin(), v.end(), starved_), v.end()); if (g_() % 64 == 0) starved_ = (int) (g_() % (unsigned) o_.ranks); break;
      default: break;
    }
    return v[g_() % v.size()];
  }
  Options o_;
  std::mt19937_64 g_;
  std::mutex m_;
  std::deque<std::condition_variable> cv_;
  std::vector<std::function<bool()>> cond_;
  std::vector<std::string> what_;
  std::vector<int> done_;
  std::vector<std::deque<std::shared_ptr<Msg>>> box_;
  std::vector<size_t> seq_;
  std::vector<std::shared_ptr<Coll>> coll_;
  int cur_ = -1, starved_ = 0;
  bool abort_ = false;
  std::string why_;
  std::exception_ptr err_;
};
inline World &world() {
  if (!World::current()) { std::cerr << "MPI: call outside of a run" << std::endl; std::abort(); }
  return *World::current();
}
inline size_t bytes(int n, MPI_Datatype t) { return n * (t == MPI_INT ? sizeof(int) : t == MPI_UNSIGNED_LONG_LONG ? sizeof(unsigned long long) : t == MPI_DOUBLE ? sizeof(double) : 1); }
inline std::string raw(int n, MPI_Datatype t) { return std::to_string(n) + (t == MPI_INT ? " int" : t == MPI_UNSIGNED_LONG_LONG ? " size_t" : t == MPI_DOUBLE ? " double" : " byte"); }
inline std::any pack(const void *p, int n, MPI_Datatype t) { return std::string((const char *) p, bytes(n, t)); }
inline void unpack(const std::any &a, void *p) { auto s = std::any_cast<std::string>(a); std::memcpy(p, s.data(), s.size()); }
}  // namespace mpisim

inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = mpisim::World::rank(); return MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = mpisim::World::nranks(); return MPI_SUCCESS; }
inline int MPI_Barrier(MPI_Comm) { mpisim::world().collective("a barrier", 0, 0, true); return MPI_SUCCESS; }
inline int MPI_Abort(MPI_Comm, int) { mpisim::world().fail("aborted the program"); }
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm) {
  auto a = mpisim::world().collective("a broadcast of " + mpisim::raw(n, t), root, mpisim::World::rank() == root ? mpisim::pack(p, n, t) : std::any(), false);
  if (mpisim::World::rank() != root) mpisim::unpack(a, p);
  return MPI_SUCCESS;
}
inline int MPI_Send(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) {
  mpisim::world().send(dst, tag, mpisim::raw(n, t), mpisim::pack(p, n, t));
  return MPI_SUCCESS;
}
inline int MPI_Recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status *st) {
  MPI_Status s;
  mpisim::unpack(mpisim::world().recv(src, tag, mpisim::raw(n, t), s), p);
  if (st) *st = s;
  return MPI_SUCCESS;
}

namespace qlten {
template<typename T> void StandinSend(const T &t, int dst, int tag, bool blk);
template<typename T> MPI_Status StandinRecv(T &t, int src, int tag, bool blk);
template<typename T> void StandinBcast(T &t, int root);
}  // namespace qlten
#endif
