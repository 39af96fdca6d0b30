// A small property-based testing engine in the style of Hypothesis: every random decision of a
// generator is one draw from a choice sequence.  A case IS its choice sequence, so shrinking
// (delete / zero / minimise draws, re-run, keep if still failing) and replay are generic and need
// no per-generator code.  Cases run in forked workers, so a crash, a sanitizer report, an
// unexpected exit() or a hang of the code under test is an observable outcome like any other.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Fail { std::string msg; };

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

// draws are mirrored into shared memory while a failing case is recorded, so that they survive any kind of death
inline uint64_t *&rec_buf() { static uint64_t *p = nullptr; return p; }
constexpr size_t kRecCap = 200002;

// open findings listed in KNOWN_FINDINGS.txt: (property, key) -> text
inline std::map<std::pair<std::string, std::string>, std::string> &known_list() { static std::map<std::pair<std::string, std::string>, std::string> m; return m; }
inline std::string &current_property() { static std::string s; return s; }
inline void load_known(const std::string &file) {
  std::ifstream in(file);
  std::string line;
  while (std::getline(in, line)) {
    if (line.rfind("known: property=", 0)) continue;
    std::istringstream ls(line.substr(16));
    std::string prop, key, text;
    ls >> prop >> key;
    if (key.rfind("case=", 0)) continue;
    std::getline(ls, text);
    known_list()[{prop, key.substr(5)}] = text.empty() ? text : text.substr(1);
  }
}

// the description of the case; also kept in memory shared with the parent, for cases that crash
inline char *&note_mirror() { static char *m = nullptr; return m; }
constexpr size_t note_mirror_size = 1 << 15;
struct Note : std::ostream {
  struct Buf : std::stringbuf {
    size_t n = 0;
    void put(const char *c, size_t k) {
      if (!note_mirror() || n + k + 1 >= note_mirror_size) return;
      memcpy(note_mirror() + n, c, k); n += k; note_mirror()[n] = 0;
    }
    std::streamsize xsputn(const char *c, std::streamsize k) override { put(c, (size_t) k); return std::stringbuf::xsputn(c, k); }
    int_type overflow(int_type c) override { if (c != traits_type::eof()) { char x = (char) c; put(&x, 1); } return std::stringbuf::overflow(c); }
    int sync() override { return 0; }
  } b;
  Note() : std::ostream(&b) {}
  std::string str() const { return b.str(); }
};
class Src {
 public:
  explicit Src(uint64_t seed) : state_(seed), random_(true) {}
  explicit Src(std::vector<uint64_t> replay) : random_(false), replay_(std::move(replay)) {}
  // uniform in [0, n); the simplest value is 0
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (random_) {
      if (choices.size() > 200000) throw Discard{};
      v = splitmix(state_) % n;
    } else {
      v = pos_ < replay_.size() ? replay_[pos_] : 0;
      ++pos_;
      if (v >= n) v = n - 1;
    }
    choices.push_back(v);
    if (uint64_t *r = rec_buf()) if (r[0] + 1 < kRecCap) { r[1 + r[0]] = v; ++r[0]; }
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
  // mostly in [lo, hi], now and then up to `more`: sizes beyond what is usual
  int64_t big(int64_t lo, int64_t hi, int64_t more, uint64_t one_in = 30) { return below(one_in) == one_in - 1 ? range(lo, more) : range(lo, hi); }
  bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }   // shrinks to false
  bool flip() { return below(2) == 1; }
  template<typename C> auto pick(const C &c) -> typename C::value_type { return c[below(c.size())]; }
  // weighted choice: returns the index; put the simplest alternative first
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t tot = 0; for (auto x : w) tot += x;
    uint64_t v = below(tot); size_t i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
  }
  // a number in [-1,1] on a coarse grid, never tiny unless zero; simplest is `1.0`
  double coef(bool allow_zero = false) {
    static const double simple[] = {1.0, -1.0, 0.5, 2.0, -0.5, 1.5, -2.0, 0.25};
    if (chance(1, 2)) {
      int64_t k = range(allow_zero ? 0 : 1, 4000);
      double v = (double) k / 1000.0;
      return flip() ? -v : v;
    }
    return simple[below(8)];
  }
  std::vector<size_t> perm(size_t n) {
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) p[i] = i;
    for (size_t i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + below(n - i)]);
    return p;
  }
  uint64_t raw64() { return (below(1ULL << 32) << 32) | below(1ULL << 32); }
  Note note;                                     // human readable description of the case
  void label(const std::string &l) { labels.insert(l); }
  // the failure named `key` was seen: true (and reported as KNOWN-FINDING) if it is listed
  bool known(const std::string &key) {
    if (!known_list().count({current_property(), key})) return false;
    label("KNOWN " + key);
    return true;
  }
  void nontrivial(bool b = true) { nontrivial_ = b; }
  bool is_nontrivial() const { return nontrivial_; }
  std::set<std::string> labels;
  std::vector<uint64_t> choices;
 private:
  uint64_t state_ = 0;
  bool random_;
  std::vector<uint64_t> replay_;
  size_t pos_ = 0;
  bool nontrivial_ = false;
};

inline void fail(const std::string &m) { throw Fail{m}; }
#define PBT_REQUIRE(cond, msg)                                              \
  do { if (!(cond)) { std::ostringstream os_; os_ << msg; ::pbt::fail(os_.str()); } } while (0)

struct Prop {
  std::string property;          // C01 ...
  std::string name;              // sub-check
  std::function<void(Src &)> fn;
  size_t quick, thorough;        // number of cases
};

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

// ---- private working directory of a case (for code that reads and writes files) ----
inline bool &want_scratch() { static bool b = false; return b; }
inline std::string &tmp_root() { static std::string s; return s; }
struct Scratch {
  std::string dir, back;
  Scratch() {
    if (!want_scratch() || tmp_root().empty()) return;
    std::error_code ec;
    back = std::filesystem::current_path(ec).string();
    dir = tmp_root() + "/scratch" + std::to_string(getpid());
    std::filesystem::remove_all(dir, ec);
    std::filesystem::create_directory(dir, ec);
    if (chdir(dir.c_str())) _exit(98);
  }
  ~Scratch() {
    if (dir.empty()) return;
    if (chdir(back.c_str())) {}
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
  }
};

// ---- outcome of one case -------------------------------------------------------------------
struct Outcome {
  enum Kind { PASS, DISCARD, FAIL } kind = PASS;
  std::string msg;
};
inline Outcome run_inline(const Prop &p, Src &s) {
  Outcome o;
  current_property() = p.property;
  Scratch scratch;
  try { p.fn(s); }
  catch (const Discard &) { o.kind = Outcome::DISCARD; }
  catch (const Fail &f) { o.kind = Outcome::FAIL; o.msg = f.msg; }
  catch (const std::exception &e) { o.kind = Outcome::FAIL; o.msg = std::string("unexpected exception: ") + e.what(); }
  catch (...) { o.kind = Outcome::FAIL; o.msg = "unexpected exception of unknown type"; }
  return o;
}

inline long &cpu_limit() { static long l = 60; return l; }
inline void arm(long sec) {
  struct itimerval it {}; it.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  it.it_value.tv_sec = 5 * sec;                  // a case that blocks without computing
  setitimer(ITIMER_REAL, &it, nullptr);
}
inline void silence(const std::string &errfile) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  int e = errfile.empty() ? n : open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (e >= 0) dup2(e, 2);
}

struct Shared { volatile uint64_t cur; volatile uint64_t done; volatile uint64_t stop; };

inline std::string describe_status(int st) {
  std::ostringstream os;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGVTALRM || sg == SIGALRM) os << "the case did not terminate within the time limit";
    else os << "the code under test died with signal " << sg << " (" << strsignal(sg) << ")";
  } else os << "the code under test ended the process with exit status " << WEXITSTATUS(st);
  return os.str();
}
inline std::string slurp(const std::string &f, size_t max = 4000) {
  std::ifstream in(f, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  if (s.size() > max) s = s.substr(0, max) + "...";
  return s;
}

// run one choice sequence in a child
struct ChildRes { Outcome o; std::string note; std::vector<uint64_t> choices; };
inline ChildRes run_child(const Prop &p, const std::vector<uint64_t> &seq, const std::string &tmp) {
  ChildRes r;
  std::string rf = tmp + "/child_res", ef = tmp + "/child_err";
  unlink(rf.c_str());
  fflush(nullptr); std::cout.flush();
  static char *shared = (char *) mmap(nullptr, note_mirror_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (shared != MAP_FAILED) shared[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    silence(ef);
    if (shared != MAP_FAILED) note_mirror() = shared;
    signal(SIGVTALRM, SIG_DFL);
    arm(cpu_limit());
    Src s(seq);
    // the note is flushed through an atexit-free path: write it also if we crash
    Outcome o = run_inline(p, s);
    std::ofstream out(rf, std::ios::binary);
    out << (int) o.kind << "\n" << s.choices.size();
    for (auto c : s.choices) out << " " << c;
    out << "\n" << o.msg.size() << "\n" << o.msg << s.note.str();
    out.close();
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  std::ifstream in(rf, std::ios::binary);
  int k = -1; size_t n = 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (in >> k) && (in >> n)) {
    r.o.kind = (Outcome::Kind) k;
    r.choices.resize(n);
    for (auto &c : r.choices) in >> c;
    size_t ml; in >> ml; in.get();
    std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    r.o.msg = rest.substr(0, ml); r.note = rest.substr(ml);
  } else {
    r.o.kind = Outcome::FAIL;
    r.o.msg = describe_status(st) + "\n" + slurp(ef);
    r.choices = seq;
    if (shared != MAP_FAILED) r.note = shared;
  }
  return r;
}

inline std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, const std::string &tmp, ChildRes &bestres,
                                    int max_attempts = 3000, double max_s = 90) {
  int attempts = 0;
  auto t0 = time(nullptr);
  auto left = [&] { return attempts < max_attempts && difftime(time(nullptr), t0) < max_s; };
  auto try_seq = [&](const std::vector<uint64_t> &c) {
    if (!left()) return false;
    ++attempts;
    ChildRes r = run_child(p, c, tmp);
    if (r.o.kind != Outcome::FAIL) return false;
    std::vector<uint64_t> nb = r.choices.size() <= c.size() ? r.choices : c;
    if (nb.size() < best.size() || (nb.size() == best.size() && nb < best) ||
        std::lexicographical_compare(nb.begin(), nb.end(), best.begin(), best.end())) {
      best = nb; bestres = r; return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && left()) {
    improved = false;
    for (size_t blk = std::min<size_t>(64, best.size()); blk >= 1 && left(); blk /= 2)
      for (size_t i = 0; i + blk <= best.size() && left();) {
        auto c = best; c.erase(c.begin() + i, c.begin() + i + blk);
        if (try_seq(c)) improved = true; else ++i;
        if (i > 400 && blk == 1) break;
      }
    for (size_t blk = std::min<size_t>(16, best.size()); blk >= 1 && left(); blk /= 2)
      for (size_t i = 0; i + blk <= best.size() && left(); i += blk) {
        auto c = best; bool nz = false;
        for (size_t j = i; j < i + blk; ++j) { nz |= c[j] != 0; c[j] = 0; }
        if (nz && try_seq(c)) improved = true;
      }
    // deleting a draw while decrementing an earlier one (lengths)
    for (size_t i = 0; i < best.size() && i < 60 && left(); ++i) {
      if (best[i] == 0) continue;
      for (size_t d = 1; d <= 6 && left(); ++d)
        for (size_t j = i + 1; j + d <= best.size() && j < i + 60 && left(); ++j) {
          auto c = best; if (c[i] == 0) break;
          c[i] -= 1; c.erase(c.begin() + j, c.begin() + j + d);
          if (try_seq(c)) { improved = true; break; }
        }
    }
    for (size_t i = 0; i < best.size() && left(); ++i) {
      uint64_t lo = 0;
      while (i < best.size() && lo < best[i] && left()) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        auto c = best; c[i] = mid;
        if (try_seq(c)) improved = true; else lo = mid + 1;
      }
    }
  }
  return best;
}

inline std::string seq_text(const std::vector<uint64_t> &v) {
  std::ostringstream os;
  for (size_t i = 0; i < v.size(); ++i) os << (i ? " " : "") << v[i];
  return os.str();
}

// ---- main ----------------------------------------------------------------------------------
struct Stats {
  size_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, size_t> labels;
  std::vector<std::string> samples;
};

inline int run_prop(const Prop &p, size_t n, uint64_t seed, int workers, const std::string &tmp,
                    Stats &st, std::string &failseq, std::string &failmsg, std::string &failnote) {
  auto *sh = (Shared *) mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto case_seed = [&](uint64_t i) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ULL ^ fnv(p.property + "/" + p.name) ^ (i * 0xd1342543de82ef95ULL + 17);
    splitmix(x); return splitmix(x);
  };
  std::vector<pid_t> pids(workers);
  fflush(nullptr); std::cout.flush();
  for (int w = 0; w < workers; ++w) {
    sh[w] = Shared{UINT64_MAX, 0, 0};
    pids[w] = fork();
    if (pids[w] == 0) {
      silence(tmp + "/err" + std::to_string(w));
      signal(SIGVTALRM, SIG_DFL);
      std::ofstream out(tmp + "/w" + std::to_string(w), std::ios::binary);
      Stats s;
      for (uint64_t i = w; i < n && !sh[w].stop; i += workers) {
        sh[w].cur = i;
        arm(cpu_limit());
        Src src(case_seed(i));
        Outcome o = run_inline(p, src);
        if (o.kind == Outcome::DISCARD) { ++s.discarded; continue; }
        ++s.evaluations;
        std::string note = src.note.str();
        if (o.kind == Outcome::FAIL) { out << "F " << i << "\n"; break; }
        if (src.is_nontrivial()) { ++s.nontrivial; s.distinct.insert(fnv(note)); if (s.samples.size() < 2) s.samples.push_back(note); }
        for (auto &l : src.labels) ++s.labels[l];
      }
      arm(0);
      out << "S " << s.evaluations << " " << s.discarded << " " << s.nontrivial << "\n";
      for (auto h : s.distinct) out << "H " << h << "\n";
      for (auto &l : s.labels) out << "L " << l.second << " " << l.first << "\n";
      for (auto &x : s.samples) out << "X " << x.size() << "\n" << x << "\n";
      out.close();
      sh[w].done = 1;
      _exit(0);
    }
  }
  uint64_t failed = UINT64_MAX;
  int alive = workers;
  while (alive > 0) {
    int stt; pid_t pid = waitpid(-1, &stt, 0);
    if (pid <= 0) break;
    int w = -1;
    for (int k = 0; k < workers; ++k) if (pids[k] == pid) w = k;
    if (w < 0) continue;
    --alive;
    if (!sh[w].done) { failed = std::min<uint64_t>(failed, (uint64_t) sh[w].cur); st.evaluations += sh[w].cur == UINT64_MAX ? 0 : sh[w].cur / workers; }
    std::ifstream in(tmp + "/w" + std::to_string(w), std::ios::binary);
    std::string tag;
    while (in >> tag) {
      if (tag == "F") { uint64_t i; in >> i; failed = std::min(failed, i); }
      else if (tag == "S") { size_t a, b, c; in >> a >> b >> c; st.evaluations += a; st.discarded += b; st.nontrivial += c; }
      else if (tag == "H") { uint64_t h; in >> h; st.distinct.insert(h ^ fnv(p.name)); }
      else if (tag == "L") { size_t c; std::string l; in >> c; in.get(); std::getline(in, l); st.labels[p.name + ": " + l] += c; }
      else if (tag == "X") { size_t c; in >> c; in.get(); std::string x(c, ' '); in.read(&x[0], c); if (w == 0) st.samples.push_back("[" + p.name + "] " + x); }
      else break;
    }
    if (failed != UINT64_MAX) for (int k = 0; k < workers; ++k) sh[k].stop = 1;
  }
  munmap(sh, sizeof(Shared) * workers);
  if (failed == UINT64_MAX) return 0;
  // Recover the choice sequence.  The draws of a case depend on the seed alone except where a
  // generator looks at results, so record them in a child through shared memory.
  std::vector<uint64_t> seq;
  ChildRes res;
  {
    auto *buf = (uint64_t *) mmap(nullptr, sizeof(uint64_t) * kRecCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid == 0) {
      silence(tmp + "/rec_err");
      signal(SIGVTALRM, SIG_DFL);
      arm(cpu_limit());
      rec_buf() = buf;
      Src src(case_seed(failed));
      run_inline(p, src);
      _exit(0);
    }
    int stt; waitpid(pid, &stt, 0);
    seq.assign(buf + 1, buf + 1 + buf[0]);
    munmap(buf, sizeof(uint64_t) * kRecCap);
  }
  res = run_child(p, seq, tmp);
  if (res.o.kind != Outcome::FAIL) {
    failmsg = "case " + std::to_string(failed) + " failed in the campaign but not when replayed: " + res.o.msg;
    return 2;
  }
  ChildRes best = res;
  auto seq2 = shrink(p, seq, tmp, best);
  int ok = 0;
  for (int k = 0; k < 3; ++k) { auto r = run_child(p, seq2, tmp); if (r.o.kind == Outcome::FAIL) { ++ok; best = r; } }
  if (ok < 3) {
    ok = 0; seq2 = seq;
    for (int k = 0; k < 3; ++k) { auto r = run_child(p, seq2, tmp); if (r.o.kind == Outcome::FAIL) { ++ok; best = r; } }
  }
  failseq = seq_text(seq2); failmsg = best.o.msg; failnote = best.note;
  return ok == 3 ? 1 : 2;
}

inline int main_(int argc, char **argv, const std::vector<Prop> &props) {
  std::string tier = "quick", out, replaydir, replay, only, only_name;
  uint64_t seed = 1; int workers = 8; double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") out = nx(); else if (a == "--replaydir") replaydir = nx();
    else if (a == "--replay") replay = nx(); else if (a == "--property") only = nx();
    else if (a == "--name") only_name = nx();
    else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--cpu") cpu_limit() = atol(nx().c_str());
  }
  char tb[] = "/tmp/pbtXXXXXX";
  std::string tmp = mkdtemp(tb);
  if (const char *k = getenv("PBT_KNOWN")) load_known(k);
  tmp_root() = tmp;
  auto cleanup = [&] { std::string c = "rm -rf '" + tmp + "'"; if (system(c.c_str())) {} };
  if (!replay.empty()) {
    std::ifstream in(replay); std::string line, prop, name, seqs; bool want = false;
    while (std::getline(in, line)) {
      if (line.rfind("property: ", 0) == 0) prop = line.substr(10);
      else if (line.rfind("check: ", 0) == 0) name = line.substr(7);
      else if (line.rfind("choices: ", 0) == 0) seqs = line.substr(9);
      else if (line == "choices:") seqs = "";
    }
    (void) want;
    std::vector<uint64_t> seq; std::istringstream ls(seqs); uint64_t v; while (ls >> v) seq.push_back(v);
    for (auto &p : props) if (p.property == prop && p.name == name) {
      auto r = run_child(p, seq, tmp);
      cleanup();
      std::cout << (r.o.kind == Outcome::FAIL ? "FAIL " : "PASS ") << r.o.msg << "\n" << r.note << std::endl;
      return r.o.kind == Outcome::FAIL ? 1 : 0;
    }
    std::cerr << "no such check\n"; cleanup(); return 2;
  }
  int rc = 0;
  std::ostringstream js;
  Stats tot; size_t distinct = 0; std::ostringstream per; bool first = true;
  std::vector<std::string> samples;
  for (auto &p : props) {
    if (!only.empty() && p.property != only) continue;
    if (!only_name.empty() && p.name != only_name) continue;
    size_t n = tier == "thorough" ? p.thorough : p.quick;
    n = std::max<size_t>(1, (size_t) (n * scale));
    Stats st; std::string fs, fm, fn;
    struct timeval a, b; gettimeofday(&a, 0);
    int r = run_prop(p, n, seed, workers, tmp, st, fs, fm, fn);
    gettimeofday(&b, 0);
    double sec = (b.tv_sec - a.tv_sec) + 1e-6 * (b.tv_usec - a.tv_usec);
    std::cerr << p.property << "/" << p.name << ": " << st.evaluations << " cases, " << st.discarded << " discarded, "
              << st.distinct.size() << " distinct non-trivial, " << sec << " s" << (r ? "  FAILED" : "") << std::endl;
    tot.evaluations += st.evaluations; distinct += st.distinct.size(); tot.discarded += st.discarded;
    for (auto &l : st.labels) tot.labels[l.first] += l.second;
    for (auto &s : st.samples) samples.push_back(s.substr(0, 1500));
    per << (first ? "" : ", ") << "{\"check\": \"" << jesc(p.name) << "\", \"evaluations\": " << st.evaluations
        << ", \"discarded\": " << st.discarded << ", \"distinct_nontrivial\": " << st.distinct.size() << ", \"seconds\": " << sec << "}";
    first = false;
    for (auto &k : known_list())
      if (k.first.first == p.property && st.labels.count(p.name + ": KNOWN " + k.first.second))
        std::cout << "KNOWN-FINDING: property=" << p.property << " " << k.second << std::endl;
    if (r == 1) {
      std::string path = replaydir + "/" + p.property + "-" + p.name + "-" + std::to_string(fnv(fs) % 1000000) + ".txt";
      std::ofstream o(path);
      o << "property: " << p.property << "\ncheck: " << p.name << "\nchoices: " << fs << "\n--- case (shrunk) ---\n" << fn
        << "\n--- what failed ---\n" << fm << "\n";
      o.close();
      std::cerr << "--- " << p.name << ": " << fm << "\n" << fn << std::endl;
      std::cout << "VIOLATION property=" << p.property << " replay=" << path << std::endl;
      rc = 1;
    } else if (r == 2) {
      std::cerr << "UNREPRODUCED " << p.name << ": " << fm << std::endl;
      if (rc == 0) rc = 3;
    }
  }
  if (!out.empty()) {
    std::ofstream o(out);
    o << "{\"evaluations\": " << tot.evaluations << ", \"distinct_nontrivial\": " << distinct << ", \"discarded\": " << tot.discarded
      << ", \"rc\": " << rc << ", \"checks\": [" << per.str() << "], \"labels\": {";
    first = true;
    for (auto &l : tot.labels) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
    o << "}, \"samples\": [";
    first = true;
    for (auto &s : samples) { o << (first ? "" : ", ") << "\"" << jesc(s) << "\""; first = false; }
    o << "]}\n";
  }
  cleanup();
  return rc;
}
}  // namespace pbt
