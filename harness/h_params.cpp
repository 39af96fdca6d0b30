// C06 parameter values are delivered faithfully; C07 wrong / missing / malformed input is refused.
// Documents are generated as value trees and serialised by this file, so the oracle does not use
// the JSON library of the code under test.  Calls that must end the process run in a child.
#include "pbt.h"
#include <cfloat>
#include <climits>
#include <cmath>
#include <memory>
#include "qlmps/case_params_parser.h"
using pbt::Src;
using Parser = qlmps::CaseParamsParserBasic;

struct V;
typedef std::vector<std::pair<std::string, V>> Obj;
struct V {
  enum K { NUL, BOOL, INT, DBL, STR, ARR, OBJ } k = NUL;
  bool b = false; bool neg = false; uint64_t mag = 0; double d = 0; std::string s; std::vector<V> a; Obj o;
};
static std::string utf8(uint32_t c) {
  std::string r;
  if (c < 0x80) r += (char) c; else if (c < 0x800) { r += (char) (0xC0 | c >> 6); r += (char) (0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char) (0xE0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
  else { r += (char) (0xF0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
  return r;
}
// (text, serialised form) of one string
static std::pair<std::string, std::string> gen_string(Src &s, bool nonempty = false) {
  std::string t, j = "\""; size_t n = s.weighted({1, 3, 3}) == 0 ? (nonempty ? 1 : 0) : (size_t) s.big(1, 12, 600);
  for (size_t i = 0; i < n; ++i) {
    switch (s.weighted({20, 3, 2, 2, 1})) {
      case 0: { static const std::string al = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-./:{}[],#"; char c = al[s.below(al.size())]; t += c; j += c; break; }
      case 1: { static const char *e[] = {"\"\\\"", "\\\\\\", "/\\/", "\n\\n", "\t\\t", "\r\\r", "\b\\b", "\f\\f"}; auto x = e[s.below(8)]; t += x[0]; j += x + 1; break; }
      case 2: { uint32_t c = s.range(1, 0xFFFF); if (c >= 0xD800 && c < 0xE000) c = 0x3B1; char b[8]; snprintf(b, 8, s.flip() ? "\\u%04x" : "\\u%04X", c); t += utf8(c); j += b; break; }
      case 3: { uint32_t c = s.range(0xA0, 0xD7FF); t += utf8(c); j += utf8(c); break; }
      default: { uint32_t c = s.range(0x10000, 0x10FFFF); t += utf8(c); char b[16]; snprintf(b, 16, "\\u%04x\\u%04x", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 1023)); j += b; }
    }
  }
  return {t, j + "\""};
}
struct Writer {
  Src &s; std::ostringstream os;
  explicit Writer(Src &s) : s(s) {}
  void ws() { static const char *w[] = {"", " ", "\n", "\t", "\r\n", "  \n  "}; os << w[s.weighted({12, 4, 2, 1, 1, 1})]; }
};
// A generated value carries its own serialised text.
struct GV { V v; std::string text; };
static GV g_int(Src &s, int mode) {       // mode 0: fits int; 1: non-negative int64; 2: any int64/uint64
  GV g; g.v.k = V::INT;
  uint64_t m = 0; bool neg = false;
  switch (s.weighted({4, 2, 2, 1})) {
    case 0: m = s.range(0, 20); neg = s.flip(); break;
    case 1: m = s.range(0, 100000); neg = s.flip(); break;
    case 2: m = s.below(1u << 31); neg = s.flip(); break;
    default: if (s.flip()) { m = INT_MAX; } else { m = (uint64_t) INT_MAX + 1; neg = true; }
  }
  if (mode == 1) { neg = false; if (s.chance(1, 6)) m = s.raw64(); if (s.chance(1, 20)) m = UINT64_MAX; }
  if (mode == 2) { if (s.flip()) { m = (uint64_t) INT_MAX + 1 + s.below(5) ; neg = false; if (s.flip()) m = s.raw64() | (1ULL << 33); } else { neg = true; m = (uint64_t) INT_MAX + 2 + s.below(1u << 31); if (s.flip()) m = (s.raw64() >> 1) | (1ULL << 33); } }
  if (m == 0) neg = false;
  g.v.neg = neg; g.v.mag = m; g.text = (neg ? "-" : "") + std::to_string(m);
  return g;
}
static GV g_dbl(Src &s, bool fractional) {
  GV g; g.v.k = V::DBL; char b[64];
  double d;
  do {
    switch (s.weighted({3, 2, 2})) {
      case 0: d = s.coef(); break;
      case 1: { uint64_t r = s.raw64(); memcpy(&d, &r, 8); break; }
      default: d = std::ldexp((double) s.range(1, 1 << 20) + 0.5, (int) s.range(-40, 20)); if (s.flip()) d = -d;
    }
  } while (!std::isfinite(d) || (fractional && d == std::floor(d) && std::fabs(d) < 4e9 && (d = 0.5 + s.range(0, 9), false)));
  switch (s.below(3)) { case 0: snprintf(b, 64, "%.17g", d); break; case 1: snprintf(b, 64, "%.17E", d); break; default: snprintf(b, 64, "%.20e", d); }
  g.text = b; g.v.d = strtod(b, nullptr);
  if (g.text.find_first_of(".eE") == std::string::npos) g.text += ".0";
  return g;
}
static GV g_bool(Src &s) { GV g; g.v.k = V::BOOL; g.v.b = s.flip(); g.text = g.v.b ? "true" : "false"; return g; }
static GV g_str(Src &s, bool ne = false) { GV g; g.v.k = V::STR; auto p = gen_string(s, ne); g.v.s = p.first; g.text = p.second; return g; }
template<typename F> static GV g_arr(Src &s, F f, size_t lo, size_t hi) {
  GV g; g.v.k = V::ARR; size_t n = s.big(lo, hi, 20 * hi); std::ostringstream os; Writer w(s);
  w.os << "["; for (size_t i = 0; i < n; ++i) { w.ws(); GV e = f(); g.v.a.push_back(e.v); w.os << e.text; w.ws(); if (i + 1 < n) w.os << ","; }
  w.ws(); w.os << "]"; g.text = w.os.str(); return g;
}
static GV g_null() { GV g; g.text = "null"; return g; }
static GV g_obj(Src &s) { GV g; g.v.k = V::OBJ; g.text = s.flip() ? "{}" : "{\"value\": 3}"; return g; }
static GV g_any(Src &s, int depth = 0) {
  switch (s.weighted({3, 2, 2, 2, 1, 1, depth < 2 ? 2u : 0u, depth < 2 ? 1u : 0u})) {
    case 0: return g_int(s, s.below(3)); case 1: return g_dbl(s, false); case 2: return g_bool(s); case 3: return g_str(s);
    case 4: return g_null(); case 5: return g_obj(s); case 6: return g_arr(s, [&] { return g_any(s, depth + 1); }, 0, 4);
    default: return g_arr(s, [&] { return g_int(s, 0); }, 0, 4);
  }
}
enum T { TINT, TDBL, TCHR, TSTR, TBOOL, TIV, TSV, TDV, NT };
static const char *expected_word[] = {"integer", "number", "string", "string", "boolean", "array(integer)", "array(unsigned integer)", "array(number)"};
static const char *tname[] = {"Int", "Double", "Char", "Str", "Bool", "IntVec", "SizeTVec", "DoubleVec"};
enum Verdict { ACCEPT, REFUSE, OPEN };          // OPEN: the guide leaves it open (an integer written as 3.0)
static Verdict judge(const V &v, int t) {
  auto fits = [](const V &x) { return x.k == V::INT && (x.neg ? x.mag <= (uint64_t) INT_MAX + 1 : x.mag <= INT_MAX); };
  auto openint = [](const V &x) { return x.k == V::DBL && x.d == std::floor(x.d) && std::fabs(x.d) < 2.2e9; };
  switch (t) {
    case TINT: return fits(v) ? ACCEPT : openint(v) ? OPEN : REFUSE;
    case TDBL: return v.k == V::INT || v.k == V::DBL ? ACCEPT : REFUSE;
    case TCHR: case TSTR: return v.k == V::STR ? ACCEPT : REFUSE;
    case TBOOL: return v.k == V::BOOL ? ACCEPT : REFUSE;
    case TIV: case TSV: case TDV: {
      if (v.k != V::ARR) return REFUSE;
      Verdict r = ACCEPT;
      for (auto &e : v.a) {
        Verdict q = t == TIV ? judge(e, TINT) : t == TDV ? judge(e, TDBL) : e.k == V::INT && !e.neg ? ACCEPT : e.k == V::DBL && e.d == std::floor(e.d) && e.d >= 0 ? OPEN : REFUSE;
        if (q == REFUSE) return REFUSE;
        if (q == OPEN) r = OPEN;
      }
      return r;
    }
  }
  return OPEN;
}
// an exact textual rendering of an answer
static std::string hexd(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
static std::string want_text(const V &v, int t) {
  auto i = [](const V &x) { return x.k == V::DBL ? std::to_string((long long) x.d) : (x.neg ? "-" : "") + std::to_string(x.mag); };
  auto d = [](const V &x) { return hexd(x.k == V::DBL ? x.d : x.neg ? (double) -(long double) x.mag : (double) x.mag); };
  std::string r;
  switch (t) {
    case TINT: return i(v); case TDBL: return d(v);
    case TCHR: return v.s.empty() ? std::string(1, '\0') : std::string(1, v.s[0]);
    case TSTR: return v.s; case TBOOL: return v.b ? "true" : "false";
    case TDV: for (auto &e : v.a) r += d(e) + " "; return r;
    default: for (auto &e : v.a) r += i(e) + " "; return r;
  }
}
template<typename C> static std::string join(const C &c) { std::string r; for (auto x : c) r += std::to_string(x) + " "; return r; }
static std::string joind(const std::vector<double> &c) { std::string r; for (auto x : c) r += hexd(x) + " "; return r; }
static std::string call_strict(Parser &p, int t, const std::string &k) {
  switch (t) {
    case TINT: return std::to_string(p.ParseInt(k)); case TDBL: return hexd(p.ParseDouble(k)); case TCHR: return std::string(1, p.ParseChar(k));
    case TSTR: return p.ParseStr(k); case TBOOL: return p.ParseBool(k) ? "true" : "false"; case TIV: return join(p.ParseIntVec(k));
    case TSV: return join(p.ParseSizeTVec(k)); default: return joind(p.ParseDoubleVec(k));
  }
}
static std::string default_text(int t) { static const char *d[] = {"-77", "0x1.8p+1", "@", "dflt", "true", "5 6 ", "8 9 10 ", "0x1p-1 "}; return d[t]; }
static std::string call_or(Parser &p, int t, const std::string &k) {
  switch (t) {
    case TINT: return std::to_string(p.ParseIntOr(k, -77)); case TDBL: return hexd(p.ParseDoubleOr(k, 3.0)); case TCHR: return std::string(1, p.ParseCharOr(k, '@'));
    case TSTR: return p.ParseStrOr(k, "dflt"); case TBOOL: return p.ParseBoolOr(k, true) ? "true" : "false"; case TIV: return join(p.ParseIntVecOr(k, {5, 6}));
    case TSV: return join(p.ParseSizeTVecOr(k, {8, 9, 10})); default: return joind(p.ParseDoubleVecOr(k, {0.5}));
  }
}
static bool call_try(const Parser &p, int t, const std::string &k, std::string &out) {
  bool ok;
  switch (t) {
    case TINT: { int x = 0; ok = p.TryParseInt(k, x); out = std::to_string(x); break; }
    case TDBL: { double x = 0; ok = p.TryParseDouble(k, x); out = hexd(x); break; }
    case TCHR: { char x = 0; ok = p.TryParseChar(k, x); out = std::string(1, x); break; }
    case TSTR: ok = p.TryParseStr(k, out); break;
    case TBOOL: { bool x = false; ok = p.TryParseBool(k, x); out = x ? "true" : "false"; break; }
    case TIV: { std::vector<int> x; ok = p.TryParseIntVec(k, x); out = join(x); break; }
    case TSV: { std::vector<size_t> x; ok = p.TryParseSizeTVec(k, x); out = join(x); break; }
    default: { std::vector<double> x; ok = p.TryParseDoubleVec(k, x); out = joind(x); }
  }
  return ok;
}
// run in a child; returns exit description and what it wrote to stderr
struct Ended { bool returned = false; bool exited = false; int code = -1; bool threw = false; std::string err; std::string st; };
static Ended in_child(const std::function<void()> &f) {
  int fd[2]; if (pipe(fd)) throw pbt::Discard{};
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd[1], 2); close(fd[0]); close(fd[1]); pbt::arm(20);
    try { f(); } catch (...) { _exit(43); }
    _exit(42);
  }
  close(fd[1]); Ended e; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) e.err.append(b, n);
  close(fd[0]); int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) e.returned = true; else if (WIFEXITED(st) && WEXITSTATUS(st) == 43) e.threw = true;
  else if (WIFEXITED(st)) { e.exited = true; e.code = WEXITSTATUS(st); }
  e.st = e.returned ? "returned" : e.threw ? "threw" : pbt::describe_status(st);
  return e;
}
struct Doc { std::string file, text; std::vector<std::pair<std::string, V>> items; };
static std::string scratch() { static std::string d; static pid_t owner = 0; if (owner != getpid()) { d = "/tmp/pbtparams" + std::to_string(getpid()); owner = getpid(); } return d; }
struct TmpFile { std::string p; explicit TmpFile(const std::string &t) : p(scratch() + ".json") { std::ofstream o(p, std::ios::binary); o << t; } ~TmpFile() { unlink(p.c_str()); } };
static Doc gen_doc(Src &s, bool mixed) {
  Doc d; std::set<std::string> used; size_t n = s.big(1, 7, 60); Writer w(s);
  std::vector<std::string> members; size_t before = s.below(3);
  auto other = [&](const char *nm) { Writer x(s); GV g = g_any(s); x.os << "\"" << nm << "\":"; x.ws(); x.os << g.text; members.push_back(x.os.str()); };
  static const char *nms[] = {"Unused", "caseparams", "CaseParams2", "Meta"};
  for (size_t i = 0; i < before; ++i) other(nms[i]);
  {
    Writer x(s); x.os << "\"CaseParams\""; x.ws(); x.os << ":"; x.ws(); x.os << "{";
    for (size_t i = 0; i < n; ++i) {
      auto key = s.chance(1, 4) ? gen_string(s) : std::make_pair(std::string("k") + std::to_string(i), "\"k" + std::to_string(i) + "\"");
      if (!used.insert(key.first).second) key = {"u" + std::to_string(i), "\"u" + std::to_string(i) + "\""}, used.insert(key.first);
      GV g;
      switch (s.weighted({2, 2, 1, 2, 2, 2, 2, 2, mixed ? 8u : 0u})) {
        case 0: g = g_int(s, 0); break; case 1: g = g_dbl(s, false); break; case 2: g = g_int(s, 2); break; case 3: g = g_str(s); break;
        case 4: g = g_bool(s); break; case 5: g = g_arr(s, [&] { return g_int(s, 0); }, 0, 6); break;
        case 6: g = g_arr(s, [&] { return g_int(s, 1); }, 0, 6); break;
        case 7: g = g_arr(s, [&] { return s.flip() ? g_int(s, 0) : g_dbl(s, false); }, 0, 6); break;
        default:
          switch (s.below(4)) { case 0: g = g_any(s); break; case 1: g = g_dbl(s, true); break; case 2: g = g_int(s, 2); break;
            default: { size_t bad = s.below(4), cnt = 0; g = g_arr(s, [&] { return cnt++ == bad ? (s.flip() ? g_any(s) : s.flip() ? g_int(s, 0) : g_dbl(s, true)) : g_int(s, 0); }, 1, 5); } }
      }
      x.ws(); x.os << key.second; x.ws(); x.os << ":"; x.ws(); x.os << g.text; x.ws(); if (i + 1 < n) x.os << ",";
      d.items.push_back({key.first, g.v});
    }
    x.ws(); x.os << "}"; members.push_back(x.os.str());
  }
  if (s.flip()) other("Zzz");
  w.ws(); w.os << "{"; for (size_t i = 0; i < members.size(); ++i) { w.ws(); w.os << members[i]; w.ws(); if (i + 1 < members.size()) w.os << ","; } w.os << "}"; w.ws();
  d.text = w.os.str();
  return d;
}
// C06
static void prop_values(Src &s) {
  Doc d = gen_doc(s, false);
  s.note << d.text;
  s.nontrivial(d.items.size() >= 2);
  TmpFile f(d.text); Parser p(f.p.c_str());
  auto order = s.perm(d.items.size());
  for (auto i : order) {
    auto &it = d.items[i];
    PBT_REQUIRE(p.Has(it.first), "Has('" << it.first << "') is false for a parameter in the file");
    for (int t = 0; t < NT; ++t) if (judge(it.second, t) == ACCEPT) {
      std::string w = want_text(it.second, t), got = call_strict(p, t, it.first);
      PBT_REQUIRE(got == w, "Parse" << tname[t] << "('" << it.first << "') = '" << got << "', the file says '" << w << "'");
      got = call_or(p, t, it.first);
      PBT_REQUIRE(got == w, "Parse" << tname[t] << "Or('" << it.first << "') = '" << got << "', the file says '" << w << "'");
      std::string o; PBT_REQUIRE(call_try(p, t, it.first, o), "TryParse" << tname[t] << "('" << it.first << "') refuses a correct value");
      PBT_REQUIRE(o == w, "TryParse" << tname[t] << "('" << it.first << "') = '" << o << "', the file says '" << w << "'");
      s.label(std::string("read as ") + tname[t]);
    }
  }
}
// C07: refusal with a diagnostic; defaults only for missing keys
static void prop_refuse(Src &s) {
  Doc d = gen_doc(s, true);
  s.note << d.text;
  TmpFile f(d.text); Parser p(f.p.c_str());
  std::vector<std::string> missing = {"NoSuchKey", "CaseParams", "Unused", "value"};
  int forks = 0;
  for (auto &mk : missing) {
    bool there = false; for (auto &it : d.items) there |= it.first == mk; if (there) continue;
    PBT_REQUIRE(!p.Has(mk), "Has('" << mk << "') is true for a key that is not a parameter");
    for (int t = 0; t < NT; ++t) {
      PBT_REQUIRE(call_or(p, t, mk) == default_text(t), "Parse" << tname[t] << "Or of a missing key does not return the default");
      std::string o; PBT_REQUIRE(!call_try(p, t, mk, o), "TryParse" << tname[t] << " succeeds for the missing key '" << mk << "'");
    }
  }
  { int t = s.below(NT); std::string mk = missing[0]; bool there = false; for (auto &it : d.items) there |= it.first == mk;
    if (!there) { Ended e = in_child([&] { call_strict(p, t, mk); });
      PBT_REQUIRE(e.exited && e.code == 1, "Parse" << tname[t] << " of a missing key: " << e.st << " instead of exit status 1");
      PBT_REQUIRE(e.err.find(f.p) != std::string::npos && e.err.find(mk) != std::string::npos && e.err.find(expected_word[t]) != std::string::npos, "the diagnostic for a missing key names not all of file, key and expected type: " << e.err); } }
  auto order = s.perm(d.items.size()); size_t wrong = 0;
  for (auto i : order) {
    auto &it = d.items[i];
    int start = s.below(NT);
    for (int q = 0; q < NT; ++q) {
      int t = (start + q) % NT; Verdict v = judge(it.second, t);
      std::string o; bool ok = call_try(p, t, it.first, o);
      if (v == REFUSE) { ++wrong; PBT_REQUIRE(!ok, "TryParse" << tname[t] << "('" << it.first << "') accepts a value of the wrong type as '" << o << "'"); }
      if (v == ACCEPT) PBT_REQUIRE(ok && o == want_text(it.second, t), "TryParse" << tname[t] << "('" << it.first << "') = '" << o << "'");
      if (v == OPEN && ok) PBT_REQUIRE(o == want_text(it.second, t), "TryParse" << tname[t] << "('" << it.first << "') silently changes the value to '" << o << "'");
      if (v == REFUSE && forks < 6) {
        ++forks; bool viaor = s.flip();
        Ended e = in_child([&] { if (viaor) call_or(p, t, it.first); else call_strict(p, t, it.first); });
        PBT_REQUIRE(e.exited && e.code == 1, "Parse" << tname[t] << (viaor ? "Or" : "") << "('" << it.first << "') on a value of the wrong type: " << e.st << " instead of exit status 1");
        PBT_REQUIRE(e.err.find(f.p) != std::string::npos && e.err.find(it.first) != std::string::npos && e.err.find(expected_word[t]) != std::string::npos, "the diagnostic names not all of file, key and expected type: " << e.err);
        static const char *act[] = {"null", "boolean", "number", "number", "string", "array", "object"};
        PBT_REQUIRE(e.err.find(act[it.second.k]) != std::string::npos, "the diagnostic does not name the actual type: " << e.err);
      }
    }
  }
  s.nontrivial(wrong >= 2);
  s.label(forks ? "strict refusal observed" : "no refusal");
}
// C07: arbitrary / damaged text never gets through as something it is not and never corrupts memory
static void prop_malformed(Src &s) {
  Doc d = gen_doc(s, true); std::string t = d.text; int kind = s.weighted({6, 2, 2, 1, 1}); size_t cutpoint = 0;
  bool must_refuse = false;
  switch (kind) {
    case 0: { size_t n = s.range(1, 4); static const std::string frag = "{}[]\",:0123456789-+.eEtruefalsn\\u \n\xff\x80"; for (size_t i = 0; i < n && !t.empty(); ++i) { size_t p = s.below(t.size()); switch (s.below(4)) { case 0: t[p] = frag[s.below(frag.size())]; break; case 1: t.erase(p, 1 + s.below(4)); break; case 2: t.insert(p, 1, frag[s.below(frag.size())]); break; default: t[p] = (char) s.below(256); } } break; }
    case 1: { while (!t.empty() && isspace((unsigned char) t.back())) t.pop_back(); cutpoint = s.below(t.size()); t.resize(cutpoint); must_refuse = true; break; }   // truncated file
    case 2: { static const char *alt[] = {"", "[]", "5", "\"CaseParams\"", "null", "{}", "{\"caseParams\":{\"a\":1}}", "[\"CaseParams\",{\"a\":1}]", "{\"Other\":{\"CaseParams\":{\"a\":1}}}", "\xef\xbb\xbf{}", "{\"CaseParams\":{\"a\":1}", "{'CaseParams':{}}", "// c\n{}"}; t = alt[s.below(13)]; must_refuse = true; break; }
    case 3: { t = ""; size_t n = s.range(0, 60); for (size_t i = 0; i < n; ++i) t += (char) s.below(256); break; }
    default: { size_t n = s.range(1, 5000); t = "{\"CaseParams\":{\"k0\":" + std::string(n, '[') + (s.flip() ? std::string(n, ']') : "") + "}}"; }
  }
  s.note << "kind " << kind << ": " << t;
  TmpFile f(t);
  std::string bad = "";
  Ended e = in_child([&] {
    Parser p(f.p.c_str());
    std::vector<std::string> keys = {"k0", "k1", "k2", "k3", "a", ""}; for (auto &it : d.items) keys.push_back(it.first);
    for (auto &k : keys) for (int ty = 0; ty < NT; ++ty) { std::string o, o2; bool h = p.Has(k); bool ok = call_try(p, ty, k, o);
      if (ok) { if (!h) _exit(44); o2 = call_strict(p, ty, k); if (o2 != o) _exit(45); }
      if (!h && call_or(p, ty, k) != default_text(ty)) _exit(46); }
  });
  PBT_REQUIRE(e.returned || e.threw || (e.exited && (e.code == 1 || (e.code >= 44 && e.code <= 46))), "a damaged input file: " << e.st << "\n" << e.err);
  PBT_REQUIRE(!(e.exited && e.code == 44), "a parameter is readable although Has() denies it");
  PBT_REQUIRE(!(e.exited && e.code == 45), "the strict and the trying accessor disagree");
  PBT_REQUIRE(!(e.exited && e.code == 46), "a missing parameter did not get its default");
  if (must_refuse) PBT_REQUIRE(!e.returned, "the constructor accepted a file without a complete parameter object");
  if (e.exited && e.code == 1) PBT_REQUIRE(e.err.find(f.p) != std::string::npos, "exit status 1 without naming the file: " << e.err);
  s.label(e.returned ? "still a valid document" : e.threw ? "parse error reported by exception" : "refused with exit status 1");
  s.nontrivial(!t.empty());
}
static void prop_missing_file(Src &s) {
  std::string path; int k = s.below(3);
  if (k == 0) path = "/tmp/pbt-no-such-dir-" + std::to_string(s.below(1000)) + "/x.json"; else if (k == 1) path = scratch() + "-absent" + std::to_string(s.below(1000)) + ".json"; else path = "";
  s.note << "'" << path << "'"; s.nontrivial();
  Ended e = in_child([&] { Parser p(path.c_str()); });
  PBT_REQUIRE(e.exited && e.code == 1, "an input file that cannot be opened: " << e.st << " instead of exit status 1");
  PBT_REQUIRE(e.err.find("'" + path + "'") != std::string::npos, "the diagnostic does not name the file: " << e.err);
}
int main(int argc, char **argv) {
  return pbt::main_(argc, argv, {
      {"C06", "values_are_faithful", prop_values, 60000, 800000},
      {"C07", "wrong_types_refused", prop_refuse, 4000, 60000},
      {"C07", "damaged_files", prop_malformed, 12000, 200000},
      {"C07", "absent_files", prop_missing_file, 200, 1000},
  });
}
