// Replay and differential driver: runs scripts against the real library built from /repo.
// One script per input line; statements separated by ';'. One output line per script:
// the outputs of the statements separated by '|'. A crash ends the process (the caller
// attributes it to the line in progress).
#include <any>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <cxxabi.h>

#include "expr/calc/arithmetic.h"
#include "expr/codec.h"
#include "expr/exception.h"
#include "expr/operand.h"
#include "expr/operand_stack.h"
#include "expr/runner.h"
#include "expr/utils.h"
#include "rel/rel_runner.h"

static long g_live = 0;
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++g_live;
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

using namespace dingodb::expr;
using dingodb::rel::RelRunner;

static std::string Unhex(const std::string &h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
static std::string Hex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n; ++i) { unsigned char c = ((const unsigned char *)p)[i]; r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
static Operand ParseVal(const std::string &s) {
  if (s == "n") return nullptr;
  std::string v = s.substr(2);
  switch (s[0]) {
  case 'i': return (int32_t)strtol(v.c_str(), nullptr, 10);
  case 'l': return (int64_t)strtoll(v.c_str(), nullptr, 10);
  case 'b': return v == "1";
  case 'f': { uint32_t u = (uint32_t)strtoul(v.c_str(), nullptr, 16); float f; memcpy(&f, &u, 4); return f; }
  case 'd': { uint64_t u = strtoull(v.c_str(), nullptr, 16); double f; memcpy(&f, &u, 8); return f; }
  case 's': return String(Unhex(v));
  }
  return nullptr;
}
static std::vector<std::string> Split(const std::string &s, char c) {
  std::vector<std::string> r; std::string t; std::stringstream ss(s);
  while (std::getline(ss, t, c)) r.push_back(t);
  return r;
}
static Tuple *ParseTuple(const std::string &s) {
  auto *t = new Tuple();
  if (s != "-") for (auto &e : Split(s, ',')) t->push_back(ParseVal(e));
  return t;
}
template <typename T> static bool Try(const Operand &v, T &out) {
  try { out = v.GetValue<T>(); return true; } catch (const std::bad_variant_access &) { return false; }
}
static std::string Show(const Operand &v) {
  char buf[64];
  std::string extra;
  if (v == nullptr) return "n";
  { int32_t x; if (Try(v, x)) { snprintf(buf, 64, "i:%d", x); return buf; } }
  { int64_t x; if (Try(v, x)) { snprintf(buf, 64, "l:%lld", (long long)x); return buf; } }
  { bool x; if (Try(v, x)) { unsigned char c; memcpy(&c, &x, 1); snprintf(buf, 64, "b:%d", c); return buf; } }
  { float x; if (Try(v, x)) { uint32_t u; memcpy(&u, &x, 4); snprintf(buf, 64, "f:%08x", u); return buf; } }
  { double x; if (Try(v, x)) { uint64_t u; memcpy(&u, &x, 8); snprintf(buf, 64, "d:%016llx", (unsigned long long)u); return buf; } }
  { String x; if (Try(v, x)) return "s:" + Hex(x->data(), x->size()); }
  return "?";
}
static std::string ShowTuple(const Tuple *t) {
  std::string r = "[";
  for (size_t i = 0; i < t->size(); ++i) { if (i) r += ","; r += Show((*t)[i]); }
  return r + "]";
}
static std::string Exc() {
  try { throw; }
  catch (const std::exception &e) {
    int st; char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = std::string("X:") + (n ? n : "?") + ":" + (dynamic_cast<const ExprError *>(&e) ? "E:" : ":") + Hex(e.what(), strlen(e.what()));
    free(n);
    return r;
  } catch (...) { return "X:?::"; }
}

struct Sess {
  std::map<std::string, Runner *> r;
  std::map<std::string, RelRunner *> q;
  std::map<std::string, Tuple *> t;
  std::map<std::string, unsigned char *> bufs;
  std::vector<const Tuple *> outs;
  std::map<std::string, std::string> code;  // buffers at a fixed address per evaluator
  const Tuple *mine = nullptr;              // the row last handed back unchanged: ours again
};

static char *Fixed(Sess &s, const std::string &name, const std::string &bytes) {
  std::string &b = s.code[name];
  if (b.capacity() < 4096) b.reserve(4096);
  b.assign(bytes);
  return b.data();
}

template <typename T> static std::string Opt(Runner *r, const char *) {
  std::optional<T> o = r->GetOptional<T>();
  if (!o.has_value()) return "none";
  return Show(Operand(*o));
}
template <typename T> static std::string AnyRound(const std::string &v) {
  Operand a = ParseVal(v);
  std::any x = any_optional_data_adaptor::FromOperand<T>(a);
  Operand b = any_optional_data_adaptor::ToOperand<T>(x);
  const auto opt = std::any_cast<const std::optional<T>>(x);
  return (opt.has_value() ? std::string("v=") : std::string("none=")) + Show(b);
}

static std::string Stmt(Sess &s, const std::vector<std::string> &a) {
  const std::string &c = a[0];
  if (c == "new") { s.r[a[1]] = new Runner(); return "ok"; }
  if (c == "del") { delete s.r[a[1]]; s.r.erase(a[1]); return "ok"; }
  if (c == "dec") {
    std::string b = Unhex(a.size() > 2 ? a[2] : "");
    unsigned char *m = (unsigned char *)malloc(b.size() ? b.size() : 1);
    memcpy(m, b.data(), b.size());
    std::string res;
    // an exact-size buffer: one byte past the end is poisoned
    try { const Byte *e = s.r.at(a[1])->Decode(m, b.size()); res = "pos=" + std::to_string(e - m); }
    catch (...) { res = Exc(); }
    free(m);
    return res;
  }
  if (c == "decs") {  // decode from the same address every time
    std::string b = Unhex(a.size() > 2 ? a[2] : "");
    auto *m = (const Byte *)Fixed(s, "r" + a[1], b);
    try { const Byte *e = s.r.at(a[1])->Decode(m, b.size()); return "pos=" + std::to_string(e - m); }
    catch (...) { return Exc(); }
  }
  if (c == "rdecs") {
    std::string b = Unhex(a.size() > 2 ? a[2] : "");
    auto *m = (const Byte *)Fixed(s, "q" + a[1], b);
    try { const Byte *e = s.q.at(a[1])->Decode(m, b.size()); return "pos=" + std::to_string(e - m); }
    catch (...) { return Exc(); }
  }
  if (c == "tupw") {  // tupw name size index=value,...
    auto *t = new Tuple(atoi(a[2].c_str()));
    for (auto &e : Split(a[3], ',')) { auto k = e.find('='); (*t)[atoi(e.substr(0, k).c_str())] = ParseVal(e.substr(k + 1)); }
    s.t[a[1]] = t;
    return "ok";
  }
  if (c == "tupset") {  // change a tuple in place
    std::unique_ptr<Tuple> t(ParseTuple(a[2]));
    *s.t.at(a[1]) = *t;
    return "ok";
  }
  if (c == "tup") { s.t[a[1]] = ParseTuple(a[2]); return "ok"; }
  if (c == "tupdel") { delete s.t[a[1]]; s.t.erase(a[1]); return "ok"; }
  if (c == "tupshow") return ShowTuple(s.t.at(a[1]));
  if (c == "bind") { s.r.at(a[1])->BindTuple(a[2] == "-" ? nullptr : s.t.at(a[2])); return "ok"; }
  if (c == "run") { s.r.at(a[1])->Run(); return "ok"; }
  if (c == "get") return Show(s.r.at(a[1])->Get());
  if (c == "all") { Tuple *t = s.r.at(a[1])->GetAll(); std::string x = ShowTuple(t); delete t; return x; }
  if (c == "type") return "t=" + std::to_string((int)s.r.at(a[1])->GetType());
  if (c == "opt") {
    Runner *r = s.r.at(a[1]);
    if (a[2] == "i") return Opt<int32_t>(r, "");
    if (a[2] == "l") return Opt<int64_t>(r, "");
    if (a[2] == "b") return Opt<bool>(r, "");
    if (a[2] == "f") return Opt<float>(r, "");
    if (a[2] == "d") return Opt<double>(r, "");
    if (a[2] == "s") return Opt<String>(r, "");
  }
  if (c == "rnew") { s.q[a[1]] = new RelRunner(); return "ok"; }
  if (c == "rdel") { delete s.q[a[1]]; s.q.erase(a[1]); return "ok"; }
  if (c == "rdec") {
    std::string b = Unhex(a.size() > 2 ? a[2] : "");
    unsigned char *m = (unsigned char *)malloc(b.size() ? b.size() : 1);
    memcpy(m, b.data(), b.size());
    std::string res;
    try { const Byte *e = s.q.at(a[1])->Decode(m, b.size()); res = "pos=" + std::to_string(e - m); }
    catch (...) { res = Exc(); }
    free(m);
    return res;
  }
  if (c == "put" || c == "puts" || c == "rget") {
    const Tuple *in = c != "rget" ? ParseTuple(a[2]) : nullptr;
    if (c == "puts" && s.mine != nullptr) {  // put the row handed back before once more, with other contents
      auto *m = const_cast<Tuple *>(s.mine);
      *m = *in;
      delete in;
      in = m;
    }
    else delete s.mine;
    s.mine = nullptr;
    const Tuple *o = c != "rget" ? s.q.at(a[1])->Put(in) : s.q.at(a[1])->Get();
    if (o == nullptr) return "nil";
    std::string x = std::string(o == in ? "same" : "new") + ShowTuple(o);
    if (c == "puts") {
      if (o == in) s.mine = o; else delete o;
      return x;
    }
    // keep until the session ends: the runner must not touch or release it any more
    s.outs.push_back(o);
    return x;
  }
  if (c == "outs") { std::string x; for (auto *o : s.outs) x += ShowTuple(o); return x; }
  if (c == "h2n") return std::to_string(HexToNibble((char)atoi(a[1].c_str())));
  if (c == "n2h") return std::to_string((int)(unsigned char)NibbleToHex(atoi(a[1].c_str())));
  if (c == "h2b") {  // a[1] = hex of the text
    std::string tx = Unhex(a.size() > 1 ? a[1] : "");
    char *src = (char *)malloc(tx.size() ? tx.size() : 1); memcpy(src, tx.data(), tx.size());
    unsigned char *d = (unsigned char *)malloc(tx.size() / 2 + 1); memset(d, 0x5a, tx.size() / 2 + 1);
    HexToBytes(d, src, tx.size());
    std::string x = Hex(d, tx.size() / 2 + 1) + "/" + Hex(src, tx.size());
    free(src); free(d);
    return x;
  }
  if (c == "b2h") {
    std::string tx = Unhex(a.size() > 1 ? a[1] : "");
    unsigned char *src = (unsigned char *)malloc(tx.size() ? tx.size() : 1); memcpy(src, tx.data(), tx.size());
    char *d = (char *)malloc(tx.size() * 2 + 1); memset(d, 0x5a, tx.size() * 2 + 1);
    BytesToHex(d, src, tx.size());
    std::string x = Hex(d, tx.size() * 2 + 1) + "/" + Hex(src, tx.size());
    free(src); free(d);
    return x;
  }
  if (c == "hob") {
    std::string tx = Unhex(a.size() > 1 ? a[1] : "");
    unsigned char *src = (unsigned char *)malloc(tx.size() ? tx.size() : 1); memcpy(src, tx.data(), tx.size());
    std::string x = HexOfBytes(src, tx.size());
    free(src);
    return "s:" + Hex(x.data(), x.size());
  }
  if (c == "oshow") return Show(ParseVal(a[1]));
  if (c == "ocopy") {
    Operand x = ParseVal(a[1]); Operand y = x; Operand z; z = y; x = Operand(7);
    return Show(y) + "," + Show(z) + "," + Show(x);
  }
  if (c == "oeq") {
    Operand x = ParseVal(a[1]), y = ParseVal(a[2]);
    return std::to_string((int)(x == y)) + std::to_string((int)(x != y)) + std::to_string((int)(x == nullptr)) + std::to_string((int)(x != nullptr));
  }
  if (c == "ohash") {
    Operand x = ParseVal(a[1]), y = ParseVal(a[2]);
    return std::to_string((int)(std::hash<Operand>()(x) == std::hash<Operand>()(y)));
  }
  if (c == "thash") {
    std::unique_ptr<Tuple> x(ParseTuple(a[1])), y(ParseTuple(a[2]));
    y->reserve(y->size() + 9);
    return std::to_string((int)(*x == *y)) + std::to_string((int)(std::hash<Tuple>()(*x) == std::hash<Tuple>()(*y)));
  }
  if (c == "oget") {
    Operand x = ParseVal(a[1]);
    if (a[2] == "i") return Show(Operand(x.GetValue<int32_t>()));
    if (a[2] == "l") return Show(Operand(x.GetValue<int64_t>()));
    if (a[2] == "b") return Show(Operand(x.GetValue<bool>()));
    if (a[2] == "f") return Show(Operand(x.GetValue<float>()));
    if (a[2] == "d") return Show(Operand(x.GetValue<double>()));
    if (a[2] == "s") return Show(Operand(x.GetValue<String>()));
  }
  if (c == "oany") {
    if (a[2] == "i") return AnyRound<int32_t>(a[1]);
    if (a[2] == "l") return AnyRound<int64_t>(a[1]);
    if (a[2] == "b") return AnyRound<bool>(a[1]);
    if (a[2] == "f") return AnyRound<float>(a[1]);
    if (a[2] == "d") return AnyRound<double>(a[1]);
    if (a[2] == "s") return AnyRound<String::ValueType>(a[1]);
  }
  if (c == "concat") {
    std::unique_ptr<Tuple> x(ParseTuple(a[1])), y(ParseTuple(a[2]));
    std::unique_ptr<Tuple> z(ConcatTuple(*x, *y));
    return ShowTuple(z.get()) + ShowTuple(x.get()) + ShowTuple(y.get());
  }
  if (c == "map") {
    std::unique_ptr<Tuple> x(ParseTuple(a[1]));
    std::vector<int> idx;
    if (a[2] != "-") for (auto &e : Split(a[2], ',')) idx.push_back(atoi(e.c_str()));
    int *p = (int *)malloc(idx.size() * 4 + 1);
    for (size_t i = 0; i < idx.size(); ++i) p[i] = idx[i];
    std::unique_ptr<Tuple> z(MapTuple(*x, p, idx.size()));
    free(p);
    return ShowTuple(z.get()) + ShowTuple(x.get());
  }
  return "?stmt";
}

static std::string RunLine(const std::string &line) {
  std::string out;
  out.reserve(1 << 16);
  Sess s;
  for (auto &st : Split(line, ';')) {
    std::vector<std::string> a = Split(st, ' ');
    if (a.empty()) continue;
    std::string o;
    try { o = Stmt(s, a); } catch (...) { o = Exc(); }
    if (!out.empty()) out += "|";
    out += o;
  }
  for (auto &e : s.r) delete e.second;
  for (auto &e : s.q) delete e.second;
  delete s.mine;
  std::string fin;
  for (auto *o : s.outs) { fin += ShowTuple(o); delete o; }
  for (auto &e : s.t) delete e.second;
  if (!fin.empty()) out += "|outs=" + fin;
  return out;
}

int main() {
  std::string line;
  line.reserve(1 << 20);
  { RunLine("new r;dec r 1101;run r"); }  // warm up (lazy allocations)
  while (std::getline(std::cin, line)) {
    long before = g_live;
    char *copy = nullptr;
    {
      std::string o = RunLine(line);
      copy = strdup(o.c_str());
    }
    long after = g_live;
    printf("%s|live=%ld\n", copy, after - before);
    free(copy);
    fflush(stdout);
  }
  return 0;
}
