// O01-O07: the real option parser against a model of command lines and key=value lists.
#include "hx.hxx"
#include "textval.hxx"
#include "Options.hxx"
#include <cmath>
#include <climits>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <type_traits>
using namespace hx;
using namespace textval;

namespace {
typedef SoDa::Options Options;
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
struct Capture { std::ostringstream b; std::ostream & os; std::streambuf * old; explicit Capture(std::ostream & o) : os(o), old(o.rdbuf(b.rdbuf())) {} ~Capture() { os.rdbuf(old); } std::string take() { std::string s = b.str(); b.str(""); return s; } };
struct Quiet { NullBuf b; std::streambuf * old; Quiet() : old(std::cerr.rdbuf(&b)) {} ~Quiet() { std::cerr.rdbuf(old); } };

enum Kind { SCALAR, NODEF, VEC, PRES };
struct Store { virtual ~Store() {} };

// ---- a type of the client's own
using textval::read;
struct Point { int x = 0, y = 0; };
std::istream & operator>>(std::istream & is, Point & p) { int x, y; char c; if (is >> x >> c >> y) { if (c == '/') { p.x = x; p.y = y; } else is.setstate(std::ios::failbit); } return is; }
Verdict read(const std::string & t, Point & p) {
  size_t i = 0; auto part = [&](int & v) -> Verdict { size_t a = i; if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++; size_t d = i; while (i < t.size() && isdigit((unsigned char) t[i])) i++; return d == i ? INVALID : textval::read(t.substr(a, i - a), v); };
  for (char c : t) if (isspace((unsigned char) c)) return OPEN;
  Verdict v = part(p.x); if (v != VALID) return v;
  if (i == t.size() || t[i] != '/') return INVALID;
  i++; v = part(p.y); if (v != VALID) return v;
  return i == t.size() ? VALID : OPEN;
}

// ---- values as text that can be compared
template <class T> std::string enc(const T & v) { if (std::is_floating_point<T>::value) return fmt("%a", (double) v); if (std::is_signed<T>::value) return std::to_string((long) v); return std::to_string((unsigned long) v); }
template <> std::string enc<std::string>(const std::string & v) { return v; }
template <> std::string enc<char>(const char & v) { return std::string(1, v); }
template <> std::string enc<unsigned char>(const unsigned char & v) { return std::string(1, (char) v); }

template <> std::string enc<Point>(const Point & p) { return fmt("%d/%d", p.x, p.y); }

// ---- an option, independent of its type
struct Opt {
  std::string ln; char sn; Kind kind; std::string doc, tname, err = "not acceptable"; bool tested = false; std::string defenc; bool greedy = false;
  virtual ~Opt() {}
  virtual std::unique_ptr<Store> store() = 0;
  virtual void add(Options & o, Store & s) = 0;
  virtual Verdict classify(const std::string & t, std::string & e) = 0;
  virtual std::string scalar(Store & s) = 0;
  virtual std::vector<std::string> vec(Store & s) = 0;
  virtual void poke(Rng & r, Store & s) = 0; // the caller changes his variable
};
template <class T> struct gen; // test functions and value texts
template <class T> bool accept(T v) { if (std::is_signed<T>::value) return v > (T) -20 && v < (T) 50; return v < (T) 50; }
template <> bool accept<std::string>(std::string v) { return v.size() < 6 && v.find('x') == std::string::npos; }
template <> bool accept<bool>(bool v) { return v; }
template <> bool accept<Point>(Point p) { return p.x <= p.y; }
template <> bool accept<char>(char v) { return isalpha((unsigned char) v); }
template <> bool accept<unsigned char>(unsigned char v) { return isalpha(v); }
template <class T> T default_of(Rng & r) { return (T) r.range(0, 40); }
template <> std::string default_of<std::string>(Rng & r) { return r.oneof<std::string>({"", "default", "-x", "a b"}); }
template <> Point default_of<Point>(Rng & r) { Point p; p.x = r.range(-5, 5); p.y = r.range(-5, 5); return p; }
template <> double default_of<double>(Rng & r) { return r.range(-100, 100) / 8.0; }
template <> bool default_of<bool>(Rng & r) { return r.chance(1, 2); }
template <> char default_of<char>(Rng & r) { return (char) ('a' + r.below(26)); }

template <class T> T garbage() { return (T) 77; } // (what the variable holds before the option is added)
template <> std::string garbage<std::string>() { return "garbage"; }
template <> Point garbage<Point>() { Point p; p.x = 77; return p; }
template <class T> struct OptT : Opt {
  T def; bool plain = false;
  struct St : Store { T v; std::vector<T> vec; bool flag; };
  std::unique_ptr<Store> store() override { St * s = new St; s->v = (T) garbage<T>(); s->flag = true; return std::unique_ptr<Store>(s); }
  void add(Options & o, Store & st) override {
    St & s = static_cast<St &>(st); std::function<bool(T)> f = [](T v) { return accept<T>(v); };
    Options * ret = &o;
    switch (kind) {
    case SCALAR: if (tested) ret = &o.add<T>(&s.v, ln, sn, def, doc, f, err); else ret = &o.add<T>(&s.v, ln, sn, def, doc); break;
    case NODEF: if (tested) ret = &o.add<T>(&s.v, ln, sn, doc, f, err); else ret = &o.add<T>(&s.v, ln, sn, doc, [](T) { return true; }); break;
    case VEC: if (tested) ret = &o.addV<T>(&s.vec, ln, sn, doc, f, err); else ret = &o.addV<T>(&s.vec, ln, sn, doc); break;
    default: ret = &o.addP(&s.flag, ln, sn, doc); break;
    }
    if (ret != &o) violation("O01:chain", "add does not return the options object");
  }
  Verdict classify(const std::string & t, std::string & e) override { T v = T(); Verdict r = read(t, v); if (r == VALID && tested && !accept<T>(v)) r = INVALID; e = enc<T>(v); return r; }
  std::string scalar(Store & s) override { return kind == PRES ? (static_cast<St &>(s).flag ? "1" : "0") : enc<T>(static_cast<St &>(s).v); }
  void poke(Rng & r, Store & st) override { St & s = static_cast<St &>(st); if (kind == VEC) { if (r.chance(1, 2)) s.vec.clear(); else s.vec.push_back(default_of<T>(r)); } else if (kind == PRES) s.flag = r.chance(1, 3); else s.v = r.chance(1, 3) ? T() : default_of<T>(r); }
  std::vector<std::string> vec(Store & s) override { std::vector<std::string> o; auto & v = static_cast<St &>(s).vec; for (size_t i = 0; i < v.size(); i++) o.push_back(enc<T>((T) v[i])); return o; }
};
template <class T> std::unique_ptr<Opt> make(Rng & r, const char * tn, Kind k) {
  OptT<T> * o = new OptT<T>; o->tname = tn; o->kind = k; o->tested = k != PRES && r.chance(1, 3); o->def = default_of<T>(r);
  o->defenc = k == SCALAR ? enc<T>(o->def) : k == PRES ? "0" : enc<T>(T()); o->greedy = k == NODEF || (k != PRES && std::is_signed<T>::value); return std::unique_ptr<Opt>(o);
}
std::unique_ptr<Opt> make_any(Rng & r) {
  Kind k = r.oneof({SCALAR, SCALAR, NODEF, VEC, VEC, PRES});
  if (k == PRES) return make<int>(r, "flag", PRES);
  switch (r.below(12)) {
  case 11: return r.chance(1, 2) ? make<Point>(r, "point", k) : r.chance(1, 2) ? make<long long>(r, "long long", k) : make<unsigned long long>(r, "unsigned long long", k);
  case 0: case 1: return make<int>(r, "int", k); case 2: return make<std::string>(r, "string", k); case 3: return make<std::string>(r, "string", k);
  case 4: return make<double>(r, "double", k); case 5: return make<unsigned>(r, "unsigned", k); case 6: return make<unsigned long>(r, "unsigned long", k);
  case 7: return make<bool>(r, "bool", k); case 8: return make<char>(r, "char", k); case 9: return r.chance(1, 2) ? make<long>(r, "long", k) : make<short>(r, "short", k);
  default: return r.chance(1, 2) ? make<float>(r, "float", k) : r.chance(1, 2) ? make<unsigned short>(r, "unsigned short", k) : make<unsigned char>(r, "unsigned char", k);
  }
}
struct Spec { std::vector<std::unique_ptr<Opt>> o; std::vector<std::string> infos; bool kvp = false; bool dups = false;
  int by_long(const std::string & n) const { for (size_t i = 0; i < o.size(); i++) if (o[i]->ln == n) return (int) i; return -1; }
  int by_short(char c) const { for (size_t i = 0; i < o.size(); i++) if (o[i]->sn == c) return (int) i; return -1; }
  std::string show() const { std::string s; static const char * kn[] = {"", "(no default)", "(vector)", "(presence)"}; for (auto & x : o) s += "--" + q(x->ln) + " -" + q(x->sn) + " " + x->tname + kn[x->kind] + (x->tested ? "(tested)" : "") + (x->kind == SCALAR ? "=" + q(x->defenc) : "") + ", "; return s; } };
// an options object with its variables
struct Inst { std::unique_ptr<Options> o; std::vector<std::unique_ptr<Store>> st;
  Inst(const Spec & s) : o(s.kvp ? new Options(true) : new Options) { for (auto & i : s.infos) o->addInfo(i); for (auto & x : s.o) { st.push_back(x->store()); x->add(*o, *st.back()); } } };
std::string lower(Rng & r, int n) { std::string s; for (int i = 0; i < n; i++) s += (char) ('a' + r.below(26)); return s; }
std::string shouting(Rng & r, int n) { std::string s; static const char cs[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ .,;%!?()0123456789"; for (int i = 0; i < n; i++) s += cs[r.below(sizeof cs - 1)]; return s; }

Spec gen_spec(Rng & r, bool kvp) {
  Spec s; s.kvp = kvp; int n = r.range(1, r.chance(1, 100) ? 80 : r.chance(1, 8) ? 20 : 6); bool helpful = r.chance(1, 12);
  for (int i = 0; i < n; i++) {
    auto o = make_any(r);
    for (int k = 0; k < 200; k++) {
      switch (r.below(6)) { case 0: o->ln = lower(r, 1); break; case 1: o->ln = lower(r, r.range(18, 24)); break; case 2: o->ln = lower(r, 2) + r.oneof({'_', '.', '9'}) + lower(r, 2); break; case 3: o->ln = s.o.empty() ? "name" : r.pick(s.o)->ln + lower(r, 1); break; default: o->ln = lower(r, r.range(2, 8)); break; }
      o->sn = r.chance(2, 3) ? (char) ('a' + r.below(26)) : r.chance(1, 2) ? (char) ('A' + r.below(26)) : (char) (33 + r.below(94));
      if (r.chance(1, 3)) o->sn = o->ln[0];
      if (kvp && r.chance(1, 25)) o->ln = (s.o.empty() || r.chance(1, 2) ? lower(r, 2) : r.pick(s.o)->ln) + "=" + lower(r, r.range(0, 2)); // cannot be named: a key ends at the first equals sign
      if (hostile) { if (r.chance(1, 10)) o->sn = (char) r.below(256); if (r.chance(1, 10)) o->ln = random_string(r, 300); if (r.chance(1, 10)) break; }
      if (helpful && k == 0 && r.chance(1, 4)) { if (r.chance(1, 2)) o->ln = "help"; else o->sn = 'h'; }
      if ((helpful || (o->ln != "help" && o->sn != 'h')) && o->sn != '-' && s.by_long(o->ln) < 0 && s.by_short(o->sn) < 0) break;
      if (k == 199) { o->sn = 0; o->ln = "fallback" + std::to_string(i); }
    }
    if (s.by_long(o->ln) >= 0 || s.by_short(o->sn) >= 0) s.dups = true;
    o->doc = r.chance(1, 6) ? "" : fmt("<DOC%d>", i) + shouting(r, r.chance(1, 25) ? (int) interesting_int(r, 0, 6000) : r.range(0, 60)); if (hostile && r.chance(1, 3)) o->doc = random_string(r, 1000);
    o->err = r.chance(1, 8) ? "" : fmt("<ERR%d>", i) + shouting(r, r.chance(1, 25) ? (int) interesting_int(r, 0, 3000) : r.range(0, 60));
    s.o.push_back(std::move(o));
  }
  for (int i = r.range(0, r.chance(1, 10) ? 12 : 3); i > 0; i--) s.infos.push_back(hostile ? random_string(r, 1000) : fmt("<INFO%d>", i) + shouting(r, r.chance(1, 25) ? (int) interesting_int(r, 0, 6000) : r.range(0, 60)));
  return s;
}
std::string plain_value_text(Rng & r, const Opt * o);
std::string value_text(Rng & r, const Opt * o) { // numbers also in longer spellings: a sign, leading zeros, leading blanks
  std::string t = plain_value_text(r, o); if (t.empty() || !o || o->tname == "string" || !r.chance(1, 8)) return t;
  size_t i = t[0] == '-' || t[0] == '+'; if (i >= t.size() || !isdigit((unsigned char) t[i])) return t;
  if (r.chance(1, 2)) t.insert(i, r.chance(1, 10) ? r.range(20, 3000) : r.range(1, 20), '0');
  if (!i && r.chance(1, 2)) t = "+" + t;
  if (r.chance(1, 6)) t = std::string(r.range(1, 5), r.oneof<char>({' ', '\t', '\n'})) + t;
  return t;
}
std::string plain_value_text(Rng & r, const Opt * o) {
  std::string t = o ? o->tname : "string";
  if (r.chance(1, 10)) t = "string";
  if (hostile && r.chance(1, 5)) return random_string(r, 20000);
  if (t == "string") { switch (r.below(9)) { case 0: return ""; case 1: return lower(r, r.range(1, 9)); case 2: return "-" + lower(r, r.range(0, 4)); case 3: return "--" + lower(r, r.range(0, 4)); case 4: return lower(r, 2) + " " + lower(r, 2) + (r.chance(1, 3) ? "\t" : ""); case 5: return r.oneof<std::string>({"--help", "-h", "-", "--", "x=y", "=", "%0", "-5", "%"}); case 6: return random_string(r, r.chance(1, 20) ? 20000 : 200); default: return lower(r, r.range(1, 5)); } }
  if (t == "bool") return r.oneof<std::string>({"true", "TRUE", "True", "t", "T", "false", "FALSE", "F", "f", "0", "1", "2", "-1", "+1", "yes", "no", "99999999999", "tango", "fox", "x"});
  if (t == "char" || t == "unsigned char") return r.chance(1, 8) ? r.oneof<std::string>({"", " ", "  "}) : std::string(1, (char) (33 + r.below(94)));
  if (t == "double" || t == "float") { switch (r.below(6)) { case 0: return std::to_string(r.range(-100, 100)); case 1: return fmt("%g", (r.unit() - 0.5) * pow(10, r.range(-5, 5))); case 2: return fmt("%.17g", (r.unit() - 0.5) * pow(10, r.range(-300, 300))); case 3: return r.oneof<std::string>({"1e400", "-1e400", "1e39", "-1e39", "3.4e38", "1.7e308", "+5", ".5", "5.", "-.5", "0", "-0", "1E5", "12e-3"}); case 4: return r.oneof<std::string>({"abc", "", "-", ".", "+", "zero", "e5", "--"}); default: return fmt("%.3f", (r.unit() - 0.5) * 100); } }
  if (t == "point") { if (r.chance(1, 8)) return r.oneof<std::string>({"", "/", "1/", "/2", "1", "1:2", "a/b", "1//2", "2147483648/0", "0/-2147483649", "-/1", "1/x", "--"}); return std::to_string(r.range(-9, 9)) + "/" + std::to_string(r.chance(1, 10) ? (int) r.next() : r.range(-9, 9)); }
  switch (r.below(9)) { // integers
  case 0: return r.oneof<std::string>({"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "32767", "32768", "-32768", "-32769", "65535", "65536", "99999999999999999999999", "-1", "0", "-0"});
  case 1: return r.oneof<std::string>({"abc", "", "-", "+", "x1", "--", " ", "one", "-a", "--a"});
  case 2: return "+" + std::to_string(r.range(0, 60)); case 3: return "00" + std::to_string(r.range(0, 60)); case 4: return " " + std::to_string(r.range(0, 60));
  case 5: return std::to_string(r.range(-60, 60)); case 6: return std::to_string((long) (r.next() >> r.range(0, 63)) * (r.chance(1, 2) ? 1 : -1));
  default: return std::to_string(r.range(0, 49)); }
}
std::list<std::string> gen_line(Rng & r, const Spec & s, int errors) {
  std::list<std::string> l; int n = r.chance(1, 12) ? 0 : r.range(1, r.chance(1, 200) ? 600 : r.chance(1, 10) ? 40 : 8);
  for (int i = 0; i < n; i++) {
    int k = (int) r.below(100);
    if (k < 72) {
      const Opt * o = r.pick(s.o).get(); l.push_back(r.chance(1, 2) ? "--" + o->ln : std::string("-") + o->sn);
      bool give = o->kind == PRES ? r.chance(1, 10) : o->kind == NODEF ? !r.chance(errors, 100) : r.chance(85, 100);
      if (give) { std::string v; std::string e; for (int j = 0; j < 8; j++) { v = value_text(r, o); Opt * oo = const_cast<Opt *>(o); if (r.chance(errors, 100) || oo->classify(v, e) == VALID) break; } l.push_back(v); }
    } else if (k < 90) l.push_back(value_text(r, nullptr));
    else if (k < 94) l.push_back(r.oneof<std::string>({"-", "--", "", "-5", "x"}));
    else if (r.chance(errors, 60)) l.push_back(r.chance(1, 6) ? r.oneof<std::string>({"-h", "--help"}) : r.chance(1, 2) ? "--" + lower(r, r.range(1, 6)) : std::string("-") + (char) (33 + r.below(94)));
    else l.push_back(lower(r, r.range(1, 4)));
    if (hostile && r.chance(1, 5)) l.push_back(random_string(r, 5000));
  }
  if (r.chance(1, 300)) for (long i = interesting_int(r, 1, r.chance(1, 20) ? 70000 : 1000); i > 0; i--) l.push_back(i % 7 ? "w" : "w" + std::to_string(i)); // lots of positional arguments
  return l;
}

// ---- the model
struct State { std::vector<std::string> scalar; std::vector<std::vector<std::string>> vec; std::vector<bool> present; std::vector<std::string> pos; };
State fresh(const Spec & s) { State t; for (auto & o : s.o) { t.scalar.push_back(o->defenc); t.vec.emplace_back(); t.present.push_back(false); } return t; }
enum Why { FINE, VALUE, MISSING, NAME, HELP };
struct Result { bool ok = true; bool open = false; std::vector<bool> mentioned, assigned; int refused = -1; Why why = FINE; int which = -1; std::string text; };
void refuse(Result & r, Why w, int i, const std::string & t) { r.ok = false; r.why = w; r.which = i; r.text = t; }
bool switch_like(const std::string & t, int & len) { len = 0; if (t.size() < 2 || t[0] != '-') return false; if (t[1] == '-') { if (t.size() < 3) return false; len = 2; return true; } len = 1; return true; }
bool give(const Spec & s, State & st, Result & r, int i, const std::string & t) {
  Opt & o = *s.o[i]; if (o.kind == PRES) { st.scalar[i] = "1"; st.present[i] = true; return true; }
  std::string e; Verdict v = o.classify(t, e);
  if (v == OPEN) { r.open = true; return false; }
  if (v == INVALID) { refuse(r, VALUE, i, t); r.refused = i; return false; }
  if (o.kind == VEC) st.vec[i].push_back(e); else st.scalar[i] = e;
  st.present[i] = true; r.assigned[i] = true; return true;
}
Result run_model(const Spec & s, State & st, const std::list<std::string> & line) {
  Result r; r.mentioned.assign(s.o.size(), false); r.assigned = r.mentioned; int cur = -1;
  for (auto & t : line) {
    int len; bool sw = switch_like(t, len);
    if (cur >= 0 && (s.o[cur]->greedy || !sw)) { int c = cur; cur = -1; if (!give(s, st, r, c, t)) return r; continue; }
    if (!sw) { st.pos.push_back(t); continue; }
    if (cur >= 0) { st.present[cur] = true; cur = -1; }
    if (len == 1 && t.size() != 2) { r.open = true; return r; }
    if (t == "-h" || t == "--help") { refuse(r, HELP, -1, ""); return r; }
    int i = len == 1 ? s.by_short(t[1]) : s.by_long(t.substr(2));
    if (i < 0) { refuse(r, NAME, -1, t.substr(len)); return r; }
    r.mentioned[i] = true;
    if (s.o[i]->kind == PRES) give(s, st, r, i, ""); else cur = i;
  }
  if (cur >= 0) { if (s.o[cur]->kind == NODEF) refuse(r, MISSING, cur, ""); else st.present[cur] = true; }
  return r;
}
std::string squash(const std::string & s) { std::string o; for (char c : s) { if (c == ' ' && (o.empty() || o.back() == ' ')) continue; o += c; } if (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
Result run_kvp(const Spec & s, State & st, const std::list<std::string> & items) {
  Result r; r.mentioned.assign(s.o.size(), false); r.assigned = r.mentioned;
  for (auto & x : items) {
    std::string kv = squash(x); if (kv.empty()) continue;
    size_t e = kv.find('='); int i = s.by_long(kv.substr(0, e)); if (i < 0) { refuse(r, NAME, -1, kv.substr(0, e)); return r; }
    r.mentioned[i] = true;
    if (e != std::string::npos) { if (!give(s, st, r, i, kv.substr(e + 1))) return r; }
    else if (s.o[i]->kind == PRES) give(s, st, r, i, ""); else if (s.o[i]->kind != NODEF) st.present[i] = true; else { refuse(r, MISSING, i, ""); return r; }
  }
  return r;
}
std::string show(const std::list<std::string> & l) { std::string s; for (auto & t : l) { s += " " + q(t); if (s.size() > 2500) { s += " ..."; break; } } return s; }
std::string show(const std::vector<std::string> & l) { return "{" + show(std::list<std::string>(l.begin(), l.end())) + " }"; }

// ---- judging
const char * judge(const Spec & s, Inst & in, const State & st, std::string & why) {
  for (size_t i = 0; i < s.o.size(); i++) {
    if (s.o[i]->kind == VEC) { auto v = s.o[i]->vec(*in.st[i]); count("vector_options_compared"); if (v != st.vec[i]) { why = "vector option " + q(s.o[i]->ln) + " holds " + show(v) + " but must hold " + show(st.vec[i]); return "vector"; } }
    else { std::string v = s.o[i]->scalar(*in.st[i]); count("scalar_options_compared"); if (v != st.scalar[i]) { why = "option " + q(s.o[i]->ln) + " is " + q(v) + " but must be " + q(st.scalar[i]); return s.o[i]->kind == PRES ? "flag" : "scalar"; } }
  }
  auto p = in.o->getPosArgs(); count("positional_lists_compared");
  if (p != st.pos) { why = "positional arguments are " + show(p) + " but must be " + show(st.pos); return "positional"; }
  return nullptr;
}
std::string spell(Rng & r, const std::list<std::string> & l) {
  static const char ws[] = " \t\n\r\v\f"; std::string s; auto gap = [&](int lo) { for (int k = r.chance(3, 4) ? lo : r.range(lo, 4); k > 0; k--) s += r.chance(3, 4) ? ' ' : ws[r.below(6)]; };
  gap(0); bool first = true;
  for (auto & t : l) { if (!first) gap(1); first = false; bool quote = t.empty(); for (char c : t) if (isspace((unsigned char) c)) quote = true; s += quote ? "\"" + t + "\"" : t; }
  gap(0); return s;
}
struct Argv { std::vector<std::string> keep; std::vector<char *> p; Argv(const std::string & prog, const std::list<std::string> & l) { keep.push_back(prog); for (auto & t : l) keep.push_back(t); for (auto & t : keep) p.push_back(&t[0]); p.push_back(nullptr); } int argc() { return (int) keep.size(); } };
bool spellable(const std::list<std::string> & l, bool str) { for (auto & t : l) { if (t.find('\0') != std::string::npos) return false; if (str && t.find('"') != std::string::npos) return false; } return true; }
bool do_parse(Rng & r, Inst & in, const std::list<std::string> & l, int form) {
  if (form == 1 && spellable(l, false)) { Argv a(r.oneof<std::string>({"prog", "-x", "--help", ""}), l); return in.o->parse(a.argc(), a.p.data()); }
  if (form == 2 && spellable(l, true)) { std::string s = spell(r, l); return in.o->parse(s); }
  return in.o->parse(l);
}
void command_line(Rng & r, const char * prop, int errors, bool want_values, bool want_verdict) {
  Quiet qt; Spec s = gen_spec(r, false); Inst in(s); State st = fresh(s);
  std::list<std::string> l = gen_line(r, s, errors); int form = (int) r.below(3);
  std::string log = "options " + s.show() + " line" + show(l); desc(log); sample(log);
  Result m = run_model(s, st, l); bool ok = do_parse(r, in, l, form);
  if (hostile) { std::ostringstream os; in.o->printHelp(os); for (long i : {-1L, 0L, 1L, 1000000L, (long) INT_MAX, (long) INT_MIN}) in.o->getPosArg((int) i); eval(); return; }
  if (s.dups) return;
  if (m.open) { count("lines_left_open"); return; }
  eval(); Hash h; h.add(log); if (!l.empty()) nontrivial(h.h); count(m.ok ? "lines_accepted" : "lines_refused");
  if (ok != m.ok && want_verdict) { violation(std::string(prop) + ":verdict", log + (ok ? ": accepted, but must be refused" : ": refused, but must be accepted")); return; }
  if (ok != m.ok) { if (!m.ok) return; violation(std::string(prop) + ":verdict", log + ": refused, but must be accepted"); return; }
  std::string why;
  if (ok && want_values) { if (const char * k = judge(s, in, st, why)) violation(std::string(prop) + ":" + k, log + ": " + why); }
  if (!ok && want_verdict) {
    State init = fresh(s);
    for (size_t i = 0; i < s.o.size(); i++) {
      if (s.o[i]->kind == VEC) { auto v = s.o[i]->vec(*in.st[i]); auto & full = st.vec[i]; bool pre = v.size() <= full.size(); for (size_t j = 0; pre && j < v.size(); j++) pre = v[j] == full[j]; if (!pre) { violation(std::string(prop) + ":vector", log + ": vector option " + q(s.o[i]->ln) + " holds " + show(v) + " of the acceptable " + show(full)); return; } }
      else if (!m.mentioned[i]) { std::string v = s.o[i]->scalar(*in.st[i]); if (v != init.scalar[i]) { violation(std::string(prop) + ":unmentioned", log + ": unmentioned option " + q(s.o[i]->ln) + " became " + q(v)); return; } }
    }
  }
}
void o01(Rng & r, uint64_t) { command_line(r, "O01", 3, true, false); }
void o02(Rng & r, uint64_t) { command_line(r, "O02", r.oneof({5, 15, 40}), false, true); }
Reg ro01("O01", o01), ro02("O02", o02);

bool same(const Spec & s, Inst & a, Inst & b, std::string & why, const std::vector<bool> * skip = nullptr) {
  for (size_t i = 0; i < s.o.size(); i++) {
    if (skip && (*skip)[i]) continue;
    if (s.o[i]->kind == VEC) { if (s.o[i]->vec(*a.st[i]) != s.o[i]->vec(*b.st[i])) { why = "vector option " + q(s.o[i]->ln) + ": " + show(s.o[i]->vec(*a.st[i])) + " and " + show(s.o[i]->vec(*b.st[i])); return false; } }
    else if (s.o[i]->scalar(*a.st[i]) != s.o[i]->scalar(*b.st[i])) { why = "option " + q(s.o[i]->ln) + ": " + q(s.o[i]->scalar(*a.st[i])) + " and " + q(s.o[i]->scalar(*b.st[i])); return false; }
    if (a.o->isPresent(s.o[i]->ln) != b.o->isPresent(s.o[i]->ln)) { why = "presence of " + q(s.o[i]->ln); return false; }
  }
  if (a.o->getPosArgs() != b.o->getPosArgs()) { why = "positional arguments: " + show(a.o->getPosArgs()) + " and " + show(b.o->getPosArgs()); return false; }
  return true;
}
void o03(Rng & r, uint64_t) {
  Quiet qt; Spec s = gen_spec(r, false); Inst a(s), b(s), c(s); int lines = r.chance(1, 4) ? 2 : 1; std::string log = "options " + s.show();
  for (int k = 0; k < lines; k++) {
    std::list<std::string> l = gen_line(r, s, r.oneof({0, 3, 20}));
    for (auto & t : l) for (auto & ch : t) if (ch == '"' || ch == '\0') ch = '\'';
    std::string sp = spell(r, l); log += " line" + show(l) + " spelled " + q(sp); desc(log); sample(log);
    Argv av(r.oneof<std::string>({"prog", "-x", "--help", "", "--" + s.o[0]->ln}), l);
    bool x = a.o->parse(l), y = b.o->parse(av.argc(), av.p.data()), z = c.o->parse(sp);
    if (hostile) { c.o->parse(random_bytes(r, (size_t) interesting_int(r, 0, 5000), (int) r.below(5))); a.o->parse(0, nullptr); continue; }
    if (s.dups) return;
    eval(); count("lines_compared_three_ways"); Hash h; h.add(log); if (!l.empty()) nontrivial(h.h);
    if (x != y || x != z) { violation("O03:verdict", log + fmt(": list %d, argv %d, string %d", (int) x, (int) y, (int) z)); return; }
    std::string why;
    if (!same(s, a, b, why)) { violation("O03:argv", log + ": list and argv differ: " + why); return; }
    if (!same(s, a, c, why)) { violation("O03:string", log + ": list and string differ: " + why); return; }
  }
}
Reg ro03("O03", o03);

std::string gen_item(Rng & r, const Spec & s, int errors) {
  auto blanks = [&]() { return std::string(r.chance(3, 4) ? 0 : (size_t) r.range(1, 3), ' '); };
  const Opt * o = r.pick(s.o).get(); std::string name = o->ln;
  if (r.chance(1, 15)) return blanks();
  if (r.chance(errors, 150)) name = r.oneof<std::string>({lower(r, 3), "", std::string(1, o->sn), o->ln + " ", "--" + o->ln});
  if (r.chance(errors, 150)) { std::string x = r.oneof<std::string>({"\t", "\n", "\r", "\v", "\f", std::string(1, '\0'), "\xa0", "\"", "'", "-", "_", ".", ":", "/", "\\", "x"}); switch (r.below(4)) { // nearly a known name
    case 0: name = o->ln + x; break; case 1: name = x + o->ln; break; case 2: name = o->ln.substr(0, o->ln.size() - 1); break; default: name = o->ln; for (auto & c : name) c = (char) (isupper((unsigned char) c) ? tolower((unsigned char) c) : toupper((unsigned char) c)); break; }
    count("names_nearly_known"); }
  if (o->kind == PRES ? r.chance(3, 4) : o->kind == NODEF ? r.chance(errors, 100) : r.chance(1, 8)) return blanks() + name + blanks();
  std::string v, e; for (int j = 0; j < 8; j++) { v = value_text(r, o); if (r.chance(1, 10)) v += "=" + lower(r, 2); if (r.chance(errors, 100) || const_cast<Opt *>(o)->classify(squash("x=" + v).substr(2), e) == VALID) break; }
  return blanks() + name + "=" + v + blanks();
}
std::list<std::string> split_commas(const std::string & s) { std::list<std::string> l; std::string c; for (char x : s) if (x == ',') { l.push_back(c); c.clear(); } else c += x; l.push_back(c); return l; }
void o05(Rng & r, uint64_t) {
  Quiet qt; Spec s = gen_spec(r, true); Inst in(s); State st = fresh(s); int errors = r.oneof({0, 5, 30}); int form = (int) r.below(4); // 0 parse(string) 1 parseKeyValue(string) 2 list 3 argv
  if (r.chance(1, 8)) { s.kvp = false; Inst t(s); in = std::move(t); if (form == 0 || form == 3) form = 1; } // parseKeyValue works on any parser
  std::list<std::string> items; int n = r.chance(1, 12) ? 0 : r.range(1, r.chance(1, 10) ? 30 : 6); for (int i = 0; i < n; i++) items.push_back(gen_item(r, s, errors));
  std::string text; bool first = true; for (auto & x : items) { if (!first) text += ","; first = false; text += x; }
  if (r.chance(1, 25)) text = r.oneof<std::string>({"", " ", "   ", ",", ",,", " , "});
  if (hostile && r.chance(1, 3)) text = random_bytes(r, (size_t) interesting_int(r, 0, 20000), (int) r.below(5));
  if (form < 2) items = split_commas(text);
  if (form == 3 && !spellable(items, false)) form = 2;
  std::string log = "key=value options " + s.show() + (form < 2 ? "text " + q(text) : "items" + show(items)) + fmt(" form %d", form); desc(log); sample(log);
  Result m = run_kvp(s, st, items);
  if (form < 2 && squash(text).empty()) m.ok = false;
  bool ok;
  switch (form) { case 0: ok = in.o->parse(text); break; case 1: ok = in.o->parseKeyValue(text); break; case 2: ok = in.o->parseKeyValue(items); break; default: { Argv a("prog", items); ok = in.o->parse(a.argc(), a.p.data()); } }
  if (hostile) { std::ostringstream os; in.o->printHelp(os); eval(); return; }
  if (s.dups || (form >= 2 && items.empty())) return;
  if (m.open) { count("lists_left_open"); return; }
  eval(); Hash h; h.add(log); nontrivial(h.h); count(m.ok ? "lists_accepted" : "lists_refused");
  if (ok != m.ok) { violation("O05:verdict", log + (ok ? ": accepted, but must be refused" : ": refused, but must be accepted")); return; }
  std::string why;
  if (ok) {
    if (const char * k = judge(s, in, st, why)) { violation(std::string("O05:") + k, log + ": " + why); return; }
    for (size_t i = 0; i < s.o.size(); i++) if (in.o->isPresent(s.o[i]->ln) != st.present[i] || in.o->isPresent(s.o[i]->sn) != st.present[i]) { violation("O05:present", log + ": presence of " + q(s.o[i]->ln)); return; }
  } else for (size_t i = 0; i < s.o.size(); i++) if (s.o[i]->kind == VEC) { auto v = s.o[i]->vec(*in.st[i]); auto & full = st.vec[i]; bool pre = v.size() <= full.size(); for (size_t j = 0; pre && j < v.size(); j++) pre = v[j] == full[j]; if (!pre) { violation("O05:vector", log + ": vector option " + q(s.o[i]->ln) + " holds a refused value"); return; } }
}
Reg ro05("O05", o05);

void o04(Rng & r, uint64_t) {
  Quiet qt; bool kvp = r.chance(1, 4); Spec s = gen_spec(r, kvp); Inst used(s); State before = fresh(s); int n = r.range(2, 6); std::string log = (kvp ? "key=value options " : "options ") + s.show(); Hash h; h.add(log);
  for (int k = 0; k < n; k++) {
    std::list<std::string> l; int errors = r.oneof({0, 5, 40});
    if (kvp) for (int i = r.range(0, 5); i > 0; i--) l.push_back(gen_item(r, s, errors)); else l = gen_line(r, s, errors);
    if (!kvp && r.chance(1, 4) && !l.empty()) { const Opt * o = r.pick(s.o).get(); l.push_back("--" + o->ln); if (r.chance(1, 2)) l.push_back("--nosuchname"); } // stop in the middle of something
    if (log.size() < 3000) log += " line" + show(l); desc(log); h.add(show(l));
    Inst fr(s); State sf = fresh(s); Result m = kvp ? run_kvp(s, sf, l) : run_model(s, sf, l);
    if (k && r.chance(1, 3)) for (size_t i = 0; i < s.o.size(); i++) if (r.chance(1, 2)) { s.o[i]->poke(r, *used.st[i]); count("variables_changed_between_lines"); if (log.size() < 3000) log += " (caller sets " + s.o[i]->ln + ")"; }
    // remember
    std::vector<std::vector<std::string>> v0; std::vector<std::string> s0; std::vector<bool> p0; for (size_t i = 0; i < s.o.size(); i++) { v0.push_back(s.o[i]->vec(*used.st[i])); s0.push_back(s.o[i]->kind == VEC ? "" : s.o[i]->scalar(*used.st[i])); p0.push_back(used.o->isPresent(s.o[i]->ln)); }
    auto pos0 = used.o->getPosArgs(); uint64_t sp = r.next(); int form = kvp ? 0 : (int) r.below(3); Rng r1(sp), r2(sp);
    bool a, b; if (kvp) { a = used.o->parseKeyValue(l); b = fr.o->parseKeyValue(l); } else { a = do_parse(r1, used, l, form); b = do_parse(r2, fr, l, form); }
    if (hostile || s.dups) continue;
    eval(); count("lines_compared_with_a_fresh_object"); if (!b) count("of_them_refused");
    auto bad = [&](const std::string & what) { violation("O04:" + what.substr(0, what.find(' ')), log + fmt(" (line %d of the sequence): ", k + 1) + what); };
    if (a != b) { bad(a ? "verdict: accepted, but a fresh object refuses" : "verdict: refused, but a fresh object accepts"); return; }
    for (size_t i = 0; i < s.o.size(); i++) {
      if (s.o[i]->kind == VEC) { auto v = s.o[i]->vec(*used.st[i]), f = s.o[i]->vec(*fr.st[i]); auto w = v0[i]; w.insert(w.end(), f.begin(), f.end()); if (v != w) { bad("vector option " + q(s.o[i]->ln) + " holds " + show(v) + " but must hold " + show(w)); return; } }
      else {
        std::string v = s.o[i]->scalar(*used.st[i]), f = s.o[i]->scalar(*fr.st[i]);
        if (s.o[i]->kind == PRES) { bool want = s0[i] == "1" || f == "1"; if ((v == "1") != want) { bad("flag " + q(s.o[i]->ln)); return; } }
        else if (m.open || (int) i == m.refused) {}
        else if (m.assigned[i]) { if (v != f) { bad("scalar " + q(s.o[i]->ln) + " is " + q(v) + " but a fresh object gets " + q(f)); return; } }
        else if (v != s0[i]) { bad("unmentioned scalar " + q(s.o[i]->ln) + " changed from " + q(s0[i]) + " to " + q(v)); return; }
      }
      if (used.o->isPresent(s.o[i]->ln) != (p0[i] || fr.o->isPresent(s.o[i]->ln))) { bad("presence of " + q(s.o[i]->ln)); return; }
    }
    auto w = pos0; auto f = fr.o->getPosArgs(); w.insert(w.end(), f.begin(), f.end());
    if (used.o->getPosArgs() != w) { bad("positional arguments are " + show(used.o->getPosArgs()) + " but must be " + show(w)); return; }
  }
  if (!hostile) { nontrivial(h.h); sample(log); }
}
Reg ro04("O04", o04);

size_t count_word(const std::string & text, const std::string & w) {
  size_t n = 0, p = 0; auto wc = [](char c) { return isalnum((unsigned char) c) || c == '_' || c == '.'; };
  while ((p = text.find(w, p)) != std::string::npos) { if ((p == 0 || !wc(text[p - 1])) && (p + w.size() == text.size() || !wc(text[p + w.size()]))) n++; p++; }
  return n;
}
void o06(Rng & r, uint64_t) {
  Quiet qt; bool kvp = r.chance(1, 6); Spec s = gen_spec(r, kvp); Inst in(s); State st = fresh(s); std::vector<bool> maybe(s.o.size(), false); int n = r.range(1, 3); std::string log = (kvp ? "key=value options " : "options ") + s.show(); bool pos_exact = true;
  for (int k = 0; k < n; k++) {
    std::list<std::string> l; int errors = r.oneof({0, 2, 20});
    if (kvp) for (int i = r.range(1, 5); i > 0; i--) l.push_back(gen_item(r, s, errors)); else l = gen_line(r, s, errors);
    log += " line" + show(l); desc(log); State s2 = st; Result m = kvp ? run_kvp(s, s2, l) : run_model(s, s2, l);
    bool ok = kvp ? in.o->parseKeyValue(l) : do_parse(r, in, l, (int) r.below(3));
    if (hostile) break;
    if (m.open || s.dups) return;
    if (ok && m.ok) st = s2; else { for (size_t i = 0; i < s.o.size(); i++) if (m.mentioned[i]) maybe[i] = true; pos_exact = false; }
  }
  if (hostile) { for (int k = 0; k < 10; k++) { in.o->isPresent(random_string(r, 2000)); in.o->isPresent((char) r.below(256)); in.o->getPosArg((int) r.next()); in.o->numPosArgs(); } std::ostringstream os; in.o->printHelp(os); return; }
  eval(); Hash h; h.add(log); nontrivial(h.h); sample(log);
  for (size_t i = 0; i < s.o.size(); i++) {
    bool a = in.o->isPresent(s.o[i]->ln), b = in.o->isPresent(s.o[i]->sn); count("presence_queries", 2);
    if (a != b) { violation("O06:names", log + ": the two names of " + q(s.o[i]->ln) + " disagree"); return; }
    if (!maybe[i] && a != st.present[i]) { violation("O06:present", log + ": " + q(s.o[i]->ln) + (a ? " is reported present, but did not occur" : " is not reported present, but did occur")); return; }
  }
  for (int k = 0; k < 6; k++) { std::string u = r.chance(1, 3) ? r.pick(s.o)->ln + "x" : random_string(r, 20); char c = (char) r.below(256); count("presence_queries");
    if (s.by_long(u) < 0 && in.o->isPresent(u)) { violation("O06:unknown", log + ": unknown name " + q(u) + " is present"); return; }
    if (s.by_short(c) < 0 && in.o->isPresent(c)) { violation("O06:unknown", log + ": unknown name " + q(c) + " is present"); return; } }
  auto all = in.o->getPosArgs();
  if (pos_exact && all != st.pos) { violation("O06:positional", log + ": positional arguments " + show(all)); return; }
  if (in.o->numPosArgs() != (int) all.size()) { violation("O06:count", log + fmt(": numPosArgs is %d", in.o->numPosArgs())); return; }
  for (int k = 0; k < 12; k++) { int i = k < 6 ? r.range(-2, (int) all.size() + 2) : k == 6 ? INT_MAX : k == 7 ? INT_MIN : k == 8 ? -1 : (int) r.next(); std::string want = i >= 0 && i < (int) all.size() ? all[(size_t) i] : ""; count("positional_queries");
    if (in.o->getPosArg(i) != want) { violation("O06:getPosArg", log + fmt(": getPosArg(%d) is ", i) + q(in.o->getPosArg(i))); return; } }
  if (!kvp) {
    std::ostringstream os; if (&in.o->printHelp(os) != &os) { violation("O06:help", log + ": printHelp returns another stream"); return; }
    std::string t = os.str(); count("help_texts_checked"); size_t p = 0;
    for (auto & i : s.infos) { size_t f = t.find(i, p); if (f == std::string::npos) { violation("O06:help-info", log + ": help " + q(t) + " lacks information or has it out of order: " + q(i)); return; } p = f + i.size(); }
    std::string body = t.substr(p); std::vector<std::string> lines; { std::istringstream is(body); std::string x; while (std::getline(is, x)) lines.push_back(x); }
    for (auto & o : s.o) {
      if (count_word(body, o->ln) - (o->ln.size() == 1 && o->ln[0] == o->sn ? 1 : 0) != 1 + 0u) {
        // a one-letter long name may also be somebody's short name
        size_t shorts = 0; if (o->ln.size() == 1) for (auto & x : s.o) if (x->sn == o->ln[0]) shorts++;
        if (count_word(body, o->ln) != 1 + shorts) { violation("O06:help-option", log + ": help " + q(t) + " does not list " + q(o->ln) + " exactly once"); return; } }
      bool found = false;
      for (auto & x : lines) if (count_word(x, o->ln) && x.find(std::string("-") + o->sn) != std::string::npos && x.find(o->doc) != std::string::npos) { found = true; break; }
      if (!found) { violation("O06:help-line", log + ": help " + q(t) + " has no line with both names and the description of " + q(o->ln)); return; }
      if (!o->doc.empty()) { size_t c = 0, f = 0; while ((f = body.find(o->doc.substr(0, 6), f)) != std::string::npos) { c++; f++; } size_t want = 0; for (auto & y : s.o) if (y->doc.compare(0, 6, o->doc, 0, 6) == 0) want++; if (c != want) { violation("O06:help-doc", log + ": help " + q(t) + " repeats the description of " + q(o->ln)); return; } }
    }
  }
}
Reg ro06("O06", o06);

// what the client's user gets to see
void o07(Rng & r, uint64_t) {
  bool kvp = r.chance(1, 3); Spec s = gen_spec(r, kvp); Inst in(s); int n = r.range(1, 3); std::string log = (kvp ? "key=value options " : "options ") + s.show(); Hash h; h.add(log);
  for (int k = 0; k < n; k++) {
    std::list<std::string> l; int errors = r.oneof({0, 5, 15, 40});
    if (kvp) for (int i = r.range(1, 5); i > 0; i--) l.push_back(gen_item(r, s, errors)); else l = gen_line(r, s, errors);
    for (auto & t : l) for (auto & c : t) if (c == '\0') c = '0';
    if (log.size() < 3000) log += " line" + show(l); desc(log); h.add(show(l)); State st = fresh(s);
    Result m = kvp ? run_kvp(s, st, l) : run_model(s, st, l); bool ok; std::string err, out, help;
    { Capture ce(std::cerr), co(std::cout); ok = kvp ? in.o->parseKeyValue(l) : do_parse(r, in, l, (int) r.below(3)); err = ce.take(); out = co.take(); std::ostringstream os; in.o->printHelp(os); help = os.str(); }
    if (hostile) continue;
    if (m.open || s.dups) { count("lines_left_open"); return; }
    if (ok != m.ok) return; // (that is for O01, O02 and O05 to say)
    eval(); nontrivial(h.h); sample(log); auto bad = [&](const char * key, const std::string & what) { violation(std::string("O07:") + key, log + fmt(" (line %d): ", k + 1) + what + "; the error stream has " + q(err)); };
    if (!out.empty()) { bad("stdout", "the parser writes " + q(out) + " to the standard output"); return; }
    static const char * names[] = {"lines_accepted_quietly", "refused_values_explained", "missing_values_explained", "unknown_names_explained", "help_requests_answered"}; count(names[m.why]);
    switch (m.why) {
    case FINE: if (!err.empty()) { bad("noise", "the line is accepted, but something is written"); return; } break;
    case HELP: if (err.find(help) == std::string::npos) { bad("help", "help is asked for, but not given"); return; } break;
    case NAME: if (err.find(m.text) == std::string::npos) { bad("name", "the unknown name " + q(m.text) + " is not shown"); return; } if (err.find(help) == std::string::npos) { bad("help", "a name is unknown, but no help is given"); return; } break;
    case MISSING: if (err.find(s.o[(size_t) m.which]->ln) == std::string::npos) { bad("missing", "the option " + q(s.o[(size_t) m.which]->ln) + " without its value is not named"); return; } break;
    case VALUE: { auto & o = *s.o[(size_t) m.which];
      if (err.find(o.ln) == std::string::npos) { bad("value-option", "the option " + q(o.ln) + " of the refused value is not named"); return; }
      if (err.find(m.text) == std::string::npos) { bad("value-text", "the refused value " + q(m.text) + " is not shown"); return; }
      if (o.tested && err.find(o.err) == std::string::npos) { bad("value-message", "the message " + q(o.err) + " given for " + q(o.ln) + " is not shown"); return; }
      for (auto & x : s.o) if (x.get() != &o && x->tested && x->err.size() > 5 && err.find(x->err) != std::string::npos && m.text.find(x->err) == std::string::npos) { bad("other-message", "the message of another option, " + q(x->ln) + ", is shown"); return; }
      break; }
    }
  }
}
Reg ro07("O07", o07);
}
