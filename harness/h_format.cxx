// F01-F07: the real formatter against models of the text it must produce.
#include "hx.hxx"
#include "Format.hxx"
#include <cmath>
#include <cfloat>
#include <climits>
#include <limits>
#include <memory>
#include <sstream>
using namespace hx;

namespace {
typedef SoDa::Format Format;
// ---- generators
int gen_int(Rng & r) {
  switch (r.below(7)) {
  case 0: return r.oneof<int>({0, 1, -1, 9, 10, 99, 100, 999, 1000, 1001, -999, -1000, 9999, 10000, 99999, 100000, 999999, 1000000, INT_MAX, INT_MIN, INT_MIN + 1, INT_MAX - 1});
  case 1: { int p = 1; for (int k = (int) r.below(10); k > 0; k--) p *= 10; return (int) ((unsigned) p + (unsigned) r.range(-1, 1)) * (r.chance(1, 2) ? 1 : -1); }
  case 2: return (int) (((1u << r.below(32)) + (unsigned) r.range(-1, 1)));
  case 3: return dict.ints.empty() ? 5 : (int) ((long) r.pick(dict.ints) + r.range(-1, 1)) * (r.chance(1, 2) ? 1 : -1);
  case 4: return r.range(-2000, 2000);
  default: return (int) (r.next() >> r.below(64));
  }
}
unsigned long gen_ulong(Rng & r) {
  switch (r.below(6)) {
  case 0: return r.oneof<unsigned long>({0, 1, 7, 8, 9, 10, 15, 16, 63, 64, 255, 256, 999, 1000, 4095, 4096, 65535, 65536, 999999, 1000000, 0xffffffffUL, 0x100000000UL, ULONG_MAX, ULONG_MAX - 1, 0x8000000000000000UL, 10000000000UL});
  case 1: return (1UL << r.below(64)) + (unsigned long) (long) r.range(-1, 1);
  case 2: { unsigned long p = 1; for (int k = (int) r.below(20); k > 0; k--) p *= 10; return p + (unsigned long) (long) r.range(-1, 1); }
  case 3: return dict.ints.empty() ? 5 : (unsigned long) (r.pick(dict.ints) + r.range(-1, 1));
  default: return r.next() >> r.below(64);
  }
}
double gen_double(Rng & r, bool special) {
  double v;
  switch (r.below(12)) {
  case 0: { static const double t[] = {0.0, 1, 10, 100, 1000, 999.5, 999.95, 999.9999, 0.1, 0.5, 0.01, 0.001, 0.9999, 9.9999995, 99.9995, 9.5, 99.5, 1e6, 1e9, 1e-3, 1e-6, 123.456, DBL_MAX, DBL_MIN, DBL_EPSILON, 4.9e-324, 1e300, 1e-300, 1e308, 1.7e308, 2.5, 3.5, 0.125, 1e15, 1e16, 1e22, 1e23, 4503599627370496.0, 9007199254740993.0}; v = t[r.below(sizeof t / sizeof *t)]; break; }
  case 1: { double m = pow(10.0, r.range(-320, 308)); v = m; for (int k = r.range(-3, 3); k; k += k > 0 ? -1 : 1) v = nextafter(v, k > 0 ? INFINITY : 0); break; }
  case 2: { uint64_t b = r.next(); memcpy(&v, &b, 8); if (!std::isfinite(v)) v = 1.5; break; }
  case 3: { long n = (long) (r.next() >> r.range(1, 60)); v = (double) n * pow(10.0, r.range(-20, 20)); break; }
  case 4: { // ties in some decimal place
    double n = (double) r.range(0, 99999) + 0.5; v = n * pow(10.0, r.range(-15, 15)); break; }
  case 5: { int e = r.range(-300, 300); v = (1.0 + (double) r.below(9)) * pow(10.0, e) - pow(10.0, e - r.range(1, 14)) * (double) r.below(10); break; }
  case 6: { uint64_t b = r.next() & 0x800fffffffffffffull; memcpy(&v, &b, 8); break; } // denormals
  case 7: v = dict.dbls.empty() ? 2.5 : r.pick(dict.dbls) * pow(10.0, r.range(-3, 3)); break;
  case 8: v = (double) r.range(-100000, 100000) / (double) r.oneof({1, 2, 4, 5, 8, 10, 16, 100, 1000}); break;
  default: v = (r.unit() - 0.5) * pow(10.0, r.range(-14, 14)); break;
  }
  if (r.chance(1, 3)) v = -v;
  if (special && r.chance(1, 25)) v = r.oneof<double>({INFINITY, -INFINITY, NAN, -NAN, std::numeric_limits<double>::signaling_NaN()});
  return std::isinf(v) && !special ? DBL_MAX : v;
}
long wide() { return hostile ? 1000000 : 70000; }
unsigned gen_width(Rng & r, unsigned typical = 30) {
  if (r.chance(1, 4)) return 0;
  if (hostile && r.chance(1, 60)) return r.oneof<unsigned>({100000, 999999, 1000000});
  if (r.chance(1, 40)) return (unsigned) interesting_int(r, 0, r.chance(1, 10) ? wide() : 2000);
  return (unsigned) interesting_int(r, 0, typical);
}
char gen_sep(Rng & r, bool digits_ok) {
  for (;;) {
    char c;
    switch (r.below(5)) { case 0: return '\0'; case 1: c = r.oneof({',', '_', '.', ' ', '\'', ':'}); break; case 2: c = (char) (32 + r.below(95)); break; case 3: c = dict.chars.empty() ? ',' : r.pick(dict.chars); break; default: c = (char) r.below(256); }
    if (digits_ok || !isalnum((unsigned char) c)) return c;
  }
}
std::string gen_value(Rng & r) {
  switch (r.below(8)) { case 0: return ""; case 1: return "%" + std::to_string(r.below(4)); case 2: return "%%"; case 3: return "%"; case 4: return r.oneof<std::string>({"a%0b", "%1%2", "100%", "%%0", "\\", "%s", "%d%n"}); default: return random_string(r, hostile ? 20000 : r.chance(1, 100) ? 70000 : 500); }
}
std::string pick_string(Rng & r) { return r.chance(1, 30) ? random_bytes(r, (size_t) interesting_int(r, 0, wide()), (int) r.below(5)) : random_string(r, 300); }
std::string pad_left(const std::string & s, size_t w, char f = ' ') { return s.size() < w ? std::string(w - s.size(), f) + s : s; }
std::string pad_right(const std::string & s, size_t w) { return s.size() < w ? s + std::string(w - s.size(), ' ') : s; }
std::string group(const std::string & digits, char sep, unsigned g) {
  if (!sep || !g) return digits;
  std::string o; for (size_t i = 0; i < digits.size(); i++) { if (i && (digits.size() - i) % g == 0) o += sep; o += digits[i]; } return o;
}
// ---- F01
struct Seg { bool lit; std::string text; unsigned long idx; };
std::vector<Seg> scan(const std::string & t) {
  std::vector<Seg> v; std::string cur;
  auto flush = [&]() { if (!cur.empty()) v.push_back({true, cur, 0}); cur.clear(); };
  for (size_t i = 0; i < t.size();) {
    if (t[i] != '%') { cur += t[i++]; continue; }
    if (i + 1 < t.size() && t[i + 1] >= '0' && t[i + 1] <= '9') {
      size_t j = i + 1; unsigned long n = 0; while (j < t.size() && t[j] >= '0' && t[j] <= '9') { n = n * 10 + (unsigned long) (t[j] - '0'); if (n > 1000000000000ul) n = 1000000000000ul; j++; }
      flush(); v.push_back({false, t.substr(i, j - i), n}); i = j; continue;
    }
    if (i + 1 < t.size() && t[i + 1] == '%') { cur += '%'; i += 2; continue; }
    cur += '%'; if (i + 1 < t.size()) cur += t[i + 1]; i += 2;
  }
  flush(); return v;
}
struct Model {
  std::string tmpl; std::vector<Seg> segs, orig; unsigned long next = 0; unsigned long maxidx = 0; bool any = false;
  explicit Model(const std::string & t) : tmpl(t), segs(scan(t)), orig(segs) { for (auto & s : segs) if (!s.lit && s.idx < 1000000) { any = true; maxidx = std::max(maxidx, s.idx); } }
  void add(const std::string & v) { for (auto & s : segs) if (!s.lit && s.idx == next) { s.lit = true; s.text = v; } next++; }
  void reset() { segs = orig; next = 0; }
  bool complete() const { for (auto & s : segs) if (!s.lit) return false; return true; }
  bool more() const { return any && next <= maxidx; }
  bool matches(const std::string & got) const {
    size_t p = 0;
    for (auto & s : segs) {
      if (!got.compare(p, s.text.size(), s.text) && s.lit) { p += s.text.size(); continue; }
      if (s.lit) return false;
      std::string canon = "%" + std::to_string(s.idx); // unfilled: as written or without leading zeros
      // try the longer spelling first; both are prefixes-unambiguous because what follows is not a digit or is literal text
      if (!got.compare(p, s.text.size(), s.text)) { p += s.text.size(); continue; }
      if (!got.compare(p, canon.size(), canon)) { p += canon.size(); continue; }
      return false;
    }
    return p == got.size();
  }
  std::string expect() const { std::string e; for (auto & s : segs) e += s.text; return e; }
};
std::string gen_template(Rng & r, int style) {
  std::string t; int n = r.range(0, style == 1 ? (r.chance(1, 40) ? 400 : 30) : 8);
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 2)) t += r.chance(1, 3) ? gen_value(r) : random_bytes(r, r.below(6), r.oneof({0, 1, 3, 2}));
    switch (r.below(10)) {
    case 0: t += "%%"; break;
    case 1: t += "%"; break;
    case 2: t += "%%" + std::to_string(r.below(5)); break;
    case 3: t += "%" + std::string((size_t) r.range(1, 3), '0') + std::to_string(r.below(12)); break;
    case 4: t += "%" + std::to_string(interesting_int(r, 0, style == 2 ? 70000 : 40)); break;
    case 5: t += random_string(r, 30); break;
    case 6: if (r.chance(1, 4)) { // numbers that nobody fills; some would be small ones in 8, 16, 32 or 64 bits
        unsigned long k = r.below(6); t += "%" + (r.chance(1, 3) ? r.oneof<std::string>({"18446744073709551616", "18446744073709551617", "18446744073709551618", "340282366920938463463374607431768211456", "99999999999999999999", "4294967295", "2147483648", "9223372036854775808"}) : std::to_string((1ul << r.range(20, 62)) + k)); break; }
      // fall through
    default: t += "%" + std::to_string(r.below(1 + (uint64_t) n)); break;
    }
  }
  return t;
}
struct Obj { std::unique_ptr<Format> f; Model m; };
void f01(Rng & r, uint64_t idx) {
  int style = idx % 200 == 7 ? 2 : (int) r.below(2); // 2: huge placeholder numbers
  std::vector<Obj> objs; std::string t = gen_template(r, style);
  if (style == 2) t += "[%" + std::to_string(r.oneof({255, 256, 300, 65535, 65536, 70000})) + "]";
  std::string log = "template " + q(t); Hash h; h.add(t);
  auto note = [&](const std::string & s) { h.add(s); if (log.size() < 3000) log += "; " + s; desc(log); };
  auto check = [&](Obj & o, size_t n) {
    std::string got = o.f->str(); count("texts_compared");
    if (!o.m.matches(got)) { violation("F01:text", log + fmt("; object %zu reads ", n) + q(got) + " but must be " + q(o.m.expect())); return false; }
    return true;
  };
  objs.push_back(Obj{std::unique_ptr<Format>(new Format(t)), Model(t)}); desc(log); sample(log);
  if (!check(objs[0], 0)) return;
  int ops = style == 2 ? 3 : r.range(1, 25);
  for (int i = 0; i < ops; i++) {
    size_t n = r.below(objs.size()); Obj & o = objs[n];
    int k = (int) r.below(20);
    if (k < 12 || style == 2) {
      long times = style == 2 ? (long) interesting_int(r, 1, 70001) : r.chance(1, 6) ? r.range(1, 40) : 1;
      for (long j = 0; j < times && (o.m.more() || (hostile && j < 300)); j++) {
        std::string v; Format * ret = nullptr;
        switch (style == 2 ? 0 : r.below(6)) {
        case 0: case 1: case 2: v = gen_value(r); if (style == 2) v = std::to_string(j); ret = &o.f->addS(v); break;
        case 3: { char c = (char) r.below(256); if (r.chance(1, 2)) c = '%'; v = std::string(1, c); ret = &o.f->addC(c); break; }
        case 4: { bool b = r.chance(1, 2); v = b ? "T" : "F"; ret = &o.f->addB(b); break; }
        default: { int x = gen_int(r); v = std::to_string(x); ret = &o.f->addI(x); break; }
        }
        o.m.add(v); if (style != 2) note(fmt("object %zu add ", n) + q(v));
        if (ret != o.f.get()) { violation("F01:chain", log + ": add returns another object"); return; }
      }
      if (style == 2) note(fmt("%ld values added", times));
    } else if (k < 14) {
      note(fmt("object %zu str(true)", n)); bool threw = false, other = false; std::string s;
      try { s = o.f->str(true); } catch (Format::BadFormat & e) { threw = true; if (!*e.what()) other = true; } catch (std::exception &) { other = true; }
      count("completeness_checks");
      if (other || threw != !o.m.complete()) { violation("F01:completeness", log + (threw ? ": threw though complete" : other ? ": threw something else" : ": did not throw")); return; }
      if (!threw && !o.m.matches(s)) { violation("F01:text", log + ": str(true) gives " + q(s)); return; }
    } else if (k < 16) {
      std::ostringstream os; if (r.chance(1, 3)) os << "<" << *o.f << ">"; else { os << "<"; ::operator<<(os, *o.f) << ">"; }
      std::string s = os.str(); note(fmt("object %zu <<", n));
      if (s.size() < 2 || !o.m.matches(s.substr(1, s.size() - 2))) { violation("F01:stream", log + ": << gives " + q(s)); return; }
    } else if (k < 17) { note(fmt("object %zu reset", n)); if (&o.f->reset() != o.f.get()) { violation("F01:chain", log + ": reset returns another object"); return; } o.m.reset(); }
    else if (k < 19 && objs.size() < 5) {
      note(fmt("object %zu is copied", n)); Model m = o.m; std::unique_ptr<Format> c;
      if (r.chance(1, 3)) { c.reset(new Format("other %0")); c->addS("x"); *c = *o.f; } else c.reset(new Format(*o.f));
      objs.push_back(Obj{std::move(c), m}); if (r.chance(1, 5)) { objs.erase(objs.begin() + (long) n); note("the original is destroyed"); }
    }
    if (r.chance(1, 3) || style == 2) for (size_t j = 0; j < objs.size(); j++) if (!check(objs[j], j)) return;
  }
  for (size_t j = 0; j < objs.size(); j++) if (!check(objs[j], j)) return;
  eval(); if (!t.empty()) nontrivial(h.h);
}
Reg rf01("F01", f01);

// ---- values: one field between brackets
template <class F> std::string field(F f) { // F: Format& -> void
  Format fm("[%0]"); f(fm); std::string s = fm.str(true); if (s.size() < 2 || s[0] != '[' || s.back() != ']') return "frame lost: " + s; return s.substr(1, s.size() - 2);
}
void judge(const char * key, const std::string & call, const std::string & got, const std::string & want, const std::string & alt = "\1none") {
  count("fields_compared"); eval();
  if (got != want && got != alt) { size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++; violation(key, call + " gives " + q(got) + fmt(" (length %zu) but must give ", got.size()) + q(want) + fmt(" (length %zu); first difference at %zu", want.size(), p)); }
}
void done(const std::string & call) { Hash h; h.add(call); nontrivial(h.h); sample(call); }

void f02(Rng & r, uint64_t) {
  for (int k = 0; k < 8; k++) {
    int v = gen_int(r); unsigned w = gen_width(r); char sep = gen_sep(r, true), fill = gen_sep(r, true); int args = r.range(1, 4);
    if (args < 2) w = 0; if (args < 3) sep = 0; if (args < 4) fill = 0;
    std::string call = fmt("addI(%d, %u, ", v, w) + q(sep) + ", " + q(fill) + ")"; desc(call);
    std::string got = field([&](Format & f) { switch (args) { case 1: f.addI(v); break; case 2: f.addI(v, w); break; case 3: f.addI(v, w, sep); break; default: f.addI(v, w, sep, fill); } });
    std::string d = std::to_string(v < 0 ? -(long) v : (long) v);
    judge("F02:text", call, got, pad_left((v < 0 ? "-" : "") + group(d, sep, 3), w, fill ? fill : ' ')); done(call);
  }
}
Reg rf02("F02", f02);

void f03(Rng & r, uint64_t) {
  for (int k = 0; k < 8; k++) {
    unsigned long v = gen_ulong(r); char fm = r.oneof({'d', 'x', 'X', 'o'}); unsigned w = gen_width(r, 40); char sep = gen_sep(r, true);
    unsigned g = r.chance(1, 3) ? 4 : r.chance(1, 50) ? r.oneof<unsigned>({UINT_MAX, INT_MAX, 1u << 31}) : (unsigned) interesting_int(r, 0, r.chance(1, 10) ? 100000 : 24); int args = r.range(1, 5);
    if (hostile) { if (r.chance(1, 10)) g = r.oneof<unsigned>({0, UINT_MAX, INT_MAX, 1u << 31}); if (r.chance(1, 5)) fm = (char) r.below(256); }
    if (args < 2) fm = 'd'; if (args < 3) w = 0; if (args < 4) sep = 0; if (args < 5) g = 4;
    if (sep && w > 20000) w %= 20001;   // (separators take quadratic time)
    std::string call = fmt("addU(%lu, ", v) + q(fm) + fmt(", %u, ", w) + q(sep) + fmt(", %u)", g); desc(call);
    std::string got = field([&](Format & f) { switch (args) { case 1: f.addU(v); break; case 2: f.addU(v, fm); break; case 3: f.addU(v, fm, w); break; case 4: f.addU(v, fm, w, sep); break; default: f.addU(v, fm, w, sep, g); } });
    if (hostile) { done(call); continue; }
    std::string want, alt = "\1none";
    if (fm == 'd') want = pad_left(group(fmt("%lu", v), sep, g), w);
    else if (fm == 'o') { std::string d = pad_left(v ? fmt("0%lo", v) : "0", w, '0'); want = group(d, sep, g); // the leading zero may be set apart or not
      if (d.size() > 1 && sep && g && (d.size() - 1) % g == 0) alt = d.substr(0, 1) + group(d.substr(1), sep, g); }
    else want = "0x" + group(pad_left(fmt(fm == 'x' ? "%lx" : "%lX", v), w, '0'), sep, g);
    judge("F03:text", call, got, want, alt); done(call);
  }
}
Reg rf03("F03", f03);

struct Separator { explicit Separator(char c) { Format::separator = c; } ~Separator() { Format::separator = '.'; } };

void f04(Rng & r, uint64_t) {
  for (int k = 0; k < 8; k++) {
    double v = gen_double(r, true); char fm = r.oneof({'f', 's', 'g'}); if (!std::isfinite(v)) fm = r.oneof({'f', 's', 'g', 'e'});
    unsigned w = gen_width(r), sd = (unsigned) interesting_int(r, 0, r.chance(1, 20) ? 1200 : 30); char sep = r.chance(1, 2) ? '.' : (char) r.below(256); int args = r.range(1, 4);
    if (hostile) { if (r.chance(1, 3)) fm = 'e'; else if (r.chance(1, 8)) fm = (char) r.below(256); if (r.chance(1, 12)) sd = (unsigned) interesting_int(r, 0, r.chance(1, 8) ? 1000000 : 5000); }
    if (args < 2) fm = 'f'; if (args < 3) w = 0; if (args < 4) sd = 6;
    Separator s(sep);
    std::string call = fmt("addF(%.17g, ", v) + q(fm) + fmt(", %u, %u) with separator ", w, sd) + q(sep); desc(call);
    std::string got = field([&](Format & f) { switch (args) { case 1: f.addF(v); break; case 2: f.addF(v, fm); break; case 3: f.addF(v, fm, w); break; default: f.addF(v, fm, w, sd); } });
    if (hostile) { eval(); done(call); continue; }
    std::string want;
    if (std::isnan(v)) want = "nan"; else if (std::isinf(v)) want = v < 0 ? "-inf" : "inf";
    else { std::string b(snprintf(nullptr, 0, fm == 'f' ? "%.*f" : fm == 's' ? "%.*e" : "%.*g", (int) sd, v), ' '); b.push_back(0); snprintf(&b[0], b.size(), fm == 'f' ? "%.*f" : fm == 's' ? "%.*e" : "%.*g", (int) sd, v); b.pop_back(); want = b; }
    for (auto & c : want) if (c == '.') c = sep;
    if (w) want = pad_right(want, w);
    else if (got.size() > want.size() && got.size() <= sd + 4) want = pad_right(want, got.size()); // default width
    judge("F04:text", call, got, want); done(call);
  }
}
Reg rf04("F04", f04);

void f05(Rng & r, uint64_t) {
  for (int k = 0; k < 8; k++) {
    double v = gen_double(r, hostile); unsigned sd = (unsigned) r.range(1, 12), w = gen_width(r); char sep = '.';
    if (hostile && r.chance(1, 5)) sd = (unsigned) interesting_int(r, 0, 3000);
    if (r.chance(1, 2)) do sep = (char) r.below(256); while (isdigit((unsigned char) sep) || sep == 'e' || sep == '+' || sep == '-' || sep == ' ');
    if (v == 0 && r.chance(9, 10)) v = 4.5;
    Separator s(sep);
    std::string call = fmt("addF(%.17g, 'e', %u, %u) with separator ", v, w, sd) + q(sep); desc(call);
    bool defaults = sd == 6 && w == 0 && r.chance(1, 2);
    std::string got = field([&](Format & f) { if (defaults) f.addF(v, 'e'); else if (sd == 6 && r.chance(1, 2)) f.addF(v, 'e', w); else f.addF(v, 'e', w, sd); });
    eval(); done(call); count("fields_parsed");
    if (hostile) continue;
    auto bad = [&](const std::string & why) { violation("F05:" + why.substr(0, why.find(' ')), call + " gives " + q(got) + ": " + why); };
    if (got.size() < w) { bad("width is below the one asked for"); return; }
    std::string t = got; while (!t.empty() && t.back() == ' ') t.pop_back();
    size_t p = 0; bool neg = false;
    if (v == 0) {
      if (p < t.size() && (t[p] == '-' || t[p] == ' ')) p++;
      size_t z = p; while (p < t.size() && t[p] == '0') p++;
      if (p == z) { bad("shape of zero"); return; }
      if (p < t.size() && t[p] == sep) { p++; z = p; while (p < t.size() && t[p] == '0') p++; if (p == z) { bad("shape of zero"); return; } }
      if (p >= t.size() || t[p++] != 'e') { bad("shape of zero"); return; }
      if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++;
      z = p; while (p < t.size() && t[p] == '0') p++;
      if (p == z || p != t.size()) bad("shape of zero");
      count("zeros"); continue;
    }
    if (t.empty() || (t[0] != '-' && t[0] != ' ')) { bad("shape: no sign or blank"); return; }
    neg = t[0] == '-'; p = 1; size_t a = p; while (p < t.size() && isdigit((unsigned char) t[p])) p++;
    std::string ip = t.substr(a, p - a), fp, ep;
    if (p < t.size() && t[p] == sep) { p++; a = p; while (p < t.size() && isdigit((unsigned char) t[p])) p++; fp = t.substr(a, p - a); if (fp.empty()) { bad("shape: radix character without fraction"); return; } }
    if (p >= t.size() || t[p] != 'e') { bad("shape: no exponent"); return; }
    p++; bool en = false; if (p < t.size() && (t[p] == '+' || t[p] == '-')) { en = t[p] == '-'; p++; } else { bad("shape: exponent sign"); return; }
    a = p; while (p < t.size() && isdigit((unsigned char) t[p])) p++; ep = t.substr(a, p - a);
    if (ep.empty() || ep.size() > 4 || p != t.size()) { bad("shape: exponent"); return; }
    int e = atoi(ep.c_str()) * (en ? -1 : 1);
    if (neg != (v < 0)) { bad("sign"); return; }
    if (ip.empty() || ip.size() > 3 || ip[0] == '0') { bad("integer part is not 1 to 999"); return; }
    if (e % 3) { bad("exponent is not a multiple of three"); return; }
    if (ip.size() + fp.size() != sd) {
      if (!(ip.size() > sd && fp.empty())) { bad("digits: not as many significant ones as asked for"); return; }
      for (size_t i = sd; i < ip.size(); i++) if (ip[i] != '0') { bad("digits: insignificant places are not zero"); return; }
    }
    long double x = strtold((ip + "." + fp + "0e" + std::to_string(e)).c_str(), nullptr), av = fabsl((long double) v);
    long double unit = powl(10.0L, (long double) e + (long double) ip.size() - (long double) sd);
    if (!(fabsl(x - av) <= 0.5L * unit * (1 + 1e-15L) + av * 1e-11L)) { bad(fmt("value is off by %.6Lg units of the last digit", fabsl(x - av) / unit)); return; }
  }
}
Reg rf05("F05", f05);

void f06(Rng & r, uint64_t) {
  for (int k = 0; k < 6; k++) {
    std::string s = pick_string(r); int w = (int) gen_width(r, 60); if (r.chance(1, 2)) w = -w; if (r.chance(1, 6)) w = (int) s.size() + r.range(-2, 2); if (r.chance(1, 12)) w = -(int) s.size() + r.range(-2, 2);
    std::string call = "addS(" + q(s) + fmt(" (length %zu), %d)", s.size(), w); desc(call);
    std::string got = field([&](Format & f) { if (w) f.addS(s, w); else f.addS(s); });
    judge("F06:string", call, got, w > 0 ? pad_left(s, (size_t) w) : pad_right(s, (size_t) -w)); done(call);
  }
  char c = (char) r.below(256); bool b = r.chance(1, 2);
  desc("addC(" + q(c) + ")"); judge("F06:char", "addC(" + q(c) + ")", field([&](Format & f) { f.addC(c); }), std::string(1, c));
  desc(b ? "addB(true)" : "addB(false)"); judge("F06:bool", b ? "addB(true)" : "addB(false)", field([&](Format & f) { f.addB(b); }), b ? "T" : "F");
}
Reg rf06("F06", f06);

// ---- F07
class MyFmt : public SoDa::Format_ext<MyFmt> {
public:
  explicit MyFmt(const std::string & s) : SoDa::Format_ext<MyFmt>(s, this), mine(0) {}
  MyFmt & addTwice(int v) { mine++; return addI(v).addI(v); }
  int mine;
};
void f07(Rng & r, uint64_t) {
  int n = r.range(1, r.chance(1, 20) ? 100 : 8); std::string t; for (int i = 0; i < n; i++) t += random_bytes(r, r.below(4), 0) + "%" + std::to_string(r.chance(1, 5) ? (int) r.below((uint64_t) n) : i);
  std::string log = "template " + q(t); Hash h; h.add(t);
  struct P { std::unique_ptr<Format> f; std::unique_ptr<MyFmt> x; int added; int mine; };
  std::vector<P> v; v.push_back(P{std::unique_ptr<Format>(new Format(t)), std::unique_ptr<MyFmt>(new MyFmt(t)), 0, 0});
  auto same = [&]() { for (size_t i = 0; i < v.size(); i++) { count("texts_compared"); std::string a = v[i].f->str(), b = v[i].x->str(); if (a != b) { violation("F07:text", log + fmt("; object %zu: plain ", i) + q(a) + " extended " + q(b)); return false; } if (v[i].x->mine != v[i].mine) { violation("F07:chain", log + "; a call acted on another object"); return false; } } return true; };
  Separator sep(r.chance(1, 5) ? ',' : '.');
  int ops = r.range(1, n > 8 ? 60 : 14);
  for (int k = 0; k < ops; k++) {
    size_t i = r.below(v.size()); P & p = v[i];
    if (r.chance(1, 5) && v.size() < 5) {
      std::unique_ptr<MyFmt> c; std::unique_ptr<Format> fc(new Format(*p.f)); int added = p.added, mine = p.mine; log += fmt("; object %zu copied", i); desc(log);
      switch (r.below(3)) { case 0: c.reset(new MyFmt(*p.x)); break; case 1: c.reset(new MyFmt("nothing %0")); *c = *p.x; break;
      default: { MyFmt tmp(*p.x); c.reset(new MyFmt(std::move(tmp))); break; } }
      v.push_back(P{std::move(fc), std::move(c), added, mine});
      if (r.chance(1, 3)) { v.erase(v.begin() + (long) i); log += " and destroyed"; }
      if (!same()) return; continue;
    }
    if (r.chance(1, 10)) { p.f->reset(); p.x->reset(); p.added = 0; log += fmt("; object %zu reset", i); continue; }
    int len = r.range(1, 3); Format * f = p.f.get(); MyFmt * x = p.x.get(); MyFmt * self = x;
    for (int j = 0; j < len && p.added < n; j++) {
      unsigned w = gen_width(r); std::string c; if (w > 20000) w = 20000 + w % 100; // (separators take quadratic time)
      auto D = [&] { desc(log + fmt("; object %zu ", i) + c); };
      switch (r.below(8)) {
      case 0: { int a = gen_int(r); char s = gen_sep(r, true); c = fmt("addI(%d,%u,", a, w) + q(s) + ")"; D(); f = &f->addI(a, w, s); x = &x->addI(a, w, s); break; }
      case 1: { int a = gen_int(r); c = fmt("addI(%d)", a); D(); f = &f->addI(a); x = &x->addI(a); break; }
      case 2: { unsigned long a = gen_ulong(r); char m = r.chance(1, 20) ? (char) r.below(256) : r.oneof({'d', 'x', 'X', 'o', 'h', 'H', 'D', 'O'}), s = gen_sep(r, true); unsigned g = (unsigned) interesting_int(r, 0, r.chance(1, 10) ? 100000 : 24); int ar = r.range(1, 5); c = fmt("addU(%lu,", a) + q(m) + fmt(",%u,", w) + q(s) + fmt(",%u)/%d", g, ar);
        D(); switch (ar) { case 1: f = &f->addU(a); x = &x->addU(a); break; case 2: f = &f->addU(a, m); x = &x->addU(a, m); break; case 3: f = &f->addU(a, m, w); x = &x->addU(a, m, w); break; case 4: f = &f->addU(a, m, w, s); x = &x->addU(a, m, w, s); break; default: f = &f->addU(a, m, w, s, g); x = &x->addU(a, m, w, s, g); } break; }
      case 3: { double a = gen_double(r, true); char m = r.oneof({'f', 's', 'g', 'e'}); unsigned sd = (unsigned) r.range(1, 12); int ar = r.range(1, 4); c = fmt("addF(%.17g,%c,%u,%u)/%d", a, m, w, sd, ar);
        D(); switch (ar) { case 1: f = &f->addF(a); x = &x->addF(a); break; case 2: f = &f->addF(a, m); x = &x->addF(a, m); break; case 3: f = &f->addF(a, m, w); x = &x->addF(a, m, w); break; default: f = &f->addF(a, m, w, sd); x = &x->addF(a, m, w, sd); } break; }
      case 4: { std::string a = gen_value(r); int sw = (int) w * (r.chance(1, 2) ? 1 : -1); c = "addS(" + q(a) + fmt(",%d)", sw); D(); f = &f->addS(a, sw); x = &x->addS(a, sw); break; }
      case 5: { char a = (char) r.below(256); c = "addC(" + q(a) + ")"; D(); f = &f->addC(a); x = &x->addC(a); break; }
      case 6: { bool a = r.chance(1, 2); c = a ? "addB(true)" : "addB(false)"; D(); f = &f->addB(a); x = &x->addB(a); break; }
      default: { int a = r.range(-9, 9); c = fmt("addTwice(%d)", a); D(); f = &f->addI(a).addI(a); x = &x->addTwice(a); p.added++; p.mine++; break; }
      }
      p.added++; if (log.size() < 3000) log += fmt("; object %zu ", i) + c; h.add(c); desc(log);
      if (x != self) { violation("F07:chain", log + ": the chained call returned another object"); return; }
    }
    if (!same()) return;
  }
  if (!same()) return;
  eval(); nontrivial(h.h); sample(log);
}
Reg rf07("F07", f07);
}
