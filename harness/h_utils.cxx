// U01, U02: squashSpaces and split against reference implementations.
#include "hx.hxx"
#include "Utils.hxx"
#include <list>
using namespace hx;
namespace {
std::string squash(const std::string & s) { std::string o; for (char c : s) { if (c == ' ' && (o.empty() || o.back() == ' ')) continue; o += c; } if (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
std::string gen(Rng & r) {
  size_t n = (size_t) interesting_int(r, 0, r.chance(1, 60) ? (hostile ? 60000 : 20000) : r.chance(1, 8) ? 600 : 40);
  switch (r.below(8)) {
  case 0: return std::string(n, ' ');
  case 1: { std::string s; while (s.size() < n) { s += std::string((size_t) r.range(0, 5), ' '); s += random_bytes(r, (size_t) r.range(0, 4), 0); } return s; }
  case 2: return std::string((size_t) r.range(0, 9), ' ') + random_bytes(r, n, (int) r.below(5)) + std::string((size_t) r.range(0, 9), ' ');
  case 3: { std::string s; for (size_t i = 0; i < n; i++) s += r.oneof({' ', ',', ':', 'a', ' ', '\t', '\0', (char) 0xff}); return s; }
  case 4: { std::string s; for (size_t i = 0; i < n; i++) s += r.oneof({',', ':', ';'}); return s; }
  case 5: { std::string s = random_bytes(r, n, 4); if (!s.empty() && r.chance(1, 2)) s[r.below(s.size())] = '\n'; return s; }
  default: return random_bytes(r, n, (int) r.below(5));
  }
}
std::string gen_delims(Rng & r, const std::string & s) {
  switch (r.below(9)) { case 0: return ""; case 1: return " "; case 2: return ","; case 3: return ":"; case 4: return std::string(1, (char) r.below(256)); case 5: return s.empty() ? "x" : std::string(1, s[r.below(s.size())]); case 6: return random_bytes(r, (size_t) r.range(1, 6), (int) r.below(5)); case 7: return std::string(1, '\0') + ","; default: return random_bytes(r, r.chance(1, 10) ? 300 : 2, 3); }
}
std::string show(const std::list<std::string> & l) { std::string o; for (auto & t : l) { o += q(t) + " "; if (o.size() > 800) break; } return fmt("%zu pieces: ", l.size()) + o; }
void u01(Rng & r, uint64_t) {
  for (int k = 0; k < 8; k++) {
    std::string s = gen(r), keep = s; desc("squashSpaces(" + q(s) + ")"); sample("squashSpaces(" + q(s) + ")");
    std::string a = SoDa::squashSpaces(s), w = squash(s); eval(); count("bytes", s.size());
    if (a != w) { violation("U01:text", "squashSpaces(" + q(s) + ") gives " + q(a) + " but must give " + q(w)); return; }
    if (s != keep) violation("U01:argument", "the argument changed");
    Hash h; h.add(s); if (s.find(' ') != std::string::npos) nontrivial(h.h);
  }
}
Reg ru1("U01", u01);
void u02(Rng & r, uint64_t) {
  for (int k = 0; k < 8; k++) {
    std::string s = gen(r), d = gen_delims(r, s); bool ne = r.chance(1, 2), dflt = !ne && r.chance(1, 2);
    std::string call = "split(" + q(s) + ", " + q(d) + (ne ? ", true)" : ")"); desc(call); sample(call);
    std::list<std::string> a = dflt ? SoDa::split(s, d) : SoDa::split(s, d, ne); auto v = dflt ? SoDa::splitVec(s, d) : SoDa::splitVec(s, d, ne);
    std::list<std::string> w; std::string cur, t = squash(s);
    for (char c : t) if (d.find(c) != std::string::npos) { w.push_back(cur); cur.clear(); } else cur += c;
    if (!cur.empty()) w.push_back(cur);
    if (ne) w.remove("");
    eval(); count("pieces", w.size());
    if (a != w) { violation("U02:pieces", call + " gives " + show(a) + " but must give " + show(w)); return; }
    if (std::list<std::string>(v.begin(), v.end()) != w) { violation("U02:vector", "splitVec differs from split: " + call); return; }
    Hash h; h.add(s); h.add(d); h.add((uint64_t) ne); if (w.size() > 1) nontrivial(h.h);
  }
}
Reg ru2("U02", u02);
}
