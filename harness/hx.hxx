// Harness support: deterministic cases, crash-safe case description, violation and
// coverage reporting.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>

namespace hx {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int) below((uint64_t)(b - a) + 1); } // inclusive
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class V> const typename V::value_type & pick(const V & v) { return v[below(v.size())]; }
  template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

struct Hash { uint64_t h = 1469598103934665603ull;
  void add(uint64_t v) { h = mix(h ^ v); }
  void add(const std::string & s) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; add((uint64_t) s.size()); }
};

// ---- dictionary harvested from the sources under test
struct Dict { std::vector<long> ints; std::vector<double> dbls; std::vector<std::string> strs; std::vector<char> chars; };
extern Dict dict;

// ---- reporting (all state belongs to the main thread unless stated otherwise)
extern uint64_t seed;
extern bool thorough;
extern bool hostile;       // S01: results are not judged, only the sanitizers are
extern std::string scratch; // a directory of our own
void desc(const std::string & s);               // what is about to be executed (survives a crash)
void violation(const std::string & key, const std::string & msg);
void fatal_violation(const std::string & key, const std::string & msg); // report and leave the process
void inconclusive(const std::string & msg);     // report and leave the process
void count(const char * name, uint64_t n = 1);
void eval(uint64_t n = 1);                      // evaluations
void nontrivial(uint64_t hash);                 // a distinct, nontrivial case
void sample(const std::string & s);
bool violated();

typedef std::function<void(Rng &, uint64_t idx)> CaseFn;
void reg(const std::string & prop, CaseFn fn);
struct Reg { Reg(const char * p, CaseFn f) { reg(p, f); } };

std::string q(const std::string & s); // printable
inline std::string q(char c) { return q(std::string(1, c)); }
std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));

// random pieces
long interesting_int(Rng & r, long lo, long hi);  // small, boundary, power-of-two and dictionary values
std::string random_bytes(Rng & r, size_t n, int cls);
std::string random_string(Rng & r, size_t maxlen);

int main_(int argc, char ** argv);
}
