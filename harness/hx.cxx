#include "hx.hxx"
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>

namespace hx {
Dict dict; uint64_t seed = 1; bool thorough = false; bool hostile = false; std::string scratch = "/nonexistent";

struct Shared { volatile uint64_t idx; volatile uint64_t len; char text[8192 - 16]; };
static Shared dummy; static Shared * sh = &dummy;
static std::string out_file, hash_file; static int nviol = 0; static std::string viols;
static std::map<std::string, uint64_t> counters; static uint64_t evals = 0;
static std::unordered_set<uint64_t> hashes; static std::vector<std::string> samples; static uint64_t cur_idx = 0;
static std::string inconc; static uint64_t done = 0; static bool complete = false;
static std::map<std::string, CaseFn> & table() { static std::map<std::string, CaseFn> t; return t; }
void reg(const std::string & p, CaseFn f) { table()[p] = f; }

static std::string js(const std::string & s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string q(const std::string & s) {
  std::string r = "\"";
  size_t n = 0;
  for (unsigned char c : s) {
    if (++n > 300) { r += "...(" + std::to_string(s.size()) + ")"; break; }
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string fmt(const char * f, ...) {
  char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
void desc(const std::string & s) {
  size_t n = std::min(s.size(), sizeof(sh->text));
  memcpy(sh->text, s.data(), n); sh->len = n;
}
void count(const char * n, uint64_t k) { counters[n] += k; }
void eval(uint64_t n) { evals += n; }
void nontrivial(uint64_t h) { if (hashes.size() < 400000) hashes.insert(h); }
void sample(const std::string & s) { if (samples.size() < 2) samples.push_back(s.substr(0, 1200)); }
bool violated() { return nviol > 0; }

static void flush() {
  if (out_file.empty()) return;
  std::ofstream o(out_file + ".tmp");
  o << "{\"done\":" << done << ",\"complete\":" << (complete ? "true" : "false") << ",\"evaluations\":" << evals
    << ",\"inconclusive\":" << js(inconc) << ",\"violations\":[" << viols << "],\"counters\":{";
  bool f = true;
  for (auto & c : counters) { if (!f) o << ","; f = false; o << js(c.first) << ":" << c.second; }
  o << "},\"samples\":["; f = true;
  for (auto & s : samples) { if (!f) o << ","; f = false; o << js(s); }
  o << "]}\n"; o.close();
  std::ofstream h(hash_file, std::ios::binary);
  for (auto x : hashes) h.write((const char *) &x, 8);
  h.close();
  rename((out_file + ".tmp").c_str(), out_file.c_str());
}
void violation(const std::string & key, const std::string & msg) {
  if (hostile) return;
  if (nviol++ < 5) {
    if (!viols.empty()) viols += ",";
    viols += "{\"key\":" + js(key) + ",\"case\":" + std::to_string(cur_idx) + ",\"msg\":" + js(msg.substr(0, 4000)) + "}";
    if (getenv("HX_VERBOSE")) fprintf(stderr, "VIOL case %lu %s: %s\n", (unsigned long) cur_idx, key.c_str(), msg.c_str());
  }
}
void fatal_violation(const std::string & key, const std::string & msg) {
  hostile = false; violation(key, msg); flush(); _exit(0);
}
void inconclusive(const std::string & msg) { inconc = msg; flush(); _exit(0); }

long interesting_int(Rng & r, long lo, long hi) {
  for (int k = 0; k < 4; k++) {
    long v;
    switch (r.below(6)) {
    case 0: case 1: v = lo + (long) r.below((uint64_t) std::min<long>(hi - lo + 1, 12)); break;
    case 2: { int b = (int) r.below(40); v = (1L << b) + r.range(-1, 1); break; }
    case 3: v = dict.ints.empty() ? 0 : r.pick(dict.ints) + r.range(-1, 1); break;
    case 4: { double x = r.unit(); v = lo + (long) ((double) (hi - lo) * x * x * x); break; }
    default: v = r.oneof<long>({10, 16, 20, 32, 60, 64, 72, 80, 99, 100, 127, 128, 200, 255, 256, 1000, 1024}) ; break;
    }
    if (v >= lo && v <= hi) return v;
  }
  return lo + (long) r.below((uint64_t)(hi - lo) + 1);
}
std::string random_bytes(Rng & r, size_t n, int cls) {
  std::string s; s.reserve(n);
  static const char punct[] = " %,=:-.\"'\\\t\n#0123456789aA_";
  for (size_t i = 0; i < n; i++) {
    switch (cls) {
    case 0: s += (char) ('a' + r.below(26)); break;
    case 1: s += (char) (32 + r.below(95)); break;
    case 2: s += (char) r.below(256); break;
    case 3: s += punct[r.below(sizeof(punct) - 1)]; break;
    default: s += r.chance(1, 2) ? ' ' : (char) ('a' + r.below(3)); break;
    }
  }
  return s;
}
std::string random_string(Rng & r, size_t maxlen) {
  if (r.chance(1, 12) && !dict.strs.empty()) return r.pick(dict.strs);
  size_t n = (size_t) interesting_int(r, 0, (long) (r.chance(1, 20) ? maxlen : std::min<size_t>(maxlen, 24)));
  return random_bytes(r, n, (int) r.below(5));
}

int main_(int argc, char ** argv) {
  std::string prop, progress, dictf; uint64_t from = 0, to = 100, stride = 1; 
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") prop = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--from") from = strtoull(v.c_str(), 0, 10); else if (a == "--to") to = strtoull(v.c_str(), 0, 10);
    else if (a == "--stride") stride = strtoull(v.c_str(), 0, 10);
    else if (a == "--out") { out_file = v; hash_file = v + ".hash"; } else if (a == "--progress") progress = v;
    else if (a == "--tier") thorough = (v == "thorough"); else if (a == "--dict") dictf = v;
    else if (a == "--scratch") scratch = v; else if (a == "--hostile") hostile = (v == "1");
  }
  if (!dictf.empty()) {
    std::ifstream d(dictf); std::string l;
    while (std::getline(d, l)) {
      if (l.size() < 2) continue;
      std::string v = l.substr(2), b;
      for (size_t i = 0; i + 1 < v.size(); i += 2) b += (char) strtol(v.substr(i, 2).c_str(), 0, 16);
      if (l[0] == 'i') dict.ints.push_back(strtol(b.c_str(), 0, 10));
      if (l[0] == 'd') dict.dbls.push_back(strtod(b.c_str(), 0));
      if (l[0] == 's') dict.strs.push_back(b);
      if (l[0] == 'c' && !b.empty()) dict.chars.push_back(b[0]);
    }
  }
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("progress"); return 3; }
    void * p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); return 3; }
    sh = (Shared *) p; close(fd);
  }
  auto it = table().find(prop);
  if (it == table().end()) { fprintf(stderr, "no such property here: %s\n", prop.c_str()); return 3; }
  uint64_t base = mix(seed * 1000003 + std::hash<std::string>()(prop));
  for (uint64_t i = from; i < to; i += stride) {
    cur_idx = i; sh->idx = i; sh->len = 0;
    Rng r(mix(base ^ mix(i)));
    // (an exception that nobody catches ends the process, and the driver reports that; hostile
    // arguments may end in any standard exception)
    if (hostile) { try { it->second(r, i); } catch (std::exception &) { count("standard_exceptions"); } eval(); nontrivial(mix(base ^ i)); }
    else it->second(r, i);
    done++;
    if (nviol >= 3) break;
  }
  complete = true;
  flush();
  return 0;
}
}
int main(int argc, char ** argv) { return hx::main_(argc, argv); }
