// What a text denotes as a value of a type: a value, none, or open (texts on which the
// properties are silent: trailing characters, infinities, denormal numbers, ...).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <string>
#include <type_traits>

namespace textval {
enum Verdict { VALID, INVALID, OPEN };
// ---- what a text means as a value of a type
inline size_t skip_ws(const std::string & s) { size_t i = 0; while (i < s.size() && isspace((unsigned char) s[i])) i++; return i; }
template <class T> typename std::enable_if<std::is_integral<T>::value, Verdict>::type read(const std::string & s, T & v) {
  size_t i = skip_ws(s); bool neg = false, sign = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; sign = true; i++; }
  size_t a = i; while (i < s.size() && isdigit((unsigned char) s[i])) i++;
  if (i == a) return INVALID;
  if (i != s.size()) return OPEN;
  __int128 x = 0; for (size_t j = a; j < i; j++) { x = x * 10 + (s[j] - '0'); if (x > ((__int128) 1 << 100)) return INVALID; }
  (void) sign; if (neg) { x = -x; if (std::is_unsigned<T>::value) return x == 0 ? OPEN : INVALID; }
  if (x < (__int128) std::numeric_limits<T>::min() || x > (__int128) std::numeric_limits<T>::max()) return INVALID;
  v = (T) x; return VALID;
}
template <class T> typename std::enable_if<std::is_floating_point<T>::value, Verdict>::type read(const std::string & s, T & v) {
  size_t i = skip_ws(s), a = i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
  size_t d = 0, b = i; bool nz = false; while (i < s.size() && isdigit((unsigned char) s[i])) { if (s[i] != '0') nz = true; i++; d++; }
  if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char) s[i])) { if (s[i] != '0') nz = true; i++; d++; } }
  if (!d) return i == s.size() || b == i ? (i < s.size() && (tolower(s[i]) == 'i' || tolower(s[i]) == 'n') ? OPEN : INVALID) : OPEN;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t e = i; while (i < s.size() && isdigit((unsigned char) s[i])) i++; if (e == i || i - e > 5) return OPEN; }
  if (i != s.size()) return OPEN;
  T x = sizeof(T) == 4 ? (T) strtof(s.c_str() + a, nullptr) : (T) strtod(s.c_str() + a, nullptr);
  if (std::isinf(x)) return INVALID;
  if (nz && (x == 0 || std::fpclassify(x) == FP_SUBNORMAL)) return OPEN;
  v = x; return VALID;
}
inline Verdict read(const std::string & s, char & v) { size_t i = skip_ws(s); if (i == s.size()) return INVALID; if (s.size() != 1) return OPEN; v = s[0]; return VALID; }
inline Verdict read(const std::string & s, unsigned char & v) { size_t i = skip_ws(s); if (i == s.size()) return INVALID; if (s.size() != 1 || s[0] == '-') return OPEN; v = (unsigned char) s[0]; return VALID; }
inline Verdict read(const std::string & s, std::string & v) { v = s; return VALID; }
inline Verdict read(const std::string & s, bool & v) {
  if (s.empty()) return OPEN;
  if (s[0] == 'T' || s[0] == 't') { v = true; return VALID; }
  if (s[0] == 'F' || s[0] == 'f') { v = false; return VALID; }
  int x = 0; Verdict r = read(s, x); v = x != 0; return r;
}
}
