// B01 B02 B03: the real Barrier under a controlled scheduler with virtual time, and under
// native threads.  Oracles judge the log of calls and returns.
#include "hx.hxx"
#include "vsched.hxx"
#include "Barrier.hxx"
#include <atomic>
#include <chrono>
#include <thread>
#include <memory>
#include <algorithm>
#include <unistd.h>
using namespace hx;

namespace {
enum How { NORMAL, TIMEOUT, CORRUPT, OTHER };
const char * how_name[] = {"normal", "Timeout", "Corrupt", "other"};
struct Call { int thr; unsigned long ms; int form; uint64_t cs, rs, ct, rt, cj, rj; How how; std::string what; bool returned; };
enum Form { F_DEFAULT, F_MS, F_CHRONO };

struct Scn {
  bool native = false; unsigned n = 2; int threads = 2; long tickets = 0; // 0: per-thread call counts
  std::vector<long> calls; std::vector<unsigned long> tmo; unsigned long maxdelay_us = 0; std::string name; vs::Config vc; bool late_callers = false;
  bool shared_ptr_drop = false;
};
const unsigned long DAY = 86400000ul;

struct World {
  Scn s; std::shared_ptr<SoDa::Barrier> b; std::atomic<uint64_t> sq{0}; std::atomic<long> tick{0};
  std::vector<std::vector<Call>> log; std::atomic<bool> broken{false};
  uint64_t now() { return s.native ? (uint64_t) std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count() : vs::now_ns(); }
};

void sleep_us(World & w, uint64_t us) { if (!us) return; if (w.s.native) ::usleep(us); else vs::sleep_ns(us * 1000); }

void do_wait(World & w, int t, unsigned long ms, int form, SoDa::Barrier & b) {
  Call c; c.thr = t; c.ms = ms; c.form = form; c.returned = false; c.how = OTHER;
  if (!w.s.native) vs::point();
  c.ct = w.now(); c.cj = vs::idle_jumps();
  c.cs = ++w.sq; c.rs = c.rt = c.rj = 0;
  w.log[t].push_back(c);
  Call & r = w.log[t].back();
  try {
    vs::Lib l;
    if (form == F_DEFAULT) b.wait();
    else if (form == F_MS) b.wait(ms);
    else b.wait(std::chrono::duration<long, std::milli>((long) ms));
    r.how = NORMAL;
  }
  catch (std::exception & e) {
    r.what = e.what();
    bool fam = dynamic_cast<SoDa::Barrier::Exception *>(&e) && dynamic_cast<SoDa::Exception *>(&e);
    if (fam && dynamic_cast<SoDa::Barrier::Timeout *>(&e)) r.how = TIMEOUT;
    else if (fam && dynamic_cast<SoDa::Barrier::Corrupt *>(&e)) r.how = CORRUPT;
  }
  catch (...) { r.what = "not a standard exception"; }
  r.rs = ++w.sq; r.rt = w.now(); r.rj = vs::idle_jumps(); r.returned = true;
  if (r.how != NORMAL) w.broken = true;
}

std::string describe(const Scn & s, bool with_seed = true) {
  std::string d = fmt("barrier '%s' N=%u threads=%d tickets=%ld %s strategy=%d mem_gap=%u spurious=%u jump=%u sched_seed=%lu delays<=%luus calls=[", s.name.c_str(), s.n, s.threads, s.tickets,
    s.native ? "native" : "controlled", s.vc.strategy, s.vc.mem_gap, s.vc.spurious, s.vc.jump, with_seed ? (unsigned long) s.vc.seed : 0ul, s.maxdelay_us);
  for (size_t i = 0; i < s.calls.size() && i < 12; i++) d += std::to_string(s.calls[i]) + " ";
  d += "] timeouts=[";
  for (size_t i = 0; i < s.tmo.size() && i < 12; i++) d += std::to_string(s.tmo[i]) + " ";
  return d + "]";
}
std::string show(const std::vector<Call> & all) {
  std::string d; int n = 0;
  for (auto & c : all) { if (++n > 40) { d += " ..."; break; }
    d += fmt(" T%d@%lu:wait(%lu)->%s@%lu[%.3fms]", c.thr, (unsigned long) c.cs, c.ms, c.returned ? how_name[c.how] : "(still inside)", (unsigned long) c.rs, c.returned ? (double) (c.rt - c.ct) / 1e6 : 0.0); }
  return d;
}

// run the scenario; false: it did not come to an end (only in B02/B03 judged by caller)
bool execute(World & w, Rng & r, const char * prop) {
  Scn & s = w.s;
  w.log.assign(s.threads, {});
  w.b = SoDa::makeBarrier(s.name, s.n);
  std::vector<std::function<void()>> fns;
  std::vector<uint64_t> seeds; for (int i = 0; i < s.threads; i++) seeds.push_back(r.next());
  for (int i = 0; i < s.threads; i++) {
    w.log[i].reserve(64);
    fns.push_back([&w, i, &seeds]() {
      Rng lr(seeds[i]); Scn & s = w.s;
      std::shared_ptr<SoDa::Barrier> b = w.b;
      for (long k = 0; s.tickets || k < s.calls[i]; k++) {
        if (s.maxdelay_us && lr.chance(1, 2)) sleep_us(w, lr.below(s.maxdelay_us + 1));
        if (s.tickets && w.tick.fetch_add(1) >= s.tickets) break;
        unsigned long ms = lr.pick(s.tmo);
        int form = ms == 0 ? lr.range(0, 2) : lr.range(1, 2);
        if (form == F_CHRONO && (long) ms < 0) form = F_MS;
        do_wait(w, i, ms, form, *b);
        if (!w.log[i].back().returned) break;
        if (w.log[i].back().how != NORMAL && !s.late_callers) break;
        if (w.broken && s.late_callers && k > s.calls[i] + 3) break;
      }
    });
  }
  std::string d = describe(s);
  desc(d); sample(d);
  vs::Outcome o{}; 
  if (s.native) {
    std::vector<std::thread> th; for (auto & f : fns) th.emplace_back(f);
    for (auto & t : th) t.join();
    o.result = vs::FINISHED; o.trace = r.next();
  } else {
    o = vs::run(s.vc, fns);
    count("scheduling_points", o.steps); count("context_switches", o.switches); count("preemptions_at_memory_accesses", o.mem_points);
    count("timeouts_fired", o.timeouts); count("spurious_wakeups", o.spurious); count("idle_time_jumps", o.idle_jumps);
  }
  size_t calls = 0; for (auto & l : w.log) calls += l.size();
  count("wait_calls", calls);
  count(s.native ? "native_executions" : "controlled_executions");
  eval();
  if (calls >= 2 && s.threads >= 2) { Hash h; h.add(describe(s, false)); h.add(o.trace); nontrivial(h.h); }
  if (o.result == vs::FINISHED) return true;
  std::vector<Call> all; for (auto & l : w.log) for (auto & c : l) all.push_back(c);
  std::sort(all.begin(), all.end(), [](const Call & a, const Call & b) { return a.cs < b.cs; });
  std::string why = o.result == vs::DEADLOCK ? "nothing can run any more" : o.result == vs::STEP_LIMIT ? "no end within the step limit" : "stall: " + o.info;
  if (o.result == vs::STALL) inconclusive(why + " " + d);
  std::reverse(all.begin(), all.end()); // the end matters
  fatal_violation(std::string(prop) + (o.result == vs::DEADLOCK ? ":blocked-forever" : ":no-progress"), why + ": " + o.info + "; " + d + "; latest first:" + show(all));
  return false;
}

std::vector<Call> merged(World & w) {
  std::vector<Call> all; for (auto & l : w.log) for (auto & c : l) all.push_back(c);
  std::sort(all.begin(), all.end(), [](const Call & a, const Call & b) { return a.cs < b.cs; });
  return all;
}

// at every normal return: returns so far <= N * complete groups of calls begun before the break
void check_early(World & w, const char * prop) {
  auto all = merged(w);
  struct Ev { uint64_t s; int kind; const Call * c; };
  std::vector<Ev> ev;
  for (auto & c : all) { ev.push_back({c.cs, 0, &c}); if (c.returned) ev.push_back({c.rs, 1, &c}); }
  std::sort(ev.begin(), ev.end(), [](const Ev & a, const Ev & b) { return a.s < b.s; });
  uint64_t begun = 0, ret = 0, n = w.s.n; bool broken = false;
  for (auto & e : ev) {
    if (e.kind == 0) { if (!broken) begun++; }
    else if (e.c->how == NORMAL) {
      ret++;
      if (ret > n * (begun / n)) {
        violation(std::string(prop) + ":early", fmt("thread %d returned from wait (event %lu) as normal return number %lu, but only %lu calls had arrived, %lu complete groups of %lu; ", e.c->thr, (unsigned long) e.s, (unsigned long) ret, (unsigned long) begun, (unsigned long) (begun / n), (unsigned long) n) + describe(w.s) + show(all));
        return;
      }
    }
    else if (e.c->how == TIMEOUT || e.c->how == CORRUPT) broken = true;
  }
  count("normal_returns", ret);
  if (ret % n) violation(std::string(prop) + ":incomplete-group", fmt("%lu normal returns altogether, not a multiple of %lu; ", (unsigned long) ret, (unsigned long) n) + describe(w.s) + show(all));
}

// A released waiter stays asleep while others take the barrier through exactly k-1 more generations.
void late_sleeper(World & w, Rng & r, const char * prop) {
  Scn & s = w.s; long k = r.oneof<long>({1, 2, 255, 256, 257, 512, 65535, 65536, 65536, 65537});
  if (r.chance(1, 3)) for (int t = 0; t < 8; t++) { long v = dict.ints.empty() ? 1 : r.pick(dict.ints) + r.range(-1, 1); if (v > 0 && v < 100000) { k = v; break; } }
  s.native = false; s.n = 2; s.threads = 3; s.tmo = {0}; s.calls = {1, k, k - 1};
  s.vc = vs::Config(); s.vc.seed = r.next(); s.vc.strategy = r.oneof({0, 1}); s.vc.max_steps = 1000000 + k * 400;
  w.log.assign(3, {}); w.b = SoDa::makeBarrier(s.name, 2);
  std::string d = describe(s) + fmt(" late sleeper over %ld generations", k); desc(d);
  bool go = false;
  std::vector<std::function<void()>> f;
  f.push_back([&]() { do_wait(w, 0, 0, F_DEFAULT, *w.b); });
  bool skip = false;
  f.push_back([&]() { for (int j = 0; j < 20000 && !vs::blocked(0); j++) vs::point();
    skip = !vs::blocked(0); if (!skip) vs::freeze(0, true); // (it may wait in another way than on a condition variable)
    do_wait(w, 1, 0, F_DEFAULT, *w.b); go = true;
    for (long i = 1; i < k && !skip; i++) do_wait(w, 1, 0, F_DEFAULT, *w.b); vs::freeze(0, false); });
  f.push_back([&]() { while (!go) vs::point(); for (long i = 1; i < k && !skip; i++) do_wait(w, 2, 0, F_DEFAULT, *w.b); });
  vs::Outcome o = vs::run(s.vc, f);
  count("late_sleeper_executions"); count("controlled_executions"); count("scheduling_points", o.steps); count("context_switches", o.switches); eval(); nontrivial(o.trace ^ (uint64_t) k);
  if (o.result == vs::STALL) inconclusive(o.info + d);
  if (o.result != vs::FINISHED) fatal_violation(std::string(prop) + ":late-sleeper", "a waiter of a complete group that slept through later generations never returned: " + o.info + "; " + d);
  for (auto & c : merged(w)) if (c.how != NORMAL) { violation(std::string(prop) + ":late-sleeper", fmt("thread %d of a complete group got %s (%s); ", c.thr, how_name[c.how], c.what.c_str()) + d); return; }
}

// Some waiters of a complete group stay asleep while the next group comes to grief.
void sleepers_and_break(World & w, Rng & r) {
  Scn & s = w.s; s.native = false; s.n = (unsigned) r.range(2, 7); s.threads = (int) s.n; s.tmo = {1 + r.below(5000)}; s.calls.assign(s.threads, 2);
  s.vc = vs::Config(); s.vc.seed = r.next(); s.vc.strategy = r.oneof({0, 1}); s.vc.mem_gap = r.oneof<unsigned>({0, 5, 20}); s.vc.max_steps = 1000000;
  w.log.assign(s.threads, {}); w.b = SoDa::makeBarrier(s.name, s.n); int n = s.threads; long rounds = r.below(3);
  std::vector<bool> sleepy(n, false); int k = r.range(1, n - 1); for (int i = 0; i < k; i++) sleepy[i] = true; // the last thread is the last to arrive
  std::string d = describe(s) + fmt(" after %ld rounds %d of %d released waiters stay asleep until the next group is broken", rounds, k, n); desc(d);
  std::atomic<int> before(0);
  std::vector<std::function<void()>> f;
  for (int i = 0; i < n; i++) f.push_back([&, i]() {
    for (long j = 0; j < rounds; j++) do_wait(w, i, 0, F_DEFAULT, *w.b);
    ++before; while (before < n) vs::point();
    if (i < n - 1) { do_wait(w, i, 0, F_DEFAULT, *w.b); if (!sleepy[i]) do_wait(w, i, 1 + s.tmo[0], F_MS, *w.b); return; }
    bool all = false; for (int q = 0; q < 20000 && !all; q++) { all = true; for (int j = 0; j < n - 1; j++) all = all && vs::blocked(j); if (!all) vs::point(); }
    for (int j = 0; j < n - 1; j++) if (all && sleepy[j]) vs::freeze(j, true); // (else they wait in another way than on a condition variable)
    do_wait(w, i, 0, F_DEFAULT, *w.b); do_wait(w, i, s.tmo[0], F_MS, *w.b);
    for (int j = 0; j < n - 1; j++) vs::freeze(j, false);
  });
  vs::Outcome o = vs::run(s.vc, f);
  count("sleepers_and_break_executions"); count("controlled_executions"); count("scheduling_points", o.steps); count("context_switches", o.switches); eval(); nontrivial(o.trace ^ (uint64_t) k * 31 ^ (uint64_t) n << 32);
  if (o.result == vs::STALL) inconclusive(o.info + d);
  if (o.result != vs::FINISHED) fatal_violation("B02:sleepers", "no end: " + o.info + "; " + d + show(merged(w)));
  for (auto & l : w.log) for (size_t j = 0; j < l.size(); j++) if (((long) j <= rounds) != (l[j].how == NORMAL)) { violation("B02:sleepers", fmt("call %zu of thread %d, of %s group, got %s (%s); ", j, l[j].thr, (long) j <= rounds ? "a complete" : "an incomplete", how_name[l[j].how], l[j].what.c_str()) + d + show(merged(w))); return; }
}

void pick_sched(Rng & r, Scn & s) {
  s.vc.seed = r.next(); s.vc.strategy = r.oneof({0, 0, 1, 1, 2, 2, 3, 4});
  s.vc.mem_gap = r.oneof<unsigned>({0, 2, 5, 5, 20, 20, 100});
  s.vc.spurious = r.oneof<unsigned>({0, 0, 0, 5, 40});
  long total = 0; if (s.tickets) total = s.tickets; else for (auto c : s.calls) total += c;
  s.vc.est_len = 20 + (unsigned) std::min<long>(total * 12, 100000);
  s.vc.max_steps = 300000 + (uint64_t) total * 2000 * (s.n > 16 && s.n < 2000 ? s.n / 8 : 1) + (uint64_t) s.threads * 20000;
}
std::string bname(Rng & r) { return r.oneof<std::string>({"bar", "Loop barrier", "b%0x", "x", "Barrier_\xc3\xa9", "a-much-longer-barrier-name-than-the-small-string-buffer"}); }
unsigned pickN(Rng & r, unsigned mx) {
  if (r.chance(1, 25)) return (unsigned) interesting_int(r, 2, mx);
  return (unsigned) r.oneof({1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8});
}
// sizes no test has threads for: a handful of callers can never be a group of so many
unsigned wideN(Rng & r) {
  if (!dict.ints.empty() && r.chance(1, 4)) { long v = r.pick(dict.ints) + r.range(-1, 3); if (v > 8 && v <= 0xffffffffl) return (unsigned) v; }
  unsigned long base = 1ul << r.oneof({4, 5, 6, 7, 8, 8, 8, 10, 12, 15, 16, 16, 16, 16, 17, 20, 24, 30, 31, 31});
  if (r.chance(1, 3)) base *= r.range(1, 9);
  unsigned long v = (base + (unsigned long) r.range(0, 6) - 1) & 0xfffffffful; if (r.chance(1, 20)) v = 0xfffffffful - r.below(4);
  return v < 9 ? 9 : (unsigned) v;
}
const std::vector<unsigned long> HUGE_T = {0, 0, 1000 * DAY, 1000 * DAY + 1, 999 * DAY, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x8000000000000000ull, 9223372036854ul, 9223372036855ul, 9223372036854775ul, 9223372036855ul * 1000, 4611686018427387904ul};
const std::vector<unsigned long> BIG_T = {0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100000064ull, 0x1000000000ull, 4294968296ul, 2147484ul * 1000, 4294968ul * 1000, 50 * DAY, 100 * DAY};

// ------------------------------------------------------------ B01
void b01(Rng & r, uint64_t idx) {
  World w; Scn & s = w.s; s.name = bname(r);
  s.native = idx % 64 == 63;
  s.n = pickN(r, s.native ? 48 : 40);
  int kind = r.range(0, 3);
  s.threads = kind == 0 ? (int) s.n : kind == 1 ? (int) s.n + r.range(1, 3) : kind == 2 ? std::max(1, (int) s.n - r.range(0, 2)) : r.range(1, 8);
  bool quiet = r.chance(1, 2);  // no timeouts expire
  long rounds = r.chance(1, 20) ? r.range(20, 120) : r.range(1, 6);
  if (s.native) rounds = r.range(20, 200);
  if (quiet) { // complete groups only
    s.threads = std::max<int>(s.threads, s.n); s.tickets = rounds * (long) s.n; s.tmo = {0, 0, 1000 * DAY};
  } else {
    s.tmo.clear(); for (int i = 0; i < 4; i++) s.tmo.push_back(s.native ? 1 + r.below(20) : 1 + r.below(r.oneof<unsigned long>({3, 50, 5000})));
    if (!s.native && r.chance(1, 3)) s.tmo.push_back(0);
    for (int i = 0; i < s.threads; i++) s.calls.push_back(1 + r.below(rounds));
    s.late_callers = r.chance(1, 2);
  }
  s.maxdelay_us = s.native ? r.oneof<unsigned long>({0, 0, 50, 2000}) : r.oneof<unsigned long>({0, 0, 1, 1000, 100000});
  if (!s.native && !quiet && r.chance(1, 8)) { s.n = wideN(r); s.threads = r.range(1, 6); s.calls.clear(); for (int i = 0; i < s.threads; i++) s.calls.push_back(1 + r.below(3)); count("wide_barriers"); }
  if (idx % 100 == 50) { // big groups, one or a few callers short (or beyond)
    s.native = false; s.n = (unsigned) interesting_int(r, 33, idx % 1000 == 50 ? 600 : 140); s.threads = (int) s.n + r.range(-3, 2); s.late_callers = false; s.maxdelay_us = 0;
    s.tickets = 0; s.calls.assign(s.threads, 1); s.tmo = {1 + r.below(5000), 0, 1000}; quiet = false; count("big_groups");
  }
  bool longlife = idx % 400 == 77;
  if (longlife) { // a barrier that has seen many rounds, and then an incomplete group
    s.native = false; s.n = (unsigned) r.range(2, 4); s.threads = (int) s.n + r.range(0, 1); s.calls.clear(); s.maxdelay_us = 0; s.late_callers = false;
    long rounds = r.chance(1, 4) ? r.oneof<long>({255, 256, 1000, 1024, 4096, 65535, 65536, 65537}) : interesting_int(r, 100, 12000); if (rounds < 1) rounds = 1; if (idx == 77) rounds = 140000; // (the stable tests go to 100000)
    s.tickets = rounds * (long) s.n + r.range(1, (int) s.n - 1); s.tmo = {1 + r.below(5000), 1 + r.below(100), 2000}; quiet = false; count("long_lives"); count("rounds_of_long_lives", rounds);
  }
  pick_sched(r, s);
  s.vc.jump = quiet ? 0 : r.oneof<unsigned>({0, 5, 50});
  if (longlife) { s.vc.jump = 0; s.vc.mem_gap = 0; s.vc.spurious = 0; if (s.vc.strategy > 1) s.vc.strategy = r.oneof({0, 1}); }
  execute(w, r, "B01");
  check_early(w, "B01");
}
Reg rb01("B01", b01);

// ------------------------------------------------------------ B02
void b02(Rng & r, uint64_t idx) {
  World w; Scn & s = w.s; s.name = bname(r);
  if (idx % 250 == 7) { late_sleeper(w, r, "B02"); return; }
  if (idx % 40 == 9) { sleepers_and_break(w, r); return; }
  if (idx % 8 == 5) { // complete groups, then an incomplete one that breaks: nobody of a complete group may notice
    s.n = pickN(r, 40); s.threads = std::max(1, (int) s.n + r.range(-1, 3)); long extra = s.n > 1 ? r.range(0, (int) s.n - 1) : 0; s.tickets = r.range(1, 6) * (long) s.n + extra;
    for (int i = 0; i < 3; i++) s.tmo.push_back(1 + r.below(r.oneof<unsigned long>({3, 50, 5000}))); if (r.chance(1, 2)) s.tmo.push_back(0);
    if (r.chance(1, 2)) s.maxdelay_us = r.oneof<unsigned long>({1, 1000, 100000});
    pick_sched(r, s); s.vc.jump = r.oneof<unsigned>({0, 5, 50}); s.late_callers = false;
    execute(w, r, "B02"); check_early(w, "B02"); count("executions_ending_in_a_break"); return;
  }
  s.native = idx % 64 == 63 || idx == 0;
  s.n = pickN(r, 128);
  s.threads = (int) s.n + (r.chance(1, 3) ? r.range(1, 3) : 0);
  long rounds = r.chance(1, 20) ? interesting_int(r, 20, 300) : r.range(1, 8);
  if (s.n > 16) rounds = r.range(1, 4);
  if (s.native) rounds = s.n > 16 ? 100 : r.range(50, 1000);
  s.maxdelay_us = s.native ? r.oneof<unsigned long>({0, 0, 0, 50, 500}) : r.oneof<unsigned long>({0, 0, 0, 1, 1000, 100000, 10000000ul, 3600000000ul, 10 * DAY * 1000});
  if (idx == 0) { s.n = 2; s.threads = 2; rounds = thorough ? 400000 : 140000; s.maxdelay_us = 0; }
  if (idx == 3) { s.native = false; s.n = 300; s.threads = 300; rounds = 1; s.maxdelay_us = 0; }
  s.tickets = rounds * (long) s.n;
  int tk = r.range(0, 3);
  unsigned long need = 2 * (s.maxdelay_us / 1000) + 10000; // far more than any arrival can be late
  if (tk == 0) s.tmo = {0};
  else if (tk == 1) { s.tmo = {0}; for (int i = 0; i < 4; i++) s.tmo.push_back(r.pick(HUGE_T)); }
  else if (tk == 2) { for (int i = 0; i < 4; i++) s.tmo.push_back(need + r.below(100000)); }
  else { s.tmo = {0}; for (auto b : BIG_T) if (b >= need) s.tmo.push_back(b); for (auto i : dict.ints) if ((unsigned long) i >= need) s.tmo.push_back(i); }
  if (s.native && tk == 2) s.tmo = {600000, 900000};
  pick_sched(r, s);
  s.vc.jump = 0;
  execute(w, r, "B02");
  auto all = merged(w);
  for (auto & c : all) {
    if (!c.returned) { violation("B02:stuck", "a call never returned; " + describe(s) + show(all)); return; }
    if (c.how != NORMAL) { violation(std::string("B02:") + how_name[c.how], fmt("thread %d: wait(%lu) of a complete group ended with %s (%s) after %.3f ms; ", c.thr, c.ms, how_name[c.how], c.what.c_str(), (double) (c.rt - c.ct) / 1e6) + describe(s) + show(all)); return; }
  }
  count("complete_groups", all.size() / s.n);
}
Reg rb02("B02", b02);

// ------------------------------------------------------------ B03
void b03(Rng & r, uint64_t idx) {
  World w; Scn & s = w.s; s.name = bname(r);
  s.native = idx % 100 == 99;
  s.n = pickN(r, 40); if (s.n < 2) s.n = 2;
  bool wide = !s.native && r.chance(1, 10); if (wide) { s.n = wideN(r); count("wide_barriers"); }
  s.threads = wide ? r.range(1, 7) : r.chance(1, 3) ? (int) s.n + r.range(0, 2) : r.range(1, std::max(1, (int) s.n - 1));
  s.late_callers = r.chance(2, 3);
  for (int i = 0; i < s.threads; i++) s.calls.push_back(r.range(1, 3));
  int tk = r.range(0, 3);
  if (s.native) { for (int i = 0; i < 3; i++) s.tmo.push_back(5 + r.below(40)); s.maxdelay_us = r.oneof<unsigned long>({0, 1000, 20000}); }
  else {
    if (tk == 0) for (int i = 0; i < 4; i++) s.tmo.push_back(1 + r.below(r.oneof<unsigned long>({2, 20, 10000})));
    else if (tk == 1) { s.tmo = {1 + r.below(1000), 0, r.pick(HUGE_T)}; }
    else if (tk == 2) { s.tmo = {r.pick(BIG_T), r.pick(BIG_T), 1 + r.below(5000)}; }
    else { s.tmo = {r.pick(HUGE_T), 0, r.pick(BIG_T)}; if (!dict.ints.empty()) { long v = r.pick(dict.ints); if (v > 0) s.tmo.push_back(v); } }
    s.maxdelay_us = r.oneof<unsigned long>({0, 0, 100, 5000, 200000, 20000000});
  }
  pick_sched(r, s);
  s.vc.jump = r.oneof<unsigned>({0, 0, 10, 60});
  execute(w, r, "B03");
  check_early(w, "B03");
  auto all = merged(w);
  // virtual time passes only while everybody sleeps: whoever waits must be back when the own timeout is over
  if (!s.native && !s.vc.jump) for (auto & c : all) if (c.ms > 0 && c.ms <= 365 * DAY) {
    count("waits_checked_for_lateness");
    if (c.rt > c.ct + c.ms * 1000000ull + 50000000ull) { violation("B03:late", fmt("thread %d came back from wait(%lu) after %.3f ms with %s; ", c.thr, c.ms, (double) (c.rt - c.ct) / 1e6, how_name[c.how]) + describe(s) + show(all)); return; }
  }
  const Call * tmo = nullptr; long ntmo = 0, ncor = 0, nnorm = 0;
  for (auto & c : all) {
    if (c.how == TIMEOUT) { ntmo++; if (!tmo) tmo = &c; }
    if (c.how == CORRUPT) ncor++;
    if (c.how == NORMAL) nnorm++;
    if (c.how == OTHER) { violation("B03:wrong-exception", fmt("thread %d got '%s', which is not one of the barrier's exceptions (or not of its exception family); ", c.thr, c.what.c_str()) + describe(s) + show(all)); return; }
    if (c.how != NORMAL && c.what.find(s.name) == std::string::npos) { violation("B03:name", fmt("'%s' does not name barrier '%s'", c.what.c_str(), s.name.c_str())); return; }
  }
  count("timeouts_thrown", ntmo); count("corrupts_thrown", ncor);
  if (ntmo > 1) { violation("B03:two-timeouts", fmt("%ld callers got Timeout; ", ntmo) + describe(s) + show(all)); return; }
  if (ncor && !ntmo) { violation("B03:corrupt-without-timeout", describe(s) + show(all)); return; }
  if ((long) all.size() != nnorm && !ntmo) { violation("B03:no-timeout", describe(s) + show(all)); return; }
  if (!tmo) return;
  uint64_t waited_ms = (tmo->rt - tmo->ct) / 1000000, wanted = tmo->ms == 0 ? 365 * DAY : std::min<uint64_t>(tmo->ms, 365 * DAY);
  if (tmo->rt - tmo->ct < wanted * 1000000ull) { violation("B03:too-soon", fmt("Timeout after %.6f ms from wait(%lu), wanted at least %lu; ", (double) (tmo->rt - tmo->ct) / 1e6, tmo->ms, (unsigned long) wanted) + describe(s) + show(all)); return; }
  (void) waited_ms;
  for (auto & c : all) {
    if (&c == tmo) continue;
    if (c.cs > tmo->rs && c.how != CORRUPT) { violation("B03:later-caller", fmt("thread %d called wait after the barrier had broken and got %s; ", c.thr, how_name[c.how]) + describe(s) + show(all)); return; }
    if (!s.native && c.how == CORRUPT) {
      uint64_t j0 = std::max(tmo->rj, c.cj);
      if (c.rj > j0) { violation("B03:not-prompt", fmt("thread %d got Corrupt only after time had to pass (%.3f ms after the timeout); ", c.thr, ((double) c.rt - (double) tmo->rt) / 1e6) + describe(s) + show(all)); return; }
    }
  }
}
Reg rb03("B03", b03);
}
