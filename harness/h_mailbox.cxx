// M01-M05: the real MailBox under the controlled scheduler, under native threads and in long
// sequential histories.
#include "hx.hxx"
#include "vsched.hxx"
#include "MailBox.hxx"
#include <algorithm>
#include <atomic>
#include <deque>
#include <memory>
#include <thread>
#include <unordered_map>
using namespace hx;

namespace {
std::atomic<long> live_msgs{0};
struct Msg {
  static const uint64_t ALIVE = 0x5afe5afe12345678ull;
  int id; uint64_t canary; std::string text;
  explicit Msg(int id) : id(id), canary(ALIVE ^ (uint64_t) id), text("message " + std::to_string(id)) { live_msgs++; }
  Msg(const Msg & m) : id(m.id), canary(m.canary), text(m.text) { live_msgs++; }
  ~Msg() { canary = 0xdead; live_msgs--; }
  bool ok() const { return canary == (ALIVE ^ (uint64_t) id) && text == "message " + std::to_string(id); }
};
typedef SoDa::MailBox<Msg> Box;
enum Kind { PUT, PUTNE, GET, COUNT, CLEAR, SUB, END, MINC, SUBC, NKINDS };
const char * kname[] = {"put", "put-noecho", "get", "readyCount", "clear", "subscribe", "end", "minReadyCount", "subscriberCount"};
struct Op { int thr; Kind k; int sub; int msg; long res; uint64_t cs, rs; };

std::string show(const Op & o) {
  std::string s = fmt("T%d[%lu,%lu]%s", o.thr, (unsigned long) o.cs, (unsigned long) o.rs, kname[o.k]);
  if (o.sub >= 0) s += fmt(" s%d", o.sub);
  if (o.msg >= 0) s += fmt(" m%d", o.msg);
  if (o.k == GET || o.k >= MINC || o.k == COUNT) s += fmt(" -> %ld", o.res);
  return s;
}
std::string show(std::vector<Op> v, size_t max = 60) {
  std::sort(v.begin(), v.end(), [](const Op & a, const Op & b) { return a.cs < b.cs; });
  std::string s; if (v.size() > max) { s = fmt("(%zu operations) ... ", v.size()); v.erase(v.begin(), v.end() - max); }
  for (auto & o : v) s += show(o) + "; ";
  return s;
}

struct Cfg { int threads = 2; int ops = 5; int subs_before = 1; int w[NKINDS]; bool shared_subs = false; int repeat = 0; int prefill = 0; bool native = false; vs::Config vc; };
std::string describe(const Cfg & c, bool with_seed = true) {
  std::string s = fmt("threads=%d ops=%d subs=%d shared=%d repeat=%d prefill=%d %s strategy=%d mem_gap=%u sched_seed=%lu weights=", c.threads, c.ops, c.subs_before, (int) c.shared_subs, c.repeat, c.prefill, c.native ? "native" : "controlled", c.vc.strategy, c.vc.mem_gap, with_seed ? (unsigned long) c.vc.seed : 0ul);
  for (int i = 0; i < NKINDS; i++) s += fmt("%d,", c.w[i]);
  return s;
}

struct Slot { Box::Subscription s; int id; };
struct World {
  Cfg c; std::shared_ptr<Box> mb; std::atomic<uint64_t> sq{0}; std::atomic<int> nsub{0}, nmsg{0};
  std::vector<std::vector<Op>> log; std::vector<std::deque<Slot>> own; std::deque<Slot> common;
  std::vector<std::weak_ptr<Msg>> weak; // controlled only
  std::atomic<int> bad_payload{0}; std::string bad;
  int log_idx(int t) { return t; }
};

struct Call { World & w; Op o; std::vector<Op> & l;
  Call(World & w, int t, Kind k, int sub, int msg) : w(w), l(w.log[t]) { o.thr = t; o.k = k; o.sub = sub; o.msg = msg; o.res = 0; o.rs = 0; o.cs = ++w.sq; }
  void done(long res) { o.res = res; o.rs = ++w.sq; l.push_back(o); } };

void unexpected(World & w, const char * what, const std::string & e) {
  if (!w.bad_payload++) w.bad = std::string(what) + " threw " + e;
}

void do_op(World & w, int t, Kind k, Slot * s, std::shared_ptr<Msg> m) {
  if (!w.c.native) vs::point();
  Call c(w, t, k, s ? s->id : -1, m ? m->id : -1);
  long res = -1;
  try {
    switch (k) {
    case PUT: { vs::Lib l; w.mb->put(m); break; }
    case PUTNE: { vs::Lib l; w.mb->put(m, s->s); break; }
    case GET: { std::shared_ptr<Msg> g; { vs::Lib l; g = w.mb->get(s->s); }
      if (g) { res = g->id; if (!g->ok()) { if (!w.bad_payload++) w.bad = fmt("message %d received with corrupted contents", g->id); } } break; }
    case COUNT: { vs::Lib l; res = w.mb->readyCount(s->s); break; }
    case CLEAR: { vs::Lib l; w.mb->clear(s->s); break; }
    case MINC: { vs::Lib l; res = w.mb->minReadyCount(); break; }
    case SUBC: { vs::Lib l; res = w.mb->subscriberCount(); break; }
    case END: { vs::Lib l; s->s.reset(); break; }
    default: break;
    }
  } catch (std::exception & e) { unexpected(w, kname[k], e.what()); }
  c.done(res);
}
void do_sub(World & w, int t, std::deque<Slot> & where) {
  if (!w.c.native) vs::point();
  int id = w.nsub++;
  Call c(w, t, SUB, id, -1);
  Box::Subscription s;
  try { vs::Lib l; s = w.mb->subscribe(); } catch (std::exception & e) { unexpected(w, "subscribe", e.what()); }
  c.done(0);
  where.push_back(Slot{std::move(s), id});
}

Kind pick_kind(Rng & r, const Cfg & c) {
  int tot = 0; for (int i = 0; i < NKINDS; i++) tot += c.w[i];
  int x = (int) r.below(tot);
  for (int i = 0; i < NKINDS; i++) { if (x < c.w[i]) return (Kind) i; x -= c.w[i]; }
  return GET;
}
void thread_prog(World & w, int t, uint64_t seed) {
  Rng r(seed); Cfg & c = w.c; std::shared_ptr<Msg> last;
  for (int i = 0; i < c.ops; i++) {
    Kind k = pick_kind(r, c); Slot * s = nullptr;
    auto & own = w.own[t];
    if (k == PUTNE || k == GET || k == COUNT || k == CLEAR || k == END) {
      size_t n = own.size() + (k == END ? 0 : w.common.size());
      if (n == 0) k = k == PUTNE ? PUT : c.w[SUB] ? SUB : SUBC;
      else { size_t x = r.below(n); s = x < own.size() ? &own[x] : &w.common[x - own.size()]; if (!s->s) continue; }
    }
    if (k == SUB) { do_sub(w, t, own); continue; }
    std::shared_ptr<Msg> m;
    if (k == PUT || k == PUTNE) {
      if (last && c.repeat && r.chance(c.repeat, 10)) m = last;
      else { m = std::make_shared<Msg>(w.nmsg++); last = m; }
    }
    do_op(w, t, k, s, m);
    if (k == END) { size_t j = 0; while (&own[j] != s) j++; own.erase(own.begin() + j); }
    if (c.native && r.chance(1, 8)) std::this_thread::yield();
  }
}

struct Outcome { std::vector<Op> ops; std::map<int, std::vector<int>> drained; std::vector<int> minc; };

bool setup_and_run(World & w, Rng & r, const char * prop) {
  Cfg & c = w.c; const int T = c.threads; // log index T: the main thread (before and after)
  w.log.assign(T + 1, {}); w.own.resize(T);
  w.mb = SoDa::makeMailBox<Msg>("box");
  std::string d = describe(c); desc(d); sample(d);
  for (int i = 0; i < c.subs_before; i++) {
    if (c.shared_subs) do_sub(w, T, w.common); else do_sub(w, T, w.own[i % T]);
  }
  for (int i = 0; i < c.prefill; i++) do_op(w, T, PUT, nullptr, std::make_shared<Msg>(w.nmsg++));
  std::vector<std::function<void()>> f; std::vector<uint64_t> seeds;
  for (int i = 0; i < T; i++) seeds.push_back(r.next());
  for (int i = 0; i < T; i++) f.push_back([&w, i, &seeds]() { thread_prog(w, i, seeds[i]); });
  uint64_t trace = r.next();
  if (c.native) {
    std::vector<std::thread> th; for (auto & x : f) th.emplace_back(x); for (auto & x : th) x.join();
    count("native_executions");
  } else {
    vs::Outcome o = vs::run(c.vc, f);
    count("controlled_executions"); count("scheduling_points", o.steps); count("context_switches", o.switches); count("preemptions_at_memory_accesses", o.mem_points);
    trace = o.trace;
    if (o.result == vs::STALL) inconclusive(o.info + " " + d);
    if (o.result != vs::FINISHED) { std::vector<Op> all; for (auto & l : w.log) all.insert(all.end(), l.begin(), l.end()); fatal_violation(std::string(prop) + ":blocked", "mailbox operations did not finish: " + o.info + "; " + d + "; finished operations: " + show(all)); }
  }
  eval();
  size_t n = 0; for (auto & l : w.log) n += l.size(); count("mailbox_operations", n);
  Hash h; h.add(describe(c, false)); h.add(trace); if (n > 3) nontrivial(h.h);
  if (w.bad_payload) { violation(std::string(prop) + ":unexpected", w.bad + "; " + d); return false; }
  return true;
}
std::vector<Op> all_ops(World & w) { std::vector<Op> a; for (auto & l : w.log) a.insert(a.end(), l.begin(), l.end()); std::sort(a.begin(), a.end(), [](const Op & x, const Op & y) { return x.cs < y.cs; }); return a; }
void drain(World & w) { // after the threads are done: every living subscription reads all it has
  int T = w.c.threads;
  auto one = [&](Slot & s) { if (!s.s) return; for (long i = 0; ; i++) { do_op(w, T, GET, &s, nullptr); if (w.log[T].back().res < 0) break; if (i > (long) w.sq) break; } };
  for (auto & q : w.own) for (auto & s : q) one(s);
  for (auto & s : w.common) one(s);
}

void sched(Rng & r, Cfg & c) {
  c.vc.seed = r.next(); c.vc.strategy = r.oneof({0, 0, 1, 1, 2, 2, 3, 4}); c.vc.mem_gap = r.oneof<unsigned>({0, 3, 10, 10, 40, 200});
  c.vc.est_len = 10 + c.threads * c.ops * 5; c.vc.max_steps = 200000 + (uint64_t) c.threads * c.ops * 4000;
}

// ---- delivery (exactly once, no-echo)
struct SubInfo { uint64_t cs = 0, rs = 0, ecs = 0, ers = 0; std::vector<std::pair<uint64_t, uint64_t>> clears; std::vector<const Op *> got; };
void check_delivery(World & w, const char * prop, bool judge_noecho) {
  auto ops = all_ops(w);
  std::map<int, SubInfo> subs; std::map<int, std::vector<const Op *>> puts;
  for (auto & o : ops) {
    if (o.k == SUB) { subs[o.sub].cs = o.cs; subs[o.sub].rs = o.rs; }
    if (o.k == END) { subs[o.sub].ecs = o.cs; subs[o.sub].ers = o.rs; }
    if (o.k == CLEAR) subs[o.sub].clears.push_back({o.cs, o.rs});
    if (o.k == GET && o.res >= 0) subs[o.sub].got.push_back(&o);
    if (o.k == PUT || o.k == PUTNE) puts[o.msg].push_back(&o);
  }
  long pairs = 0;
  for (auto & sk : subs) {
    int sid = sk.first; SubInfo & s = sk.second;
    std::map<int, std::vector<const Op *>> got;
    for (auto g : s.got) got[(int) g->res].push_back(g);
    for (auto & g : got) if (!puts.count(g.first)) { violation(std::string(prop) + ":invented", fmt("subscription %d received message %d which nobody put; ", sid, g.first) + describe(w.c) + "; " + show(ops)); return; }
    for (auto & p : puts) {
      long may = 0, must = 0; bool ne = false; pairs++;
      for (auto x : p.second) {
        if (x->k == PUTNE && x->sub == sid) { ne = true; if (!judge_noecho) may++; continue; }
        if (x->rs < s.cs) continue;
        if (s.ers && x->cs > s.ers) continue;
        may++;
        bool sure = x->cs > s.rs && !s.ecs;
        for (auto & c : s.clears) if (x->cs < c.second) sure = false;
        if (sure) must++;
      }
      auto it = got.find(p.first); long n = it == got.end() ? 0 : (long) it->second.size();
      if (n > may) { violation(std::string(prop) + (ne && may == 0 ? ":echoed" : n > 1 && may >= 1 ? ":duplicated" : ":not-owed"), fmt("subscription %d received message %d %ld times, at most %ld allowed; ", sid, p.first, n, may) + describe(w.c) + "; " + show(ops)); return; }
      if (n < must) { violation(std::string(prop) + ":lost", fmt("subscription %d received message %d %ld times, must receive it %ld times; ", sid, p.first, n, must) + describe(w.c) + "; " + show(ops)); return; }
      if (n && p.second.size() == 1) for (auto g : it->second) {
        if (g->rs < p.second[0]->cs) { violation(std::string(prop) + ":before-put", describe(w.c) + "; " + show(ops)); return; }
        for (auto & c : s.clears) if (p.second[0]->rs < c.first && g->cs > c.second) { violation(std::string(prop) + ":after-clear", fmt("subscription %d received message %d after it was cleared; ", sid, p.first) + describe(w.c) + "; " + show(ops)); return; }
      }
    }
  }
  count("subscription_message_pairs_checked", pairs);
}
void check_order(World & w, const char * prop) {
  auto ops = all_ops(w);
  std::map<int, const Op *> put; std::map<int, int> nput; std::map<int, std::vector<int>> seqs;
  for (auto & o : ops) {
    if (o.k == PUT || o.k == PUTNE) { nput[o.msg]++; put[o.msg] = &o; }
    if (o.k == GET && o.res >= 0) seqs[o.sub].push_back((int) o.res);
  }
  std::map<int, std::set<int>> succ; std::map<int, int> indeg; long edges = 0;
  for (auto & sk : seqs) {
    std::vector<int> s; std::set<int> seen;
    for (int m : sk.second) if (nput[m] == 1 && seen.insert(m).second) s.push_back(m);
    uint64_t minret = ~0ull; int who = -1;
    for (size_t i = s.size(); i-- > 0;) {
      if (minret < put[s[i]]->cs) { violation(std::string(prop) + ":real-time", fmt("subscription %d received message %d before %d, whose put had returned before the other began; ", sk.first, s[i], who) + describe(w.c) + "; " + show(ops)); return; }
      if (put[s[i]]->rs < minret) { minret = put[s[i]]->rs; who = s[i]; }
    }
    for (size_t i = 1; i < s.size(); i++) if (succ[s[i - 1]].insert(s[i]).second) { indeg[s[i]]++; edges++; }
    for (int m : s) { indeg[m]; }
  }
  // real-time order of puts must fit too: add it as edges between consecutive non-overlapping puts (sparse)
  {
    std::vector<const Op *> p; for (auto & x : put) if (nput[x.first] == 1 && indeg.count(x.first)) p.push_back(x.second);
    std::sort(p.begin(), p.end(), [](const Op * a, const Op * b) { return a->cs < b->cs; });
    for (size_t i = 0; i < p.size(); i++) { uint64_t lim = ~0ull; for (size_t j = i + 1; j < p.size() && p[j]->cs < lim; j++) if (p[j]->cs > p[i]->rs) { if (succ[p[i]->msg].insert(p[j]->msg).second) indeg[p[j]->msg]++; lim = std::min(lim, p[j]->rs); } }
  }
  std::vector<int> ready; for (auto & x : indeg) if (x.second == 0) ready.push_back(x.first);
  size_t done = 0;
  while (!ready.empty()) { int m = ready.back(); ready.pop_back(); done++; for (int n : succ[m]) if (--indeg[n] == 0) ready.push_back(n); }
  count("order_edges_checked", edges);
  if (done != indeg.size()) violation(std::string(prop) + ":no-common-order", "the received sequences have no common order; " + describe(w.c) + "; " + show(ops, 200));
}

// ---- linearizability of small histories
struct Lin {
  const std::vector<Op> & h; std::set<std::pair<uint64_t, uint64_t>> memo; long nodes = 0; long cap = 400000;
  typedef std::map<int, std::vector<int>> State; // subscription -> queue
  const std::vector<Op> & post; // performed by one thread after everything else
  Lin(const std::vector<Op> & h, const std::vector<Op> & post) : h(h), post(post) {}
  static bool apply(State & st, const Op & o) {
    switch (o.k) {
    case PUT: case PUTNE: for (auto & q : st) if (o.k == PUT || q.first != o.sub) q.second.push_back(o.msg); return true;
    case GET: { auto it = st.find(o.sub); if (it == st.end()) return false; if (it->second.empty()) return o.res == -1; if (o.res != it->second.front()) return false; it->second.erase(it->second.begin()); return true; }
    case COUNT: { auto it = st.find(o.sub); return it != st.end() && (long) it->second.size() == o.res; }
    case CLEAR: { auto it = st.find(o.sub); if (it == st.end()) return false; it->second.clear(); return true; }
    case SUB: st[o.sub]; return true;
    case END: return st.erase(o.sub) == 1;
    case MINC: { if (st.empty()) return true; size_t m = ~(size_t) 0; for (auto & q : st) m = std::min(m, q.second.size()); return (long) m == o.res; }
    case SUBC: return (long) st.size() == o.res;
    default: return false;
    }
  }
  static uint64_t hash(const State & st) { Hash x; for (auto & q : st) { x.add((uint64_t) q.first + 1000003); for (int m : q.second) x.add((uint64_t) m); x.add(~0ull); } return x.h; }
  int go(uint64_t mask, State & st) { // 1 yes, 0 no, -1 gave up
    if (mask == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) { State n = st; for (auto & o : post) if (!apply(n, o)) return 0; return 1; }
    if (++nodes > cap) return -1;
    if (!memo.insert({mask, hash(st)}).second) return 0;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < h.size(); i++) if (!(mask >> i & 1)) minret = std::min(minret, h[i].rs);
    for (size_t i = 0; i < h.size(); i++) if (!(mask >> i & 1) && h[i].cs < minret) {
      State n = st;
      if (apply(n, h[i])) { int v = go(mask | 1ull << i, n); if (v) return v; }
    }
    return 0;
  }
};

// ---- long sequential histories against an exact model; what: which kinds of results are judged
void sequential(Rng & r, const char * prop, int scale, bool churn, bool big_backlog) {
  auto mb = SoDa::makeMailBox<Msg>("seq");
  struct MS { Box::Subscription s; std::deque<int> q; std::set<int> skipped; };
  std::vector<MS> subs; int nmsg = 0; std::vector<std::shared_ptr<Msg>> kept;
  std::vector<std::string> trail; Hash hs;
  auto note = [&](const std::string & s) { hs.add(s); trail.push_back(s); if (trail.size() > 60) trail.erase(trail.begin(), trail.begin() + 30); };
  auto fail = [&](const char * key, const std::string & m) { std::string t; for (auto & x : trail) t += x + "; "; violation(std::string(prop) + ":" + key, m + "; last operations: " + t); };
  long target = scale, subsmax = r.oneof({1, 2, 3, 8});
  if (churn) subsmax = 6;
  desc(fmt("sequential history of %ld operations, churn=%d backlog=%d", target, (int) churn, (int) big_backlog));
  sample(fmt("sequential history of %ld operations against the exact model, churn=%d big_backlog=%d", target, (int) churn, (int) big_backlog));
  long lagging = 0;
  bool order = !strcmp(prop, "M02") || !strcmp(prop, "M04"), counts = !strcmp(prop, "M04"), delivery = strcmp(prop, "M02") != 0;
  // what was received against what was owed; false: violation
  auto judge = [&](size_t x, int gotid, bool drain) {
    auto & q = subs[x].q; int want = q.empty() ? -1 : q.front();
    if (gotid == want) { if (want >= 0) q.pop_front(); return true; }
    if (counts) return false;
    if (gotid < 0) return !delivery || !drain; // not yet
    auto it = std::find(q.begin(), q.end(), gotid);
    if (it == q.end()) return !delivery && !subs[x].skipped.count(gotid); // (received twice or not owed: M01)
    if (order) { for (auto z = q.begin(); z != it; ++z) subs[x].skipped.insert(*z); q.erase(q.begin(), it + 1); return true; } // (if lost: M01)
    q.erase(it); return true;
  };
  for (long i = 0; i < target; i++) {
    int k = (int) r.below(100);
    if (subs.empty() || (k < (churn ? 30 : 3) && (long) subs.size() < subsmax)) { MS m; m.s = mb->subscribe(); subs.push_back(std::move(m)); note("subscribe"); continue; }
    size_t x = r.below(subs.size());
    if (k < (churn ? 60 : 5) && subs.size() > 1 && !(big_backlog && x == 0)) {
      if (r.chance(1, 4)) { Box::Subscription t = std::move(subs[x].s); subs[x].s = nullptr; t.reset(); }
      subs.erase(subs.begin() + x); note(fmt("end #%zu", x)); continue; }
    bool backlog_phase = big_backlog && i < target * 2 / 3;
    if (k < (backlog_phase ? 90 : 72)) {
      std::shared_ptr<Msg> m;
      if (!kept.empty() && r.chance(1, 10)) m = r.pick(kept); else { m = std::make_shared<Msg>(nmsg++); if (r.chance(1, 20)) { kept.push_back(m); if (kept.size() > 10) kept.erase(kept.begin()); } }
      bool ne = r.chance(1, 3);
      if (ne) mb->put(m, subs[x].s); else mb->put(m);
      for (size_t j = 0; j < subs.size(); j++) if (!(ne && j == x)) subs[j].q.push_back(m->id);
      note(fmt(ne ? "put m%d no-echo #%zu" : "put m%d", m->id, x));
    } else if (k < 90) {
      if (big_backlog && backlog_phase && x == 0) { lagging++; continue; }
      auto g = mb->get(subs[x].s); int want = subs[x].q.empty() ? -1 : subs[x].q.front(); int gotid = g ? g->id : -1;
      note(fmt("get #%zu -> %d", x, gotid));
      if (!judge(x, gotid, false)) { fail("sequential-get", fmt("get on subscriber #%zu (of %zu) returned message %d, expected %d (after %ld operations, backlog %zu)", x, subs.size(), gotid, want, i, subs[x].q.size())); return; }
      if (g && !g->ok()) { fail("contents", "message changed"); return; }
    } else if (k < 93) {
      unsigned n = mb->readyCount(subs[x].s);
      if (counts && n != subs[x].q.size()) { fail("sequential-count", fmt("readyCount is %u, expected %zu", n, subs[x].q.size())); return; }
    } else if (k < 95) {
      if (big_backlog && !r.chance(1, 500)) continue; // it is linear in the backlog
      unsigned n = mb->minReadyCount(); size_t m = ~(size_t) 0; for (auto & s : subs) m = std::min(m, s.q.size());
      if (counts && n != m) { fail("sequential-mincount", fmt("minReadyCount is %u, expected %zu", n, m)); return; }
    } else if (k < 97) {
      if (counts && mb->subscriberCount() != subs.size()) { fail("sequential-subcount", fmt("subscriberCount is %u, expected %zu", mb->subscriberCount(), subs.size())); return; }
    } else if (k < 98 && !(big_backlog && x == 0)) { mb->clear(subs[x].s); subs[x].q.clear(); note(fmt("clear #%zu", x)); }
  }
  size_t maxq = 0;
  for (size_t x = 0; x < subs.size(); x++) {
    maxq = std::max(maxq, subs[x].q.size());
    for (;;) {
      auto g = mb->get(subs[x].s); int want = subs[x].q.empty() ? -1 : subs[x].q.front(); int gotid = g ? g->id : -1;
      if (!judge(x, gotid, true)) { fail("sequential-drain", fmt("draining subscriber #%zu gave message %d, expected %d (%zu left)", x, gotid, want, subs[x].q.size())); return; }
      if (gotid < 0) break;
    }
  }
  eval(); count("sequential_histories"); count("sequential_operations", target); count("largest_backlog_sum", maxq); nontrivial(hs.h);
}

void weights(Cfg & c, std::initializer_list<int> l) { int i = 0; for (int x : l) c.w[i++] = x; }
int size_pick(Rng & r, int lo, int hi) { return (int) interesting_int(r, lo, hi); }

// put, putne, get, count, clear, sub, end, min, subc
int many_subs(Rng & r, int usual) { if (!r.chance(1, 12)) return usual; count("histories_with_many_subscriptions"); return (int) interesting_int(r, 7, r.chance(1, 4) ? 150 : 40); }
void m01(Rng & r, uint64_t idx) {
  if (idx % 40 == 3) { sequential(r, "M01", size_pick(r, 100, 6000), r.chance(1, 3), false); return; }
  if (idx == 0 || (thorough && idx % 20000 == 0)) { sequential(r, "M01", thorough ? 400000 : 150000, false, true); return; }
  if (idx == 1 || (thorough && idx % 20000 == 1)) { sequential(r, "M01", thorough ? 300000 : 100000, true, false); return; }
  World w; Cfg & c = w.c; c.native = idx % 50 == 9; c.threads = r.oneof({2, 2, 3, 3, 4, 5, 6}); c.ops = c.native ? r.range(50, 1500) : r.chance(1, 10) ? r.range(20, 120) : r.range(3, 20);
  c.subs_before = many_subs(r, r.range(0, 4)); c.repeat = r.oneof({0, 0, 3}); c.prefill = r.chance(1, 4) ? size_pick(r, 0, 300) : 0;
  if (r.chance(1, 3)) weights(c, {40, 0, 40, 3, 0, 0, 0, 1, 1});
  else if (r.chance(1, 2)) weights(c, {40, 3, 30, 3, 4, 10, 8, 2, 2});
  else weights(c, {30, 0, 30, 2, 10, 15, 12, 3, 3});
  sched(r, c);
  if (setup_and_run(w, r, "M01")) { drain(w); check_delivery(w, "M01", false); }
}
Reg rm01("M01", m01);

void m02(Rng & r, uint64_t idx) {
  if (idx % 60 == 3) { sequential(r, "M02", size_pick(r, 100, 6000), false, r.chance(1, 3)); return; }
  if (idx == 0 || (thorough && idx % 20000 == 0)) { sequential(r, "M02", thorough ? 300000 : 150000, false, true); return; }
  World w; Cfg & c = w.c; c.native = idx % 50 == 9; c.threads = r.oneof({2, 3, 3, 4, 4, 5, 6}); c.ops = c.native ? r.range(50, 800) : r.range(3, 25);
  c.subs_before = many_subs(r, r.range(2, 6)); c.repeat = 0; c.prefill = r.chance(1, 4) ? size_pick(r, 0, 200) : 0;
  if (r.chance(1, 2)) weights(c, {50, 0, 25, 1, 0, 0, 0, 1, 1}); else weights(c, {45, 8, 25, 1, 1, 4, 2, 1, 1});
  sched(r, c);
  if (setup_and_run(w, r, "M02")) { drain(w); check_order(w, "M02"); }
}
Reg rm02("M02", m02);

void m03(Rng & r, uint64_t idx) {
  if (idx % 30 == 3) { sequential(r, "M03", size_pick(r, 100, 5000), r.chance(1, 2), false); return; }
  if (idx == 0 || (thorough && idx % 20000 == 0)) { sequential(r, "M03", thorough ? 400000 : 150000, true, false); return; }
  World w; Cfg & c = w.c; c.native = idx % 50 == 9; c.threads = r.oneof({1, 2, 2, 3, 3, 4, 5}); c.ops = c.native ? r.range(50, 1000) : r.range(3, 25);
  c.subs_before = many_subs(r, r.range(1, 6)); c.repeat = r.oneof({0, 0, 0, 3}); c.prefill = 0;
  if (r.chance(1, 3)) weights(c, {10, 45, 25, 1, 0, 0, 0, 1, 1}); else weights(c, {10, 40, 25, 1, 2, 12, 10, 1, 1});
  sched(r, c);
  if (setup_and_run(w, r, "M03")) { drain(w); check_delivery(w, "M03", true); }
}
Reg rm03("M03", m03);

void m04(Rng & r, uint64_t idx) {
  if (idx % 40 == 3) { sequential(r, "M04", size_pick(r, 100, 6000), r.chance(1, 2), r.chance(1, 3)); return; }
  if (idx == 0 || (thorough && idx % 20000 == 0)) { sequential(r, "M04", thorough ? 300000 : 150000, false, true); return; }
  World w; Cfg & c = w.c; c.native = idx % 50 == 9;
  c.threads = r.oneof({2, 2, 3, 3, 4}); c.ops = c.threads == 4 ? r.range(2, 5) : c.threads == 3 ? r.range(2, 7) : r.range(2, 10);
  c.subs_before = many_subs(r, r.range(0, 4)); c.shared_subs = r.chance(1, 2); c.repeat = r.oneof({0, 0, 5}); c.prefill = r.chance(1, 2) ? r.range(0, 6) : 0;
  switch (r.below(4)) {
  case 0: weights(c, {20, 5, 20, 15, 10, 5, 5, 15, 10}); break;
  case 1: weights(c, {20, 5, 10, 5, 0, 20, 20, 5, 15}); break;
  case 2: weights(c, {30, 10, 30, 10, 5, 5, 0, 10, 0}); break;
  default: weights(c, {15, 5, 10, 20, 20, 3, 2, 25, 2}); break;
  }
  sched(r, c);
  if (!setup_and_run(w, r, "M04")) return;
  drain(w);
  auto ops = all_ops(w);
  // the sequential beginning is applied directly; the drain afterwards is kept short by the sizes above
  Lin::State st; std::vector<Op> h; bool ok = true;
  for (auto & o : ops) { bool pre = o.thr == c.threads && h.empty() && (o.k == SUB || o.k == PUT); if (pre) ok = ok && Lin::apply(st, o); else h.push_back(o); }
  // the drain is sequential and comes last
  std::vector<Op> conc, post; for (auto & o : h) (o.thr == c.threads ? post : conc).push_back(o);
  if (conc.size() > 40) return;
  Lin l(conc, post); int v = l.go(0, st);
  count("histories_searched"); count("linearization_nodes", l.nodes);
  if (v < 0) { count("searches_given_up"); return; }
  if (!v || !ok) violation("M04:not-linearizable", "no sequential order explains the results; " + describe(c) + "; " + show(ops, 100));
}
Reg rm04("M04", m04);

void m05c(Rng & r, uint64_t idx) {
  long before = live_msgs;
  {
    World w; Cfg & c = w.c; c.native = idx % 50 == 9; c.threads = r.oneof({2, 3, 4}); c.ops = c.native ? r.range(20, 400) : r.range(3, 25);
    c.subs_before = r.range(0, 4); c.shared_subs = r.chance(1, 3); c.repeat = r.oneof({0, 3}); c.prefill = r.chance(1, 4) ? r.range(0, 40) : 0;
    weights(c, {35, 8, 20, 2, 8, 12, 10, 1, 1});
    sched(r, c);
    if (!setup_and_run(w, r, "M05")) return;
    // now the clients hold nothing: exactly the queued messages may be alive
    std::set<Msg *> queued; std::vector<std::shared_ptr<Msg>> hold;
    auto take = [&](Slot & s) { if (!s.s) return; for (;;) { auto g = w.mb->get(s.s); if (!g) break; queued.insert(g.get()); if (!g->ok()) violation("M05:contents", "a queued message was destroyed or changed; " + describe(c)); hold.push_back(g); } };
    for (auto & q : w.own) for (auto & s : q) take(s);
    for (auto & s : w.common) take(s);
    long alive = live_msgs - before;
    if (alive != (long) queued.size()) { violation("M05:alive", fmt("%ld messages are alive, but only %zu are queued for anybody; ", alive, queued.size()) + describe(c) + "; " + show(all_ops(w))); return; }
    count("queued_messages_checked", queued.size());
    hold.clear();
    if (live_msgs != before) { violation("M05:kept", fmt("%ld messages survive after everybody let go; ", live_msgs - before) + describe(c)); return; }
    for (auto & q : w.own) q.clear();
    w.common.clear();
  }
  if (live_msgs != before) violation("M05:kept-after-mailbox", fmt("%ld messages survive the mailbox", live_msgs - before));
}
Reg rm05c("M05c", m05c);
}
