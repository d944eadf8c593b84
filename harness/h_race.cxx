// C01, C02: native threads under ThreadSanitizer (and AddressSanitizer): the oracle is the race
// detector; for C02 also the results of the same work done alone.
#include "hx.hxx"
#include "Barrier.hxx"
#include "MailBox.hxx"
#include "Format.hxx"
#include "Options.hxx"
#include "Utils.hxx"
#include "PropertyTreeYAML.hxx"
#include <atomic>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>
#include <unistd.h>
using namespace hx;

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
NullBuf & nullbuf() { static NullBuf b; return b; }
struct Quiet { std::streambuf * old; Quiet() : old(std::cerr.rdbuf(&nullbuf())) {} ~Quiet() { std::cerr.rdbuf(old); } };

struct Msg { int id; std::vector<int> data; explicit Msg(int i) : id(i), data(8, i) {} };
typedef SoDa::MailBox<Msg> Box;

// threads released together, each with its own share of the objects
template <class F> void together(int n, F f) {
  std::atomic<int> ready{0}; std::vector<std::thread> th;
  for (int i = 0; i < n; i++) th.emplace_back([&ready, n, i, &f]() { ready++; while (ready < n) std::this_thread::yield(); f(i); });
  for (auto & t : th) t.join();
}
// results are always used: a load nobody needs is not compiled (and not watched)
template <class T> void use(T v) { volatile T x = v; (void) x; }
void jitter(Rng & r) { switch (r.below(12)) { case 0: std::this_thread::yield(); break; case 1: usleep((useconds_t) r.below(60)); break; case 2: for (volatile int i = 0, n = (int) r.below(300); i < n; i = i + 1) {} break; default: break; } }

// complete groups: all rounds succeed
void barrier_rounds(Rng & r) {
  int n = r.range(1, 8), rounds = r.range(1, 40); auto b = SoDa::makeBarrier("race", (unsigned) n); uint64_t s = r.next(); int kind = (int) r.below(3); bool last_drops = r.chance(1, 2);
  std::string d = fmt("barrier of %d, %d rounds, timeout kind %d", n, rounds, kind); desc(d); sample(d);
  std::vector<long> plain(rounds, 0); std::atomic<int> bad{0};
  std::vector<std::shared_ptr<SoDa::Barrier>> own(n, b); if (last_drops) b = nullptr;
  // data handed over by the barrier itself: race free only if wait synchronizes
  std::vector<std::vector<int>> slot(2, std::vector<int>(n, 0));
  together(n, [&](int i) {
    Rng q(s + (uint64_t) i * 77); auto mine = std::move(own[i]);
    for (int k = 0; k < rounds; k++) {
      slot[k & 1][i] = k + 1;
      jitter(q);
      try { if (kind == 0) mine->wait(); else if (kind == 1) mine->wait(30000ul); else mine->wait(std::chrono::duration<long, std::milli>(30000)); }
      catch (std::exception & e) { bad++; return; }
      int got = slot[k & 1][(i + 1) % n];
      if (got != k + 1) bad++;
      if (mine.use_count() == 0) bad++;
    }
    mine = nullptr;
  });
  if (bad) violation("C01:barrier-order", d + ": a thread passed the barrier without the others or saw stale data");
  count("barrier_waits", (uint64_t) n * rounds); eval(); Hash h; h.add(d); h.add(s); nontrivial(h.h);
}
// timeouts, corruption, late comers, new barriers
void barrier_errors(Rng & r) {
  int n = r.range(2, 6), T = r.range(1, 7); uint64_t s = r.next(); auto b = SoDa::makeBarrier("broken", (unsigned) n); int per = r.range(1, 4); bool last_drops = r.chance(1, 2);
  std::string d = fmt("barrier of %d with %d threads, %d short waits each", n, T, per); desc(d); sample(d); std::atomic<int> other{0}, thrown{0};
  std::vector<std::shared_ptr<SoDa::Barrier>> own(T, b); if (last_drops) b = nullptr;
  together(T, [&](int i) {
    Rng q(s + (uint64_t) i * 77); auto mine = std::move(own[i]);
    for (int k = 0; k < per; k++) { jitter(q);
      try { if (q.chance(1, 2)) mine->wait((unsigned long) q.range(1, 3)); else mine->wait(std::chrono::milliseconds(q.range(1, 3))); }
      catch (SoDa::Barrier::Timeout & e) { thrown++; if (!*e.what()) other++; } catch (SoDa::Barrier::Corrupt & e) { thrown++; if (!*e.what()) other++; } catch (...) { other++; } }
  });
  if (other) violation("C01:barrier-error", d + ": an undocumented exception");
  count("barrier_exceptions", thrown); eval(); Hash h; h.add(d); h.add(s); nontrivial(h.h);
}
void mailbox_mix(Rng & r) {
  int T = r.range(2, 8), ops = r.range(5, 150); uint64_t s = r.next(); auto mb = SoDa::makeMailBox<Msg>("race"); auto other = SoDa::makeMailBox<Msg>("other"); auto alien = other->subscribe(); auto common = mb->subscribe(); bool last_drops = r.chance(1, 2), share = r.chance(1, 2);
  // emphasis on a pair of operations, so that rare pairs meet often
  int fav1 = (int) r.below(12), fav2 = (int) r.below(12);
  std::string d = fmt("mailbox shared by %d threads, %d operations each, favourites %d and %d, shared subscription %d", T, ops, fav1, fav2, (int) share); desc(d); sample(d);
  std::vector<std::shared_ptr<Box>> own(T, mb); std::atomic<int> bad{0}; std::atomic<int> serial{0}; std::atomic<int> wrong{0};
  if (last_drops && !share) { common = nullptr; mb = nullptr; }
  together(T, [&](int i) {
    Rng q(s + (uint64_t) i * 77); auto mine = std::move(own[i]); std::vector<Box::Subscription> subs; std::vector<std::shared_ptr<Msg>> held;
    auto sub = [&]() -> Box::Subscription & { if (share && (subs.empty() || q.chance(1, 2))) return common; if (subs.empty()) subs.push_back(mine->subscribe()); return subs[q.below(subs.size())]; };
    for (int k = 0; k < ops; k++) {
      int op = q.chance(1, 2) ? (q.chance(1, 2) ? fav1 : fav2) : (int) q.below(12);
      try { switch (op) {
        case 0: case 1: mine->put(std::make_shared<Msg>(serial++)); break;
        case 2: mine->put(std::make_shared<Msg>(serial++), sub()); break;
        case 3: case 4: { auto m = mine->get(sub()); if (m) { int x = 0; for (int v : m->data) x += v; if (x != 8 * m->id) bad++; if (q.chance(1, 4)) held.push_back(m); } break; }
        case 5: use(mine->readyCount(sub())); break;
        case 6: mine->clear(sub()); break;
        case 7: if (subs.size() < 5) subs.push_back(mine->subscribe()); else subs.pop_back(); break;
        case 8: if (!subs.empty()) { subs.erase(subs.begin() + q.below(subs.size())); } break;
        case 9: use(mine->minReadyCount()); break;
        case 10: use(mine->subscriberCount()); break;
        default:
          if (q.chance(1, 2)) { wrong++; if (q.chance(1, 2)) mine->get(alien); else use(mine->readyCount(alien)); bad++; }
          else { auto e = mine->subscribe(); mine->unsubscribe(e->getIndex(mine.get())); wrong++; mine->clear(e); bad++; }
          break;
        } } catch (SoDa::MailBoxBase::Exception & e) { if (op != 11) bad++; }
      catch (...) { bad++; }
      if (q.chance(1, 6)) { auto p = mine->getName(); if (p != "race") bad++; if (q.chance(1, 3)) { std::shared_ptr<SoDa::MailBoxBase> base = mine; try { if (SoDa::MailBoxBase::convert<Box>(base) != mine) bad++; if (q.chance(1, 2)) { SoDa::MailBoxBase::convert<SoDa::MailBox<int>>(base); bad++; } } catch (SoDa::MailBoxBase::BadConversion &) {} } }
      jitter(q);
    }
    if (q.chance(1, 2)) held.clear();
    subs.clear(); mine = nullptr;
  });
  if (bad) violation("C01:mailbox-result", d + ": damaged message, wrong name, or an exception where none is due");
  count("mailbox_operations", (uint64_t) T * ops); count("wrong_uses", wrong); eval(); Hash h; h.add(d); h.add(s); nontrivial(h.h);
}
// messages are handed over: what the sender wrote before put, the receiver sees without a race
void mailbox_handover(Rng & r) {
  int T = r.range(2, 6), n = r.range(1, 60); uint64_t s = r.next(); auto mb = SoDa::makeMailBox<std::vector<int>>("handover"); auto bar = SoDa::makeBarrier("start", (unsigned) T);
  std::string d = fmt("%d threads hand over %d mutable messages each", T, n); desc(d); sample(d); std::atomic<int> bad{0};
  together(T, [&](int i) {
    Rng q(s + (uint64_t) i * 77); auto m = mb; auto sub = m->subscribe(); bar->wait(60000ul);
    int got = 0, sent = 0; time_t t0 = time(nullptr);
    while (got < n * T || sent < n) {
      if (sent < n) { auto v = std::make_shared<std::vector<int>>(); for (int j = 0; j < 5; j++) v->push_back(i * 1000 + sent); m->put(v); sent++; }
      auto g = m->get(sub); if (g) { got++; if (g->size() != 5 || (*g)[4] != (*g)[0]) bad++; } else std::this_thread::yield();
      if (time(nullptr) - t0 > 40) { bad += 1000; break; }
      jitter(q);
    }
    bar->wait(60000ul);
  });
  if (bad) violation("C01:handover", d + ": lost or damaged messages");
  count("messages_handed_over", (uint64_t) n * T * T); eval(); Hash h; h.add(d); h.add(s); nontrivial(h.h);
}
void c01(Rng & r, uint64_t idx) { (void) idx; Quiet q;
  switch (r.below(6)) { case 0: barrier_rounds(r); break; case 1: barrier_errors(r); break; case 2: mailbox_handover(r); break; default: mailbox_mix(r); break; } }
Reg rc01("C01", c01);

// ---------------------------------------------------------------- C02
struct XFmt : public SoDa::Format_ext<XFmt> { XFmt(const std::string & s) : SoDa::Format_ext<XFmt>(s, this) {} };
std::vector<std::string> shared_files;

void w_format(Rng & r, std::string & out) {
  std::string t; int n = r.range(1, 6); for (int i = 0; i < n; i++) t += random_bytes(r, r.below(6), 0) + "%" + std::to_string(i) + (r.chance(1, 4) ? "%%" : ","); 
  SoDa::Format f(t); XFmt x(t);
  for (int rep = 0; rep < r.range(1, 3); rep++) {
    for (int i = 0; i < n; i++) {
      unsigned w = (unsigned) r.below(25); double v = (r.unit() - 0.5) * pow(10.0, r.range(-12, 12)); long iv = (long) r.next(); std::string s = random_bytes(r, r.below(12), 1);
      switch (r.below(8)) {
      case 0: f.addI((int) iv, w, ',', '*'); x.addI((int) iv, w, 0x2c); break;
      case 1: f.addU((unsigned long) iv, 'x', w, '_', 4); x.addU((unsigned long) iv, 'x', w, '_', 4); break;
      case 2: f.addU((unsigned long) iv, 'd', w, ',', 3); x.addU((unsigned long) iv, 'o', w); break;
      case 3: f.addF(v, 'e', w, (unsigned) r.range(1, 10)); x.addF(v, 'f', w, 5); break;
      case 4: f.addF(v, 'g', w, (unsigned) r.range(1, 10)); x.addF(v, 's', w, 5); break;
      case 5: f.addS(s, r.range(-20, 20)); x.addS(s); break;
      case 6: f.addC('q'); x.addC('w'); break;
      default: f.addB(r.chance(1, 2)); x.addB(true); break;
      }
      if (r.chance(1, 3)) out += f.str() + "|" + x.str();
    }
    std::ostringstream os; os << f.str(true) << x.str(); out += os.str() + "\n";
    if (r.chance(1, 2)) { SoDa::Format g(f); g.reset(); out += g.str(); try { g.str(true); } catch (SoDa::Format::BadFormat & e) { out += e.what(); } }
    f.reset(); x.reset();
  }
}
void w_split(Rng & r, std::string & out) {
  for (int i = 0; i < 5; i++) { std::string s = random_bytes(r, r.below(200), r.range(3, 4)), d = r.oneof<std::string>({",", " ", ":a", "", ",;"}); bool ne = r.chance(1, 2);
    for (auto & t : SoDa::split(s, d, ne)) out += "<" + t + ">"; for (auto & t : SoDa::splitVec(s, d, ne)) out += "[" + t + "]"; out += SoDa::squashSpaces(s) + "\n"; }
}
void w_options(Rng & r, std::string & out) {
  bool kvp = r.chance(1, 3); SoDa::Options o(kvp); int i; double d; std::string s; bool p; std::vector<int> vi; std::vector<std::string> vs; unsigned long u; bool b;
  o.add<int>(&i, "int", 'i', 5, "an int").add<double>(&d, "dbl", 'd', 1.5, "a double").add<std::string>(&s, "str", 's', "def", "a string").addP(&p, "flag", 'f', "a flag").addV<int>(&vi, "vint", 'v', "ints", [](int x) { return x < 900; }, "too big").addV<std::string>(&vs, "vstr", 'w', "strings").add<unsigned long>(&u, "ul", 'u', "no default").add<bool>(&b, "bool", 'b', true, "a bool");
  o.addInfo("info line");
  for (int rep = 0; rep < r.range(1, 4); rep++) {
    bool ok;
    if (kvp) { std::string l; for (int k = r.range(0, 6); k > 0; k--) { l += r.oneof<std::string>({"int=4", "dbl = 2", "str=a b", "flag", "vint=7", "vint=1000", "ul=4", "bool=F", "bad=1", "", "str="}) + ","; } ok = o.parse(l); }
    else { std::list<std::string> l; for (int k = r.range(0, 9); k > 0; k--) l.push_back(r.oneof<std::string>({"-i", "--int", "3", "-4", "--dbl", "2.5", "--str", "word", "-f", "--vint", "88", "901", "--vstr", "x", "--ul", "12", "pos", "-", "--bool", "TRUE", r.chance(1, 6) ? "--nope" : "z", r.chance(1, 9) ? "--help" : "y"}));
      if (r.chance(1, 2)) ok = o.parse(l);
      else { std::string t; for (auto & x : l) t += x + "  "; ok = o.parse(t); } }
    std::ostringstream os; o.printHelp(os); 
    out += fmt("%d %d %g %s %d %lu %d %d ", (int) ok, i, d, s.c_str(), (int) p, u, (int) b, o.numPosArgs()); for (int x : vi) out += std::to_string(x) + ","; for (auto & x : vs) out += x + ","; for (auto & x : o.getPosArgs()) out += x + ";"; out += o.getPosArg(1) + (o.isPresent("int") ? "I" : "-") + (o.isPresent('w') ? "W" : "-") + os.str() + "\n";
  }
}
void w_tree(Rng & r, std::string & out, const std::string & own) {
  try {
    SoDa::PropertyTreeYAML t(r.pick(shared_files)); if (r.chance(1, 2)) t.readFile(own); if (r.chance(1, 2)) t.readFile(r.pick(shared_files));
    std::ostringstream os; t.dump(os); out += os.str();
    int i = -1; double d = -1; std::string s = "-"; out += t.get(i, "a:i") ? "y" : "n"; out += t.get(d, "a:d") ? "y" : "n"; out += t.get(s, "a:s") ? "y" : "n"; out += t.get(s, "b") ? "y" : "n"; out += fmt("%d %g %s\n", i, d, s.c_str());
    try { t.get(i, "a:s", true); } catch (std::exception & e) { out += e.what(); }
    try { t.get(i, "no:where", true); } catch (std::exception & e) { out += e.what(); }
    try { t.readFile(own + ".missing"); } catch (std::exception & e) { out += e.what(); }
    if (r.chance(1, 3)) try { SoDa::PropertyTreeYAML bad(shared_files[0] + ".bad"); } catch (std::exception & e) { out += e.what(); }
  } catch (std::exception & e) { out += std::string("exception ") + e.what(); }
}
void w_boxes(Rng & r, std::string & out) {
  auto mb = SoDa::makeMailBox<Msg>("own"); auto mb2 = SoDa::makeMailBox<Msg>("own"); std::vector<Box::Subscription> s; s.push_back(mb->subscribe()); auto foreign = mb2->subscribe();
  for (int k = 0; k < 40; k++) switch (r.below(8)) {
    case 0: case 1: mb->put(std::make_shared<Msg>(k)); break;
    case 2: mb->put(std::make_shared<Msg>(k), r.pick(s)); break;
    case 3: case 4: { auto m = mb->get(s[r.below(s.size())]); out += m ? std::to_string(m->id) + " " : "- "; break; }
    case 5: if (s.size() < 4) s.push_back(mb->subscribe()); else s.pop_back(); break;
    case 6: out += fmt("%u %u %u ", mb->subscriberCount(), mb->readyCount(s[0]), mb->minReadyCount()); break;
    default: try { mb->get(foreign); out += "!"; } catch (SoDa::Exception & e) { out += e.what(); } try { std::shared_ptr<SoDa::MailBoxBase> b = mb; SoDa::MailBoxBase::convert<SoDa::MailBox<int>>(b); } catch (SoDa::Exception & e) { out += e.what(); } break;
  }
  auto b = SoDa::makeBarrier("mine", 1); b->wait(); b->wait(5ul); auto c = SoDa::makeBarrier(random_bytes(r, 3, 0), 2);
  try { c->wait(1ul); out += "passed"; } catch (SoDa::Barrier::Timeout & e) { out += e.what(); }
  try { c->wait(std::chrono::milliseconds(1)); out += "passed"; } catch (SoDa::Barrier::Corrupt & e) { out += e.what(); }
}
std::string work(uint64_t seed, int kind, const std::string & own) {
  Rng r(seed); std::string out; int n = r.range(2, 6);
  for (int i = 0; i < n; i++) switch (kind < 5 ? kind : (int) r.below(5)) { case 0: w_format(r, out); break; case 1: w_split(r, out); break; case 2: w_options(r, out); break; case 3: w_tree(r, out, own); break; default: w_boxes(r, out); break; }
  return out;
}
void c02(Rng & r, uint64_t) {
  Quiet quiet;
  if (shared_files.empty()) {
    for (int i = 0; i < 3; i++) { std::string f = scratch + fmt("/shared%d.yaml", i); std::ofstream o(f); o << "a:\n  i: " << i + 10 << "\n  d: 2.5\n  s: some words " << i << "\n  deep: {x: 1, y: {z: two}}\nb" << i << ": [1, 2, [3, 4]]\nlist: [p, q]\n"; o.close(); shared_files.push_back(f); }
    std::ofstream o(shared_files[0] + ".bad"); o << "a: [1, 2\nb: }\n";
    for (int i = 0; i < 8; i++) { std::ofstream g(scratch + fmt("/own%d.yaml", i)); g << "own" << i << ": {k: " << i << "}\nb: {c: " << i * i << "}\n"; }
  }
  int T = r.range(2, 8), kind = (int) r.below(9); bool same = r.chance(1, 2); uint64_t s = r.next();
  std::string d = fmt("%d threads each with objects of their own, kind %d, same work %d", T, kind, (int) same); desc(d); sample(d);
  std::vector<std::string> got(T), alone(T);
  auto seed_of = [&](int i) { return same ? s : s + (uint64_t) i * 1000003; };
  auto own_of = [&](int i) { return scratch + fmt("/own%d.yaml", same ? 0 : i); };
  together(T, [&](int i) { std::string o = own_of(i); got[i] = work(seed_of(i), kind, o); });
  for (int i = 0; i < T; i++) alone[i] = same && i ? alone[0] : work(seed_of(i), kind, own_of(i));
  size_t bytes = 0;
  for (int i = 0; i < T; i++) { bytes += got[i].size();
    if (got[i] != alone[i]) { size_t p = 0; while (p < got[i].size() && p < alone[i].size() && got[i][p] == alone[i][p]) p++; size_t f = p > 60 ? p - 60 : 0;
      violation("C02:result", d + fmt(": thread %d got ", i) + q(got[i].substr(f, 160)) + " but alone it gets " + q(alone[i].substr(f, 160))); return; } }
  count("thread_results_compared", T); count("result_bytes", bytes); eval(); Hash h; h.add(d); h.add(s); nontrivial(h.h);
}
Reg rc02("C02", c02);
}
