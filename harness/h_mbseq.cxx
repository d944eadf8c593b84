// M05, M06: one-threaded mailbox histories against an exact model of who owns what, under ASan/UBSan.
#include "hx.hxx"
#include "MailBox.hxx"
#include <deque>
#include <memory>
#include <list>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
static size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif
using namespace hx;

namespace {
long live = 0;
struct Msg {
  int id; std::string text; uint64_t canary;
  explicit Msg(int id) : id(id), text(fmt("message number %d, long enough to be on the heap", id)), canary(0x1234567890abcdefull ^ (uint64_t) id) { live++; }
  Msg(const Msg & m) : id(m.id), text(m.text), canary(m.canary) { live++; }
  ~Msg() { canary = 0; live--; }
  bool ok() const { return canary == (0x1234567890abcdefull ^ (uint64_t) id) && text == fmt("message number %d, long enough to be on the heap", id); }
};
typedef SoDa::MailBox<Msg> Box;
typedef std::shared_ptr<Msg> Ptr;

struct Sub { Box::Subscription s; int box; int id; bool ended = false; std::deque<int> q; int index = -1; };
struct World {
  Rng & r; const char * prop;
  std::vector<std::shared_ptr<Box>> boxes; std::list<Sub> subs; int nsub = 0;
  std::vector<std::weak_ptr<Msg>> weak; std::vector<int> refs; // refs: held by the client or queued
  std::vector<std::pair<int, Ptr>> held; std::vector<std::string> trail; Hash hs; bool bad = false; long base;
  World(Rng & r, const char * p) : r(r), prop(p), base(live) {}
  void note(const std::string & s) { hs.add(s); if (trail.size() > 80) trail.erase(trail.begin(), trail.begin() + 30); trail.push_back(s); std::string t; for (auto & x : trail) t += x + "; "; desc(t); }
  void fail(const char * key, const std::string & m) { bad = true; std::string t; for (auto & x : trail) t += x + "; "; violation(std::string(prop) + ":" + key, m + "; operations: " + t); }
  Sub * some(bool ended = false) { std::vector<Sub *> v; for (auto & s : subs) if (s.ended == ended && boxes[s.box]) v.push_back(&s); return v.empty() ? nullptr : r.pick(v); }
  void dequeue(Sub & s) { for (int m : s.q) refs[m]--; s.q.clear(); }
  void check_alive(bool all) {
    if (bad) return;
    long want = 0; for (int n : refs) if (n > 0) want++;
    if (live - base != want) { fail("alive", fmt("%ld messages are alive, %ld are owed or held", live - base, want)); return; }
    count("liveness_checks");
    if (all) for (size_t i = 0; i < refs.size(); i++) {
      if ((refs[i] > 0) == weak[i].expired()) { fail(refs[i] > 0 ? "destroyed-early" : "kept", fmt("message %zu should be %s", i, refs[i] > 0 ? "alive" : "gone")); return; }
      if (auto p = weak[i].lock()) if (!p->ok()) { fail("contents", fmt("message %zu changed", i)); return; }
    }
  }
  void check_counts() {
    for (auto & s : subs) if (!s.ended && boxes[s.box]) { unsigned n = boxes[s.box]->readyCount(s.s); if (n != s.q.size()) { fail("queue-changed", fmt("subscription %d has %u messages waiting, expected %zu", s.id, n, s.q.size())); return; } }
    for (size_t b = 0; b < boxes.size(); b++) if (boxes[b]) { size_t n = 0; for (auto & s : subs) if (!s.ended && s.box == (int) b) n++; if (boxes[b]->subscriberCount() != n) { fail("subscribers-changed", fmt("mailbox %zu has %u subscribers, expected %zu", b, boxes[b]->subscriberCount(), n)); return; } }
    count("queue_state_checks");
  }
  void put(int b, bool ne) {
    Ptr m; int id; Sub * s = nullptr;
    if (ne) { std::vector<Sub *> v; for (auto & x : subs) if (!x.ended && x.box == b) v.push_back(&x); if (!v.empty()) s = r.pick(v); }
    if (!held.empty() && r.chance(1, 4)) { auto & h = r.pick(held); m = h.second; id = h.first; }
    else { id = (int) refs.size(); m = std::make_shared<Msg>(id); weak.push_back(m); refs.push_back(0); if (r.chance(1, 4)) { held.push_back({id, m}); refs[id]++; } }
    note(fmt(s ? "put m%d to box %d no-echo s%d" : "put m%d to box %d", id, b, s ? s->id : 0));
    if (s) { if (r.chance(1, 3)) boxes[b]->put(std::move(m), s->s); else boxes[b]->put(m, s->s); } else boxes[b]->put(m);
    m = nullptr;
    for (auto & x : subs) if (!x.ended && x.box == b && &x != s) { x.q.push_back(id); refs[id]++; }
  }
  void get(Sub & s, bool hold) {
    Ptr m = boxes[s.box]->get(s.s); int want = s.q.empty() ? -1 : s.q.front(), got = m ? m->id : -1;
    note(fmt("get s%d -> m%d", s.id, got));
    if (want != got) { fail("wrong-message", fmt("get on s%d returned %d, expected %d", s.id, got, want)); return; }
    if (m && !m->ok()) { fail("contents", "received message is damaged"); return; }
    if (want >= 0) { s.q.pop_front(); refs[want]--; if (hold) { held.push_back({want, m}); refs[want]++; } }
  }
  // ways to end a subscription; the object may stay around
  void end(std::list<Sub>::iterator it) {
    Sub & s = *it; dequeue(s);
    switch (r.below(5)) {
    case 0: note(fmt("reset s%d", s.id)); s.s.reset(); subs.erase(it); break;
    case 1: note(fmt("destroy s%d", s.id)); subs.erase(it); break;
    case 2: { note(fmt("move s%d away and destroy it", s.id)); { Box::Subscription t(std::move(s.s)); } subs.erase(it); break; }
    case 3: { note(fmt("unsubscribe s%d, then drop it", s.id)); boxes[s.box]->unsubscribe(s.s->getIndex(boxes[s.box].get())); subs.erase(it); break; }
    default: note(fmt("unsubscribe s%d, keep the object", s.id)); boxes[s.box]->unsubscribe(s.s->getIndex(boxes[s.box].get())); s.ended = true; break;
    }
  }
  void finish() { // end of everything, in a random order
    if (bad) { abandon(); return; }
    // some mailboxes die while people are still subscribed: their objects must not be used any more
    for (size_t b = 0; b < boxes.size(); b++) if (boxes[b] && r.chance(1, 2)) {
      for (auto it = subs.begin(); it != subs.end();) if (it->box == (int) b) { if (it->ended) { it = subs.erase(it); continue; } dequeue(*it); ::operator delete((void *) it->s.release()); it = subs.erase(it); } else ++it;
      note(fmt("mailbox %zu is destroyed with its subscriptions unread", b)); boxes[b] = nullptr; check_alive(true);
    }
    while (!subs.empty() && !bad) { auto it = subs.begin(); std::advance(it, r.below(subs.size())); dequeue(*it); note(fmt("drop s%d", it->id)); subs.erase(it); check_alive(false); }
    boxes.clear(); note("all mailboxes gone"); check_alive(true);
    while (!held.empty() && !bad) { size_t i = r.below(held.size()); refs[held[i].first]--; held.erase(held.begin() + i); check_alive(false); }
    if (!bad && live != base) fail("left", fmt("%ld messages remain after everything is gone", live - base));
  }
  void abandon() { for (auto & s : subs) if (s.s) s.s.release(); }
};

void history(World & w, long ops, int foreign, int maxbox) {
  Rng & r = w.r; bool samename = r.chance(1, 2);
  int nb = r.range(foreign ? 2 : 1, maxbox); std::string nm = r.oneof<std::string>({"box", "", "a%0b", "mailbox with a fairly long name that is not short"});
  for (int i = 0; i < nb; i++) w.boxes.push_back(SoDa::makeMailBox<Msg>(samename ? nm : nm + std::to_string(i)));
  w.note(fmt("%d mailboxes named %s%s", nb, q(nm).c_str(), samename ? "" : "N"));
  sample(fmt("%d mailboxes (%s names), %ld operations, %d%% wrong uses", nb, samename ? "equal" : "different", ops, foreign));
  for (long i = 0; i < ops && !w.bad; i++) {
    if ((int) r.below(100) < foreign) {
      // a wrong use
      bool usended = r.chance(1, 2); Sub * s = w.some(usended); if (!s) continue;
      int b = s->box; bool mism = false;
      if (!usended || r.chance(1, 6)) { do b = (int) r.below(w.boxes.size()); while (b == s->box || !w.boxes[b]); mism = true; }
      int k = (int) r.below(5); if (!mism && k == 4) k = 0;
      static const char * names[] = {"get", "readyCount", "clear", "unsubscribe", "put"};
      w.note(fmt("WRONG %s on box %d with %s s%d", names[k], b, mism ? "foreign" : "ended", s->id));
      std::string got = "nothing"; bool right = false;
      int id = (int) w.refs.size();
      try {
        switch (k) {
        case 0: { Ptr p = w.boxes[b]->get(s->s); got = p ? "a message" : "null"; break; }
        case 1: got = fmt("count %u", w.boxes[b]->readyCount(s->s)); break;
        case 2: w.boxes[b]->clear(s->s); got = "return"; break;
        case 3: w.boxes[b]->unsubscribe(s->s->getIndex(w.boxes[b].get())); got = "return"; break;
        default: { Ptr m = std::make_shared<Msg>(id); w.weak.push_back(m); w.refs.push_back(0); w.boxes[b]->put(m, s->s); got = "return"; break; }
        }
      } catch (SoDa::MailBoxBase::SubscriptionMismatch & e) { got = "SubscriptionMismatch"; right = mism && *e.what();
      } catch (SoDa::MailBoxBase::MissingSubscriber & e) { got = "MissingSubscriber"; right = usended && *e.what();
      } catch (std::exception & e) { got = std::string("exception ") + e.what(); }
      count("wrong_uses");
      if (!right) { w.fail("wrong-use", fmt("%s with a %s%s subscription gave %s", names[k], mism ? "foreign" : "", usended ? " ended" : "", got.c_str())); break; }
      w.check_counts(); if (!w.bad) w.check_alive(false);
      continue;
    }
    int k = (int) r.below(100); int b = (int) r.below(w.boxes.size());
    Sub * s = w.some();
    if (!s || (k < 12 && w.subs.size() < 10)) {
      Sub n; n.box = b; n.id = w.nsub++; n.s = w.boxes[b]->subscribe(); w.note(fmt("s%d = subscribe to box %d", n.id, b)); w.subs.push_back(std::move(n));
    } else if (k < 20) { auto it = w.subs.begin(); std::advance(it, r.below(w.subs.size())); if (it->ended) { w.note(fmt("drop ended s%d", it->id)); w.subs.erase(it); } else w.end(it); }
    else if (k < 25) { w.note(fmt("clear s%d", s->id)); w.boxes[s->box]->clear(s->s); w.dequeue(*s); }
    else if (k < 58) w.put(b, r.chance(1, 4));
    else if (k < 85) w.get(*s, r.chance(1, 3));
    else if (k < 95) { if (!w.held.empty()) { size_t j = r.below(w.held.size()); w.note(fmt("let go of m%d", w.held[j].first)); w.refs[w.held[j].first]--; w.held.erase(w.held.begin() + j); } }
    else if (k < 97) { // move the subscription object to another place
      Sub * t = w.some(); if (t) { Box::Subscription x(std::move(t->s)); t->s = std::move(x); w.note(fmt("move s%d", t->id)); } }
    else w.check_counts();
    w.check_alive(w.refs.size() < 40 || r.chance(1, 20));
  }
  if (!w.bad) { w.check_counts(); for (auto & s : w.subs) { if (s.ended || w.bad) continue; if (r.chance(1, 2)) while (!s.q.empty() && !w.bad) w.get(s, false); } if (!w.bad) w.check_alive(true); }
  w.finish();
  if (ops > 3) nontrivial(w.hs.h);
  eval(); count("operations", ops); count("messages", w.refs.size());
}

// the same operations again and again must not make the heap grow
template <class F> void growth(const char * prop, const char * what, F f) {
  for (int i = 0; i < 20; i++) f();
  size_t left = ~(size_t) 0;
  for (int batch = 0; batch < 3 && left > 64; batch++) { // storage kept for reuse does not grow batch after batch
    size_t a = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 100; i++) f();
    size_t b = __sanitizer_get_current_allocated_bytes();
    left = std::min(left, b > a ? b - a : 0);
  }
  count("heap_growth_checks"); eval();
  desc(what);
  if (left > 64) violation(std::string(prop) + ":leak", fmt("every 100 repetitions of '%s' leave %zu bytes allocated", what, left));
}
struct D : public Box { D(const std::string & n) : Box(n) {} };

void m05(Rng & r, uint64_t idx) {
  if (idx % 25 == 3) {
    auto a = SoDa::makeMailBox<Msg>("a"), b = SoDa::makeMailBox<Msg>("b");
    auto sa = a->subscribe(), sb = b->subscribe(); auto se = a->subscribe(); a->unsubscribe(se->getIndex(a.get()));
    int m = r.range(1, 20);
    growth("M05", "get, readyCount, clear and put with a foreign subscription", [&]() {
      try { b->get(sa); } catch (SoDa::Exception &) {}
      try { b->readyCount(sa); } catch (SoDa::Exception &) {}
      try { b->clear(sa); } catch (SoDa::Exception &) {}
      try { b->put(std::make_shared<Msg>(1), sa); } catch (SoDa::Exception &) {} });
    growth("M05", "get, readyCount, clear and unsubscribe with an ended subscription", [&]() {
      try { a->get(se); } catch (SoDa::Exception &) {}
      try { a->readyCount(se); } catch (SoDa::Exception &) {}
      try { a->clear(se); } catch (SoDa::Exception &) {}
      try { a->unsubscribe(se->getIndex(a.get())); } catch (SoDa::Exception &) {} });
    growth("M05", "failed conversion", [&]() { std::shared_ptr<SoDa::MailBoxBase> p = a; try { SoDa::MailBoxBase::convert<SoDa::MailBox<std::vector<int>>>(p); } catch (SoDa::Exception &) {} });
    growth("M05", "successful conversion", [&]() { std::shared_ptr<SoDa::MailBoxBase> p = a; SoDa::MailBoxBase::convert<Box>(p); });
    growth("M05", "a mailbox with subscriptions, messages and readers", [&]() {
      auto c = SoDa::makeMailBox<Msg>("c"); auto s1 = c->subscribe(), s2 = c->subscribe();
      for (int i = 0; i < m; i++) { c->put(std::make_shared<Msg>(i)); if (i & 1) c->put(std::make_shared<Msg>(i), s1); if (i % 3 == 0) c->get(s1); }
      c->clear(s2); c->put(std::make_shared<Msg>(0)); s2.reset(); });
    growth("M05", "put and get", [&]() { for (int i = 0; i < m; i++) a->put(std::make_shared<Msg>(i)); while (a->get(sa)) {} });
    growth("M05", "put and clear", [&]() { for (int i = 0; i < m; i++) a->put(std::make_shared<Msg>(i), se ? sa : sa); a->clear(sa); });
    growth("M05", "subscribe and end", [&]() { auto s = a->subscribe(); a->put(std::make_shared<Msg>(7)); s.reset(); a->clear(sa); });
    nontrivial(mix(77 + (uint64_t) m));
    return;
  }
  World w(r, "M05"); history(w, interesting_int(r, 5, r.chance(1, 20) ? 1500 : 150), r.chance(1, 3) ? 10 : 0, 3);
}
Reg rm05("M05", m05);

template <class T> void conv(const char * tn, const std::string & name) {
  auto p = SoDa::makeMailBox<T>(name); std::shared_ptr<SoDa::MailBoxBase> base = p;
  auto try_one = [&](auto tag, const char * to, bool same) {
    typedef typename decltype(tag)::type To; desc(fmt("convert MailBox<%s> named %s to MailBox<%s>", tn, q(name).c_str(), to));
    std::string got;
    try { auto c = SoDa::MailBoxBase::convert<To>(base); got = (void *) c.get() == nullptr ? "null" : (std::shared_ptr<SoDa::MailBoxBase>(c) == base && c->getName() == name) ? "same" : "another mailbox"; }
    catch (SoDa::MailBoxBase::BadConversion & e) { got = "BadConversion"; if (!*e.what()) got = "BadConversion without a message"; }
    catch (std::exception & e) { got = std::string("exception ") + e.what(); }
    count("conversions"); eval();
    if (got != (same ? "same" : "BadConversion")) violation("M06:convert", fmt("converting a MailBox<%s> to MailBox<%s> gave %s", tn, to, got.c_str()));
  };
  struct A { typedef SoDa::MailBox<int> type; }; struct B { typedef SoDa::MailBox<std::vector<int>> type; }; struct C { typedef Box type; }; struct E { typedef SoDa::MailBox<unsigned> type; }; struct F { typedef SoDa::MailBox<std::string> type; };
  try_one(A(), "int", std::is_same<T, int>::value); try_one(B(), "vector<int>", std::is_same<T, std::vector<int>>::value); try_one(C(), "Msg", std::is_same<T, Msg>::value);
  try_one(E(), "unsigned", std::is_same<T, unsigned>::value); try_one(F(), "string", std::is_same<T, std::string>::value);
}
void m06(Rng & r, uint64_t idx) {
  if (idx % 20 == 3) {
    std::string n = random_string(r, 40);
    conv<int>("int", n); conv<std::vector<int>>("vector<int>", n); conv<Msg>("Msg", n); conv<unsigned>("unsigned", n); conv<std::string>("string", n);
    auto d = std::make_shared<D>(n); std::shared_ptr<SoDa::MailBoxBase> base = d;
    desc("conversion of a derived mailbox");
    try { if (SoDa::MailBoxBase::convert<Box>(base) != d || SoDa::MailBoxBase::convert<D>(base) != d) violation("M06:convert", "derived mailbox"); } catch (std::exception & e) { violation("M06:convert", std::string("derived mailbox: ") + e.what()); }
    try { std::shared_ptr<SoDa::MailBoxBase> p = SoDa::makeMailBox<Msg>(n); SoDa::MailBoxBase::convert<D>(p); violation("M06:convert", "a base mailbox became a derived one"); } catch (SoDa::MailBoxBase::BadConversion &) {} catch (std::exception & e) { violation("M06:convert", e.what()); }
    nontrivial(Hash().h ^ mix(idx)); return;
  }
  World w(r, "M06"); history(w, interesting_int(r, 5, r.chance(1, 20) ? 1500 : 120), r.oneof({10, 30, 60}), 5);
}
Reg rm06("M06", m06);
}
