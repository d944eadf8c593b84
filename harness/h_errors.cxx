// E01: what is thrown is of the documented types, names what it is about, and outlives its cause.
#include "hx.hxx"
#include "Barrier.hxx"
#include "Format.hxx"
#include "MailBox.hxx"
#include "PropertyTreeYAML.hxx"
#include <fstream>
#include <memory>
#include <thread>
#include <unistd.h>
using namespace hx;

namespace {
struct Caught { std::exception_ptr ep; std::shared_ptr<std::exception> copy; std::string text, kind; std::function<bool()> again; };
std::string name_for(Rng & r, bool key) {
  std::string s;
  switch (r.below(7)) {
  case 0: s = r.oneof<std::string>({"%0", "%1", "%2", "100%", "%%", "%0%1%2", "a%0b", "%", "%10", "%0%", "%99999999999", "%-1"}); break;
  case 1: s = r.oneof<std::string>({"[", "]", "{}", "\\n", "'", "$(x)", "~", "/", "..", "#", "@", "!", "&a", "*a"}); break;
  case 2: s = std::string((size_t) interesting_int(r, 1, key ? 200 : 4000), (char) ('a' + r.below(26))); break;
  case 3: s = dict.strs.empty() ? "d" : dict.strs[r.below(dict.strs.size())].substr(0, 200); break;
  case 4: s = key ? "k" : ""; break;
  default: { int n = r.range(1, 12); for (int i = 0; i < n; i++) s += (char) (key || r.chance(3, 4) ? 33 + r.below(94) : 1 + r.below(255)); }
  }
  std::string o; for (char c : s) if (c && !(key && (c == ':' || c == '"' || c == '\\' || c == ' ' || (unsigned char) c < 33 || (unsigned char) c > 126))) o += c;
  if (key && o.empty()) o = "k";
  return o;
}
// runs what must throw an X, and keeps what it throws; Mid is a class between X and SoDa::Exception
template <class X, class Mid = SoDa::Exception> bool keep(std::vector<Caught> & v, const char * kind, const std::string & what, const std::vector<std::string> & shown, const std::function<void()> & fn) {
  Caught c; c.kind = kind; int right = 0, mid = 0, base = 0, root = 0; desc(what); eval(); count(kind);
  try { try { try { try { try { fn(); } catch (X & x) { right++; c.copy = std::make_shared<X>(x); throw; } } catch (Mid &) { mid++; throw; } } catch (SoDa::Exception & x) { base++; throw; } } catch (std::runtime_error & x) { root++; throw; } }
  catch (std::exception & x) { c.text = x.what(); c.ep = std::current_exception(); }
  catch (...) { violation(std::string("E01:type:") + kind, what + " throws something that is no std::exception"); return false; }
  if (!c.ep) { violation(std::string("E01:none:") + kind, what + " throws nothing"); return false; }
  if (!right || !mid || !base || !root) { violation(std::string("E01:type:") + kind, what + " throws something else: " + q(c.text) + fmt(" (right type %d, class of its own %d, library exception %d, runtime error %d)", right, mid, base, root)); return false; }
  bool any = shown.empty(); std::string miss; for (auto & s : shown) if (c.text.find(s) == std::string::npos) { miss = s; break; } else any = true;
  if (!miss.empty() || !any) { violation(std::string("E01:text:") + kind, what + " throws " + q(c.text) + ", which does not show " + q(miss)); return false; }
  c.again = [ep = c.ep] { try { std::rethrow_exception(ep); } catch (X &) { return true; } catch (...) { return false; } };
  v.push_back(c); return true;
}
typedef SoDa::MailBox<int> MB;
typedef SoDa::MailBox<std::string> MS;
struct Tree : SoDa::PropertyTreeYAML { using PropertyTreeYAML::PropertyTreeYAML; Tree() {} };

bool one(Rng & r, std::vector<Caught> & v, std::string & log) {
  auto say = [&](const std::string & s) { if (log.size() < 3000) log += s + "; "; return s; };
  switch (r.below(8)) {
  case 0: { std::string n = name_for(r, false); unsigned w = (unsigned) r.range(2, 5); std::unique_ptr<SoDa::Barrier> own; SoDa::BarrierPtr sh; SoDa::Barrier * b; if (r.chance(1, 2)) { own.reset(new SoDa::Barrier(n, w)); b = own.get(); } else { sh = SoDa::makeBarrier(n, w); b = sh.get(); }
    std::string what = say("a lonely wait at barrier " + q(n)); bool chrono = r.chance(1, 2);
    if (!keep<SoDa::Barrier::Timeout, SoDa::Barrier::Exception>(v, "barrier_timeout", what, {n}, [&] { if (chrono) b->wait(std::chrono::milliseconds(1)); else b->wait(1); })) return false;
    for (int i = r.range(0, 2); i > 0; i--) if (!keep<SoDa::Barrier::Corrupt, SoDa::Barrier::Exception>(v, "barrier_corrupt", say("a wait at the broken barrier " + q(n)), {n}, [&] { b->wait(); })) return false;
    break; }
  case 1: { std::string n = name_for(r, false); std::unique_ptr<MB> m(new MB(n)); auto a = m->subscribe(), b = m->subscribe(); m->put(std::make_shared<int>(1)); m->unsubscribe(a->getIndex(m.get())); int k = (int) r.below(4);
    std::string what = say("an ended subscription of mailbox " + q(n) + fmt(" used for operation %d", k));
    if (!keep<SoDa::MailBoxBase::MissingSubscriber, SoDa::MailBoxBase::Exception>(v, "mailbox_missing_subscriber", what, {n}, [&] { switch (k) { case 0: m->get(a); break; case 1: m->readyCount(a); break; case 2: m->clear(a); break; default: m->unsubscribe(a->getIndex(m.get())); } })) return false;
    b.reset(); a.reset(); break; }
  case 2: { std::string n = name_for(r, false), n2 = r.chance(1, 3) ? n : name_for(r, false); MB m(n), m2(n2); auto a = m.subscribe(), b = m2.subscribe(); int k = (int) r.below(5);
    std::string what = say("a subscription of mailbox " + q(n2) + " used with mailbox " + q(n) + fmt(" for operation %d", k));
    if (!keep<SoDa::MailBoxBase::SubscriptionMismatch, SoDa::MailBoxBase::Exception>(v, "mailbox_mismatch", what, {n}, [&] { switch (k) { case 0: m.get(b); break; case 1: m.readyCount(b); break; case 2: m.clear(b); break; case 3: m.put(std::make_shared<int>(2), b); break; default: m.unsubscribe(b->getIndex(&m)); } })) return false;
    break; }
  case 3: { std::string n = name_for(r, false); std::shared_ptr<SoDa::MailBoxBase> p = r.chance(1, 2) ? std::shared_ptr<SoDa::MailBoxBase>(std::make_shared<MB>(n)) : std::make_shared<SoDa::MailBox<double>>(n);
    if (!keep<SoDa::MailBoxBase::BadConversion, SoDa::MailBoxBase::Exception>(v, "mailbox_bad_conversion", say("converting mailbox " + q(n)), {n}, [&] { SoDa::MailBoxBase::convert<MS>(p); })) return false;
    break; }
  case 4: { std::string k1 = name_for(r, true), k2 = name_for(r, true), text = name_for(r, true) + "x"; std::string f = scratch + "/e.yaml"; { std::ofstream o(f); o << "\"" << k1 << "\":\n  \"" << k2 << "\": \"q" << text << "\"\n"; }
    std::unique_ptr<Tree> t(new Tree); t->readFile(f); std::string path = k1 + ":" + k2;
    int k = (int) r.below(3); std::string lost = k == 0 ? path + "z" : k == 1 ? "z" + path : k1 + "z:" + k2;
    if (!keep<SoDa::PropertyTree::PropNode::PropertyNotFound>(v, "property_not_found", say("looking up " + q(lost)), {lost}, [&] { int i; std::string s; if (k == 1) t->get(i, lost, true); else t->get(s, lost, true); })) return false;
    if (!keep<SoDa::PropertyTree::PropNode::BadPropertyType>(v, "property_bad_type", say("reading " + q(path) + " with text " + q("q" + text) + " as a number"), {"q" + text, k2}, [&] { double d; unsigned u; if (k == 1) t->get(d, path, true); else t->get(u, path, true); })) return false;
    break; }
  case 5: { std::string f = r.chance(1, 2) ? scratch + "/nosuch-" + name_for(r, true) : "nosuch-" + name_for(r, true); if (!access(f.c_str(), F_OK)) break;
    if (!keep<SoDa::PropertyTree::FileNotFound>(v, "file_not_found", say("reading the missing file " + q(f)), {f}, [&] { if (r.chance(1, 2)) { Tree t(f); } else { Tree t; t.readFile(f); } })) return false;
    break; }
  case 6: { std::string base; for (char c : name_for(r, true)) if (c != '/' && base.size() < 200) base += c; std::string f = scratch + "/bad-" + base; { std::ofstream o(f); o << r.oneof<std::string>({"a: [1, 2\n", "a: b: %0\n", "b: [%1\n"}); }
    bool ok = keep<SoDa::PropertyTree::BadSyntax>(v, "file_bad_syntax", say("reading the malformed file " + q(f)), {f}, [&] { Tree t; t.readFile(f); }); unlink(f.c_str()); if (!ok) return false;
    break; }
  default: { std::string t = name_for(r, false) + " %0 " + name_for(r, false) + " %1"; std::unique_ptr<SoDa::Format> f(new SoDa::Format(t)); f->addS(name_for(r, false));
    if (!keep<SoDa::Format::BadFormat>(v, "format_unfilled", say("the checked text of the half-filled format " + q(t)), {t}, [&] { f->str(true); })) return false;
    break; }
  }
  return true;
}
bool recheck(const std::vector<Caught> & v, const char * when, std::string & why) {
  for (auto & c : v) {
    std::string now; try { std::rethrow_exception(c.ep); } catch (std::exception & x) { now = x.what(); }
    if (now != c.text) { why = c.kind + std::string(" said ") + q(c.text) + " when caught, but says " + q(now) + " " + when; return false; }
    if (c.copy->what() != c.text) { why = c.kind + std::string(" said ") + q(c.text) + " when caught, but its copy says " + q(c.copy->what()) + " " + when; return false; }
    if (!c.again()) { why = c.kind + std::string(" is of another type ") + when; return false; }
  }
  return true;
}
void e01(Rng & r, uint64_t) {
  std::vector<Caught> v; std::string log, why; int n = r.range(1, 10);
  for (int i = 0; i < n; i++) { if (!one(r, v, log)) return; if (r.chance(1, 3) && !recheck(v, "later", why)) { violation("E01:changed", log + why); return; } }
  desc("what is left of the exceptions of: " + log); sample(log); Hash h; h.add(log); nontrivial(h.h);
  std::string(5000, 'x').append("noise");
  if (!recheck(v, "after the objects are gone", why)) { violation("E01:changed", log + why); return; }
  if (r.chance(1, 8)) { bool ok = true; std::thread t([&] { ok = recheck(v, "in another thread", why); }); t.join(); count("exceptions_read_in_another_thread", v.size()); if (!ok) { violation("E01:changed", log + why); return; } }
  count("exceptions_read_again", v.size());
}
Reg re01("E01", e01);
}
