// P01-P05: the real property tree against a model of the documents it reads.
#include "hx.hxx"
#include "textval.hxx"
#include "PropertyTreeYAML.hxx"
#include <algorithm>
#include <climits>
#include <cxxabi.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>
using namespace hx;
using namespace textval;

namespace {
typedef SoDa::PropertyTree::PropNode Node;
struct Tree : SoDa::PropertyTreeYAML { Tree() {} explicit Tree(const std::string & f) : SoDa::PropertyTreeYAML(f) {} Node * top() { return root; } };

// ---- documents
enum K { SCALAR, MAP, LIST, NUL };
struct Doc; typedef std::shared_ptr<Doc> DocP;
struct Doc { K k = SCALAR; std::string text; std::vector<std::pair<std::string, DocP>> map; std::vector<DocP> list; int anchor = 0; bool emitted = false; };
// ---- what a tree must hold
struct Ent; typedef std::shared_ptr<Ent> EntP;
struct Ent { bool term = false; std::string text; std::map<std::string, EntP> map; std::vector<std::string> list; };
void fill_list(const DocP & d, Ent & e) { for (auto & x : d->list) { if (x->k == SCALAR) e.list.push_back(x->text); else if (x->k == LIST) fill_list(x, e); } }
void fill(const DocP & d, Ent & e) {
  if (d->k == LIST) { fill_list(d, e); return; }
  for (auto & p : d->map) switch (p.second->k) {
    case SCALAR: { auto n = std::make_shared<Ent>(); n->term = true; n->text = p.second->text; e.map[p.first] = n; break; }
    case MAP: { auto n = std::make_shared<Ent>(); fill(p.second, *n); e.map[p.first] = n; break; }
    case LIST: fill_list(p.second, e); break;
    default: break;
  }
}

struct Gen {
  Rng & r; int mode; bool uniq; std::vector<std::string> pool; std::vector<DocP> done; int serial = 0; int anchors = 0; bool aliases; int budget;
  int widest = 8, longest = 6, deepest = 7;
  Gen(Rng & rr, int m) : r(rr), mode(m) {
    uniq = r.chance(1, 2); aliases = r.chance(1, 4); budget = r.chance(1, 15) ? 300 : r.chance(1, 4) ? 60 : 15;
    int many = 10;
    switch (r.below(120)) { case 0: widest = (int) interesting_int(r, 10, 600); budget = widest + 50; many = r.oneof({10, 700}); break; case 1: longest = (int) interesting_int(r, 10, 2000); budget = longest + 50; break; case 2: deepest = r.range(8, 90); budget = 400; break; case 3: case 4: case 5: widest = 40; many = 60; budget = 120; break; default: break; }
    for (int i = r.range(3, many); i > 0; i--) { std::string k = raw_key(); if (std::find(pool.begin(), pool.end(), k) == pool.end()) pool.push_back(k); }
  }
  std::string word() { std::string s; int n = r.range(1, 7); for (int i = 0; i < n; i++) s += (char) ((r.chance(1, 6) ? 'A' : 'a') + r.below(26)); return s; }
  std::string raw_key() {
    std::string k;
    switch (r.below(14)) {
    case 0: k = std::to_string(interesting_int(r, 0, 100000)); break;
    case 1: k = word() + " " + word(); break;
    case 2: k = word() + "." + word(); break;
    case 3: k = "%" + std::to_string(r.below(3)); break;
    case 4: k = r.oneof<std::string>({"%%", "50%", "%x", "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "-", "--x", "#c", "a#b", "[", "{}", "a,b", "'", "\"", "*x", "&y", "!t", "|", ">", "@", "`", "?", "a?b", "=", "<<", "root", "null", "~", "true", "yes", "No", "0", "-1", "1e3", "\\", "/", ",", "a/b", "\t", "a\tb", "x\ny", "\x01"}); break;
    case 5: k = random_bytes(r, (size_t) interesting_int(r, 1, 60), 0); break;
    case 6: k = r.chance(1, 2) || dict.strs.empty() ? word() : r.pick(dict.strs); break;
    case 7: k = std::string(1, (char) ('a' + r.below(4))); break;
    case 8: k = pool.empty() ? word() : pool[0] + word().substr(0, 1); break;   // one key the beginning of another
    default: k = word(); break;
    }
    // (paths: keys are separated by colons, and blanks around them or in runs do not count)
    std::string o; for (char c : k) { if (c == ':' || c == '\0' || (unsigned char) c == 0x7f) continue; if (c == ' ' && (o.empty() || o.back() == ' ')) continue; o += c; } while (!o.empty() && o.back() == ' ') o.pop_back();
    if (hostile && r.chance(1, 4)) return k;
    return o.empty() ? "k" : o;
  }
  std::string number() {
    switch (r.below(9)) {
    case 0: { static const char * lim[] = {"127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-99999999999999999999"}; return lim[r.below(sizeof lim / sizeof *lim)]; }
    case 1: return std::to_string(r.range(-1000, 1000)); case 2: return fmt("%+d", r.range(0, 99)); case 3: return fmt("%.*f", r.range(0, 9), (r.unit() - 0.5) * 1e4);
    case 4: return fmt("%.*e", r.range(0, 17), (r.unit() - 0.5) * pow(10, r.range(-40, 40))); case 5: return r.oneof<std::string>({"1e400", "-1e400", "1e39", "3.5e38", "1e308", "1e-30", ".5", "5.", "0", "-0", "00012", "0.0", "+7", "+-7", "--7", "- 7", "-", "+", ".", "e5", "1e", "0x1F", "1,000", "inf", "nan"});
    case 6: return fmt("%s%ld", r.chance(1, 3) ? "-" : "", interesting_int(r, 0, LONG_MAX / 2)); case 7: return std::string((size_t) r.range(0, 3), '0') + std::to_string(r.below(300)); default: return std::to_string((long) r.next() >> r.below(64));
    }
  }
  std::string text() {
    if (mode == 2 && !r.chance(1, 4)) return r.chance(1, 8) ? std::string(1, (char) (33 + r.below(94))) : r.chance(1, 10) ? "" : r.chance(1, 12) ? word() : number();
    if (uniq) return r.oneof<std::string>({"v", "val ", "%0_", "x."}) + std::to_string(++serial) + r.oneof<std::string>({"q", "q", "% z", " and more"});
    switch (r.below(14)) {
    case 0: return ""; case 1: return number(); case 2: return word() + " " + word() + "  " + word(); case 3: return std::string((size_t) r.range(1, 3), ' ') + (r.chance(1, 2) ? word() + " " : ""); case 4: return r.oneof<std::string>({"null", "~", "true", "%0", "%1 %%", "a: b", "- x", "[1, 2]", "{a: 1}", "# no comment", "x # y", "it's", "\"q\"", "a:b:c", ":", "*a", "&a", "!!int 3", "|", "NULL", "Null", "\t", "tab\there", "multi\nline\ntext", "ends\n", "\n", "\\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "---", "...", "@x", "`"});
    case 5: return random_bytes(r, (size_t) interesting_int(r, 0, 200), 1); case 6: { std::string s = random_bytes(r, (size_t) interesting_int(r, 0, r.chance(1, 8) ? 5000 : 60), 3); return s; } case 7: return random_bytes(r, (size_t) r.range(1, 12), 4); case 8: return pool.empty() ? word() : r.pick(pool); case 9: return dict.strs.empty() || r.chance(1, 2) ? word() : r.pick(dict.strs);
    default: return word() + (r.chance(1, 3) ? " " + word() : "");
    }
  }
  DocP scalar() { auto d = std::make_shared<Doc>(); d->text = text(); return remember(d); }
  DocP remember(DocP d) { if (aliases && r.chance(1, 3)) done.push_back(d); return d; }
  DocP null() { auto d = std::make_shared<Doc>(); d->k = NUL; return d; }
  DocP list(int depth) { auto d = std::make_shared<Doc>(); d->k = LIST; for (int i = r.chance(1, 5) ? 0 : r.range(1, longest); i > 0 && budget > 0; i--) { budget--; d->list.push_back(depth < 5 && r.chance(1, 5) ? list(depth + 1) : (hostile && r.chance(1, 6)) ? map(depth + 1) : scalar()); } return d; }
  DocP map(int depth) {
    auto d = std::make_shared<Doc>(); d->k = MAP; std::set<std::string> used;
    for (int i = r.chance(1, 10) && deepest < 8 ? 0 : r.range(1, depth ? 5 : widest); i > 0 && budget > 0; i--) {
      budget--; std::string k = r.chance(3, 4) && !pool.empty() ? r.pick(pool) : raw_key();
      int w = (int) r.below(12);
      if (w == 0) { d->map.emplace_back("N_" + std::to_string(i), null()); continue; }              // these keys lead to no scalar and no map,
      if (w <= 2) { d->map.emplace_back("L_" + word() + std::to_string(i), list(0)); continue; }   // and are not looked up
      if (!hostile && !used.insert(k).second) continue;
      if (!done.empty() && r.chance(1, 5)) { d->map.emplace_back(k, r.pick(done)); continue; }
      d->map.emplace_back(k, depth < deepest && w <= (deepest > 7 ? 9 : 6) ? map(depth + 1) : scalar());
    }
    return remember(d);
  }
};

// ---- writing documents
std::string dq(const std::string & s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c == 127) o += fmt("\\x%02x", c); else o += (char) c; }
  return o + "\"";
}
bool plain_ok(const std::string & s) {
  if (s.empty() || s == "null" || s == "Null" || s == "NULL" || s == "~" || s == "<<" || s == "-" || s == "---" || s == "...") return false;
  for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (!(isalnum((unsigned char) c) || c == '_' || c == '.' || c == '/' || c == '+' || (unsigned char) c >= 0x80 || (i && (c == '-' || c == '%' || c == '=')) || (c == '-' && s.size() > 1 && isalnum((unsigned char) s[1])) || (c == ' ' && i && i + 1 < s.size()))) return false; }
  return true;
}
bool single_ok(const std::string & s) { for (unsigned char c : s) if (c < 32 || c == 127) return false; return true; }
struct Writer {
  Rng & r; std::string out; int anchors = 0; bool alias_ok; int style;
  Writer(Rng & rr) : r(rr), alias_ok(true), style((int) r.below(4)) {}
  std::string quoted(const std::string & s) {
    if (plain_ok(s) && !r.chance(1, 5)) return s;
    if (single_ok(s) && r.chance(1, 3)) { std::string o = "'"; for (char c : s) { o += c; if (c == '\'') o += c; } return o + "'"; }
    return dq(s);
  }
  std::string anchor(const DocP & d, bool shared) { d->emitted = true; if (!shared) return ""; d->anchor = ++anchors; return "&A" + std::to_string(d->anchor) + " "; }
  std::string flow(const DocP & d) {
    if (d->emitted && d->anchor) return "*A" + std::to_string(d->anchor) + " ";
    std::string a, o; bool share = d.use_count() > 1 && !d->emitted; 
    switch (d->k) {
    case SCALAR: o = quoted(d->text); break; case NUL: return r.oneof<std::string>({"~", "null"});
    case LIST: { o = "["; bool f = true; for (auto & x : d->list) { if (!f) o += ", "; f = false; o += flow(x); } o += "]"; break; }
    default: { o = "{"; bool f = true; for (auto & p : d->map) { if (!f) o += r.chance(1, 4) ? ",\n " + std::string(40, ' ') : ", "; f = false; o += quoted(p.first) + ": " + flow(p.second); } o += "}"; break; }
    }
    a = anchor(d, share); return a + o;
  }
  void junk(int ind) { if (r.chance(1, 12)) out += std::string((size_t) ind, ' ') + "# comment: [ { \" ' %\n"; if (r.chance(1, 12)) out += "\n"; }
  // the value of a key or list item, after "key:" or "-"
  void value(const DocP & d, int ind) {
    if (d->emitted && d->anchor) { out += " *A" + std::to_string(d->anchor) + "\n"; return; }
    bool empty = (d->k == MAP && d->map.empty()) || (d->k == LIST && d->list.empty());
    if (d->k == NUL) { out += r.chance(1, 2) ? "\n" : " ~\n"; return; }
    if (d->k == SCALAR) {
      bool share = d.use_count() > 1 && !d->emitted; std::string a = anchor(d, share);
      const std::string & t = d->text; size_t n = t.size();
      bool lit = n > 1 && t[n - 1] == '\n' && t[n - 2] != '\n' && t[0] != ' ' && t[0] != '\n' && r.chance(1, 2); if (lit) for (unsigned char c : t) if ((c < 32 && c != '\n') || c == 127) lit = false;
      if (lit) { out += " " + a + "|\n"; std::istringstream is(t); std::string l; while (std::getline(is, l)) { if (!l.empty()) out += std::string((size_t) ind + 2, ' ') + l; out += "\n"; } return; }
      out += " " + a + quoted(t) + (r.chance(1, 20) ? "   # remark" : "") + "\n"; return;
    }
    if (empty || r.chance(1, style == 0 ? 2 : 6)) { out += " " + flow(d) + "\n"; return; }
    bool share = d.use_count() > 1 && !d->emitted; std::string a = anchor(d, share); if (!a.empty()) out += " " + a; out += "\n"; block(d, ind + r.range(1, 4));
  }
  void block(const DocP & d, int ind) {
    std::string pad((size_t) ind, ' ');
    if (d->k == LIST) for (auto & x : d->list) { junk(ind); out += pad + "-"; if (x->k == LIST || x->k == MAP) out += " " + flow(x) + "\n"; else value(x, ind); }
    else for (auto & p : d->map) { junk(ind); out += pad + quoted(p.first) + ":"; value(p.second, ind); }
  }
  std::string document(const DocP & d) {
    if (r.chance(1, 6)) out += r.oneof<std::string>({"---\n", "# head\n", "\n\n", "%YAML 1.2\n---\n", "# a\n---\n"});
    if (d->k == SCALAR || d->k == NUL) out += flow(d) + "\n";
    else if ((d->k == MAP && d->map.empty()) || (d->k == LIST && d->list.empty()) || r.chance(1, 8)) out += flow(d) + "\n"; else block(d, 0);
    if (r.chance(1, 10)) out += "...\n"; if (r.chance(1, 6) && !out.empty() && out.back() == '\n') out.pop_back();
    return out;
  }
};
void put_file(const std::string & name, const std::string & text) { std::ofstream o(name, std::ios::binary); o << text; o.close(); if (!o) inconclusive("cannot write " + name); }
std::string fname(int i = 0) { return scratch + "/doc" + std::to_string(i) + ".yaml"; }
struct Written { DocP doc; std::string text; };
// a document that yaml-cpp itself reads as what it was written from
bool same_as(const YAML::Node & n, const Doc & d, int depth = 0) {
  if (depth > 300) return false;
  switch (d.k) {
  case NUL: return n.IsNull(); case SCALAR: return n.IsScalar() && n.Scalar() == d.text;
  case LIST: { if (!n.IsSequence() || n.size() != d.list.size()) return false; for (size_t i = 0; i < d.list.size(); i++) if (!same_as(n[i], *d.list[i], depth + 1)) return false; return true; }
  default: { if (!n.IsMap() || n.size() != d.map.size()) return false; size_t i = 0; for (auto it = n.begin(); it != n.end(); ++it, ++i) if (!it->first.IsScalar() || it->first.Scalar() != d.map[i].first || !same_as(it->second, *d.map[i].second, depth + 1)) return false; return true; }
  }
}
Written gen_doc(Rng & r, int mode, bool lists_too = true) {
  for (int k = 0; k < 50; k++) {
    Written w;
    { Gen g(r, mode); w.doc = lists_too && r.chance(1, 10) ? g.list(0) : g.map(0); }
    Writer wr(r); w.text = wr.document(w.doc);
    if (hostile) return w;
    try { if (same_as(YAML::Load(w.text), *w.doc) || (w.doc->k == MAP && w.doc->map.empty())) { count("documents"); return w; } } catch (std::exception &) { }
    count("documents_rejected_by_the_generator");
    if (getenv("HX_REJ")) fprintf(stderr, "REJ %s\n", q(w.text).c_str());
  }
  inconclusive("no document can be generated"); return Written();
}

// ---- looking at trees
std::string dump_of(Tree & t) { std::ostringstream o; t.dump(o); return o.str(); }
std::string join(const std::string & a, const std::string & b) { return a.empty() ? b : a + ":" + b; }
void compare(const char * prop, Tree & t, Node * n, const Ent & e, const std::string & path, const std::string & ctx, bool paths = true) {
  std::string P(prop), at = " at " + q(path) + " of " + ctx;
  if (n->is_terminal != e.term) { violation(P + ":kind", "a value and a branch are mixed up" + at); return; }
  if (e.term) { if (n->val_string != e.text) violation(P + ":text", "text " + q(n->val_string) + " instead of " + q(e.text) + at); count("values_compared"); return; }
  std::vector<std::string> ks, items; for (auto & k : n->getKeys()) ks.push_back(k); std::sort(ks.begin(), ks.end());
  std::vector<std::string> want; for (auto & p : e.map) want.push_back(p.first);
  auto show = [](const std::vector<std::string> & v) { std::string o; for (auto & s : v) { o += q(s) + " "; if (o.size() > 600) break; } return o; };
  if (ks != want) { violation(P + ":keys", "keys " + show(ks) + "instead of " + show(want) + at); return; }
  for (auto * x : n->getList()) { items.push_back(x->val_string); if (!x->is_terminal) violation(P + ":list", "a list item is no value" + at); }
  if (items != e.list) { violation(P + ":list", "list " + show(items) + "instead of " + show(e.list) + at); return; }
  count("list_items_compared", items.size()); count("keys_compared", ks.size());
  for (auto & p : e.map) {
    std::string pp = join(path, p.first); Node * c = n->getProp(p.first);
    if (!c) { violation(P + ":walk", "no node under the key " + q(p.first) + at); continue; }
    if (paths) {
      std::string gp = c->getPathName();
      if (gp != pp && t.top()->getProp(gp) != c) violation(P + ":path", "the node at " + q(pp) + " reports the path " + q(gp) + ", which does not lead back to it: " + ctx);
      if (t.top()->getProp(pp) != c || t.top()->getProp(pp, true) != c) violation(P + ":path", "the path " + q(pp) + " leads to another node than walking: " + ctx);
      count("paths_compared");
    }
    compare(prop, t, c, *p.second, pp, ctx, paths);
    if (violated()) return;
  }
}
struct Place { std::string path; std::vector<std::string> keys; const Ent * e; };
void places(const Ent & e, const Place & at, std::vector<Place> & out) { for (auto & p : e.map) { Place c = at; c.path = join(at.path, p.first); c.keys.push_back(p.first); c.e = p.second.get(); out.push_back(c); places(*p.second, c, out); } }
std::vector<Place> all_places(const Ent & e) { std::vector<Place> v; places(e, Place(), v); return v; }
size_t occurrences(const std::string & h, const std::string & n) { size_t c = 0, p = 0; while ((p = h.find(n, p)) != std::string::npos) { c++; p++; } return c; }
const Ent * find(const Ent & e, const std::vector<std::string> & keys) { const Ent * n = &e; for (auto & k : keys) { auto it = n->map.find(k); if (it == n->map.end()) return nullptr; n = it->second.get(); } return n; }
std::string ctx_of(const Written & w) { return "document " + q(w.text); }
template <class F> bool guarded(const char * key, const std::string & what, F f) {
  try { f(); return true; } catch (std::exception & e) { violation(key, what + " throws " + q(e.what())); return false; }
}

// ---- P01
void p01(Rng & r, uint64_t) {
  Written w = gen_doc(r, 1); put_file(fname(), w.text); desc("read " + ctx_of(w)); sample("read " + ctx_of(w)); std::string ctx = ctx_of(w);
  Ent e; fill(w.doc, e); std::unique_ptr<Tree> tp;
  if (!guarded("P01:read", "reading " + ctx, [&] { if (r.chance(1, 2)) { tp.reset(new Tree); tp->readFile(fname()); } else tp.reset(new Tree(fname())); })) return;
  Tree & t = *tp; auto pl = all_places(e); std::string before = dump_of(t); Hash h; h.add(w.text);
  for (auto & p : pl) if (p.e->term) {
    desc("get " + q(p.path) + " in " + ctx); eval();
    for (int th = 0; th < 2; th++) { std::string v = "unset"; bool ok = false;
      if (!guarded("P01:get", "get(" + q(p.path) + ") of " + ctx, [&] { ok = th ? t.get(v, p.path, true) : r.chance(1, 2) ? t.get(v, p.path) : t.get(v, p.path, false); })) return;
      if (!ok || v != p.e->text) { violation("P01:value", "get(" + q(p.path) + ") " + (ok ? "yields " + q(v) : "finds nothing") + " instead of " + q(p.e->text) + " in " + ctx); return; } }
    Node * n = t.top()->getProp(p.path); if (!n || !n->is_terminal || n->val_string != p.e->text) { violation("P01:getProp", "getProp(" + q(p.path) + ") is wrong in " + ctx); return; }
    if (p.keys.size() > 1 && r.chance(1, 2)) {   // from a node on the way
      size_t c = 1 + r.below(p.keys.size() - 1); std::string a, b; for (size_t i = 0; i < p.keys.size(); i++) { std::string & s = i < c ? a : b; s = join(s, p.keys[i]); }
      Node * m = t.top()->getProp(a); std::string v; if (!m || !m->getProp(b) || m->getProp(b, true) != n || !m->getProp(b)->get(v) || v != p.e->text) { violation("P01:relative", q(b) + " under " + q(a) + " is wrong in " + ctx); return; } count("relative_lookups"); }
    count("values_found");
  }
  if (hostile) for (int k = 0; k < 20; k++) { std::string path = r.chance(1, 20) ? random_bytes(r, 50000, 3) : random_string(r, 3000); if (r.chance(1, 2) && !pl.empty()) path = r.pick(pl).path + r.oneof({":", "::", " ", ""}) + path; desc("get " + q(path)); std::string v; double d; char c;
    try { t.get(v, path, r.chance(1, 2)); t.get(d, path, r.chance(1, 2)); t.get(c, path, r.chance(1, 2)); } catch (SoDa::Exception &) {} Node * m = t.top()->getProp(path); if (m) { m->getPathName(); m->getKeys(); m->getList(); m->getProp(path); } }
  // paths that lead nowhere
  Gen g(r, 1); std::vector<std::string> names = g.pool; for (auto & p : pl) for (auto & k : p.keys) names.push_back(k); names.push_back("nosuch"); names.push_back("root");
  for (int k = 0; k < 12; k++) {
    std::vector<std::string> keys; if (!pl.empty()) keys = r.pick(pl).keys;
    switch (r.below(9)) {
    case 0: keys.push_back(r.pick(names)); break; case 1: if (!keys.empty()) keys.back() = r.pick(names); break; case 2: if (!keys.empty()) keys.erase(keys.begin()); break;
    case 3: if (!keys.empty()) keys[r.below(keys.size())] += "x"; break; case 4: keys.insert(keys.begin() + (long) r.below(keys.size() + 1), r.pick(names)); break; case 5: std::reverse(keys.begin(), keys.end()); break;
    case 6: if (!keys.empty()) { std::string & s = keys[r.below(keys.size())]; if (s.size() > 1 && s[s.size() - 2] != ' ') s.pop_back(); else s = "q"; } break; case 7: if (!keys.empty()) { std::string & s = keys[r.below(keys.size())]; for (char & c : s) c = isupper((unsigned char) c) ? (char) tolower(c) : (char) toupper(c); } break;
    default: keys = {r.pick(names)}; for (int i = r.range(0, 3); i > 0; i--) keys.push_back(r.pick(names)); break;
    }
    if (keys.empty() || find(e, keys)) continue;
    std::string path; for (auto & s : keys) path = join(path, s); bool odd = false; for (auto & s : keys) if (s.find(':') != std::string::npos || s.empty()) odd = true; if (odd) continue;
    if (r.chance(1, 10)) { path.insert(path.find(':') == std::string::npos ? 0 : path.find(':'), ":"); }
    if (!pl.empty() && r.chance(1, 8)) { auto & p = r.pick(pl); path.clear(); size_t at = r.below(p.keys.size()); bool fine = true; for (size_t i = 0; i < p.keys.size(); i++) { if (p.keys[i].empty() || p.keys[i].find(':') != std::string::npos) fine = false; if (i) path += ":"; if (i == at) path += ":"; path += p.keys[i]; } if (!fine) continue; count("paths_with_an_empty_step"); }
    desc("get " + q(path) + " (absent) in " + ctx); eval(); count("absent_lookups"); h.add(path);
    std::string v = "unset"; bool ok = true; int i = 5; Node * n = nullptr;
    if (!guarded("P01:absent", "get(" + q(path) + ", false) of " + ctx, [&] { ok = t.get(v, path) || t.get(i, path, false); n = t.top()->getProp(path); if (!n) n = t.top()->getProp(path, false); })) return;
    if (ok || n) { violation("P01:absent", q(path) + " is found (" + q(v) + ") but is not in " + ctx); return; }
    for (int m = 0; m < 2; m++) {
      bool thrown = false;
      try { try { if (m) t.top()->getProp(path, true); else if (r.chance(1, 2)) t.get(v, path, true); else t.get(i, path, true); } catch (SoDa::Exception & x) { thrown = true; throw; } }
      catch (Node::PropertyNotFound & x) { if (!strstr(x.what(), path.c_str())) violation("P01:message", "the exception for " + q(path) + " says " + q(x.what()) + ": " + ctx); }
      catch (std::exception & x) { violation("P01:exception", q(path) + " throws another exception: " + q(x.what()) + ": " + ctx); }
      if (!thrown) { violation("P01:exception", q(path) + " is not there but no exception is thrown: " + ctx); return; }
    }
  }
  if (dump_of(t) != before) violation("P01:changed", "lookups changed the tree of " + ctx);
  compare("P01", t, t.top(), e, "", ctx, false);
  if (!pl.empty()) nontrivial(h.h);
}
Reg r1("P01", p01);

// ---- P02
template <class T> std::string show(const T & v) { return fmt("%.17g", (double) v); }
template <> std::string show(const std::string & v) { return q(v); }
template <> std::string show(const long & v) { return std::to_string(v); }
template <> std::string show(const unsigned long & v) { return std::to_string(v); }
template <class T> T init() { return (T) 77; }
template <> std::string init() { return "unset"; }
struct Failed { std::string path, type, msg; };
template <class T> bool convert(Rng & r, Tree & t, const Place & p, const char * tn, const std::string & ctx, std::vector<Failed> & failed) {
  T want = T(); Verdict ve = p.e->term ? read(p.e->text, want) : INVALID; if (ve == OPEN) { count("open_texts"); if (!hostile) return true; }
  std::string what = std::string("get<") + tn + ">(" + q(p.path) + ") of " + (p.e->term ? "text " + q(p.e->text) : "a branch") + " in " + ctx;
  desc(what); eval();
  for (int th = 0; th < 2; th++) for (int via = 0; via < 2; via++) {
    T v = init<T>(); bool ok = false, thrown = false;
    try {
      try { if (via) { Node * n = t.top()->getProp(p.path, r.chance(1, 2)); if (!n) { violation("P02:path", what + ": no node there"); return false; } ok = th ? n->get(v, true) : r.chance(1, 2) ? n->get(v) : n->get(v, false); } else ok = th ? t.get(v, p.path, true) : r.chance(1, 2) ? t.get(v, p.path) : t.get(v, p.path, false); }
      catch (SoDa::Exception &) { thrown = true; throw; }
    } catch (Node::BadPropertyType & x) {
      std::string m = x.what(); if (ve == VALID || !th) { violation("P02:throws", what + " throws " + q(m)); return false; }
      if (m.find(p.path) == std::string::npos || m.find(p.e->text) == std::string::npos) { violation("P02:message", what + ": the message does not name path and text: " + q(m)); return false; }
      if (via == 0) { failed.push_back(Failed{p.path, tn, m}); count("conversions_refused_by_exception"); }
    } catch (std::exception & x) { violation("P02:exception", what + " throws another exception: " + q(x.what())); return false; }
    if (th && !thrown && ve == INVALID) { violation("P02:accepted", what + " must throw but gives " + show(v)); return false; }
    if (thrown) continue;
    if (ok != (ve == VALID)) { violation("P02:accepted", what + (ok ? " is accepted as " + show(v) : " is refused")); return false; }
    if (ok && !(v == want)) { violation("P02:value", what + " gives " + show(v) + " instead of " + show(want)); return false; }
    count(ok ? "conversions_right" : "conversions_refused");
  }
  return true;
}
void p02(Rng & r, uint64_t) {
  Written w = gen_doc(r, 2, false); put_file(fname(), w.text); std::string ctx = ctx_of(w); desc("read " + ctx); sample("read " + ctx);
  Ent e; fill(w.doc, e); Tree t; if (!guarded("P02:read", "reading " + ctx, [&] { t.readFile(fname()); })) return;
  auto pl = all_places(e); Hash h; h.add(w.text); int n = 0;
  while (pl.size() > 12) pl.erase(pl.begin() + (long) r.below(pl.size()));
  for (auto & p : pl) {
    std::vector<Failed> f; bool ok = true;
    ok = ok && convert<int>(r, t, p, "int", ctx, f) && convert<double>(r, t, p, "double", ctx, f) && convert<std::string>(r, t, p, "std::string", ctx, f);
    ok = ok && convert<long>(r, t, p, "long", ctx, f) && convert<unsigned>(r, t, p, "unsigned", ctx, f) && convert<float>(r, t, p, "float", ctx, f) && convert<char>(r, t, p, "char", ctx, f);
    ok = ok && convert<unsigned long>(r, t, p, "unsigned long", ctx, f) && convert<short>(r, t, p, "short", ctx, f) && convert<unsigned short>(r, t, p, "unsigned short", ctx, f) && convert<unsigned char>(r, t, p, "unsigned char", ctx, f);
    if (!ok) return;
    for (auto & a : f) for (auto & b : f) if (a.type != b.type && a.msg == b.msg) { violation("P02:message", "the exceptions for " + a.type + " and " + b.type + " at " + q(p.path) + " both say " + q(a.msg) + ": the type is not named"); return; }
    n++;
  }
  if (n) nontrivial(h.h);
}
Reg r2("P02", p02);

// ---- P03
void count_texts(const Ent & e, std::map<std::string, size_t> & m) { for (auto & p : e.map) { m[p.first]++; if (p.second->term) m[p.second->text]++; else count_texts(*p.second, m); } for (auto & s : e.list) m[s]++; }
void p03(Rng & r, uint64_t) {
  Written w = gen_doc(r, 3); put_file(fname(), w.text); std::string ctx = ctx_of(w); desc("walk " + ctx); sample("walk " + ctx);
  Ent e; fill(w.doc, e); Tree t; if (!guarded("P03:read", "reading " + ctx, [&] { t.readFile(fname()); })) return;
  compare("P03", t, t.top(), e, "", ctx); if (violated()) return;
  std::string d = dump_of(t); std::map<std::string, size_t> m; count_texts(e, m); eval(); size_t n = 0;
  if (d.size() < 60000) for (auto & x : m) { if (x.first.empty()) continue; n++; if (occurrences(d, x.first) < x.second) { violation("P03:dump", q(x.first) + fmt(" occurs %zu times in ", x.second) + ctx + fmt(" but %zu times in the dump ", occurrences(d, x.first)) + q(d)); return; } }
  count("texts_looked_up_in_dumps", n);
  if (dump_of(t) != d) violation("P03:dump", "two dumps differ: " + ctx);
  auto pl = all_places(e); for (int k = 0; k < 3 && !pl.empty() && d.size() < 60000; k++) {   // dumps of single nodes
    auto & p = r.pick(pl); Node * nd = t.top()->getProp(p.path); if (!nd) break; std::ostringstream o; std::string what = "dump of " + q(p.path) + " in " + ctx; desc(what); nd->dump(o, r.oneof<std::string>({"", "  ", "\t"})); std::map<std::string, size_t> sub; if (p.e->term) sub[p.e->text]++; else count_texts(*p.e, sub);
    for (auto & x : sub) if (!x.first.empty() && occurrences(o.str(), x.first) < x.second) { violation("P03:dump", q(x.first) + fmt(" occurs less than %zu times in the ", x.second) + what + ": " + q(o.str())); return; } count("node_dumps"); }
  if (!m.empty()) { Hash h; h.add(w.text); nontrivial(h.h); }
}
Reg r3("P03", p03);

// ---- P04
bool complex_keys(const YAML::Node & n, int depth, int & left) {
  if (depth > 400 || --left < 0) return true;
  if (n.IsSequence()) for (auto it = n.begin(); it != n.end(); ++it) if (complex_keys(*it, depth + 1, left)) return true;
  if (n.IsMap()) for (auto it = n.begin(); it != n.end(); ++it) if (!(it->first.IsScalar() || it->first.IsNull()) || complex_keys(it->second, depth + 1, left)) return true;
  return false;
}
std::string mutate(Rng & r, std::string t) {
  static const char special[] = "{}[]:,-?&*!|>'\"%@`#\n\t ~<=\\";
  for (int k = r.chance(1, 2) ? 1 : r.range(1, 6); k > 0; k--) {
    size_t p = r.below(t.size() + 1); std::string s(1, special[r.below(sizeof special - 1)]);
    switch (r.below(9)) {
    case 0: t.resize(p); break; case 1: case 2: t.insert(p, s); break; case 3: if (p < t.size()) t[p] = s[0]; break; case 4: if (p < t.size()) t.erase(p, (size_t) r.range(1, 4)); break;
    case 5: t.insert(p, r.oneof<std::string>({"\n\t", "- ", ": ", "? ", "[", "{", "\n---\n", "\n...\n", "\n  ", "\"", "!!int ", "*x ", "&x ", "%TAG ! !\n", "\n- a\nb: c\n", "\x00", "\xff\xfe", "\xef\xbb\xbf"})); break;
    case 6: if (p < t.size()) t[p] = (char) r.below(256); break; case 7: { size_t n = std::min<size_t>(t.size() - p, r.below(30)); t.insert(r.below(t.size() + 1), t.substr(p, n)); break; }
    default: if (p < t.size()) std::swap(t[p], t[r.below(t.size())]); break;
    }
  }
  return t;
}
std::string missing_name(Rng & r) {
  std::string b = scratch + "/";
  if (r.chance(1, 3)) { // the name as such must not matter: paths of every form, spelled out or relative
    std::string f; int n = (int) r.range(0, 3); f = r.oneof<std::string>({"", "./", "../", "~/", "./../", ".//", "../../", "/", "//"});
    f += "nosuch-" + std::string(r.chance(1, 2) ? "" : fmt("%d", (int) r.below(1000))); if (r.chance(1, 4)) f = r.oneof<std::string>({".", "-", "#", "$HOME/", "*", "file:///", "http://", "c:\\", "@", "!", "~"}) + f;
    for (int i = 0; i < n; i++) f += r.oneof<std::string>({"/", "/./", "/../", "."}) + std::string(1, (char) ('a' + r.below(26))) + "w";
    f += r.oneof<std::string>({"", ".yaml", ".yml", ".YAML", ".json", ".txt", ".conf", "/", "~", ".bak", ".gz", " "}); if (!dict.strs.empty() && r.chance(1, 6)) for (char c : dict.strs[r.below(dict.strs.size())]) if (c) f += c;
    if (access(f.c_str(), F_OK) != 0) return f; }
  switch (r.below(10)) {
  case 0: return b + "nosuch.yaml"; case 1: return b + "no/such/dir/file.yaml"; case 2: return fname(0) + "/x.yaml"; case 3: return b + std::string(300, 'n'); case 4: return b + r.oneof<std::string>({"%0", "%1.yaml", "50%", "%%", "a b.yaml", " ", "\n", "quote\"", "\xff"}); case 5: return "";
  case 6: { std::string l = b + "loop"; unlink(l.c_str()); if (symlink("loop", l.c_str())) {} return l; } case 7: { std::string l = b + "dangling"; unlink(l.c_str()); if (symlink("nowhere-at-all", l.c_str())) {} return l; } case 8: return "nosuch-relative.yaml"; default: return b + random_bytes(r, (size_t) r.range(1, 40), 0) + ".missing";
  }
}
template <class X> bool expect(Tree & t, const char * key, const std::string & what, const std::string & name, const std::string & problem, const std::string & file, bool ctor) {
  for (int m = 0; m < 3; m++) {
    bool right = false, base = false, root = false; std::string msg;
    auto go = [&] { if (ctor) { SoDa::PropertyTreeYAML x(file); } else if (m == 1) static_cast<SoDa::PropertyTree &>(t).readFile(file); else t.readFile(file); };
    try { try { try { go(); } catch (X & x) { right = true; throw; } } catch (SoDa::Exception & x) { base = true; throw; } } catch (std::exception & x) { root = true; msg = x.what(); }
    if (!right || !base || !root) { violation(key, what + (root ? " throws something else: " + q(msg) : " throws nothing")); return false; }
    if (msg.find(name) == std::string::npos && (problem.empty() || msg.find(problem) == std::string::npos)) { violation(std::string(key) + ":message", what + " throws " + q(msg) + ", which does not name the problem"); return false; }
    if (ctor) break;
  }
  return true;
}
void p04(Rng & r, uint64_t) {
  Written w = gen_doc(r, 1); put_file(fname(), w.text); std::string ctx = ctx_of(w); desc("read " + ctx); sample("read " + ctx); Ent e; Tree t; Hash h; h.add(w.text);
  bool loaded = r.chance(4, 5); if (loaded) { fill(w.doc, e); if (!guarded("P04:valid", "reading " + ctx, [&] { t.readFile(fname()); })) return; }
  std::string before = dump_of(t);
  for (int k = 0; k < 6; k++) {
    bool ctor = r.chance(1, 4);
    switch (r.below(hostile ? 6 : 5)) {
    case 0: { std::string f = missing_name(r); std::string what = "reading the missing file " + q(f); desc(what); eval(); count("missing_files"); if (!expect<SoDa::PropertyTree::FileNotFound>(t, "P04:missing", what, f, "", f, ctor)) return; h.add(f); break; }
    case 1: { static const char * em[] = {"", "\n", "# only a comment\n", "---\n", "---\n...\n", "   \n\n", "\n# a\n  # b\n", "~\n", "{}", "[]", "--- {}\n"}; std::string s = em[r.below(sizeof em / sizeof *em)]; put_file(fname(1), s); std::string what = "reading an empty document " + q(s); desc(what); eval(); count("empty_files"); if (!guarded("P04:empty", what, [&] { t.readFile(fname(1)); if (ctor) { Tree u(fname(1)); if (!u.top()->getKeys().empty() || !u.top()->getList().empty()) violation("P04:empty", what + " adds something"); } })) return; break; }
    default: {
      std::string s; if (r.chance(1, 6)) s = r.oneof<std::string>({"a: [1, 2\n", "a: {b: 1\n", "a: b: c\n", "\t- x\n", "a: \"open\n", "- a\nb: c\n", "a: *nosuch\n", "%YAML 1.2\n", "a: 'x\n", "[1, 2]]\n", "}\n", "a: 1\n b: 2\n", "key: [a, b]: c\n", "@x\n", "a: %b\n", "a: |3x\n  b\n", "!<x\n", "&a &b c\n", "? [a]\n"}); else if (hostile && r.chance(1, 3)) s = r.chance(1, 4) ? std::string((size_t) r.range(1, 400), r.oneof({'[', '{', '-', '?', '&', '!'})) : random_string(r, 3000); else s = mutate(r, r.chance(1, 2) ? w.text : gen_doc(r, 1).text);
      if (s.find('&') != std::string::npos && s.find('*') != std::string::npos) { count("mutants_with_aliases_left_out"); break; }   // (they may be cyclic)
      put_file(fname(2), s); std::string what = "reading the document " + q(s); desc("yaml-cpp " + what);
      bool bad = false, other = false; std::string problem; YAML::Node n; int left = 20000;
      try { n = YAML::LoadFile(fname(2)); if (complex_keys(n, 0, left)) other = true; } catch (YAML::Exception & x) { bad = true; problem = x.what(); } catch (std::exception &) { other = true; }
      if (other && !hostile) { count("documents_left_out"); break; }
      desc(what); eval(); h.add(s);
      if (bad) { count("malformed_files"); if (!expect<SoDa::PropertyTree::BadSyntax>(t, "P04:malformed", what, fname(2), problem, fname(2), ctor)) return; }
      else { count("mutants_still_valid"); Tree u; if (!guarded("P04:valid", what, [&] { u.readFile(fname(2)); if (hostile) { dump_of(u); t.readFile(fname(2)); } })) return; }
      break; }
    }
    if (dump_of(t) != before) { violation("P04:changed", "a file that adds nothing changed the tree of " + ctx); return; }
  }
  compare("P04", t, t.top(), e, "", ctx, false); if (violated()) return;
  Written w2 = gen_doc(r, 1); put_file(fname(3), w2.text); desc("then read " + ctx_of(w2)); if (!guarded("P04:valid", "reading " + ctx_of(w2), [&] { t.readFile(fname(3)); })) return; fill(w2.doc, e);
  compare("P04", t, t.top(), e, "", ctx + " then " + ctx_of(w2), false); count("trees_compared"); nontrivial(h.h);
}
Reg r4("P04", p04);

// ---- P05
void p05(Rng & r, uint64_t) {
  int nt = r.range(1, 3), steps = r.range(2, 8); std::vector<std::unique_ptr<Tree>> t; std::vector<Ent> e(nt); std::vector<Written> docs; std::string ctx; Hash h;
  for (int i = 0; i < nt; i++) t.emplace_back(new Tree);
  // documents that share their keys
  Gen g(r, 1); for (int i = r.range(2, 4); i > 0; i--) { Written w;
    for (int k = 0; k < 50; k++) { g.budget = r.chance(1, 10) ? r.range(40, 300) : r.range(3, 40); g.done.clear(); w.doc = r.chance(1, 8) ? g.list(0) : g.map(0); g.done.clear(); Writer wr(r); w.text = wr.document(w.doc); if (hostile) break; bool ok = false; try { ok = same_as(YAML::Load(w.text), *w.doc); } catch (std::exception &) {} if (ok) break; if (k == 49) inconclusive("no document"); }
    if (i > 1 && r.chance(1, 4)) { w.doc.reset(new Doc); w.doc->k = MAP; w.text = r.oneof<std::string>({"", "\n", "# nothing\n", "---\n", "{}", "---\n...\n", " \n\n# a\n"}); count("empty_documents"); }
    put_file(fname((int) docs.size()), w.text); docs.push_back(w); ctx += fmt("D%zu=", docs.size() - 1) + q(w.text) + " "; h.add(w.text); }
  ctx += "read:";
  // every path of every document, and paths that name nothing, are looked up between the reads
  std::vector<std::vector<std::string>> known; for (auto & d : docs) { Ent x; fill(d.doc, x); for (auto & p : all_places(x)) if (known.size() < 200 && (known.size() < 30 || r.chance(1, 3))) known.push_back(p.keys); } known.push_back({"nosuch"}); known.push_back({"no", "such", "path"});
  auto look = [&](size_t i) {
    for (auto & k : known) {
      if (r.chance(1, 4)) continue;
      std::string path; for (auto & x : k) path = join(path, x); bool thr = r.chance(1, 3), ok = false, thrown = false; std::string v = "unset"; const Ent * n = find(e[i], k); std::string what = "get(" + q(path) + fmt(") of tree %zu after ", i) + ctx;
      try { ok = t[i]->get(v, path, thr); } catch (Node::PropertyNotFound &) { thrown = true; if (n) { violation("P05:lookup", what + " throws"); return false; } } catch (Node::BadPropertyType &) { thrown = true; if (!n || n->term) { violation("P05:lookup", what + " throws"); return false; } } catch (std::exception & x) { violation("P05:lookup", what + " throws " + q(x.what())); return false; }
      if (n && n->term ? !ok || v != n->text : ok || (thr && !n && !thrown)) { violation("P05:lookup", what + (ok ? " gives " + q(v) : " finds nothing") + (n && n->term ? " instead of " + q(n->text) : " although nothing is there")); return false; }
      Node * nd = t[i]->top()->getProp(path); if (!nd != !n) { violation("P05:lookup", what + ": getProp " + (nd ? "finds a node" : "finds nothing")); return false; }
      count(n ? "lookups_between_reads" : "absent_lookups_between_reads");
    }
    return true;
  };
  for (int s = 0; s < steps; s++) {
    size_t i = r.below(nt), d = r.below(docs.size()); ctx += fmt(" tree %zu D%zu,", i, d); desc(ctx); h.add(i * 100 + d);
    if (r.chance(1, 12)) { size_t l = all_places(e[i]).size(); (void) l; t[i].reset(new Tree); e[i] = Ent(); ctx += "(anew)"; }
    if (!guarded("P05:read", ctx, [&] { t[i]->readFile(fname((int) d)); })) return;
    Ent add; fill(docs[d].doc, add); for (auto & p : add.map) { if (e[i].map.count(p.first)) count("entries_replaced"); else count("entries_added"); e[i].map[p.first] = p.second; } for (auto & x : add.list) e[i].list.push_back(x); count("list_items_appended", add.list.size());
    eval(); size_t which = r.chance(1, 3) ? i : r.below(nt); compare("P05", *t[which], t[which]->top(), e[which], "", fmt("tree %zu after ", which) + ctx); if (violated()) return;
    if (r.chance(2, 3) && !look(r.chance(1, 2) ? i : r.below(nt))) return;
  }
  sample(ctx);
  for (int i = 0; i < nt; i++) { compare("P05", *t[i], t[i]->top(), e[i], "", fmt("tree %d after ", i) + ctx); if (violated()) return;
    for (auto & p : all_places(e[i])) if (p.e->term) { std::string v; if (!t[i]->get(v, p.path) || v != p.e->text) { violation("P05:get", q(p.path) + fmt(" of tree %d is wrong after ", i) + ctx); return; } } }
  if (steps > 1) nontrivial(h.h);
}
Reg r5("P05", p05);
}
