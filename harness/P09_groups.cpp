// @property P09
// @bounds histories of 2 operations (3 thorough) on a group holding the identifiers 2 and 4 out of add one, add two, add with fresh ids, remove by position (one or two), remove by identifier (one or two), replace, assign and clear, on layer groups, with any identifiers 0..6; groups of up to 4 elements of mixed class for the class filters; any identifier below 10^6 for identifier arithmetic; names of up to 4 symbolic characters
// @entry p09_history reach=rejected,removed,freshid,replaced,assigned shards=8 time=200 ttime=800 ms=200
// @entry p09_ctor reach=rejected,accepted
// @entry p09_select
// @entry p09_classes
// @entry p09_clone
// @entry p09_id
// @entry p09_name
#include "common.h"
#include "geometry/layer/Group.h"
#include <sstream>
#ifndef THOROUGH
#define THOROUGH 0
#endif
using namespace SEMBA::Geometry;
typedef Layer::Layer L; typedef Layer::Group<> G; typedef LayerId Id;
struct LA : L { LA(Id i, const std::string& n) : SEMBA::Class::Identifiable<Id>(i), L(i, n) {} LA(const LA& r) : SEMBA::Class::Identifiable<Id>(r), L(r) {} LA* clone() const { return new LA(*this); } };
struct LB : LA { LB(Id i, const std::string& n) : SEMBA::Class::Identifiable<Id>(i), LA(i, n) {} LB(const LB& r) : SEMBA::Class::Identifiable<Id>(r), LA(r) {} LB* clone() const { return new LB(*this); } };
struct Row { long id; L* p; };
typedef std::vector<Row> Model;
static long sid(const std::string& n, long lo = 0) { return symi(n, lo, 6); }
static int find(const Model& m, long id) { for (size_t i = 0; i < m.size(); i++) if (m[i].id == id) return (int)i; return -1; }
static void invariant(G& g, const Model& m, const char* when) {
    const G& c = g; std::string w(when);
    sym_check(g.size() == m.size(), (w + ":size").c_str()); sym_check(g.empty() == m.empty(), (w + ":empty").c_str()); if (g.size() != m.size()) return;
    for (size_t i = 0; i < m.size(); i++) { sym_check(g(i) == m[i].p && c(i) == m[i].p, (w + ":order").c_str()); sym_check(g(i)->getId() == Id(m[i].id), (w + ":ids-kept").c_str()); }
    std::vector<Id> ids = c.getIds(); sym_check(ids.size() == m.size(), (w + ":id-list-size").c_str()); for (size_t i = 0; i < ids.size() && i < m.size(); i++) sym_check(ids[i] == Id(m[i].id), (w + ":id-list").c_str());
    for (size_t i = 0; i < m.size(); i++) { bool ok = g.existId(Id(m[i].id)); sym_check(ok, (w + ":member-exists").c_str()); if (ok) sym_check(g.getId(Id(m[i].id)) == m[i].p && c.getId(Id(m[i].id)) == m[i].p, (w + ":member-found").c_str()); }
}
static void probe(G& g, const Model& m) {
    long q = sid("probe"); int k = find(m, q); bool ex = g.existId(Id(q)); sym_check(ex == (k >= 0), "probe-exists"); bool thrown = false; L* p = 0;
    try { p = g.getId(Id(q)); } catch (const SEMBA::Group::Error::Id::NotExists<Id>& e) { thrown = true; sym_check(e.getId() == Id(q), "error-names-the-id"); } catch (...) { sym_check(0, "missing-id-error-kind"); }
    sym_check(thrown == (k < 0), "missing-id-rejected"); if (k >= 0 && !thrown) sym_check(p == m[k].p, "probe-found");
}
static bool adding(G& g, Model& m, const std::vector<long>& ids, int how) {
    std::vector<L*> v; bool ok = true; Model add; for (size_t i = 0; i < ids.size(); i++) { L* l = new L(Id(ids[i]), "l"); v.push_back(l); if (ids[i] == 0 || find(m, ids[i]) >= 0 || find(add, ids[i]) >= 0) ok = false; Row r = {ids[i], l}; add.push_back(r); }
    bool thrown = false; try { if (how == 0) g.add(v); else if (how == 1) { G t; SEMBA::Group::Group<L> r(v); SEMBA::Group::Group<L> back = g.add(r); sym_check(back.size() == v.size() && back(0) == v[0], "add-returns-what-was-added"); } else if (v.size() == 1) g.add(v[0]); else g.add(v); } catch (const SEMBA::Group::Error::Id::Base<Id>&) { thrown = true; }
    sym_check(thrown == !ok, "add-rejected-iff-id-null-or-taken"); if (thrown) sym_reach("rejected"); if (ok) for (auto& r : add) m.push_back(r); return ok;
}
static void erase(Model& m, const std::vector<bool>& del) { Model r; for (size_t i = 0; i < m.size(); i++) if (!del[i]) r.push_back(m[i]); m = r; }
ENTRY p09_history() {
    G g; Model m; int n = THOROUGH ? 3 : 2;
    { std::vector<long> a; int o = THOROUGH ? sym_choice("start", 2) : 0; a.push_back(o ? 2 : 4); a.push_back(o ? 4 : 2); adding(g, m, a, 0); invariant(g, m, "start"); }
    for (int s = 0; s < n; s++) {
        std::string w = nm("s", s);
        switch (sym_choice((w + "op").c_str(), 8)) {
        case 0: { std::vector<long> a; a.push_back(sid(w + "i")); adding(g, m, a, s == 0 ? 2 : 1); invariant(g, m, "add"); break; }
        case 1: { std::vector<long> a; a.push_back(sid(w + "i")); a.push_back(sid(w + "j")); adding(g, m, a, s & 1); invariant(g, m, "add-two"); break; }
        case 2: { L* p = new L(s & 1 ? Id(sid(w + "i")) : Id(), "f"); SEMBA::Group::Group<L> back = g.addId(p); sym_reach("freshid"); sym_check(back.size() == 1 && back(0) == p, "returns-the-numbered-one"); sym_check(g.size() == m.size() + 1, "fresh-added"); if (g.size() != m.size() + 1) return; long id = (long)g(m.size())->getId().toInt(); sym_check(id != 0 && find(m, id) < 0, "fresh-id-unused"); Row r = {id, p}; m.push_back(r); invariant(g, m, "add-fresh"); break; }
        case 3: { if (m.empty()) return; int k = sym_choice((w + "k").c_str(), (int)m.size()); std::vector<bool> d(m.size(), false); d[k] = true; g.remove((size_t)k); erase(m, d); sym_reach("removed"); invariant(g, m, "remove"); break; }
        case 4: { if (m.empty()) return; int k = sym_choice((w + "k").c_str(), (int)m.size()), l = sym_choice((w + "l").c_str(), (int)m.size()); std::vector<bool> d(m.size(), false); d[k] = d[l] = true; std::vector<size_t> v; v.push_back(k); v.push_back(l); g.remove(v); erase(m, d); invariant(g, m, "remove-two"); break; }
        case 5: { long q = sid(w + "i"); std::vector<bool> d(m.size(), false); int k = find(m, q); if (k >= 0) d[k] = true; if (s & 1) { long q2 = sid(w + "j"); int k2 = find(m, q2); if (k2 >= 0) d[k2] = true; std::vector<Id> v; v.push_back(Id(q)); v.push_back(Id(q2)); g.removeId(v); } else g.removeId(Id(q)); erase(m, d); invariant(g, m, "remove-id"); break; }
        case 6: { if (m.empty()) return; int k = sym_choice((w + "k").c_str(), (int)m.size()); long q = sid(w + "i"); int at = find(m, q); bool ok = q != 0 && (at < 0 || at == k), thrown = false; L* p = new L(Id(q), "r"); try { g.set(k, p); } catch (const SEMBA::Group::Error::Id::Base<Id>&) { thrown = true; } sym_check(thrown == !ok, "replace-rejected-iff-id-null-or-taken"); if (ok) { Row r = {q, p}; m[k] = r; sym_reach("replaced"); } invariant(g, m, "replace"); break; }
        case 7: { if (s & 1) { g.clear(); m.clear(); invariant(g, m, "clear"); } else { G o; Model om; std::vector<long> a; a.push_back(sid(w + "i", 1)); adding(o, om, a, 0); if (s) { G b(o); g = b; invariant(o, om, "assign-source"); } else g = std::move(o); m = om; sym_reach("assigned"); invariant(g, m, "assign"); } break; }
        }
    }
    probe(g, m);
}
ENTRY p09_ctor() {
    long a = sid("a"), b = sid("b"); std::vector<L*> v; v.push_back(new L(Id(a), "x")); v.push_back(new L(Id(b), "y")); bool ok = a != 0 && b != 0 && a != b, thrown = false;
    try { if (sym_bool("plain")) { SEMBA::Group::Group<L> p(v); G g(p); sym_reach("accepted"); Model m; Row r = {a, v[0]}, t = {b, v[1]}; m.push_back(r); m.push_back(t); invariant(g, m, "from-group"); } else { G g(v); Model m; Row r = {a, v[0]}, t = {b, v[1]}; m.push_back(r); m.push_back(t); invariant(g, m, "from-pointers"); } } catch (const SEMBA::Group::Error::Id::Base<Id>&) { thrown = true; sym_reach("rejected"); }
    sym_check(thrown == !ok, "built-iff-ids-valid"); long c = sid("c"); bool t1 = false; L* one = new L(Id(c), "z"); try { G g(one); sym_check(g.size() == 1 && g(0) == one, "single"); } catch (const SEMBA::Group::Error::Id::Zero<Id>&) { t1 = true; } sym_check(t1 == (c == 0), "single-null-rejected");
}
ENTRY p09_select() {
    G g; Model m; std::vector<long> a; for (int i = 0; i < 3; i++) a.push_back(sid(nm("a", i), 1)); sym_assume(a[0] != a[1] && a[0] != a[2] && a[1] != a[2]); adding(g, m, a, 0);
    long q = sid("q"), r = sid("r"); std::vector<Id> v; v.push_back(Id(q)); v.push_back(Id(r)); const G& c = g; SEMBA::Group::Identifiable<L, Id> s = g.getId(v); SEMBA::Group::Identifiable<const L, Id> cs = c.getId(v); size_t k = 0;
    for (int i = 0; i < 3; i++) if (a[i] == q || a[i] == r) { if (k < s.size()) sym_check(s(k) == m[i].p, "selection-in-group-order"); if (k < cs.size()) sym_check(cs(k) == m[i].p, "selection-in-group-order-const"); k++; } sym_check(s.size() == k && cs.size() == k, "selection-size"); for (size_t i = 0; i < s.size(); i++) sym_check(s.existId(s(i)->getId()) && s.getId(s(i)->getId()) == s(i), "selection-is-indexed");
    std::vector<size_t> p; int x = sym_choice("x", 3), y = sym_choice("y", 3); p.push_back(x); p.push_back(y); SEMBA::Group::Group<L> t = g.get(p); int lo = x < y ? x : y, hi = x < y ? y : x; sym_check(t.size() == (size_t)(lo == hi ? 1 : 2), "positions-once"); if (t.size()) sym_check(t(0) == m[lo].p && t(t.size() - 1) == m[hi].p, "positions"); invariant(g, m, "selection-leaves-group");
    { SEMBA::Group::Group<L> w = g.get(p); w.clear(); } invariant(g, m, "shared-ownership");
}
ENTRY p09_classes() {
    G g; int kind[4], n = 4, nA = 0, nB = 0; for (int i = 0; i < n; i++) { kind[i] = sym_choice(nm("k", i).c_str(), 3); L* p = kind[i] == 0 ? new L(Id(i + 1), "l") : kind[i] == 1 ? new LA(Id(i + 1), "a") : new LB(Id(i + 1), "b"); g.add(p); nA += kind[i] >= 1; nB += kind[i] == 2; } const G& c = g;
    sym_check(g.sizeOf<LA>() == (size_t)nA && g.sizeOf<LB>() == (size_t)nB && g.sizeOf<L>() == (size_t)n, "size-of-class"); sym_check(g.emptyOf<LA>() == (nA == 0) && g.emptyOf<LB>() == (nB == 0), "empty-of-class");
    SEMBA::Group::Group<LA> a = g.getOf<LA>(), ao = g.getOfOnly<LA>(); SEMBA::Group::Group<const LB> b = c.getOf<LB>(); SEMBA::Group::Group<const LA> co = c.getOfOnly<LA>(); sym_check(a.size() == (size_t)nA && ao.size() == (size_t)(nA - nB) && b.size() == (size_t)nB && co.size() == ao.size(), "filtered-sizes"); size_t ia = 0, io = 0, ib = 0;
    for (int i = 0; i < n; i++) { if (kind[i] >= 1 && ia < a.size()) sym_check((L*)a(ia) == g(i), "filter-order"), ia++; if (kind[i] == 1 && io < ao.size() && io < co.size()) sym_check((L*)ao(io) == g(i) && (const L*)co(io) == c(i), "exact-filter-order"), io++; if (kind[i] == 2 && ib < b.size()) sym_check((const L*)b(ib) == c(i), "const-filter-order"), ib++; sym_check(g(i)->is<LA>() == (kind[i] >= 1), "is"); if (kind[i] >= 1) sym_check((L*)g(i)->castTo<LA>() == g(i), "cast"); }
    Layer::Group<LA> ga(g); sym_check(ga.size() == (size_t)nA, "narrowed"); Layer::Group<const L> gc(c); sym_check(gc.size() == (size_t)n, "const-view");
}
ENTRY p09_clone() {
    G g; std::vector<long> a; for (int i = 0; i < 2; i++) a.push_back(sid(nm("a", i), 1)); sym_assume(a[0] != a[1]); g.add(new LA(Id(a[0]), "one")); g.add(new L(Id(a[1]), "two")); G* h = g.clone(); sym_check(h->size() == 2, "clone-size"); for (size_t i = 0; i < h->size(); i++) { sym_check((*h)(i) != g(i) && *(*h)(i) == *g(i) && (*h)(i)->getId() == Id(a[i]), "clone-equal-but-distinct"); sym_check((*h)(i)->is<LA>() == (i == 0), "clone-keeps-class"); } sym_check(h->getId(Id(a[1])) == (*h)(1), "clone-indexed");
    (*h)(0)->setId(Id(9)); sym_check(g(0)->getId() == Id(a[0]), "clone-independent"); h->clear(); sym_check(g.size() == 2 && g.getId(Id(a[0])) == g(0), "original-untouched"); delete h; sym_check(g(1)->getName() == "two", "original-alive");
    L x(Id(a[0]), "n"), y(Id(a[1]), "n"), z(Id(a[0]), "m"); LA w(Id(a[0]), "n"); sym_check(x != y && x != z && !(x == w) && x == L(Id(a[0]), "n"), "layer-equality");
}
ENTRY p09_id() {
    long a = symi("a", 0, 1000000), b = symi("b", 0, 1000000); Id x(a), y(b); sym_check((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "order"); sym_check((x + y).toInt() == (size_t)(a + b), "sum"); Id z(x); z += y; sym_check(z == x + y, "in-place-sum"); Id p = z++; sym_check(p == x + y && z.toInt() == (size_t)(a + b + 1), "post-increment"); Id q = ++z; sym_check(q == z && z.toInt() == (size_t)(a + b + 2), "pre-increment"); z = y; sym_check(z == y && z.toInt() == (size_t)b, "assign"); sym_check(Id().toInt() == 0, "default"); std::stringstream ss; ss << x; Id r; ss >> r; sym_check(r == x, "stream-round-trip"); sym_check(Id(17).toStr() == "17", "text");
}
ENTRY p09_name() {
    std::string s; int n = sym_choice("n", 4); for (int i = 0; i < n; i++) { char c = (char)symi(nm("c", i), 32, 126); s += c; } L l(Id(1), s), k(s); std::string e; for (int i = 0; i < n; i++) e += s[i] == ' ' ? '_' : s[i]; sym_check(l.getName() == e && k.getName() == e, "blanks-become-underscores"); sym_check(k.getId() == Id(0), "no-id-yet");
    G g; g.add(new L(Id(3), "zz")); L* p = new L(Id(1), s); g.add(p); L* q = new L(Id(2), s); g.add(q); sym_check(g.getName(e) == (e == "zz" ? g(0) : p), "first-with-name"); sym_check(g.getName("longer-than-any") == 0, "absent-name");
}
