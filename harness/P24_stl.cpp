// @property P24
// @bounds files of up to 3 solids and 3 facets (4 thorough) on up to 5 points with any coordinates in [-1e6,1e6], shared or not, in any solid, written with any of the stated spacings, names and line ends; one file cut at every place
// @assume different points differ by at least 1 in their first coordinate, except for one pair that may be as near as wanted
// @entry p24_solids shards=2 reach=empty,shared
// @entry p24_names
// @entry p24_style
// @entry p24_near
// @entry p24_cut reach=refused,none,one
// @entry p24_refused reach=refused,accepted
// @entry p24_nothing
#include "elems.h"
#include <memory>
#include <fstream>
#include <iomanip>
#include "parser/stl/Parser.h"
#include "geometry/mesh/Geometric.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
typedef Mesh::Geometric Geo; typedef PhysicalModel::Predefined::PEC Pec;
static std::string num(double v) { std::stringstream s; s << std::setprecision(17) << v; return s.str(); }
struct Style { std::string in, nl, sep, exp; Style() : in("  "), nl("\n"), sep(" ") {} };
static std::string vtx(const CVecR3& p, const Style& s = Style()) { return s.in + s.in + s.in + "vertex" + s.sep + num(p(0)) + s.sep + num(p(1)) + s.sep + num(p(2)) + s.nl; }
static std::string facet(const CVecR3* p, int n = 3, const Style& s = Style()) { std::string t = s.in + "facet normal 0.5e0 -1 0" + s.nl + s.in + s.in + "outer loop" + s.nl; for (int i = 0; i < n; i++) t += vtx(p[i], s); return t + s.in + s.in + "endloop" + s.nl + s.in + "endfacet" + s.nl; }
static std::string solid(const std::string& name, const std::string& facets, const Style& s = Style(), const char* end = 0) { std::string e = end ? end : name; return "solid" + (name.empty() ? "" : " " + name) + s.nl + facets + "endsolid" + (e.empty() ? "" : " " + e) + s.nl; }
static std::unique_ptr<Data> load(const std::string& t) { std::stringstream s(t); SEMBA::Parser::STL::Parser p; try { return std::unique_ptr<Data>(new Data(p.read(s))); } catch (const std::exception&) { return std::unique_ptr<Data>(); } }
static const Geo* geo(const std::unique_ptr<Data>& d) { return d && d->mesh ? d->mesh->castTo<Geo>() : 0; }
static void whole(const Data& d, const Geo& g) { sym_check(!d.solver && d.sources && d.sources->size() == 0 && d.outputRequests && d.outputRequests->size() == 0, "only-a-mesh"); bool pec = d.physicalModels && d.physicalModels->size() == 1 && dynamic_cast<const Pec*>((*d.physicalModels)(0)); sym_check(pec, "one-conductor"); for (size_t i = 0; i < g.elems().size(); i++) { const ElemR* e = g.elems()(i); sym_check(dynamic_cast<const Tri3*>((const Elem*)e) != 0, "triangles"); sym_check(e->getModel() && pec && e->getModel() == (const Element::Model*)(*d.physicalModels)(0), "of-the-conductor"); for (size_t j = 0; j < i; j++) sym_check(g.elems()(j)->getId() != e->getId(), "identifiers-differ"); for (int k = 0; k < 3; k++) { const CoordR3* c = e->getV(k); bool mine = c && g.coords().existId(c->getId()) && g.coords().getId(c->getId()) == c; sym_check(mine, "on-coordinates-of-the-mesh"); } } }
static const Geo* count(const std::unique_ptr<Data>& d, size_t tri, size_t lay) { sym_check(geo(d) != 0, "read"); if (!geo(d)) return 0; const Geo* g = geo(d); sym_check(g->elems().size() == tri && g->layers().size() == lay, "as-many-facets-and-solids"); if (g->elems().size() != tri || g->layers().size() != lay) return 0; whole(*d, *g); return g; }
static void tri(const Geo& g, size_t i, const CVecR3* p, size_t lay, const std::string& name) { const ElemR* e = g.elems()(i); for (int k = 0; k < 3; k++) sym_check(same(e->getV(k)->pos(), p[k]), "corners-in-order"); sym_check(e->getLayer() == g.layers()(lay) && e->getLayer()->getName() == name, "in-the-layer-of-its-solid"); }
static const int C[6][3] = {{0, 1, 2}, {2, 1, 3}, {4, 3, 0}, {1, 0, 2}, {3, 4, 2}, {0, 2, 4}};
static void points(CVecR3* p, int n) { for (int i = 0; i < n; i++) { p[i] = symR3(nm("p", i), -1e6, 1e6); p[i](0) = 10 * i + symr(nm("x", i), 0, 9); } }
ENTRY p24_solids() {
    const int N = THOROUGH ? 4 : 3; int n = sym_choice("facets", N + 1), m = sym_choice("solids", 4), at[4], c[4]; CVecR3 p[5]; points(p, 5); if (m == 0 && n) return; std::string f[3]; static const char* names[3] = {"first", "second", "first"}; for (int i = 0; i < n; i++) { at[i] = m > 1 ? sym_choice(nm("in", i).c_str(), m) : 0; c[i] = i == 0 ? 0 : sym_choice(nm("corners", i).c_str(), i == 1 ? 6 : 2); CVecR3 q[3] = {p[C[c[i]][0]], p[C[c[i]][1]], p[C[c[i]][2]]}; f[at[i]] += facet(q); if (i && c[i] == c[0]) sym_reach("shared"); } std::string t; for (int i = 0; i < m; i++) t += solid(names[i], f[i]); if (!n) sym_reach("empty");
    std::unique_ptr<Data> d = load(t); const Geo* g = count(d, n, m); if (!g) return; size_t k = 0; for (int s = 0; s < m; s++) { sym_check(g->layers()(s)->getName() == names[s], "layer-names"); for (int i = 0; i < n; i++) if (at[i] == s) { CVecR3 q[3] = {p[C[c[i]][0]], p[C[c[i]][1]], p[C[c[i]][2]]}; tri(*g, k++, q, s, names[s]); } } for (int s = 0; s < m; s++) for (int r = 0; r < s; r++) sym_check(g->layers()(r)->getId() != g->layers()(s)->getId(), "layers-apart");
}
ENTRY p24_names() { static const char* N[8] = {"", "a", "two words", "vertex", "facet", "outer loop", "endloop", "solid"}; static const char* W[8] = {"", "a", "two_words", "vertex", "facet", "outer_loop", "endloop", "solid"}; int a = sym_choice("a", 8), b = sym_choice("b", 8), e = sym_choice("end", 3); static const char* const E[3] = {0, "", "another"}; CVecR3 p[4]; points(p, 4); std::unique_ptr<Data> d = load(solid(N[a], facet(p), Style(), E[e]) + solid(N[b], facet(p + 1))); const Geo* g = count(d, 2, 2); if (!g) return; tri(*g, 0, p, 0, W[a]); tri(*g, 1, p + 1, 1, W[b]); }
ENTRY p24_style() { static const char* I[3] = {"", "\t", "     "}; Style s; s.in = I[sym_choice("in", 3)]; s.nl = sym_choice("crlf", 2) ? "\r\n" : "\n"; s.sep = sym_choice("sep", 2) ? "   " : "\t"; bool blank = sym_choice("blank", 2), last = sym_choice("last", 2); CVecR3 p[4]; points(p, 4); std::string t = solid("name", facet(p, 3, s) + (blank ? s.nl : "") + facet(p + 1, 3, s), s); if (blank) t = s.nl + t + s.nl; else if (last) t = t.substr(0, t.size() - s.nl.size()); std::unique_ptr<Data> d = load(t); const Geo* g = count(d, 2, 1); if (!g) return; tri(*g, 0, p, 0, "name"); tri(*g, 1, p + 1, 0, "name"); }
ENTRY p24_near() { CVecR3 p[3], q[3]; points(p, 3); for (int i = 0; i < 3; i++) q[i] = p[i]; int k = sym_choice("k", 3), a = sym_choice("axis", 3); q[k](a) += symr("d", -0.5, 0.5); std::unique_ptr<Data> d = load(solid("n", facet(p) + facet(q))); const Geo* g = count(d, 2, 1); if (!g) return; for (int i = 0; i < 3; i++) { close3(g->elems()(0)->getV(i)->pos(), p[i], 0.01, "first-corners"); close3(g->elems()(1)->getV(i)->pos(), q[i], 0.01, "near-corners"); } }
ENTRY p24_cut() { static const CVecR3 P[3] = {CVecR3(0, 1, 2), CVecR3(3, 4, 5), CVecR3(6, 7, 9)}; std::string t = solid("n", facet(P)); int n = sym_choice("cut", (int)t.size() + 1); t = t.substr(0, n); bool in = t.find("outer loop") != std::string::npos, out = t.find("endloop") != std::string::npos; std::unique_ptr<Data> d = load(t); if (in && !out) { sym_check(!d, "cut-facets-refused"); sym_reach("refused"); return; } sym_reach(in ? "one" : "none"); sym_check(geo(d) && geo(d)->elems().size() == (size_t)(in ? 1 : 0), "whole-facets-only"); if (in && geo(d) && geo(d)->elems().size() == 1) { whole(*d, *geo(d)); tri(*geo(d), 0, P, 0, "n"); } }
ENTRY p24_refused() { int k = sym_choice("k", 6), n = sym_choice("n", 6), before = sym_choice("before", 2); CVecR3 p[5]; points(p, 5); std::string f; bool ok; if (k == 0) { f = facet(p, n > 4 ? 4 : n); ok = n == 3; } else { ok = false; static const char* B[5] = {"vertex 1 2", "vertex a b c", "vertex", "vertex 1 2 x", "vertex 1,2,3"}; f = "facet normal 0 0 1\nouter loop\n" + vtx(p[0]) + vtx(p[1]) + std::string(B[k - 1]) + "\nendloop\nendfacet\n"; } std::unique_ptr<Data> d = load(solid("n", (before ? facet(p) : "") + f)); sym_check((geo(d) != 0) == ok, "broken-facets-refused"); if (ok) { sym_reach("accepted"); count(d, before + 1, 1); } else sym_reach("refused"); }
ENTRY p24_nothing() { int k = sym_choice("k", 4); std::unique_ptr<Data> d; if (k == 0) { std::ifstream f("p24_there_is_no_such_file.stl"); SEMBA::Parser::STL::Parser p; d.reset(new Data(p.read(f))); } else { static const char* T[3] = {"", "\n\n", "something else\n"}; d = load(T[k - 1]); } count(d, 0, 0); }
