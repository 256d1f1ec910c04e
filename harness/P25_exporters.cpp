// @property P25
// @bounds unstructured meshes of up to 3 elements (4 thorough) of any kind on 10 points with any coordinates, on any of 2 layers and 2 materials or none, in 2 sources and 2 requests; structured meshes of 4 elements on grids of 3 by 3 by 2 lines with any spacing and any terminations; names and scaling factors of the stated tables; up to two exporters at a time
// @assume different points differ by at least 1 in their first coordinate; when a problem has materials, only elements with a layer and one of the materials of the problem have to be written; GiD is only given the kinds of elements it supports
// @entry p25_vtk_elements shards=4 reach=none,shared
// @entry p25_vtk_names shards=2
// @entry p25_vtk_uses shards=2
// @entry p25_vtk_structured shards=2 reach=bounded,open
// @entry p25_vtk_digits
// @entry p25_vtk_folder
// @entry p25_vtk_unchanged
// @entry p25_gid_elements shards=4 reach=none,shared
// @entry p25_gid_uses
// @entry p25_gid_structured shards=2
// @entry p25_gid_scaled reach=scaled,unscaled
// @entry p25_gid_files
// @entry p25_gid_results
#include "elems.h"
#include <memory>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include "Data.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "outputRequest/Group.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PML.h"
#include "source/Generator.h"
#include "source/PlaneWave.h"
#include "math/function/Gaussian.h"
#include "../src/exporter/vtk/Exporter.h"
#include "../src/exporter/gid/Exporter.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace R = SEMBA::OutputRequest; typedef Source::Magnitude::Magnitude Mag; typedef PhysicalModel::Volume::Classic Cla; typedef SEMBA::Argument::Object Obj; typedef std::string S;
// one cell as written: its kind and the places of its corners
struct Cell { int type; std::vector<CVecR3> v; };
struct Part { S name; std::vector<Cell> cells; bool ok; Part() : ok(true) {} };
typedef std::vector<Part> Parts;
// ---- what should be written
static int vtkType(const ElemR* e) { return e->is<Nod>() ? 1 : e->is<Lin>() ? 3 : e->is<Tri>() ? 5 : e->is<Qua>() ? 9 : e->is<Tet>() ? 10 : e->is<Hex8>() ? 12 : 7; }
static Cell cell(const ElemR* e, double f = 1) { Cell c; c.type = vtkType(e); for (size_t i = 0; i < e->numberOfVertices(); i++) c.v.push_back(e->getVertex(i)->pos() * f); return c; }
static Part part(const S& n, const std::vector<Cell>& c) { Part p; p.name = n; p.cells = c; return p; }
static bool equal(const Cell& a, const Cell& b, bool any) { if (a.type != b.type || a.v.size() != b.v.size()) return false; bool r = true; for (size_t i = 0; i < a.v.size(); i++) r = r && same(a.v[i], b.v[i]); if (!r && any && a.v.size() == 2) return same(a.v[0], b.v[1]) && same(a.v[1], b.v[0]); return r; }
static void compare(const Parts& got, const Parts& want, double tol = 0) {
    sym_check(got.size() == want.size(), "as-many-groups"); std::vector<char> used(got.size());
    for (size_t w = 0; w < want.size(); w++) { bool found = false; for (size_t g = 0; g < got.size() && !found; g++) if (!used[g] && got[g].name == want[w].name && got[g].cells.size() == want[w].cells.size()) { bool types = true; for (size_t i = 0; i < want[w].cells.size(); i++) types = types && got[g].cells[i].type == want[w].cells[i].type && got[g].cells[i].v.size() == want[w].cells[i].v.size(); if (!types) continue; used[g] = 1; found = true; sym_check(got[g].ok, "files-well-formed"); for (size_t i = 0; i < want[w].cells.size(); i++) for (size_t k = 0; k < want[w].cells[i].v.size(); k++) { if (tol == 0) sym_check(same(got[g].cells[i].v[k], want[w].cells[i].v[k]), "corners-in-place-and-order"); else close3(got[g].cells[i].v[k], want[w].cells[i].v[k], tol, "corners-in-place-and-order"); } } sym_check(found, "every-group-with-its-elements"); }
}
// ---- reading VTK files
static bool slurp(const S& f, S& t) { std::ifstream i(f.c_str()); if (!i) return false; t.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); return true; }
static S unescape(const S& s) { static const char* N[5] = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;"}; S r; for (size_t i = 0; i < s.size(); i++) { if (s[i] != '&') { r += s[i]; continue; } int k = 0; while (k < 5 && s.compare(i, strlen(N[k]), N[k])) k++; if (k == 5) return "?"; r += "&<>\"'"[k]; i += strlen(N[k]) - 1; } return r; }
// the value of an attribute of the tag starting at p
static S attr(const S& t, size_t p, const S& n) { bool q = false; size_t e = p; while (e < t.size() && (q || t[e] != '>')) { if (t[e] == '"') q = !q; if (!q && t[e] == ' ' && t.compare(e + 1, n.size() + 2, n + "=\"") == 0) { size_t a = e + n.size() + 3, b = t.find('"', a); S v = b == S::npos ? S("?") : t.substr(a, b - a); return v.find('<') == S::npos ? unescape(v) : S("?"); } e++; } return ""; }
static S body(const S& t, const S& array) { size_t p = 0; while ((p = t.find("<DataArray", p)) != S::npos) { if (attr(t, p, "Name") == array || (array == "" && attr(t, p, "NumberOfComponents") == "3")) { size_t a = t.find('>', p), b = t.find("</DataArray>", p); return a == S::npos || b == S::npos || attr(t, p, "format") != "ascii" ? S() : t.substr(a + 1, b - a - 1); } p++; } return ""; }
static std::vector<long> ints(const S& s) { std::vector<long> r; std::stringstream i(s); long v; while (i >> v) r.push_back(v); return r; }
static Part vtu(const S& name, const S& file) {
    Part r; r.name = name; S t; if (!slurp(file, t)) { r.ok = false; return r; } size_t h = t.find("<VTKFile"), pc = t.find("<UnstructuredGrid "); if (h == S::npos || pc == S::npos) { pc = t.find("<Piece "); if (pc == S::npos) { r.ok = false; return r; } }
    if (attr(t, h, "type") != "UnstructuredGrid") r.ok = false; std::vector<long> np = ints(attr(t, pc, "NumberOfPoints")), nc = ints(attr(t, pc, "NumberOfCells")), con = ints(body(t, "connectivity")), off = ints(body(t, "offsets")), ty = ints(body(t, "types")); std::vector<double> x; { std::stringstream i(body(t, "")); double v; while (i >> v) x.push_back(v); }
    if (np.size() != 1 || nc.size() != 1 || x.size() != (size_t)np[0] * 3 || off.size() != (size_t)nc[0] || ty.size() != off.size() || t.find("</VTKFile>") == S::npos) { r.ok = false; return r; }
    std::set<long> seen; long at = 0; for (size_t i = 0; i < off.size(); i++) { Cell c; c.type = (int)ty[i]; for (; at < off[i]; at++) { if (at >= (long)con.size() || con[at] < 0 || con[at] >= np[0]) { r.ok = false; return r; } long k = con[at]; seen.insert(k); c.v.push_back(CVecR3(x[3 * k], x[3 * k + 1], x[3 * k + 2])); } r.cells.push_back(c); } if (at != (long)con.size() || seen.size() != (size_t)np[0]) r.ok = false; return r;
}
static Parts vtk(const S& dir, const S& base) {
    Parts r; S t; bool there = slurp(dir + base + ".pvd", t); sym_check(there, "written"); if (!there) return r; size_t p = t.find("<VTKFile"), e; sym_check(p != S::npos && attr(t, p, "type") == "Collection" && (e = t.find("</VTKFile>")) != S::npos && t.find("</Collection>") < e, "collection-well-formed"); std::set<S> files, parts; while ((p = t.find("<DataSet ", p)) != S::npos) { S f = attr(t, p, "file"); files.insert(f); parts.insert(attr(t, p, "part")); r.push_back(vtu(attr(t, p, "group"), dir + f)); p++; } sym_check(files.size() == r.size() && parts.size() == r.size(), "a-file-and-part-for-each-group"); return r;
}
static void exportVtk(const Data& d, const S& f) { SEMBA::Exporter::VTK::Exporter e(&d, f); (void)e; }
// ---- stand-ins for the GiD library that record what is written, and check that it is used as it must be
struct Gid { struct File { S name; bool mesh, open, inMesh, inCoords, inElems, coords; int nNode, type; std::map<int, CVecR3> nodes; std::set<int> elems; Parts parts; }; std::vector<File> f; int inits, dones; bool ok; std::vector<S> results; Gid() : inits(0), dones(0), ok(true) {} };
static Gid* G;
static Gid::File& gf(int fd) { static Gid::File none; if (fd < 1 || fd > (int)G->f.size() || !G->f[fd - 1].open) { G->ok = false; none = Gid::File(); return none; } return G->f[fd - 1]; }
static int gopen(const char* n, bool mesh, bool mode) { if (G->inits <= G->dones || !mode) G->ok = false; Gid::File x; x.name = n; x.mesh = mesh; x.open = true; x.inMesh = x.inCoords = x.inElems = x.coords = false; x.nNode = x.type = 0; G->f.push_back(x); return (int)G->f.size(); }
static int gclose(int fd, bool mesh) { Gid::File& x = gf(fd); if (x.inMesh || x.mesh != mesh || G->inits <= G->dones) G->ok = false; x.open = false; return 0; }
static int gbegin(int fd, const char* n, int dim, int type, int nodes) { Gid::File& x = gf(fd); if (x.inMesh || dim != GiD_3D) G->ok = false; x.inMesh = true; x.coords = false; x.type = type; x.nNode = nodes; Part p; p.name = n; x.parts.push_back(p); return 0; }
extern "C" {
int GiD_PostInit() { if (G->inits != G->dones) G->ok = false; G->inits++; return 0; }
int GiD_PostDone() { G->dones++; if (G->inits != G->dones) G->ok = false; for (size_t i = 0; i < G->f.size(); i++) if (G->f[i].open) G->ok = false; return 0; }
GiD_FILE GiD_fOpenPostMeshFile(const char* n, GiD_PostMode m) { return gopen(n, true, m == GiD_PostAscii); }
GiD_FILE GiD_fOpenPostResultFile(const char* n, GiD_PostMode m) { return gopen(n, false, m == GiD_PostBinary); }
int GiD_fClosePostMeshFile(GiD_FILE fd) { return gclose(fd, true); }
int GiD_fClosePostResultFile(GiD_FILE fd) { return gclose(fd, false); }
int GiD_fBeginMesh(GiD_FILE fd, const char* n, GiD_Dimension d, GiD_ElementType t, int k) { return gbegin(fd, n, d, t, k); }
int GiD_fBeginMeshColor(GiD_FILE fd, const char* n, GiD_Dimension d, GiD_ElementType t, int k, double, double, double) { return gbegin(fd, n, d, t, k); }
int GiD_fEndMesh(GiD_FILE fd) { Gid::File& x = gf(fd); if (!x.inMesh || x.inCoords || x.inElems || !x.coords) G->ok = false; x.inMesh = false; return 0; }
int GiD_fBeginCoordinates(GiD_FILE fd) { Gid::File& x = gf(fd); if (!x.inMesh || x.inCoords || x.inElems) G->ok = false; x.inCoords = x.coords = true; return 0; }
int GiD_fEndCoordinates(GiD_FILE fd) { Gid::File& x = gf(fd); if (!x.inCoords) G->ok = false; x.inCoords = false; return 0; }
int GiD_fWriteCoordinates(GiD_FILE fd, int id, double a, double b, double c) { Gid::File& x = gf(fd); if (!x.inCoords || id < 1 || x.nodes.count(id)) G->ok = false; x.nodes[id] = CVecR3(a, b, c); return 0; }
int GiD_fBeginElements(GiD_FILE fd) { Gid::File& x = gf(fd); if (!x.inMesh || x.inCoords || x.inElems || !x.coords) G->ok = false; x.inElems = true; return 0; }
int GiD_fEndElements(GiD_FILE fd) { Gid::File& x = gf(fd); if (!x.inElems) G->ok = false; x.inElems = false; return 0; }
int GiD_fWriteElement(GiD_FILE fd, int id, int n[]) { Gid::File& x = gf(fd); if (!x.inElems || id < 1 || x.elems.count(id) || x.parts.empty()) { G->ok = false; return 0; } x.elems.insert(id); Cell c; c.type = x.type; for (int i = 0; i < x.nNode; i++) { if (!x.nodes.count(n[i])) { G->ok = false; return 0; } c.v.push_back(x.nodes[n[i]]); } x.parts.back().cells.push_back(c); return 0; }
int GiD_FlushPostFile() { return 0; }
int GiD_fFlushPostFile(GiD_FILE fd) { gf(fd); return 0; }
int GiD_fBeginResult(GiD_FILE fd, const char* n, const char* a, double, GiD_ResultType, GiD_ResultLocation w, const char*, const char*, int k, const char* c[]) { gf(fd); if (w != GiD_OnNodes) G->ok = false; S s = S(n) + "/" + a; for (int i = 0; i < k; i++) s += S("/") + c[i]; G->results.push_back(s); return 0; }
}
static int gidType(int vtk) { return vtk == 1 ? GiD_Point : vtk == 3 ? GiD_Linear : vtk == 5 ? GiD_Triangle : vtk == 9 ? GiD_Quadrilateral : vtk == 10 ? GiD_Tetrahedra : GiD_Hexahedra; }
// GiD has a mesh for every kind of element of a group
static Parts byKind(const Parts& p, double f = 1) { static const int T[6] = {1, 3, 5, 9, 10, 12}; Parts r; for (size_t i = 0; i < p.size(); i++) for (int t = 0; t < 6; t++) { Part q; q.name = p[i].name; for (size_t k = 0; k < p[i].cells.size(); k++) if (p[i].cells[k].type == T[t]) { Cell c = p[i].cells[k]; c.type = gidType(T[t]); for (size_t v = 0; v < c.v.size(); v++) c.v[v] = c.v[v] * f; q.cells.push_back(c); } if (!q.cells.empty()) r.push_back(q); } return r; }
static Parts gid(const Data& d, const S& f, GiD_PostMode m = GiD_PostAscii) { Gid g; G = &g; { SEMBA::Exporter::GiD::Exporter e(&d, f, m); } sym_check(g.ok && g.inits == 1 && g.dones == 1 && g.f.size() == 1, "library-used-as-it-must-be"); return g.f.size() == 1 ? g.f[0].parts : Parts(); }
// ---- problems
static const S LAY[2] = {"lower", "upper"};
struct Prob { std::unique_ptr<Data> d; std::vector<const ElemR*> e; std::vector<int> lay, mat; };
static Mesh::Unstructured* start(Prob& p, bool mats = true) { p.d.reset(new Data); p.d->physicalModels = new PhysicalModel::Group<>; if (mats) { p.d->physicalModels->add(new Cla(MatId(4), "glass", 2, 1, 0, 0)); p.d->physicalModels->add(new PhysicalModel::Predefined::PEC(MatId(9), "metal")); } p.d->sources = new Source::Group<>; p.d->outputRequests = new R::Group<>; Obj s; s("geometryScalingFactor").setReal(1.0); p.d->solver = new Solver::Info("solver", s); Mesh::Unstructured* m = new Mesh::Unstructured; p.d->mesh = m; m->layers().add(new Layer::Layer(LayerId(7), LAY[0])); m->layers().add(new Layer::Layer(LayerId(2), LAY[1])); return m; }
static void coords(Mesh::Unstructured* m, int n = 10) { for (int i = 0; i < n; i++) { CVecR3 c = symR3(nm("c", i), -1e3, 1e3); c(0) = (i * 7 % 10) * 10 + symr(nm("f", i), 0, 9); m->coords().add(new CoordR3(CoordId(30 - 2 * i), c)); } }
static ElemR* solid(int kind, long id, const CoordR3** v, const Layer::Layer* l, const Element::Model* k) { try { return makeR(kind, id, v, l, k); } catch (const Element::Error::NullVolume&) { return 0; } }
// kind 9 is a polygon of 5 corners; the element starts at coordinate number from
static void put(Prob& p, Mesh::Unstructured* m, int kind, long id, int from, int lay, int mat) { const CoordR3* v[10]; int n = (int)m->coords().size(); for (int i = 0; i < 10; i++) v[i] = m->coords()((from + i) % n); const Layer::Layer* l = lay ? m->layers()(lay - 1) : 0; const Element::Model* k = mat ? (*p.d->physicalModels)(mat - 1) : 0; ElemR* e = kind == 9 ? (ElemR*)new Element::Polygon(ElemId(id), std::vector<const CoordR3*>(v, v + 5), l, k) : solid(kind, id, v, l, k); if (!e) { sym_assume(0); return; } m->elems().add(e); p.e.push_back(e); p.lay.push_back(lay); p.mat.push_back(mat); }
static Parts expected(const Prob& p, const S& pre, const S* matName, const S* layName, double f = 1) { Parts r; for (int l = 1; l <= 2; l++) for (int m = 1; m <= 2; m++) { Part q; q.name = pre + matName[m - 1] + "@" + layName[l - 1]; for (size_t i = 0; i < p.e.size(); i++) if (p.lay[i] == l && p.mat[i] == m) q.cells.push_back(cell(p.e[i], f)); if (!q.cells.empty()) r.push_back(q); } return r; }
static const S MAT[2] = {"glass", "metal"};
static void some(Prob& p, bool poly) { Mesh::Unstructured* m = start(p); coords(m); const int N = THOROUGH ? 4 : 3; int n = sym_choice("n", N + 1); bool shared = false; for (int i = 0; i < n; i++) { static const int FEW[6] = {0, 1, 3, 5, 6, 8}; int k = i == 0 ? sym_choice("k0", poly ? 10 : 6) : i == 1 ? sym_choice("k1", 3) : i == 2 ? 5 : 3; if (!poly) k = FEW[k % 6]; int w = i < 3 ? sym_choice(nm("in", i).c_str(), i == 0 ? 5 : i == 1 ? 4 : 2 + THOROUGH) : 1; static const int L[5] = {1, 1, 2, 0, 2}, M[5] = {1, 2, 2, 1, 0}; put(p, m, k, 100 - 7 * i, i * 2, L[w], M[w]); shared = shared || (i && w == 0); } if (!n) sym_reach("none"); if (shared) sym_reach("shared"); }
ENTRY p25_vtk_elements() { Prob p; some(p, true); exportVtk(*p.d, "case"); compare(vtk("", "case"), expected(p, "", MAT, LAY)); }
ENTRY p25_gid_elements() { Prob p; some(p, false); Parts got = gid(*p.d, "case", sym_choice("binary", 2) ? GiD_PostBinary : GiD_PostAscii); compare(got, byKind(expected(p, "", MAT, LAY))); }
static const S NAME[6] = {"a", "b", "a/b", "a_b", "<a> & \"b\"", "a_0"};
static S valid(S s) { for (size_t i = 0; i < s.size(); i++) if (s[i] == '/') s[i] = '_'; return s; }
ENTRY p25_vtk_names() {
    S ml[4]; static const int W[3] = {0, 2, 4}; ml[0] = NAME[sym_choice("m0", 6)]; ml[1] = NAME[sym_choice("m1", 6)]; ml[2] = NAME[W[sym_choice("l0", 3)]]; ml[3] = NAME[sym_choice("l1", THOROUGH ? 6 : 2)]; Prob p; p.d.reset(new Data); Data& d = *p.d; d.physicalModels = new PhysicalModel::Group<>; for (int i = 0; i < 2; i++) d.physicalModels->add(new Cla(MatId(4 + i), ml[i], 2, 1, 0, 0)); Mesh::Unstructured* m = new Mesh::Unstructured; d.mesh = m; for (int i = 0; i < 2; i++) m->layers().add(new Layer::Layer(LayerId(3 + i), ml[2 + i])); for (int i = 0; i < 4; i++) m->coords().add(new CoordR3(CoordId(1 + i), CVecR3(i, i * i, 1))); put(p, m, 0, 1, 0, 1, 1); put(p, m, 0, 2, 1, 1, 2); put(p, m, 1, 3, 1, 2, 1); put(p, m, 3, 4, 1, 2, 2);
    exportVtk(d, "case"); for (int i = 0; i < 2; i++) ml[2 + i] = m->layers()(i)->getName(); Parts w = expected(p, "", ml, ml + 2); for (size_t i = 0; i < w.size(); i++) w[i].name = valid(w[i].name); compare(vtk("", "case"), w);
}
// sources and requests on some of the elements
static void uses(Prob& p, Parts& want, const S& pre, const std::vector<Elem*>& all, const std::vector<Cell>& cells, bool few) {
    int s = 1 + sym_choice("source", 3), r[2]; r[0] = few ? sym_choice("requests", 3) * 3 : sym_choice("request0", 8); r[1] = few ? 7 - r[0] : sym_choice("request1", 3); Element::Group<const Nod> gn; Part a, b; for (size_t i = 0; i < all.size(); i++) { const Nod* n = dynamic_cast<const Nod*>(all[i]); if (n && (s & (1 << (i % 2)))) { gn.add(n); a.cells.push_back(cells[i]); } } Source::Generator* g = new Source::Generator(new Mag(new Math::Function::Gaussian(1, 0, 2)), gn, Source::Generator::voltage, Source::Generator::soft); p.d->sources->add(g); a.name = pre + "EMSource_" + g->getName(); if (!a.cells.empty()) want.push_back(a); Element::Group<Vol> gv; Vol* v = dynamic_cast<Vol*>(all.back()); if (v) { gv.add(v); b.cells.push_back(cells.back()); } Source::PlaneWave* w = new Source::PlaneWave(new Mag(new Math::Function::Gaussian(1, 0, 3)), gv, CVecR3(1, 0, 0), CVecR3(0, 0, 1)); p.d->sources->add(w); b.name = pre + "EMSource_" + w->getName(); if (v) want.push_back(b);
    for (int k = 0; k < 2; k++) { Element::Group<Elem> q; Part c; for (size_t i = 0; i < all.size(); i++) if (r[k] & (1 << i)) { q.add(all[i]); c.cells.push_back(cells[i]); } p.d->outputRequests->add(new R::OutputRequest<Elem>(R::Domain(), R::Base::electric, nm("req", k), q)); c.name = pre + "OutRq_" + nm("req", k); if (!c.cells.empty()) want.push_back(c); }
}
static Parts problem(Prob& p, bool mats) { Mesh::Unstructured* m = start(p, mats); coords(m, 8); bool on = mats; put(p, m, 0, 21, 0, 1, on ? 1 : 0); put(p, m, 0, 9, 1, 2, on ? 2 : 0); put(p, m, 8, 14, 0, 1, 0); std::vector<Elem*> all; std::vector<Cell> c; for (int i = 0; i < 3; i++) { all.push_back(m->elems()(i)); c.push_back(cell(p.e[i])); } Parts w = expected(p, "", MAT, LAY); if (!mats) { w.clear(); std::vector<Cell> a; a.push_back(c[0]); a.push_back(c[2]); w.push_back(part(LAY[0], a)); w.push_back(part(LAY[1], std::vector<Cell>(1, c[1]))); } uses(p, w, "", all, c, false); int drop = sym_choice("drop", 3); if (drop == 1) { delete p.d->sources; p.d->sources = 0; Parts x; for (size_t i = 0; i < w.size(); i++) if (w[i].name.find("EMSource") == S::npos) x.push_back(w[i]); w = x; } if (drop == 2) { delete p.d->outputRequests; p.d->outputRequests = 0; Parts x; for (size_t i = 0; i < w.size(); i++) if (w[i].name.find("OutRq") == S::npos) x.push_back(w[i]); w = x; } return w; }
ENTRY p25_vtk_uses() { Prob p; Parts w = problem(p, sym_choice("materials", 2)); exportVtk(*p.d, "case"); compare(vtk("", "case"), w); }
ENTRY p25_gid_uses() { Prob p; Parts w = problem(p, true); compare(gid(*p.d, "case"), byKind(w)); }
static const int B8[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
static CVecR3 at(const Grid3& g, const CVecI3& p) { CVecR3 r; for (int d = 0; d < 3; d++) r(d) = g.getPos(d)[p(d)]; return r; }
static Cell box(const CVecR3& a, const CVecR3& b, int type) { Cell c; c.type = type; c.v.push_back(a); c.v.push_back(b); return c; }
// the corners of a face of the domain, in any order round it, and the lines of the grid, in any order, are compared as sets
static bool has(const std::vector<CVecR3>& v, const CVecR3& p) { bool r = false; for (size_t i = 0; i < v.size(); i++) r = r || same(v[i], p); return r; }
static void structured(bool g3) {
    Prob p; start(p); delete p.d->mesh; std::vector<Real> pos[3]; for (int d = 0; d < 3; d++) { double x = symr(nm("o", d), -9, 9); for (int i = 0; i < (d == 2 ? 2 : 3); i++) { pos[d].push_back(x); x += symr(nm("s", d * 3 + i), 1, 9); } } Grid3 grid(pos); Mesh::Structured* m = new Mesh::Structured(grid); p.d->mesh = m; m->layers().add(new Layer::Layer(LayerId(7), LAY[0])); m->layers().add(new Layer::Layer(LayerId(2), LAY[1])); const CoordI3* v[8]; int o = sym_choice("at", 2); for (int i = 0; i < 8; i++) { m->coords().add(new CoordI3(CoordId(30 - i), CVecI3(B8[i][0] + o, B8[i][1] + 1 - o, B8[i][2]))); v[i] = m->coords()(i); }
    static const int K[3] = {0, 0, 8}; static const long ID[4] = {21, 9, 14, 3}; Element::Model* mat[2] = {(*p.d->physicalModels)(0), (*p.d->physicalModels)(1)}; std::vector<Elem*> all; std::vector<Cell> c; Parts w; S pre = "str_"; int q = THOROUGH ? sym_choice("quad", 2) : 1 - o;
    m->elems().add(new NodI(ElemId(ID[0]), v, m->layers()(0), mat[0])); m->elems().add(new NodI(ElemId(ID[1]), v + 5, m->layers()(1), mat[1])); m->elems().add(new HexI8(ElemId(ID[2]), v, m->layers()(0), 0)); m->elems().add(new QuaI4(ElemId(ID[3]), v + 4 * q, m->layers()(1), mat[1])); (void)K;
    for (int i = 0; i < 4; i++) { const ElemI* e = m->elems()(i); Cell x; x.type = i < 2 ? 1 : i == 2 ? 12 : 9; for (size_t k = 0; k < e->numberOfVertices(); k++) x.v.push_back(at(grid, e->getVertex(k)->pos())); c.push_back(x); if (i < 3) all.push_back(m->elems()(i)); } w.push_back(part(pre + "glass@lower", std::vector<Cell>(1, c[0]))); { std::vector<Cell> a; a.push_back(c[1]); a.push_back(c[3]); w.push_back(part(pre + "metal@upper", a)); } uses(p, w, pre, all, std::vector<Cell>(c.begin(), c.begin() + 3), !THOROUGH);
    int nb = sym_choice("bounds", 5); bool one = nb == 4; std::shared_ptr<Bound> all1(new PhysicalModel::Bound::PEC(MatId(49))); int face[6]; for (int f = 0; f < 6; f++) { face[f] = nb == 0 ? 0 : nb == 1 ? 1 : nb == 2 ? f % 3 : one ? (f < 5 ? 1 : 2) : (f % 2 ? 2 : 0); Bound* b = 0; std::shared_ptr<Bound> keep; if (face[f] == 1) keep.reset(new PhysicalModel::Bound::PEC(MatId(50 + f))); if (face[f] == 2) keep.reset(new PhysicalModel::Bound::PML(MatId(50 + f))); b = one && face[f] == 1 ? all1.get() : keep.get(); m->bounds().setBound(f / 2, f % 2, b); } if (nb) sym_reach("bounded"); else sym_reach("open");
    Parts got; if (g3) got = gid(*p.d, "case"); else { exportVtk(*p.d, "case"); got = vtk("", "case"); }
    // faces and grid apart
    Parts rest; std::vector<Cell> faces[3], lines; for (size_t i = 0; i < got.size(); i++) { const S& n = got[i].name; if (n == "Grid") { sym_check(lines.empty() && got[i].ok, "one-grid"); lines = got[i].cells; } else if (n.find("@Boundary") != S::npos) { int k = n == "Undefined@Boundary" ? 0 : n == "PEC@Boundary" ? 1 : n == "PML@Boundary" ? 2 : -1; sym_check(k >= 0 && got[i].ok, "names-of-terminations"); if (k >= 0) faces[k].insert(faces[k].end(), got[i].cells.begin(), got[i].cells.end()); } else rest.push_back(got[i]); } compare(rest, g3 ? byKind(w) : w);
    for (int k = 0; k < 3; k++) { size_t n = 0; for (int f = 0; f < 6; f++) if (face[f] == k && (k || g3)) { n++; int d = f / 2; bool found = false; for (size_t i = 0; i < faces[k].size(); i++) { const Cell& x = faces[k][i]; if (x.type != (g3 ? gidType(9) : 9) || x.v.size() != 4) { sym_check(false, "faces-are-quadrilaterals"); continue; } bool all4 = true; for (int j = 0; j < 4; j++) { CVecR3 t; t(d) = f % 2 ? pos[d].back() : pos[d].front(); int e = (d + 1) % 3, h = (d + 2) % 3; t(e) = j & 1 ? pos[e].back() : pos[e].front(); t(h) = j & 2 ? pos[h].back() : pos[h].front(); all4 = all4 && has(x.v, t); } found = found || all4; } sym_check(found, "face-in-place"); } sym_check(faces[k].size() == n, "as-many-faces"); }
    size_t n = 0; for (int d = 0; d < 3; d++) for (int e = 0; e < 3; e++) if (e != d) for (size_t i = 0; i < pos[e].size(); i++) { n++; CVecR3 a, b; a(d) = b(d) = pos[d].front(); a(e) = b(e) = pos[e][i]; int h = 3 - d - e; a(h) = pos[h].front(); b(h) = pos[h].back(); bool found = false; Cell t = box(a, b, g3 ? gidType(3) : 3); for (size_t k = 0; k < lines.size(); k++) found = found || equal(lines[k], t, true); sym_check(found, "lines-of-the-grid"); } sym_check(lines.size() == n, "as-many-lines");
}
ENTRY p25_vtk_structured() { structured(false); }
ENTRY p25_gid_structured() { structured(true); }
ENTRY p25_vtk_digits() { static const double X[8] = {123456.789, 1.0 / 3, 1e-9, 1 + 1e-12, -98765.4321, 6.02e23, -0.1, 1234567890123.0}; Prob p; Mesh::Unstructured* m = start(p); int k = sym_choice("x", 8), a = sym_choice("axis", 3); CVecR3 c(1, 2, 3); c(a) = X[k]; m->coords().add(new CoordR3(CoordId(1), c)); put(p, m, 0, 1, 0, 1, 1); exportVtk(*p.d, "case"); Parts g = vtk("", "case"); sym_check(g.size() == 1 && g[0].cells.size() == 1 && g[0].cells[0].v.size() == 1, "written"); if (g.size() == 1 && g[0].cells.size() == 1 && g[0].cells[0].v.size() == 1) for (int i = 0; i < 3; i++) sym_check(g[0].cells[0].v[0](i) == c(i), "all-digits"); }
ENTRY p25_vtk_folder() { static const S D[3] = {"", "sub.d/", "./"}; S dir = D[sym_choice("dir", 3)]; if (!dir.empty() && dir != "./") FileSystem::Project(dir.substr(0, dir.size() - 1)).makeDir(); static const S B[3] = {"case", "case.dat", "a.b"}; S b = B[sym_choice("name", 3)]; Prob p; Mesh::Unstructured* m = start(p); coords(m, 4); put(p, m, 3, 1, 0, 1, 2); bool twice = sym_choice("twice", 2); exportVtk(*p.d, dir + b); if (twice) { put(p, m, 1, 2, 1, 1, 2); exportVtk(*p.d, dir + b); } compare(vtk(dir, b), expected(p, "", MAT, LAY)); }
ENTRY p25_vtk_unchanged() { bool g3 = sym_choice("gid", 2); Prob p; Mesh::Unstructured* m = start(p); coords(m, 4); put(p, m, 3, 11, 0, 1, 2); put(p, m, 0, 5, 2, 2, 1); double f = symr("factor", 0.001, 1000); Obj s; s("geometryScalingFactor").setReal(f); p.d->solver->setSettings(s); CVecR3 c[4]; for (int i = 0; i < 4; i++) c[i] = m->coords()(i)->pos(); if (g3) gid(*p.d, "case"); else exportVtk(*p.d, "case"); sym_check(p.d->mesh == m && m->coords().size() == 4 && m->elems().size() == 2 && m->elems()(0) == p.e[0] && m->elems()(1) == p.e[1] && m->layers().size() == 2, "problem-left-as-it-was"); for (int i = 0; i < 4; i++) sym_check(same(m->coords()(i)->pos(), c[i]), "coordinates-left-as-they-were"); for (int i = 0; i < 2; i++) sym_check(p.e[i]->getLayer() == m->layers()(p.lay[i] - 1) && p.e[i]->getModel() == (const Element::Model*)(*p.d->physicalModels)(p.mat[i] - 1), "links-left-as-they-were"); }
ENTRY p25_gid_scaled() { static const double F[5] = {1, 0.001, 4, 0, 25.4}; int k = sym_choice("factor", 7); Prob p; Mesh::Unstructured* m = start(p); coords(m, 4); put(p, m, 3, 1, 0, 1, 2); double f = 1; if (k < 5) { Obj s; s("geometryScalingFactor").setReal(F[k]); p.d->solver->setSettings(s); f = F[k] == 0 ? 1 : F[k]; } else if (k == 5) { delete p.d->solver; p.d->solver = 0; } else p.d->solver->setSettings(Obj()); if (f != 1) sym_reach("scaled"); else sym_reach("unscaled"); compare(gid(*p.d, "case"), byKind(expected(p, "", MAT, LAY), 1 / f), 1e-6); }
ENTRY p25_gid_files() {
    Gid g; G = &g; typedef SEMBA::Exporter::GiD::Exporter E; Prob p; Mesh::Unstructured* m = start(p); coords(m, 4); put(p, m, 3, 1, 0, 1, 2); put(p, m, 0, 2, 1, 1, 1); GiD_PostMode M[4] = {GiD_PostAscii, GiD_PostBinary, GiD_PostAsciiZipped, GiD_PostHDF5}; int a = sym_choice("first", 4), b = sym_choice("second", 4), order = sym_choice("order", 3); E *x = 0, *y = 0; bool rx = false, ry = false; try { x = new E(p.d.get(), "one", M[a]); } catch (const std::logic_error&) { rx = true; } if (order == 0) { delete x; x = 0; } if (x) sym_check(g.inits == 1 && g.dones == 0, "library-open-while-used"); try { y = new E(p.d.get(), "two", M[b]); } catch (const std::logic_error&) { ry = true; } if (order == 1) { delete x; delete y; } else { delete y; delete x; }
    sym_check(rx == (a > 1) && ry == (b > 1), "only-known-modes"); size_t n = (a < 2) + (b < 2); sym_check(g.ok && g.inits == g.dones && g.f.size() == n && (g.inits > 0) == (n > 0), "library-used-as-it-must-be"); if (g.f.size() != n) return; size_t k = 0; Parts w = byKind(expected(p, "", MAT, LAY)); for (int i = 0; i < 2; i++) { int md = i ? b : a; if (md > 1) continue; S name = S(i ? "two" : "one") + (md ? ".post.res" : ".post.msh"); sym_check(g.f[k].name == name && !g.f[k].open, "file-of-the-mode"); compare(g.f[k].parts, w); k++; }
}
ENTRY p25_gid_results() { Gid g; G = &g; Prob p; Mesh::Unstructured* m = start(p); coords(m, 4); put(p, m, 3, 1, 0, 1, 2); { SEMBA::Exporter::GiD::Exporter e(p.d.get(), "case", GiD_PostBinary); int n = 1 + sym_choice("n", 3); std::vector<S> c; S w = "field/time"; for (int i = 0; i < n; i++) { c.push_back(nm("E", i)); w += "/" + c.back(); } e.beginResult("field", "time", 1.5, GiD_Vector, GiD_OnNodes, "", c); sym_check(g.results.size() == 1 && g.results[0] == w, "result-with-its-components"); e.flushPostFile(); sym_check(g.ok, "flushed"); } sym_check(g.ok && g.inits == 1 && g.dones == 1, "library-used-as-it-must-be"); }
