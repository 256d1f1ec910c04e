// @property P23
// @bounds problem files of up to 8 coordinates with any positions in [-1e6,1e6], 5 elements, 2 layers, 2 materials of every kind with any parameters, 2 connectors, 2 sources and 2 output requests of every kind; every kind of grid with up to 4 cells per axis and 3 cells of padding anywhere; settings nested up to 2 levels; the file cut at any place
// @assume the text is split into values as the JSON library does (the library itself is replaced by a stand-in with the same meaning; replays use the library)
// @entry p23_solver
// @entry p23_scale reach=scaled,refused
// @entry p23_version reach=refused,accepted
// @entry p23_cut
// @entry p23_material shards=2 reach=refused
// @entry p23_axes
// @entry p23_elements shards=2 reach=none,read
// @entry p23_coordinates
// @entry p23_grid
// @entry p23_step
// @entry p23_padding shards=2
// @entry p23_native
// @entry p23_no_grid
// @entry p23_connectors
// @entry p23_sources shards=2
// @entry p23_refused_sources
// @entry p23_planewave
// @entry p23_magnitude
// @entry p23_requests shards=2
// @entry p23_domain
// @entry p23_no_mesh
#include "elems.h"
#include <memory>
#include <fstream>
#include <iomanip>
#include "parser/json/Parser.h"
#include "geometry/mesh/Geometric.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/wire/Wire.h"
#include "physicalModel/gap/Gap.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace PM = SEMBA::PhysicalModel; namespace S = SEMBA::Source; namespace R = SEMBA::OutputRequest; typedef R::Base Rq; typedef Mesh::Geometric Geo;
static std::string num(double v) { std::stringstream s; s << std::setprecision(17) << v; return s.str(); }
static std::string num(long v) { std::stringstream s; s << v; return s.str(); }
static std::string num(int v) { return num((long)v); }
static std::string vec(const CVecR3& v) { return num(v(0)) + " " + num(v(1)) + " " + num(v(2)); }
static std::string q(const std::string& s) { return "\"" + s + "\""; }
static std::string kv(const char* k, const std::string& v) { return q(k) + ": " + v; }
static std::string kn(const char* k, double v) { return kv(k, num(v)); }
static std::string ks(const char* k, const std::string& v) { return kv(k, q(v)); }
static const CVecR3 CORNER[8] = {CVecR3(0, 0, 0), CVecR3(1, 0, 0), CVecR3(1, 1, 0), CVecR3(0, 1, 0), CVecR3(0, 0, 1), CVecR3(1, 0, 1), CVecR3(1, 1, 1), CVecR3(0, 1, 1)};
struct Doc {
    std::string version, solver, mats, grid, layers, coords, elem[5], conn, src, out; bool noMats, noSolver, noGrid, noElems;
    Doc() : version("0.14"), noMats(false), noSolver(true), noGrid(false), noElems(false) { mats = "{" + kv("materialId", "4") + "," + ks("name", "metal") + "," + ks("materialType", "PEC") + "},{" + kv("materialId", "9") + "," + ks("name", "magnet") + "," + ks("materialType", "PMC") + "}"; layers = "{\"id\": 3, \"name\": \"first\"}, {\"id\": 7, \"name\": \"second layer\"}"; grid = "{" + ks("gridType", "gridCondition") + "," + ks("type", "Number_of_cells") + "," + ks("layerBox", "{2 2 2 0 0 0}") + "," + ks("numberOfCells", "{2 2 2}") + "}"; for (int i = 0; i < 8; i++) coords += (i ? ", " : "") + q("  " + num(i + 1) + "  " + vec(CORNER[i])); elem[0] = q("11 4 3 1 2 3 4 5 6 7 8"); elem[1] = q("12 9 7 1 2 3 5"); elem[2] = q("13 0 0 1 2 3 4"); elem[3] = q("  14 4   0 1  2 3"); elem[4] = q("15 0 7 1 2 "); }
    std::string text() const { static const char* E[5] = {"hexahedra", "tetrahedra", "quadrilateral", "triangle", "line"}; std::string t = "{ " + ks("_version", version); if (!noSolver) t += ",\n" + kv("solverOptions", "{" + solver + "}"); if (!noMats) t += ",\n" + kv("materials", "[" + mats + "]"); if (!noGrid) t += ",\n" + kv("grids", "[" + grid + "]"); t += ",\n" + kv("layers", "[" + layers + "]") + ",\n" + kv("coordinates", "[" + coords + "]"); if (!noElems) { t += ",\n" + kv("elements", "{"); for (int i = 0; i < 5; i++) t += (i ? "," : "") + kv(E[i], "[" + elem[i] + "]"); t += "}"; } return t + ",\n" + kv("connectorOnPoint", "[" + conn + "]") + ",\n" + kv("sources", "[" + src + "]") + ",\n" + kv("outputRequests", "[" + out + "]") + "\n}\n"; }
};
static bool load(const std::string& t, Data& d) { std::stringstream s(t); SEMBA::Parser::JSON::Parser p; try { Data r(p.read(s)); std::swap(r.solver, d.solver); std::swap(r.mesh, d.mesh); std::swap(r.sources, d.sources); std::swap(r.physicalModels, d.physicalModels); std::swap(r.outputRequests, d.outputRequests); } catch (const std::exception&) { return false; } return true; }
static const Geo* geo(const Data& d) { return d.mesh ? d.mesh->castTo<Geo>() : 0; }
static bool near(double a, double b) { return ab(a - b) <= 1e-9 * (1 + ab(b)); }

ENTRY p23_solver() {
    long n = symi("n", -99999, 99999); double r = symr("r", -1e6, 1e6); bool b = sym_choice("b", 2); Doc d; d.noSolver = false; int order = sym_choice("order", 3); bool lone = sym_choice("lone", 2); std::string in = kv("lone", "{" + kv("is", lone ? "true" : "false") + "}") + "," + kv("inner", "{" + kn("x", r) + "," + kv("deep", "{" + kv("n", num(n)) + "," + kv("on", b ? "true" : "false") + "}") + "}"), nu = kv("number", num(n)) + "," + kn("real", r), st = ks("text", "some words") + "," + kv("flag", b ? "true" : "false"), na = ks("solver", "cudg3d") + "," + kv("geometryScalingFactor", "1.0"); d.solver = order == 0 ? na + "," + in + "," + nu + "," + st : order == 1 ? st + "," + nu + "," + na + "," + in : in + "," + st + "," + na + "," + nu; bool none = sym_choice("none", 2); d.noSolver = none; Data x; bool ok = load(d.text(), x); sym_check(ok, "read"); if (!ok) return; sym_check((x.solver == 0) == none, "solver-there"); if (!x.solver || none) return; const Solver::Settings& s = x.solver->getSettings(); sym_check(x.solver->getName() == "cudg3d", "solver-name"); sym_check(s("number").getInt() == n && s("real").getReal() == r && s("text").getString() == "some words" && s("flag").getBool() == b, "settings"); sym_check(s("inner")("x").getReal() == r && s("inner")("deep")("n").getInt() == n && s("inner")("deep")("on").getBool() == b, "nested-settings"); sym_check(s("lone").size() == 1 && s("lone")("is").getBool() == lone, "lone-flag"); sym_check(s("inner").size() == 2 && s("inner")("deep").size() == 2 && !s.existsName("x") && s.existsName("geometryScalingFactor"), "only-these-settings");
}
ENTRY p23_scale() {
    static const double F[4] = {1, 0.001, 0.0254, 1000}; int k = sym_choice("factor", 5); Doc d; d.noSolver = false; d.solver = ks("solver", "any") + (k < 4 ? "," + kn("geometryScalingFactor", F[k]) : ""); CVecR3 p = symR3("p", -1000, 1000); d.coords += "," + q("20 " + vec(p)); Data x; bool ok = load(d.text(), x); if (k == 4) { sym_check(!ok, "missing-factor-refused"); sym_reach("refused"); return; } sym_check(ok && geo(x), "read"); if (!ok || !geo(x)) return; sym_reach("scaled"); const Geo& g = *geo(x); const CoordR3* c = g.coords().getId(CoordId(20)); for (int i = 0; i < 3; i++) { sym_check_close(c->pos()(i), p(i) * F[k], 1e-6, "coordinates-scaled"); std::vector<Real> l = g.grid().getPos(i); sym_check(l.size() == 3 && near(l[0], 0) && near(l[1], F[k]) && near(l[2], 2 * F[k]), "grid-scaled"); } }
ENTRY p23_version() { static const char* V[8] = {"0.14", "0.13", "0.14.0", "0.1", "", " 0.14", "0.140", "1.0"}; int k = sym_choice("version", 9); Doc d; if (k < 8) d.version = V[k]; std::string t = d.text(); if (k == 8) t = "{" + kv("layers", "[]") + "}"; bool bare = k < 8 && sym_choice("bare", 2); if (bare) t = "{" + ks("_version", V[k]) + "}"; Data x; bool ok = load(t, x); sym_check(ok == (k == 0), "only-this-version"); if (!ok) { sym_reach("refused"); return; } sym_reach("accepted"); sym_check((x.mesh == 0) == bare && x.sources && x.outputRequests && x.physicalModels && x.physicalModels->size() == (bare ? 0 : 2), "only-what-is-there"); }
ENTRY p23_cut() { std::string t = "{" + ks("_version", "0.14") + ", " + kv("materials", "[{" + kv("materialId", "1") + "," + ks("materialType", "PEC") + "}]") + ", " + kv("solverOptions", "{" + ks("solver", "a") + "}") + "}"; Data x; int n = sym_choice("cut", (int)t.size()); sym_check(!load(t.substr(0, n), x), "cut-file-refused"); }

static PM::PhysicalModel* const NONE = 0;
template<class T> static const T* mat(const Data& x, size_t i) { return dynamic_cast<const T*>((*x.physicalModels)(i)); }
ENTRY p23_material() {
    int k = sym_choice("kind", 22); double v[7]; for (int i = 0; i < 7; i++) v[i] = symr(nm("v", i), 0.001, 1e9); std::string t, type; { std::ofstream f("p23_material.txt"); f << "data\n"; }
    switch (k) {
    case 0: type = "PEC"; break; case 1: type = "PMC"; break; case 2: type = "SMA"; break; case 3: type = " SMA "; break;
    case 4: type = "Classic"; t = kn("permittivity", v[0]) + "," + kn("permeability", v[1]) + "," + kn("electricConductivity", v[2]) + "," + kn("magneticConductivity", v[3]); break;
    case 5: type = "Dispersive"; t = ks("filename", "p23_material.txt"); break;
    case 6: type = "Wire"; t = ks("wireType", "Standard") + "," + kn("radius", v[0]) + "," + kn("inductance", v[2]) + "," + kn("resistance", v[1]); break;
    case 7: type = "Wire"; t = ks("wireType", "SeriesParallel") + "," + kn("radius", v[0]) + "," + kn("inductance", v[2]) + "," + kn("resistance", v[1]) + "," + kn("capacitance", v[3]) + "," + kn("parallelResistance", v[4]) + "," + kn("parallelInductance", v[5]) + "," + kn("parallelCapacitance", v[6]); break;
    case 8: type = "Wire"; t = ks("wireType", "Dispersive") + "," + kn("radius", v[0]) + "," + ks("filename", "p23_material.txt"); break;
    case 9: type = "Thin_gap"; t = kn("width", v[0]); break;
    case 10: type = "Connector"; t = ks("connectorType", "Conn_short"); break; case 11: type = "Connector"; t = ks("connectorType", "Conn_open"); break; case 12: type = "Connector"; t = ks("connectorType", "Conn_matched"); break;
    case 13: case 14: case 15: type = "Connector"; t = ks("connectorType", k == 13 ? "Conn_sRLC" : k == 14 ? "Conn_pRLC" : "Conn_sLpRC") + "," + kn("capacitance", v[2]) + "," + kn("resistance", v[0]) + "," + kn("inductance", v[1]); break;
    case 16: type = "SIBC"; t = ks("surfaceType", "Layers") + "," + kv("layers", "[{" + kn("thickness", v[0]) + "," + kn("permittivity", v[1]) + "," + kn("permeability", v[2]) + "," + kn("elecCond", v[3]) + "},{" + kn("thickness", v[4]) + "," + kn("permittivity", v[5]) + "," + kn("permeability", v[6]) + "," + kv("elecCond", "0") + "}]") + "," + kv("useSembaVectorFitting", "true") + "," + kn("freqMin", v[0]) + "," + kn("freqMax", v[1]) + "," + kv("numberOfPoles", "5"); break;
    case 17: type = "SIBC"; t = ks("surfaceType", "Layers") + "," + kv("layers", "[{" + kn("thickness", v[0]) + "," + kn("permittivity", v[1]) + "," + kn("permeability", v[2]) + "," + kn("elecCond", v[3]) + "}]") + "," + kv("useSembaVectorFitting", "false"); break;
    case 18: type = "SIBC"; t = ks("surfaceType", "File") + "," + ks("filename", "p23_surface.mibc"); break;
    case 19: type = "Metal"; break; case 20: type = "Wire"; t = ks("wireType", "Thick") + "," + kn("radius", v[0]); break;
    default: type = "Connector"; t = ks("connectorType", "Conn_other"); break; }
    Doc d; int order = sym_choice("order", 2); std::string m = "{" + kv("materialId", "23") + "," + ks("name", "this one") + "," + ks("materialType", type) + (t.empty() ? "" : "," + t) + "}"; d.mats = order ? d.mats + "," + m : m + "," + d.mats; Data x; bool ok = load(d.text(), x); sym_check(ok == (k < 19), "unknown-materials-refused"); if (!ok) { sym_reach("refused"); return; } sym_check(x.physicalModels && x.physicalModels->size() == 3, "every-material"); if (!x.physicalModels || x.physicalModels->size() != 3) return; size_t i = order ? 2 : 0; const PM::PhysicalModel* b = (*x.physicalModels)(i); sym_check(b->getId() == MatId(23) && b->getName() == "this one" && (*x.physicalModels)(order ? 0 : 1)->getId() == MatId(4), "name-and-identifier");
    switch (k) {
    case 0: sym_check(mat<PM::Predefined::PEC>(x, i) != 0, "pec"); break; case 1: sym_check(mat<PM::Predefined::PMC>(x, i) != 0, "pmc"); break; case 2: case 3: sym_check(mat<PM::Predefined::SMA>(x, i) != 0, "sma"); break;
    case 4: { const PM::Volume::Classic* c = mat<PM::Volume::Classic>(x, i); sym_check(c != 0, "classic"); if (c) sym_check(c->getRelativePermittivity() == v[0] && c->getRelativePermeability() == v[1] && c->getElectricConductivity() == v[2] && c->getMagneticConductivity() == v[3], "classic-parameters"); break; }
    case 5: { const PM::Volume::Dispersive* c = mat<PM::Volume::Dispersive>(x, i); sym_check(c && c->getFile() == "p23_material.txt", "dispersive-file"); break; }
    case 6: { const PM::Wire::Wire* c = mat<PM::Wire::Wire>(x, i); sym_check(c && !c->isDispersive() && !c->isSeriesParallel() && c->getRadius() == v[0] && c->getSeriesResistance() == v[1] && c->getSeriesInductance() == v[2], "wire"); break; }
    case 7: { const PM::Wire::Wire* c = mat<PM::Wire::Wire>(x, i); sym_check(c && c->isSeriesParallel() && c->getRadius() == v[0] && c->getSeriesResistance() == v[1] && c->getSeriesInductance() == v[2] && c->getSeriesCapacitance() == v[3] && c->getParallelResistance() == v[4] && c->getParallelInductance() == v[5] && c->getParallelCapacitance() == v[6], "series-parallel-wire"); break; }
    case 8: { const PM::Wire::Wire* c = mat<PM::Wire::Wire>(x, i); sym_check(c && c->isDispersive() && c->getRadius() == v[0] && c->getFilename() == "p23_material.txt", "dispersive-wire"); break; }
    case 9: { const PM::Gap::Gap* c = mat<PM::Gap::Gap>(x, i); sym_check(c && c->getWidth() == v[0], "gap"); break; }
    case 10: case 11: case 12: { const PM::Multiport::Predefined* c = mat<PM::Multiport::Predefined>(x, i); sym_check(c && c->getType() == (k == 10 ? PM::Multiport::Multiport::shortCircuit : k == 11 ? PM::Multiport::Multiport::openCircuit : PM::Multiport::Multiport::matched), "predefined-connector"); break; }
    case 13: case 14: case 15: { const PM::Multiport::RLC* c = mat<PM::Multiport::RLC>(x, i); sym_check(c && c->getType() == (k == 13 ? PM::Multiport::Multiport::sRLC : k == 14 ? PM::Multiport::Multiport::pRLC : PM::Multiport::Multiport::sLpRC) && c->getR() == v[0] && c->getL() == v[1] && c->getC() == v[2], "connector"); break; }
    case 16: case 17: { const PM::Surface::Multilayer* c = mat<PM::Surface::Multilayer>(x, i); size_t n = k == 16 ? 2 : 1; sym_check(c && c->getNumberOfLayers() == n, "layers"); if (!c || c->getNumberOfLayers() != n) break; PM::Surface::Multilayer::Layer l = c->getLayer(0); sym_check(l.getThickness() == v[0] && l.getRelPermittivity() == v[1] && l.getRelPermeability() == v[2] && l.getElecCond() == v[3], "layer-parameters"); sym_check(c->hasFittingOptions() == (k == 16), "fitting"); if (k == 16) { l = c->getLayer(1); sym_check(l.getThickness() == v[4] && l.getRelPermittivity() == v[5] && l.getRelPermeability() == v[6] && l.getElecCond() == 0, "second-layer"); PM::Surface::Multilayer::FittingOptions f = c->getFittingOptions(); sym_check(f.getMinMaxFreq().first == v[0] && f.getMinMaxFreq().second == v[1] && f.getNumberOfPoles() == 5, "fitting-options"); } break; }
    default: { const PM::Surface::SIBCFile* c = mat<PM::Surface::SIBCFile>(x, i); sym_check(c && c->getFile() == "p23_surface.mibc", "surface-file"); } }
}
ENTRY p23_axes() {
    int k = sym_choice("kind", 3), style = sym_choice("style", 4); CVecR3 e = symR3("e", -7, 7), o = symR3("o", -1e6, 1e6), p = symR3("p", 0.1, 100); double mu = symr("mu", 0.1, 100), kap = symr("kappa", 0.1, 100); std::string ax = style == 0 ? "{" + vec(e) + "} {" + vec(o) + "}" : style == 1 ? "{ " + vec(e) + " }{ " + vec(o) + " }" : style == 2 ? "  {" + vec(e) + "}   {" + vec(o) + "}  " : "{" + num(e(0)) + "  " + num(e(1)) + "   " + num(e(2)) + "} , {" + vec(o) + "}"; Doc d; std::string m = "{" + kv("materialId", "23") + "," + ks("name", "n") + "," + ks("localAxes", ax); if (k == 0) m += "," + ks("materialType", "PML"); else if (k == 1) m += "," + ks("materialType", "Anisotropic") + "," + ks("anisotropicModel", "Crystal") + "," + ks("relativePermittiviy", "{" + vec(p) + "}") + "," + kn("crystalRelativePermeability", mu); else m += "," + ks("materialType", "Anisotropic") + "," + ks("anisotropicModel", "Ferrite") + "," + kn("kappa", kap) + "," + kn("ferriteRelativePermeability", mu) + "," + kn("ferriteRelativePermittivity", p(0)); d.mats += "," + m + "}"; Data x; bool ok = load(d.text(), x); sym_check(ok && x.physicalModels && x.physicalModels->size() == 3, "read"); if (!ok || !x.physicalModels || x.physicalModels->size() != 3) return;
    const PM::Volume::PML* l = mat<PM::Volume::PML>(x, 2); const PM::Volume::AnisotropicCrystal* c = mat<PM::Volume::AnisotropicCrystal>(x, 2); const PM::Volume::AnisotropicFerrite* f = mat<PM::Volume::AnisotropicFerrite>(x, 2); sym_check((l != 0) == (k == 0) && (c != 0) == (k == 1) && (f != 0) == (k == 2), "kind"); Axis::Local a = l ? l->getOrientation() : c ? c->getLocalAxe() : f ? f->getLocalAxe() : Axis::Local(); sym_check(same(a.getEulerAngles(), e) && same(a.getOrigin(), o), "axes"); if (c) sym_check(same(c->getPrincipalAxesRelativePermittivity(), p) && c->getRelativePermeability() == mu, "crystal");
}

static const char* LIST[5] = {"hexahedron", "tetrahedron", "quadrilateral", "triangle", "line"};
ENTRY p23_elements() {
    static const int NV[5] = {8, 4, 4, 3, 2}; static const long MAT[4] = {0, 4, 9, 5}, LAY[4] = {0, 3, 7, 8}; int k = sym_choice("kind", 5), m = sym_choice("material", 4), l = sym_choice("layer", 4), miss = sym_choice("vertex", 3), two = sym_choice("two", 2); static const int V[8] = {2, 3, 7, 5, 6, 1, 0, 4}; Doc d; for (int i = 0; i < 5; i++) if (i != k && two) d.elem[i] = ""; std::string t = "31 " + num(MAT[m]) + (sym_choice("spaces", 2) ? "     " : " ") + num(LAY[l]); int at = miss == 2 ? NV[k] - 1 : 0; for (int i = 0; i < NV[k]; i++) t += " " + num(miss && i == at ? 55L : V[i] + 1L); std::string old = d.elem[k]; d.elem[k] = two ? q(t) + "," + old : q(t); Data x; bool ok = load(d.text(), x); sym_check(ok, "read"); if (!ok) return; bool bad = m == 3 || l == 3 || miss; sym_check((x.mesh == 0) == bad, "no-mesh-with-missing-parts"); if (!geo(x)) { sym_reach("none"); return; } sym_reach("read");
    const Geo& g = *geo(x); sym_check(g.elems().size() == (two ? 2 : 5) && g.coords().size() == 8 && g.layers().size() == 2, "only-these"); if (!g.elems().existId(ElemId(31))) { sym_check(false, "element-there"); return; } const ElemR* e = g.elems().getId(ElemId(31)); const Elem* b = e; sym_check(k == 0 ? dynamic_cast<const HexR8*>(b) != 0 : k == 1 ? dynamic_cast<const Tet4*>(b) != 0 : k == 2 ? dynamic_cast<const QuaR4*>(b) != 0 : k == 3 ? dynamic_cast<const Tri3*>(b) != 0 : dynamic_cast<const LinR2*>(b) != 0, LIST[k]); sym_check(e->getMatId() == MatId(MAT[m]) && (m ? e->getModel() == (const Element::Model*)x.physicalModels->getId(MatId(MAT[m])) : e->getModel() == 0), "its-material"); sym_check(l ? e->getLayer() == g.layers().getId(LayerId(LAY[l])) && e->getLayer()->getName() == (l == 1 ? "first" : "second_layer") : e->getLayer() == 0, "its-layer"); sym_check(e->numberOfCoordinates() == (size_t)NV[k], "vertices"); for (int i = 0; i < NV[k]; i++) sym_check(e->getV(i) == g.coords().getId(CoordId(V[i] + 1)), "its-coordinates-in-order"); for (int i = 0; i < 5; i++) if (!two && i != k) { sym_check(g.elems().existId(ElemId(11 + i)), "other-elements"); if (g.elems().existId(ElemId(11 + i))) sym_check(g.elems().getId(ElemId(11 + i))->numberOfCoordinates() == (size_t)NV[i], "kind-of-others"); } if (two) sym_check(g.elems().existId(ElemId(11 + k)), "second-of-its-kind");
}
ENTRY p23_coordinates() { Doc d; int n = 2 + sym_choice("n", 2); CVecR3 p[3]; static const long ID[3] = {30, 12, 1000}; for (int i = 0; i < n; i++) { p[i] = symR3(nm("p", i), -1e6, 1e6); if (i) p[i](0) += i == 1 ? 3e6 : -3e6; d.coords += "," + q((i == 1 ? "    " : "") + num(ID[i]) + (i == 2 ? "   " : " ") + vec(p[i]) + (i == 1 ? " " : "")); } d.elem[4] = q("15 0 7 30 12"); Data x; bool ok = load(d.text(), x); sym_check(ok && geo(x), "read"); if (!ok || !geo(x)) return; const Geo& g = *geo(x); sym_check(g.coords().size() == (size_t)(8 + n), "every-coordinate"); for (int i = 0; i < n; i++) sym_check(g.coords().existId(CoordId(ID[i])) && same(g.coords().getId(CoordId(ID[i]))->pos(), p[i]), "positions"); const ElemR* e = g.elems().getId(ElemId(15)); sym_check(same(e->getV(0)->pos(), p[0]) && same(e->getV(1)->pos(), p[1]), "line-between-its-ends"); for (int i = 0; i < 8; i++) sym_check(same(g.coords().getId(CoordId(i + 1))->pos(), CORNER[i]), "corners"); }

static std::string box(const CVecR3& lo, const CVecR3& hi) { return "{" + vec(hi) + " " + vec(lo) + "}"; }
static const Geo* grid(const std::string& t, Data& x) { Doc d; d.grid = "{" + t + "}"; bool ok = load(d.text(), x); sym_check(ok, "read"); return ok ? geo(x) : 0; }
static void lines(const Geo& g, int axis, double from, double step, int n) { std::vector<Real> l = g.grid().getPos(axis); sym_check(l.size() == (size_t)n + 1, "number-of-lines"); for (int i = 0; i <= n && i < (int)l.size(); i++) sym_check_close(l[i], from + i * step, 1e-6, "lines-where-asked"); }
static const double STEP[4] = {0.5, 1, 2, 0.25};
ENTRY p23_grid() { CVecR3 o = symD3("o", -8, 8, 4), len; int n[3], s = sym_choice("s", 4); for (int i = 0; i < 3; i++) { n[i] = 1 + (i == 0 ? sym_choice("n", 4) : i); len(i) = n[i] * STEP[(i + s) % 4]; } bool curl = sym_choice("curl", 2); std::string b = box(o, o + len); if (!curl) b = "  " + b + " "; Data x; const Geo* g = grid(ks("gridType", "gridCondition") + "," + ks("type", "Number_of_cells") + "," + ks("layerBox", b) + "," + ks("numberOfCells", (curl ? "{" : "") + num(n[0]) + " " + num(n[1]) + " " + num(n[2]) + (curl ? "}" : "")), x); sym_check(g != 0, "grid"); if (!g) return; for (int i = 0; i < 3; i++) lines(*g, i, o(i), len(i) / n[i], n[i]); }
ENTRY p23_step() { CVecR3 o = symD3("o", -8, 8, 4), len, st; int n[3]; bool fit = sym_choice("fit", 2); static const double OFF[3] = {0, 0.25, -0.375}; int off = fit ? sym_choice("off", 3) : 0, s = sym_choice("s", 4); int thin = fit && s == 1 ? sym_choice("thin", 4) : 0; for (int i = 0; i < 3; i++) { n[i] = 1 + (i == 0 ? sym_choice("n", 4) : i); st(i) = STEP[(i + s) % 4]; len(i) = (n[i] + (i == 1 ? 0 : OFF[off])) * st(i); if (i + 1 == thin) { n[i] = 1; len(i) = st(i) / 4; } } Data x; const Geo* g = grid(ks("gridType", "gridCondition") + "," + ks("type", "Cell_size") + "," + ks("layerBox", box(o, o + len)) + "," + ks("stepSize", "{" + vec(st) + "}") + "," + kv("fitSizeToBox", fit ? "true" : "false"), x); sym_check(g != 0, "grid"); if (!g) return; for (int i = 0; i < 3; i++) lines(*g, i, o(i), len(i) / n[i], n[i]); }
ENTRY p23_padding() { int axis = sym_choice("axis", 3), lo = sym_choice("lower", 4), hi = sym_choice("upper", 4); bool cells = sym_choice("cells", 2); bool fine = lo + hi && sym_choice("finer", 2); double o = symr("o", -8, 8), s = STEP[sym_choice("s", 3)], sl = fine ? s / 2 : s, su = fine ? s : s / 2; int al = cells && fine ? (lo + 1) / 2 : lo, au = cells && !fine ? (hi + 1) / 2 : hi; CVecR3 low(1, 2, 3), high, z(0, 0, 0), pl = z, pu = z; low(axis) = o; high = low + CVecR3(2 * s, 2 * s, 2 * s); pl(axis) = cells ? lo : lo * s; pu(axis) = cells ? hi : hi * s; Data x; const Geo* g = grid(ks("gridType", "gridCondition") + "," + ks("type", "Number_of_cells") + "," + ks("layerBox", box(low, high)) + "," + ks("numberOfCells", "{2 2 2}") + "," + ks("lowerPaddingMeshSize", "{" + vec(CVecR3(sl, sl, sl)) + "}") + "," + ks("upperPaddingMeshSize", "{" + vec(CVecR3(su, su, su)) + "}") + "," + ks("lowerPadding", "{" + vec(pl) + "}") + "," + ks("upperPadding", "{" + vec(pu) + "}") + "," + ks("boundaryPaddingType", cells ? "by_number_of_cells" : "by_distance"), x); sym_check(g != 0, "grid"); if (!g) return; for (int i = 0; i < 3; i++) if (i == axis) lines(*g, i, o - al * s, s, 2 + al + au); else lines(*g, i, low(i), s, 2); }
ENTRY p23_native() {
    int how = sym_choice("how", 3), n = 2 + sym_choice("n", 3); double v[4]; std::string l; v[0] = symr("v0", -100, 100); for (int i = 1; i < n; i++) v[i] = v[i - 1] + symr(nm("step", i), 0.01, 100); for (int i = 0; i < n; i++) l += (i ? ", " : "") + num(v[i]); int axis = sym_choice("axis", 3); static const char* A[3] = {"xCoordinates", "yCoordinates", "zCoordinates"}; static const char* B[3] = {"xs", "ys", "zs"}; Data x; const Geo* g = 0;
    if (how < 2) { std::string t = ks("gridType", "nativeGiD") + "," + ks("corner", "{1 2 3}") + "," + ks("boxSize", "{4 8 16}") + "," + ks("nGridPoints", how == 0 && n == 3 ? "{0 0 0}" : "{4 4 4}"); for (int i = 0; i < 3; i++) t += "," + kv(A[i], how ? "[]" : i == axis ? "[" + l + "]" : "[0, 0.5, 2]"); g = grid(t, x); } else { std::ofstream f("p23_grid.txt"); for (int i = 0; i < 3; i++) f << (i ? ",\n" : "") << kv(B[i], i == axis ? "[" + l + "]" : "[0, 0.5, 2]"); f.close(); g = grid(ks("gridType", "positionsFromFile") + "," + ks("filename", "p23_grid.txt"), x); }
    sym_check(g != 0, "grid"); if (!g) return; static const double C[3] = {1, 2, 3}, E[3] = {5, 10, 19}; for (int i = 0; i < 3; i++) { std::vector<Real> p = g->grid().getPos(i); if (how == 1) sym_check(p.size() > 1 && near(p.front(), C[i]) && near(p.back(), E[i]), "box-covered"); else if (i == axis) { sym_check(p.size() == (size_t)n, "number-of-lines"); for (int k = 0; k < n && k < (int)p.size(); k++) sym_check(p[k] == v[k], "lines-given"); } else sym_check(p.size() == 3 && p[0] == 0 && p[1] == 0.5 && p[2] == 2, "other-axes"); }
}
ENTRY p23_no_grid() { int k = sym_choice("how", 6); Data x; Doc d; if (k == 0) d.noGrid = true; else if (k == 1) d.grid = "{" + ks("gridType", "other") + "}"; else if (k == 2) d.grid = "{" + ks("gridType", "positionsFromFile") + "," + ks("filename", "p23_none.txt") + "}"; else if (k == 3) d.noElems = true; else if (k == 4) d.grid = ""; else { int e = sym_choice("empty", 3); std::ofstream f("p23_part.txt"); static const char* B[3] = {"xs", "ys", "zs"}; for (int i = 0; i < 3; i++) f << (i ? ",\n" : "") << kv(B[i], i == e ? "[]" : "[0, 1]"); f.close(); d.grid = "{" + ks("gridType", "positionsFromFile") + "," + ks("filename", "p23_part.txt") + "}"; } bool ok = load(d.text(), x); sym_check(ok && x.mesh == 0 && x.physicalModels && x.physicalModels->size() == 2, "no-mesh-without-its-parts"); }
ENTRY p23_connectors() {
    int n = sym_choice("n", 3); double r = symr("r", 0, 1e6), l = symr("l", 0, 1e6), c = symr("c", 0, 1e6); static const long AT[2] = {6, 3}; bool rlc[2]; Doc d; for (int i = 0; i < n; i++) { rlc[i] = sym_choice(nm("kind", i).c_str(), 2); d.conn += std::string(i ? "," : "") + "{" + (i == 0 && sym_choice("numbered", 2) ? kv("materialId", "9") + "," : "") + ks("materialType", "Connector") + "," + kv("coordIds", num(AT[i])) + "," + (rlc[i] ? ks("connectorType", "Conn_pRLC") + "," + kn("resistance", r) + "," + kn("inductance", l) + "," + kn("capacitance", c) : ks("connectorType", "Conn_short")) + "}"; } Data x; bool ok = load(d.text(), x); sym_check(ok && geo(x), "read"); if (!ok || !geo(x)) return; const Geo& g = *geo(x); sym_check(x.physicalModels->size() == (size_t)(2 + n) && g.elems().size() == (size_t)(5 + n), "one-connector-each"); if (x.physicalModels->size() != (size_t)(2 + n) || g.elems().size() != (size_t)(5 + n)) return; for (int i = 0; i < n; i++) { const PM::PhysicalModel* m = (*x.physicalModels)(2 + i); const ElemR* e = g.elems()(5 + i); sym_check(dynamic_cast<const NodR*>((const Elem*)e) && e->getV(0) == g.coords().getId(CoordId(AT[i])) && e->getModel() == (const Element::Model*)m && e->getLayer() == 0, "connector-on-its-point"); sym_check(m->getId() != MatId(4) && m->getId() != MatId(9) && (i == 0 || m->getId() != (*x.physicalModels)(2)->getId()), "identifier-of-its-own"); if (rlc[i]) { const PM::Multiport::RLC* p = dynamic_cast<const PM::Multiport::RLC*>(m); sym_check(p && p->getType() == PM::Multiport::Multiport::pRLC && p->getR() == r && p->getL() == l && p->getC() == c, "connector-parameters"); } else { const PM::Multiport::Predefined* p = dynamic_cast<const PM::Multiport::Predefined*>(m); sym_check(p && p->getType() == PM::Multiport::Multiport::shortCircuit, "short-circuit"); } }
}

static std::string gauss(double f = 1e9) { return kv("magnitude", "{" + ks("type", "Gaussian") + "," + kn("frequencyMaximum", f) + "}"); }
static const CoordR3* only(const Elem* e) { const NodR* n = dynamic_cast<const NodR*>(e); return n ? n->getV(0) : 0; }
static std::string port(int k, bool b, const CVecR3& o, double r1, double r2, int m1, int m2) {
    switch (k) {
    case 0: return "{" + ks("sourceType", "generator") + "," + ks("type", b ? "voltage" : "current") + "," + ks("hardness", "soft") + "," + kv("coordIds", "[5, 2]") + "," + gauss() + "}";
    case 1: return "{" + ks("sourceType", "sourceOnLine") + "," + ks("type", b ? "electricField" : "magneticField") + "," + ks("hardness", m1 ? "hard" : "soft") + "," + kv("elemIds", "[15]") + "," + gauss() + "}";
    case 2: return "{" + ks("sourceType", "waveguidePort") + "," + ks("shape", "Rectangular") + "," + ks("excitationMode", b ? "TE" : "TM") + "," + kv("firstMode", num(m1)) + "," + kv("secondMode", num(m2)) + "," + kv("elemIds", "[13]") + "," + gauss() + "}";
    case 3: return "{" + ks("sourceType", "temPort") + "," + ks("excitationMode", b ? "Voltage" : "Current") + "," + ks("origin", "{" + vec(o) + "}") + "," + kn("innerRadius", r1) + "," + kn("outerRadius", r2) + "," + kv("elemIds", "[13]") + "," + gauss() + "}";
    default: return "{" + ks("sourceType", "planewave") + "," + ks("definitionMode", "by_vectors") + "," + ks("directionVector", b ? "{0 0 1}" : "{1 0 0}") + "," + ks("polarizationVector", "{0 1 0}") + "," + ks("layerBox", box(CVecR3(-1, -2, -3), CVecR3(4, 5, 6))) + "," + gauss() + "}"; } }
ENTRY p23_sources() {
    int n = sym_choice("n", 3), k[2]; bool b[2]; int m1 = 0, m2 = 1; CVecR3 o = symR3("o", -100, 100); static const double RI[2] = {1, 0.25}, RO[2] = {2, 4}; int ri = 0; Doc d; for (int i = 0; i < n; i++) k[i] = sym_choice(nm("kind", i).c_str(), 5); bool on = false, wave = false, tem = false; for (int i = 0; i < n; i++) { on = on || k[i] == 1; wave = wave || k[i] == 2; tem = tem || k[i] == 3; } if (on || wave) m1 = sym_choice("m1", 2); if (wave) m2 += sym_choice("m2", 2); if (tem) ri = sym_choice("radii", 2); for (int i = 0; i < n; i++) { b[i] = sym_choice(nm("b", i).c_str(), 2); d.src += (i ? "," : "") + port(k[i], b[i], o, RI[ri], RO[ri], m1, m2); } Data x; bool ok = load(d.text(), x); sym_check(ok && geo(x) && x.sources && x.sources->size() == (size_t)n, "every-source"); if (!ok || !geo(x) || !x.sources || x.sources->size() != (size_t)n) return; const Geo& g = *geo(x);
    for (int i = 0; i < n; i++) { const S::Base* s = (*x.sources)(i); Element::Group<const Elem> e = s->elems(); sym_check(s->getMagnitude() != 0, "magnitude"); sym_check(e.size() == (k[i] == 0 ? 2 : 1), "its-elements"); if (e.size() != (size_t)(k[i] == 0 ? 2 : 1)) continue; for (size_t j = 0; j < e.size(); j++) sym_check(g.elems().existId(e(j)->getId()) && g.elems().getId(e(j)->getId()) == e(j), "elements-of-its-mesh");
        switch (k[i]) {
        case 0: { const S::Generator* p = dynamic_cast<const S::Generator*>(s); sym_check(p && p->getType() == (b[i] ? S::Generator::voltage : S::Generator::current), "generator"); sym_check(only(e(0)) == g.coords().getId(CoordId(5)) && only(e(1)) == g.coords().getId(CoordId(2)), "generator-on-its-points"); break; }
        case 1: { const S::OnLine* p = dynamic_cast<const S::OnLine*>(s); sym_check(p && p->getType() == (b[i] ? S::OnLine::electric : S::OnLine::magnetic) && p->getHardness() == (m1 ? S::OnLine::hard : S::OnLine::soft), "source-on-line"); sym_check(e(0)->getId() == ElemId(15), "its-line"); break; }
        case 2: { const S::Port::WaveguideRectangular* p = dynamic_cast<const S::Port::WaveguideRectangular*>(s); sym_check(p && p->getExcitationMode() == (b[i] ? S::Port::Waveguide::TE : S::Port::Waveguide::TM) && p->getMode().first == (size_t)m1 && p->getMode().second == (size_t)m2, "waveguide-port"); sym_check(e(0)->getId() == ElemId(13), "its-surface"); break; }
        case 3: { const S::Port::TEMCoaxial* p = dynamic_cast<const S::Port::TEMCoaxial*>(s); sym_check(p && p->getExcitationMode() == (b[i] ? S::Port::TEM::voltage : S::Port::TEM::current) && same(p->getOrigin(), o), "coaxial-port"); if (p) { std::unique_ptr<S::Port::TEMCoaxial> w(new S::Port::TEMCoaxial(0, Element::Group<const Surf>(), b[i] ? S::Port::TEM::voltage : S::Port::TEM::current, CVecR3(0, 0, 0), RI[ri], RO[ri])); CVecR3 at(0.75, 1.25, 0); if (same(o, CVecR3(0, 0, 0))) close3(p->getWeight(at), w->getWeight(at), 1e-6, "radii"); } break; }
        default: { const S::PlaneWave* p = dynamic_cast<const S::PlaneWave*>(s); sym_check(p && same(p->getDirection(), b[i] ? CVecR3(0, 0, 1) : CVecR3(1, 0, 0)) && same(p->getPolarization(), CVecR3(0, 1, 0)), "plane-wave"); BoxR3 w = dynamic_cast<const ElemR*>(e(0)) ? dynamic_cast<const ElemR*>(e(0))->getBound() : BoxR3(); sym_check(same(w.getMin(), CVecR3(-1, -2, -3)) && same(w.getMax(), CVecR3(4, 5, 6)), "plane-wave-box"); } } }
    sym_check(g.coords().existId(CoordId(8)) && same(g.coords().getId(CoordId(8))->pos(), CORNER[7]) && g.elems().existId(ElemId(11)), "mesh-kept");
}
ENTRY p23_refused_sources() { static const char* T[8] = {"dipole", "", "waveguidePort", "temPort", "generator", "sourceOnLine", "sourceOnLine", "planewave"}; static const char* U[5] = {"charge", "electric", "electricFlux", "magneticField ", "Voltage"}; int k = sym_choice("kind", 9); std::string t, un = U[k == 4 || k == 5 ? sym_choice("unknown", 5) : 0]; if (k < 8) t = ks("sourceType", T[k]) + "," + ks("shape", "Circular") + "," + ks("excitationMode", "TEM") + "," + ks("type", k == 6 ? "electricField" : un) + "," + ks("hardness", "medium") + "," + kv("coordIds", "[1]") + "," + kv("elemIds", k == 3 ? "[13]" : "[15]") + "," + ks("origin", "{0 0 0}") + "," + kn("innerRadius", 1) + "," + kn("outerRadius", 2) + "," + ks("definitionMode", "by_magic") + "," + ks("layerBox", "{1 1 1 0 0 0}") + "," + gauss(); else t = ks("sourceType", "planewave") + "," + ks("definitionMode", "by_vectors") + "," + ks("directionVector", "{0 0 1}") + "," + ks("polarizationVector", "{1 0 0}") + "," + ks("layerBox", "{1 1 1 0 0 1}") + "," + gauss(); Doc d; d.src = "{" + t + "}"; Data x; sym_check(!load(d.text(), x), "unknown-sources-refused"); }
ENTRY p23_planewave() {
    int how = sym_choice("how", 3); Doc d; CVecR3 lo = symR3("lo", -100, -1), hi = symR3("hi", 2, 100); std::string t = ks("sourceType", "planewave") + "," + ks("layerBox", box(lo, hi)) + "," + gauss(); static const double A[5][4] = {{0, 0, 90, 0}, {90, 0, 0, 0}, {90, 90, 90, 0}, {180, 0, 90, 90}, {45, 0, 135, 0}}; int a = 0; double delay = 0; long many = 0; CVecR3 dir, pol;
    if (how == 0) { a = sym_choice("angles", 5); t += "," + ks("definitionMode", "by_angles") + "," + kn("directionTheta", A[a][0]) + "," + kn("directionPhi", A[a][1]) + "," + kn("polarizationAlpha", A[a][2]) + "," + kn("polarizationBeta", A[a][3]); } else if (how == 1) { many = symi("many", 1, 100000); delay = symr("delay", 0, 1); t += "," + ks("definitionMode", "randomized_multisource") + "," + kv("numberOfRandomPlanewaves", num(many)) + "," + kn("relativeVariationOfRandomDelay", delay); } else { static const double D[4][6] = {{1, 0, 0, 0, 0, 1}, {0, 3, 4, 1, 0, 0}, {1, 1, 0, 1, -1, 0}, {-2, 0, 0, 0, 0.5, 0.5}}; int v = sym_choice("vectors", 4); for (int i = 0; i < 3; i++) { dir(i) = D[v][i]; pol(i) = D[v][3 + i]; } t += "," + ks("definitionMode", "by_vectors") + "," + ks("directionVector", "{" + vec(dir) + "}") + "," + ks("polarizationVector", "{" + vec(pol) + "}"); }
    d.src = "{" + t + "}"; Data x; bool ok = load(d.text(), x); sym_check(ok && x.sources && x.sources->size() == 1, "read"); if (!ok || !x.sources || x.sources->size() != 1) return; const S::PlaneWave* p = dynamic_cast<const S::PlaneWave*>((*x.sources)(0)); sym_check(p != 0, "plane-wave"); if (!p) return; Element::Group<const Elem> e = p->elems(); sym_check(e.size() == 1 && dynamic_cast<const HexR8*>(e(0)), "its-box"); if (e.size() == 1 && dynamic_cast<const HexR8*>(e(0))) { BoxR3 w = dynamic_cast<const HexR8*>(e(0))->getBound(); sym_check(same(w.getMin(), lo) && same(w.getMax(), hi), "its-box-where-given"); } sym_check(p->isRandomic() == (how == 1), "random"); if (how == 1) { sym_check(p->getNumberOfRandomPlanewaves() == many && p->getRelativeVariationOfRandomDelay() == delay, "random-settings"); return; } static const double deg = 2.0 * Constants::pi / 360; double th = A[a][0] * deg, ph = A[a][1] * deg, al = A[a][2] * deg, be = A[a][3] * deg; if (how == 0) { close3(p->getDirection(), CVecR3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)), 1e-9, "direction-of-the-angles"); close3(p->getPolarization(), CVecR3(std::sin(al) * std::cos(be), std::sin(al) * std::sin(be), std::cos(al)), 1e-9, "polarization-of-the-angles"); } else { CVecR3 u = p->getDirection(), w = p->getPolarization(); sym_check(near((u ^ dir).norm(), 0) && u.dot(dir) > 0, "direction"); sym_check(near((w ^ pol).norm(), 0) && w.dot(pol) > 0, "polarization"); } }
ENTRY p23_magnitude() { int k = sym_choice("kind", 4); static const double F[3] = {1e9, 2.5e8, 3e3}; double f = F[sym_choice("f", 3)], lo = f / 4, v[2] = {symr("v0", -9, 9), symr("v1", 20, 30)}; std::string t; if (k == 0) t = ks("type", "Gaussian") + "," + kn("frequencyMaximum", f); else if (k == 1) t = ks("type", "Band_limited") + "," + kn("frequencyMinimum", lo) + "," + kn("frequencyMaximum", f); else if (k == 2) { std::ofstream s("p23_magnitude.txt"); s << "0 " << num(v[0]) << "\n1 " << num(v[1]) << "\n"; s.close(); t = ks("type", "File") + "," + ks("filename", "p23_magnitude.txt"); } else t = ks("type", "Square"); Doc d; d.src = "{" + ks("sourceType", "generator") + "," + ks("type", "voltage") + "," + kv("coordIds", "[1]") + "," + kv("magnitude", "{" + t + "}") + "}"; Data x; bool ok = load(d.text(), x); sym_check(ok == (k < 3), "unknown-magnitudes-refused"); if (!ok || k == 3) return; sym_check(x.sources && x.sources->size() == 1, "read"); if (!x.sources || x.sources->size() != 1) return; const S::Magnitude::Magnitude& m = *(*x.sources)(0)->getMagnitude(); if (k == 2) { sym_check_close(m.evaluate(0), v[0], 1e-6, "file-start"); sym_check_close(m.evaluate(0.5), (v[0] + v[1]) / 2, 1e-6, "file-middle"); sym_check_close(m.evaluate(1), v[1], 1e-6, "file-end"); sym_check((*x.sources)(0)->getMagnitudeFilename() == "p23_magnitude.txt", "file-name"); return; } Function::Gaussian a = Function::Gaussian::buildFromMaximumFrequency(f); Function::BandLimited b(lo, f); for (int i = 0; i < 4; i++) { double at = i / f; double want = k ? b(at) : a(at); sym_check(m.evaluate(at) == want, "excitation"); } }

static std::string dom(double a, double b, double c) { return kv("domain", "{" + kn("initialTime", a) + "," + kn("finalTime", b) + "," + kn("samplingPeriod", c) + "}"); }
static const char* OT[9] = {"electricField", "magneticField", "electricFieldNormals", "magneticFieldNormals", "current", "surfaceCurrentDensity", "bulkCurrentElectric", "bulkCurrentMagnetic", " electricField "};
static const Rq::Type OV[9] = {Rq::electric, Rq::magnetic, Rq::electricFieldNormals, Rq::magneticFieldNormals, Rq::current, Rq::surfaceCurrentDensity, Rq::bulkCurrentElectric, Rq::bulkCurrentMagnetic, Rq::electric};
ENTRY p23_requests() {
    int n = 1, k[2], t[2], ai = 0, ax = 0, flat = 0; double v[3], an[6]; for (int i = 0; i < 3; i++) v[i] = symr(nm("time", i), 0, 100); static const double ANG[6] = {0, 180, 10, -90, 360, 5}; static const char* K[6] = {"OutRq_on_point", "OutRq_on_line", "OutRq_on_surface", "OutRq_on_layer", "Far_field", "Bulk_current_on_surface"}; static const char* X[3] = {"x", "y", "z"}; long skip = symi("skip", 0, 1000); CVecR3 lo(-1, -2, -3), hi(4, 5, 6); Doc d; k[0] = sym_choice("kind", 6); t[0] = k[0] == 4 ? 4 : k[0] == 5 ? 6 + sym_choice("magnetic", 2) : sym_choice("type", 9); if (t[0] == 0 || t[0] == 6 || k[0] == 4) n += sym_choice("two", 2); k[1] = 5 - k[0]; t[1] = k[1] == 5 ? 6 : 5; for (int i = 0; i < n; i++) { if (k[i] == 4) ai = sym_choice("angles", 2); if (t[i] == 6 || t[i] == 7) ax = sym_choice(nm("axis", i).c_str(), 3); if (k[i] == 3 && (t[i] == 0 || t[i] == 6)) flat = sym_choice("flat", 4); } for (int i = 0; i < 6; i++) an[i] = ANG[ai ? 5 - i : i]; for (int i = 0; i < flat; i++) hi(2 - i) = lo(2 - i);
    for (int i = 0; i < n; i++) { bool bulk = t[i] == 6 || t[i] == 7; d.out += std::string(i ? "," : "") + "{" + ks("name", nm("request ", i)) + "," + ks("gidOutputType", K[k[i]]) + "," + ks("type", k[i] == 4 ? "farField" : OT[t[i]]) + "," + dom(v[0], v[1], v[2]); if (k[i] < 3 || k[i] == 5) d.out += "," + kv("elemIds", k[i] == 0 ? "[7, 1]" : k[i] == 1 ? "[15]" : "[13, 14]"); else d.out += "," + ks("box", box(lo, hi)); if (bulk) d.out += "," + ks("direction", X[ax]) + "," + kv("skip", num(skip)); if (k[i] == 4) { static const char* A[6] = {"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"}; for (int j = 0; j < 6; j++) d.out += "," + kn(A[j], an[j]); } d.out += "}"; }
    Data x; bool ok = load(d.text(), x); sym_check(ok && geo(x) && x.outputRequests && x.outputRequests->size() == (size_t)n, "every-request"); if (!ok || !geo(x) || !x.outputRequests || x.outputRequests->size() != (size_t)n) return; const Geo& g = *geo(x);
    for (int i = 0; i < n; i++) { const Rq* r = (*x.outputRequests)(i); bool bulk = t[i] == 6 || t[i] == 7; Element::Group<const Elem> e = r->elems(); sym_check(r->getName() == nm("request ", i) && r->domain().isTimeDomain() && r->domain().getInitialTime() == v[0] && r->domain().getFinalTime() == v[1] && r->domain().getSamplingPeriod() == v[2] && !r->domain().isFrequencyDomain(), "name-and-domain"); sym_check(r->getType() == (k[i] == 4 ? Rq::electricFarField : OV[t[i]]), "kind-of-request"); for (size_t j = 0; j < e.size(); j++) sym_check(g.elems().existId(e(j)->getId()) && g.elems().getId(e(j)->getId()) == e(j), "elements-of-its-mesh");
        if (k[i] == 0) { sym_check(e.size() == 2, "two-points"); if (e.size() == 2) sym_check(only(e(0)) == g.coords().getId(CoordId(7)) && only(e(1)) == g.coords().getId(CoordId(1)), "on-its-points"); } else if (k[i] == 1) sym_check(e.size() == 1 && e(0)->getId() == ElemId(15), "on-its-line"); else if (k[i] == 2 || k[i] == 5) sym_check(e.size() == 2 && e(0)->getId() == ElemId(13) && e(1)->getId() == ElemId(14), "on-its-surfaces"); else { sym_check(e.size() == 1, "on-its-box"); if (e.size() == 1) { const ElemR* b = dynamic_cast<const ElemR*>(e(0)); BoxR3 w = b->getBound(); sym_check(same(w.getMin(), lo) && same(w.getMax(), hi), "box-given"); sym_check(flat == 0 ? dynamic_cast<const Vol*>(e(0)) != 0 : flat == 1 ? dynamic_cast<const Surf*>(e(0)) != 0 : flat == 2 ? dynamic_cast<const Lin*>(e(0)) != 0 : dynamic_cast<const Nod*>(e(0)) != 0, "kind-of-box"); } }
        const R::BulkCurrent* b = dynamic_cast<const R::BulkCurrent*>(r); sym_check((b != 0) == bulk, "bulk-current"); if (b) sym_check(b->getDir() == (ax == 0 ? Constants::x : ax == 1 ? Constants::y : Constants::z) && (long)b->getSkip() == skip, "direction-and-skip"); const R::FarField* f = dynamic_cast<const R::FarField*>(r); sym_check((f != 0) == (k[i] == 4), "far-field"); if (f) { double w[6] = {f->getInitialTheta(), f->getFinalTheta(), f->getStepTheta(), f->getInitialPhi(), f->getFinalPhi(), f->getStepPhi()}; for (int j = 0; j < 6; j++) sym_check_close(w[j], an[j] * Constants::pi / 180, 1e-9, "angles-in-radians"); } }
}
ENTRY p23_domain() { bool tm = sym_choice("time", 2), fr = sym_choice("freq", 2), lg = sym_choice("log", 2), tf = sym_choice("transfer", 2); double v[6]; bool dec = tm && fr && lg == tf && sym_choice("decimals", 2); for (int i = 0; i < 6; i++) v[i] = dec ? 123456.7 / (i + 3) : symr(nm("v", i), 0, 1e9); std::string t; if (tm) t += kn("initialTime", v[0]) + "," + kn("finalTime", v[1]) + "," + kn("samplingPeriod", v[2]); if (fr) t += std::string(tm ? "," : "") + kn("initialFrequency", v[3]) + "," + kn("finalFrequency", v[4]) + "," + kn("frequencyStep", v[5]) + "," + kv("logFrequencySweep", lg ? "true" : "false") + (tf ? "," + ks("transferFunctionFile", "some file.exc") : ""); Doc d; d.out = "{" + ks("name", "r") + "," + ks("gidOutputType", "OutRq_on_line") + "," + ks("type", "current") + "," + kv("elemIds", "[15]") + "," + kv("domain", "{" + t + "}") + "}"; Data x; bool ok = load(d.text(), x); sym_check(ok && x.outputRequests && x.outputRequests->size() == 1, "read"); if (!ok || !x.outputRequests || x.outputRequests->size() != 1) return; const R::Domain& m = (*x.outputRequests)(0)->domain(); sym_check(m.isTimeDomain() == tm && m.isFrequencyDomain() == fr && m.isLogFrequencySweep() == (fr && lg) && m.isUsingTransferFunction() == (fr && tf) && m.getTransferFunctionFile() == (fr && tf ? "some file.exc" : ""), "kind-of-domain"); if (tm) sym_check(m.getInitialTime() == v[0] && m.getFinalTime() == v[1] && m.getSamplingPeriod() == v[2], "times"); if (fr) sym_check(m.getInitialFrequency() == v[3] && m.getFinalFrequency() == v[4] && m.getFrequencyStep() == v[5], "frequencies"); }
ENTRY p23_no_mesh() { Doc d; int k = sym_choice("how", 3); if (k == 0) d.noGrid = true; else if (k == 1) d.elem[2] = q("13 0 0 1 2 3 99"); else d.noElems = true; d.noMats = sym_choice("materials", 2); if (k == 1 && d.noMats) return; d.src = port(0, true, CVecR3(), 1, 2, 1, 1); d.noSolver = sym_choice("solver", 2); d.solver = ks("solver", "s"); Data x; bool ok = load(d.text(), x); sym_check(ok && x.mesh == 0 && x.sources && x.sources->size() == 0 && x.outputRequests && x.outputRequests->size() == 0, "nothing-without-a-mesh"); if (!ok) return; sym_check((x.solver == 0) == d.noSolver && x.physicalModels && x.physicalModels->size() == (d.noMats ? 0 : 2), "the-rest-is-read"); }
