// @property P22
// @bounds output requests of every kind over up to 3 elements with any materials; any times, frequencies and angles; problems with structured or unstructured meshes of 3 elements, 2 layers, 2 materials, 2 sources and 3 requests, copied, cloned or assigned onto empty or filled problems, and used after the original is gone; solver and mesher settings set one by one with any values
// @entry p22_domain
// @entry p22_domain_equal
// @entry p22_requests
// @entry p22_elements
// @entry p22_bulk reach=refused,accepted
// @entry p22_request_group
// @entry p22_data shards=4
// @entry p22_data_few reach=linked,loose
// @entry p22_data_parts
// @entry p22_data_freed
// @entry p22_data_no_mesh
// @entry p22_data_missing
// @entry p22_info
// @entry p22_solver reach=given,default
// @entry p22_steps
// @entry p22_arguments
// @entry p22_mesher reach=given,refused
// @entry p22_typed reach=all,none
// @entry p22_mesher_all
// @entry p22_solver_all
// @entry p22_mesher_bounds reach=given,refused
#include "elems.h"
#include <memory>
#include "Data.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "outputRequest/Group.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/predefined/PEC.h"
#include "source/Dipole.h"
#include "source/Generator.h"
#include "source/PlaneWave.h"
#include "math/function/Gaussian.h"
#include "../src/solver/Options.h"
#include "../src/mesher/Options.h"
#include "argument/Parser.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace R = SEMBA::OutputRequest; typedef R::Domain Dom; typedef R::Base Rq; typedef SEMBA::Argument::Object Obj;
struct D { bool t, f, l, u; double v[6]; std::string file; Dom dom() const { return Dom(t, v[0], v[1], v[2], f, v[3], v[4], v[5], l, u, file); } };
static D symDom(const std::string& n) { D d; int k = sym_choice((n + "flags").c_str(), 16); d.t = k & 1; d.f = k & 2; d.l = k & 4; d.u = k & 8; for (int i = 0; i < 6; i++) d.v[i] = symr(nm(n.c_str(), i), -1e6, 1e6); d.file = "transfer.txt"; return d; }
static bool is(const Dom& x, const D& d) { return x.isTimeDomain() == d.t && x.isFrequencyDomain() == d.f && x.isLogFrequencySweep() == d.l && x.isUsingTransferFunction() == d.u && x.getInitialTime() == d.v[0] && x.getFinalTime() == d.v[1] && x.getSamplingPeriod() == d.v[2] && x.getInitialFrequency() == d.v[3] && x.getFinalFrequency() == d.v[4] && x.getFrequencyStep() == d.v[5] && x.getTransferFunctionFile() == (d.u ? d.file : ""); }
ENTRY p22_domain() {
    D d = symDom("d"); Dom x = d.dom(); sym_check(is(x, d), "domain-kept"); static const Dom::Type T[8] = {Dom::NONE, Dom::TIME, Dom::FREQ, Dom::TIFR, Dom::TRAN, Dom::TITR, Dom::FRTR, Dom::ALL}; sym_check(x.getDomainType() == T[d.t + 2 * d.f + 4 * d.u], "type-of-domain"); Dom c(x), e; sym_check(!e.isTimeDomain() && !e.isFrequencyDomain() && !e.isUsingTransferFunction() && e.getDomainType() == Dom::NONE, "empty-domain"); e = x; Dom& s = e; e = s; sym_check(is(c, d) && is(e, d), "domain-copied"); sym_check(c == x && e == x && x == c, "copies-equal"); double t = symr("t", -9, 9), p = symr("p", -9, 9); x.setFinalTime(t); x.setSamplingPeriod(p); D n = d; n.v[1] = t; n.v[2] = p; sym_check(is(x, n) && is(c, d), "times-changed");
}
ENTRY p22_domain_equal() { D a = symDom("a"), b = a; int k = sym_choice("field", 10); if (k < 6) b.v[k] = symr("other", -1e6, 1e6); else if (k == 6) b.t = !a.t; else if (k == 7) b.f = !a.f; else if (k == 8) b.l = !a.l; else b.u = !a.u; bool eq = k < 6 && b.v[k] == a.v[k]; Dom x = a.dom(), y = b.dom(); sym_check((x == y) == eq && (y == x) == eq, "equal-iff-nothing-differs"); if (a.u && k < 6) { b = a; b.file = k % 2 ? "other.txt" : "transfes.txt"; sym_check(!(x == b.dom()) && !(b.dom() == x), "files-differ"); } }
struct Els { Pts<Int> i; Pts<Real> r; Element::Model m1, m2; Els() : m1(MatId(5)), m2(MatId(6)) { static const int B[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; for (int k = 0; k < 8; k++) { i.add(CVecI3(B[k][0], B[k][1], B[k][2])); r.add(CVecR3(B[k][0], B[k][1], B[k][2])); } }
    Elem* make(int kind, long id, bool real, int mat = 0) { const Element::Model* m = mat == 1 ? &m1 : mat == 2 ? &m2 : 0; if (real) return makeR(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 5 : 8, id, r.at(), 0, m); return makeI(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 5 : 8, id, i.at(), 0, m); } };
template<class T> static Element::Group<T> els(Els& x, int kind, int n, bool real, const int* mat = 0) { Element::Group<T> g; for (int k = 0; k < n; k++) g.add(dynamic_cast<T*>(x.make(kind, 3 * (k + 1), real, mat ? mat[k] : 0))); return g; }
static const Rq::Type TYPES[10] = {Rq::electric, Rq::magnetic, Rq::electricFieldNormals, Rq::magneticFieldNormals, Rq::surfaceCurrentDensity, Rq::bulkCurrentElectric, Rq::bulkCurrentMagnetic, Rq::current, Rq::voltage, Rq::electricFarField};
template<class T> static std::unique_ptr<T> dup(T*& s) { int how = sym_choice("copy", 4); std::unique_ptr<T> r; if (how == 0) r.reset(new T(*s)); else if (how == 1) { Class::Class* c = s->clone(); r.reset(dynamic_cast<T*>(c)); } else if (how == 2) r.reset(s->template cloneTo<T>()); else { r.reset(s); s = 0; return r; } sym_check(r.get() != 0, "clone-keeps-its-kind"); s->setName("changed"); s->domain().setFinalTime(-5); delete s; s = 0; return r; }
template<class T> static void holds(const T& q, int n, const D& d, Rq::Type t) { sym_check(q.getName() == "name" && q.getType() == t, "name-and-type"); sym_check(is(q.domain(), d), "its-domain"); Element::Group<const Elem> e = q.elems(); sym_check(e.size() == (size_t)n && q.size() == (size_t)n, "every-element"); if (e.size() != (size_t)n || q.size() != (size_t)n) return; for (int i = 0; i < n; i++) sym_check(e(i)->getId() == ElemId(3 * (i + 1)) && e(i) == q(i), "elements-in-order"); }
template<class T> static void plain(Els& x, int kind, int n, bool real, const D& d) { Rq::Type t = TYPES[sym_choice("type", 10)]; R::OutputRequest<T>* q = new R::OutputRequest<T>(d.dom(), t, "name", els<T>(x, kind, n, real)); auto c = dup(q); holds(*c, n, d, t); const Rq& b = *c; R::OutputRequest<T> e(b); sym_check(e.getName() == "name" && e.getType() == t && is(e.domain(), d), "settings-of-another-request"); c->setName("other"); sym_check(c->getName() == "other" && e.getName() == "name", "renamed"); }
static D oneDom() { D d; d.t = true; d.f = sym_choice("f", 2); d.l = false; d.u = d.f; for (int i = 0; i < 6; i++) d.v[i] = symr(nm("d", i), -1e6, 1e6); d.file = "transfer.txt"; return d; }
ENTRY p22_requests() {
    Els x; int n = sym_choice("n", 4); bool real = sym_choice("real", 2); D d = oneDom(); switch (sym_choice("kind", 7)) { case 0: plain<Nod>(x, 0, n, real, d); break; case 1: plain<Lin>(x, 1, n, real, d); break; case 2: plain<Surf>(x, 2, n, real, d); break; case 3: plain<Vol>(x, 3, n, real, d); break; case 4: plain<Elem>(x, n % 4, n, real, d); break;
    case 5: { Math::Constants::CartesianAxis a = sym_choice("axis", 3) == 0 ? Math::Constants::x : sym_choice("axis2", 2) ? Math::Constants::y : Math::Constants::z; UInt skip = (UInt)symi("skip", 0, 1000); R::BulkCurrent* q = new R::BulkCurrent(d.dom(), "name", els<Elem>(x, 2, n, real), a, skip); auto c = dup(q); holds(*c, n, d, Rq::bulkCurrentElectric); sym_check(c->getDir() == a && c->getSkip() == skip, "direction-and-skip"); break; }
    default: { double v[6]; for (int i = 0; i < 6; i++) v[i] = symr(nm("angle", i), -360, 360); R::FarField* q = new R::FarField(d.dom(), "name", els<Vol>(x, 3, n, real), v[0], v[1], v[2], v[3], v[4], v[5]); auto c = dup(q); holds(*c, n, d, Rq::electricFarField); sym_check(c->getInitialTheta() == v[0] && c->getFinalTheta() == v[1] && c->getStepTheta() == v[2] && c->getInitialPhi() == v[3] && c->getFinalPhi() == v[4] && c->getStepPhi() == v[5], "angles"); break; } }
}
template<class T> static void setAdd(Els& x, int kind, bool real) { R::OutputRequest<T> q(Dom(), Rq::electric, "name", els<T>(x, kind, 2, real)); Element::Group<Elem> many; for (int k = 0; k < 4; k++) many.add(x.make(k, 50 + k, real)); bool add = sym_choice("add", 2); if (add) q.add(many); else q.set(many); Element::Group<const Elem> e = q.elems(); size_t base = add ? 2 : 0; sym_check(e.size() == base + 1, "only-elements-of-its-kind"); if (e.size() != base + 1) return; if (add) sym_check(e(0)->getId() == ElemId(3) && e(1)->getId() == ElemId(6), "elements-before"); sym_check(e(base)->getId() == ElemId(50 + kind), "new-element"); sym_check(q.getName() == "name" && q.getType() == Rq::electric, "name-and-type"); }
ENTRY p22_elements() { Els x; bool real = sym_choice("real", 2); switch (sym_choice("kind", 4)) { case 0: setAdd<Nod>(x, 0, real); break; case 1: setAdd<Lin>(x, 1, real); break; case 2: setAdd<Surf>(x, 2, real); break; default: setAdd<Vol>(x, 3, real); break; } }
ENTRY p22_bulk() { Els x; int n = sym_choice("n", 4), m[3]; bool any = false; for (int i = 0; i < n; i++) { m[i] = sym_choice(nm("mat", i).c_str(), 3); any = any || m[i]; } Rq::Type t = TYPES[sym_choice("type", 10)]; bool bulk = t == Rq::bulkCurrentElectric || t == Rq::bulkCurrentMagnetic, ok = true; try { R::OutputRequest<Surf> q(Dom(), t, "bulk", els<Surf>(x, 2, n, true, m)); sym_check(q.size() == (size_t)n, "every-element"); } catch (const R::Error::Material& e) { ok = false; sym_check(std::string(e.what()).size() > 0, "explained"); } sym_check(ok == !(bulk && any), "bulk-currents-only-off-materials"); if (ok) sym_reach("accepted"); else sym_reach("refused"); }
ENTRY p22_request_group() {
    Els x; R::Group<> g; D d = oneDom(); int n = 1 + sym_choice("n", 3), kinds[3]; for (int i = 0; i < n; i++) { kinds[i] = sym_choice(nm("kind", i).c_str(), 3); if (kinds[i] == 0) g.add(new R::OutputRequest<Nod>(d.dom(), Rq::voltage, nm("r", i), els<Nod>(x, 0, i, true))); else if (kinds[i] == 1) g.add(new R::BulkCurrent(d.dom(), nm("r", i), els<Elem>(x, 2, i, true), Math::Constants::y, 4)); else g.add(new R::FarField(d.dom(), nm("r", i), els<Vol>(x, 3, i, true), 1, 2, 3, 4, 5, 6)); } R::Group<>* c = g.clone(); sym_check(c->size() == (size_t)n, "every-request"); for (int i = 0; i < n && i < (int)c->size(); i++) { const Rq* q = (*c)(i); sym_check(q != g(i) && q->getName() == nm("r", i) && is(q->domain(), d) && q->elems().size() == (size_t)i, "requests-in-order"); sym_check((dynamic_cast<const R::BulkCurrent*>(q) != 0) == (kinds[i] == 1) && (dynamic_cast<const R::FarField*>(q) != 0) == (kinds[i] == 2), "kinds-kept"); } delete c;
}
typedef Source::Magnitude::Magnitude Mag; typedef PhysicalModel::Volume::Classic Cla;
struct P { double v; int lay[3], mat[3], use[3]; bool st; };
static P symP() { P p; p.v = symr("v", -9, 9); p.st = sym_choice("structured", 2); int l = sym_choice("lay", 3), m = sym_choice("mat", 3); for (int i = 0; i < 3; i++) { p.lay[i] = (i + l) % 3; p.mat[i] = (3 - i + m) % 3; } for (int i = 0; i < 3; i++) p.use[i] = 1 + sym_choice(nm("use", i).c_str(), i < 2 && !THOROUGH ? 2 : 7); return p; }
static Grid3 theGrid() { std::vector<Real> p[3]; double L[4] = {0, 1, 2, 3.5}; for (int d = 0; d < 3; d++) p[d].assign(L, L + 4); return Grid3(p); }
static const int B8[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
template<class M, class C, class V> static void fillMesh(M& m, const P& p, Data& d) { m.layers().add(new Layer::Layer(LayerId(7), "a")); m.layers().add(new Layer::Layer(LayerId(2), "b")); const C* v[8]; for (int i = 0; i < 8; i++) { m.coords().add(new C(CoordId(30 - i), V(B8[i][0], B8[i][1], B8[i][2]))); v[i] = m.coords()(i); } (void)d; (void)v; }
static Data* problem(const P& p) {
    Data* d = new Data; d->physicalModels = new PhysicalModel::Group<>; d->physicalModels->add(new Cla(MatId(4), "glass", 2, 1, 0, 0)); d->physicalModels->add(new PhysicalModel::Predefined::PEC(MatId(9))); Obj s; s("x").setReal(p.v); d->solver = new Solver::Info("solver", s); const Layer::Layer* l[3] = {0, 0, 0}; const Element::Model* m[3] = {0, (*d->physicalModels)(0), (*d->physicalModels)(1)}; Element::Group<Nod> nod; Element::Group<Vol> vol; Element::Group<Elem> all;
    if (p.st) { Mesh::Structured* g = new Mesh::Structured(theGrid()); fillMesh<Mesh::Structured, CoordI3, CVecI3>(*g, p, *d); l[1] = g->layers()(0); l[2] = g->layers()(1); const CoordI3* v[8]; for (int i = 0; i < 8; i++) v[i] = g->coords()(i); g->elems().add(new NodI(ElemId(8), v + 3, l[p.lay[0]], m[p.mat[0]])); g->elems().add(new LinI2(ElemId(5), v, l[p.lay[1]], m[p.mat[1]])); g->elems().add(new HexI8(ElemId(6), v, l[p.lay[2]], m[p.mat[2]])); d->mesh = g; }
    else { Mesh::Unstructured* g = new Mesh::Unstructured; fillMesh<Mesh::Unstructured, CoordR3, CVecR3>(*g, p, *d); l[1] = g->layers()(0); l[2] = g->layers()(1); const CoordR3* v[8]; for (int i = 0; i < 8; i++) v[i] = g->coords()(i); g->elems().add(new NodR(ElemId(8), v + 3, l[p.lay[0]], m[p.mat[0]])); g->elems().add(new LinR2(ElemId(5), v, l[p.lay[1]], m[p.mat[1]])); g->elems().add(new HexR8(ElemId(6), v, l[p.lay[2]], m[p.mat[2]])); d->mesh = g; }
    std::vector<Elem*> e; for (int i = 0; i < 3; i++) e.push_back(p.st ? (Elem*)d->mesh->castTo<Mesh::Structured>()->elems()(i) : (Elem*)d->mesh->castTo<Mesh::Unstructured>()->elems()(i));
    d->sources = new Source::Group<>; Element::Group<const Nod> gn; gn.add(dynamic_cast<const Nod*>(e[0])); Element::Group<Vol> gv; gv.add(dynamic_cast<Vol*>(e[2])); d->sources->add(new Source::Generator(new Mag(new Math::Function::Gaussian(1, 0, 2)), gn, Source::Generator::voltage, Source::Generator::soft)); d->sources->add(new Source::PlaneWave(new Mag(new Math::Function::Gaussian(1, 0, 3)), gv, CVecR3(1, 0, 0), CVecR3(0, 0, 1)));
    d->outputRequests = new R::Group<>; for (int r = 0; r < 3; r++) { Element::Group<Elem> g; for (int i = 0; i < 3; i++) if (p.use[r] & (1 << i)) g.add(e[2 - i]); Dom dom(true, 0, p.v, 1, false, 0, 0, 0, false, false, ""); d->outputRequests->add(new R::OutputRequest<Elem>(dom, Rq::electric, nm("r", r), g)); } return d;
}
static void verify(const Data& d, const P& p) {
    sym_check(d.solver && d.mesh && d.physicalModels && d.sources && d.outputRequests, "every-part"); if (!d.solver || !d.mesh || !d.physicalModels || !d.sources || !d.outputRequests) return; sym_check(d.solver->getName() == "solver" && d.solver->getSettings()("x").getReal() == p.v, "solver-settings"); sym_check(d.physicalModels->size() == 2 && (*d.physicalModels)(0)->getId() == MatId(4) && (*d.physicalModels)(1)->getId() == MatId(9) && (*d.physicalModels)(0)->getName() == "glass" && dynamic_cast<const PhysicalModel::Predefined::PEC*>((*d.physicalModels)(1)) && dynamic_cast<const Cla*>((*d.physicalModels)(0)), "materials");
    const Mesh::Structured* ms = dynamic_cast<const Mesh::Structured*>(d.mesh); const Mesh::Unstructured* mu = dynamic_cast<const Mesh::Unstructured*>(d.mesh); sym_check(p.st ? ms != 0 : mu != 0, "kind-of-mesh"); if (!(p.st ? ms != 0 : mu != 0)) return; std::vector<const Elem*> e; size_t n = p.st ? ms->elems().size() : mu->elems().size(); sym_check(n == 3, "elements"); if (n != 3) return; for (int i = 0; i < 3; i++) e.push_back(p.st ? (const Elem*)ms->elems()(i) : (const Elem*)mu->elems()(i)); static const long ID[3] = {8, 5, 6}; for (int i = 0; i < 3; i++) { sym_check(e[i]->getId() == ElemId(ID[i]), "element-identifiers"); sym_check(e[i]->getModel() == (p.mat[i] ? (const Element::Model*)(*d.physicalModels)(p.mat[i] - 1) : 0), "materials-of-this-problem"); const Layer::Layer* l = p.lay[i] ? (p.st ? ms->layers()(p.lay[i] - 1) : mu->layers()(p.lay[i] - 1)) : 0; sym_check(e[i]->getLayer() == l, "layers-of-this-problem"); }
    sym_check(d.sources->size() == 2, "sources"); if (d.sources->size() == 2) { const Source::Base* a = (*d.sources)(0); const Source::Base* b = (*d.sources)(1); sym_check(a->elems().size() == 1 && b->elems().size() == 1 && a->elems()(0) == e[0] && b->elems()(0) == e[2], "sources-on-elements-of-this-problem"); sym_check(dynamic_cast<const Source::Generator*>(a) && dynamic_cast<const Source::PlaneWave*>(b) && a->getMagnitude() && b->getMagnitude(), "kinds-of-sources"); }
    sym_check(d.outputRequests->size() == 3, "requests"); for (int r = 0; r < 3 && r < (int)d.outputRequests->size(); r++) { const Rq* q = (*d.outputRequests)(r); std::vector<const Elem*> w; for (int i = 0; i < 3; i++) if (p.use[r] & (1 << i)) w.push_back(e[2 - i]); Element::Group<const Elem> g = q->elems(); sym_check(g.size() == w.size() && q->getName() == nm("r", r) && q->domain().getFinalTime() == p.v, "requests-kept"); for (size_t i = 0; i < w.size() && i < g.size(); i++) sym_check(g(i) == w[i], "requests-on-elements-of-this-problem"); }
}
ENTRY p22_data() { P p = symP(); Data* d = problem(p); verify(*d, p); Data* c = 0; switch (sym_choice("how", 5)) { case 0: c = new Data(*d); break; case 1: c = dynamic_cast<Data*>(d->clone()); break; case 2: c = new Data; *c = *d; break; case 3: { P q = p; q.st = !p.st; q.v = 3; c = problem(q); *c = *d; break; } default: { Data& s = *d; *d = s; c = new Data(*d); break; } } verify(*d, p); delete d; sym_check(c != 0, "copied"); if (!c) return; verify(*c, p); Data e(*c); verify(e, p); delete c; verify(e, p); }
// problems with no, one or two materials, layers and elements
ENTRY p22_data_few() {
    int nm_ = sym_choice("materials", 3), nl = sym_choice("layers", 3), ne = sym_choice("elements", 3), how = sym_choice("how", 3); bool st = sym_choice("structured", 2), back = sym_choice("back", 2); long id[2] = {back ? 9 : 4, back ? 4 : 9}; std::unique_ptr<Data> d(new Data); d->physicalModels = new PhysicalModel::Group<>; for (int i = 0; i < nm_; i++) d->physicalModels->add(new Cla(MatId(id[i]), nm("m", i), 2 + i, 1, 0, 0)); Mesh::Unstructured* u = st ? 0 : new Mesh::Unstructured; Mesh::Structured* t = st ? new Mesh::Structured(theGrid()) : 0; d->mesh = st ? (Mesh::Mesh*)t : (Mesh::Mesh*)u; Layer::Group<>& lg = st ? t->layers() : u->layers(); for (int i = 0; i < nl; i++) lg.add(new Layer::Layer(LayerId(id[1 - i] + 1), nm("l", i))); int em[2], el[2]; for (int i = 0; i < ne; i++) { em[i] = nm_ ? (i + how) % (nm_ + 1) : 0; el[i] = nl ? (i + 1) % (nl + 1) : 0; const Layer::Layer* l = el[i] ? lg(el[i] - 1) : 0; const Element::Model* m = em[i] ? (*d->physicalModels)(em[i] - 1) : 0; if (st) { t->coords().add(new CoordI3(CoordId(i + 1), CVecI3(i, 0, 1))); const CoordI3* v[1] = {t->coords()(i)}; t->elems().add(new NodI(ElemId(i + 5), v, l, m)); } else { u->coords().add(new CoordR3(CoordId(i + 1), CVecR3(i, 0, 1))); const CoordR3* v[1] = {u->coords()(i)}; u->elems().add(new NodR(ElemId(i + 5), v, l, m)); } if (m || l) sym_reach("linked"); else sym_reach("loose"); }
    std::unique_ptr<Data> c; if (how == 0) c.reset(new Data(*d)); else if (how == 1) { c.reset(new Data); *c = *d; } else { Data* o = new Data(*d); c.reset(new Data); c->physicalModels = new PhysicalModel::Group<>; *c = *o; delete o; } if (sym_choice("alone", 2)) d.reset(); sym_check(c->physicalModels && c->physicalModels->size() == (size_t)nm_ && c->mesh != 0, "every-part"); if (!c->physicalModels || c->physicalModels->size() != (size_t)nm_ || !c->mesh) return; const Mesh::Structured* ct = dynamic_cast<const Mesh::Structured*>(c->mesh); const Mesh::Unstructured* cu = dynamic_cast<const Mesh::Unstructured*>(c->mesh); sym_check(st ? ct != 0 : cu != 0, "kind-of-mesh"); if (st ? !ct : !cu) return; const Layer::Group<>& cl = st ? ct->layers() : cu->layers(); sym_check(cl.size() == (size_t)nl && (st ? ct->elems().size() : cu->elems().size()) == (size_t)ne, "layers-and-elements"); if (cl.size() != (size_t)nl) return; for (int i = 0; i < ne; i++) { const Elem* e = st ? (const Elem*)ct->elems()(i) : (const Elem*)cu->elems()(i); sym_check(e->getModel() == (em[i] ? (const Element::Model*)(*c->physicalModels)(em[i] - 1) : 0), "materials-of-this-problem"); sym_check(e->getLayer() == (el[i] ? cl(el[i] - 1) : 0), "layers-of-this-problem"); }
}
ENTRY p22_data_parts() { P p = {1, {1, 0, 2}, {0, 0, 0}, {1, 3, 5}, (bool)sym_choice("structured", 2)}; Data* d = problem(p); int drop = sym_choice("drop", 16); if (drop & 1) { delete d->solver; d->solver = 0; } if (drop & 2) { delete d->physicalModels; d->physicalModels = 0; } if (drop & 4) { delete d->sources; d->sources = 0; } if (drop & 8) { delete d->outputRequests; d->outputRequests = 0; } Data c; if (sym_choice("assign", 2)) { Data* f = problem(p); c = *f; delete f; c = *d; } else { Data* t = new Data(*d); std::swap(t->solver, c.solver); std::swap(t->mesh, c.mesh); std::swap(t->sources, c.sources); std::swap(t->outputRequests, c.outputRequests); std::swap(t->physicalModels, c.physicalModels); delete t; } delete d; sym_check(c.mesh && (c.solver == 0) == !!(drop & 1) && (c.physicalModels == 0) == !!(drop & 2) && (c.sources == 0) == !!(drop & 4) && (c.outputRequests == 0) == !!(drop & 8), "only-the-parts-there"); if (c.outputRequests) sym_check((*c.outputRequests)(1)->elems().size() == 2, "requests"); if (c.sources) sym_check((*c.sources)(0)->elems().size() == 1 && (*c.sources)(0)->elems()(0)->getId() == ElemId(8), "sources"); Data e, f; f = e; Data g(e); sym_check(!f.mesh && !f.solver && !g.mesh && !g.sources, "empty"); f = c; sym_check(f.mesh && f.mesh != c.mesh, "filled"); f = e; sym_check(!f.mesh && !f.solver && !f.sources && !f.physicalModels && !f.outputRequests, "emptied"); }
static int gone = 0; struct Counted : Solver::Info { ~Counted() { gone++; } };
ENTRY p22_data_freed() { gone = 0; P p = {1, {1, 0, 2}, {0, 1, 2}, {1, 3, 5}, true}; { Data d; d.solver = new Counted; Data* o = problem(p); int how = sym_choice("how", 3); if (how == 0) d = *o; else if (how == 1) { Data e; d = e; } else { Data& s = d; d = s; sym_check(gone == 0 && d.solver != 0, "kept-when-assigned-to-itself"); } delete o; if (how < 2) sym_check(gone == 1, "replaced-parts-freed-once"); } sym_check(gone == 1, "parts-freed-once"); }
ENTRY p22_data_no_mesh() { P p = {1, {1, 0, 2}, {0, 1, 2}, {1, 3, 5}, (bool)sym_choice("structured", 2)}; Data* d = problem(p); size_t ns = d->sources->size(), nr = d->outputRequests->size(); std::vector<std::string> names; for (size_t i = 0; i < nr; i++) names.push_back((*d->outputRequests)(i)->getName()); Element::Group<const Elem> none; for (size_t i = 0; i < nr; i++) (*d->outputRequests)(i)->set(none); for (size_t i = 0; i < ns; i++) (*d->sources)(i)->set(none); delete d->mesh; d->mesh = 0; Data c; if (sym_choice("assign", 2)) c = *d; else { Data e(*d); std::swap(e.sources, c.sources); std::swap(e.outputRequests, c.outputRequests); } delete d; sym_check(!c.mesh && c.sources && c.outputRequests && c.sources->size() == ns && c.outputRequests->size() == nr, "kept-without-a-mesh"); if (c.outputRequests) for (size_t i = 0; i < c.outputRequests->size(); i++) sym_check((*c.outputRequests)(i)->getName() == names[i], "requests-kept"); }
ENTRY p22_data_missing() { P p = {1, {1, 0, 2}, {0, 1, 2}, {1, 3, 5}, (bool)sym_choice("structured", 2)}; Data* d = problem(p); Element::Group<const Elem> none; int r = sym_choice("r", 3); (*d->outputRequests)(r)->set(none); Data c(*d); delete d; for (int i = 0; i < 3; i++) sym_check((*c.outputRequests)(i)->elems().size() == (i == r ? 0 : i == 0 ? 1 : 2), "requests-without-elements"); }
ENTRY p22_info() { double v = symr("v", -9, 9), w = symr("w", -9, 9); Obj s; s("a").setReal(v); Solver::Info i("name", s), j(i), k("other"), e; sym_check(i.getName() == "name" && i.getSettings()("a").getReal() == v && j.getName() == "name" && j.getSettings()("a").getReal() == v && k.getName() == "other" && k.getSettings().isNull() && e.getName().empty(), "kept"); Obj t; t("b").setReal(w); bool both = sym_choice("both", 2); if (both) t("a").setReal(w); Solver::Info m = i + t; sym_check(m.getName() == "name" && m.getSettings()("a").getReal() == (both ? w : v) && m.getSettings()("b").getReal() == w && i.getSettings()("a").getReal() == v && !i.getSettings().existsName("b"), "settings-added"); Solver::Info n(std::move(m)); sym_check(n.getName() == "name" && n.getSettings()("b").getReal() == w, "moved"); n.setName("new"); n.setSettings(s); sym_check(n.getName() == "new" && !n.getSettings().existsName("b"), "replaced"); }
typedef Solver::Options SO; typedef SEMBA::Mesher::Options MO;
ENTRY p22_solver() {
    int k = sym_choice("field", 11), end = sym_choice("end", 3); double v = symr("v", 0, 1e6), dt = symr("dt", 0.25, 4); int n = (int)symi("n", 0, 100000); bool b = sym_choice("b", 2); Obj o; o.setObject(); static const char* N[10] = {"runSimulation", "cfl", "defaultSamplingPeriod", "forceRestarting", "resumeSimulation", "flush", "additionalArguments", "finalTime", "numberOfTimeSteps", "timeStep"}; if (k < 10) { Obj& m = o(N[k]); if (k == 0 || k == 3 || k == 4) m.setBool(b); else if (k == 6) m.setString("-a b"); else if (k == 8) m.setInt(n); else m.setReal(v); } if (k != 9 && end) o("timeStep").setReal(dt); SO s; int times = sym_choice("times", 2); s.set(o); if (times) s.set(o); SO c(s); sym_check(c.isRunSimulation() == (k == 0 ? b : true) && c.getCFL() == (k == 1 ? v : 0.8) && c.getSamplingPeriod() == (k == 2 ? v : 0) && c.isForceRestarting() == (k == 3 && b) && c.isResumeSimulation() == (k == 4 && b) && c.getFlush() == (k == 5 ? v : 0) && c.getAdditionalArguments() == (k == 6 ? "-a b" : ""), "only-what-was-set"); double step = k == 9 ? v : end ? dt : 0; sym_check(c.getTimeStep() == step, "time-step"); if (k == 7) sym_check(c.getFinalTime() == v, "final-time"); else if (k == 8) { sym_check_close(c.getFinalTime(), n * step, 1e-3, "final-time-of-the-steps"); sym_check(c.getNumberOfTimeSteps() == (size_t)n, "number-of-steps"); } else sym_check(c.getFinalTime() == 0, "no-final-time"); if (k < 10) sym_reach("given"); else sym_reach("default");
}
ENTRY p22_steps() { static const double DT[6] = {1, 0.5, 2, 0.125, 4, 0.25}; double dt = DT[sym_choice("dt", 6)], f = symr("final", 0, 1000); SO s; s.setTimeStep(dt); s.setFinalTime(f); size_t n = s.getNumberOfTimeSteps(); sym_check(n * dt >= f && (n == 0 || (n - 1) * dt < f), "enough-steps"); size_t m = (size_t)symi("m", 0, 1000); s.setNumberOfTimeSteps(m); sym_check(s.getNumberOfTimeSteps() == m && s.getFinalTime() == m * dt, "steps-set"); s.setFinalTime(f); sym_check(s.getFinalTime() == f && s.getNumberOfTimeSteps() == n, "final-time-set-again"); SO z; z.setFinalTime(f); sym_check(z.getNumberOfTimeSteps() == 0, "no-step-yet"); }
ENTRY p22_arguments() { SO s; bool f = sym_choice("force", 2), r = sym_choice("resume", 2), c = sym_choice("cfl", 2), l = sym_choice("flush", 2), t = sym_choice("step", 2); static const double DT[3] = {1, 0.5, 4}; double dt = DT[sym_choice("dt", 3)]; long n = symi("n", 0, 500); bool byn = sym_choice("steps", 2); if (byn && t) dt = sym_choice("odd", 2) ? 0.7 : 0.1; s.setForceRestarting(f); s.setResumeSimulation(r); if (c) s.setCFL(0.5); if (l) s.setFlush(25); if (t) s.setTimeStep(dt); if (byn) s.setNumberOfTimeSteps((size_t)n); else s.setFinalTime(t ? n * dt + dt / 2 : (double)n + 0.5); std::stringstream w(s.toArgsStr()); std::string a; bool sf = false, sr = false, sc = false, sl = false; while (w >> a) { double v = 0; if (a == "-s") sf = true; else if (a == "-r") { sr = true; w >> v; sym_check(v == n, "steps-to-resume"); } else if (a == "-cfl") { sc = true; w >> v; sym_check(v == 0.5, "cfl-argument"); } else if (a == "-flush") { sl = true; w >> v; sym_check(v == 25, "flush-argument"); } else sym_check(false, "unknown-argument"); } sym_check(sf == f && sr == r && sc == c && sl == l, "arguments-of-what-was-set"); }
ENTRY p22_typed() {
    bool v = sym_choice("vtk", 2), g = sym_choice("grid", 2), l = sym_choice("length", 2), x = sym_choice("long", 2); int m = sym_choice("mode", 5); static const double A[3] = {-3, 12.75, 1e-3}, B2[2] = {1, 200}; static const char* AT[3] = {"-3", "12.75", "1e-3"}; static const char* BT[2] = {"1", "2e2"}; int ai = g ? sym_choice("a", 3) : 0, bi = g ? sym_choice("b", 2) : 0; double a = A[ai], b = B2[bi]; static const char* MD[4] = {"Structured", "Relaxed", "Slanted", "Conformal"}; static const MO::Mode MM[4] = {MO::Mode::structured, MO::Mode::relaxed, MO::Mode::slanted, MO::Mode::conformal}; std::vector<std::string> w; w.push_back("mesh"); if (m < 4) { if (x) w.push_back(std::string("--mode=") + MD[m]); else { w.push_back("--mode"); w.push_back(MD[m]); } } if (l) { w.push_back("--length"); w.push_back("0.25"); } if (g) { w.push_back("--gridstep"); w.push_back(AT[ai]); w.push_back(BT[bi]); w.push_back("0.5"); } if (v) w.push_back("--vtkexport");
    if (w.size() == 1) { sym_reach("none"); w.push_back("--extra"); } if (v && g && l && m < 4) sym_reach("all"); MO s; SEMBA::Argument::Parser p; s.addArguments(p); p.addOption(new SEMBA::Argument::Switch("extra")); Obj o = p.parse(w); s.set(o); sym_check(s.isVtkExport() == v, "typed-switch-applied"); sym_check(s.getMode() == (m < 4 ? MM[m] : MO::Mode::structured), "typed-mode-applied"); sym_check(s.getForbiddenLength() == (l ? 0.25 : 1.0), "typed-length-applied"); CVecR3 t = s.getGridStep(); sym_check(s.isGridStepSet() == g && t(0) == (g ? a : 0) && t(1) == (g ? b : 0) && t(2) == (g ? 0.5 : 0), "typed-step-applied");
}
ENTRY p22_mesher() {
    int k = sym_choice("field", 16); double v = symr("v", -100, 100); int n = (int)symi("n", 0, 1000), pick = sym_choice("pick", 5); bool b = sym_choice("b", 2); static const char* N[16] = {"contourRefinement", "snap", "unwantedConnectionsInfo", "structuredCellsInfo", "vtkExport", "postmshExport", "postsmbExport", "slantedWires", "slantedThreshold", "forbiddenLength", "geometryScalingFactor", "subgridPoints", "mesher", "mode", "none", "other"}; static const char* MS[5] = {"AMesher", "DMesher", "HMesher", "", "Dmesher"}; static const char* MD[5] = {"Structured", "Relaxed", "Slanted", "Conformal", "structured"}; Obj o; Obj& m = o(N[k]); if (k < 8) m.setBool(b); else if (k < 11) m.setReal(v); else if (k == 11) m.setInt(n); else if (k == 12) m.setString(MS[pick]); else if (k == 13) m.setString(MD[pick]); MO s; bool ok = true; try { s.set(o); } catch (const std::logic_error&) { ok = false; } bool bad = (k == 12 && pick > 2) || (k == 13 && pick > 3); sym_check(ok == !bad, "unknown-names-refused"); if (!ok) { sym_reach("refused"); return; } sym_reach("given"); MO c(s);
    sym_check(c.isContourRefinement() == (k == 0 && b) && c.isSnap() == (k == 1 && b) && c.isUnwantedConnectionsInfo() == (k == 2 && b) && c.isStructuredCellsInfo() == (k == 3 && b) && c.isVtkExport() == (k == 4 && b) && c.isPostmshExport() == (k == 5 ? b : true) && c.isPostsmbExport() == (k == 6 && b) && c.isSlanted() == (k == 7 && b), "switches"); sym_check(c.getSlantedThreshold() == (k == 8 ? v : 1) && c.getForbiddenLength() == (k == 9 ? v : 1) && c.getScalingFactor() == (k == 10 ? v : 1) && c.getSubgridPoints() == (k == 11 ? n : 0), "numbers"); static const MO::Mesher ME[3] = {MO::Mesher::AMesher, MO::Mesher::DMesher, MO::Mesher::HMesher}; static const MO::Mode MM[4] = {MO::Mode::structured, MO::Mode::relaxed, MO::Mode::slanted, MO::Mode::conformal}; sym_check(c.getMesher() == (k == 12 ? ME[pick] : MO::Mesher::DMesher) && c.getMode() == (k == 13 ? MM[pick] : MO::Mode::structured), "names"); sym_check(c.isStructured() == (k != 13 || pick == 0) && c.isRelaxed() == (k == 13 && (pick == 1 || pick == 2)), "modes"); c.setGridStep(CVecR3(v, n, 1)); sym_check(!s.isGridStepSet() && c.isGridStepSet() && same(c.getGridStep(), CVecR3(v, n, 1)), "grid-step");
}
ENTRY p22_mesher_all() { static const char* N[8] = {"contourRefinement", "snap", "unwantedConnectionsInfo", "structuredCellsInfo", "vtkExport", "postmshExport", "postsmbExport", "slantedWires"}; static const char* W[6] = {"lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound"}; static const char* B[6] = {"PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"}; int bits = sym_choice("bits", 256), turn = sym_choice("turn", 6); double v[3]; for (int i = 0; i < 3; i++) v[i] = symr(nm("v", i), -9, 9); Obj o; for (int i = 0; i < 8; i++) o(N[i]).setBool(bits >> i & 1); o("slantedThreshold").setReal(v[0]); o("forbiddenLength").setReal(v[1]); o("geometryScalingFactor").setReal(v[2]); o("subgridPoints").setInt(7); o("mesher").setString("HMesher"); o("mode").setString("Conformal"); for (int i = 0; i < 6; i++) o(W[i]).setString(B[(i + turn) % 6]); MO s; s.set(o); MO c; c = s; bool b[8] = {c.isContourRefinement(), c.isSnap(), c.isUnwantedConnectionsInfo(), c.isStructuredCellsInfo(), c.isVtkExport(), c.isPostmshExport(), c.isPostsmbExport(), c.isSlanted()}; for (int i = 0; i < 8; i++) sym_check(b[i] == (bool)(bits >> i & 1), "every-switch-kept"); sym_check(c.getSlantedThreshold() == v[0] && c.getForbiddenLength() == v[1] && c.getScalingFactor() == v[2] && c.getSubgridPoints() == 7 && c.getMesher() == MO::Mesher::HMesher && c.getMode() == MO::Mode::conformal, "every-value-kept"); for (int i = 0; i < 6; i++) sym_check(MO::toStr(c.getBoundTermination(i / 2, i % 2)) == B[(i + turn) % 6], "every-bound-kept"); }
ENTRY p22_solver_all() { int bits = sym_choice("bits", 8), by = sym_choice("by", 2); double v[5]; for (int i = 0; i < 5; i++) v[i] = symr(nm("v", i), 0, 1e6); int n = (int)symi("n", 0, 100000); Obj o; o("runSimulation").setBool(bits & 1); o("forceRestarting").setBool(bits & 2); o("resumeSimulation").setBool(bits & 4); o("cfl").setReal(v[0]); o("defaultSamplingPeriod").setReal(v[1]); o("flush").setReal(v[2]); o("timeStep").setReal(v[3]); o("additionalArguments").setString("-x"); if (by) o("finalTime").setReal(v[4]); else o("numberOfTimeSteps").setInt(n); SO s; s.set(o); SO c; c = s; sym_check(c.isRunSimulation() == (bool)(bits & 1) && c.isForceRestarting() == (bool)(bits & 2) && c.isResumeSimulation() == (bool)(bits & 4) && c.getAdditionalArguments() == "-x", "every-switch-kept"); sym_check(c.getCFL() == v[0] && c.getSamplingPeriod() == v[1] && c.getFlush() == v[2] && c.getTimeStep() == v[3], "every-value-kept"); if (by) sym_check(c.getFinalTime() == v[4], "final-time"); else sym_check(c.getNumberOfTimeSteps() == (size_t)n, "number-of-steps"); }
ENTRY p22_mesher_bounds() {
    static const char* N[6] = {"lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound"}; static const char* B[8] = {"PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2", "pec", ""}; int a = sym_choice("a", 6), b = sym_choice("b", 6), p = sym_choice("p", 8), q = sym_choice("q", 6); Obj o; o(N[b]).setString(B[q]); o(N[a]).setString(B[p]); MO s; bool ok = true; try { s.set(o); } catch (const std::logic_error&) { ok = false; } sym_check(ok == (p < 6), "unknown-bounds-refused"); if (!ok) { sym_reach("refused"); return; } sym_reach("given"); for (int i = 0; i < 6; i++) { const PhysicalModel::Bound::Bound* x = s.getBoundTermination(i / 2, i % 2); const char* want = i == a ? B[p] : i == b ? B[q] : "Undefined"; sym_check(MO::toStr(x) == want && (x != 0) == (i == a || i == b), "bounds-where-set"); sym_check(s.getBoundTerminations()(i / 2, i % 2) == x, "bounds-listed"); }
}
