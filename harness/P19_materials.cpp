// @property P19
// @bounds every kind of material with any parameters in the stated ranges, identifiers in [1,999]; up to 3 poles, 3 layers; 7 orientations of anisotropic axes; histories of 4 changes of the ends of a wire (5 when thorough)
// @entry p19_classic
// @entry p19_dispersive reach=conductive,dispersive,classic
// @entry p19_anisotropic
// @entry p19_multilayer reach=refused,accepted
// @entry p19_sibc
// @entry p19_wire
// @entry p19_extremes shards=4 reach=set,swapped,copied
// @entry p19_multiport
// @entry p19_named
// @entry p19_group
// @entry p19_file reach=missing,kept,refused,accepted
#include "common.h"
#include <memory>
#include "physicalModel/Group.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBC.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/wire/Extremes.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/SMA.h"
#include "physicalModel/bound/Mur1.h"
#include "physicalModel/bound/Mur2.h"
#include "physicalModel/bound/Periodic.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace PM = SEMBA::PhysicalModel; typedef PM::Id Mid;
template<class T> static std::unique_ptr<T> copyOf(T*& src) { int how = sym_choice("copy", 3); std::unique_ptr<T> r; if (how == 0) r.reset(new T(*src)); else if (how == 1) { PM::PhysicalModel* c = src->template cloneTo<PM::PhysicalModel>(); r.reset(dynamic_cast<T*>(c)); sym_check(r.get() != 0, "clone-keeps-its-kind"); } else { r.reset(src); src = 0; } if (src) { sym_check(r.get() != src, "a-copy-of-its-own"); src->setId(Mid(1000)); src->setName("gone"); delete src; } return r; }
static void named(const PM::PhysicalModel& m, long id, const char* name) { sym_check(m.getId() == Mid(id), "identifier-kept"); sym_check(m.getName() == name, "name-kept"); }
ENTRY p19_classic() {
    long id = symi("id", 1, 999); double e = symr("eps", 0.5, 90), u = symr("mu", 0.5, 90), s = symr("sigma", 0, 1e4), m = symr("sigmaM", 0, 1e4); PM::Volume::Classic* o = new PM::Volume::Classic(Mid(id), "glass", e, u, s, m); auto c = copyOf(o); named(*c, id, "glass"); sym_check(c->getRelativePermittivity() == e && c->getRelativePermeability() == u && c->getElectricConductivity() == s && c->getMagneticConductivity() == m, "parameters-kept"); sym_check_close(c->getPermittivity() / 8.854187817e-12, e, 1e-6 * 90, "absolute-permittivity"); sym_check_close(c->getPermeability() / 1.25663706e-6, u, 1e-6 * 90, "absolute-permeability"); sym_check(c->isVacuum() == (e == 1 && u == 1 && s == 0 && m == 0), "vacuum-iff-all-free-space"); double z = c->getImpedance(); sym_check(z > 0, "impedance-positive"); sym_check_close(z * z * e / (376.730313 * 376.730313), u, 1e-3, "impedance-from-both"); sym_check_close(z * c->getAdmitance(), 1, 1e-6, "admittance-inverse");
    PM::Volume::Classic d(Mid(2), "air"); sym_check(d.isVacuum(), "vacuum-by-default"); PM::Volume::Classic n(Mid(2), "null", 0.0, u); sym_check(n.getImpedance() > 1e300, "no-permittivity-no-current"); PM::Volume::Classic k(Mid(2), "null", e, 0.0); sym_check(k.getAdmitance() > 1e300, "no-permeability-no-voltage");
}
ENTRY p19_dispersive() {
    long id = symi("id", 1, 999); double cond = sym_choice("conductive", 2) ? symr("sigma", 1e-3, 1e3) : 0; int n = sym_choice("poles", 4); std::vector<PM::Volume::PoleResidue> pr; double re[3], im[3], rr[3], ri[3]; for (int i = 0; i < n; i++) { re[i] = sym_choice(nm("zero", i).c_str(), 2) ? 0 : symr(nm("re", i), -10, -0.5); im[i] = re[i] == 0 ? (i == 0 && sym_choice("imaginary", 2) ? symr("im0", 0.5, 9) : 0) : symr(nm("im", i), -10, 10); rr[i] = symr(nm("rr", i), -10, 10); ri[i] = symr(nm("ri", i), -10, 10); pr.push_back(PM::Volume::PoleResidue(std::complex<double>(re[i], im[i]), std::complex<double>(rr[i], ri[i]))); }
    PM::Volume::Dispersive* o = new PM::Volume::Dispersive(Mid(id), "debye", 2.0, 1.0, cond, 0.0, pr); auto c = copyOf(o); named(*c, id, "debye"); size_t total = n + (cond != 0); sym_check(c->getPoleNumber() == total, "poles-plus-conductivity"); if (c->getPoleNumber() != total) return; size_t off = cond != 0; int seen = 0; for (size_t i = 0; i < total; i++) for (int j = 0; j < n; j++) if (i == j + off) { seen++; sym_check(c->getPole(i).real() == re[j] && c->getPole(i).imag() == im[j] && c->getResidue(i).real() == rr[j] && c->getResidue(i).imag() == ri[j], "poles-kept-in-order"); } sym_check(seen == n, "every-pole"); double want = cond; if (cond == 0) for (int j = n; j-- > 0;) if (re[j] == 0 && im[j] == 0) want = rr[j] * 2; double got = c->getElectricConductivity(); if (cond == 0) got = got / 8.854187817e-12; sym_check_close(got, want, 1e-4, "static-conductivity"); sym_check(c->isDispersive() == (total > 0), "dispersive-iff-poles"); bool simple = total == 0 || (total == 1 && (cond != 0 || (re[0] == 0 && im[0] == 0))); sym_check(c->isSimplyConductive() == simple && c->isClassic() == simple, "classic-iff-only-conductive"); sym_reach(total == 0 ? "classic" : simple ? "conductive" : "dispersive");
    bool threw = false; try { PM::Volume::Dispersive bad(Mid(1), "x", 1, 1, 0, symr("magn", 0.5, 2)); } catch (const std::logic_error&) { threw = true; } sym_check(threw, "magnetic-losses-refused");
}
static Math::Axis::Local someAxis(int i) { double h = 1.5707963267948966; static const double E[7][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,1,0},{0.5,0.3,0},{0.2,0.7,-0.4}}; return Math::Axis::Local(CVecR3(E[i][0] * h, E[i][1] * h, E[i][2] * h), CVecR3(1, 2, 3)); }
static void rotated(const Math::MatR33& g, const Math::Axis::Local& ax, const double l[3][3], const char* what) { Math::MatR33 t = ax.getTransformationMatrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double w = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) w += t(i, a) * l[a][b] * t(j, b); sym_check_close(g(i, j), w, 1e-6, what); } }
ENTRY p19_anisotropic() {
    long id = symi("id", 1, 999); int q = sym_choice("axes", 7); Math::Axis::Local ax = someAxis(q); double a = symr("a", 1, 20), b = symr("b", 1, 20), c = symr("c", 1, 20); static const double Z[3][3] = {{0,0,0},{0,0,0},{0,0,0}};
    if (sym_choice("ferrite", 2)) { PM::Volume::AnisotropicFerrite* o = new PM::Volume::AnisotropicFerrite(Mid(id), "yig", ax, a, b, c); auto m = copyOf(o); named(*m, id, "yig"); double mu[3][3] = {{b, 0, 0}, {0, b, 0}, {0, 0, 1}}, mi[3][3] = {{0, a, 0}, {-a, 0, 0}, {0, 0, 0}}; rotated(m->getRelPermeabilityMatR(), ax, mu, "ferrite-permeability"); rotated(m->getRelPermeabilityMatI(), ax, mi, "ferrite-gyrotropy"); Math::MatR33 e = m->getRelPermittivityMatR(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_check_close(e(i, j), i == j ? c : 0, 1e-9, "ferrite-permittivity"); rotated(m->getElectricConductivityMat(), ax, Z, "lossless"); rotated(m->getMagneticConductivityMat(), ax, Z, "lossless"); sym_check(same(m->getLocalAxe().getOrigin(), CVecR3(1, 2, 3)) && same(m->getLocalAxe().getEulerAngles(), ax.getEulerAngles()), "axes-kept"); }
    else { double mu = symr("mu", 1, 20); PM::Volume::AnisotropicCrystal* o = new PM::Volume::AnisotropicCrystal(Mid(id), "calcite", ax, CVecR3(a, b, c), mu); auto m = copyOf(o); named(*m, id, "calcite"); double e[3][3] = {{a, 0, 0}, {0, b, 0}, {0, 0, c}}, u[3][3] = {{mu, 0, 0}, {0, mu, 0}, {0, 0, mu}}; rotated(m->getRelPermittivityMatR(), ax, e, "crystal-permittivity"); rotated(m->getRelPermeabilityMatR(), ax, u, "crystal-permeability"); sym_check(same(m->getPrincipalAxesRelativePermittivity(), CVecR3(a, b, c)) && m->getRelativePermeability() == mu, "parameters-kept"); rotated(m->getElectricConductivityMat(), ax, Z, "lossless"); rotated(m->getMagneticConductivityMat(), ax, Z, "lossless"); sym_check(same(m->getLocalAxe().getOrigin(), CVecR3(1, 2, 3)) && same(m->getLocalAxe().getEulerAngles(), ax.getEulerAngles()), "axes-kept"); }
    PM::Volume::PML* o = new PM::Volume::PML(Mid(id), "pml", ax); auto p = copyOf(o); named(*p, id, "pml"); Math::MatR33 t = ax.getTransformationMatrix(); CVecR3 z = p->getGlobalZAxis(); for (int i = 0; i < 3; i++) sym_check_close(z(i), t(i, 2), 1e-6, "pml-axis");
}
ENTRY p19_multilayer() {
    long id = symi("id", 1, 999); int n = sym_choice("layers", 4), nf = sym_choice("options", 3); std::vector<PM::Surface::Multilayer::Layer> l; double th[3], e[3], u[3], s[3]; bool bad = false; for (int i = 0; i < n; i++) { th[i] = symr(nm("t", i), 0.001, 1); e[i] = sym_choice(nm("e0", i).c_str(), 2) ? 0 : symr(nm("e", i), 0.5, 20); u[i] = e[i] != 0 && sym_choice(nm("u0", i).c_str(), 2) ? 0 : symr(nm("u", i), 0.5, 20); s[i] = symr(nm("s", i), 0, 100); bool threw = false; try { l.push_back(PM::Surface::Multilayer::Layer(th[i], e[i], u[i], s[i])); } catch (const std::logic_error&) { threw = true; } sym_check(threw == (e[i] == 0 || u[i] == 0), "null-permittivity-or-permeability-refused"); bad = bad || threw; } if (bad) { sym_reach("refused"); return; }
    std::vector<PM::Surface::Multilayer::FittingOptions> f; double lo = symr("lo", 1, 2), hi = symr("hi", 3, 4); size_t np = symi("np", 1, 9); for (int i = 0; i < nf; i++) f.push_back(PM::Surface::Multilayer::FittingOptions(std::make_pair(lo, hi), np)); PM::Surface::Multilayer* o = 0; bool threw = false; try { o = new PM::Surface::Multilayer(Mid(id), "sandwich", l, f); } catch (const std::runtime_error&) { threw = true; } sym_check(threw == (nf > 1), "one-fitting-option-at-most"); if (!o) return; auto m = copyOf(o); named(*m, id, "sandwich"); sym_check(m->getNumberOfLayers() == (size_t)n, "number-of-layers"); for (int i = 0; i < n; i++) { sym_check(m->getThickness(i) == th[i] && m->getElecCond(i) == s[i] && m->getMagnCond(i) == 0 && m->getLayer(i).getRelPermittivity() == e[i] && m->getLayer(i).getRelPermeability() == u[i] && m->getLayer(i).getThickness() == th[i] && m->getLayer(i).getElecCond() == s[i], "layers-in-order"); sym_check_close(m->getPermittivity(i) / 8.854187817e-12, e[i], 1e-4, "layer-permittivity"); sym_check_close(m->getPermeability(i) / 1.25663706e-6, u[i], 1e-4, "layer-permeability"); sym_check(m->getPermittivity(i) == m->getLayer(i).getPermittivity() && m->getPermeability(i) == m->getLayer(i).getPermeability(), "layer-agrees"); }
    sym_check(m->hasFittingOptions() == (nf == 1), "fitting-options-iff-given"); threw = false; try { PM::Surface::Multilayer::FittingOptions g = m->getFittingOptions(); sym_check(g.getMinMaxFreq().first == lo && g.getMinMaxFreq().second == hi && g.getNumberOfPoles() == np, "fitting-options-kept"); } catch (const std::runtime_error&) { threw = true; } sym_check(threw == (nf == 0), "absent-options-reported"); sym_reach("accepted");
}
ENTRY p19_sibc() {
    long id = symi("id", 1, 999); typedef PM::Surface::SIBC S; Math::MatC22 a, b; double v[4], w[4]; for (int i = 0; i < 4; i++) { v[i] = symr(nm("v", i), -9, 9); w[i] = symr(nm("w", i), -9, 9); } for (int i = 0; i < 4; i++) { a(i / 2, i % 2) = std::complex<double>(v[i], w[i]); b(i / 2, i % 2) = std::complex<double>(w[i], v[(i + 1) % 4]); } int n = sym_choice("poles", 3); std::vector<S::PoleResidue> p; for (int i = 0; i < n; i++) p.push_back(S::PoleResidue(std::complex<double>(v[i], w[i + 1]), i ? a : b)); S* o = new S(Mid(id), "skin", a, b, p); auto m = copyOf(o); named(*m, id, "skin"); sym_check(m->getNumberOfPoles() == (size_t)n && m->getPoleZ().size() == (size_t)n, "number-of-poles"); Math::MatC22 za = m->getZInfinity(), zb = m->getZLinear(); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { sym_check(za(i, j) == a(i, j), "impedance-at-infinity"); sym_check(zb(i, j) == b(i, j), "linear-impedance"); for (int k = 0; k < n; k++) { Math::MatC22 r = m->getPoleZ()[k].second; sym_check(r(i, j) == (k ? a(i, j) : b(i, j)), "residues-in-order"); } } for (int k = 0; k < n; k++) sym_check(m->getPoleZ()[k].first == std::complex<double>(v[k], w[k + 1]), "poles-in-order");
}
static double val(int i) { return symr(nm("p", i), 0, 100); }
ENTRY p19_wire() {
    long id = symi("id", 1, 999); int kind = sym_choice("kind", 3); double p[7]; for (int i = 0; i < 7; i++) p[i] = val(i); PM::Wire::Wire* o = kind == 0 ? new PM::Wire::Wire(Mid(id), "w", p[0], p[1], p[2]) : kind == 1 ? new PM::Wire::Wire(Mid(id), "w", p[0], p[1], p[2], p[3], p[4], p[5], p[6]) : new PM::Wire::Wire(Mid(id), "w", p[0], "file"); auto w = copyOf(o); named(*w, id, "w"); sym_check(w->getRadius() == p[0], "radius"); sym_check(w->isSeriesParallel() == (kind == 1) && w->isDispersive() == (kind == 2), "kind-of-wire"); sym_check(w->getSeriesResistance() == (kind == 2 ? 0 : p[1]) && w->getSeriesInductance() == (kind == 2 ? 0 : p[2]), "series"); sym_check(w->getSeriesCapacitance() == (kind == 1 ? p[3] : 0) && w->getParallelResistance() == (kind == 1 ? p[4] : 0) && w->getParallelInductance() == (kind == 1 ? p[5] : 0) && w->getParallelCapacitance() == (kind == 1 ? p[6] : 0), "parallel"); sym_check(w->getFilename() == (kind == 2 ? "file" : ""), "file"); PM::Gap::Gap* g0 = new PM::Gap::Gap(Mid(id), "slot", p[0]); auto g = copyOf(g0); named(*g, id, "slot"); sym_check(g->getWidth() == p[0], "gap-width");
}
static const PM::Multiport::Multiport* end(int k, double r) { if (k == 0) return 0; if (k == 1) return new PM::Multiport::Predefined(Mid(5), "short", PM::Multiport::Multiport::shortCircuit); return new PM::Multiport::RLC(Mid(6), "load", PM::Multiport::Multiport::sRLC, r, 1, 2); }
static void checkEnd(const PM::Multiport::Multiport* m, int k, double r) { sym_check((m != 0) == (k != 0), "end-set"); if (!m) return; sym_check(m->getId() == Mid(k == 1 ? 5 : 6), "end-identifier"); sym_check(m->getType() == (k == 1 ? PM::Multiport::Multiport::shortCircuit : PM::Multiport::Multiport::sRLC), "end-type"); if (k == 2) { sym_check(m->is<PM::Multiport::RLC>(), "end-kind"); sym_check(m->castTo<PM::Multiport::RLC>()->getR() == r, "end-parameters"); } }
ENTRY p19_extremes() {
    PM::Wire::Wire w(Mid(3), "w", 0.5, 1.5, 2.5); double r[2]; r[0] = symr("r0", 1, 9); r[1] = symr("r1", 1, 9); int k[2] = {sym_choice("l", 3), sym_choice("r", 3)}; const PM::Multiport::Multiport *a = end(k[0], r[0]), *b = end(k[1], r[1]); PM::Wire::Extremes* x = new PM::Wire::Extremes("wx", w, a, b); delete a; delete b; int n = THOROUGH ? 4 : 3;
    for (int s = 0; s < n; s++) switch (sym_choice(nm("op", s).c_str(), 7)) {
        case 0: { int i = sym_choice(nm("i", s).c_str(), 2), q = sym_choice(nm("q", s).c_str(), 3); double v = symr(nm("v", s), 1, 9); const PM::Multiport::Multiport* m = end(q, v); x->setExtreme(i, m); delete m; k[i] = q; r[i] = v; sym_reach("set"); break; }
        case 1: x->swapExtremes(); std::swap(k[0], k[1]); std::swap(r[0], r[1]); sym_reach("swapped"); break;
        case 2: { PM::Wire::Extremes* y = new PM::Wire::Extremes(*x); delete x; x = y; sym_reach("copied"); break; }
        case 3: { PM::Wire::Extremes* y = x->cloneTo<PM::Wire::Extremes>(); delete x; x = y; break; }
        case 4: { const PM::Multiport::Multiport* m = end(2, 77); PM::Wire::Extremes* y = new PM::Wire::Extremes("other", w, m, sym_choice(nm("both", s).c_str(), 2) ? m : 0); delete m; *y = *x; delete x; x = y; break; }
        case 5: { PM::Wire::Extremes& self = *x; *x = self; break; }
        default: { int i = sym_choice(nm("j", s).c_str(), 2); x->setExtreme(i, x->getExtreme(1 - i)); k[i] = k[1 - i]; r[i] = r[1 - i]; x->setExtreme(i, x->getExtreme(i)); }
    }
    checkEnd(x->getExtreme(0), k[0], r[0]); checkEnd(x->getExtreme(1), k[1], r[1]); named(*x, 3, "wx"); sym_check(x->getRadius() == 0.5 && x->getSeriesResistance() == 1.5 && x->getSeriesInductance() == 2.5, "wire-kept"); sym_check(x->getExtreme(0) == 0 || x->getExtreme(0) != x->getExtreme(1), "ends-of-their-own"); delete x;
}
ENTRY p19_multiport() {
    typedef PM::Multiport::Multiport M; static const M::Type t[11] = {M::shortCircuit, M::openCircuit, M::matched, M::sRLC, M::sRLpC, M::sRCpL, M::sRpLC, M::sLCpR, M::sLpRC, M::sCpLR, M::pRLC}; long id = symi("id", 1, 999); int i = sym_choice("type", 11); if (i < 3) { auto* o = new PM::Multiport::Predefined(Mid(id), "p", t[i]); auto c = copyOf(o); named(*c, id, "p"); sym_check(c->getType() == t[i], "type-kept"); } else { double r = val(0), l = val(1), q = val(2); auto* o = new PM::Multiport::RLC(Mid(id), "p", t[i], r, l, q); auto c = copyOf(o); named(*c, id, "p"); sym_check(c->getType() == t[i] && c->getR() == r && c->getL() == l && c->getC() == q, "parameters-kept"); } auto* o = new PM::Multiport::Dispersive(Mid(id), "d", "f.dat"); auto c = copyOf(o); named(*c, id, "d"); sym_check(c->getType() == M::dispersive && c->getFilename() == "f.dat", "dispersive-kept");
}
template<class T> static void plain(long id, const char* name) { T* o = new T(Mid(id)); auto c = copyOf(o); named(*c, id, name); }
template<class T> static void both(long id, const char* name) { plain<T>(id, name); T* o = new T(Mid(id), "mine"); auto c = copyOf(o); named(*c, id, "mine"); }
ENTRY p19_named() { long id = symi("id", 1, 999); switch (sym_choice("kind", 10)) { case 0: both<PM::Predefined::PEC>(id, "PEC"); break; case 1: both<PM::Predefined::PMC>(id, "PMC"); break; case 2: both<PM::Predefined::SMA>(id, "SMA"); break; case 3: plain<PM::Bound::PEC>(id, "PEC"); break; case 4: plain<PM::Bound::PMC>(id, "PMC"); break; case 5: plain<PM::Bound::PML>(id, "PML"); break; case 6: plain<PM::Bound::SMA>(id, "SMA"); break; case 7: plain<PM::Bound::Mur1>(id, "Mur1"); break; case 8: plain<PM::Bound::Mur2>(id, "Mur2"); break; default: plain<PM::Bound::Periodic>(id, "Periodic"); } }
static PM::PhysicalModel* some(int k, long id) { switch (k) { case 0: return new PM::Volume::Classic(Mid(id), "c", 2, 3, 4, 5); case 1: return new PM::Wire::Wire(Mid(id), "w", 1, 2, 3); case 2: return new PM::Multiport::RLC(Mid(id), "m", PM::Multiport::Multiport::pRLC, 1, 2, 3); case 3: return new PM::Wire::Extremes("x", PM::Wire::Wire(Mid(id), "w", 1, 2, 3), 0, 0); default: return new PM::Predefined::PEC(Mid(id)); } }
ENTRY p19_group() {
    PMGroup* g = new PMGroup; int n = 3; long id[3]; int k[3]; for (int i = 0; i < n; i++) { id[i] = symi(nm("id", i), 1, 99); k[i] = sym_choice(nm("k", i).c_str(), 5); for (int j = 0; j < i; j++) sym_assume(id[i] != id[j]); g->add(some(k[i], id[i])); } PMGroup c(g->cloneElems()); PM::Group<const PM::Wire::Wire> w = c.getOf<PM::Wire::Wire>(); PM::Group<const PM::Volume::Volume> v = c.getOf<PM::Volume::Volume>(); size_t nw = 0, nv = 0; for (int i = 0; i < n; i++) { sym_check(c(i) != (*g)(i) && c.getId(Mid(id[i])) == c(i), "clones-found"); if (k[i] == 1 || k[i] == 3) { sym_check(nw < w.size() && w(nw) == c(i), "wires-in-order"); nw++; } if (k[i] == 0) { sym_check(nv < v.size() && v(nv) == c(i), "volumes-in-order"); nv++; } } sym_check(w.size() == nw && v.size() == nv, "kinds-selected"); delete g; for (int i = 0; i < n; i++) { sym_check(c(i)->getId() == Mid(id[i]), "clones-outlive-the-source"); sym_check(c(i)->is<PM::Wire::Extremes>() == (k[i] == 3) && c(i)->is<PM::Volume::Classic>() == (k[i] == 0) && c(i)->is<PM::Predefined::PEC>() == (k[i] == 4), "kinds-kept"); }
}
ENTRY p19_file() {
    long id = symi("id", 1, 999); static const char* N[] = {"water.dat", "a.b/water", "./x.mibc", "glass.mibc", "glass.mibc.txt", "mibc", "a.mibc/x", ".mibc", "X.MIBC"}; static const bool E[] = {false, false, true, true, false, false, false, true, false}; int q = sym_choice("file", 9); FileSystem::Project f{std::string(N[q])};
    if (sym_choice("surface", 2)) {
        PM::Surface::SIBCFile* o = 0; bool threw = false; try { o = new PM::Surface::SIBCFile(Mid(id), "skin", f); } catch (const std::logic_error&) { threw = true; } bool dotted = q == 7; if (!dotted) sym_check(threw != E[q], "only-impedance-files"); sym_reach(threw ? "refused" : "accepted"); if (!o) return; auto m = copyOf(o); named(*m, id, "skin"); sym_check(m->getFile() == N[q], "file-kept"); return;
    }
    if (q == 1 || q == 6) return; bool there = sym_choice("there", 2); if (there) { std::ofstream s(N[q]); s << "1 2\n"; }
    PM::Volume::Dispersive* o = 0; bool threw = false; try { o = new PM::Volume::Dispersive(Mid(id), "water", f); } catch (const std::ios_base::failure&) { threw = true; } sym_check(threw == !there, "missing-file-refused"); if (!o) { sym_reach("missing"); return; } sym_reach("kept");
    auto m = copyOf(o); named(*m, id, "water"); sym_check(m->getFile() == N[q], "file-kept"); sym_check(!m->isSimplyConductive() && !m->isClassic(), "not-classic"); sym_check(m->getPoleNumber() == 0 && m->getElectricConductivity() == 0, "nothing-but-the-file");
}
