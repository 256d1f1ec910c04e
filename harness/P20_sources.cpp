// @property P20
// @bounds every kind of source over up to 3 elements; directions and polarisations with integer components in [-3,3] and any angles in [-7,7]; magnitudes sampled with up to 4 steps; ports of widths and heights 1, 2, 4, 8 at any integer origin in [-9,9], modes up to 3, radii from 3 pairs, any position
// @assume sine, cosine, exponential and logarithm of symbolic arguments are only known to be functions with the identities listed for P06
// @entry p20_vectors reach=kept,refused
// @entry p20_angles
// @entry p20_steep
// @entry p20_field
// @entry p20_kinds
// @entry p20_life reach=assigned,copied
// @entry p20_numerical
// @entry p20_default_steps
// @entry p20_export
// @entry p20_magnitude
// @entry p20_group
// @entry p20_coaxial
// @entry p20_coaxial_set reach=refused
// @entry p20_waveguide reach=te,tm
// @entry p20_waveguide_box reach=refused,accepted
#include "elems.h"
#include <memory>
#include "source/Group.h"
#include "source/Dipole.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/PlaneWave.h"
#include "source/port/TEMCoaxial.h"
#include "source/port/WaveguideRectangular.h"
#include "math/function/Gaussian.h"
#include "math/function/LinearInterpolation.h"
#include "math/function/BandLimited.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace S = SEMBA::Source; typedef S::Magnitude::Magnitude Mag; typedef S::Magnitude::Numerical Num; typedef Function::LinearInterpolation<Real, Real> Table;
static Mag* mag(double a) { std::vector<std::pair<Real, Real>> v; v.push_back(std::make_pair(0.0, a)); v.push_back(std::make_pair(1.0, -a)); return new Mag(new Table(v)); }
template<class T> static std::unique_ptr<T> dup(T*& src) { int how = sym_choice("copy", 3); std::unique_ptr<T> r; if (how == 0) r.reset(new T(*src)); else if (how == 1) { S::Base* c = src->template cloneTo<S::Base>(); r.reset(dynamic_cast<T*>(c)); sym_check(r.get() != 0, "clone-keeps-its-kind"); } else { r.reset(src); src = 0; } if (src) { sym_check(r->getMagnitude() == 0 || r->getMagnitude() != src->getMagnitude(), "magnitude-of-its-own"); delete src; } return r; }
template<class T> static void holds(const T& s, int n, double a, const char* name) { sym_check(s.size() == (size_t)n, "every-element"); Element::Group<const Elem> e = s.elems(); sym_check(e.size() == (size_t)n, "elements-listed"); if (s.size() != (size_t)n || e.size() != (size_t)n) return; for (int i = 0; i < n; i++) sym_check(s(i)->getId() == ElemId(i + 1) && e(i) == s(i), "elements-in-order"); sym_check(s.getName() == name, "kind-name"); sym_check(s.getMagnitude() != 0, "magnitude-kept"); if (s.getMagnitude()) { sym_check_close(s.getMagnitude()->evaluate(0.0), a, 1e-9, "magnitude-start"); sym_check_close(s.getMagnitude()->evaluate(0.5), 0, 1e-6, "magnitude-middle"); } }
struct Els { Pts<Int> i; Pts<Real> r; Els() { static const int B[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; for (int k = 0; k < 8; k++) { i.add(CVecI3(B[k][0], B[k][1], B[k][2])); r.add(CVecR3(B[k][0], B[k][1], B[k][2])); } }
    Elem* make(int kind, long id, bool real) { if (real) return makeR(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 5 : 8, id, r.at()); return makeI(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 5 : 8, id, i.at()); } };
template<class T> static Element::Group<T> els(Els& x, int kind, int n, bool real) { Element::Group<T> g; for (int k = 0; k < n; k++) g.add(dynamic_cast<T*>(x.make(kind, k + 1, real))); return g; }
ENTRY p20_vectors() {
    CVecI3 di = symI3("d", -3, 3), pi = symI3("p", -3, 3); CVecR3 d(di(0), di(1), di(2)), p(pi(0), pi(1), pi(2)); Els x; S::PlaneWave* w = 0; int why = 0; try { w = new S::PlaneWave(0, els<Vol>(x, 3, 1, false), d, p); } catch (const S::Error::PlaneWave::ZeroPolarization&) { why = 1; } catch (const S::Error::PlaneWave::ZeroMagnitude&) { why = 2; } catch (const S::Error::PlaneWave::NotPerpendicular&) { why = 3; }
    bool zd = di(0) == 0 && di(1) == 0 && di(2) == 0, zp = pi(0) == 0 && pi(1) == 0 && pi(2) == 0; Int dot = di(0) * pi(0) + di(1) * pi(1) + di(2) * pi(2); sym_check((w != 0) == (!zd && !zp && dot == 0), "accepted-iff-perpendicular-and-non-null"); if (why == 1) sym_check(zp, "null-polarisation-named"); if (why == 2) sym_check(zd, "null-direction-named"); if (why == 3) sym_check(dot != 0, "angle-named"); if (!w) { sym_reach("refused"); return; }
    sym_reach("kept"); sym_check(same(w->getDirection(), d) && same(w->getPolarization(), p), "vectors-kept"); sym_check(!w->isRandomic() && w->getNumberOfRandomPlanewaves() == 0 && w->getRelativeVariationOfRandomDelay() == 0, "not-random"); delete w;
}
ENTRY p20_angles() {
    CVecR3 d; int kind = sym_choice("kind", 4); double r = symr("r", 0.5, 5); if (kind == 0) d = CVecR3(0, 0, sym_choice("up", 2) ? r : -r); else if (kind == 1) d = CVecR3(0, sym_choice("up", 2) ? r : -r, symr("z", -5, 5)); else if (kind == 2) d = CVecR3(sym_choice("up", 2) ? r : -r, 0, symr("z", -5, 5)); else { d = symR3("v", -5, 5); sym_assume(ab(d(0)) > 0.1 && ab(d(1)) > 0.1); } CVecR3 p = kind == 0 ? CVecR3(1, 0, 0) : CVecR3(-d(1), d(0), 0); S::PlaneWave w(0, Element::Group<Vol>(), d, p); double th = w.getTheta(), ph = w.getPhi(), al = w.getAlpha(), be = w.getBeta(), n2 = d.dot(d), n = sqrt(n2), q = sqrt(p.dot(p)); sym_check_close(n * cos(th), d(2), 1e-4, "polar-angle"); if (kind != 0) { double s = sqrt(d(0) * d(0) + d(1) * d(1)); sym_check_close(s * cos(ph), d(0), 1e-4, "azimuth-x"); sym_check_close(s * sin(ph), d(1), 1e-4, "azimuth-y"); } sym_check(th > -1e-6 && th < 3.1415927 && al > -1e-6 && al < 3.1415927, "angle-range"); sym_check_close(cos(al), 0, 1e-4, "polarisation-polar-angle"); sym_check_close(q * cos(be), p(0), 1e-4, "polarisation-azimuth-x"); sym_check_close(q * sin(be), p(1), 1e-4, "polarisation-azimuth-y");
}
ENTRY p20_steep() { static const double A[5] = {1e-6, 0.001, 0.02, 1, 400}; double x = A[sym_choice("x", 5)] * (sym_choice("left", 2) ? -1 : 1), y = A[sym_choice("y", 5)] * (sym_choice("down", 2) ? -1 : 1), z = sym_choice("z", 3) - 1; CVecR3 d(x, y, z), p(-y, x, 0); S::PlaneWave w(0, Element::Group<Vol>(), d, p); double n = sqrt(x * x + y * y + z * z), m = sqrt(x * x + y * y); double th = w.getTheta(), ph = w.getPhi(), be = w.getBeta(); sym_check_close(n * cos(th), z, 1e-6, "angle-to-the-axis"); sym_check(th >= 0 && th <= 3.1415927, "angle-to-the-axis-in-range"); sym_check_close(cos(ph), x / m, 1e-6, "azimuth"); sym_check_close(sin(ph), y / m, 1e-6, "azimuth"); sym_check_close(cos(be), -y / m, 1e-6, "azimuth-of-the-polarisation"); sym_check_close(sin(be), x / m, 1e-6, "azimuth-of-the-polarisation"); sym_check_close(w.getAlpha(), 1.5707963267948966, 1e-9, "polarisation-in-the-plane"); }
ENTRY p20_field() {
    double a = symr("a", -9, 9); bool ang = sym_choice("angles", 2), level = false; S::PlaneWave* w; CVecR3 d, p; if (ang) { double th = symr("theta", -7, 7), ph = symr("phi", -7, 7); int z = sym_choice("polar", 2); level = z; d = CVecR3(sin(th) * cos(ph), sin(th) * sin(ph), cos(th)); if (z) { th = 1.5707963267948966; d = CVecR3(cos(ph), sin(ph), 0); } double al = z ? 0 : 1.5707963267948966, be = z ? 0 : ph + 1.5707963267948966; (void)be; if (!z) { ph = 0.5; th = 0; d = CVecR3(0, 0, 1); al = 1.5707963267948966; be = symr("beta", -7, 7); p = CVecR3(cos(be), sin(be), 0); } else p = CVecR3(0, 0, 1); w = new S::PlaneWave(mag(a), Element::Group<Vol>(), std::make_pair(th, ph), std::make_pair(al, be)); }
    else { static const double D[5][6] = {{0.125, 0, 0, 0, 0.5, 0}, {2, 0, 0, 0, 3, 0}, {1, 1, 0, 1, -1, 4}, {0, 0, -3, 2, 1, 0}, {1, 2, 2, 2, -2, 1}}; int k = sym_choice("pair", 5); d = CVecR3(D[k][0], D[k][1], D[k][2]); p = CVecR3(D[k][3], D[k][4], D[k][5]); w = new S::PlaneWave(mag(a), Element::Group<Vol>(), d, p); }
    auto c = dup(w); close3(c->getDirection(), d, 1e-6, "direction"); close3(c->getPolarization(), p, 1e-6, "polarisation"); double t = symr("t", -1, 2), v = t <= 0 ? a : t >= 1 ? -a : a * (1 - 2 * t); CVecR3 e = c->getElectricField(t); for (int i = 0; i < 3; i++) sym_check_close(e(i), p(i) * v, 1e-4, "electric-field-along-polarisation"); std::pair<CVecR3, CVecR3> eh = c->getElectromagneticField(t); close3(eh.first, e, 1e-6, "same-electric-field"); if (level) return; CVecR3 h = eh.second; double n = sqrt(d.dot(d)), z0 = 376.730313; sym_check_close(z0 * n * h(0), d(1) * e(2) - d(2) * e(1), 1e-3, "magnetic-field-x"); sym_check_close(z0 * n * h(1), d(2) * e(0) - d(0) * e(2), 1e-3, "magnetic-field-y"); sym_check_close(z0 * n * h(2), d(0) * e(1) - d(1) * e(0), 1e-3, "magnetic-field-z");
}
struct MyDipole : S::Dipole { MyDipole(const S::Dipole& d) : S::Base(d), Element::Group<const Vol>(d), S::Dipole(d) {} bool is(double l, const CVecR3& o, const CVecR3& p) const { return length_ == l && same(orientation_, o) && same(position_, p); } };
ENTRY p20_kinds() {
    Els x; int n = sym_choice("n", 4); bool real = sym_choice("real", 2); double a = symr("a", 1, 9); switch (sym_choice("kind", 6)) {
    case 0: { double l = symr("l", 0, 5); CVecR3 o = symR3("o", -5, 5), p = symR3("p", -5, 5); S::Dipole* s = new S::Dipole(mag(a), els<Vol>(x, 3, n, real), l, o, p); auto c = dup(s); holds(*c, n, a, "Dipole"); sym_check(MyDipole(*c).is(l, o, p), "dipole-kept"); break; }
    case 1: { bool v = sym_choice("v", 2); S::Generator* s = new S::Generator(mag(a), els<const Nod>(x, 0, n, real), v ? S::Generator::voltage : S::Generator::current, S::Generator::hard); auto c = dup(s); holds(*c, n, a, "Generator"); sym_check(c->getType() == (v ? S::Generator::voltage : S::Generator::current), "type-kept"); break; }
    case 2: { bool v = sym_choice("v", 2), h = sym_choice("h", 2); S::OnLine* s = new S::OnLine(mag(a), els<const Lin>(x, 1, n, real), v ? S::OnLine::electric : S::OnLine::magnetic, h ? S::OnLine::hard : S::OnLine::soft); auto c = dup(s); holds(*c, n, a, "OnLine"); sym_check(c->getType() == (v ? S::OnLine::electric : S::OnLine::magnetic) && c->getHardness() == (h ? S::OnLine::hard : S::OnLine::soft), "type-and-hardness-kept"); break; }
    case 3: { int k = (int)symi("k", 1, 99); double d = symr("d", 0, 1); S::PlaneWave* s = new S::PlaneWave(mag(a), els<Vol>(x, 3, n, real), k, d); auto c = dup(s); holds(*c, n, a, "PlaneWave"); sym_check(c->isRandomic() && c->getNumberOfRandomPlanewaves() == k && c->getRelativeVariationOfRandomDelay() == d, "random-waves-kept"); break; }
    case 4: { S::PlaneWave* s = new S::PlaneWave(mag(a), els<Vol>(x, 3, n, real), CVecR3(1, 2, 0), CVecR3(-4, 2, 7)); auto c = dup(s); holds(*c, n, a, "PlaneWave"); sym_check(same(c->getDirection(), CVecR3(1, 2, 0)) && same(c->getPolarization(), CVecR3(-4, 2, 7)), "wave-kept"); break; }
    default: { bool v = sym_choice("v", 2); S::Port::TEMCoaxial* s = new S::Port::TEMCoaxial(mag(a), els<const Surf>(x, 2, n, real), v ? S::Port::TEM::voltage : S::Port::TEM::current, CVecR3(1, 2, 3), 1, 2); auto c = dup(s); holds(*c, n, a, "Coaxial_TEM_port"); sym_check(c->getExcitationMode() == (v ? S::Port::TEM::voltage : S::Port::TEM::current) && same(c->getOrigin(), CVecR3(1, 2, 3)), "port-kept"); close3(c->getNormal(), CVecR3(0, 0, n ? 1 : 0), 1e-9, "port-normal"); } }
}
ENTRY p20_life() {
    Els x; double a = symr("a", 1, 9), b = symr("b", 1, 9); S::Generator* s = new S::Generator(mag(a), els<const Nod>(x, 0, 2, false), S::Generator::voltage, S::Generator::soft); int type = 1; bool has = true; double cur = a; int n = 2;
    for (int k = 0; k < (THOROUGH ? 3 : 2); k++) switch (sym_choice(nm("op", k).c_str(), 6)) {
        case 0: { S::Generator* c = new S::Generator(mag(b), els<const Nod>(x, 0, 1, false), S::Generator::current, S::Generator::soft); S::Base& base = *c; base = *s; sym_check(has ? c->getMagnitude() != 0 && c->getMagnitude() != s->getMagnitude() : c->getMagnitude() == 0, "assigned-magnitude-of-its-own"); delete s; s = c; type = 2; n = 1; sym_reach("assigned"); break; }
        case 1: { S::Base& base = *s; S::Base& self = *s; base = self; break; }
        case 2: { S::Generator* c = new S::Generator(*s); delete s; s = c; sym_reach("copied"); break; }
        case 3: { S::Generator* c = s->cloneTo<S::Generator>(); delete s; s = c; break; }
        case 4: { S::Generator c; S::Base &base = *s, &none = c; base = none; has = false; break; }
        default: { Element::Group<const Elem> g; int m = sym_choice(nm("m", k).c_str(), 3), keep = 0; for (int i = 0; i < m; i++) { bool node = sym_choice(nm("node", 3 * k + i).c_str(), 2); g.add(x.make(node ? 0 : 3, keep + 1 + (node ? 0 : 50 + i), false)); if (node) keep++; } if (sym_choice(nm("set", k).c_str(), 2)) { s->set(g); n = keep; } else if (n == 0) { s->add(g); n = keep; } }
    }
    sym_check((s->getMagnitude() != 0) == has, "magnitude-present"); if (s->getMagnitude() && has) sym_check(s->getMagnitude()->evaluate(-1.0) == cur, "magnitude-kept"); sym_check(s->getType() == (type == 1 ? S::Generator::voltage : S::Generator::current), "type-kept"); sym_check(s->size() == (size_t)n, "only-elements-of-its-kind"); for (size_t i = 0; i < s->size(); i++) sym_check((*s)(i)->getId() == ElemId((long)i + 1), "elements-in-order"); delete s;
}
static Mag* sampled(double step, int n, double* v, bool rising = false) { std::vector<std::pair<Real, Real>> t; for (int i = 0; i <= n; i++) { v[i] = symr(nm("v", i), -9, 9); if (i > 1) { double c = v[i] - 2 * v[i - 1] + v[i - 2]; sym_assume(c == 0 || c > 0.01 || c < -0.01); } t.push_back(std::make_pair(i * step, v[i])); } return new Mag(new Table(t)); }
ENTRY p20_numerical() {
    static const double T[2] = {0.25, 2}; double step = T[sym_choice("step", 2)]; int n = 1 + sym_choice("n", THOROUGH ? 5 : 4); double v[8]; Mag* m = sampled(step, n, v); if (n > 1) { double c = v[1] - v[0]; sym_assume(c == 0 || c > 0.01 || c < -0.01); } Num num(FileSystem::Project("p20_numerical.txt"), *m, step, n * step); delete m; sym_check(num.getFilename() == "p20_numerical.txt", "file-name"); std::unique_ptr<Num> copy(num.cloneTo<Num>()); const Mag& base = *copy; for (int i = 0; i < n; i++) { sym_check_close(num.evaluate(i * step), v[i], 1e-6, "samples-reproduced"); sym_check_close(base.evaluate(i * step), v[i], 1e-6, "copies-reproduce-samples"); if (i + 1 < n) sym_check_close(base.evaluate((i + 0.5) * step), (v[i] + v[i + 1]) / 2, 1e-6, "linear-between-samples"); } sym_check_close(base.evaluate(-3 * step), v[0], 1e-6, "constant-before"); sym_check_close(base.evaluate((n + 3) * step), v[n - 1], 1e-6, "constant-after"); Num back(FileSystem::Project("p20_numerical.txt")); sym_check(back == num && num == *copy, "same-file-same-magnitude"); std::unique_ptr<Mag> plain(mag(1)); sym_check(!(num == *plain) && !(*plain == num), "other-kind-differs"); if (n == 2 && step == 2) { std::vector<std::pair<Real, Real>> w; for (int i = 0; i < 3; i++) w.push_back(std::make_pair(i * step, i == 1 ? 40.0 : 30.0)); Mag m2((FunctionRR*)new Table(w)); Num again(FileSystem::Project("p20_numerical.txt"), m2, step, n * step), other(FileSystem::Project("p20_another.txt"), m2, step, n * step); sym_check(!(again == num) && !(num == again), "same-file-other-samples-differ"); sym_check(!(other == again) && !(again == other), "other-file-differs"); }
}
ENTRY p20_default_steps() {
    std::vector<std::pair<Real, Real>> v; v.push_back(std::make_pair(0.0, 1.0)); v.push_back(std::make_pair(1.0, 3.0)); v.push_back(std::make_pair(2.0, -5.0)); Mag m(new Table(v)); double end = sym_choice("end", 2) ? 1000.0 / 512 : 1000.0 / 128; Num num(FileSystem::Project("p20_steps.txt"), m, 0, end); for (int i = 0; i < 8; i++) sym_check_close(num.evaluate(i * end / 8), m.evaluate(i * end / 8), 1e-6, "default-number-of-steps");
}
ENTRY p20_export() {
    double v[4]; Els x; Mag* m = sampled(0.5, 2, v); double c = v[1] - v[0]; sym_assume(c == 0 || c > 0.01 || c < -0.01); S::Generator* g = new S::Generator(m, els<const Nod>(x, 0, 2, false), S::Generator::voltage, S::Generator::soft); sym_check(g->getMagnitudeFilename() == "" && !g->magnitudeIs<Num>(), "no-file-yet"); std::unique_ptr<Num> e(g->exportToFile(FileSystem::Project("p20_export.txt"), 0.5, 1)); sym_check(!g->magnitudeIs<Num>() && g->getMagnitude() == m, "exporting-changes-nothing"); for (int i = 0; i < 2; i++) sym_check_close(e->evaluate(i * 0.5), v[i], 1e-6, "exported-samples"); int twice = 1 + sym_choice("twice", 3); for (int k = 0; k < 3; k++) if (k == 0 || k == twice - 1) g->convertToNumerical(FileSystem::Project(k ? "p20_other.txt" : "p20_converted.txt"), k == 0 ? 0.5 : k == 1 ? 1.0 : 0.25, k < 2 ? 1 : 2); auto d = dup(g); sym_check(d->magnitudeIs<Num>() && d->getMagnitudeFilename() == "p20_converted.txt", "converted-once"); std::unique_ptr<Num> f(d->exportToFile(FileSystem::Project("p20_unused.txt"), 9, 9)); sym_check(f->getFilename() == "p20_converted.txt" && f.get() != d->getMagnitude(), "numerical-exported-as-it-is"); for (int i = 0; i < 2; i++) { sym_check_close(d->getMagnitude()->evaluate(i * 0.5), v[i], 1e-6, "converted-samples"); sym_check_close(f->evaluate(i * 0.5), v[i], 1e-6, "reexported-samples"); }
}
static FunctionRR* fun(int k, double p) { if (k == 0) return 0; if (k == 1) return new Function::Gaussian(p, 2 * p); std::vector<std::pair<Real, Real>> v; v.push_back(std::make_pair(0.0, p)); return new Table(v); }
ENTRY p20_magnitude() {
    int k[2] = {sym_choice("k0", 3), sym_choice("k1", 3)}; double p[2] = {symr("p0", 0.5, 4), symr("p1", 0.5, 4)}; sym_assume(p[0] == p[1] || p[0] > p[1] + 0.01 || p[1] > p[0] + 0.01); Mag* a = new Mag(fun(k[0], p[0])); Mag* b = new Mag(fun(k[1], p[1])); bool eq = k[0] == k[1] && (k[0] == 0 || p[0] == p[1]); sym_check((*a == *b) == eq && (*b == *a) == eq, "equal-iff-same-function"); Mag c(*a); sym_check(c == *a, "copy-equal"); int op = sym_choice("op", 4); if (op == 0) *b = *a; else if (op == 1) { delete b; b = new Mag(*a); } else if (op == 2) { delete b; b = a->cloneTo<Mag>(); } else { *b = *a; Mag& s = *b; *b = s; } sym_check(*b == *a && c == *b, "assigned-equal"); double t = symr("t", -5, 5); if (k[0]) { double w = a->evaluate(t); delete a; sym_check(b->evaluate(t) == w && c.evaluate(t) == w, "same-values-after-the-source-is-gone"); } else delete a; delete b;
}
ENTRY p20_group() {
    Els x; SourceGroup g; int n = 3, k[3]; for (int i = 0; i < n; i++) { k[i] = sym_choice(nm("k", i).c_str(), 3); if (k[i] == 0) g.add(new S::Generator(mag(i + 1), els<const Nod>(x, 0, 1, false), S::Generator::voltage, S::Generator::soft)); else if (k[i] == 1) g.add(new S::OnLine(mag(i + 1), els<const Lin>(x, 1, 2, false), S::OnLine::electric, S::OnLine::hard)); else g.add(new S::PlaneWave(mag(i + 1), els<Vol>(x, 3, 3, false), CVecR3(1, 0, 0), CVecR3(0, 1, 0))); } SourceGroup c(g.cloneElems()); auto w = g.getOf<S::PlaneWave>(); auto l = c.getOf<S::OnLine>(); size_t nw = 0, nl = 0; for (int i = 0; i < n; i++) { sym_check(c(i) != g(i) && c(i)->getMagnitude() != g(i)->getMagnitude(), "clones-of-their-own"); sym_check_close(c(i)->getMagnitude()->evaluate(0.0), i + 1, 1e-9, "clones-in-order"); sym_check(c(i)->elems().size() == (size_t)k[i] + 1, "clones-keep-elements"); sym_check(c(i)->getName() == (k[i] == 0 ? "Generator" : k[i] == 1 ? "OnLine" : "PlaneWave"), "clones-keep-kind"); if (k[i] == 2) { sym_check(nw < w.size() && w(nw) == g(i), "waves-selected"); nw++; } if (k[i] == 1) { sym_check(nl < l.size() && l(nl) == c(i), "line-sources-selected"); nl++; } } sym_check(w.size() == nw && l.size() == nl, "nothing-else-selected");
}
static const double R[3][2] = {{1, 3}, {0.5, 2}, {2, 2.5}};
static void coax(const S::Port::TEMCoaxial& p, bool volt, const CVecR3& o, double ratio) { CVecR3 d; double rx = symr("dx", -5, 5), ry = symr("dy", -5, 5); sym_assume(rx > 0.1 || rx < -0.1 || ry > 0.1 || ry < -0.1); d = CVecR3(rx, ry, 0); CVecR3 w = p.getWeight(o + d); sym_check_close(w(2), 0, 1e-6, "weight-in-the-plane"); if (volt) { sym_check_close(w(0) * ry, w(1) * rx, 1e-4, "radial-field"); sym_check_close((w(0) * rx + w(1) * ry) * log(ratio), 1, 1e-4, "unit-voltage"); } else { sym_check_close(w(0) * rx + w(1) * ry, 0, 1e-4, "circular-field"); sym_check_close((rx * w(1) - ry * w(0)) * 2 * 3.141592653589793, 1, 1e-4, "unit-current"); } }
ENTRY p20_coaxial() { Els x; bool volt = sym_choice("volt", 2); int q = sym_choice("radii", 3); CVecR3 o = symR3("o", -5, 5); S::Port::TEMCoaxial* s = new S::Port::TEMCoaxial(mag(1), els<const Surf>(x, 2, 1, true), volt ? S::Port::TEM::voltage : S::Port::TEM::current, o, R[q][0], R[q][1]); auto p = dup(s); sym_check(same(p->getOrigin(), o), "origin-kept"); sym_check(S::Port::TEM::toStr(p->getExcitationMode()) == (volt ? "voltage" : "current"), "mode-name"); coax(*p, volt, o, R[q][1] / R[q][0]); }
template<class T> static Element::Group<T> plate(Pts<Int>& c, const CVecI3& o, int ax, int w, int h, bool tilt = false) { int a = (ax + 1) % 3, b = (ax + 2) % 3; CVecI3 p[4] = {o, o, o, o}; p[1](a) += w; p[2](a) += w; p[2](b) += h; p[3](b) += h; for (int i = 0; i < 4; i++) c.add(p[i]); Element::Group<T> g; g.add(new QuaI4(ElemId(1), c.at())); if (tilt) { CVecI3 q[4] = {p[0], p[0], p[0], p[0]}; q[1](ax) += 1; q[2](ax) += 1; q[2](b) += h; q[3](b) += h; for (int i = 0; i < 4; i++) c.add(q[i]); g.add(new QuaI4(ElemId(2), c.at(4))); } return g; }
ENTRY p20_coaxial_set() { Els x; Pts<Int> c; bool volt = sym_choice("volt", 2); int q = sym_choice("radii", 3), ax = sym_choice("axis", 3); bool tilt = sym_choice("tilt", 2); CVecI3 o(sym_choice("ox", 3) * 7 - 5, sym_choice("oy", 2) - 8, symi("oz", -9, 9)); S::Port::TEMCoaxial p(mag(1), els<const Surf>(x, 2, 2, true), volt ? S::Port::TEM::voltage : S::Port::TEM::current, CVecR3(1, 2, 3), R[q][0], R[q][1]); bool threw = false; try { p.set(plate<const Elem>(c, o, ax, 4, 2, tilt)); } catch (const std::logic_error&) { threw = true; } sym_check(threw == (ax != 2 || tilt), "only-in-the-xy-plane"); if (threw) { sym_reach("refused"); sym_check(p.size() == 2 && same(p.getOrigin(), CVecR3(1, 2, 3)), "refusal-changes-nothing"); return; } sym_check(p.size() == 1 && p(0)->getId() == ElemId(1), "elements-set"); CVecR3 m(o(0) + 2, o(1) + 1, o(2)); close3(p.getOrigin(), m, 1e-6, "origin-in-the-middle"); coax(p, volt, m, R[q][1] / R[q][0]); }
ENTRY p20_waveguide() {
    Pts<Int> c; static const int L[4] = {1, 2, 4, 8}; int w = L[sym_choice("w", 4)], h = L[sym_choice("h", THOROUGH ? 4 : 2)]; int m = sym_choice("m", 4), n = sym_choice("n", 4); bool te = sym_choice("te", 2); CVecI3 o = symI3("o", -9, 9); S::Port::WaveguideRectangular* s = 0; bool threw = false; Mag* mg = mag(1); try { s = new S::Port::WaveguideRectangular(mg, plate<const Surf>(c, o, 2, w, h), te ? S::Port::Waveguide::TE : S::Port::Waveguide::TM, std::make_pair((size_t)m, (size_t)n)); } catch (const std::logic_error&) { threw = true; } sym_check(threw == (m == 0 && n == 0), "void-mode-refused"); if (!s) return;
    auto p = dup(s); sym_reach(te ? "te" : "tm"); close3(p->getOrigin(), CVecR3(o(0), o(1), o(2)), 1e-9, "origin"); sym_check_close(p->getWidth(), w, 1e-9, "width"); sym_check_close(p->getHeight(), h, 1e-9, "height"); sym_check(p->getMode().first == (size_t)m && p->getMode().second == (size_t)n && p->getExcitationMode() == (te ? S::Port::Waveguide::TE : S::Port::Waveguide::TM), "mode-kept"); double x = symr("x", 0, 1) * w, y = symr("y", 0, 1) * h; CVecR3 g = p->getWeight(CVecR3(o(0) + x, o(1) + y, o(2))); double pi = 3.141592653589793, a = pi * m / w, b = pi * n / h, f = a > b ? a : b, X = cos(a * x) * sin(b * y), Y = sin(a * x) * cos(b * y); sym_check_close(g(2), 0, 1e-9, "no-longitudinal-weight"); sym_check_close(f * g(0), te ? -b * X : -a * X, 1e-5, "weight-x"); sym_check_close(f * g(1), te ? a * Y : -b * Y, 1e-5, "weight-y");
}
ENTRY p20_waveguide_box() {
    Pts<Int> c, d; int ax = sym_choice("axis", 3); bool tilt = sym_choice("tilt", 2), none = sym_choice("none", 2); CVecI3 o = symI3("o", -9, 9), o2 = symI3("q", -9, 9); Element::Group<const Surf> e; if (!none) e = plate<const Surf>(c, o, ax, 2, 4, tilt); S::Port::WaveguideRectangular* s = 0; Mag* mg = mag(1); try { s = new S::Port::WaveguideRectangular(mg, e, S::Port::Waveguide::TE, std::make_pair((size_t)1, (size_t)0)); } catch (const std::logic_error&) {} sym_check((s != 0) == (!none && ax == 2 && !tilt), "accepted-iff-a-plate-in-the-xy-plane"); if (!s) { sym_reach("refused"); return; } sym_reach("accepted"); s->set(plate<const Elem>(d, o2, 2, 8, 2)); auto p = dup(s); close3(p->getOrigin(), CVecR3(o2(0), o2(1), o2(2)), 1e-9, "moved-origin"); sym_check_close(p->getWidth(), 8, 1e-9, "moved-width"); sym_check_close(p->getHeight(), 2, 1e-9, "moved-height"); S::Port::WaveguideRectangular bare(*p); close3(bare.getOrigin(), CVecR3(o2(0), o2(1), o2(2)), 1e-9, "copied-origin"); close3(p->getNormal(), CVecR3(0, 0, 1), 1e-9, "normal");
}
