// P18: magnetic fields
//@ time: *=40
#include "hx.h"
#include <memory>
#include <vector>
#include "MultipoleField.h"
#include "BzField.h"
#include "Components.h"
#include "CorrectorWinding.h"
static const double T = 1e-8;
static double fact(int n) { double f = 1; for(int i = 2; i <= n; i++) f *= i; return f; }
static double ipow(double a, int n) { double f = 1; for(int i = 0; i < n; i++) f *= a; return f; }
// By + i Bx of sum c_n z^n
static Complex field(const std::vector<Complex>& c, double x, double y, int from = 0) { double re = 1, im = 0, br = 0, bi = 0; for(int n = 0; n < (int) c.size(); n++) { if(n >= from) { br += c[n].real() * re - c[n].imag() * im; bi += c[n].real() * im + c[n].imag() * re; } double t = re * x - im * y; im = re * y + im * x; re = t; } return Complex(br, bi); }
static void eq(const Complex& a, const Complex& b, const char* what) { sx_close(a.real(), b.real(), T, what); sx_close(a.imag(), b.imag(), T, what); }
static void eq(const Vector3D& a, double x, double y, double z, const char* what) { sx_close(a.x, x, T, what); sx_close(a.y, y, T, what); sx_close(a.z, z, T, what); }
// all ways to look at a field are those of the coefficients (in Tesla / m^n)
static void judge(const MultipoleField& f, const std::vector<Complex>& c)
{
	double x = sx_double("x", -1, 1), y = sx_double("y", -1, 1); Complex b = field(c, x, y); eq(f.GetField2D(x, y), b, "field"); Vector3D B = f.GetBFieldAt(Point3D(x, y, 0.3), 2); eq(B, b.imag(), b.real(), 0, "field vector"); eq(f.GetEFieldAt(Point3D(x, y, 0)), 0, 0, 0, "no electric field");
	for(int n = 0; n < (int) c.size() + 2; n++) { Complex e = n < (int) c.size() ? c[n] : Complex(0); eq(f.GetComponent(n), e, "component at one metre"); eq(f.GetComponent(n, 0.5), e * ipow(0.5, n), "component at a radius"); eq(f.GetKn(n, 4), e * fact(n) / 4.0, "normalised strength"); eq(f.GetKn(n, -4), e * fact(n) / -4.0, "normalised strength"); eq(f.GetCoefficient(n, 2) * f.GetFieldScale(), e * ipow(2, n), "coefficient times scale"); eq(f.GetField2D(x, y, n), field(c, x, y, n + 1), "field without the lower terms"); }
	double v[3] = {0.3, -0.2, 0.9}; double q = sx_bool("negative") ? -1 : 2; Vector3D F = f.GetForceAt(Point3D(x, y, 1), Vector3D(v[0], v[1], v[2]), q); double bx = b.imag(), by = b.real(); eq(F, q * (-v[2] * by), q * (v[2] * bx), q * (v[0] * by - v[1] * bx), "force");
}
SX_HARNESS(single, "fields with one multipole, made in every way")
{
	int np = sx_choose("pole", 0, 5), how = sx_choose("constructor", 0, 2); bool skew = sx_bool("skew"); double r0 = sx_bool("radius") ? 0.5 : 2, bn = np > 3 ? 1.75 : sx_double("strength", -2, 2); sx_assume(beyond(bn, 0.01)); std::vector<Complex> c(np + 1, Complex(0)); Complex u = skew ? Complex(0, 1) : Complex(1, 0);
	if(how == 0) { MultipoleField f(np, bn, r0, skew); c[np] = u * (bn / ipow(r0, np)); judge(f, c); sx_assert(f.HighestMultipole() == np && f.LowestMultipole() == np, "pole number"); f.SetFieldScale(3); c[np] = u * 3.0; eq(f.GetComponent(np), c[np], "scaled"); }
	if(how == 1) { MultipoleField f(np, bn, skew); c[np] = u * (bn / fact(np)); judge(f, c); sx_assert(f.HighestMultipole() == np && f.LowestMultipole() == np, "pole number"); }
	if(how == 2) { static const double a[] = {0, 1, -0.75, 0.3}; double b = a[sx_choose("normal", 0, 3)], s = a[sx_choose("skew part", 0, 3)]; MultipoleField f(np, b, s, r0); c[np] = Complex(b, s) / ipow(r0, np); if(b == 0 && s == 0) { sx_assert(f.IsNullField(), "a field of zero strength is null"); eq(f.GetField2D(0.3, 0.1), Complex(0), "field"); eq(f.GetKn(np, 4), Complex(0), "strength"); eq(f.GetComponent(np), Complex(0), "component"); f.SetFieldScale(2); eq(f.GetComponent(np), Complex(2), "scaled"); } else judge(f, c); }
}
SX_HARNESS(sum, "fields with several components, turned, scaled and copied")
{
	double scale = sx_bool("scale") ? -2.5 : 0.5; int k0 = sx_choose("pole", 0, 3), kind = sx_choose("start", 0, 2); std::vector<Complex> c(6, Complex(0)); std::unique_ptr<MultipoleField> f; if(kind == 0) f.reset(new MultipoleField(scale)); else if(kind == 1) f.reset(new MultipoleField(scale, 3)); else { f.reset(new MultipoleField(k0, scale, 1.0)); c[k0] = scale; }
	static const int ord[3][3] = {{4, 1, 2}, {0, 5, 3}, {2, 2, 0}}; int o = sx_choose("order", 0, 2); for(int i = 0; i < 3; i++) { int n = ord[o][i]; double bn = sx_double(sx_n("b", i).c_str(), -1, 1), an = i == 1 ? 0.7 : sx_double(sx_n("a", i).c_str(), -1, 1); if(i == 2) { f->SetCoefficient(n, Complex(bn, an), 0.5); c[n] = scale * Complex(bn, an) / ipow(0.5, n); } else { f->SetComponent(n, bn, an, 2); c[n] = Complex(bn, an) / ipow(2, n); } }
	MultipoleField g(*f); double x = sx_double("x", -1, 1), y = sx_double("y", -1, 1); eq(g.GetField2D(x, y), field(c, x, y), "field of a copy"); const MultipoleField& k = *f; int hi = k.HighestMultipole(); k.GetCoefficient(9); k.GetComponent(8); sx_assert(k.HighestMultipole() == hi && hi >= 2, "asking does not change the field"); for(int n = 0; n < 6; n++) eq(k.GetComponent(n), c[n], "component");
	g.RotateY180(); Vector3D B = k.GetBFieldAt(Point3D(-x, y, 0)), G = g.GetBFieldAt(Point3D(x, y, 0)); eq(G, B.x, -B.y, 0, "turned round"); g.RotateY180(); eq(g.GetField2D(x, y), field(c, x, y), "turned twice"); f->SetFieldScale(2 * scale); Complex b = field(c, x, y); eq(f->GetField2D(x, y), b * 2.0, "scaled"); eq(g.GetField2D(x, y), b, "a copy is independent"); f->SetFieldScale(0); sx_assert(f->IsNullField() && !g.IsNullField(), "null field"); eq(f->GetField2D(x, y), Complex(0), "null field"); MultipoleField nul(1.0); sx_assert(nul.LowestMultipole() > nul.HighestMultipole(), "no multipole at all"); MultipoleField nul2(1.0, 2); sx_assert(nul2.LowestMultipole() > nul2.HighestMultipole(), "no multipole at all"); eq(nul2.GetField2D(x, y), Complex(0), "no multipole at all");
}
SX_HARNESS(judged, "fields with several components, all ways to look at them")
{
	std::vector<Complex> c(4, Complex(0)); MultipoleField f(1, 1.5, 1.0); c[1] = 1.5; int n = sx_choose("component", 0, 3); Complex z(sx_double("b", -1, 1), n == 2 ? 0.5 : -0.4); f.SetComponent(n, z.real(), z.imag()); c[n] = z; if(sx_bool("one more")) { f.SetComponent(0, 0.25, -1); c[0] = Complex(0.25, -1); } judge(f, c);
}
SX_HARNESS(magnets, "magnets have the field of their kind and strength")
{
	int kind = sx_choose("magnet", 0, 7), ctor = sx_bool("at radius"); double L = sx_bool("thin") ? 0 : 0.6, b = sx_double("strength", -2, 2), r = 0.5, x = sx_double("x", -1, 1), y = sx_double("y", -1, 1); std::unique_ptr<RectMultipole> m; int np = 0; bool skew = false; const char* type = "";
	#define MK(k, C, n, s) case k: np = n; skew = s; type = #C; if(ctor) m.reset(new C("m", L, b, r)); else m.reset(new C("m", L, b)); break;
	switch(kind) { MK(0, Quadrupole, 1, false) MK(1, Sextupole, 2, false) MK(2, Octupole, 3, false) MK(3, Decapole, 4, false) MK(4, SkewQuadrupole, 1, true) MK(5, SkewSextupole, 2, true) case 6: type = "XCor"; ctor = false; m.reset(new XCor("m", L, b)); break; default: type = "YCor"; skew = true; ctor = false; m.reset(new YCor("m", L, b)); }
	std::vector<Complex> c(np + 1, Complex(0)); c[np] = (skew ? Complex(0, 1) : Complex(1)) * (ctor ? b / ipow(r, np) : b / fact(np)); eq(m->GetField().GetField2D(x, y), field(c, x, y), "field"); Vector3D B = m->GetEMField()->GetBFieldAt(Point3D(x, y, 0)); Complex e = field(c, x, y); eq(B, e.imag(), e.real(), 0, "field of the component"); sx_assert(m->GetPrimaryPoleNo() == np, "pole number"); sx_assert(m->GetType() == type && m->GetName() == "m", "type and name"); sx_close(m->GetLength(), L, T, "length"); std::unique_ptr<RectMultipole> k(static_cast<RectMultipole*>(m->Copy())); sx_assert(k->GetPrimaryPoleNo() == np && k->GetType() == type && k->GetIndex() == m->GetIndex(), "a copy is of the same kind"); double s = m->GetFieldStrength(); m->SetFieldStrength(2 * s); eq(m->GetField().GetField2D(x, y), 2.0 * e, "twice the strength"); sx_close(m->GetFieldStrength(), 2 * s, T, "strength"); eq(k->GetField().GetField2D(x, y), e, "a copy is independent"); k->RotateY180(); Vector3D K = k->GetField().GetBFieldAt(Point3D(-x, y, 0)); eq(K, e.imag(), -e.real(), 0, "turned round");
}
SX_HARNESS(windings, "corrector windings, bends, solenoids")
{
	double x = sx_double("x", -1, 1), y = sx_double("y", -1, 1), bx = sx_double("bx", -1, 1), by = sx_double("by", -1, 1); int kind = sx_choose("element", 0, 2);
	if(kind == 0) { double L = 0.25; int n = sx_choose("kind", 0, 2); std::unique_ptr<RectMultipole> m; if(n == 0) m.reset(new Quadrupole("m", L, -1.5)); else if(n == 1) m.reset(new SkewSextupole("m", L, 2.5)); else m.reset(new XCor("m", L, 0.5)); Complex b0 = m->GetField().GetField2D(x, y); double d = n == 2 ? 0.5 : 0; CorrectorWinding w(*m); sx_close(w.GetBx(), 0, T, "nothing at first"); sx_close(w.GetBy(), d * L, T, "integrated field"); int o = sx_choose("set", 0, 4); double ex = 0, ey = d * L; if(o == 0 || o == 2) { w.SetBx(bx); ex = bx; } if(o >= 1) { w.SetBy(by); ey = by; } if(o == 3) { w.SetBx(bx); ex = bx; } if(o == 4) { w.SetBy(bx); ey = bx; } sx_close(w.GetBx(), ex, T, "integrated horizontal field"); sx_close(w.GetBy(), ey, T, "integrated vertical field"); eq(m->GetField().GetField2D(x, y), b0 + Complex(ey / L - d, ex / L), "the winding adds a dipole field"); }
	if(kind == 1) { double L = 0.8, h = sx_bool("left") ? -0.2 : 0.3, b0 = sx_double("b0", 0.1, 2), q = sx_bool("negative") ? -1 : 1; SectorBend m("m", L, h, b0); sx_close(m.GetB0(), b0, T, "dipole field"); sx_close(m.GetMatchedMomentum(q) * h * q, 0.299792458 * b0, T, "matched momentum"); eq(m.GetField().GetField2D(x, y), Complex(b0), "field"); bool g = sx_bool("gradient"); if(g) m.SetB1(bx); std::vector<Complex> c(2); c[0] = b0; c[1] = g ? bx : 0; eq(m.GetField().GetField2D(x, y), field(c, x, y), "dipole and gradient"); sx_close(m.GetB1(), g ? bx : 0, T, "gradient"); std::unique_ptr<SectorBend> k(static_cast<SectorBend*>(m.Copy())); eq(k->GetField().GetField2D(x, y), field(c, x, y), "field of a copy"); sx_close(k->GetGeometry().GetCurvature(), h, T, "curvature of a copy");
		SectorBend::PoleFace* a = sx_bool("entrance") ? new SectorBend::PoleFace(0.1, 0.5, 0.02) : nullptr; SectorBend::PoleFace* z = sx_bool("exit") ? new SectorBend::PoleFace(-0.2) : nullptr; if(a && sx_bool("both")) { delete z; z = a; m.SetPoleFaceInfo(a); } else m.SetPoleFaceInfo(a, z); sx_assert(m.GetPoleFaceInfo().entrance == a && m.GetPoleFaceInfo().exit == z, "pole faces"); SectorBend n(m); SectorBend l("l", 1, 0, 0); l.SetPoleFaceInfo(new SectorBend::PoleFace(0.7)); l = m; SectorBend& self = l; l = self; for(SectorBend* s : {&n, &l}) { auto& i = s->GetPoleFaceInfo(); sx_assert((i.entrance != nullptr) == (a != nullptr) && (i.exit != nullptr) == (z != nullptr), "pole faces of a copy"); if(a) sx_assert(i.entrance != a && i.entrance->rot == 0.1 && i.entrance->fint == 0.5 && i.entrance->hgap == 0.02, "entrance pole face of a copy"); if(z) sx_assert(i.exit != z && i.exit->rot == z->rot, "exit pole face of a copy"); }
		m.RotateY180(); sx_assert(m.GetPoleFaceInfo().entrance == z && m.GetPoleFaceInfo().exit == a, "turned round, the pole faces change places"); sx_close(m.GetGeometry().GetCurvature(), -h, T, "turned round, it bends the other way"); sx_close(m.GetMatchedMomentum(q) * h * q, 0.299792458 * b0, T, "turned round, the matched momentum stays"); Complex e = field(c, x, y); eq(m.GetField().GetBFieldAt(Point3D(-x, y, 0)), e.imag(), -e.real(), 0, "turned round"); n.SetB0(2 * b0); sx_close(n.GetMatchedMomentum(q) * h * q, 2 * 0.299792458 * b0, T, "matched momentum"); sx_close(m.GetB0(), b0, T, "a copy is independent"); }
	if(kind == 2) { double b = sx_double("bz", -2, 2); Solenoid s("s", 0.5, b); const BzField& f = s.GetField(); eq(f.GetBFieldAt(Point3D(x, y, 1)), 0, 0, b, "solenoid field"); eq(f.GetEFieldAt(Point3D(x, y, 1)), 0, 0, 0, "no electric field"); Vector3D F = f.GetForceAt(Point3D(x, y, 0), Vector3D(0.3, -0.2, 0.9), 2); eq(F, 2 * -0.2 * b, -2 * 0.3 * b, 0, "force"); Solenoid t(s); s.RotateY180(); sx_close(s.GetBz(), -b, T, "turned round"); sx_close(t.GetBz(), b, T, "a copy is independent"); t.SetBz(bx); eq(t.GetField().GetBFieldAt(Point3D(0, 0, 0)), 0, 0, bx, "field set"); }
}
