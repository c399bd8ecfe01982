// P07: tracking through an element does not depend on how it is cut into steps
//@ time: *=25
#include "hx.h"
#include <memory>
#include <vector>
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "Components.h"
#include "PhysicalConstants.h"
using namespace ParticleTracking;
typedef ParticleComponentTracker PT;
static const double P0 = 10, brho = 10 / 0.299792458;
static PT* tracker(int k) { switch(k) { case 0: return new PT(TRANSPORT::StdISet()); case 1: return new PT(THIN_LENS::StdISet()); default: return new PT(SYMPLECTIC::StdISet()); } }
// one symbolic particle of amplitude 1e-4
static PSvector part(double a = 1e-4) { PSvector p(0); const char* n[6] = {"x", "xp", "y", "yp", "ct", "dp"}; for(int i = 0; i < 6; i++) p[i] = sx_double(n[i], -a, a); return p; }
static PSvector run(int k, AcceleratorComponent& c, const PSvector& p, const std::vector<double>& st, double* time = nullptr)
{
	std::unique_ptr<PT> t(tracker(k)); ParticleBunch b(P0, 1.0); b.AddParticle(p); b.AddParticle(PSvector(0)); t->SetBunch(b); c.PrepareTracker(*t);
	double T0 = b.GetReferenceTime();
	for(double s : st) t->TrackStep(s);
	if(time) *time = b.GetReferenceTime() - T0;
	return *b.begin();
}
static void same(const PSvector& a, const PSvector& b, double tol, const char* what) { static const char* n[6] = {"x", "xp", "y", "yp", "ct", "dp"}; for(int i = 0; i < 6; i++) sx_close(a[i], b[i], tol, (std::string(what) + ": " + n[i]).c_str()); }
static void cuts(AcceleratorComponent& c, int k, double tol = 1e-10)
{
	double L = c.GetLength(); PSvector p = part(); double a = sx_double("cut", 0.01, 0.6) * L, t1, t2;
	std::vector<double> st; st.push_back(a);
	if(sx_bool("three")) { double b = 0.25 * L; st.push_back(b); st.push_back(L - a - b); } else st.push_back(L - a);
	PSvector whole = run(k, c, p, {L}, &t1), cut = run(k, c, p, st, &t2);
	same(whole, cut, tol, "element in one step or several");
	sx_close(t1, t2, 1e-9, "reference time");
}
SX_HARNESS(drift, "drift, all three integrator sets") { Drift d("d", 1.2); cuts(d, sx_choose("set", 0, 2)); }
SX_HARNESS(quad, "quadrupoles of both signs and skew") { static const double g[4] = {0.6, -0.6, 0.05, -0.05}; int i = sx_choose("g", 0, 3), k = sx_choose("set", 0, 2); std::unique_ptr<AcceleratorComponent> q; if(sx_bool("skew")) { if(i > 1) return; q.reset(new SkewQuadrupole("q", 0.9, g[i] * brho)); } else q.reset(new Quadrupole("q", 0.9, g[i] * brho)); cuts(*q, k); }

static AcceleratorComponent* aBend() { static const double h[2] = {0.2, -0.2}; double k = h[sx_choose("h", 0, 1)]; return new SectorBend("b", 0.9, k, k * brho); }

// two symbolic coordinates, the others from a fixed vector
static PSvector some(int w)
{
	static const double f[6] = {0.6e-4, -0.7e-4, 0.8e-4, 0.5e-4, 0.3e-4, -0.9e-4}; PSvector p(0); for(int i = 0; i < 6; i++) p[i] = f[i];
	static const int a[4] = {0, 1, 2, 3}, b[4] = {1, 5, 3, 5};
	p[a[w]] = sx_double("u", -1e-4, 1e-4); p[b[w]] = sx_double("v", -1e-4, 1e-4);
	return p;
}
SX_HARNESS(bend, "bends of both signs without gradient, TRANSPORT and THIN_LENS: pairs of symbolic coordinates, cuts from a list")
{
	std::unique_ptr<AcceleratorComponent> b(aBend()); int k = sx_choose("set", 0, 1); PSvector p = some(sx_choose("pair", 0, 3)); double L = 0.9, t1, t2;
	static const std::vector<double> st[3] = {{0.3, 0.6}, {0.5, 0.4}, {0.2, 0.1, 0.6}};
	PSvector whole = run(k, *b, p, {L}, &t1), cut = run(k, *b, p, st[sx_choose("cuts", 0, 2)], &t2);
	same(whole, cut, 1e-10, "element in one step or several"); sx_close(t1, t2, 1e-9, "reference time");
}
SX_HARNESS(bend_symplectic, "SYMPLECTIC bends of both signs: cut and two coordinates symbolic, momentum deviation from a list")
{
	std::unique_ptr<AcceleratorComponent> b(aBend()); double L = 0.9, t1, t2, a = sx_double("cut", 0.01, 0.8); static const double d[3] = {0, 1e-3, -2e-3};
	PSvector p(0); bool hor = sx_bool("hor"); p[hor ? 0 : 2] = sx_double("u", -1e-3, 1e-3); p[hor ? 1 : 3] = sx_double("v", -1e-3, 1e-3); p.dp() = d[sx_choose("d", 0, 2)]; if(!hor) p.xp() = 3e-4;
	PSvector whole = run(2, *b, p, {L}, &t1), cut = run(2, *b, p, {a, L - a}, &t2);
	same(whole, cut, 1e-10, "element in one step or several"); sx_close(t1, t2, 1e-9, "reference time");
}
SX_HARNESS(solenoid, "solenoid") { Solenoid s("s", 0.8, (sx_bool("neg") ? -0.4 : 0.4) * brho); cuts(s, sx_choose("set", 0, 2)); }
SX_HARNESS(sext, "sextupole, TRANSPORT") { Sextupole s("s", 0.8, (sx_bool("neg") ? -0.4 : 0.4) * brho); cuts(s, 0); }
static const std::vector<double> lists[3] = {{0.3, 0.6}, {0.5, 0.4}, {0.2, 0.1, 0.6}};
SX_HARNESS(variants, "bends with tilt, mispowered, with pole faces, with gradient (both signs of the focusing), first and (except TRANSPORT with gradient) second order")
{
	int v = sx_choose("variant", 0, 5), k = sx_choose("set", 0, 2), w = sx_choose("pair", 0, 3); double h = sx_bool("neg") ? -0.2 : 0.2, L = 0.9, t1, t2;
	SectorBend b("b", L, h, h * brho * (v == 1 ? 1.002 : 1)); double sc = 1;
	if(v == 0) b.GetGeometry().SetTilt(0.6);
	if(v == 2) b.SetPoleFaceInfo(new SectorBend::PoleFace(0.15), new SectorBend::PoleFace(-0.1));
	if(v == 3) b.SetB1(0.3 * brho);
	if(v == 4) b.SetB1(-0.3 * brho);
	if(v == 5) { b.SetB1(-0.02 * brho);  }
	PSvector p = some(w);
	if(v >= 3 && k == 0) { sc = 1e-3; for(int i = 0; i < 6; i++) p[i] *= sc; }
	if(k == 2 && w % 2) return;        // momentum dependence of SYMPLECTIC bends: bend_symplectic
	PSvector whole = run(k, b, p, {L}, &t1), cut = run(k, b, p, lists[sx_choose("cuts", 0, 2)], &t2);
	for(int i = 0; i < 6; i++) sx_close(whole[i] / sc, cut[i] / sc, 1e-10, "bend in one step or several"); sx_close(t1, t2, 1e-9, "reference time");
}
SX_HARNESS(gradient_second, "TRANSPORT bends with gradient, second order")
{
	double h = 0.2, L = 0.9; SectorBend b("b", L, h, h * brho); b.SetB1(0.3 * brho); PSvector p(0); p.x() = sx_double("x", -1e-3, 1e-3);
	PSvector whole = run(0, b, p, {L}), cut = run(0, b, p, lists[0]); sx_close(whole.x(), cut.x(), 2e-9, "bend with gradient to second order");
}
SX_HARNESS(thin, "zero-length elements: one zero-length step, or the whole of it")
{
	Marker m("m"); int k = sx_choose("set", 0, 2); PSvector p = part(); double t; PSvector a = run(k, m, p, {0.0}, &t); same(a, p, 1e-15, "marker"); sx_close(t, 0, 1e-15, "reference time of a marker");
}
