// P20: elements act on particles with the optics their field prescribes
//@ time: *=25
#include "hx.h"
#include <memory>
#include <vector>
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "Components.h"
#include "PhysicalConstants.h"
using namespace ParticleTracking;
typedef ParticleComponentTracker PT;
static const double P0 = 10, brho = 10 / 0.299792458;
static PT* tracker(int k) { switch(k) { case 0: return new PT(TRANSPORT::StdISet()); case 1: return new PT(THIN_LENS::StdISet()); default: return new PT(SYMPLECTIC::StdISet()); } }
static double len() { return sx_bool("long") ? 1.3 : 0.35; }
static PSvector part(double a, int set = 0) { PSvector p(0); const char* n[6] = {"x", "xp", "y", "yp", "ct", "dp"}; for(int i = 0; i < 6; i++) p[i] = set == 2 && i == 5 ? (sx_bool("off") ? a : 0) : sx_double(n[i], -a, a); return p; }
static PSvector run(int k, AcceleratorComponent& c, const PSvector& p, double q = 1)
{
	std::unique_ptr<PT> t(tracker(k)); ParticleBunch b(P0, q); b.AddParticle(PSvector(0)); b.AddParticle(p); t->SetBunch(b); c.PrepareTracker(*t); t->Track();
	sx_assert(b.size() == 2, "particles are kept"); return *++b.begin();
}
static void same(const PSvector& a, const PSvector& b, double tol, const char* what) { static const char* n[6] = {"x", "xp", "y", "yp", "ct", "dp"}; for(int i = 0; i < 6; i++) sx_close(a[i], b[i], tol, (std::string(what) + ": " + n[i]).c_str()); }
// cosine- and sine-like trajectories of u'' = -K u and their derivatives
struct CS { double c, s, cp, sp; };
static CS cs(double K, double L)
{
	if(K == 0) return {1, L, 0, 1};
	double k = std::sqrt(std::fabs(K));
	if(K > 0) return {std::cos(k * L), std::sin(k * L) / k, -k * std::sin(k * L), std::cos(k * L)};
	return {std::cosh(k * L), std::sinh(k * L) / k, k * std::sinh(k * L), std::cosh(k * L)};
}
static void plane(double& u, double& up, const CS& m) { double a = u, b = up; u = m.c * a + m.s * b; up = m.cp * a + m.sp * b; }
// linear map of a bend of curvature h with gradient K (K > 0 focuses horizontally); h = 0: quadrupole or drift
static PSvector linear(PSvector p, double L, double h, double K)
{
	double kx = K + h * h, d = p.dp(), x = p.x(), xp = p.xp(); CS X = cs(kx, L), Y = cs(-K, L);
	plane(p.x(), p.xp(), X); plane(p.y(), p.yp(), Y);
	if(h != 0)
	{
		p.x() += h * (1 - X.c) / kx * d; p.xp() += h * X.s * d;
		p.ct() -= h * (X.s * x + (1 - X.c) / kx * xp + h * (L - X.s) / kx * d);
	}
	return p;
}
static PSvector rolled(PSvector p, double t) { PSvector q(p); double c = std::cos(t), s = std::sin(t); q.x() = c * p.x() + s * p.y(); q.xp() = c * p.xp() + s * p.yp(); q.y() = c * p.y() - s * p.x(); q.yp() = c * p.yp() - s * p.xp(); return q; }
SX_HARNESS(straight, "drifts, quadrupoles of both signs, strengths from a list, skew, both charge signs, all integrator sets: linear map")
{
	static const double g[6] = {0, 0.6, -0.6, 0.05, -0.05, 2.0}; int i = sx_choose("g", 0, 5), k = sx_choose("set", 0, 2); bool skew = i && sx_bool("skew"); double q = sx_bool("neg") ? -1 : 1, L = len();
	std::unique_ptr<AcceleratorComponent> c; if(!i) c.reset(new Drift("d", L)); else if(skew) c.reset(new SkewQuadrupole("q", L, g[i] * brho)); else c.reset(new Quadrupole("q", L, g[i] * brho));
	PSvector p = part(1e-6, k), e; if(skew) { e = rolled(linear(rolled(p, std::atan(1.0)), L, 0, q * g[i]), -std::atan(1.0)); } else e = linear(p, L, 0, q * g[i]);
	same(run(k, *c, p, q), e, 1e-10, skew ? "skew quadrupole" : i ? "quadrupole" : "drift");
}
SX_HARNESS(bends, "bends of both signs, with and without gradient, both charge signs: linear map")
{
	static const double g[4] = {0, 0.3, -0.3, -0.02}; int i = sx_choose("g", 0, 3), k = sx_choose("set", 0, 2); double h = sx_bool("neg") ? -0.2 : 0.2, q = sx_bool("e") ? -1 : 1, L = len();
	SectorBend b("b", L, h, q * h * brho); if(i) b.SetB1(q * g[i] * brho);
	PSvector p = part(1e-6, k); same(run(k, b, p, q), linear(p, L, h, g[i]), 1e-10, "bend");
}
SX_HARNESS(tilted, "bends of any tilt, with pole faces: the same bend rolled; pole face focusing to first order")
{
	int k = sx_choose("set", 0, 2), i = sx_choose("t", 0, 3); static const double tl[4] = {0, 1.5707963267948966, 0.5, -0.7}; bool face = sx_bool("face"); double h = sx_bool("neg") ? -0.2 : 0.2, L = 0.8;
	SectorBend b("b", L, h, h * brho); b.GetGeometry().SetTilt(tl[i]); double e1 = face ? 0.5 : 0, e2 = face ? -0.4 : 0, fint = 0.5, gap = 0.1;
	if(face) b.SetPoleFaceInfo(new SectorBend::PoleFace(e1, fint, gap), new SectorBend::PoleFace(e2, fint, gap));
	PSvector p = part(1e-6, k), e = rolled(p, tl[i]);
	auto edge = [&](double a) { double f = 2 * fint * gap * h * (1 + std::sin(a) * std::sin(a)) / std::cos(a); e.xp() += h * std::tan(a) * e.x(); e.yp() -= h * std::tan(a - f) * e.y(); };
	if(face) edge(e1); e = linear(e, L, h, 0); if(face) edge(e2);
	same(run(k, b, p), rolled(e, -tl[i]), 1e-10, "tilted bend");
}
SX_HARNESS(one_face, "bends with a single, shared or no pole face description: second-order effects of entrance and exit are opposite (TRANSPORT)")
{
	int v = sx_choose("v", 0, 3); double h = 0.2, L = 0.6; SectorBend b("b", L, h, h * brho), c("c", L, h, h * brho); typedef SectorBend::PoleFace F;
	if(v == 0) { b.SetPoleFaceInfo(new F(0), new F(0)); }
	else if(v == 1) { b.SetPoleFaceInfo(new F(0.1)); c.SetPoleFaceInfo(new F(0.1), new F(0.1)); }
	else if(v == 2) { b.SetPoleFaceInfo(new F(0)); }
	else { b.SetPoleFaceInfo(new F(0.1), new F(0.2)); SectorBend d(b); std::unique_ptr<SectorBend> n((SectorBend*) d.Copy()); c = *n; }
	PSvector p(0); p.x() = sx_double("x", -1e-3, 1e-3); p.y() = sx_double("y", -1e-3, 1e-3);
	PSvector r = run(0, b, p); same(r, run(0, c, p), 1e-12, "equivalent pole faces");
	if(v != 1 && v != 3)
	{
		// a bend without pole faces in two halves: the inner faces cancel
		SectorBend a("a", L / 2, h, h * brho); same(run(0, a, run(0, a, p)), r, 1e-9, "two halves of a bend");
	}
}
SX_HARNESS(mispowered, "bends stronger or weaker than their geometry (TRANSPORT, THIN_LENS): steer like a momentum error")
{
	int k = sx_choose("set", 0, 1); double h = sx_bool("neg") ? -0.2 : 0.2, L = len(), e = sx_bool("weak") ? -2e-5 : 2e-5;
	SectorBend b("b", L, h, h * brho * (1 + e)); PSvector p = part(1e-6, k), d = p; d.dp() = (p.dp() - e) / (1 + e); PSvector r = linear(d, L, h, 0); r.dp() = p.dp();
	same(run(k, b, p), r, 2e-9, "mispowered bend");
}
SX_HARNESS(solenoid, "solenoid, all sets, both field and charge signs: linear map")
{
	int k = sx_choose("set", 0, 2); double B = sx_bool("neg") ? -0.4 : 0.4, q = sx_bool("e") ? -1 : 1, L = len(); Solenoid s("s", L, B * brho);
	PSvector p = part(1e-6, k); p.dp() = 0; PSvector r = run(k, s, p, q); double K = q * B / 2, t = K * L;
	// focusing in both planes in the frame that rotates by t
	PSvector e = p; CS f = cs(K * K, L); plane(e.x(), e.xp(), f); plane(e.y(), e.yp(), f);
	PSvector a = rolled(e, t), b = rolled(e, -t); bool pos = within(r.x() - a.x(), 1e-10) & within(r.xp() - a.xp(), 1e-10) & within(r.y() - a.y(), 1e-10) & within(r.yp() - a.yp(), 1e-10);
	(void) b; sx_assert(pos, "solenoid focuses and rotates"); sx_close(r.dp(), 0, 1e-15, "solenoid keeps the momentum");
}
SX_HARNESS(chromatic, "quadrupoles: momentum dependence of the focusing to second order, path length (TRANSPORT)")
{
	static const double g[4] = {0.6, -0.6, 0.1, -0.1}; double K = g[sx_choose("g", 0, 3)], L = len(); int k = sx_choose("set", 0, 1); Quadrupole c("q", L, K * brho);
	PSvector p(0); double u = sx_double("u", -1e-4, 1e-4), d = sx_double("d", -1e-4, 1e-4); bool y = sx_bool("y"), ang = sx_bool("ang"); p[(y ? 2 : 0) + ang] = u; p.dp() = d;
	PSvector r = run(k, c, p); double Ke = y ? -K : K; CS m = cs(Ke, L); double a = u * (ang ? m.s : m.c), ap = u * (ang ? m.sp : m.cp);
	// dC/dK = -L S/2, dS/dK = (L C - S)/(2K), K -> K(1-d)
	double dc = Ke * L * m.s / 2, ds = (m.s - L * m.c) / 2; a += d * u * (ang ? ds : dc);
	double dcp = Ke * (m.s + L * m.c) / 2, dsp = Ke * L * m.s / 2; ap += d * u * (ang ? dsp : dcp);
	sx_close(r[y ? 2 : 0], a, 1e-10, "position behind an off-momentum quadrupole"); sx_close(r[y ? 3 : 1], ap, 1e-10, "slope behind an off-momentum quadrupole");
	if(k == 0)
	{
		// path length: half the integral of the squared slope
		double I = ang ? (L + m.s * m.c) / 2 : Ke * (L - m.s * m.c) / 2; sx_close(r.ct(), -u * u * I / 2, 1e-10, "path length in a quadrupole");
	}
}
SX_HARNESS(drift_path, "drift: path length (TRANSPORT, SYMPLECTIC)")
{
	double L = len(); Drift d("d", L); PSvector p(0); p.xp() = sx_double("xp", -1e-3, 1e-3); p.yp() = sx_double("yp", -1e-3, 1e-3); PSvector r = run(sx_bool("sy") ? 2 : 0, d, p);
	sx_close(r.ct(), -L * (p.xp() * p.xp() + p.yp() * p.yp()) / 2, 1e-10, "path length in a drift"); sx_close(r.x(), L * p.xp(), 5e-9, "drift x"); sx_close(r.y(), L * p.yp(), 5e-9, "drift y");
}
struct Field { double b[5], a[5]; };
static Complex fld(const Field& f, double x, double y) { Complex z(x, y), w(1), s(0); for(int n = 0; n < 5; n++) { s += Complex(f.b[n], f.a[n]) * w; w *= z; } return s; }
SX_HARNESS(kicks, "zero-length magnets with dipole to octupole components: kick of the field, all sets, symbolic particle")
{
	static const Field F[4] = {{{1e-3, 0, 0, 0, 0}, {2e-3, 0, 0, 0, 0}}, {{0, 0.5, 2, 0, 0}, {0, 0.2, -1, 0, 0}}, {{0, 0, 0, 30, 0}, {0, 0, 0, 20, 0}}, {{2e-3, 0.3, 1, 10, 50}, {0, 0, 0, 0, -40}}};
	int k = sx_choose("set", 0, 2); const Field& f = F[sx_choose("f", 0, 3)]; double q = sx_bool("neg") ? -1 : 1; XCor m("m", 0, 1.0); m.GetField().SetFieldScale(brho);
	for(int n = 0; n < 5; n++) m.GetField().SetComponent(n, f.b[n] * brho, f.a[n] * brho);
	PSvector p(0); p.x() = sx_double("x", -0.05, 0.05); p.y() = sx_double("y", -0.05, 0.05); p.xp() = 1e-3; p.yp() = -2e-3; p.ct() = 1e-3; p.dp() = sx_double("dp", -0.1, 0.1);
	PSvector e = p; Complex z = fld(f, p.x(), p.y()) * (k == 2 ? q : q / (1 + p.dp())); e.xp() -= z.real(); e.yp() += z.imag();
	same(run(k, m, p, q), e, 1e-9, "kick");
}
SX_HARNESS(thick, "magnets of finite length with several components: half the linear map, the kick of the others, the other half; all sets")
{
	static const Field F[6] = {{{1e-3, 0, 0, 0, 0}, {2e-3, 0, 0, 0, 0}}, {{1e-3, 0.4, 0, 0, 0}, {-2e-3, 0, 0, 0, 0}}, {{0, -0.5, 20, 0, 0}, {0, 0, 10, 0, 0}}, {{0, 0, 0, 3000, 0}, {0, 0, 0, 2000, 0}}, {{1e-3, 0, 0, 900, 0}, {2e-3, 0.4, 0, 0, 0}}, {{0, 0, 0, 0, 3e4}, {0, 0, 0, 0, -2e4}}};
	int k = sx_choose("set", 0, 2), i = sx_choose("f", 0, 5); Field f = F[i]; double L = 0.4; XCor m("m", L, 1.0); m.GetField().SetFieldScale(brho);
	for(int n = 4; n >= 0; n--) if(f.b[n] || f.a[n] || n == 0) m.GetField().SetComponent(n, f.b[n] * brho, f.a[n] * brho);
	PSvector p(0); p.x() = sx_double("x", -1e-3, 1e-3); p.y() = sx_double("y", -1e-3, 1e-3); p.xp() = 1e-4; p.yp() = -2e-4; double K = f.b[1] ? f.b[1] : f.a[1], r = f.a[1] ? std::atan(1.0) : 0;
	f.b[1] = f.a[1] = 0; PSvector e = rolled(linear(rolled(p, r), L / 2, 0, K), -r); Complex z = fld(f, e.x(), e.y()) * L; e.xp() -= z.real(); e.yp() += z.imag(); e = rolled(linear(rolled(e, r), L / 2, 0, K), -r);
	PSvector R = run(k, m, p); for(int j = 0; j < 4; j++) sx_close(R[j], e[j], 1e-9, "magnet with several components");
	// the field is left as it was
	for(int n = 0; n < 5; n++) { Complex c = m.GetField().GetComponent(n); sx_close(c.real(), F[i].b[n] * brho, 1e-9, "field after tracking"); sx_close(c.imag(), F[i].a[n] * brho, 1e-9, "field after tracking"); }
}
SX_HARNESS(bend_errors, "bends with skew dipole, skew gradient or sextupole components: kick in the middle, all sets")
{
	int k = sx_choose("set", 0, 2), v = sx_choose("v", 0, 2); double h = 0.2, L = 0.3; SectorBend b("b", L, h, h * brho); Field f = {{0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}};
	if(v == 0) { f.a[0] = 1e-5; b.GetField().SetComponent(0, h * brho, 1e-5 * brho); } else if(v == 1) { f.a[1] = 0.3; b.GetField().SetComponent(1, 0, 0.3 * brho); } else { f.b[2] = 400; b.GetField().SetComponent(2, 400 * brho, 0); }
	double s = v == 2 ? 1e-4 : 1e-6; PSvector p(0); p.x() = sx_double("x", -s, s); p.y() = sx_double("y", -s, s); p.xp() = 1e-7; p.dp() = -2e-7;
	PSvector e = linear(p, L / 2, h, 0); Complex z = fld(f, e.x(), e.y()) * L; e.xp() -= z.real(); e.yp() += z.imag(); e = linear(e, L / 2, h, 0);
	PSvector R = run(k, b, p); for(int j = 0; j < 4; j++) sx_close(R[j], e[j], v == 2 ? 1e-8 : 1e-10, "bend with error components");
	sx_close(b.GetField().GetComponent(0).real(), h * brho, 1e-9, "field after tracking");
}
SX_HARNESS(sextupole, "sextupole: second-order map (TRANSPORT), kick in the middle (others)")
{
	double K2 = sx_bool("neg") ? -4 : 4, L = len(); int k = sx_choose("set", 0, 2); Sextupole s("s", L, K2 * brho); PSvector p(0); const double a = 1e-4; p.x() = sx_double("x", -a, a); p.y() = sx_double("y", -a, a); p.xp() = 0.7e-4; p.yp() = -0.5e-4;
	PSvector r = run(k, s, p); double x = p.x(), u = p.xp(), y = p.y(), w = p.yp();
	if(k == 0)
	{
		// u'' = -K2/2 (x^2-y^2), w'' = K2 x y along the straight trajectory
		double A = x * x - y * y, B = 2 * (x * u - y * w), C = u * u - w * w, D = x * y, E = x * w + y * u, F = u * w;
		sx_close(r.xp(), u - K2 / 2 * (A * L + B * L * L / 2 + C * L * L * L / 3), 2e-10, "sextupole xp"); sx_close(r.yp(), w + K2 * (D * L + E * L * L / 2 + F * L * L * L / 3), 2e-10, "sextupole yp");
		sx_close(r.x(), x + u * L - K2 / 2 * (A * L * L / 2 + B * L * L * L / 6 + C * L * L * L * L / 12), 2e-10, "sextupole x"); sx_close(r.y(), y + w * L + K2 * (D * L * L / 2 + E * L * L * L / 6 + F * L * L * L * L / 12), 2e-10, "sextupole y");
	}
	else
	{
		double xm = x + u * L / 2, ym = y + w * L / 2, du = -K2 / 2 * (xm * xm - ym * ym) * L, dw = K2 * xm * ym * L;
		sx_close(r.xp(), u + du, 1e-10, "sextupole xp"); sx_close(r.yp(), w + dw, 1e-10, "sextupole yp"); sx_close(r.x(), x + u * L + du * L / 2, 1e-10, "sextupole x"); sx_close(r.y(), y + w * L + dw * L / 2, 1e-10, "sextupole y");
	}
}
SX_HARNESS(skew_force, "short skew quadrupole: deflection compared with the force of its field")
{
	int k = sx_choose("set", 0, 2); double L = 1e-3; SkewQuadrupole s("s", L, 0.5 * brho); PSvector p(0); p.x() = sx_double("x", -1e-3, 1e-3);
	Vector3D F = s.GetField().GetForceAt(Point3D(p.x(), 0, 0), Vector3D(0, 0, 1), 1.0); PSvector r = run(k, s, p); sx_close(r.yp(), F.y / brho * L, 1e-8, "skew quadrupole deflects as its field does");
}
// second order: the exact equations of motion (H = psi - (1 + h x) sqrt((1 + d)^2 - px^2 - py^2)), integrated numerically and differentiated
static void motion(const double* z, double* o, double h, double K) { double x = z[0], px = z[1], y = z[2], py = z[3], d = z[5], w = std::sqrt((1 + d) * (1 + d) - px * px - py * py); o[0] = (1 + h * x) * px / w; o[2] = (1 + h * x) * py / w; o[1] = h * w - (h + (h * h + K) * x + h * K * x * x - h * K * y * y / 2); o[3] = K * y + h * K * x * y; o[4] = 1 - (1 + h * x) * (1 + d) / w; o[5] = 0; }
static void exact(const double* s, double* z, double L, double h, double K, bool slopes)
{
	const int n = 40; for(int i = 0; i < 6; i++) z[i] = s[i]; if(slopes) { z[1] *= 1 + z[5]; z[3] *= 1 + z[5]; } z[0] += h / 2 * z[2] * z[2]; z[3] -= h * z[1] * z[2]; double e = L / n, a[6], b[6], c[6], d[6], t[6];
	for(int i = 0; i < n; i++) { motion(z, a, h, K); for(int k = 0; k < 6; k++) t[k] = z[k] + e / 2 * a[k]; motion(t, b, h, K); for(int k = 0; k < 6; k++) t[k] = z[k] + e / 2 * b[k]; motion(t, c, h, K); for(int k = 0; k < 6; k++) t[k] = z[k] + e * c[k]; motion(t, d, h, K); for(int k = 0; k < 6; k++) z[k] += e / 6 * (a[k] + 2 * b[k] + 2 * c[k] + d[k]); }
	z[0] -= h / 2 * z[2] * z[2]; z[3] += h * z[1] * z[2]; if(slopes) { z[1] /= 1 + z[5]; z[3] /= 1 + z[5]; }
}
// compares the components first..last of the second-order motion of all particles of amplitude 1e-3
static void second(double h, double K, double L, bool slopes, int first, int last, const char* what)
{
	double R[6][6], T[6][6][6], e = 1e-4, o[6], q[6]; for(int a = 0; a < 6; a++) { double z[6] = {}; z[a] = e; exact(z, o, L, h, K, slopes); z[a] = -e; exact(z, q, L, h, K, slopes); for(int i = 0; i < 6; i++) { R[i][a] = (o[i] - q[i]) / (2 * e); T[i][a][a] = (o[i] + q[i]) / (2 * e * e); } }
	for(int a = 0; a < 6; a++) for(int b = 0; b < a; b++) { double s[6] = {}; for(int k = 0; k < 4; k++) { double z[6] = {}; z[a] = k & 1 ? e : -e; z[b] = k & 2 ? e : -e; exact(z, o, L, h, K, slopes); double w = k == 0 || k == 3 ? 1 : -1; for(int i = 0; i < 6; i++) s[i] += w * o[i] / (4 * e * e); } for(int i = 0; i < 6; i++) T[i][a][b] = s[i]; }
	std::unique_ptr<PT> t(tracker(0)); double P = 7000, br = P / 0.299792458; ParticleBunch b(P, 1); PSvector p = part(1e-4); b.AddParticle(PSvector(0)); b.AddParticle(p); t->SetBunch(b); std::unique_ptr<AcceleratorComponent> c;
	if(h != 0) { SectorBend* s = new SectorBend("b", L, h, h * br); if(K) s->SetB1(K * br); c.reset(s); } else c.reset(new Quadrupole("q", L, K * br));
	c->PrepareTracker(*t); t->Track(); PSvector r = *++b.begin();
	for(int i = first; i <= last; i++) { double s = 0; for(int a = 0; a < 6; a++) { s += R[i][a] * p[a]; for(int k = 0; k <= a; k++) s += T[i][a][k] * p[a] * p[k]; } sx_close((r[i] - s) * 1e8, 0, 2e-3, what); }
}
static double curv() { return sx_bool("left") ? -0.2 : 0.3; }
static double grad() { switch(sx_choose("K", 0, 2)) { case 0: return 0.7; case 1: return -0.5; default: return -1.3; } }
SX_HARNESS(bend_second, "bend: second-order map against the exact motion, slopes meaning transverse momenta (TRANSPORT)") { second(curv(), 0, len(), false, 0, 4, "second order of a bend"); }
SX_HARNESS(bend_slopes, "bend: second-order map in slopes (TRANSPORT)") { second(curv(), 0, len(), true, 0, 4, "second order of a bend in slopes"); }
SX_HARNESS(combined_second, "bend with gradient: second-order map against the exact motion (TRANSPORT)") { second(curv(), grad(), len(), true, 0, 3, "second order of a bend with gradient"); }
SX_HARNESS(combined_path, "bend with gradient: second-order path length (TRANSPORT)") { second(curv(), grad(), len(), true, 4, 4, "path length of a bend with gradient"); }
SX_HARNESS(quad_second, "quadrupole: second-order map against the exact motion (TRANSPORT)") { second(0, grad(), len(), true, 0, 4, "second order of a quadrupole"); }
