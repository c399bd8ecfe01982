// P11: content, charge, order and generation of particle bunches
//@ time: *=25
#include "hx.h"
#include <vector>
#include "ParticleBunch.h"
#include "ParticleDistributionGenerator.h"
#include "BeamData.h"
#include "BunchFilter.h"
#include "Transform3D.h"
#include "PSvectorTransform3D.h"
using namespace ParticleTracking;
static const char* nm[6] = {"x", "xp", "y", "yp", "ct", "dp"};
static std::string S(const char* s, int i) { return std::string(s) + std::to_string(i); }
static bool eq(const PSvector& a, const PSvector& b) { bool r = a.id() == b.id(); for(int i = 0; i < 6; i++) r &= a[i] == b[i]; return r; }
static PSvector sym(int i, double a = 2) { PSvector p(0); for(int j = 0; j < 6; j++) p[j] = sx_double(S(nm[j], i).c_str(), -a, a); p.id() = 10 + i; return p; }
static double absd(double x) { return std::sqrt(x * x); }
SX_HARNESS(charge, "total charge and charge sign for every way of making a bunch")
{
	int way = sx_choose("way", 0, 2), n = sx_choose("n", 1, 4); double Q = sx_double("Q", -1e3, 1e3), e = 0, sgn = 0; sx_assume(beyond(Q, 1e-3)); PSvectorArray a; for(int i = 0; i < n; i++) a.push_back(sym(i));
	PSvectorArray keep = a; ParticleBunch b(10, 1);
	if(way == 0) { ParticleBunch c(5, Q, a); sx_assert(a.empty(), "the given array is emptied"); b = c; e = Q; sgn = Q; sx_close(b.GetReferenceMomentum(), 5, 0, "reference momentum"); sx_close(b.GetReferenceTime(), 0, 0, "reference time"); }
	else if(way == 1) { ParticleBunch c(5, Q); for(auto& p : a) c.push_back(p); b = c; e = Q * n; sgn = Q; }
	else { for(auto& p : a) b.AddParticle(p); b.SetMacroParticleCharge(Q); e = Q * n; sgn = Q; }
	sx_close(b.GetTotalCharge(), e, 1e-9, "total charge"); sx_assert(b.GetChargeSign() * sgn > 0, "charge sign"); sx_assert(absd(b.GetChargeSign()) == 1, "charge sign is one"); sx_assert(b.size() == (size_t) n, "number of particles");
	int i = 0; for(auto& p : b) { sx_assert(eq(p, keep[i]), "particles in the order given"); i++; }
	if(n > 1) { b.erase(b.begin() + 1); sx_close(b.GetTotalCharge(), e / n * (n - 1), 1e-9, "charge after a loss"); }
	b.clear(); sx_assert(b.size() == 0, "cleared bunch is empty"); sx_close(b.GetTotalCharge(), 0, 0, "cleared bunch has no charge");
}
SX_HARNESS(content, "adding, removing, swapping")
{
	int n = sx_choose("n", 2, 4), k = sx_choose("k", 0, n - 1); ParticleBunch b(10, 1); std::vector<PSvector> o; for(int i = 0; i < n; i++) { o.push_back(sym(i)); size_t s = b.AddParticle(o[i]); sx_assert(s == (size_t) i + 1, "AddParticle returns the number of particles"); }
	sx_assert(eq(b.FirstParticle(), o[0]), "first particle"); auto it = b.erase(b.begin() + k); sx_assert(it == b.begin() + k, "iterator to the next particle");
	o.erase(o.begin() + k); sx_assert(b.size() == o.size(), "one particle less"); for(size_t i = 0; i < o.size(); i++) sx_assert(eq(b.GetParticles()[i], o[i]), "the others keep order");
	ParticleBunch c(3, -2); PSvector q = sym(7); c.AddParticle(q); c.swap(b); sx_assert(c.size() == o.size(), "swap takes the particles"); for(size_t i = 0; i < o.size(); i++) sx_assert(eq(c.GetParticles()[i], o[i]), "swap takes the particles in order");
	sx_close(c.GetReferenceMomentum(), 3, 0, "swap leaves the reference momentum"); sx_close(c.GetTotalCharge(), -2.0 * o.size(), 0, "swap leaves the charge per particle");
}
SX_HARNESS(sort, "SortByCT orders by arrival and loses nothing")
{
	int n = sx_choose("n", 1, 4); ParticleBunch b(10, 1); std::vector<PSvector> o; for(int i = 0; i < n; i++) { PSvector p(0.1 * i); p.ct() = sx_double(S("ct", i).c_str(), -2, 2); p.id() = i; o.push_back(p); b.AddParticle(p); }
	b.SortByCT(); sx_assert(b.size() == (size_t) n, "particles are kept"); std::vector<int> seen(n, 0);
	const auto& a = b.GetParticles(); for(int i = 0; i < n; i++) { if(i) sx_assert(a[i - 1].ct() <= a[i].ct(), "ascending ct"); int id = a[i].id(); sx_assert(id >= 0 && id < n, "identity"); sx_assert(eq(a[i], o[id]), "particle unchanged"); seen[id]++; }
	for(int i = 0; i < n; i++) sx_assert(seen[i] == 1, "every particle exactly once");
}
SX_HARNESS(arith, "phase space vector arithmetic")
{
	PSvector a = sym(0), b = sym(1); double k = sx_double("k", -3, 3), d = sx_bool("neg") ? -0.7 : 2.5; PSvector s = a + b, t = a - b, u(a), v(a), w(a), z(a), m(a); u += b; v -= b; w *= k; z /= d; m.zero();
	for(int i = 0; i < 6; i++) { sx_close(s[i], a[i] + b[i], 1e-12, "sum"); sx_close(t[i], a[i] - b[i], 1e-12, "difference"); sx_close(u[i], a[i] + b[i], 1e-12, "in-place sum"); sx_close(v[i], a[i] - b[i], 1e-12, "in-place difference"); sx_close(w[i], k * a[i], 1e-12, "product"); sx_close(z[i], a[i] / d, 1e-9, "quotient"); sx_close(m[i], 0, 0, "zeroed"); }
	sx_assert(s.id() == 10 && u.id() == 10 && w.id() == 10, "identity of the left operand"); sx_close(PSvector(k)[3], k, 0, "constant vector");
	double c[6] = {a.x(), a.xp(), a.y(), a.yp(), a.ct(), a.dp()}; static const int at[6] = {ps_X, ps_XP, ps_Y, ps_YP, ps_CT, ps_DP}; for(int i = 0; i < 6; i++) sx_close(c[i], a[at[i]], 0, "named coordinate");
	RealVector r = a; sx_assert(r.size() == 6, "vector length"); for(int i = 0; i < 6; i++) sx_close(r(i), a[i], 0, "as a vector");
}
struct Gen : ParticleDistributionGenerator { mutable std::vector<PSvector> q; mutable size_t i = 0; virtual PSvector GenerateFromDistribution() const override { return q[i++ % q.size()]; } };
struct Filt : ParticleBunchFilter { mutable std::vector<PSvector> seen; unsigned mask = 0; virtual bool Apply(const PSvector& v) const override { seen.push_back(v); return mask >> (seen.size() - 1) & 1; } };
static BeamData beam(int k)
{
	static const double v[4][18] = {
		{1, 1, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {4, 9, 0.5, -1.5, 0.25, 2.25, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
		{4, 0.25, -0.5, 2, 0.01, 0.04, 0.3, 0.2, 0.1, -0.2, 0.3, 0.4, -0.5, 0.5, 0.25, 1.5, -0.5, 0}, {1, 4, 0, 0.75, 0.16, 0.0625, 0.02, 4, 1, 2, 3, 4, 5, 0, 0, 0, 2, 0}};
	const double* w = v[k]; BeamData b; b.beta_x = w[0]; b.beta_y = w[1]; b.alpha_x = w[2]; b.alpha_y = w[3]; b.emit_x = w[4]; b.emit_y = w[5]; b.sig_dp = w[6]; b.sig_z = w[7]; b.x0 = w[8]; b.xp0 = w[9]; b.y0 = w[10]; b.yp0 = w[11]; b.ct0 = w[12]; b.Dx = w[13]; b.Dxp = w[14]; b.Dy = w[15]; b.Dyp = w[16]; b.p0 = 12; b.charge = k == 1 ? -3 : 2;
	return b;
}
// the normalised distribution scaled to the beam's size, matched to its Twiss functions and dispersion, about its centroid
static PSvector matched(const BeamData& t, const PSvector& g)
{
	PSvector p(0); double ex = std::sqrt(t.emit_x), ey = std::sqrt(t.emit_y), bx = std::sqrt(t.beta_x), by = std::sqrt(t.beta_y), d = g.dp() * t.sig_dp;
	p.x() = t.x0 + ex * bx * g.x() + t.Dx * d; p.xp() = t.xp0 + ex / bx * (g.xp() - t.alpha_x * g.x()) + t.Dxp * d;
	p.y() = t.y0 + ey * by * g.y() + t.Dy * d; p.yp() = t.yp0 + ey / by * (g.yp() - t.alpha_y * g.y()) + t.Dyp * d; p.ct() = t.ct0 + t.sig_z * g.ct(); p.dp() = d; return p;
}
static void closeto(const PSvector& a, const PSvector& b, const char* w) { for(int i = 0; i < 6; i++) sx_close(a[i], b[i], 1e-9, (std::string(w) + ": " + nm[i]).c_str()); }
SX_HARNESS(generated, "bunch generated from a distribution: first particle is the centroid, the others are matched to the beam")
{
	BeamData t = beam(sx_choose("beam", 0, 3)); int n = sx_choose("n", 1, 3); Gen g; for(int i = 0; i < 3; i++) g.q.push_back(sym(i, 3)); ParticleBunch b(n, g, t);
	sx_assert(b.size() == (size_t) n, "number of particles"); sx_close(b.GetReferenceMomentum(), 12, 0, "reference momentum"); sx_close(b.GetTotalCharge(), t.charge, 1e-9, "charge"); sx_assert(b.GetChargeSign() * t.charge > 0, "charge sign");
	closeto(b.FirstParticle(), matched(t, PSvector(0)), "first particle is the centroid"); for(int i = 0; i < n; i++) { sx_assert(b.GetParticles()[i].id() == i, "identities count up"); if(i) closeto(b.GetParticles()[i], matched(t, g.q[i - 1]), "generated particle"); }
}
SX_HARNESS(filtered, "filters see the particles as generated and reject those they do not accept")
{
	BeamData t = beam(sx_choose("beam", 1, 2)); unsigned acc = sx_choose("accept", 0, 7); Gen g; for(int i = 0; i < 5; i++) g.q.push_back(sym(i, 3)); Filt f; f.mask = acc | 0x18; int n = 3; ParticleBunch b(n, g, t, &f);
	sx_assert(b.size() == (size_t) n, "number of particles"); closeto(b.FirstParticle(), matched(t, PSvector(0)), "first particle is the centroid"); int k = 1, i = 0;
	for(; k < n; i++) if(f.mask >> i & 1) { closeto(b.GetParticles()[k], matched(t, g.q[i]), "accepted particle"); sx_assert(b.GetParticles()[k].id() == k, "identities count up"); k++; }
	sx_assert(f.seen.size() == (size_t) i, "every particle is shown to the filter once"); for(int j = 0; j < i; j++) closeto(f.seen[j], matched(t, g.q[j]), "particle shown to the filter");
}
SX_HARNESS(halo, "halo filters accept what lies beyond their limit")
{
	PSvector p = sym(0, 3); double lim = sx_double("lim", 0, 2), orb = sx_double("orbit", -1, 1);
	HorizontalHaloParticleBunchFilter h; h.SetHorizontalLimit(lim); h.SetHorizontalOrbit(orb); bool in = within(p.x() - orb, lim), out = beyond(p.x() - orb, lim + 1e-9); bool a = h.Apply(p); sx_implies(in, !a, "inside the horizontal limit is accepted"); sx_implies(out & (p.x() != 0) & (p.xp() != 0), a, "outside the horizontal limit is rejected");
	VerticalHaloParticleBunchFilter v; v.SetVerticalLimit(lim); a = v.Apply(p); sx_implies(within(p.y(), lim), !a, "inside the vertical limit is accepted"); sx_implies(beyond(p.y(), lim), a, "outside the vertical limit is rejected");
}
SX_HARNESS(transformed, "a frame change of the bunch is that of every particle")
{
	Transform3D T(Point3D(sx_double("dx", -1, 1), 0.2, sx_double("dz", -1, 1)), sx_bool("rot") ? Rotation3D::rotationZ(0.4) : Rotation3D::identity()); int n = sx_choose("n", 1, 3); ParticleBunch b(10, 1); std::vector<PSvector> o; for(int i = 0; i < n; i++) { o.push_back(sym(i, 0.1)); b.AddParticle(o[i]); }
	sx_assert(b.ApplyTransformation(T), "supported"); for(int i = 0; i < n; i++) { PSvector p(o[i]); PSvectorTransform3D(T).Apply(p); closeto(b.GetParticles()[i], p, "transformed particle"); }
	ParticleBunch c(10, 1); c.AddParticle(o[0]); c.ApplyTransformation(Transform3D()); sx_assert(eq(c.FirstParticle(), o[0]), "identity changes nothing");
}
