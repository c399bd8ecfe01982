// P41: closed orbits, dispersion and transfer matrices of rings
//@ time: *=40
#include "hx.h"
#include <memory>
#include <sstream>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "ClosedOrbit.h"
#include "Dispersion.h"
#include "TransferMatrix.h"
#include "StableOrbits.h"
#include "Aperture.h"
#include <list>
using namespace ParticleTracking;
static const double P0 = 10, BR = 10 / 0.299792458, T = 1e-7;
static const double S = 1e-3;
// ring of quadrupole cells with two horizontal and two vertical correctors
static AcceleratorModel* ring(const double* kick, int n = 3, bool thin = false)
{
	AcceleratorModelConstructor c; for(int i = 0; i < n; i++) { c.AppendComponent(new Quadrupole("QF", 0.4, 0.9 * BR)); c.AppendDrift(0.7); if(i < 2) { c.AppendComponent(new XCor("XC", thin ? 0 : 0.2, kick[2 * i] * BR / (thin ? 1 : 0.2))); c.AppendComponent(new YCor("YC", thin ? 0 : 0.1, kick[2 * i + 1] * BR / (thin ? 1 : 0.1))); } c.AppendDrift(0.3); c.AppendComponent(new Quadrupole("QD", 0.4, -0.8 * BR)); c.AppendDrift(1); } return c.GetModel();
}
static PSvector once(AcceleratorModel* m, int n, const PSvector& p) { ParticleBunch b(P0, 1); b.push_back(p); ParticleTracker t(m->GetRing(n), &b, false); t.Run(); return *t.GetTrackedBunch().begin(); }
static double kick(int i) { return (i % 2 ? -1 : 1) * sx_double(sx_n("kick", i).c_str(), 0.01, 1) * S; }
static void kicks(double* k) { int z = sx_choose("used", 0, 3); for(int i = 0; i < 4; i++) k[i] = z == 3 ? (i == 2 ? 0.5 * S : kick(i)) : i == z || i == z + 1 ? kick(i) : 0; }
SX_HARNESS(orbit, "transverse closed orbits: kicks of up to four correctors, any starting element, guess, momentum")
{
	double k[4]; kicks(k); std::unique_ptr<AcceleratorModel> m(ring(k)); int n = 2 * sx_choose("start", 0, 6); ClosedOrbit co(m.get(), P0); co.TransverseOnly(true); co.SetTolerance(-1); co.SetMaxIterations(3); PSvector p(0); p.dp() = 0.001 * sx_choose("dp", -1, 1); p.ct() = 0.01; if(sx_bool("guess")) { p.x() = 0.002; p.yp() = -1e-3; } double dp = p.dp(); co.FindClosedOrbit(p, n); sx_close(p.ct(), 0.01, 1e-12, "ct as given"); sx_close(p.dp(), dp, 1e-12, "momentum as given"); PSvector q = once(m.get(), n, p); for(int i = 0; i < 4; i++) sx_close(q[i] / S, p[i] / S, T, "orbit closes after a turn"); sx_assert(co.iter == 3, "number of iterations");
}
SX_HARNESS(converged, "default tolerance, one corrector: figure of merit below the tolerance, again from the solution; elements added by processes")
{
	double k[4] = {0, 0, 0, 0}; int z = sx_choose("used", 0, 3); k[z] = kick(z); std::unique_ptr<AcceleratorModel> m(ring(k)); ClosedOrbit co(m.get(), P0); co.TransverseOnly(true); if(sx_bool("tolerance")) { co.SetTolerance(1e-16); co.SetDelta(1e-6); } PSvector p(0); co.FindClosedOrbit(p); sx_assert(co.iter < 20, "converged"); PSvector q = once(m.get(), 0, p); for(int i = 0; i < 4; i++) sx_close(q[i] / S, p[i] / S, 1e-5, "orbit closes after a turn"); PSvector r(p); co.FindClosedOrbit(r, 0); for(int i = 0; i < 4; i++) sx_close(r[i] / S, p[i] / S, 1e-5, "found again");
}
SX_HARNESS(rms, "rms orbit along the beamline for any kicks of thick or thin correctors and initial coordinates")
{
	double k[4] = {0, 0, 0, 0}; int z = sx_choose("used", 0, 3); k[z] = kick(z); std::unique_ptr<AcceleratorModel> m(ring(k, 2, sx_bool("thin"))); PSvector p(0); p.x() = S * 0.3; p.yp() = -S * 0.2; p[z % 2 ? 0 : 2] = S * sx_double("x", 0.1, 1); p.dp() = 0.01; PSvector o(p); double s[6] = {0, 0, 0, 0, 0, 0}, L = 0; auto b = m->GetBeamline(); int n = 0; for(auto i = b.begin(); i != b.end(); ++i, ++n) { double l = (*i)->GetComponent().GetLength(); ParticleBunch c(P0, 1); c.push_back(o); ParticleTracker t(m->GetBeamline(n, n), &c, false); t.Run(); PSvector q = *t.GetTrackedBunch().begin(); for(int j = 0; j < 6; j++) s[j] += l * (o[j] + q[j]) * (o[j] + q[j]) / 4; o = q; L += l; }
	ClosedOrbit co(m.get(), P0); co.FindRMSOrbit(p); for(int j = 0; j < 4; j++) { sx_assert(p[j] > -1e-9, "rms is not negative"); sx_close(p[j] * p[j] / S / S, s[j] / L / S / S, T, "rms orbit"); } sx_close(p.dp(), 0.01, T, "rms momentum deviation");
}
SX_HARNESS(matrices, "transfer matrices around any orbit: columns are the changes for a change of each coordinate")
{
	double k[4] = {1e-3, 2e-3, 0, 0}; std::unique_ptr<AcceleratorModel> m(ring(k, 2)); PSvector o(0); for(int i = 0; i < 4; i++) o[i] = S * sx_double(sx_n("o", i).c_str(), -1, 1); o.dp() = 0.01 * sx_choose("dp", -1, 1); TransferMatrix tm(m.get(), P0); double d = 1e-6; tm.SetDelta(d); RealMatrix M(6); int n1 = 0, n2 = -1; PSvector keep(o); if(sx_bool("part")) { n1 = sx_choose("from", 0, 3); n2 = n1 + sx_choose("more", 0, 6); tm.FindTM(M, o, n1, n2); } else { n1 = sx_choose("start", 0, 11); tm.SetObservationPoint(n1); tm.FindTM(M, o); }
	for(int i = 0; i < 6; i++) sx_close(o[i], keep[i], 1e-15, "orbit given is kept"); ParticleBunch b(P0, 1); for(int j = 0; j < 7; j++) { PSvector q(o); if(j) q[j - 1] += 0.5 * d; b.push_back(q); } PSvector out[7]; if(n2 < 0) { ParticleTracker t(m->GetRing(n1), &b, false); t.Run(); for(int j = 0; j < 7; j++) out[j] = t.GetTrackedBunch().GetParticles()[j]; } else { ParticleTracker t(m->GetBeamline(n1, n2), &b, false); t.Run(); for(int j = 0; j < 7; j++) out[j] = t.GetTrackedBunch().GetParticles()[j]; }
	for(int j = 0; j < 6; j++) for(int i = 0; i < 6; i++) sx_close(M(i, j), (out[j + 1][i] - out[0][i]) / (0.5 * d), 1e-4, "matrix element");
}
SX_HARNESS(dispersion, "dispersion from any kicks at any starting element: a particle on the dispersion orbit returns to it")
{
	double k[4]; kicks(k); std::unique_ptr<AcceleratorModel> m(ring(k)); int n = 3 * sx_choose("start", 0, 4); Dispersion D(m.get(), P0); double d = sx_bool("step") ? 1e-5 : 1e-6; D.SetDelta(d); sx_close(D.SetDelta(d), d, 1e-15, "previous step"); D.FindDispersion(n); PSvector p[2]; for(int u = 0; u < 2; u++) { ClosedOrbit co(m.get(), P0); co.TransverseOnly(true); co.SetTolerance(-1); co.SetMaxIterations(3); p[u] = PSvector(0); p[u].dp() = u ? 2e-5 : -2e-5; co.FindClosedOrbit(p[u], n); } sx_close(D.Dx / S, (p[1].x() - p[0].x()) / 4e-5 / S, 1e-5, "horizontal dispersion"); sx_close(D.Dxp / S, (p[1].xp() - p[0].xp()) / 4e-5 / S, 1e-5, "horizontal dispersion"); sx_close(D.Dy / S, (p[1].y() - p[0].y()) / 4e-5 / S, 1e-5, "vertical dispersion"); sx_close(D.Dyp / S, (p[1].yp() - p[0].yp()) / 4e-5 / S, 1e-5, "vertical dispersion");
}
SX_HARNESS(rmsdispersion, "rms dispersion along the ring from the dispersion at all elements")
{
	double k[4] = {0, 0, 0, 0}; int z = sx_choose("used", 0, 3); k[z] = kick(z); std::unique_ptr<AcceleratorModel> m(ring(k, 2)); Dispersion D(m.get(), P0); D.SetDelta(1e-6); D.FindRMSDispersion(); auto b = m->GetBeamline(); double sx = 0, sy = 0, L = 0, px = 0, py = 0; int n = 0; std::vector<double> X, Y, l; for(auto i = b.begin(); i != b.end(); ++i, ++n) { D.FindDispersion(n); X.push_back(D.Dx); Y.push_back(D.Dy); l.push_back((*i)->GetComponent().GetLength()); } X.push_back(X[0]); Y.push_back(Y[0]); for(size_t i = 0; i < l.size(); i++) { sx += l[i] * (X[i] * X[i] + X[i + 1] * X[i + 1]) / 2; sy += l[i] * (Y[i] * Y[i] + Y[i + 1] * Y[i + 1]) / 2; L += l[i]; } (void) px; (void) py; sx_close(D.DxRMS * D.DxRMS / S / S, sx / L / S / S, 1e-4, "rms horizontal dispersion"); sx_close(D.DyRMS * D.DyRMS / S / S, sy / L / S / S, 1e-4, "rms vertical dispersion");
}
SX_HARNESS(stable, "stable orbits: particles within the aperture in all turns, one to three turns, any starting element")
{
	double k[4] = {0, 0, 0, 0}; std::unique_ptr<AcceleratorModel> m; { AcceleratorModelConstructor c; for(int i = 0; i < 2; i++) { c.AppendComponent(new Quadrupole("QF", 0.4, 0.9 * BR)); Drift* d = new Drift("D", 1); if(i) d->SetAperture(new RectangularAperture(1, 0.5)); c.AppendComponent(d); c.AppendComponent(new Quadrupole("QD", 0.4, -0.8 * BR)); c.AppendDrift(1); } m.reset(c.GetModel()); } (void) k;
	bool horizontal = sx_bool("horizontal"); int n0 = 3 * sx_choose("start", 0, 2), turns = sx_choose("turns", 1, 3); StableOrbits so(m.get()); sx_assert(so.SetTurns(turns) == 1, "one turn by default"); sx_assert(so.SetObservationPoint(n0) == 0, "first element by default"); ParticleBunch b(P0, 1); PSvector p[3]; for(int i = 0; i < 3; i++) { p[i] = PSvector(0); p[i].x() = i == 1 ? 0.1 : i == 2 ? 0.3 : horizontal ? sx_double("x", -2, 2) : 0.2; p[i].y() = i == 2 ? 2 : i == 1 ? horizontal ? -0.1 : sx_double("y", -1, 1) : 0; b.push_back(p[i]); } b.push_back(PSvector(0));
	bool in[3] = {true, true, true}; bool skip = false; for(int i = 0; i < 3; i++) { PSvector q(p[i]); for(int t = 0; t < turns; t++) for(int e = 0; e < 8; e++) { int n = (n0 + e) % 8; if(n == 5) { double x = q.x() + 0.5 * q.xp(), y = q.y() + 0.5 * q.yp(); skip |= within(x - 1, 1e-5) | within(x + 1, 1e-5) | within(y - 0.5, 1e-5) | within(y + 0.5, 1e-5); in[i] = in[i] & within(x, 1) & within(y, 0.5); } ParticleBunch c(P0, 1); c.push_back(q); ParticleTracker tr(m->GetBeamline(n, n), &c, false); tr.Run(); q = *tr.GetTrackedBunch().begin(); } } sx_assume(!skip);
	std::list<size_t> idx; std::ostringstream quiet; std::streambuf* old = std::cout.rdbuf(quiet.rdbuf()); so.SelectStable(b, &idx); std::cout.rdbuf(old); bool has[4] = {false, false, false, false}; size_t last = 0; for(size_t i : idx) { sx_assert(i < 4 && i >= last, "indices in order"); has[i] = true; last = i; } for(int i = 0; i < 3; i++) { sx_implies(in[i], has[i], "stable particles are listed"); sx_implies(!in[i], !has[i], "lost particles are not listed"); } sx_assert(has[3], "the reference particle is stable"); sx_assert(b.size() == 4, "bunch given is kept");
}
