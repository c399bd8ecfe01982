// P42: lattice functions and phase advance
//@ time: *=60
#include "hx.h"
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "LatticeFunctions.h"
#include "PhaseAdvance.h"
#include "TransferMatrix.h"
using namespace ParticleTracking;
static const double P0 = 10, BR = 10 / 0.299792458, T = 1e-6;
struct NoFiles { int d; NoFiles() { d = open(".", O_RDONLY); if(chdir("/proc")) { } } ~NoFiles() { if(fchdir(d)) { } close(d); } };
static RealMatrix twiss(double bx, double ax, double by, double ay, double mx, double my)
{
	RealMatrix M(6, 6, 0.0); for(int k = 0; k < 2; k++) { double b = k ? by : bx, a = k ? ay : ax, m = 2 * M_PI * (k ? my : mx); M(2 * k, 2 * k) = std::cos(m) + a * std::sin(m); M(2 * k, 2 * k + 1) = b * std::sin(m); M(2 * k + 1, 2 * k) = -(1 + a * a) / b * std::sin(m); M(2 * k + 1, 2 * k + 1) = std::cos(m) - a * std::sin(m); } M(4, 4) = M(5, 5) = 1; return M;
}
SX_HARNESS(optics, "orbit, beta, alpha, phase along a line with a thin sextupole, any orbit and initial optics")
{
	NoFiles nf; int place = sx_choose("place", 0, 3); int kc = sx_choose("ks", 0, 2); double ks = kc == 2 ? 0 : kc ? -3 : 1.2; AcceleratorModelConstructor c; int n = 0; auto sx = [&](int i) { if(place == i) { c.AppendComponent(new Sextupole("SX", 0, ks * BR)); n++; } }; c.AppendComponent(new Quadrupole("QF", 0.4, 0.9 * BR)); c.AppendDrift(1); c.AppendComponent(new Quadrupole("QD", 0.4, -0.8 * BR)); n = 3; sx(0); c.AppendDrift(0.7); n++; sx(1); c.AppendComponent(new Quadrupole("QF", 0.2, 0.7 * BR)); n++; sx(2); c.AppendDrift(0.5); n++; sx(3); std::unique_ptr<AcceleratorModel> m(c.GetModel());
	int z = sx_choose("twiss", 0, 2); double bx = z == 0 ? 3 : z == 1 ? 1.5 : 8, ax = z == 0 ? 0 : z == 1 ? -1.2 : 0.7, by = z == 0 ? 2 : z == 1 ? 5 : 0.8, ay = z == 0 ? 0 : z == 1 ? 0.4 : -0.3; RealMatrix M = twiss(bx, ax, by, ay, 0.21, 0.36); PSvector p(0); p.x() = (sx_bool("left") ? -1e-3 : 1e-3) * (place < 2 && ks ? 0.4 : sx_double("x", 0.2, 1)); p.ct() = 0.1 * sx_double("ct", -1, 1); p.yp() = 2e-4;
	LatticeFunctionTable t(m.get(), P0); t.RemoveAllFunctions(); for(int i = 1; i < 7; i++) t.AddFunction(i, 0, 0); t.AddFunction(1, 1, 1); t.AddFunction(1, 2, 1); t.AddFunction(2, 2, 1); t.AddFunction(3, 3, 2); t.AddFunction(3, 4, 2); t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2); double d = 1e-7; t.SetDelta(d); t.Calculate(&p, &M); sx_assert(t.NumberOfRows() == n + 1, "a row for each element and the end");
	double s = 0; PSvector q[5]; for(int j = 0; j < 5; j++) { q[j] = p; if(j) q[j][j - 1] += d; } auto b = m->GetBeamline(); auto e = b.begin(); for(int i = 0; i <= n; i++)
	{
		sx_close(t.Value(0, 0, 0, i), s, 1e-12, "path length"); for(int j = 0; j < 6; j++) sx_close(t.Value(j + 1, 0, 0, i) * 1e3, q[0][j] * 1e3, T, "orbit"); double R[4][4]; for(int u = 0; u < 4; u++) for(int v = 0; v < 4; v++) R[u][v] = (q[v + 1][u] - q[0][u]) / d;
		auto sig = [&](int u, int v, int k) { double bb = k ? by : bx, aa = k ? ay : ax; int o = 2 * k; return R[u][o] * R[v][o] * bb - (R[u][o] * R[v][o + 1] + R[u][o + 1] * R[v][o]) * aa + R[u][o + 1] * R[v][o + 1] * (1 + aa * aa) / bb; };
		sx_close(t.Value(1, 1, 1, i), sig(0, 0, 0), T, "horizontal beta"); sx_close(t.Value(1, 2, 1, i), sig(0, 1, 0), T, "horizontal alpha"); sx_close(t.Value(2, 2, 1, i), sig(1, 1, 0), T, "horizontal gamma"); sx_close(t.Value(3, 3, 2, i), sig(2, 2, 1), T, "vertical beta"); sx_close(t.Value(3, 4, 2, i), sig(2, 3, 1), T, "vertical alpha");
		if(i < n) { ParticleBunch pb(P0, 1); for(int j = 0; j < 5; j++) pb.push_back(q[j]); ParticleTracker tr(m->GetBeamline(i, i), &pb, false); tr.Run(); for(int j = 0; j < 5; j++) q[j] = tr.GetTrackedBunch().GetParticles()[j]; s += (*e)->GetComponent().GetLength(); ++e; }
	}
}
SX_HARNESS(phase, "phase advances between all elements of a line with a drift of any length")
{
	NoFiles nf; int cells = 3 + sx_choose("cells", 0, 4), place = sx_choose("place", 0, 2); double L = place == 2 ? 0.9 : 0.2 + 0.15 * sx_choose("interval", 0, 7) + sx_double("length", 0, 0.15); AcceleratorModelConstructor c; int n = 0; for(int i = 0; i < cells; i++) { c.AppendComponent(new Quadrupole("QF", 0.4, 2.4 * BR)); c.AppendDrift(1); c.AppendComponent(new Quadrupole("QD", 0.4, -2.3 * BR)); if(i == cells - 1) { if(place != 1) c.AppendComponent(new Drift("L", L)); else { c.AppendDrift(0.5); n++; c.AppendComponent(new Drift("L", L)); } if(place == 2) { c.AppendComponent(new Quadrupole("QX", 0.1, 0.4 * BR)); n++; } } else c.AppendDrift(1); n += 4; } std::unique_ptr<AcceleratorModel> m(c.GetModel());
	int z = sx_choose("twiss", 0, 1); double b0[2] = {z == 0 ? 3 : z == 1 ? 1.5 : 8., z == 0 ? 2 : z == 1 ? 5 : 0.8}, a0[2] = {z == 0 ? 0 : z == 1 ? -1.2 : 0.7, z == 0 ? 0 : z == 1 ? 0.4 : -0.3}; RealMatrix M = twiss(b0[0], a0[0], b0[1], a0[1], 0.21, 0.36); PSvector p(0); p.y() = 1e-4; LatticeFunctionTable t(m.get(), P0); t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2); t.RemoveAllFunctions(); t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2); t.AddFunction(1, 1, 1); t.AddFunction(3, 3, 2); t.AddFunction(1, 2, 1); t.AddFunction(3, 4, 2); t.SetDelta(1e-6); t.Calculate(&p, &M); PhaseAdvance pa(m.get(), &t, P0);
	for(int k = 0; k < 2; k++) { double sum = 0; std::vector<double> at(1, 0.); for(int i = 0; i < n; i++) { ParticleBunch b(P0, 1); PSvector q(p); b.push_back(q); q[2 * k] += 1e-6; b.push_back(q); q = p; q[2 * k + 1] += 1e-6; b.push_back(q); ParticleTracker tr(m->GetBeamline(i, i), &b, false); tr.Run(); const PSvectorArray& v = tr.GetTrackedBunch().GetParticles(); double R11 = (v[1][2 * k] - v[0][2 * k]) / 1e-6, R12 = (v[2][2 * k] - v[0][2 * k]) / 1e-6; int c1 = 2 * k + 1; double b1 = t.Value(c1, c1, k + 1, i), al1 = -t.Value(c1, c1 + 1, k + 1, i), b2 = t.Value(c1, c1, k + 1, i + 1); double d = pa.PhaseAdvanceBetween(i, i + 1, k == 0); sx_assert(d > -0.4, "the phase advances"); sx_assert(d < 1, "by less than half a turn"); double g = std::sqrt(b1) * std::sqrt(b2); sx_close(g * std::sin(2 * M_PI * d), R12, T, "phase advance over an element: sine"); sx_close(g * std::cos(2 * M_PI * d), R11 * b1 - R12 * al1, T, "phase advance over an element: cosine"); sum += d; at.push_back(sum); double f = t.Value(0, 0, k + 1, i + 1); sx_assert(f > -1e-6, "fraction of a turn"); sx_assert(f < 1, "fraction of a turn"); }
		for(int i = 0; i <= n; i++) for(int j = i; j <= n; j++) { sx_close(k ? pa.GetPhaseAdvanceY(j, i) : pa.GetPhaseAdvanceX(j, i), at[j] - at[i], T, "phase advance between two elements"); if(i == 0) sx_close(pa.PhaseAdvanceBetween(j, k == 0), at[j], T, "phase advance from the start"); } sx_close(pa.PhaseAdvanceBetween("QF", "L", k == 0), at[n - 1 - (place == 2)], T, "phase advance between named elements"); sx_close(pa.PhaseAdvanceBetween("L", k == 0), at[n - 1 - (place == 2)], T, "phase advance to a named element"); }
}
SX_HARNESS(averages, "mean, rms and position of rows for lines of drifts of any lengths and any orbit")
{
	NoFiles nf; int z = 2 * sx_choose("any", 0, 1); double l[4], s[5] = {0}, x[5], S = 1e-3; AcceleratorModelConstructor c; for(int i = 0; i < 4; i++) { l[i] = i == 1 ? 0.5 : i == z ? sx_double(sx_n("l", i).c_str(), 0.1, 2) : 0.7 + 0.2 * i; s[i + 1] = s[i] + l[i]; c.AppendComponent(new Drift("D", l[i])); } std::unique_ptr<AcceleratorModel> m(c.GetModel()); PSvector p(0); p.x() = S * sx_double("x", -1, 1); p.xp() = S * (sx_bool("slope") ? 1 : -0.4); for(int i = 0; i < 5; i++) x[i] = p.x() + s[i] * p.xp();
	LatticeFunctionTable t(m.get(), P0); bool all = sx_bool("all"); if(all) { t.RemoveAllFunctions(); t.AddFunction(1, 0, 0); t.AddFunction(1, 1, 1); } else t.UseOrbitFunctions(); RealMatrix M = twiss(3, 0, 2, 0, 0.21, 0.36); t.Calculate(&p, &M); int rows = all ? 5 : 4; sx_assert(t.NumberOfRows() == rows, "number of rows"); int r, cl; t.Size(r, cl); sx_assert(r == rows && cl == (all ? 3 : 5), "size of the table"); int n1 = sx_choose("n1", -1, 3), n2 = sx_choose("n2", -1, 5); int a = n1 < 0 ? 0 : n1, b = n2 < a || n2 >= rows ? rows - 1 : n2; if(b == a) return;
	double su = 0, sq = 0; for(int i = a; i < b; i++) { su += l[i] * (x[i] + x[i + 1]) / 2; sq += l[i] * (x[i] * x[i] + x[i + 1] * x[i + 1]) / 2; } double L = s[b] - s[a]; sx_close(t.Mean(1, 0, 0, n1, n2) / S * L, su / S, T, "mean"); double q = t.RMS(1, 0, 0, n1, n2) / S; sx_assert(q > -1e-9, "rms is not negative"); sx_close(q * q * L, sq / S / S, T, "rms");
}
SX_HARNESS(positions, "rows found by any position")
{
	NoFiles nf; double s[5] = {0}; AcceleratorModelConstructor c; for(int i = 0; i < 4; i++) { double l = i == 1 ? 0 : sx_double(sx_n("l", i).c_str(), 0.1, 2); s[i + 1] = s[i] + l; c.AppendComponent(new Drift("D", l)); } std::unique_ptr<AcceleratorModel> m(c.GetModel()); PSvector p(0); LatticeFunctionTable t(m.get(), P0); t.UseOrbitFunctions(); t.Calculate(&p); int at = sx_choose("at", -1, 3); double z = at < 0 ? sx_double("s", -1, 8) : s[at]; if(at < 0) for(int i = 0; i < 4; i++) sx_assume(!within(z - s[i], 1e-6)); int n = t.GetSPosIndex(z); int w = -1; for(int i = 3; i >= 0; i--) if(s[i] >= z) w = i; sx_assert(n == w, "first row at or behind the position");
}
SX_HARNESS(dispersion, "dispersion of rings from the longitudinal functions for any arrival time")
{
	NoFiles nf; AcceleratorModelConstructor c; double h = sx_bool("weak") ? 0.05 : 0.1; int n = 0; for(int i = 0; i < 2; i++) { c.AppendComponent(new Quadrupole("QF", 0.4, 1.2 * BR)); c.AppendComponent(new SectorBend("B", 1, h, h * BR)); c.AppendComponent(new Quadrupole("QD", 0.4, -1.1 * BR)); c.AppendDrift(0.8); n += 4; } std::unique_ptr<AcceleratorModel> m(c.GetModel()); RealMatrix M(6); PSvector o(0); { TransferMatrix tm(m.get(), P0); tm.SetDelta(1e-8); tm.FindTM(M, o); } PSvector p(0); p.ct() = sx_double("ct", -1, 1);
	LatticeFunctionTable t(m.get(), P0); t.SetForceLongitudinalStability(); if(sx_bool("default")) t.AddFunction(1, 1, 3); t.Calculate(&p, &M); sx_assert(t.NumberOfRows() == n + 1, "rows"); double d = 1e-8, D0 = t.Value(1, 6, 3, 0) / t.Value(6, 6, 3, 0), D1 = t.Value(2, 6, 3, 0) / t.Value(6, 6, 3, 0); PSvector q[2]; q[0] = q[1] = p; q[1].x() += d * D0; q[1].xp() += d * D1; q[1].dp() += d;
	for(int i = 0; i <= n; i++) { double w = t.Value(6, 6, 3, i); sx_close(t.Value(1, 6, 3, i) / w, (q[1].x() - q[0].x()) / d, 1e-4, "dispersion"); sx_close(t.Value(2, 6, 3, i) / w, (q[1].xp() - q[0].xp()) / d, 1e-4, "slope of the dispersion"); sx_close(t.Value(3, 6, 3, i) / w, (q[1].y() - q[0].y()) / d, 1e-4, "vertical dispersion"); if(i < n) { ParticleBunch pb(P0, 1); for(auto& u : q) pb.push_back(u); ParticleTracker tr(m->GetBeamline(i, i), &pb, false); tr.Run(); for(int j = 0; j < 2; j++) q[j] = tr.GetTrackedBunch().GetParticles()[j]; } } sx_close(t.Value(1, 6, 3, n) / t.Value(6, 6, 3, n), D0, 1e-4, "periodic dispersion"); sx_assert(D0 > 0.01, "there is dispersion");
}
