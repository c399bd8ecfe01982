// P34: wakefields of collimators, couplers and on slices
//@ time: *=50
#include "hx.h"
#include <memory>
#include <vector>
#include <complex>
#include <algorithm>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "WakePotentials.h"
#include "WakeFieldProcess.h"
#include "CollimatorWakePotentials.h"
#include "CollimatorWakeProcess.h"
#include "CombinedWakeRF.h"
#include "CouplerWakeFieldProcess.h"
#include "SMPBunch.h"
#include "SMPWakeFieldProcess.h"
#include "TWRFStructure.h"
using namespace ParticleTracking; using SMPTracking::SliceMacroParticle;
static const double T = 1e-7, E = 1.602176487e-19 * 1e-9, C = 299792458.;
typedef std::vector<PSvector> Bunch_;
struct Set { int n, nb; double ns; double ct[8]; };
static const Set sets[] = { {3, 3, 1.5, {-1.1e-3, 0.9e-3, 0.2e-3}}, {4, 2, 2, {1e-3, -2e-3, 1.7e-3, 0.6e-3}}, {5, 4, 3, {0, 1e-4, -3e-4, 2e-4, 1.5e-4}}, {4, 6, 1.8, {-4e-4, 1e-4, 5e-4, 0.2e-4}}, {4, 3, 1.2, {1e-3, -2e-3, 1.7e-3, 0.6e-3}} };
static Bunch_ rays(const Set& s, int shape) { Bunch_ b; for(int i = 0; i < s.n; i++) { double sg = i % 2 ? -1 : 1; PSvector p(0); p.x() = 1e-3 * (shape == 1 ? 0 : sg * (i + 1)); p.xp() = 1e-4 * (2 - i); p.y() = shape == 2 ? 0 : 1e-3 * (2 - 1.3 * i); p.yp() = 3e-4 * i; p.dp() = 1e-3 * (i - 1); p.ct() = s.ct[i]; b.push_back(p); } return b; }
struct Cut { double z0, dz; std::vector<int> at; Bunch_ p; };
static Cut cut(Bunch_ p, int nb, double ns) { double m = 0, v = 0; std::sort(p.begin(), p.end(), [](const PSvector& a, const PSvector& b) { return a.ct() < b.ct(); }); for(auto& x : p) m += x.ct() / p.size(); for(auto& x : p) v += (x.ct() - m) * (x.ct() - m) / p.size(); double s = std::sqrt(v); Cut c; c.z0 = m - ns * s; c.dz = 2 * ns * s / nb; for(auto& x : p) { int i = (int) std::floor((x.ct() - c.z0) / c.dz); if(i >= 0 && i < nb) { c.p.push_back(x); c.at.push_back(i); } } return c; }
static void same(const ParticleBunch& b, const Bunch_& p, double P) { sx_assert(b.size() == p.size(), "particles"); sx_close(b.GetReferenceMomentum(), P, T, "reference momentum"); for(size_t i = 0; i < p.size() && i < b.size(); i++) { const PSvector& q = b.GetParticles()[i]; for(int j : {0, 2, 4}) sx_close(q[j], p[i][j], 1e-15, "positions"); sx_close(q.dp() * 1e3, p[i].dp() * 1e3, T, "energy"); sx_close(q.xp() * 1e3, p[i].xp() * 1e3, T, "horizontal slope"); sx_close(q.yp() * 1e3, p[i].yp() * 1e3, T, "vertical slope"); } }
static ParticleBunch* bunch(double P, double Qm, const Bunch_& p) { ParticleBunch* b = new ParticleBunch(P, Qm); for(auto& x : p) b->AddParticle(x); return b; }
struct CWake : CollimatorWakePotentials { double l[4], t[4]; CWake(int m) : CollimatorWakePotentials(m) { for(int i = 0; i < 4; i++) l[i] = t[i] = 0; } double Wlong(double) const { return 0; } double Wtrans(double) const { return 0; } double Wlong(double s, int m) const { return 1e4 * std::pow(1e3, m) * (l[m] - 3e2 * s); } double Wtrans(double s, int m) const { return 1e6 * std::pow(1e3, m - 1) * (t[m] + 5e2 * s * m); } };
SX_HARNESS(collimator, "wakes of up to three modes of any strengths, particles in any of three arrangements, five bunches")
{
	Set s = sets[sx_choose("set", 0, 4)]; int M = sx_choose("modes", 1, 3), shape = sx_choose("shape", 0, 2); bool tw = shape || sx_bool("included"), charge = sx_bool("any charge"); double P = 1.2, Qm = 2e10; CWake w(M); for(int m = 1; m <= M; m++) { w.l[m] = 0.3 * m; w.t[m] = 1 - 0.2 * m; if(!charge) { w.l[m] = sx_double(sx_n("l", m).c_str(), -1, 1); w.t[m] = sx_double(sx_n("t", m).c_str(), -1, 1); } } if(charge) Qm *= sx_double("Q", 0.1, 1); Bunch_ p = rays(s, shape); std::unique_ptr<ParticleBunch> b(bunch(P, Qm, p)); Drift d("D", 0.3); d.SetWakePotentials(&w); CollimatorWakeProcess q(M, 1, s.nb, s.ns); q.IncludeTransverseWake(tw); q.InitialiseProcess(*b); q.SetCurrentComponent(d); q.DoProcess(0.3); d.SetWakePotentials(nullptr);
	Cut c = cut(p, s.nb, s.ns); double a0 = Qm * p.size() / c.p.size() * E / (4 * M_PI * 8.854187817620e-12); typedef std::complex<double> Z; for(int m = 1; m <= M; m++) { std::vector<double> re(s.nb, 0.), im(s.nb, 0.); for(size_t k = 0; k < c.p.size(); k++) { Z z = std::pow(Z(c.p[k].x(), c.p[k].y()), m); re[c.at[k]] += z.real(); im[c.at[k]] += z.imag(); } for(size_t k = 0; k < c.p.size(); k++) { double tr = 0, ti = 0, lr = 0, li = 0; for(int j = c.at[k]; j < s.nb; j++) { double a = w.Wtrans((j - c.at[k]) * c.dz, m), l = w.Wlong((j - c.at[k]) * c.dz, m); tr += a * re[j]; ti += a * im[j]; lr += l * re[j]; li += l * im[j]; } Z z(c.p[k].x(), c.p[k].y()), y = m > 1 ? std::pow(z, m - 1) : Z(1), u = std::pow(z, m); double dp = -a0 / P * (lr * u.real() + li * u.imag()), dx = tw ? a0 / P * m * (tr * y.real() + ti * y.imag()) : 0, dy = tw ? a0 / P * m * (ti * y.real() - tr * y.imag()) : 0; c.p[k].dp() += dp; c.p[k].xp() = (c.p[k].xp() + dx) / (1 + dp); c.p[k].yp() = (c.p[k].yp() + dy) / (1 + dp); } } same(*b, c.p, P);
}
struct KWake : CombinedWakeRF { double l, t, k[3], r[3]; KWake() : l(0.4), t(0.6), k{1, 0.5, -0.3}, r{1, -0.5, 0.2} {} double Wlong(double z) const { return 1e15 * (l + 300 * z); } double Wtrans(double z) const { return 1e18 * (t - 200 * z); } Vector2D Wxy(double x, double y) const { return Vector2D(1e15 * (k[0] + 1e3 * k[1] * x), 1e15 * (k[2] - 1e3 * k[1] * y)); } Vector2D CouplerRFKick(double x, double y, double phi) const { return Vector2D(1e-3 * (r[0] + 1e3 * r[1] * x + r[2] * phi), 1e-3 * (r[2] + 1e3 * r[0] * y - r[1] * phi)); } };
SX_HARNESS(coupler, "couplers of cavities with any wake and radio frequency kick, any positions, phases or voltages, four bunches")
{
	Set s = sets[sx_choose("set", 0, 3)]; double P = 1.2, Qm = 1e10, len = 1.1, f = 1.3e9, g = 0.03, phi = -0.3; KWake w; int v = sx_choose("variable", 0, 4); Bunch_ p = rays(s, 0); if(v == 0) for(int i = 0; i < 3; i++) w.k[i] = sx_double(sx_n("k", i).c_str(), -1, 1); if(v == 1) for(int i = 0; i < 3; i++) w.r[i] = sx_double(sx_n("r", i).c_str(), -1, 1); if(v == 2) { g *= sx_double("g", 0.1, 1); w.l = sx_double("l", -1, 1); } if(v == 3) phi = sx_double("phi", -2, -0.1); if(v == 4) { w.t = sx_double("t", -1, 1); for(auto& x : p) { x.x() = 1e-3 * sx_double(sx_n("x", &x - &p[0]).c_str(), -1, 1); } }
	bool cavity = sx_bool("cavity"); std::unique_ptr<AcceleratorComponent> e(cavity ? (AcceleratorComponent*) new TWRFStructure("C", len, f, g, phi) : new Drift("D", len)); e->SetWakePotentials(&w); std::unique_ptr<ParticleBunch> b(bunch(P, Qm, p)); CouplerWakeFieldProcess q(1, s.nb, s.ns); q.InitialiseProcess(*b); q.SetCurrentComponent(*e); q.DoProcess(len); e->SetWakePotentials(nullptr);
	Cut c = cut(p, s.nb, s.ns); double V = cavity ? g * len : 0, k = cavity ? 2 * M_PI * f / C : 0, ph = cavity ? -phi : 0, Q = E * Qm * p.size(); std::vector<double> fr(s.nb, 0.), X(s.nb, 0.), Y(s.nb, 0.), L(s.nb + 1, 0.), TX(s.nb + 1, 0.), TY(s.nb + 1, 0.); for(size_t i = 0; i < c.p.size(); i++) { int a = c.at[i]; fr[a] += 1. / c.p.size(); X[a] += c.p[i].x(); Y[a] += c.p[i].y(); } for(int i = 0; i < s.nb; i++) { int n = (int) std::floor(fr[i] * c.p.size() + 0.5); if(n > 1) { X[i] /= n; Y[i] /= n; } }
	for(int i = 0; i < s.nb; i++) { Vector2D cw = w.Wxy(X[i], Y[i]), rf = w.CouplerRFKick(X[i], Y[i], ph + k * (c.z0 + (i + 0.5) * c.dz)); TX[i] += rf.x * V / len; TY[i] += rf.y * V / len; for(int j = i; j < s.nb; j++) { double z = (j - i + 0.5) * c.dz; L[i] += Q * fr[j] * w.Wlong(z); TX[i] += Q * fr[j] * (w.Wtrans(z) * X[j] + cw.x / len); TY[i] += Q * fr[j] * (w.Wtrans(z) * Y[j] + cw.y / len); } }
	double mean = 0; for(size_t i = 0; i < c.p.size(); i++) { int a = c.at[i]; double h = (c.p[i].ct() - c.z0) / c.dz - a, d = -len / P * (L[a] * (1 - h) + L[a + 1] * h); PSvector& x = c.p[i]; x.dp() += d; mean += d / c.p.size(); x.xp() = (x.xp() + len / P * (TX[a] * (1 - h) + TX[a + 1] * h)) / (1 + d); x.yp() = (x.yp() + len / P * (TY[a] * (1 - h) + TY[a + 1] * h)) / (1 + d); } for(auto& x : c.p) x.dp() = (x.dp() - mean) / (1 + mean); same(*b, c.p, P * (1 + mean));
}
struct Wake : WakePotentials { double l[2], t[2]; Wake(double a = 1, double b = 0, double c = 0, double d = 0) : l{a, b}, t{c, d} {} double Wlong(double z) const { return 1e15 * (l[0] + l[1] * 1e3 * z); } double Wtrans(double z) const { return 1e18 * (t[0] + t[1] * 1e3 * z); } };
struct Sl { double c[6], q; double s[4][4]; };
SX_HARNESS(slices, "macro particles in slices of two widths with any linear wakes, any charges, centroids or covariances")
{
	static const double ct[5] = {-1.2e-3, -0.7e-3, -0.65e-3, 0.1e-3, 0.5e-3}; int n = sx_choose("particles", 1, 5), v = sx_choose("variable", 0, 4); double width = sx_bool("fine") ? 1e-6 : 0.52e-3, P = 2, len = 1.4; Wake w(0.5, 0.2, 0.7, 0.3); if(v == 0) { w.l[0] = sx_double("l0", -1, 1); w.l[1] = sx_double("l1", -1, 1); } if(v == 1) { w.t[0] = sx_double("t0", -1, 1); w.t[1] = sx_double("t1", -1, 1); } std::vector<Sl> p(n); for(int i = 0; i < n; i++) { for(int j = 0; j < 4; j++) { p[i].c[j] = 1e-3 * (j + 1 - 0.4 * i * (j + 1)); if(v == 2 && i == n - 1) p[i].c[j] = 1e-3 * sx_double(sx_n("c", j).c_str(), -1, 1); for(int k = 0; k <= j; k++) p[i].s[j][k] = p[i].s[k][j] = 1e-6 * (j == k ? 1 + j : 0.2 * (1 + j - 2 * k)); } if(v == 3 && i == 0) for(int j = 0; j < 4; j++) for(int k = 0; k < j; k++) p[i].s[j][k] = p[i].s[k][j] = 1e-6 * sx_double(sx_n("s", 4 * j + k).c_str(), -1, 1); p[i].c[4] = ct[i]; p[i].c[5] = 1e-3 * (2 - i); p[i].q = 1e10 * (1 + 0.3 * i); if(v == 4 && i == (n > 2)) p[i].q = 1e10 * sx_double(sx_n("q", i).c_str(), 0.2, 2); }
	SMPTracking::SMPBunch b(P, 1); for(auto& x : p) { SliceMacroParticle m(x.q); for(int j = 0; j < 6; j++) m[j] = x.c[j]; for(int j = 0; j < 4; j++) for(int k = 0; k <= j; k++) m(j, k) = x.s[j][k]; b.AddParticle(m); } Drift d("D", len); d.SetWakePotentials(&w); SMPTracking::WakeFieldProcess q(1, width); bool tw = v != 0 || sx_bool("included"), centre = v == 1 && sx_bool("centre"); q.IncludeTransverseWake(tw); if(centre) q.ApplyImpulseAt(SMPTracking::WakeFieldProcess::atCentre); q.InitialiseProcess(b); q.SetCurrentComponent(d); sx_assert(q.IsActive(), "active"); sx_close(q.GetMaxAllowedStepSize(), centre ? 0.7 : len, 1e-12, "asks to be called there"); if(v == 2) { q.DoProcess(0.4); sx_assert(q.IsActive(), "active until then"); sx_close(q.GetMaxAllowedStepSize(), len - 0.4, 1e-12, "asks to be called there"); q.DoProcess(len - 0.4); } else q.DoProcess(centre ? 0.7 : len); sx_assert(!q.IsActive(), "once per element"); d.SetWakePotentials(nullptr);
	std::vector<int> at; std::vector<double> Q, Z, X, Y; double first = 0; for(int i = 0; i < n; i++) { if(i == 0 || ct[i] >= first + width) { first = ct[i]; Q.push_back(0.); Z.push_back(0.); X.push_back(0.); Y.push_back(0.); } int a = (int) Q.size() - 1; at.push_back(a); Q[a] += p[i].q; Z[a] += p[i].q * ct[i]; X[a] += p[i].q * p[i].c[0]; Y[a] += p[i].q * p[i].c[2]; } int m = Q.size(); for(int i = 0; i < m; i++) { Z[i] /= Q[i]; X[i] /= Q[i]; Y[i] /= Q[i]; } std::vector<double> L(m, 0.), TX(m, 0.), TY(m, 0.); double mean = 0, sum = 0; for(int i = 0; i < m; i++) { for(int j = i; j < m; j++) { L[i] += (j == i ? 0.5 : 1) * E * Q[j] * w.Wlong(Z[j] - Z[i]); if(j > i && tw) { TX[i] += E * Q[j] * X[j] * w.Wtrans(Z[j] - Z[i]); TY[i] += E * Q[j] * Y[j] * w.Wtrans(Z[j] - Z[i]); } } mean += Q[i] * L[i]; sum += Q[i]; } mean /= sum; double PP = P - len * mean; sx_close(b.GetReferenceMomentum(), PP, T, "reference momentum");
	for(int i = 0; i < n; i++) { int a = at[i]; const SliceMacroParticle& o = b.begin()[i]; double Ei = P * (1 + p[i].c[5]), Ef = Ei - len * L[a], r = Ei / Ef; sx_close((1 + o.dp()) * PP, Ef, T, "energy of a macro particle"); sx_close(o.xp() * 1e3, (p[i].c[1] * r + len * TX[a] / Ef) * 1e3, T, "horizontal slope of a macro particle"); sx_close(o.yp() * 1e3, (p[i].c[3] * r + len * TY[a] / Ef) * 1e3, T, "vertical slope of a macro particle"); sx_close(o.x(), p[i].c[0], 1e-15, "position of a macro particle"); sx_close(o.y(), p[i].c[2], 1e-15, "position of a macro particle"); sx_close(o.ct(), p[i].c[4], 1e-15, "time of a macro particle"); for(int j = 0; j < 4; j++) for(int k = 0; k <= j; k++) sx_close(o(j, k) * 1e6, p[i].s[j][k] * (j % 2 ? r : 1) * (k % 2 ? r : 1) * 1e6, T, "covariance of a macro particle"); }
}
