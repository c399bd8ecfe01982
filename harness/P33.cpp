// P33: wakefields
//@ time: *=50
#include "hx.h"
#include <memory>
#include <vector>
#include <algorithm>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "CouplerWakeFieldProcess.h"
using namespace ParticleTracking;
static const double T = 1e-7, E = 1.602176487e-19 * 1e-9;
struct Wake : WakePotentials { double l[2], t[2], f = 1e15; Wake(double a = 1, double b = 0, double c = 0, double d = 0) : l{a, b}, t{c, d} {} double Wlong(double z) const { return f * (l[0] + l[1] * 1e3 * z); } double Wtrans(double z) const { return 1e18 * (t[0] + t[1] * 1e3 * z); } void coherent() { csr = true; f = 1e11; } };
typedef std::vector<PSvector> Bunch_;
struct Set { int n, nb; double ns; double ct[8]; };
static const Set sets[] = { {3, 3, 1.5, {-1.1e-3, 0.9e-3, 0.2e-3}}, {4, 2, 1.2, {1e-3, -2e-3, 1.7e-3, 0.6e-3}}, {5, 4, 3, {0, 1e-4, -3e-4, 2e-4, 1.5e-4}}, {5, 5, 1.1, {-4e-4, 1e-4, 9e-4, 0.2e-4, -1e-4}}, {2, 1, 2, {-1e-3, 2e-3}} };
static Bunch_ rays(const Set& s, int sym) { Bunch_ b; for(int i = 0; i < s.n; i++) { PSvector p(0); p.x() = 1e-3 * (i + 1); p.xp() = 1e-4 * (2 - i); p.y() = -2e-4 * i * i; p.yp() = 3e-4 * i; p.dp() = 1e-3 * (i - 1); p.ct() = s.ct[i]; if(sym & 1) { p.x() = 1e-3 * sx_double(sx_n("x", i).c_str(), -1, 1); p.y() = 1e-3 * sx_double(sx_n("y", i).c_str(), -1, 1); } if(sym & 2 && i == 1) { p.dp() = 1e-2 * sx_double("dp", -1, 1); p.xp() = 1e-3 * sx_double("xp", -1, 1); } b.push_back(p); } return b; }
// what the wake makes of the particles; returns the charge per particle
static double expect(Bunch_& p, double& P, double Qm, int nb, double ns, double len, const Wake& w, bool tw, int csr = 0)
{
	double Q = Qm * p.size(), m = 0, v = 0; std::sort(p.begin(), p.end(), [](const PSvector& a, const PSvector& b) { return a.ct() < b.ct(); }); for(auto& x : p) m += x.ct() / p.size(); for(auto& x : p) v += (x.ct() - m) * (x.ct() - m) / p.size(); double s = std::sqrt(v), z0 = m - ns * s, dz = 2 * ns * s / nb; Bunch_ in; for(auto& x : p) if(x.ct() >= z0 && x.ct() < z0 + nb * dz) in.push_back(x); p = in;
	std::vector<double> q(nb, 0.), X(nb, 0.), Y(nb, 0.), L(nb + 1, 0.), TX(nb + 1, 0.), TY(nb + 1, 0.), S(nb, 0.); std::vector<int> at, c(nb, 0); for(auto& x : p) { int i = (int) std::floor((x.ct() - z0) / dz); at.push_back(i); c[i]++; X[i] += x.x(); Y[i] += x.y(); } for(int i = 0; i < nb; i++) { q[i] = c[i] / (p.size() * dz); if(c[i]) { X[i] /= c[i]; Y[i] /= c[i]; } }
	if(csr) { double k2 = 0; for(int k = -csr; k <= csr; k++) k2 += k * k; for(int i = 0; i < nb; i++) for(int k = -csr; k <= csr; k++) if(i + k >= 0 && i + k < nb) S[i] += k / k2 * q[i + k] / dz; }
	for(int i = 0; i <= nb; i++) { if(csr) for(int j = 1; j < i; j++) L[i] += E * Q * dz * S[j] * w.Wlong((j - i + 0.5) * dz); for(int j = i; j < nb; j++) { double z = (j - i + 0.5) * dz; if(!csr) L[i] += E * Q * dz * q[j] * w.Wlong(z); TX[i] += E * Q * dz * q[j] * X[j] * w.Wtrans(z); TY[i] += E * Q * dz * q[j] * Y[j] * w.Wtrans(z); } }
	double mean = 0; for(size_t k = 0; k < p.size(); k++) { int i = at[k]; double f = (p[k].ct() - z0) / dz - i, d = -len / P * (L[i] * (1 - f) + L[i + 1] * f); p[k].dp() += d; mean += d / p.size(); p[k].xp() += tw ? len / P * (TX[i] * (1 - f) + TX[i + 1] * f) : 0; p[k].yp() += tw ? len / P * (TY[i] * (1 - f) + TY[i + 1] * f) : 0; p[k].xp() /= 1 + d; p[k].yp() /= 1 + d; }
	if(!csr) { for(auto& x : p) x.dp() = (x.dp() - mean) / (1 + mean); P *= 1 + mean; } return Q / p.size();
}
static void same(const ParticleBunch& b, const Bunch_& p, double P, double Qm) { sx_assert(b.size() == p.size(), "particles outside the range are removed"); sx_close(b.GetReferenceMomentum(), P, T, "reference momentum"); sx_close(b.GetTotalCharge() * 1e-10, Qm * p.size() * 1e-10, T, "charge"); for(size_t i = 0; i < p.size() && i < b.size(); i++) { const PSvector& q = b.GetParticles()[i]; sx_close(q.x(), p[i].x(), 1e-15, "positions"); sx_close(q.y(), p[i].y(), 1e-15, "positions"); sx_close(q.ct(), p[i].ct(), 1e-15, "times"); sx_close(q.dp() * 1e3, p[i].dp() * 1e3, T, "energy"); sx_close(q.xp() * 1e3, p[i].xp() * 1e3, T, "horizontal slope"); sx_close(q.yp() * 1e3, p[i].yp() * 1e3, T, "vertical slope"); } }
static ParticleBunch* bunch(double P, double Qm, const Bunch_& p) { ParticleBunch* b = new ParticleBunch(P, Qm); for(auto& x : p) b->AddParticle(x); return b; }
SX_HARNESS(longitudinal, "any linear longitudinal wake, any charge or energies, five bunches of two to five particles in one to five slices")
{
	Set s = sets[sx_choose("set", 0, 4)]; double P = 5, Qm = 1e10, len = 1.4; int v = sx_choose("variable", 0, 2); Wake w(1.2, 0.3); if(v == 0) { w.l[0] = sx_double("w0", -2, 2); w.l[1] = sx_double("w1", -2, 2); } else if(v == 1) Qm *= sx_double("Q", 0.1, 2); else len = sx_double("length", 0.1, 2); Bunch_ p = rays(s, 2); std::unique_ptr<ParticleBunch> b(bunch(P, Qm, p)); Drift d("D", len); d.SetWakePotentials(&w); WakeFieldProcess q(1, s.nb, s.ns); q.InitialiseProcess(*b); q.SetCurrentComponent(d); q.DoProcess(len); Qm = expect(p, P, Qm, s.nb, s.ns, len, w, true); same(*b, p, P, Qm); d.SetWakePotentials(nullptr);
}
SX_HARNESS(transverse, "any linear transverse wake or any positions, with and without energy loss, transverse wakes left out")
{
	Set s = sets[sx_choose("set", 0, 4)]; double P = 5, Qm = 1e10, len = 1.4; int v = sx_choose("variable", 0, 1); bool tw = sx_bool("included"); Wake w(0, 0, 0.7, -0.2); if(sx_bool("loss")) w.l[0] = 0.5; if(v == 0) { w.t[0] = sx_double("t0", -2, 2); w.t[1] = sx_double("t1", -2, 2); } Bunch_ p = rays(s, v); std::unique_ptr<ParticleBunch> b(bunch(P, Qm, p)); Drift d("D", len); d.SetWakePotentials(&w); WakeFieldProcess q(1, s.nb, s.ns); q.IncludeTransverseWake(tw); q.InitialiseProcess(*b); q.SetCurrentComponent(d); q.DoProcess(len); Qm = expect(p, P, Qm, s.nb, s.ns, len, w, tw); same(*b, p, P, Qm); d.SetWakePotentials(nullptr);
}
SX_HARNESS(coherent, "coherent radiation wakes of any linear shape, filters of two widths")
{
	int k = sx_choose("set", 0, 3); Set s = sets[k]; if(k == 0) { s.nb = 9; s.ns = 3; } if(k == 1) s.nb = 6; double P = 5, Qm = 1e10, len = 1.4; int n = sx_bool("narrow") ? 2 : 14; Wake w(0, 0, 0.1, 0); w.l[0] = sx_double("w0", -2, 2); w.l[1] = sx_double("w1", -2, 2); w.coherent(); Bunch_ p = rays(s, 0); std::unique_ptr<ParticleBunch> b(bunch(P, Qm, p)); Drift d("D", len); d.SetWakePotentials(&w); WakeFieldProcess q(1, s.nb, s.ns); if(n == 2) q.SetFilter(2, 2, 1); q.InitialiseProcess(*b); q.SetCurrentComponent(d); q.DoProcess(len); Qm = expect(p, P, Qm, s.nb, s.ns, len, w, true, n); same(*b, p, P, Qm); d.SetWakePotentials(nullptr);
}
struct Other : ParticleBunchProcess { Other() : ParticleBunchProcess("other", 0) {} void SetCurrentComponent(AcceleratorComponent&) { active = false; } void DoProcess(double) {} double GetMaxAllowedStepSize() const { return 1; } };
SX_HARNESS(passage, "once per element with a wake, at its exit or centre, whatever the steps; elements without wake or with one of another process")
{
	double P = 5, Qm = 1e10, len = 1.4, w0 = sx_double("w0", -2, 2); Wake w(w0, 0.1, 0.3, 0.1), ow(w0, 0, 0, 0); Other other; ow.SetExpectedProcess(&other); bool centre = sx_bool("centre"); Set s = sets[1]; Bunch_ p = rays(s, 0); std::unique_ptr<ParticleBunch> b(bunch(P, Qm, p)); Drift d("D", len), plain("P", 1.), foreign("F", 1.), e("E", 0.6); d.SetWakePotentials(&w); foreign.SetWakePotentials(&ow); e.SetWakePotentials(&w); WakeFieldProcess q(1, s.nb, s.ns); if(sx_bool("named")) w.SetExpectedProcess(&q); if(centre) q.ApplyImpulseAt(WakeFieldProcess::atCentre); q.InitialiseProcess(*b); q.SetCurrentComponent(plain); sx_assert(!q.IsActive(), "inactive without wake"); q.SetCurrentComponent(foreign); sx_assert(!q.IsActive(), "inactive with the wake of another process"); q.SetCurrentComponent(d); sx_assert(q.IsActive(), "active with a wake"); double where = centre ? len / 2 : len; int cut = sx_choose("cut", 1, 3); for(int i = 0; i < cut; i++) { sx_close(q.GetMaxAllowedStepSize(), where * (cut - i) / cut, 1e-12, "asks to be called there"); sx_close(b->GetReferenceMomentum(), P, 1e-12, "nothing before"); sx_assert(q.IsActive(), "active until then"); q.DoProcess(where / cut); } sx_assert(!q.IsActive(), "once per element"); Qm = expect(p, P, Qm, s.nb, s.ns, len, w, true); same(*b, p, P, Qm);
	q.SetCurrentComponent(e); sx_assert(q.IsActive(), "active in the next element"); q.DoProcess(centre ? 0.3 : 0.6); Qm = expect(p, P, Qm, s.nb, s.ns, 0.6, w, true); same(*b, p, P, Qm); d.SetWakePotentials(nullptr); e.SetWakePotentials(nullptr); foreign.SetWakePotentials(nullptr);
}
SX_HARNESS(scaled, "bunches of any length and any mean time")
{
	Set s = sets[sx_choose("set", 0, 2)]; double P = 5, Qm = 1e10, len = 1.4, f = 1, m = 0; if(sx_bool("length")) f = sx_double("f", 0.5, 2); else m = 1e-3 * sx_double("m", -1, 1); for(int i = 0; i < s.n; i++) s.ct[i] = s.ct[i] * f + m; Wake w(1.2, 0.3, -0.7, 0.2); Bunch_ p = rays(s, 0); std::unique_ptr<ParticleBunch> b(bunch(P, Qm, p)); Drift d("D", len); d.SetWakePotentials(&w); WakeFieldProcess q(1, s.nb, s.ns); q.InitialiseProcess(*b); q.SetCurrentComponent(d); q.DoProcess(len); for(int i = 0; i < s.n; i++) p[i].ct() = (p[i].ct() - m) / f; Wake v(1.2, 0.3 * f, -0.7, 0.2 * f); Qm = expect(p, P, Qm, s.nb, s.ns, len, v, true); for(auto& x : p) x.ct() = x.ct() * f + m; same(*b, p, P, Qm); d.SetWakePotentials(nullptr);
}
