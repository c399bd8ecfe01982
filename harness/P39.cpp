// P39: synchrotron radiation
//@ time: *=50
#include "hx.h"
#include <memory>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "ElectronBunch.h"
#include "ProtonBunch.h"
#include "SynchRadParticleProcess.h"
#include "RandomNG.h"
using namespace ParticleTracking;
static const double T = 1e-6, C = 299792458., E = 1.602176487e-19, H = 6.62606896e-34, MU = 4e-7 * M_PI, MEV[2] = {0.510998910, 938.272013}, KG[2] = {9.10938215e-31, 1.672621637e-27};
static ParticleBunch* bunch(bool proton, double P) { return proton ? (ParticleBunch*) new ProtonBunch(P, 1) : new ElectronBunch(P, 1); }
// classical energy loss in GeV
static double loss(bool proton, double P, double B, double L, double dp) { double m = KG[proton], g = P * 1000 * (1 + dp) / MEV[proton], r0 = MU * E * E / (4 * M_PI * m); return 2. / 3 * r0 * E * E * B * B * g * g * L / m / E * 1e-9; }
static void lose(PSvector& p, double w, bool symp) { double d = p.dp(); if(symp) { double ks = std::sqrt((1 + d) * (1 + d) - p.xp() * p.xp() - p.yp() * p.yp()), kx = p.xp() / ks, ky = p.yp() / ks, kz = (1 + d - w) / std::sqrt(1 + kx * kx + ky * ky); p.xp() = kx * kz; p.yp() = ky * kz; } else { p.xp() /= 1 + w; p.yp() /= 1 + w; } p.dp() = d - w; }
static void adjust(double& P, PSvector* p, int n, double mean) { for(int i = 0; i < n; i++) p[i].dp() = (p[i].dp() + mean) / (1 - mean); P *= 1 - mean; }
static void same(const ParticleBunch& b, const PSvector* p, int n, double scale, const char* what) { for(int i = 0; i < n; i++) { const PSvector& q = b.GetParticles()[i]; for(int j : {0, 2, 4}) sx_close(q[j], p[i][j], 1e-15, "positions are kept"); sx_close(q.xp() * 1e3, p[i].xp() * 1e3, T, "slope"); sx_close(q.yp() * 1e3, p[i].yp() * 1e3, T, "slope"); sx_close(q.dp() / scale, p[i].dp() / scale, T, what); } }
struct Sym { Sym(bool s) { SynchRadParticleProcess::UseSymplecticVariables(s); } ~Sym() { SynchRadParticleProcess::UseSymplecticVariables(false); } };
SX_HARNESS(classical, "mean loss in bends of any field or of particles of any momentum, cut into steps in any of several ways")
{
	int v = sx_choose("variables", 0, 2); bool symp = v == 2, proton = sx_bool("proton"), adj = sx_bool("adjust"); Sym sy(symp); double P = proton ? 5e4 : 20, B = proton ? 8 : -0.3, dp = 0.015, L = 1.2; if(v == 1) dp = 0.02 * sx_double("dp", -1, 1); else B *= sx_double("B", 0.2, 1); std::unique_ptr<ParticleBunch> b(bunch(proton, P)); PSvector p[2]; for(int i = 0; i < 2; i++) { p[i] = PSvector(0); p[i].x() = 1e-3 * (i + 1); p[i].yp() = -1e-3 * (i + 1); p[i].ct() = 0.2; p[i].dp() = i ? -0.01 : dp; } p[1].xp() = 2e-3; for(auto& q : p) b->push_back(q);
	SectorBend e("B", L, 0.01, B); int ns = sx_choose("steps", 0, 2), cut = symp ? 1 : 2; SynchRadParticleProcess sr(1); sr.AdjustBunchReferenceEnergy(adj); if(ns) sr.SetNumComponentSteps(ns); else { sr.SetMaxComponentStepSize(0.5); ns = 3; } sr.InitialiseProcess(*b); sr.SetCurrentComponent(e); double PP = P; for(int s = 0; s < ns; s++) { for(int c = 0; c < cut; c++) { sx_assert(sr.IsActive(), "active in bends"); sx_close(sr.GetMaxAllowedStepSize(), L / ns * (1 - (double) c / cut), 1e-9, "to the end of the step"); sr.DoProcess(L / ns / cut); if(c < cut - 1) same(*b, p, 2, 1, "nothing within a step"); } double mean = 0; for(auto& q : p) { double u = loss(proton, PP, B, L / ns, q.dp()); mean += u / 2; lose(q, u / PP, symp); } if(adj) adjust(PP, p, 2, mean / PP); same(*b, p, 2, 1e-3, "energy loss"); sx_close(b->GetReferenceMomentum() / P, PP / P, T, "reference momentum"); for(int i = 0; i < 2; i++) { p[i].xp() = -1e-3 + 2e-3 * i; p[i].yp() = 1e-3; p[i].dp() = i ? -0.01 : dp; b->GetParticles()[i] = p[i]; } }
}
SX_HARNESS(multipoles, "loss in quadrupoles and sextupoles by the field at the particle, only where included")
{
	double P = 20, g = sx_double("g", 5, 50), L = 0.7; bool sext = sx_bool("sextupole"); std::unique_ptr<AcceleratorComponent> e; if(sext) e.reset(new Sextupole("S", L, 300.)); else if(sx_bool("skew")) e.reset(new SkewQuadrupole("SQ", L, g)); else e.reset(new Quadrupole("Q", L, g)); double x = 1e-2 * sx_double("x", -1, 1), y = 1e-2 * (sx_bool("above") ? 0.6 : -0.3); PSvector p(0); p.x() = x; p.y() = y; p.xp() = 1e-3; ElectronBunch b(P, 1); b.push_back(p); SynchRadParticleProcess sr(1); sr.AdjustBunchReferenceEnergy(false); sr.InitialiseProcess(b); sr.SetCurrentComponent(*e); sx_assert(!sr.IsActive(), "not in multipoles unless included"); sr.IncludeQuadRadiation(true); sr.SetCurrentComponent(*e); sx_assert(sr.IsActive(), "in multipoles if included"); sr.DoProcess(L); double r2 = x * x + y * y, B2 = sext ? 150. * 150 * r2 * r2 : g * g * r2; double u = loss(false, P, 1, L, 0) * B2; lose(p, u / P, false); same(b, &p, 1, 1e-5, "energy loss"); Drift d("D", 1); sr.SetCurrentComponent(d); sx_assert(!sr.IsActive(), "not in drifts");
}
static int photons; static double photon(double uc) { photons++; return (0.1 + photons % 3) * uc; }
SX_HARNESS(quantum, "photons: number drawn, energies by the critical energy, any momenta")
{
	double P = 20, B = sx_bool("strong") ? 0.4 : 0.2, L = 1.5; int seed = sx_choose("seed", 0, 3); RandomNG::init(100 + seed); SynchRadParticleProcess::SetPhotonGenerator(photon); SynchRadParticleProcess sr(1, true); sr.AdjustBunchReferenceEnergy(sx_bool("adjust")); PSvector p[2]; for(int i = 0; i < 2; i++) { p[i] = PSvector(0); p[i].xp() = 1e-3; p[i].dp() = 0.02 * sx_double(sx_n("dp", i).c_str(), -1, 1); } ElectronBunch b(P, 1); b.push_back(p[0]); b.push_back(p[1]); SectorBend e("B", L, 0.01, B); sr.InitialiseProcess(b); sr.SetCurrentComponent(e); photons = 0; sr.DoProcess(L); int total = photons; RandomNG::init(100 + seed); photons = 0; double alpha = MU * C * E * E / (2 * H), mean = 0; bool adj = b.GetReferenceMomentum() != P; for(auto& q : p) { double Nm = 5 / (2 * std::sqrt(3.)) * alpha * E * B * L / (KG[0] * C); int n = RandomNG::poisson(Nm * (1 - 1e-7)); double g = P * 1000 * (1 + q.dp()) / MEV[0], uc = 1.5 * (H / (2 * M_PI)) * g * g * E * B / KG[0] / E * 1e-9, u = 0; for(int i = 0; i < n; i++) { u += photon(uc); } mean += u / 2; lose(q, u / P, false); } sx_assert(total == photons, "number of photons"); double PP = P; if(adj) adjust(PP, p, 2, mean / P); same(b, p, 2, 1e-3, "energy of the photons"); sx_close(b.GetReferenceMomentum(), PP, T, "reference momentum"); sr.GeneratePhotons(false); photons = 0; sr.SetCurrentComponent(e); sr.DoProcess(L); sx_assert(photons == 0, "no photons when switched off"); SynchRadParticleProcess::SetPhotonGenerator(HBSpectrumGen);
}
SX_HARNESS(tracked, "electrons tracked through a line of bends and drifts with radiation, any field, cut into steps")
{
	double P = 20, B = -0.3 * sx_double("B", 0.2, 1); int ns = sx_choose("steps", 1, 3); AcceleratorModelConstructor c; c.AppendDrift(1); c.AppendComponent(new SectorBend("B", 1.2, 0.005, B)); c.AppendDrift(0.5); c.AppendComponent(new SectorBend("C", 0.6, 0.003, -0.2)); std::unique_ptr<AcceleratorModel> m(c.GetModel()); ElectronBunch* b = new ElectronBunch(P, 1); PSvector p(0); b->push_back(p); ParticleTracker t(m->GetBeamline(), b); SynchRadParticleProcess* sr = new SynchRadParticleProcess(1); sr->SetNumComponentSteps(ns); t.AddProcess(sr); t.Track(b); double PP = P; for(int k = 0; k < 2; k++) for(int s = 0; s < ns; s++) PP -= loss(false, PP, k ? -0.2 : B, (k ? 0.6 : 1.2) / ns, 0); sx_close(b->GetReferenceMomentum() * 1e3, PP * 1e3, T, "momentum after two bends");
}
