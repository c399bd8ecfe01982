// P36: protons in collimator jaws
//@ time: *=25 transport=110
//@ exclude: RandomNG.cpp
#include "hx.h"
#include <memory>
#include <vector>
#include "CollimateProtonProcess.h"
#include "ProcessStepManager.h"
#include "ParticleBunch.h"
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "ScatteringModel.h"
#include "ScatteringProcess.h"
#include "MaterialProperties.h"
#include "RandomNG.h"
using namespace ParticleTracking;
using namespace Collimation;
// random numbers: free paths are the given multiples of the mean free path, normal numbers a fixed sequence
static const double* paths; static int np, nn;
double RandomNG::uniform(double a, double b) { return a == 0 && b == 1 ? std::exp(-paths[np++]) : a + (b - a) * 0.5; }
double RandomNG::normal(double, double) { static const double z[8] = {0.3, -0.7, 1.1, 0.2, -0.4, 0.9, -1.3, 0.6}; return z[nn++ % 8]; }
double RandomNG::normal(double m, double, double) { return m; }
double RandomNG::poisson(double) { return 0; }
double RandomNG::landau() { return 0; }
void RandomNG::init() {}
void RandomNG::init(std::uint32_t) {}
void RandomNG::init(const std::vector<std::uint32_t>&) {}
void RandomNG::reset() {}
std::mt19937_64& RandomNG::getGenerator() { static std::mt19937_64 g; return g; }
std::mt19937_64& RandomNG::getLocalGenerator(size_t) { static std::mt19937_64 g; return g; }
void RandomNG::resetLocalGenerator(size_t) {}
std::uint32_t hash_string(std::string) { return 1; }

struct Kick: ScatteringProcess { double k, l; bool keep; bool Scatter(PSvector& p, double E) const override { p.xp() += k; p.yp() -= k; p.dp() -= l / E; return keep; } };
struct Model: ScatteringModel { Kick k; Model() { energy_loss_mode = SimpleEnergyLoss; } void Configure(MaterialProperties*, double) override { Xsection[0] = 1; for(int i = 1; i < 6; i++) Processes[i] = &k; } };
// a gap below x = 1 at z = 0.5, with a taper
static double width = 100; static bool varied = true;
struct Jaw: CollimatorAperture { double t; Jaw(double L, double tp) : CollimatorAperture(2, 2, 0, L, 0, 0), t(tp) {} bool CheckWithinApertureBoundaries(double x, double, double z) const override { double hi = 1 + t * (z - 0.5); return (x < hi) & (x > hi - width); } };
struct Mv : ParticleBunchProcess { Mv() : ParticleBunchProcess("MV", 0) {} void SetCurrentComponent(AcceleratorComponent&) { active = true; } void DoProcess(double ds) { for(auto& p : *currentBunch) { p.x() += p.xp() * ds; p.y() += p.yp() * ds; } } double GetMaxAllowedStepSize() const { return 1e9; } };
struct Rep { AcceleratorComponent* c; double pos; int turn; int id; };
struct Out : CollimationOutput { std::vector<Rep> r; void Dispose(AcceleratorComponent& c, double pos, Particle& p, int turn) { r.push_back({&c, pos, turn, (int) p.id()}); } };
static const double MP = 0.938272;
struct Fate { PSvector p; bool lost; double at; bool escaped = false; double last = 0; };
static bool escapes = false; // only look at the position of protons that leave the jaw
// one bin of length L beginning at z, from the particle at its start
static Fate bin(Model& m, MaterialProperties& a, const Jaw& j, PSvector p, double P0, double z, double L)
{
	double E0 = std::sqrt(P0 * P0 + MP * MP), left = L; Fate f;
	for(int n = 0; n < 12; n++)
	{
		double path = m.PathLength(&a, E0); bool hit = path < left; double step = hit ? path : left, E1 = E0 * (1 + p.dp()); p.x() += step * p.xp(); p.y() += step * p.yp(); m.EnergyLoss(p, step, &a, E0); double E2 = E0 * (1 + p.dp()); z += step; left -= step; f.at = z; f.lost = true; f.p = p;
		if(E2 <= 1) return f; m.Straggle(p, step, &a, E1, E2); f.p = p; if(E2 < E0 / 100) return f; f.lost = false;
		double e1 = p.x() + p.xp() * left - 1 - j.t * (z + left - 0.5), e2 = p.x() + p.xp() * (left + step) - 1 - j.t * (z + left + step - 0.5); sx_assume(beyond(p.x() - 1 - j.t * (z - 0.5), 1e-7) & beyond(e1, 1e-7) & beyond(e2, 1e-7) & ((e1 > 0) == (e2 > 0)));
		if(width < 1) sx_assume(beyond(p.x() - 1 - j.t * (z - 0.5) + width, 1e-7) & beyond(e1 + width, 1e-7) & beyond(e2 + width, 1e-7) & ((e1 > -width) == (e2 > -width)));
		if(j.CheckWithinApertureBoundaries(p.x(), 0, z) && j.CheckWithinApertureBoundaries(p.x() + p.xp() * left, 0, z + left)) { p.x() += p.xp() * left; p.y() += p.yp() * left; f.p = p; f.escaped = true; f.last = step; return f; }
		if(!hit) return f; bool keep = m.ParticleScatter(p, &a, E2); f.p = p; f.lost = true; if(!keep || p.dp() < -0.95) return f; f.lost = false;
	}
	return f;
}
static void go(double P0, double dp0, double taper, const double* seq, double kick, double loss, bool keep, int nb, double dedx, double d0 = 6e-4)
{
	MaterialProperties a(63.5, 1.2, 0.8, 0.05, 1.4, 12.86, 8960, 29); bool v = varied && sx_bool("variant"); a.lambda = v ? 0.27 : 0.3; a.SetExtra("SixtrackdEdx", dedx); Model m; m.k.k = kick; m.k.l = loss; m.k.keep = keep; double B = 0.5, L = B * nb; Jaw j(L, taper); Collimator c("COL", L); c.SetAperture(&j); c.SetMaterialProperties(&a);
	CollimateProtonProcess* cp = new CollimateProtonProcess(1, 4); cp->SetScatteringModel(&m); cp->ScatterAtCollimator(true); cp->SetLossThreshold(200); cp->SetOutputBinSize(B); Out o, o2; cp->SetCollimationOutput(&o); cp->SetCollimationOutput(&o2); ProcessStepManager M; M.AddProcess(new Mv); M.AddProcess(cp);
	PSvector p(0), q(0); p.x() = 1 + sx_double("d", d0, 1e-3); p.xp() = sx_double("xp", -3e-3, 1e-3); p.y() = sx_double("y", -0.1, 0.1); p.yp() = 1e-4; p.dp() = dp0 + (v ? 1e-4 : 0); p.id() = 7; q.id() = 8; q.x() = width < 1 ? 1 - width / 2 : 0.5; q.xp() = width < 1 ? 0 : 1e-3;
	ParticleBunch b(P0, 2); b.AddParticle(q); b.AddParticle(p); b.AddParticle(q); paths = seq; np = nn = 0; M.Initialise(b); M.Track(c); size_t size = b.size(); int used = np;
	np = nn = 0; m.oldMaterial = nullptr; Fate f; f.p = p; f.lost = false; for(int k = 0; k < nb && !f.lost; k++) { double z = 1 + j.t * (B * (k + 1) - 0.5); sx_assume(beyond(f.p.x() - z, 1e-7)); if(f.p.x() < z) { f.p.x() += f.p.xp() * B; f.p.y() += f.p.yp() * B; } else f = bin(m, a, j, f.p, P0, B * k, B); }
	if(escapes) { sx_assume(f.escaped); if(size == 3) { auto it = b.begin(); ++it; sx_close((it->x() - f.p.x()) * 1e3, 0, 1e-6, "escaped protons end at the end of the bin"); sx_close((it->y() - f.p.y()) * 1e3, 0, 1e-6, "escaped protons end at the end of the bin"); } return; }
	sx_assert(np == used, "number of free paths"); sx_assert(size == (f.lost ? 2u : 3u), "lost or not"); sx_assert(o.r.size() == (f.lost ? 1u : 0u), "each loss is reported once"); sx_assert(o2.r.size() == o.r.size(), "each output is told");
	if(f.lost) { if(o.r.size() == 1) { sx_assert(o.r[0].id == 7 && o.r[0].c == &c && o.r[0].turn == 1, "what is reported"); sx_close(o.r[0].pos, f.at, 1e-4, "where the loss is reported"); } }
	else { auto it = b.begin(); ++it; if(size == 3) { sx_assert(it->id() == 7, "order of the particles"); double dx = (it->x() - f.p.x()) * 1e3, dy = (it->y() - f.p.y()) * 1e3;
		// (escaped protons go on by the length of their last step, see escape)
		if(!f.escaped) { sx_close(dx, 0, 1e-6, "horizontal position"); sx_close(dy, 0, 1e-6, "vertical position"); } else if(nb == 1) { double ox = f.p.xp() * f.last * 1e3, oy = f.p.yp() * f.last * 1e3; sx_assert((within(dx, 1e-6) & within(dy, 1e-6)) | (within(dx - ox, 1e-6) & within(dy - oy, 1e-6)), "escaped protons go straight on to the end of the bin (or by their last step)"); }
		sx_close(it->xp() * 1e3, f.p.xp() * 1e3, 1e-6, "horizontal slope"); sx_close(it->yp() * 1e3, f.p.yp() * 1e3, 1e-6, "vertical slope"); sx_close(it->dp() * 1e3, f.p.dp() * 1e3, 1e-6, "momentum"); } }
	sx_close(b.begin()->x(), q.x() + q.xp() * L, 1e-12, "particles in the gap"); sx_assert(b.begin()->dp() == 0, "particles in the gap"); sx_close(b.GetTotalCharge() / size, 2, 1e-9, "charge per particle");
}
static const double SEQ[5][6] = {{9, 9, 9, 9, 9, 9}, {0.4, 9, 9, 9, 9, 9}, {0.2, 0.5, 9, 9, 9, 9}, {0.7, 0.3, 0.4, 9, 9, 9}, {9, 0.4, 9, 9, 9, 9}};
SX_HARNESS(transport, "protons of 7 TeV through one bin: up to three scatters, tapered jaws") { varied = false; int t = sx_choose("taper", -1, 1); go(7000, 0, t * 1e-3, SEQ[sx_choose("paths", 0, 3)], sx_bool("kick") ? 2e-4 : -2e-4, 5, true, 1, 2.69, t < 0 ? 1e-5 : 6e-4); }
SX_HARNESS(outwards, "protons kicked out of the jaw: taken to the end of the bin unless they come back in") { int t = sx_choose("taper", -1, 1); go(7000, 0, t * 2e-3, SEQ[sx_choose("paths", 1, 3)], -4e-3, 5, true, 1, 2.69, 1.05e-3 - 1e-4 * (t < 1)); }
SX_HARNESS(across, "protons that cross the gap into the other jaw go on scattering") { width = 1.6e-3; varied = false; int t = sx_choose("taper", -1, 1); go(7000, 0, t * 2e-3, SEQ[sx_choose("paths", 1, 3)], -2e-3, 5, sx_bool("keep"), 1, 2.69, t < 0 ? -5e-4 : t ? 5e-4 : 1e-5); }
SX_HARNESS(escape, "protons that leave the jaw arrive at the end of the bin") { escapes = true; go(7000, 0, 0, SEQ[sx_choose("paths", 1, 3)], -4e-3, 5, true, 1, 2.69, 6e-4); }
SX_HARNESS(bins, "two bins: the second starts where the first ends") { int n = sx_choose("paths", 0, 3); bool out = sx_bool("out"); go(7000, 0, 0, SEQ[n == 3 ? 4 : n], out ? -2e-3 : 1e-4, 5, n != 3 || out, 2, 2.69, n == 3 ? 6e-4 : 1e-4); }
SX_HARNESS(absorbed, "protons absorbed, slowed below 5 percent or a hundredth of the reference energy, or below 1 GeV, are lost and reported once where it happens")
{
	int how = sx_choose("how", 0, 3); const double* s = SEQ[sx_choose("paths", 1, 3)];
	if(how == 0) go(7000, 0, 0, s, 1e-4, 5, false, 1, 2.69); else if(how == 1) go(7000, -0.3, 0, s, 1e-4, 1800, true, 1, 2.69); else if(how == 2) go(7000, -0.9, 0, s, 0, 0, true, 1, 1700); else go(3, 0, 0, s, 0, 0, true, 1, 5.2);
}
