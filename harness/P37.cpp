// P37: hollow electron lens
//@ time: *=50
#include "hx.h"
#include <memory>
#include <sstream>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "HollowElectronLens.h"
#include "HollowELensProcess.h"
#include "PhysicalConstants.h"
#include "RandomNG.h"
using namespace ParticleTracking;
static const double T = 1e-6, S = 1e-3;
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static double betaP(double p) { double m = 0.938272; double g2 = 1 + p * p / (m * m); return std::sqrt(1 - 1 / g2); }
struct Lens { double rmin = 2, rmax = 4, cur = 5, be = 0.2, rig = 25000, le = 3, p = 7000; bool with = false, radial = false, lhc = false; double dx = 0, dy = 0; };   // radii in mm
static HollowElectronLens* make(const Lens& l, int mode = 0) { HollowElectronLens* h = new HollowElectronLens("H", 2, mode, l.cur, l.be, l.rig, l.le); h->SetRadii(l.rmin * S, l.rmax * S); if(l.with) h->SetElectronDirection(false); if(l.radial) h->SetRadialProfile(); if(l.lhc) h->SetLHCRadialProfile(); h->XOffset = l.dx * S; h->YOffset = l.dy * S; return h; }
// inward kick in units of the one of the whole current at 1 mm
static double unit(const Lens& l) { double b = betaP(l.p); return 2 * l.le * l.cur * (l.with ? -(1 - l.be * b) : 1 + l.be * b) / (1e7 * l.rig * l.be * b * S); }
static double once(const Lens& l, HollowElectronLens& h, PSvector* p, int n) { Quiet q; ParticleBunch b(l.p, 1); for(int i = 0; i < n; i++) b.push_back(p[i]); HollowELensProcess hp(1); hp.InitialiseProcess(b); hp.SetCurrentComponent(h); sx_assert(hp.IsActive(), "active in lenses"); hp.DoProcess(0); sx_assert((int) b.size() == n, "no particle is added or lost"); sx_close(b.GetTotalCharge(), n, T, "charge"); for(int i = 0; i < n; i++) p[i] = b.GetParticles()[i]; Drift d("D", 1); hp.SetCurrentComponent(d); sx_assert(!hp.IsActive(), "not active elsewhere"); return 0; }
static Lens lens() { Lens l; int v = sx_choose("lens", 0, 3); if(v & 1) { l.p = 5000; l.be = 0.5; l.le = 2; } l.with = v & 2; return l; }
// a bunch particle at distance r from the lens in a chosen direction, with its kick measured along and across
static PSvector at(const Lens& l, double r, int dir, double& ux, double& uy) { static const double c[6][2] = {{1, 0}, {0, 1}, {-1, 0}, {0.6, -0.8}, {-0.28, 0.96}, {0, -1}}; ux = c[dir][0]; uy = c[dir][1]; PSvector p(0); p.x() = S * (l.dx + r * ux); p.y() = S * (l.dy + r * uy); p.xp() = 1e-5; p.yp() = -2e-5; p.ct() = 0.1; p.dp() = 1e-3; return p; }
static void check(const Lens& l, const PSvector& p, const PSvector& q, double ux, double uy, double r, double want, const char* what)
{
	double U = unit(l), kx = (q.xp() - p.xp()) / U, ky = (q.yp() - p.yp()) / U; sx_close((kx * ux + ky * uy) * r, -want, T, what); sx_close(kx * uy - ky * ux, 0, T, "kick along the radius"); for(int i : {0, 2, 4, 5}) sx_close(q[i], p[i], 1e-15, "only the slopes change");
}
SX_HARNESS(perfect, "uniform profile, any distance in six directions, any current or effective length, electrons either way, displaced lenses")
{
	Lens l = lens(); if(sx_bool("displaced")) { l.dx = 1; l.dy = -0.5; } if(sx_bool("length")) l.le = sx_double("le", 0.5, 5); else l.cur = sx_double("current", 0.5, 10); double r = sx_double("r", 0.1, 40), ux, uy; PSvector p = at(l, r, sx_choose("direction", 0, 5), ux, uy), q(p); std::unique_ptr<HollowElectronLens> h(make(l)); once(l, *h, &q, 1); double f = r <= l.rmin ? 0 : r >= l.rmax ? 1 : (r * r - l.rmin * l.rmin) / (l.rmax * l.rmax - l.rmin * l.rmin); check(l, p, q, ux, uy, r, f, "kick of the current inside");
}
SX_HARNESS(anywhere, "uniform profile, any position")
{
	Lens l; l.dx = 0.5; double x = sx_double("x", -6, 6), y = sx_double("y", -6, 6); PSvector p(0); p.x() = x * S; p.y() = y * S; double rx = x - l.dx, r2 = rx * rx + y * y; sx_assume(r2 > 0.01); sx_assume(beyond(rx, 0.01)); PSvector q(p); std::unique_ptr<HollowElectronLens> h(make(l)); once(l, *h, &q, 1); double U = unit(l); double f = r2 <= 4 ? 0 : r2 >= 16 ? 1 : (r2 - 4) / 12; sx_close(q.xp() / U * r2, -f * rx, T, "horizontal kick"); sx_close(q.yp() / U * r2, -f * y, T, "vertical kick");
}
static double inside(double r, double rmin, bool lhc) { double e[5] = {222.5, lhc ? 265. : 252.5, lhc ? 315. : 287., lhc ? 435. : 364.5, lhc ? 505. : 426.5}, v[5] = {0, 917, 397, 228, 0}, sum = 0, tot = 0; for(int i = 0; i < 4; i++) { double a = e[i] / e[0] * rmin, b = e[i + 1] / e[0] * rmin; auto seg = [&](double to) { double vt = v[i] + (v[i + 1] - v[i]) * (to - a) / (b - a), m = (a + to) / 2; return (to - a) / 6 * (v[i] * a + 4 * (v[i] + vt) / 2 * m + vt * to); }; double full = seg(b); tot += full; if(r >= b) sum += full; else if(r > a) sum += seg(r); } return sum / tot; }
SX_HARNESS(measured, "measured profiles, any distance in six directions")
{
	Lens l = lens(); l.radial = true; l.lhc = sx_bool("lhc"); l.rmin = l.with ? 3 : 2; if(l.p < 6000) { l.dx = 1; l.dy = -0.5; } double r = sx_double("r", 0.1, 40), ux, uy; PSvector p = at(l, r, sx_bool("direction") ? 3 : 2, ux, uy), q(p); std::unique_ptr<HollowElectronLens> h(make(l)); once(l, *h, &q, 1); check(l, p, q, ux, uy, r, inside(r, l.rmin, l.lhc), "kick of the current inside, measured profile");
}
SX_HARNESS(modes, "alternating current, random and skipping modes, turn after turn")
{
	Lens l; l.radial = sx_bool("measured"); int mode = sx_choose("mode", 1, 3); std::unique_ptr<HollowElectronLens> h(make(l, 0)); double tune = 0.31, dt = 0, var = 0, tps = 1, mult = 1; int skip = 0, seed = 0; if(mode == 1) { tune = sx_double("tune", 0.1, 0.5); int c = sx_choose("sweep", 0, 2); if(c) { dt = c == 1 ? 0.002 : 0.01; var = 0.001; tps = c == 1 ? 1 : 3; mult = c == 1 ? 2 : 1; } h->SetAC(tune, dt, var, tps, mult); } else if(mode == 2) { h->SetOpMode(Diffusive); seed = 77 + sx_choose("seed", 0, 2); RandomNG::init(seed); } else { skip = sx_choose("skip", 0, 3); h->SetTurnskip(skip); if(!skip) skip = 2; }
	int steps = 1 + (int) (2 * dt / 0.001 + 0.5); std::vector<double> rnd; if(mode == 2) { for(int i = 0; i < 8; i++) rnd.push_back(RandomNG::uniform(-1, 1)); RandomNG::init(seed); } PSvector c[2]; double ux, uy; c[0] = at(l, mode == 1 ? 3.2 : sx_double("r", 2.1, 3.9), 3, ux, uy); c[1] = at(l, 5, 3, ux, uy); double r[2] = {(c[0].x() - 0) / S / ux, 5}; for(int t = 1; t <= 7; t++) { PSvector q[2] = {c[0], c[1]}; once(l, *h, q, 2); double on = 1; if(mode == 1) { double Q = var ? tune - dt + (t / (int) tps % steps) * var : tune; on = 0.5 * (1 + std::cos(2 * M_PI * mult * t * Q)); } else if(mode == 2) on = rnd[t - 1] >= 0; else on = t % skip == 0; for(int i = 0; i < 2; i++) check(l, c[i], q[i], ux, uy, r[i], on * (l.radial ? inside(r[i], l.rmin, false) : i ? 1 : (r[0] * r[0] - 4) / 12), "kick of the turn"); }
}
SX_HARNESS(tracking, "a bunch tracked through a line with a lens")
{
	Lens l; AcceleratorModelConstructor c; c.AppendDrift(1); c.AppendComponent(make(l)); c.AppendDrift(0.5); std::unique_ptr<AcceleratorModel> m(c.GetModel()); double x = sx_double("x", 2.1, 3.9); PSvector p(0); p.x() = x * S; p.xp() = S * 1e-2; ParticleBunch* b = new ParticleBunch(l.p, 1); b->push_back(p); p.x() = S; b->push_back(p); Quiet q; ParticleTracker t(m->GetBeamline(), b); t.AddProcess(new HollowELensProcess(1)); t.Run(); double f[2] = {0, 0}; for(int i = 0; i < 2; i++) { double r = (i ? 1 : x) + 3 * 1e-2, rel = r < 2 ? 0 : r > 4 ? 1 : (r * r - 4) / 12; f[i] = -rel * unit(l) / r; const PSvector& o = t.GetTrackedBunch().GetParticles()[i]; sx_close((o.xp() - S * 1e-2) / unit(l) * r, -rel, T, "kick once at the end of the lens"); sx_close(o.x() / S, r + 0.5e-2 + 0.5 * f[i] / S, T, "position behind"); }
}
SX_HARNESS(velocity, "uniform profile, slow protons, any distance")
{
	Lens l; l.p = sx_bool("450 GeV") ? 450 : 1; double r = sx_double("r", 4.1, 9), ux, uy; PSvector p = at(l, r, 1, ux, uy), q(p); std::unique_ptr<HollowElectronLens> h(make(l)); once(l, *h, &q, 1); sx_close((q.yp() - p.yp()) / unit(l) * r, -1, T, "kick of slow protons");
}
