// P04: collimation removes exactly the particles outside the aperture, and accounts for each of them
//@ time: *=25
#include "hx.h"
#include <memory>
#include <vector>
#include <list>
#include "CollimateParticleProcess.h"
#include "ProcessStepManager.h"
#include "ParticleBunch.h"
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "Aperture.h"
#include "Drift.h"
#include "Marker.h"
#include "StandardMultipoles.h"
#include "ParticleComponentTracker.h"
#include "Components.h"
using namespace ParticleTracking;
static const double A = 0.02;
struct Wall : Aperture { mutable int n = 0; bool CheckWithinApertureBoundaries(double x, double, double) const { n++; return x < A; } std::string GetType() { return "WALL"; } };
// straight transport of the bunch
struct Mv : ParticleBunchProcess
{
	Mv() : ParticleBunchProcess("MV", 0) {}
	void SetCurrentComponent(AcceleratorComponent&) { active = true; }
	void DoProcess(double ds) { for(auto& p : *currentBunch) { p.x() += p.xp() * ds; p.y() += p.yp() * ds; } }
	double GetMaxAllowedStepSize() const { return 1e9; }
};
struct Rep { AcceleratorComponent* c; double pos; int turn; int id; };
struct Out : CollimationOutput { std::vector<Rep> r; void Dispose(AcceleratorComponent& c, double pos, Particle& p, int turn) { r.push_back({&c, pos, turn, (int) p.id()}); } };
static PSvector part(int i, double x, double xp) { PSvector p(0); p.x() = x; p.xp() = xp; p.y() = 0.001 * i; p.yp() = 1e-4 * i; p.dp() = 1e-3 * i; p.ct() = 0; p.id() = i; return p; }
struct Sys { ProcessStepManager M; CollimateParticleProcess* c; Out* o; Sys(CollimateParticleProcess* cp) : c(cp), o(new Out) { M.AddProcess(new Mv); M.AddProcess(c); c->SetCollimationOutput(o); } ~Sys() { delete o; } };
static void go(int mode, double L, double bin, int npart, bool own)
{
	Sys S(new CollimateParticleProcess(1, mode)); if(bin != 0.1) S.c->SetOutputBinSize(bin);
	sx_close(S.c->GetOutputBinSize(), bin, 1e-12, "bin size");
	std::list<size_t> mine; if(own) S.c->IndexParticles(mine); else S.c->IndexParticles(true);
	ParticleBunch b(10, 4.0); std::vector<PSvector> in;
	for(int i = 0; i < npart; i++) { double x = sx_double(sx_n("x", i).c_str(), -0.01, 0.04), xp = sx_double(sx_n("xp", i).c_str(), -0.1, 0.1); in.push_back(part(i, x, xp)); }
	in.insert(in.begin() + 1, part(npart, 0, 0)); in.push_back(part(npart + 1, 0.001, 0));              // these are never lost
	std::vector<double> at; if(mode & 1) at.push_back(0); if(mode & 2) at.push_back(L / 2); if(mode & 4) at.push_back(L);
	for(auto& p : in) { b.AddParticle(p); for(double z : at) sx_assume(beyond(p.x() + p.xp() * z - A, 1e-6)); for(double z = 0; z < L + 0.01; z += bin) sx_assume(beyond(p.x() + p.xp() * std::min(z, L) - A, 1e-7)); }
	double q = b.GetTotalCharge(); size_t n0 = in.size();
	Drift d("D", L); Wall w; d.SetAperture(&w);
	S.M.Initialise(b); S.M.Track(d);
	std::vector<int> alive, dead;
	for(size_t i = 0; i < n0; i++)
	{
		bool lost = false; for(double z : at) lost = lost | (in[i].x() + in[i].xp() * z > A);
		bool found = false; for(auto& p : b) if((int) p.id() == (int) in[i].id()) { sx_assert(!found, "a particle is kept once"); found = true; }
		sx_assert(found == !lost, "a particle is removed if and only if it is outside at a collimation point");
		if(found) alive.push_back(i); else dead.push_back(i);
	}
	sx_assert(b.size() == alive.size(), "no other particles"); if(b.size() != alive.size()) return;
	const std::list<size_t>& ix = S.c->GetIndexes(); sx_assert(ix.size() == alive.size(), "one index per surviving particle");
	auto it = ix.begin(); size_t k = 0;
	for(auto& p : b)
	{
		const PSvector& e = in[alive[k]]; sx_assert(p.id() == e.id(), "survivors keep their order");
		sx_close(p.x(), e.x() + e.xp() * L, 1e-9, "survivors are untouched"); sx_close(p.xp(), e.xp(), 1e-12, "survivors are untouched"); sx_close(p.y(), e.y() + e.yp() * L, 1e-9, "survivors are untouched"); sx_close(p.yp(), e.yp(), 1e-12, "survivors are untouched"); sx_close(p.dp(), e.dp(), 1e-12, "survivors are untouched"); sx_close(p.ct(), e.ct(), 1e-12, "survivors are untouched");
		if(it != ix.end()) { sx_assert(*it == (size_t) alive[k], "indices follow the particles"); ++it; }
		k++;
	}
	sx_close(b.GetTotalCharge(), q / n0 * alive.size(), 1e-9, "charge per particle is unchanged"); sx_close(b.GetReferenceMomentum(), 10, 1e-12, "reference momentum unchanged");
	sx_assert(S.o->r.size() == dead.size(), "every lost particle is reported exactly once");
	for(int i : dead)
	{
		int c = 0; for(auto& r : S.o->r) if(r.id == (int) in[i].id())
		{
			c++; sx_assert(r.c == &d, "reported in its element"); sx_assert(r.turn == 1, "reported with the turn");
			sx_assert((r.pos >= 0) & (r.pos <= L + 1e-12), "reported inside the element");
			double x = in[i].x(), xp = in[i].xp();
			if(r.pos < L - 1e-9) sx_assert(x + xp * r.pos > A, "reported where it is outside the aperture");
			if(r.pos > 1e-9) { double z = bin * std::floor((r.pos - 1e-9) / bin); sx_assert(x + xp * z < A, "reported where it first is outside the aperture"); }
		}
		sx_assert(c == 1, "every lost particle is reported exactly once");
	}
}
static const double LS[] = {0.35, 1.0, 0.04, 0.5}, BS[] = {0.1, 0.25, 0.1, 0.1};
SX_HARNESS(modes, "every combination of collimation points, two particles of any x, x' and one that is safe, an element of 0.35 m in bins of 0.1 m") { go(sx_choose("mode", 1, 7), LS[0], BS[0], 2, false); }
SX_HARNESS(lengths, "one particle of any x, x' and one that is safe: element lengths 1, 0.04, 0.5 m, bins of 0.1 and 0.25 m, own or supplied index list, each collimation point and all") { int m = sx_choose("mode", 0, 3), i = sx_choose("L", 1, 3); go(m == 3 ? 7 : 1 << m, LS[i], BS[i], 1, sx_bool("own")); }
SX_HARNESS(zero_length, "an element of zero length: three particles of any x")
{
	Sys S(new CollimateParticleProcess(1, sx_bool("m") ? COLL_AT_EXIT : COLL_AT_ENTRANCE)); ParticleBunch b(10, 4.0); double x[4];
	for(int i = 0; i < 4; i++) { x[i] = i == 3 ? 0 : sx_double(sx_n("x", i).c_str(), -0.01, 0.04); sx_assume(beyond(x[i] - A, 1e-6)); b.AddParticle(part(i, x[i], 0.01)); }
	Marker k("K"); Wall w; k.SetAperture(&w); S.M.Initialise(b); S.M.Track(k);
	int n = 0; for(int i = 0; i < 4; i++)
	{
		bool in = x[i] < A, f = false; for(auto& p : b) if((int) p.id() == i) { f = true; sx_close(p.x(), x[i], 1e-12, "survivors are untouched"); }
		sx_assert(f == in, "a particle is removed if and only if it is outside"); int c = 0;
		for(auto& r : S.o->r) if(r.id == i) { c++; sx_close(r.pos, 0, 1e-12, "position in an element of zero length"); sx_assert(r.c == &k, "reported in its element"); }
		sx_assert(c == (in ? 0 : 1), "every lost particle is reported exactly once"); n += f;
	}
	sx_assert((int) b.size() == n, "no other particles");
}
// the real transport of the bunch, in one step
struct Tr : ParticleBunchProcess
{
	ParticleComponentTracker t; Tr() : ParticleBunchProcess("TR", 0), t() {}
	void InitialiseProcess(Bunch& b) { ParticleBunchProcess::InitialiseProcess(b); t.SetBunch(*currentBunch); }
	void SetCurrentComponent(AcceleratorComponent& c) { active = true; c.PrepareTracker(t); }
	void DoProcess(double ds) { t.TrackStep(ds); }
	double GetMaxAllowedStepSize() const { return 1e9; }
};
SX_HARNESS(magnet, "one or two particles of any x lost in a focusing or defocusing quadrupole of 1 m, bunches of either charge with or without survivors: where the particle leaves the aperture")
{
	bool neg = sx_bool("negative"), safe = sx_bool("survivor"); double g = sx_bool("defocusing") ? -1 : 1; int n = !safe && g < 0 ? sx_choose("n", 1, 2) : 1; ProcessStepManager M; M.AddProcess(new Tr); CollimateParticleProcess* c = new CollimateParticleProcess(1, COLL_AT_EXIT); M.AddProcess(c); std::unique_ptr<Out> o(new Out); c->SetCollimationOutput(o.get()); c->SetLossThreshold(200);
	ParticleBunch b(10, neg ? -4.0 : 4.0); double x[2], xp[2]; Quadrupole q("Q", 1, g * 10 / 0.299792458); Wall w; q.SetAperture(&w); bool foc = neg ? g < 0 : g > 0;
	for(int i = 0; i < n; i++) { x[i] = sx_double(sx_n("x", i).c_str(), 0.001, 0.019); xp[i] = foc ? 0.05 : 0.005; PSvector p(0); p.x() = x[i]; p.xp() = xp[i]; p.id() = i; b.AddParticle(p); } if(safe) { PSvector p(0); p.id() = 7; b.AddParticle(p); }
	double at[2][11]; for(int i = 0; i < n; i++) for(int k = 0; k <= 10; k++) { double z = 0.1 * k, C = foc ? std::cos(z) : std::cosh(z), S = foc ? std::sin(z) : std::sinh(z); at[i][k] = C * x[i] + S * xp[i]; sx_assume(beyond(at[i][k] - A, 1e-5)); }
	M.Initialise(b); M.Track(q); size_t lost = 0;
	for(int i = 0; i < n; i++)
	{
		bool out = at[i][10] > A; size_t k = 0; for(auto& r : o->r) if(r.id == i) { k++; sx_assert(out, "lost particles only"); int z = (int) std::floor(10 * r.pos + 0.5); sx_close(r.pos, 0.1 * z, 1e-6, "one of the steps"); sx_assert(z >= 0 && z <= 10 && at[i][z] > A, "reported where it is outside the aperture"); if(z > 0) sx_assert(at[i][z - 1] < A, "reported where it first is outside the aperture"); } sx_assert(k == (out ? 1 : 0), "every lost particle is reported exactly once"); lost += out;
	}
	sx_assert(b.size() + lost == (size_t) n + safe, "the others survive");
}
SX_HARNESS(threshold, "losses over two elements, loss threshold 25, 50, 75, 100 % or the default: exception exactly when reached")
{
	static const double PC[] = {25, 50, 75, 100}; int t = sx_choose("thr", 0, 4);
	Sys S(new CollimateParticleProcess(1, COLL_AT_EXIT)); if(t < 4) S.c->SetLossThreshold(PC[t]); double thr = t < 4 ? PC[t] : 100;
	ParticleBunch b(10, 4.0); double x[4], xp[4];
	for(int i = 0; i < 4; i++) { x[i] = i == 0 ? 0.01 : i == 3 ? 0 : sx_double(sx_n("x", i).c_str(), -0.01, 0.04); xp[i] = i == 0 ? 0.1 : 0.01; sx_assume(beyond(x[i] - A, 0.001)); b.AddParticle(part(i, x[i], xp[i])); }
	Marker k("K"); Drift e("E", 0.5), f("F", 0.5); Wall w; k.SetAperture(&w); f.SetAperture(&w);
	S.M.Initialise(b); int lost = (x[1] > A) + (x[2] > A);
	bool thrown = false; try { S.M.Track(k); } catch(ExcessiveParticleLoss& ex) { thrown = true; }
	sx_assert(thrown == (lost > 0 && lost * 25 >= thr), "excessive loss is reported exactly when the threshold is reached"); if(thrown) return;
	S.M.Track(e); sx_assert((int) b.size() == 4 - lost, "no losses in elements without aperture");
	int l2 = lost; for(int i = 0; i < 4; i++) if(x[i] < A && x[i] + xp[i] > A) l2++;
	for(int i = 0; i < 4; i++) sx_assume(beyond(x[i] + xp[i] - A, 1e-4));
	try { S.M.Track(f); } catch(ExcessiveParticleLoss& ex) { thrown = true; }
	sx_assert(thrown == (l2 * 25 >= thr), "losses add up over the elements"); if(!thrown) sx_assert((int) b.size() == 4 - l2, "losses at the second element");
}
SX_HARNESS(turns, "one particle lost on the first, second or third turn or at the second element: reported with turn and element")
{
	Sys S(new CollimateParticleProcess(1, COLL_AT_EXIT)); ParticleBunch b(10, 4.0); double x = sx_double("x", -0.01, 0.03), xp = sx_double("xp", 0, 0.02);
	b.AddParticle(part(0, x, xp)); b.AddParticle(part(1, 0, 0)); for(int i = 0; i <= 8; i++) sx_assume(beyond(x + xp * i * 0.5 - A, 1e-5));
	bool same = sx_bool("same name"); Drift c("C", 0.5), d(same ? "C" : "D", 0.5); Wall w; c.SetAperture(&w); d.SetAperture(&w); c.SetComponentLatticePosition(0); d.SetComponentLatticePosition(0.5);
	S.M.Initialise(b); for(int t = 0; t < 3; t++) { S.M.Track(c); S.M.Track(d); }
	int at = -1; for(int i = 5; i >= 0; i--) if(x + xp * 0.5 * (i + 1) > A) at = i;
	sx_assert((b.size() == 1) == (at >= 0), "lost within three turns"); sx_assert((S.o->r.size() == 1) == (at >= 0), "reported");
	if(S.o->r.size() == 1 && at >= 0) { sx_assert(S.o->r[0].turn == at / 2 + 1, "reported with the turn"); sx_assert(S.o->r[0].c == (at % 2 ? (AcceleratorComponent*) &d : &c), "reported in its element"); }
}
// a collimator with scattering: what lies outside is handed to the scattering routine
struct Scat : CollimateParticleProcess
{
	std::vector<std::pair<int, double>> seen; double lim; Scat(double l) : CollimateParticleProcess(1, COLL_AT_EXIT), lim(l) {}
	ScatterOutcome DoScatter(Particle& p) { seen.push_back({(int) p.id(), p.x()}); if(p.x() > lim) return ScatterOutcome::absorbed; p.x() += p.xp() * GetOutputBinSize(); p.y() += p.yp() * GetOutputBinSize(); return ScatterOutcome::survived; }
};
SX_HARNESS(scattering, "a collimator of 0.1, 0.2 or 0.3 m with scattering, two particles of any x and slope: scattered once per bin if outside, untouched otherwise")
{
	int nb = sx_choose("bins", 1, 3); double L = 0.1 * nb; Scat* c = new Scat(0.03); c->ScatterAtCollimator(true); Sys S(c); ParticleBunch b(10, 4.0);
	double x[3], xp[3]; for(int i = 0; i < 3; i++) { x[i] = i == 1 ? 0 : sx_double(sx_n("x", i).c_str(), -0.01, 0.04); xp[i] = i == 1 ? 0 : sx_double(sx_n("xp", i).c_str(), 0, 0.05); b.AddParticle(part(i, x[i], xp[i])); for(int k = 0; k < nb; k++) { double z = x[i] + xp[i] * 0.1 * k; sx_assume(beyond(z - 0.02, 1e-5) & beyond(z - 0.03, 1e-5)); } }
	Collimator col("COL", L); CollimatorAperture ap(0.04, 1.0, 0, L, 0, 0); ap.SetExitWidth(0.04); ap.SetExitHeight(1.0); col.SetAperture(&ap);
	S.M.Initialise(b); S.M.Track(col); size_t alive = 0;
	for(int i = 0; i < 3; i++)
	{
		int n = 0; bool gone = false; double z = x[i];
		for(int k = 0; k < nb && !gone; k++) { z = x[i] + xp[i] * 0.1 * k; if(z > 0.02) { n++; if(z > 0.03) gone = true; } }
		int s = 0; for(auto& q : c->seen) if(q.first == i) s++;
		sx_assert(s == n, "scattered once per bin in which it is outside");
		bool f = false; for(auto& p : b) if((int) p.id() == i) { f = true; sx_close(p.x(), x[i] + xp[i] * L, 1e-9, "position after the collimator"); sx_close(p.xp(), xp[i], 1e-12, "slope after the collimator"); sx_close(p.y(), 0.001 * i + 1e-4 * i * L, 1e-9, "position after the collimator"); }
		sx_assert(f == !gone, "absorbed particles are removed, the others kept"); alive += f;
	}
	sx_assert(b.size() == alive, "no other particles");
}
SX_HARNESS(plain_collimator, "a collimator without scattering is a hard-edged aperture; a new bunch starts a new count")
{
	Sys S(new CollimateParticleProcess(1, COLL_AT_EXIT)); double x = sx_double("x", -0.04, 0.04); sx_assume(beyond(x - 0.02, 1e-5) & beyond(x + 0.02, 1e-5));
	Collimator col("COL", 0.3); CollimatorAperture ap(0.04, 1.0, 0, 0.3, 0, 0); ap.SetExitWidth(0.04); ap.SetExitHeight(1.0); col.SetAperture(&ap); S.c->SetLossThreshold(60);
	for(int k = 0; k < 3; k++)
	{
		ParticleBunch b(10, 4.0); b.AddParticle(part(0, x, 0)); b.AddParticle(part(1, 0, 0)); S.M.Initialise(b); S.M.Track(col);
		bool in = within(x, 0.02); sx_assert((b.size() == 2) == in, "hard edge"); sx_assert((S.o->r.size() == (size_t) (k + 1)) == !in, "reported once per bunch");
	}
}
SX_HARNESS(index_lists, "indices: switched on and off, supplied list kept by its owner, restarted with each bunch")
{
	double x = sx_double("x", 0, 0.04); sx_assume(beyond(x - A, 1e-5)); std::list<size_t> mine; Marker k("K"); Wall w; k.SetAperture(&w);
	{
		Sys S(new CollimateParticleProcess(1, COLL_AT_EXIT)); S.c->IndexParticles(true); int o = sx_choose("o", 0, 2);
		if(o == 1) S.c->IndexParticles(false); S.c->IndexParticles(mine); if(o == 2) { S.c->IndexParticles(false); S.c->IndexParticles(mine); }
		for(int j = 0; j < 2; j++) { ParticleBunch b(10, 4.0); b.AddParticle(part(0, x, 0)); b.AddParticle(part(1, 0, 0)); S.M.Initialise(b); sx_assert(mine.size() == 2 && mine.front() == 0 && mine.back() == 1, "indices at the start"); S.M.Track(k); sx_assert(mine.size() == b.size() && mine.back() == 1 && (x > A || mine.front() == 0), "indices of the survivors"); }
		sx_assert(&S.c->GetIndexes() == &mine, "the list supplied is the one used");
	}
	sx_assert(mine.size() == (x < A ? 2u : 1u), "the list survives the process");
}
