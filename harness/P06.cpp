// P06: the step manager advances all processes together over the whole element
//@ time: *=25
#include "hx.h"
#include <memory>
#include <vector>
#include <list>
#include "ProcessStepManager.h"
#include "BunchProcess.h"
#include "Bunch.h"
#include "Drift.h"
#include "Marker.h"
#include "Components.h"
#include "ComponentTracker.h"
#include "ComponentStepper.h"
#include "ParticleBunch.h"
#include "TrackingSimulation.h"
#include "ParticleTracker.h"
using namespace ParticleTracking;
struct Call { int who; char what; double ds; };
static std::vector<Call> calls;
struct Rec : BunchProcess
{
	int me; double mx, rem; bool every, on; AcceleratorComponent* seen = nullptr; int ini = 0; static int dead;
	// every: steps of mx counted from the entrance; otherwise mx is a fixed limit
	Rec(int m, int prio, double x, bool act = true, bool ev = false) : BunchProcess("R" + std::to_string(m), prio), me(m), mx(x), rem(x), every(ev), on(act) { active = act; }
	~Rec() { dead++; }
	void InitialiseProcess(Bunch&) { ini++; calls.push_back({me, 'i', 0}); }
	void SetCurrentComponent(AcceleratorComponent& c) { seen = &c; rem = mx; calls.push_back({me, 'c', 0}); }
	void DoProcess(double ds) { calls.push_back({me, 'd', ds}); rem -= ds; if(every & (rem < 1e-9)) rem = mx; }
	double GetMaxAllowedStepSize() const { return every ? rem : mx; }
};
int Rec::dead;
static ParticleBunch* theBunch() { return new ParticleBunch(1.0, 1.0); }
SX_HARNESS(steps, "2-3 processes with symbolic step limits 0.5..5 (one of them counting from the entrance, one possibly inactive), element length 0.3..1.6")
{
	calls.clear();
	double L = sx_double("L", 0.3, 1.6), m1 = sx_double("m1", 0.5, 5), m2 = sx_double("m2", 0.5, 5);
	bool inact = sx_bool("inactive"), ev = sx_bool("every");
	ProcessStepManager M; Rec *a = new Rec(0, 1, m1, true, ev), *b = new Rec(1, 2, m2), *c = new Rec(2, 0, 0.05, !inact ? false : false);
	Rec* e = inact ? nullptr : new Rec(3, 3, 1.0);
	M.AddProcess(a); M.AddProcess(b); M.AddProcess(c); if(e) M.AddProcess(e);
	std::unique_ptr<ParticleBunch> bun(theBunch()); M.Initialise(*bun);
	sx_assert((a->ini == 1) & (b->ini == 1) & (c->ini == 1), "every process is initialised once");
	sx_close(M.GetIntegratedLength(), 0, 1e-9, "integrated length after initialisation");
	calls.clear(); Drift d("D", L); M.Track(d);
	sx_assert((a->seen == &d) & (b->seen == &d) & (c->seen == &d), "every process is told the element");
	int nc[4] = {0, 0, 0, 0}; double sum = 0, left = m1; bool started = false;
	for(auto& k : calls)
	{
		if(k.what == 'c') { nc[k.who]++; sx_assert(!started, "all processes are told the element before the first step"); }
		else started = true;
		sx_assert(!(k.what == 'd' && k.who == 2), "an inactive process does not act");
	}
	sx_assert((nc[0] == 1) & (nc[1] == 1) & (nc[2] == 1), "every process is told the element exactly once");
	size_t per = e ? 3 : 2, n = 0; std::vector<double> st;
	std::vector<Call> dd; for(auto& k : calls) if(k.what == 'd') dd.push_back(k);
	sx_assert(dd.size() % per == 0 && dd.size() > 0, "all active processes act in every step");
	for(size_t i = 0; i + per <= dd.size(); i += per)
	{
		sx_assert(dd[i].who == 0 && dd[i + 1].who == 1 && (!e || dd[i + 2].who == 3), "active processes act in order of priority");
		double ds = dd[i].ds;
		for(size_t j = 1; j < per; j++) sx_close(dd[i + j].ds, ds, 1e-12, "all active processes make the same step");
		sx_assert((ds <= m2 + 1e-9) & (ds <= (e ? 1.0 : 5) + 1e-9) & (ds <= (ev ? left : m1) + 1e-9), "no step exceeds what a process allows");
		double l1 = ev ? left : m1;
		sx_assert(ds <= L - sum + 1e-9, "no step leaves the element");
		sx_assert(within(ds - m2, 1e-9) | within(ds - (e ? 1.0 : 5.0), 1e-9) | within(ds - l1, 1e-9) | within(ds - (L - sum), 1e-9), "the step is the largest all processes allow");
		sum += ds; n++;
		if(ev) { left -= ds; if(left < 1e-9) left = m1; }
	}
	sx_close(sum, L, 1e-9, "the steps cover the element exactly");
	sx_close(M.GetIntegratedLength(), L, 1e-9, "integrated length");
}
SX_HARNESS(lengths, "three elements of symbolic and zero length, re-initialised or not: integrated length and zero-length step")
{
	calls.clear(); ProcessStepManager M; M.AddProcess(new Rec(0, 0, 10));
	std::unique_ptr<ParticleBunch> bun(theBunch()); M.Initialise(*bun);
	double a = sx_double("a", 0.1, 3), b = sx_double("b", 0.1, 3); Drift A("A", a), B("B", b); Marker K("K");
	M.Track(A); calls.clear(); M.Track(K);
	int n = 0; double s = 0; for(auto& k : calls) if(k.what == 'd') { n++; s += k.ds; }
	sx_assert(n == 1, "a zero-length element is one step"); sx_close(s, 0, 1e-12, "of zero length");
	sx_close(M.GetIntegratedLength(), a, 1e-9, "integrated length");
	if(sx_bool("again")) { M.Initialise(*bun); M.Track(B); sx_close(M.GetIntegratedLength(), b, 1e-9, "integrated length restarts at initialisation"); }
	else { M.Track(B); sx_close(M.GetIntegratedLength(), a + b, 1e-9, "integrated length adds up"); }
}
SX_HARNESS(order, "four processes with any priorities -1..3 added in any such combination: order of action; removing one of them or an absent one; clearing")
{
	calls.clear(); Rec::dead = 0; int p[4]; std::vector<Rec*> r; std::list<int> want;
	{
		ProcessStepManager M;
		for(int i = 0; i < 4; i++)
		{
			p[i] = sx_choose(("p" + std::to_string(i)).c_str(), i < 3 ? 0 : -1, i < 3 ? 2 : 2); r.push_back(new Rec(i, p[i], 10)); M.AddProcess(r[i]);
		}
		std::vector<int> w; for(int pr = 0; pr < 3; pr++) for(int i = 0; i < 4; i++) if(p[i] == pr) w.push_back(i);
		for(int i = 0; i < 4; i++) if(p[i] < 0) w.push_back(i);
		std::unique_ptr<ParticleBunch> bun(theBunch()); M.Initialise(*bun); Drift d("D", 1); calls.clear(); M.Track(d);
		size_t k = 0; for(auto& c : calls) if(c.what == 'd') { sx_assert(k < w.size() && c.who == w[k], "processes act in order of priority, equal priorities in the order added"); k++; }
		sx_assert(k == 4, "all act");
		int rm = sx_choose("remove", 0, 4); Rec other(9, 0, 1);
		bool ok = M.RemoveProcess(rm == 4 ? &other : r[rm]);
		sx_assert(ok == (rm < 4), "removing reports whether the process was there");
		sx_assert(Rec::dead == 0, "removing does not destroy the process");
		calls.clear(); M.Track(d); k = 0;
		for(int i : w) if(i != rm) { while(k < calls.size() && calls[k].what != 'd') k++; sx_assert(k < calls.size() && calls[k].who == i, "the others are unaffected by a removal"); k++; }
		if(rm < 4) { sx_assert(!M.RemoveProcess(r[rm]), "a removed process is no longer there"); }
		int d0 = Rec::dead; if(sx_bool("clear")) { M.ClearProcesses(); sx_assert(Rec::dead - d0 == (rm < 4 ? 3 : 4), "clearing destroys the processes"); calls.clear(); M.Track(d); sx_assert(calls.empty(), "cleared"); }
		if(rm < 4) delete r[rm];
	}
	sx_assert(Rec::dead == 5, "every process is destroyed exactly once");
}
struct TI : ComponentIntegrator
{
	int id; static int ent, ext; static double sum; static std::vector<int> log; static int deadI;
	TI(int i) : id(i) {} ~TI() { deadI++; }
	int GetComponentIndex() const { return id; }
	void TrackStep(double ds) { sum += ds; log.push_back(id); }
	void TrackEntrance() { ent++; } void TrackExit() { ext++; }
};
int TI::ent, TI::ext, TI::deadI; double TI::sum; std::vector<int> TI::log;
struct Trk : ComponentTracker { Trk() : ComponentTracker() {} bool reg(ComponentIntegrator* i) { return Register(i); } };
SX_HARNESS(tracker, "a component tracker driven in 1-3 steps with symbolic interior cuts or in one go, twice with elements of different length")
{
	TI::ent = TI::ext = 0; TI::sum = 0; TI::log.clear();
	Trk t; t.reg(new TI(Drift::ID)); double L = sx_double("L", 0.2, 5); int n = sx_choose("n", 0, 3); bool second = sx_bool("second");
	Drift d("D", second ? 1.5 : L), d2("E", L);
	sx_assert(t.GetState() == ComponentTracker::undefined, "initial state");
	if(second) { d.PrepareTracker(t); t.TrackStep(1.0); t.TrackStep(0.5); sx_assert(t.GetState() == ComponentTracker::finished, "finished"); TI::ent = TI::ext = 0; TI::sum = 0; }
	Drift& c = second ? d2 : d;
	c.PrepareTracker(t); sx_assert(t.GetState() == ComponentTracker::initialised, "state after selecting an integrator");
	sx_close(t.GetRemainingLength(), L, 1e-9, "remaining length at start"); sx_close(t.GetIntegratedLength(), 0, 1e-9, "integrated length at start");
	if(n == 0) { t.Track(); sx_assert(t.GetState() == ComponentTracker::finished, "state after tracking all"); }
	else
	{
		double s = 0; double cut[4] = {0, 0, 0, 0}; for(int i = 1; i < n; i++) { cut[i] = sx_double(("c" + std::to_string(i)).c_str(), 0.01, 5); sx_assume((cut[i] > cut[i - 1] + 0.01) & (cut[i] < L - 0.01)); }
		cut[n] = L; sx_assume((n == 1) | (cut[n - 1] >= L / 2));   // the last step is then exact in doubles too
		for(int i = 1; i <= n; i++)
		{
			double rest = t.TrackStep(i == n ? t.GetRemainingLength() : cut[i] - cut[i - 1]);
			sx_close(rest, L - cut[i], 1e-9, "a step returns the remaining distance"); sx_close(t.GetRemainingLength(), L - cut[i], 1e-9, "remaining length"); sx_close(t.GetIntegratedLength(), cut[i], 1e-9, "integrated length of the element");
			sx_assert(t.GetState() == (i == n ? ComponentTracker::finished : ComponentTracker::tracking), "state while stepping");
			sx_assert((TI::ent == 1) & (TI::ext == (i == n)), "entrance and exit are applied at the ends only");
		}
	}
	sx_close(TI::sum, L, 1e-9, "the whole element is integrated"); sx_assert((TI::ent == 1) & (TI::ext == 1), "entrance and exit are applied exactly once");
	t.Reset(); sx_assert(t.GetState() == ComponentTracker::undefined, "reset");
}
SX_HARNESS(integrator_choice, "selection of integrators: exact type, fallback to the base type, unknown types, replacement")
{
	TI::log.clear(); int k = sx_choose("case", 0, 5); double L = sx_double("L", 0.5, 2);
	Trk t; sx_assert(!t.reg(new TI(Drift::ID)), "registering a new integrator"); sx_assert(!t.reg(new TI(RectMultipole::ID)), "registering a new integrator");
	bool thrown = false;
	auto go = [&](AcceleratorComponent& c) { try { c.PrepareTracker(t); t.TrackStep(c.GetLength()); } catch(ComponentTracker::UnknownComponent&) { thrown = true; } };
	if(k == 0) { Drift d("D", L); go(d); sx_assert(!thrown && TI::log.size() == 1 && TI::log[0] == Drift::ID, "integrator of the element type"); }
	if(k == 1) { Quadrupole q("Q", L, 1.0); go(q); sx_assert(!thrown && TI::log.size() == 1 && TI::log[0] == RectMultipole::ID, "elements without an integrator of their own use that of their base type"); }
	if(k == 2) { t.reg(new TI(Quadrupole::ID)); Quadrupole q("Q", L, 1.0); go(q); sx_assert(!thrown && TI::log.size() == 1 && TI::log[0] == Quadrupole::ID, "a specific integrator takes precedence"); }
	if(k == 3) { SectorBend b("B", L, 0.1, 1.0); go(b); sx_assert(thrown && TI::log.empty(), "an element without an integrator is refused"); }
	if(k == 4) { int d0 = TI::deadI; sx_assert(t.reg(new TI(Drift::ID)), "replacing an integrator is reported"); sx_assert(TI::deadI == d0 + 1, "the replaced integrator is destroyed"); Drift d("D", L); go(d); sx_assert(TI::log.size() == 1, "the replacement works"); }
	if(k == 5) { Marker m("M"); go(m); sx_assert(!thrown, "markers need no integrator"); }
}
SX_HARNESS(divider, "a component divider with 1-5 steps, symbolic length, no minimum step or one that does not matter; stepping to the boundaries in one or two pieces")
{
	int n = sx_choose("n", 1, 5); double L = sx_double("L", 0.5, 5), m = sx_bool("min") ? 0.09 : 0; bool again = sx_bool("again");
	ComponentDivider D(n, m); Drift d("D", L), e("E", 1.3);
	if(again) { D.SetComponent(e); D.Increment(1.3 / n / 2); }
	D.SetComponent(d);
	double f = sx_double("f", 0.1, 0.9); bool split = sx_bool("split");
	for(int i = 0; i < n; i++)
	{
		sx_close(D.DistanceToStepBoundary(), L / n, 1e-9, "equal steps");
		if(split) { double st = f * L / n; bool b = D.Increment(st); sx_assert(!b, "no boundary inside a step"); sx_close(D.DistanceToStepBoundary(), L / n - st, 1e-9, "distance to the boundary"); }
		sx_assert(D.Increment(D.DistanceToStepBoundary()), "boundary reached");
	}
}
SX_HARNESS(divider_minimum, "a minimum step that forces fewer steps: equal steps, at least one, no more than asked for, closest to the minimum from one side or the other")
{
	double L = sx_double("L", 0.2, 4); ComponentDivider D(20, 0.5); Drift d("D", L); D.SetComponent(d);
	double st = D.DistanceToStepBoundary(), r = L / st; bool ok = false;
	for(int k = 1; k <= 20; k++) ok = ok | (within(r - k, 1e-6) & ((k - 1) * 0.5 <= L + 1e-6) & ((k + 1) * 0.5 >= L - 1e-6));
	sx_assert(ok, "steps adjusted to the minimum step");
}
