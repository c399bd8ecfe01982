// P08: a simulation visits the frames in order, with their transformations
//@ time: *=25
#include "hx.h"
#include <memory>
#include <vector>
#include "TrackingSimulation.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SequenceFrame.h"
#include "BunchProcess.h"
#include "BunchConstructor.h"
#include "ParticleBunch.h"
#include "PatchFrame.h"
#include "Drift.h"
#include "Marker.h"
#include "ring_iterator.h"
#include "TComponentFrame.h"
using namespace ParticleTracking;
static const double T = 1e-9;
struct Ev { char what; const void* who; double x, y; };   // what: i bunch initialised, c component, r record, b/e initial/final bunch, n new bunch
static std::vector<Ev> log_;
static Bunch* cur;
static double bx() { return static_cast<ParticleBunch*>(cur)->FirstParticle().x(); }
static double by() { return static_cast<ParticleBunch*>(cur)->FirstParticle().y(); }
struct Rec : BunchProcess
{
	int ini = 0; const void* refuse = nullptr; AcceleratorComponent* c = nullptr;
	Rec() : BunchProcess("REC", 0) { active = true; }
	void InitialiseProcess(Bunch& b) { ini++; cur = &b; log_.push_back({'i', &b, bx(), by()}); }
	void SetCurrentComponent(AcceleratorComponent& a) { c = &a; }
	void DoProcess(double) { if(c == refuse) throw MerlinException("refused"); log_.push_back({'c', c, bx(), by()}); }
	double GetMaxAllowedStepSize() const { return 100; }
};
static double X0;
struct Ctor : BunchConstructor { mutable int made = 0; Bunch* ConstructBunch(int) const { made++; ParticleBunch* b = new ParticleBunch(10, 1); PSvector p(0); p.x() = X0; p.y() = 0.5; b->AddParticle(p); cur = b; return b; } };
struct Out : SimulationOutput
{
	Out() { output_all = output_initial = output_final = false; }
	void Record(const ComponentFrame* f, const Bunch* b) { sx_assert(b == cur, "the bunch is passed"); log_.push_back({'r', f, bx(), by()}); }
	void RecordInitialBunch(const Bunch* b) { log_.push_back({'b', b, bx(), by()}); }
	void RecordFinalBunch(const Bunch* b) { log_.push_back({'e', b, bx(), by()}); }
};
// five frames: A, Q (marker), patch, B, C; A, Q and B displaced horizontally; the patch moves the beam vertically
struct Line
{
	AcceleratorModel* m; std::vector<ComponentFrame*> f; std::vector<double> d; double patch; Drift *a, *b, *c; Marker* q; AcceleratorComponent* e[5];
	Line(bool withpatch = true) : patch(0)
	{
		AcceleratorModelConstructor k; a = new Drift("A", 1.0); b = new Drift("B", 0.5); c = new Drift("C", 0); q = new Marker("Q");
		k.AppendComponent(*a); k.AppendComponent(*q);
		if(withpatch) { patch = sx_double("patch", -1, 1); sx_assume(beyond(patch, 0.01)); GeometryPatch* g = new GeometryPatch; g->Translate(0, patch, 0); k.AppendComponentFrame(new PatchFrame(g, "P")); }
		k.AppendComponent(*b); k.AppendComponent(*c); m = k.GetModel();
		for(auto* x : m->GetBeamline()) f.push_back(x);
		for(size_t i = 0; i < f.size(); i++) { d.push_back(0); if(f[i]->IsComponent()) { e[i] = &f[i]->GetComponent(); if(f[i] != nullptr && e[i] != q) { d[i] = sx_double(sx_n("d", i).c_str(), -1, 1); sx_assume(beyond(d[i], 0.01)); f[i]->Translate(d[i], 0, 0); } } else { e[i] = nullptr; d[i] = 0; } }
	}
	// events expected of one passage through frames in the given order
	void expect(std::vector<Ev>& ev, const std::vector<int>& order, double x, double& y, bool flat, bool onaxis, int rec /*0 none 1 all 2 drifts*/)
	{
		bool first = true; for(int i : order)
		{
			double dx = flat ? 0 : d[i]; if(!e[i]) y -= patch;
			if(first && onaxis) { if(e[i]) ev.push_back({'c', e[i], x, y}); x += dx; }
			else if(e[i]) ev.push_back({'c', e[i], x - dx, y});
			if(rec && e[i] && (rec == 1 || e[i] != q)) ev.push_back({'r', f[i], x, y});
			first = false;
		}
		X = x;
	}
	double X;
};
static void compare(const std::vector<Ev>& a, const std::vector<Ev>& b)
{
	sx_assert(a.size() == b.size(), "number of events"); if(a.size() != b.size()) return;
	for(size_t i = 0; i < a.size(); i++) { sx_assert(a[i].what == b[i].what && (b[i].who == nullptr || a[i].who == b[i].who), "frames, outputs and initialisations in order"); sx_close(a[i].x, b[i].x, T, "horizontal position when it happens"); sx_close(a[i].y, b[i].y, T, "vertical position when it happens"); }
}
static std::vector<int> seq(int n, int from = 0) { std::vector<int> v; for(int i = 0; i < n; i++) v.push_back((i + from) % n); return v; }
static void setup(TrackingSimulation& s, Rec* r, Ctor* c) { log_.clear(); X0 = sx_double("x0", -1, 1); s.AddProcess(r); s.SetInitialBunchCtor(c); }
SX_HARNESS(beamline, "line of five frames with displacements and a geometry patch; flat, on-axis and output options; run, run again and continue")
{
	Line L; Rec* r = new Rec; Ctor* c = new Ctor; std::unique_ptr<TrackingSimulation> s; if(sx_bool("set")) { s.reset(new TrackingSimulation); s->SetBeamline(L.m->GetBeamline()); } else s.reset(new TrackingSimulation(L.m->GetBeamline())); setup(*s, r, c);
	bool flat = sx_bool("flat"), axis = sx_bool("axis"); s->AssumeFlatLattice(flat); s->InjectBeamOnAxis(axis); int o = sx_choose("output", 0, 3); Out out; out.output_all = o == 1; if(o == 2) { out.AddIdentifier("Quadrupole.*"); out.AddIdentifier("Drift.A|Drift.C"); out.AddIdentifier("*.B"); out.output_initial = true; } if(o == 3) out.output_final = true; if(o) s->SetOutput(&out);
	Bunch& b = s->Run(); sx_assert(&b == cur, "the bunch tracked is returned"); sx_assert(c->made == 1 && r->ini == 1, "one bunch is made and the processes initialised once");
	std::vector<Ev> e; double y = 0.5; if(o == 2) e.push_back({'b', nullptr, X0, 0.5}); e.push_back({'i', cur, X0, 0.5}); L.expect(e, seq(5), X0, y, flat, axis, o == 3 ? 0 : o); if(o == 3) e.push_back({'e', cur, L.X, y}); compare(log_, e);
	int again = sx_choose("again", 0, 1); log_.clear(); e.clear(); s->InjectBeamOnAxis(false);
	if(again == 0) { s->Run(); sx_assert(c->made == 2 && r->ini == 2, "a new run makes a new bunch and initialises the processes"); y = 0.5; if(o == 2) e.push_back({'b', nullptr, X0, 0.5}); e.push_back({'i', cur, X0, y}); L.expect(e, seq(5), X0, y, flat, false, o == 3 ? 0 : o); }
	else { double x = L.X; s->Continue(); sx_assert(c->made == 1 && r->ini == 1, "continuing keeps the bunch and does not initialise"); if(o == 2) e.push_back({'b', nullptr, x, y}); L.expect(e, seq(5), x, y, flat, false, o == 3 ? 0 : o); }
	if(o == 3) e.push_back({'e', cur, L.X, y}); compare(log_, e);
}
SX_HARNESS(subline, "part of a line, given by indices")
{
	Line L; int i = sx_choose("from", 0, 4), j = sx_choose("to", 0, 4); sx_assume(i <= j); TrackingSimulation s(L.m->GetBeamline(i, j)); Rec* r = new Rec; setup(s, r, new Ctor); s.Run();
	std::vector<Ev> e; double y = 0.5; std::vector<int> o; for(int k = i; k <= j; k++) o.push_back(k); e.push_back({'i', cur, X0, 0.5}); L.expect(e, o, X0, y, false, false, 0); compare(log_, e);
}
SX_HARNESS(ring, "ring started at any frame: once around, and around again")
{
	Line L(sx_bool("patch?")); int n = L.f.size(), k = sx_choose("start", 0, 4); sx_assume(k < n); TrackingSimulation s(L.m->GetRing(k)); Rec* r = new Rec; setup(s, r, new Ctor); s.Run();
	std::vector<Ev> e; double y = 0.5; e.push_back({'i', cur, X0, 0.5}); L.expect(e, seq(n, k), X0, y, false, false, 0); compare(log_, e);
	log_.clear(); e.clear(); double x = L.X; s.Continue(); L.expect(e, seq(n, k), x, y, false, false, 0); compare(log_, e);
}
SX_HARNESS(stepped, "stepping component by component does what a run does")
{
	Line L; TrackingSimulation s(L.m->GetBeamline()); Rec* r = new Rec; Ctor* c = new Ctor; setup(s, r, c); bool flat = sx_bool("flat"); s.AssumeFlatLattice(flat); Out out; out.output_all = true; s.SetOutput(&out);
	if(sx_bool("own")) { Ctor k; s.InitStepper(k.ConstructBunch(0)); } else s.InitStepper(); sx_assert(r->ini == 1, "processes are initialised once");
	for(int i = 0; i < 5; i++) { sx_assert(&s.GetCurrentFrame() == L.f[i], "current frame"); if(L.e[i]) sx_assert(&s.GetCurrentComponent() == L.e[i], "current component"); bool more = s.StepComponent(); sx_assert(more == (i < 4), "reports whether there are more frames"); }
	std::vector<Ev> e; double y = 0.5; e.push_back({'i', cur, X0, 0.5}); L.expect(e, seq(5), X0, y, flat, false, 1); compare(log_, e);
	int n = c->made; s.InitStepper(false); sx_assert(c->made == n && r->ini == 2 && &s.GetCurrentFrame() == L.f[0], "starting over with the same bunch");
}
SX_HARNESS(exceptions, "exceptions of processes stop the run; handled or passed on")
{
	Line L; TrackingSimulation s(L.m->GetBeamline()); Rec* r = new Rec; setup(s, r, new Ctor); bool handle = sx_bool("handle"); s.HandleExceptions(handle); int at = sx_choose("at", 0, 4); if(!L.e[at]) return; r->refuse = L.e[at]; bool thrown = false;
	try { s.Run(); } catch(MerlinException&) { thrown = true; } sx_assert(thrown == !handle, "handled if asked to, passed on otherwise"); size_t n = 0; for(auto& v : log_) n += v.what == 'c'; size_t want = 0; for(int i = 0; i < at; i++) want += L.e[i] != nullptr; sx_assert(n == want, "nothing is tracked after the exception");
}
SX_HARNESS(processes, "processes can be removed")
{
	Line L; TrackingSimulation s(L.m->GetBeamline()); Rec *r = new Rec, *q = new Rec; setup(s, r, new Ctor); s.AddProcess(q); sx_assert(s.RemoveProcess(q), "removing a process that is there"); sx_assert(!s.RemoveProcess(q), "removing it again"); s.Run(); sx_assert(r->ini == 1 && q->ini == 0, "only the remaining process runs");
}
SX_HARNESS(ringiterator, "ring iterators go round both ways")
{
	std::vector<int> v; int n = sx_choose("n", 1, 4); for(int i = 0; i < n; i++) v.push_back(i); auto it = make_ring_iterator(v); int pos = 0;
	for(int k = 0; k < 6; k++) { int op = sx_choose(sx_n("op", k).c_str(), 0, 1); int how = k % 2; if(op) { pos = (pos + 1) % n; if(how) ++it; else { auto o = it++; sx_assert(*o == (pos + n - 1) % n, "postfix increment returns the old position"); } } else { pos = (pos + n - 1) % n; if(how) --it; else { auto o = it--; sx_assert(*o == (pos + 1) % n, "postfix decrement returns the old position"); } } sx_assert(*it == pos, "position on the ring"); sx_assert((it == v.begin()) == (pos == 0), "comparison with a position"); }
}
// a component frame with geometry patches of its own at both ends (rotations about the beam)
struct Patched : TComponentFrame<Drift>
{
	Transform3D a, b; Patched(Drift& d, double ta, double tb) : TComponentFrame<Drift>(d), a(Transform3D::rotationZ(ta)), b(Transform3D::rotationZ(tb)) {}
	const Transform3D* GetEntranceGeometryPatch() const { return &a; }
	const Transform3D* GetExitGeometryPatch() const { return &b; }
};
SX_HARNESS(patches, "a displaced frame with rotations of its own at entrance and exit, run or stepped, flat or not: displacement, patch, component, patch, displacement")
{
	static const double AN[] = {0.5, -1.2, 2.0}; double ta = AN[sx_choose("entrance", 0, 2)], tb = AN[sx_choose("exit", 0, 2)]; double d = sx_double("d", -1, 1), e = sx_double("e", -1, 1); sx_assume(beyond(d, 0.01)); sx_assume(beyond(e, 0.01));
	AcceleratorModelConstructor k; Drift *dr = new Drift("A", 1.0), *dl = new Drift("B", 0.5); k.AppendComponent(*dr); Patched* f = new Patched(*dl, ta, tb); k.AppendComponentFrame(f); k.AppendComponent(*new Drift("C", 0.5)); AcceleratorModel* m = k.GetModel(); f->Translate(d, e, 0);
	TrackingSimulation s(m->GetBeamline()); Rec* r = new Rec; setup(s, r, new Ctor); bool flat = sx_bool("flat"); s.AssumeFlatLattice(flat); Out out; out.output_all = true; s.SetOutput(&out); double x = X0, y = 0.5; if(flat) d = e = 0;
	if(sx_bool("step")) { s.InitStepper(); while(s.StepComponent()) ; } else s.Run();
	double u = x - d, v = y - e, x1 = cos(ta) * u + sin(ta) * v, y1 = cos(ta) * v - sin(ta) * u, x2 = cos(tb) * x1 + sin(tb) * y1 + d, y2 = cos(tb) * y1 - sin(tb) * x1 + e; int n = 0;
	for(auto& l : log_) { if(l.what == 'c' && l.who == dl) { n++; sx_close(l.x, x1, T, "the displacement comes before the patch at the entrance"); sx_close(l.y, y1, T, "the displacement comes before the patch at the entrance"); } if(l.what == 'r' && l.who == f) { n++; sx_close(l.x, x2, T, "the patch comes before the displacement at the exit"); sx_close(l.y, y2, T, "the patch comes before the displacement at the exit"); } }
	sx_assert(n == 2, "tracked and recorded once");
}
