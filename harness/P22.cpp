// P22: alignment errors are applied to the chosen elements as told
//@ time: *=25
//@ exclude: RandomNG.cpp
#include "hx.h"
#include <random>
#include <sstream>
#include <memory>
#include <vector>
#include <cmath>
#include "AcceleratorErrors.h"
#include "AcceleratorModelConstructor.h"
#include "ComponentFrame.h"
#include "SequenceFrame.h"
#include "StandardMultipoles.h"
#include "SectorBend.h"
#include "Drift.h"
#include "RandomNG.h"
static const double T = 1e-5;
// every normal number asked for: mean, variance and the (unit) number handed out
struct Draw { double m, v, z; };
static std::vector<Draw> draws; static bool numeric = false;
static double unit(int i) { static const double c[12] = {0.5, -1.25, 2, -0.75, 1.5, 0.25, -2.5, 1, -0.125, 0.625, -1.75, 2.25}; return numeric ? c[i % 12] : sx_double(sx_n("Z", i).c_str(), -3, 3); }
double RandomNG::normal(double m, double v) { if(v == 0) return m; sx_assert(v > 0, "a variance is not negative"); Draw d = {m, v, unit(draws.size())}; draws.push_back(d); return m + std::sqrt(v) * d.z; }
double RandomNG::normal(double m, double v, double c) { double r = normal(m, v); sx_assume(r >= m - c * std::sqrt(v) && r <= m + c * std::sqrt(v)); return r; }
double RandomNG::uniform(double a, double) { return a; }
double RandomNG::poisson(double) { return 0; }
double RandomNG::landau() { return 0; }
void RandomNG::init() {}
void RandomNG::init(std::uint32_t) {}
void RandomNG::init(const std::vector<std::uint32_t>&) {}
void RandomNG::reset() {}
std::mt19937_64& RandomNG::getGenerator() { static std::mt19937_64 g; return g; }
std::mt19937_64& RandomNG::getLocalGenerator(size_t) { return getGenerator(); }
void RandomNG::resetLocalGenerator(size_t) {}
std::uint32_t hash_string(std::string) { return 0; }

static Point3D by(int k, double a, double b, double c, const Point3D& p)
{
	double s = k ? std::sin(a) : 0, o = k ? std::cos(a) : 0;
	switch(k)
	{
	case 0: return Point3D(p.x - a, p.y - b, p.z - c);
	case 1: return Point3D(p.x, o * p.y + s * p.z, o * p.z - s * p.y);
	case 2: return Point3D(o * p.x - s * p.z, p.y, o * p.z + s * p.x);
	default: return Point3D(o * p.x + s * p.y, o * p.y - s * p.x, p.z);
	}
}
// one round of errors: rms and mean per axis
struct Err { double r[3], m[3]; };
static double U = 1; // displacements in units of this
static const Point3D PTS[4] = {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)};
struct Line
{
	AcceleratorModel* m; std::vector<ComponentFrame*> f; SequenceFrame* g;
	std::vector<std::vector<Point3D> > q; std::vector<bool> moved; // where the points should be
	Line() : g(nullptr)
	{
		AcceleratorModelConstructor k; k.NewModel(); const char* nm[5] = {"MQ1", "DR", "MB1", "MQ2", "MB2"};
		for(int i = 0; i < 5; i++)
		{
			if(i == 2) { g = new SequenceFrame("GIRDER"); k.NewFrame(g); }
			if(i == 1) k.AppendComponent(*new Drift(nm[i], 1)); else if(nm[i][1] == 'Q') k.AppendComponent(*new Quadrupole(nm[i], 1, 0.1)); else k.AppendComponent(*new SectorBend(nm[i], 1, 0.01, 0.1));
			if(i == 3) k.EndFrame();
		}
		m = k.GetModel(); for(auto* x : m->GetBeamline()) f.push_back(x);
		sx_assert(f.size() == 5, "five elements"); q.assign(5, std::vector<Point3D>(PTS, PTS + 4)); moved.assign(5, false);
	}
	// the errors drawn since 'from' belong to the elements hit, in the order of the beamline
	void expect(const bool* hit, bool clear, bool rot, const Err& e, size_t from)
	{
		size_t at[3] = {from, from, from};
		for(int i = 0; i < 5; i++) if(hit[i])
		{
			double d[3];
			for(int a = 0; a < 3; a++)
			{
				d[a] = e.m[a];
				if(e.r[a] != 0)
				{
					double v = e.r[a] * e.r[a]; size_t& j = at[a];
					while(j < draws.size() && !(draws[j].m == e.m[a] && std::fabs(draws[j].v - v) <= 1e-9 * v)) ++j;
					sx_assert(j < draws.size(), "every element has random errors of its own, of the rms and mean given"); if(j >= draws.size()) return;
					d[a] += e.r[a] * draws[j++].z;
				}
			}
			if(clear) q[i].assign(PTS, PTS + 4);
			for(auto& p : q[i]) if(rot) for(int a = 0; a < 3; a++) p = e.r[a] == 0 && e.m[a] == 0 ? p : by(a + 1, d[a], 0, 0, p); else p = by(0, d[0], d[1], d[2], p);
			moved[i] = true;
		}
	}
	void check()
	{
		for(int i = 0; i < 5; i++)
		{
			Transform3D t = f[i]->GetLocalFrameTransform(); const char* s = moved[i] ? "the displacement of an element is the errors given to it" : "an element that was not chosen is left alone";
			for(int j = 0; j < 4; j++) { Point3D p = t(PTS[j]); sx_close((p.x - q[i][j].x) / U, 0, T, s); sx_close((p.y - q[i][j].y) / U, 0, T, s); sx_close((p.z - q[i][j].z) / U, 0, T, s); }
		}
		Transform3D t = g->GetLocalFrameTransform(); for(int j = 0; j < 4; j++) { Point3D p = t(PTS[j]); sx_close(p.x + p.y + p.z, j ? 1 : 0, T, "the girder is left alone"); }
	}
};
static const char* PAT[7] = {"*", "MQ1", "MQ*", "*2", "M*1", "SectorBend.*", "XX"};
static const bool HIT[7][5] = {{1, 1, 1, 1, 1}, {1, 0, 0, 0, 0}, {1, 0, 0, 1, 0}, {0, 0, 0, 1, 1}, {1, 0, 1, 0, 0}, {0, 0, 1, 0, 1}, {0, 0, 0, 0, 0}};
static Err mk(int k)
{
	static const Err c[6] = {{{1e-3, 2e-3, 3e-3}, {0, 0, 0}}, {{0, 0, 0}, {0.001, -0.002, 0.003}}, {{2e-3, 1e-3, 5e-4}, {0.004, -0.001, 0.002}}, {{0, 1e-3, 0}, {0.001, 0, 0}}, {{5e-4, 0, 2e-3}, {0, 0.003, 0}}, {{0, 0, 0}, {0, 0, 0}}};
	return c[k];
}
static void go(AcceleratorErrors& e, AcceleratorModel::Beamline& b, const char* p, bool rot) { if(rot) e.ApplyRotations(b, p); else e.ApplyShifts(b, p); }
static void set(AcceleratorErrors& e, bool add, const Err& r) { if(add) e.AddErrors(r.r[0], r.r[1], r.r[2], r.m[0], r.m[1], r.m[2]); else e.SetErrors(r.r[0], r.r[1], r.r[2], r.m[0], r.m[1], r.m[2]); }
SX_HARNESS(chosen, "shifts or rotations (random, systematic, both, any axis) set for the elements of a part of a line with a girder, chosen by seven patterns; any random numbers within 3 sigma")
{
	U = 1e-3; Line L; numeric = sx_bool("rotations"); int p = sx_choose("pattern", 0, 6), n1 = sx_choose("from", 0, 2), n2 = 2 + 2 * sx_choose("to", 0, 1), k = sx_choose("errors", 0, 4); bool rot = numeric; bool hit[5]; for(int i = 0; i < 5; i++) hit[i] = HIT[p][i] && i >= n1 && i <= n2;
	AcceleratorErrors e; Err r = mk(k); set(e, false, r); AcceleratorModel::Beamline b = L.m->GetBeamline(n1, n2); go(e, b, PAT[p], rot); L.expect(hit, true, rot, r, 0); L.check();
}
SX_HARNESS(successive, "two rounds of errors on overlapping groups of displaced elements, each either replacing or adding to what is there")
{
	numeric = sx_bool("numeric"); U = 1e-3; Line L; AcceleratorModel::Beamline b = L.m->GetBeamline(); double d = sx_double("before", 0.001, 0.01); for(int i = 0; i < 5; i++) { L.f[i]->Translate(d, -d, 2 * d); for(auto& q : L.q[i]) q = by(0, d, -d, 2 * d, q); }
	AcceleratorErrors e; for(int n = 0; n < 2; n++) { int p = 2 + 2 * n, k = sx_choose(sx_n("errors", n).c_str(), 0, 3); if(n == 1) k = k < 2 ? k + 2 : k == 2 ? 4 : 5; bool rot = numeric && sx_bool(sx_n("rotations", n).c_str()), add = sx_bool(sx_n("add", n).c_str()); size_t from = draws.size(); Err r = mk(k); set(e, add, r); go(e, b, PAT[p], rot); L.expect(HIT[p], !add, rot, r, from); }
	L.check();
}
SX_HARNESS(again, "the same errors object applied twice: two parts, or shifts and then rotations; errors never set move nothing")
{
	numeric = true; U = 1e-3; Line L; AcceleratorErrors e; int k = sx_choose("errors", 0, 4); bool add = sx_bool("add"), none = sx_bool("never set"), parts = sx_bool("parts"), rot = sx_bool("rotations first"); Err r = mk(none ? 5 : k); if(none) { if(k) return; } else set(e, add, r); if(none) add = true;
	AcceleratorModel::Beamline a = L.m->GetBeamline(0, 2), b = parts ? L.m->GetBeamline(3, 4) : L.m->GetBeamline(0, 2); bool h1[5] = {1, 0, 1, 0, 0}, h2[5] = {0, 0, 0, 1, 1}, *h = parts ? h2 : h1; go(e, a, "M*", rot); L.expect(h1, !add, rot, r, 0); size_t n = draws.size(); go(e, b, "M*", !rot); L.expect(h, !add, !rot, r, n); L.check();
}
SX_HARNESS(rotated, "a random or systematic rotation about one axis, added to a displacement or replacing it; any angle within 0.6 rad")
{
	Line L; AcceleratorModel::Beamline b = L.m->GetBeamline(0, 1); int axis = sx_choose("axis", 0, 2); bool add = sx_bool("add"); Err r = {{0, 0, 0}, {0, 0, 0}}; if(sx_bool("random")) r.r[axis] = 0.2; else r.m[axis] = sx_double("mean", 0.01, 0.6); for(int i = 0; i < 2; i++) { L.f[i]->Translate(0.5, 0.25, -1); for(auto& q : L.q[i]) q = by(0, 0.5, 0.25, -1, q); }
	AcceleratorErrors e; set(e, add, r); go(e, b, "*1", true); bool hit[5] = {1, 0, 0, 0, 0}; L.moved[0] = true; L.expect(hit, !add, true, r, 0); L.check();
}
SX_HARNESS(tiny, "shifts or rotations with rms of 1 nm to 1 mm and any random numbers")
{
	static const double c[4] = {1e-9, 1e-8, 1.4e-8, 1e-3}; double s = c[sx_choose("rms", 0, 3)]; int axis = sx_choose("axis", 0, 2); bool rot = sx_bool("rotations"); U = s; Line L; AcceleratorModel::Beamline b = L.m->GetBeamline(); Err r = {{0, 0, 0}, {0, 0, 0}}; r.r[axis] = s;
	AcceleratorErrors e; set(e, axis == 1, r); go(e, b, "MQ*", rot); L.expect(HIT[2], true, rot, r, 0); L.check();
}
SX_HARNESS(alternatives, "patterns of several alternatives, for shifts and rotations")
{
	numeric = sx_bool("rotations"); U = 1e-3; Line L; int p = sx_choose("pattern", 0, 3); static const char* c[4] = {"MQ1|MB2", "MB*|MQ2", "XX|DR", "MQ1|MQ2|DR"}; static const bool hit[4][5] = {{1, 0, 0, 0, 1}, {0, 0, 1, 1, 1}, {0, 1, 0, 0, 0}, {1, 1, 0, 1, 0}};
	AcceleratorModel::Beamline b = L.m->GetBeamline(); bool rot = numeric; int k = sx_choose("errors", 1, 2); Err r = mk(k); AcceleratorErrors e; set(e, false, r); go(e, b, c[p], rot); L.expect(hit[p], true, rot, r, 0); L.check();
}
SX_HARNESS(report, "the report of shifts or rotations that are given to the chosen elements")
{
	numeric = true; U = 1e-3; Line L; int p = sx_choose("pattern", 0, 4), k = sx_choose("errors", 0, 4); bool rot = sx_bool("rotations"); std::ostringstream o; AcceleratorErrors e; e.Report(&o); Err r = mk(k); set(e, false, r); AcceleratorModel::Beamline b = L.m->GetBeamline(); go(e, b, PAT[p], rot); L.expect(HIT[p], true, rot, r, 0); L.check();
	std::istringstream in(o.str()); std::string n, w; double x, y, z; static const char* nm[5] = {"Quadrupole.MQ1", "Drift.DR", "SectorBend.MB1", "Quadrupole.MQ2", "SectorBend.MB2"}; size_t j[3] = {0, 0, 0};
	for(int i = 0; i < 5; i++) if(HIT[p][i])
	{
		bool ok = bool(in >> n >> w >> x >> y >> z); sx_assert(ok, "every displaced element is reported"); if(!ok) return; sx_assert(n.size() >= std::string(nm[i]).size() && n.substr(n.size() - std::string(nm[i]).size()) == nm[i], "the name of the element"); sx_assert(w == (rot ? "rotate:" : "translate:"), "what is done");
		double v[3] = {x, y, z}; for(int a = 0; a < 3; a++) { double d = r.m[a]; if(r.r[a] != 0) { while(!(draws[j[a]].m == r.m[a] && std::fabs(draws[j[a]].v - r.r[a] * r.r[a]) <= 1e-9 * draws[j[a]].v)) ++j[a]; d += r.r[a] * draws[j[a]++].z; } sx_close(v[a] * 1e3, d * 1e3, 1e-4, "the errors reported are those given"); }
	}
	sx_assert(!(in >> n), "nothing else is reported");
}
