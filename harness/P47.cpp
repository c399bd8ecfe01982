// P47: NaN check and ring timing
//@ time: *=30
#include "hx.h"
#include <memory>
#include <sstream>
#include <vector>
#include <limits>
#include "ParticleBunch.h"
#include "NANCheckProcess.h"
#include "RingDeltaTProcess.h"
#include "Components.h"
using namespace ParticleTracking;
static const double T = 1e-9;
static const double vals[4] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::quiet_NaN()};
struct Capture { std::ostringstream s; std::streambuf* old; Capture() { old = std::cout.rdbuf(s.rdbuf()); } ~Capture() { std::cout.rdbuf(old); } int count(const std::string& w) const { int n = 0; std::string t = s.str(); for(size_t i = 0; (i = t.find(w, i)) != std::string::npos; i++) n++; return n; } };
static void fill(ParticleBunch& b, int n, int first) { for(int k = 0; k < n; k++) { PSvector p(0); for(int i = 0; i < 6; i++) p[i] = sx_double((std::string(1, "xpyqtd"[i]) + std::to_string(first + k)).c_str(), -1, 1); p.id() = first + k; b.AddParticle(p); } }
static bool fin(const PSvector& p) { for(int i = 0; i < 6; i++) for(int j = 0; j < 4; j++) { if(p[i] != p[i]) return false; if(p[i] - p[i] != 0) return false; } return true; }
static void same(const ParticleBunch& b, const std::vector<PSvector>& e, const char* what) { sx_assert(b.size() == e.size(), what); if(b.size() != e.size()) return; int k = 0; for(auto p = b.begin(); p != b.end(); p++, k++) { sx_assert(p->id() == e[k].id(), what); for(int i = 0; i < 6; i++) { if(e[k][i] - e[k][i] == 0) sx_assert((*p)[i] == e[k][i], what); else sx_assert(!((*p)[i] - (*p)[i] == 0), what); } } }
SX_HARNESS(cull, "invalid coordinates are found and removed, element after element")
{
	int n = sx_choose("particles", 1, 4); bool cull = sx_bool("cull"), det = sx_bool("detailed"), again = sx_bool("second bunch"); NANCheckProcess c("check"); Drift d1("one", 1), d2("two", 1); c.SetCullNAN(cull); c.SetDetailed(det); std::vector<PSvector> e; Capture cap; int rep = 0;
	for(int round = 0; round <= (again ? 1 : 0); round++) { ParticleBunch b(10, 1); fill(b, n, 0); e.assign(b.begin(), b.end()); double q = b.GetTotalCharge(), P = b.GetReferenceMomentum(); c.InitialiseProcess(b); sx_assert(c.IsActive(), "always active");
		for(int s = 0; s < 2; s++) { c.SetCurrentComponent(s ? (AcceleratorComponent&) d2 : d1); if(n == 1 && s == 1 && b.size() == 0) break; int hit = round == 0 ? sx_choose(s ? "hit later" : "hit", -1, n) : s == 0 ? 0 : -1; if((int) b.size() > (hit == n ? 1 : hit) && hit >= 0) for(int k : {hit == n ? 0 : hit, hit == n ? 1 : hit}) { if(k >= (int) b.size()) continue; auto p = b.begin() + k; int co = (k + 2 * s + n) % 6; double v = vals[(k + s + round) % 4]; (*p)[co] = v; for(auto& x : e) if(x.id() == p->id()) x[co] = v; }
			std::vector<PSvector> keep; int bad = 0; for(auto& x : e) if(!cull || fin(x)) keep.push_back(x); for(auto& x : e) bad += !fin(x); c.DoProcess(1); same(b, keep, cull ? "exactly the invalid particles are removed, in order" : "the bunch is left as it is"); e = keep; if(cull) for(auto& p : b) sx_assert(fin(p), "no invalid particle is left"); sx_close(b.GetReferenceMomentum(), P, T, "reference momentum"); if(b.size()) sx_close(b.GetTotalCharge() * n, q * b.size(), T, "charge per particle"); } }
	sx_assert(c.GetMaxAllowedStepSize() > 1000, "does not limit steps");
}
SX_HARNESS(report, "each invalid particle is reported once, with its place and element")
{
	int n = 4, k = sx_choose("first", 0, 3), l = sx_choose("second", 0, 3); bool cull = sx_bool("cull"), same_el = sx_bool("same element"); NANCheckProcess c("check"); c.SetCullNAN(cull); c.SetDetailed(sx_bool("detailed")); Drift d1("one", 1), d2("two", 1); ParticleBunch b(10, 1); fill(b, n, 7); Capture cap; for(int i : {k, l}) for(int j = 0; j < 6; j++) (b.begin() + i)->operator[](j) = 0.125 * j; c.InitialiseProcess(b); c.SetCurrentComponent(d1); c.DoProcess(1); sx_assert(cap.s.str().empty(), "nothing to report"); (*(b.begin() + k))[k] = vals[0]; if(same_el) (*(b.begin() + l))[5] = vals[1]; c.DoProcess(1); if(!same_el) { c.SetCurrentComponent(d2); if(cull && l != k) (*(b.begin() + (l > k ? l - 1 : l)))[5] = vals[1]; if(!cull) (*(b.begin() + l))[5] = vals[1]; } c.DoProcess(1); c.DoProcess(0.5); auto line = [&](int i, int id, const char* el) { return "currentBunch[" + std::to_string(i) + "], p.id = " + std::to_string(id) + ", at Drift." + el; };
	sx_assert(cap.count("NAN entry") == (k == l ? 1 : 2), "each is reported once"); sx_assert(cap.count(line(k, 7 + k, "one")) == 1, "reported with its place, id and element"); if(l != k) sx_assert(cap.count(line(!same_el && cull && l > k ? l - 1 : l, 7 + l, same_el ? "one" : "two")) == 1, "reported with its place, id and element");
}
SX_HARNESS(timing, "ring timing adds its scale times the length in bends only")
{
	int n = 2, el = sx_choose("element", 0, 4), cut = sx_choose("steps", 0, 2); double sc = sx_double("scale", -1, 1), L = 0.75; RingDeltaTProcess r(3); sx_assert(r.GetPriority() == 3, "priority"); r.SetBendScale(sc); ParticleBunch b(10, 1); fill(b, n, 0); std::vector<PSvector> e(b.begin(), b.end()); r.InitialiseProcess(b); std::unique_ptr<AcceleratorComponent> c; switch(el) { case 0: c.reset(new SectorBend("b", L, 0.1, 1)); break; case 1: c.reset(new Drift("d", L)); break; case 2: c.reset(new Quadrupole("q", L, 1)); break; case 3: c.reset(new SectorBend("b", L, -0.1, -1)); break; default: c.reset(new Marker("m")); }
	for(int turn = 1; turn <= 2; turn++) { r.SetCurrentComponent(*c); bool bend = el == 0 || el == 3; sx_assert(r.IsActive() == bend, "active in bends only"); if(!bend) continue; static const double f[3][3] = {{1, 0, 0}, {0.5, 0.5, 0}, {0.25, 0.25, 0.5}}; double s = 0; for(int i = 0; i < 3 && s < 1; i++) { sx_assert(r.IsActive(), "active until the end"); sx_close(r.GetMaxAllowedStepSize(), L * (1 - s), T, "up to the end of the bend"); r.DoProcess(f[cut][i] * L); s += f[cut][i]; int k = 0; for(auto& p : b) { for(int j = 0; j < 6; j++) sx_close(p[j], e[k][j] + (j == 4 ? sc * L * (turn - 1 + s) : 0), T, j == 4 ? "time shift" : "other coordinates"); k++; } } sx_assert(!r.IsActive(), "done at the end"); }
}
