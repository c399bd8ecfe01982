// P49: loss maps count every loss once, where it happened
//@ time: *=25
#include "hx.h"
#include <sstream>
#include <vector>
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "Collimator.h"
#include "Drift.h"
#include "Components.h"
using namespace ParticleTracking;
// three elements: a collimator at 10 m, a magnet at 10.5 m, a drift at 11 m
struct Line { Collimator c; Quadrupole q; Drift d; AcceleratorComponent* e[3]; double s[3], L[3];
	Line() : c("C", 0.5), q("Q", 0.5, 1.0), d("D", 0.3) { e[0] = &c; e[1] = &q; e[2] = &d; s[0] = 10; s[1] = 10.5; s[2] = 11; L[0] = L[1] = 0.5; L[2] = 0.3; for(int i = 0; i < 3; i++) e[i]->SetComponentLatticePosition(s[i]); } };
static PSvector part(int i, double x) { PSvector p(0); p.x() = x; p.id() = i; return p; }
static void go(OutputType mode, int n)
{
	Line l; LossMapCollimationOutput& o = *new LossMapCollimationOutput(mode); double pos[4]; int el[4];
	for(int i = 0; i < n; i++)
	{
		el[i] = i == 2 ? 1 : sx_choose(sx_n("el", i).c_str(), 0, 2); pos[i] = sx_double(sx_n("pos", i).c_str(), 0, 0.5); sx_assume(pos[i] <= l.L[el[i]]);
		for(int k = 1; k <= 5; k++) sx_assume(beyond(pos[i] - 0.1 * k, 1e-6));
		for(int j = 0; j < i; j++) sx_assume(beyond(l.s[el[i]] + pos[i] - l.s[el[j]] - pos[j], 1e-6));
		PSvector p = part(i, 0.01 * i); o.Dispose(*l.e[el[i]], pos[i], p, 1);
	}
	sx_assert((int) o.DeadParticles.size() == n, "every loss is recorded"); for(int i = 0; i < n && i < (int) o.DeadParticles.size(); i++) sx_close(o.DeadParticles[i].position, l.s[el[i]] + pos[i], 1e-9, "position of the loss in the lattice");
	o.Finalise(); double tot = 0, last = -1; size_t groups = 0;
	for(int i = 0; i < n; i++) { bool first = true; for(int j = 0; j < i; j++) first = first & !(mode == precise ? false : el[i] == el[j] && (mode == nearestelement || std::floor(pos[i] * 10) == std::floor(pos[j] * 10))); groups += first; }
	sx_assert(o.OutputLosses.size() == groups, mode == nearestelement ? "one entry per element with losses" : mode == precise ? "one entry per position" : "one entry per element and interval with losses");
	for(auto& x : o.OutputLosses)
	{
		tot += x.lost; int e = -1; for(int k = 0; k < 3; k++) if(x.ElementName == l.e[k]->GetQualifiedName()) e = k;
		sx_assert(e >= 0, "name of the element"); if(e < 0) continue;
		double c = 0; for(int i = 0; i < n; i++) if(el[i] == e) { bool in = mode == nearestelement ? true : mode == precise ? within(l.s[e] + pos[i] - x.position, 1e-7) : (pos[i] >= x.interval - 1e-9) & (pos[i] < x.interval + 0.1); c += in; }
		sx_close(x.lost, c, 1e-9, "number of losses"); sx_close(x.s, l.s[e], 1e-9, "lattice position of the element"); sx_close(x.length, l.L[e], 1e-9, "length of the element");
		double at = mode == precise ? x.position : mode == tencm ? x.s + x.interval : x.s; sx_assert(at >= last - 1e-12, "losses in the order of the lattice"); last = at;
		if(mode == tencm) { double k = x.interval * 10; sx_close(k, std::floor(k + 0.5), 1e-7, "intervals start at multiples of 10 cm from the entrance"); }
		sx_assert(x.temperature == (e == 0 ? LossData::Collimator : LossData::Cold), "losses in collimators are kept apart");
	}
	sx_close(tot, n, 1e-9, "every loss is counted once");
}
SX_HARNESS(nearest, "per-element loss map of 3 losses at any position of three elements (the third in the second)") { go(nearestelement, 3); }
SX_HARNESS(tencm_, "loss map in 10 cm intervals of 2 losses at any position of three elements") { go(tencm, 2); }
SX_HARNESS(precise_, "loss map by position of 3 losses at any position of three elements (the third in the second)") { go(precise, 3); }
SX_HARNESS(counts, "several losses at the same position: 1 to 4 losses, each mode")
{
	Line l; OutputType m = OutputType(sx_choose("mode", 0, 2)); LossMapCollimationOutput& o = *new LossMapCollimationOutput(m); int n = sx_choose("n", 0, 4), e = sx_choose("el", 0, 2); double pos = sx_double("pos", 0, 0.3); for(int k = 1; k <= 3; k++) sx_assume(beyond(pos - 0.1 * k, 1e-6)); for(int i = 0; i < n; i++) { PSvector p = part(i, 0); o.Dispose(*l.e[e], pos, p, i); } o.Finalise();
	sx_assert(o.OutputLosses.size() == (n ? 1u : 0u), "one entry"); if(o.OutputLosses.size() == 1) { sx_close(o.OutputLosses[0].lost, n, 1e-9, "number of losses"); }
	std::ostringstream s; LossMapCollimationOutput& z = *new LossMapCollimationOutput(m); for(int i = 0; i < n; i++) { PSvector p = part(i, 0); z.Dispose(*l.e[e], 0.05, p, i); } z.Finalise(); z.Output(&s); int lines = 0; for(char c : s.str()) lines += c == '\n'; sx_assert(lines == 1 + (n ? 1 : 0), "a header and one line per entry"); sx_assert(!n || s.str().find(l.e[e]->GetQualifiedName()) != std::string::npos, "names in the output");
}
SX_HARNESS(warm, "warm regions given by any two limits, cleared or not")
{
	Line l; LossMapCollimationOutput& o = *new LossMapCollimationOutput(tencm); double a = sx_double("a", 9, 12), b = sx_double("b", 9, 12); for(double s : l.s) sx_assume(beyond(a - s, 1e-6) & beyond(b - s, 1e-6)); o.SetWarmRegion(std::make_pair(a, b)); bool two = sx_bool("two"), clr = sx_bool("clear"); if(two) o.SetWarmRegion(std::make_pair(10.4, 10.6)); if(clr) o.ClearWarmRegions();
	sx_assert(o.GetWarmRegions().size() == (clr ? 0u : two ? 2u : 1u), "regions set"); if(!clr) { sx_close(o.GetWarmRegions()[0].first, a, 1e-12, "regions set"); sx_close(o.GetWarmRegions()[0].second, b, 1e-12, "regions set"); }
	for(int i = 0; i < 3; i++) { PSvector p = part(i, 0); o.Dispose(*l.e[i], 0.05, p, 1); bool w = !clr & (i != 0) & (((l.s[i] > a) & (l.s[i] < b)) | (two & (i == 1))); auto t = o.DeadParticles.back().temperature; sx_assert((t == LossData::Warm) == w, "warm losses"); sx_assert((t == LossData::Collimator) == (i == 0), "losses in collimators"); sx_assert((t == LossData::Cold) == (i != 0 && !w), "cold losses"); }
}
SX_HARNESS(detailed, "detailed output: names of the elements matched by patterns of symbolic letters")
{
	DetailedCollimationOutput o; std::string nm(2, 'a'); nm[0] = (char) sx_int("n0", 'a', 'c'); nm[1] = (char) sx_int("n1", 'a', 'c'); int k = sx_choose("pattern", 0, 3); static const char* PT[] = {"a*", "*b", "ac", "*"}; if(k < 3) { o.AddIdentifier(PT[k]); if(k == 2) o.AddIdentifier("c*"); } 
	Drift d(nm, 0.7); d.SetComponentLatticePosition(12); double pos = sx_double("pos", 0, 0.7), x = sx_double("x", -1, 1); PSvector p = part(5, x); int turn = sx_choose("turn", 1, 2); o.Dispose(d, pos, p, turn);
	bool m = k == 0 ? nm[0] == 'a' : k == 1 ? nm[1] == 'b' : k == 2 ? ((nm[0] == 'a') & (nm[1] == 'c')) | (nm[0] == 'c') : false;
	sx_assert((o.DeadParticles.size() == 1) == m, "losses in the elements selected are recorded"); if(o.DeadParticles.size() != 1) return; LossData& r = o.DeadParticles[0]; sx_assert(r.ElementName == nm, "name of the element"); sx_close(r.s, 12, 1e-12, "lattice position"); sx_close(r.position, pos, 1e-12, "position in the element"); sx_close(r.length, 0.7, 1e-12, "length of the element"); sx_assert(r.turn == turn, "turn"); sx_close(r.p.x(), x, 1e-12, "particle"); sx_close(r.lost, 1, 1e-12, "one particle");
}
