// P50: ground motion of supports
//@ time: *=25
//@ exclude: RandomNG.cpp
#include "hx.h"
#include <random>
#include <fstream>
#include <sstream>
#include <memory>
#include <vector>
#include <cmath>
#include <map>
#include "ATL2D.h"
#include "SimpleATL.h"
#include "AcceleratorSupport.h"
#include "RandomNG.h"
// local generators: the state follows from the number asked for
double RandomNG::uniform(double a, double) { return a; }
double RandomNG::normal(double m, double) { return m; }
double RandomNG::normal(double m, double, double) { return m; }
double RandomNG::poisson(double) { return 0; }
double RandomNG::landau() { return 0; }
void RandomNG::init() {}
void RandomNG::init(std::uint32_t) {}
void RandomNG::init(const std::vector<std::uint32_t>&) {}
void RandomNG::reset() {}
std::mt19937_64& RandomNG::getGenerator() { static std::mt19937_64 g; return g; }
static std::mt19937_64* gens[64];
std::mt19937_64& RandomNG::getLocalGenerator(size_t h) { size_t k = h & 63; if(!gens[k]) gens[k] = new std::mt19937_64(1000 + k); return *gens[k]; }
void RandomNG::resetLocalGenerator(size_t h) { getLocalGenerator(h) = std::mt19937_64(1000 + (h & 63)); }
std::uint32_t hash_string(std::string) { return 0; }

typedef std::vector<double> V;
struct Sup { AcceleratorSupportList l; Sup(const double (*p)[3], int n) { for(int i = 0; i < n; i++) { l.push_back(new AcceleratorSupport); l[i]->SetPosition(p[i][0], p[i][1], p[i][2]); } } V y() const { V v; for(auto s : l) { v.push_back(s->GetOffset().y); sx_assert(s->GetOffset().x == 0 && s->GetOffset().z == 0, "motion is vertical"); } return v; } };
// the normal numbers that a generator of seed k hands out, skipping the first ones
static V normals(int k, int n, int skip = 0) { std::mt19937_64 g(1000 + k); V v; for(int i = 0; i < n + skip; i++) { double z = std::normal_distribution<>(0, 1)(g); if(i >= skip) v.push_back(z); } return v; }
// y = M z for n seeds: M
static std::vector<V> solve(std::vector<V> z, std::vector<V> y)
{
	int n = z.size(); // rows: seeds; z M^T = y
	for(int c = 0; c < n; c++)
	{
		int p = c; for(int r = c; r < n; r++) if(std::fabs(z[r][c]) > std::fabs(z[p][c])) p = r;
		std::swap(z[p], z[c]); std::swap(y[p], y[c]); double d = 1 / z[c][c]; for(double& v : z[c]) v *= d; for(double& v : y[c]) v *= d;
		for(int r = 0; r < n; r++) if(r != c && z[r][c] != 0) { double f = z[r][c]; for(int k = 0; k < n; k++) z[r][k] -= f * z[c][k]; for(size_t k = 0; k < y[r].size(); k++) y[r][k] -= f * y[c][k]; }
	}
	return y; // row k: response to number k
}
static void covariance(const std::vector<V>& z, const std::vector<V>& y, const std::vector<V>& C, double scale, const char* what)
{
	auto m = solve(z, y); int n = C.size();
	for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++) { double s = 0; for(auto& r : m) s += r[i] * r[j]; sx_close(s * scale, C[i][j] * scale, 1e-5, what); }
}
static double dist(const double* a, const double* b) { return std::sqrt((a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
static const double POS[5][4][3] = {{{0, 0, 0}, {1, 0, 1}, {3, 0, 3}, {3.5, 0, 3.5}}, {{0.5, 0, 0.5}, {0.87, 0, 0.87}, {0.87, 0, 0.87}, {4.5, 0, 4.5}}, {{1, 0.2, 1}, {2, 0.5, 1.9}, {3, 1.2, 2.7}, {4, 2, 3}}, {{4, 0, 4}, {2, 0, 2}, {3, 0, 3}, {1, 0, 1}}, {{1, -0.5, 0.9}, {2, 0.5, 1}, {2.5, 0.5, 1.6}, {3, 1, -1}}};
static std::vector<V> law(const double (*p)[3], const double* r, int n) { std::vector<V> C(n, V(n)); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) C[i][j] = (dist(p[i], r) + dist(p[j], r) - dist(p[i], p[j])) / 2; return C; }
static std::vector<V> times(std::vector<V> C, double f, double d) { for(size_t i = 0; i < C.size(); i++) { for(double& v : C[i]) v *= f; C[i][i] += d; } return C; }

SX_HARNESS(increment, "ATL2D, increments: covariance A dt (d(i,r) + d(j,r) - d(i,j)) / 2 over any number of steps")
{
	int g = sx_choose("places", 0, 4), n = 4, steps = sx_choose("steps", 1, 2); Point2D ref(g == 4 ? 1.0 : 0, g == 4 ? 0.5 : 0); double r[3] = {0, ref.x, ref.y}; bool start = sx_bool("start");
	double A = sx_double("A", 0.1, 10), dt = sx_double("dt", 0.1, 10); std::vector<V> z, y; Sup s(POS[g], n);
	ATL2D a(A, s.l, ref); sx_assert(a.SetATLMode(ATL2D::increment), "set mode");
	for(int k = 0; k < n * steps; k++) { a.Reset(); a.SetRandomSeed(k + 1); if(start) s.l[1]->SetOffset(0, 2, 0); for(int i = 0; i < steps; i++) sx_close(a.DoStep(dt), dt * (i + 1), 1e-9, "time"); V v = s.y(); if(start) v[1] -= 2; y.push_back(v); z.push_back(normals(k + 1, n * steps)); }
	covariance(z, y, times(law(POS[g], r, n), A * dt * steps, 0), 1, "covariance of the increments"); sx_assert(a.GetRandomSeed() == unsigned(n * steps), "seed");
}

SX_HARNESS(absolute, "ATL2D, absolute: each step sets offsets of covariance A t (t after the step), with independent vibration on top")
{
	int g = sx_choose("places", 0, 4), n = 4, last = sx_choose("steps", 1, 2); bool vib = sx_bool("vibration"); int K = n * (1 + vib); Point2D ref(g == 4 ? 1.0 : 0, g == 4 ? 0.5 : 0); double r[3] = {0, ref.x, ref.y};
	double A = sx_double("A", 0.1, 10), dt = sx_double("dt", 0.1, 10), vr = 0.7; std::vector<V> z, y; Sup s(POS[g], n);
	ATL2D a(A, s.l, ref); if(vib) sx_assert(a.SetVibration(vr), "vibration in absolute mode");
	for(int k = 0; k < K; k++) { a.Reset(); s.l[0]->SetOffset(0, 5, 0); for(int i = 0; i < last; i++) { if(i == last - 1) a.SetRandomSeed(k + 1); sx_close(a.DoStep(dt), dt * (i + 1), 1e-9, "time"); } sx_close(a.GetTime(), dt * last, 1e-9, "time"); y.push_back(s.y()); z.push_back(normals(k + 1, K)); }
	covariance(z, y, times(law(POS[g], r, n), A * dt * last, vib ? vr * vr : 0), 1, "covariance of the offsets");
}
SX_HARNESS(modes, "increments ignore vibration, which can only be set in absolute mode; refused changes change nothing")
{
	Sup s(POS[0], 4); double A = 1; ATL2D a(A, s.l); bool vib = false, inc = false; double v = 0;
	for(int i = 0; i < 4; i++) switch(sx_choose(sx_n("op", i).c_str(), 0, 2)) {
		case 0: sx_assert(a.SetVibration(0.5) == !inc, "SetVibration"); if(!inc) vib = true; break;
		case 1: sx_assert(a.SetVibration(0) == !inc, "SetVibration"); if(!inc) vib = false; break;
		default: { bool want = sx_bool(sx_n("inc", i).c_str()), ok = a.SetATLMode(want ? ATL2D::increment : ATL2D::absolute); if(!vib) sx_assert(ok, "SetATLMode"); if(ok) inc = want; break; } }
	a.SetRandomSeed(3); s.l[0]->SetOffset(0, 5, 0); a.DoStep(1); double y0 = s.l[0]->GetOffset().y; // no ground motion at the reference point
	if(inc) sx_close(y0, 5, 1e-12, "mode in force"); else { sx_assert((y0 != 0) == vib, "mode in force"); sx_assert(std::fabs(y0) < 4, "mode in force"); }
}
SX_HARNESS(simple, "SimpleATL: a random walk along the arc, added up over the steps, with fresh vibration")
{
	int g = sx_choose("places", 0, 3), n = 4, steps = sx_choose("steps", 1, 2); bool vib = sx_bool("vibration"); int per = n * (1 + vib), K = per * steps; double vr = vib ? 0.7 : 0;
	double A = sx_double("A", 0.1, 10), dt = sx_double("dt", 0.1, 10); std::vector<V> z, y; Sup s(POS[g], n); SimpleATL a(A, s.l, vr);
	for(int k = 0; k < K; k++) { a.Reset(); sx_assert(a.GetTime() == 0, "time"); a.SetRandomSeed(k + 1); for(int i = 0; i < steps; i++) { if(i) s.l[2]->SetOffset(0, 3, 0); sx_close(a.DoStep(dt), dt * (i + 1), 1e-9, "time"); } y.push_back(s.y()); z.push_back(normals(k + 1, K)); }
	std::vector<V> C(n, V(n)); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) C[i][j] = std::min(POS[g][i][0], POS[g][j][0]) * A * dt * steps + (i == j) * vr * vr;
	covariance(z, y, C, 1, "covariance of the offsets");
}
SX_HARNESS(gaps, "SimpleATL: supports any distance apart")
{
	double A = sx_double("A", 0.1, 10), g1 = sx_double("g1", 0.001, 10), g2 = sx_double("g2", 0.001, 10); double p[2][3] = {{g1, 0, g1}, {g1 + g2, 0, g1 + g2}}; Sup s(p, 2); SimpleATL a(A, s.l); std::vector<V> z, y;
	for(int k = 0; k < 2; k++) { a.Reset(); a.SetRandomSeed(k + 1); a.DoStep(0.5); y.push_back(s.y()); z.push_back(normals(k + 1, 2)); }
	auto m = solve(z, y); double d = 0; for(auto& r : m) d += (r[1] - r[0]) * (r[1] - r[0]); sx_close(d, A * 0.5 * g2, 1e-6, "relative motion of neighbours"); d = 0; for(auto& r : m) d += r[0] * r[0]; sx_close(d, A * 0.5 * g1, 1e-6, "motion of the first support");
}
SX_HARNESS(again, "the same seed gives the same motion; Reset undoes it")
{
	int which = sx_choose("which", 0, 1); double A = sx_double("A", 0.1, 10); Sup s(POS[2], 4); ATL2D a(A, s.l); SimpleATL b(A, s.l, 0.1); if(!which) a.SetATLMode(ATL2D::increment); V first; unsigned seed = sx_choose("seed", 0, 2);
	auto step = [&] { if(which) b.DoStep(0.5); else a.DoStep(0.5); }; auto reset = [&] { if(which) b.Reset(); else a.Reset(); V v = s.y(); for(double y : v) sx_assert(y == 0, "Reset brings the supports back"); sx_assert((which ? b.GetTime() : a.GetTime()) == 0, "Reset sets the clock to zero"); };
	if(which) b.SetRandomSeed(seed); else a.SetRandomSeed(seed); step(); step(); first = s.y(); reset();
	if(sx_bool("set")) { if(which) b.SetRandomSeed(seed); else a.SetRandomSeed(seed); } else if(which) b.ResetRandomSeed(); else a.ResetRandomSeed(); sx_assert((which ? b.GetRandomSeed() : a.GetRandomSeed()) == seed, "seed");
	step(); step(); V v = s.y(); for(int i = 0; i < 4; i++) sx_close(v[i], first[i], 1e-12, "the same seed gives the same motion");
	step(); V w = s.y(); if(!which) for(int i = 0; i < 4; i++) sx_assert(w[i] != v[i], "steps go on");
}
SX_HARNESS(eigen, "a recorded eigen system gives the same motion")
{
	int g = sx_choose("places", 0, 4); double A = sx_bool("A") ? 0.3 : 7, dt = sx_bool("dt") ? 0.2 : 3; Sup s(POS[g], 4); ATL2D a(A, s.l); std::stringbuf b1, b2; { std::ofstream o1, o2; static_cast<std::ios&>(o1).rdbuf(&b1); static_cast<std::ios&>(o2).rdbuf(&b2); a.RecordEigenSystem(&o1, &o2); }
	std::ifstream i1, i2; static_cast<std::ios&>(i1).rdbuf(&b1); static_cast<std::ios&>(i2).rdbuf(&b2); ATL2D b(A, s.l, Point2D(0, 0), &i1, &i2);
	a.SetATLMode(ATL2D::increment); b.SetATLMode(ATL2D::increment); a.SetRandomSeed(1); a.DoStep(dt); V v = s.y(); a.Reset(); b.SetRandomSeed(1); b.DoStep(dt); V w = s.y(); for(int i = 0; i < 4; i++) sx_close(w[i], v[i], 1e-3, "motion from a recorded eigen system");
}
