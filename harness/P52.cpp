// P52: generated distributions fill the region they are asked to fill
//@ time: *=25
//@ exclude: RandomNG.cpp
#include "hx.h"
#include <random>
#include <memory>
#include <vector>
#include <cmath>
#include "ParticleDistributionGenerator.h"
#include "HaloParticleDistributionGenerator.h"
#include "HollowElensParticleDistributionGenerator.h"
#include "RandomNG.h"
static const double T = 1e-9, PI = 3.14159265358979323846;
// every random number asked for
struct Draw { int kind; double a, b, c, u; }; // 0 uniform(a, b), 1 normal(a, b), 2 normal(a, b, c)
static std::vector<Draw> draws; static bool distinct = true;
static double put(int k, double a, double b, double c, double lo, double hi) { int n = draws.size(); double u = sx_double(sx_n("u", n).c_str(), lo, hi); if(distinct) for(auto& d : draws) sx_assume(beyond(u - d.u, 1e-3)); Draw d = {k, a, b, c, u}; draws.push_back(d); return u; }
double RandomNG::uniform(double a, double b) { return put(0, a, b, 0, a, b); }
double RandomNG::normal(double m, double v) { return put(1, m, v, 0, m - 4 * std::sqrt(v), m + 4 * std::sqrt(v)); }
double RandomNG::normal(double m, double v, double c) { return put(2, m, v, c, m - c * std::sqrt(v), m + c * std::sqrt(v)); }
double RandomNG::poisson(double) { return 0; }
double RandomNG::landau() { return 0; }
void RandomNG::init() {}
void RandomNG::init(std::uint32_t) {}
void RandomNG::init(const std::vector<std::uint32_t>&) {}
void RandomNG::reset() {}
std::mt19937_64& RandomNG::getGenerator() { static std::mt19937_64 g; return g; }
std::mt19937_64& RandomNG::getLocalGenerator(size_t) { return getGenerator(); }
void RandomNG::resetLocalGenerator(size_t) {}
std::uint32_t hash_string(std::string) { return 0; }

static bool used[64];
// v is a number drawn from the distribution asked for, which nothing else uses
static void drawn(double v, int kind, double a, double b, double c, const char* m)
{
	for(size_t i = 0; i < draws.size(); i++) { const Draw& d = draws[i]; if(!used[i] && d.kind == kind && std::fabs(d.a - a) < T && std::fabs(d.b - b) < T && std::fabs(d.c - c) < T && d.u == v) { used[i] = true; sx_close(v, d.u, T, m); return; } }
	sx_assert(false, m);
}
static void flat(double v) { drawn(v, 0, -1, 1, 0, "evenly distributed between -1 and 1, independently"); }
static void gauss(double v, double cut) { drawn(v, cut == 0 ? 1 : 2, 0, 1, cut, "normally distributed up to its own cut-off, independently"); }
// (x, y) lies at amplitude r under an evenly distributed phase
static void ring(double x, double y, double r, const char* m)
{
	sx_close(x * x + y * y, r * r, 1e-6, m);
	for(size_t i = 0; i < draws.size(); i++) { const Draw& d = draws[i]; if(used[i] || d.kind != 0 || std::fabs(d.b - d.a - 2 * PI) > 1e-6) continue; double c = r * std::cos(d.u), s = r * std::sin(d.u); sx_close(x * c + y * s, r * r, 1e-6, "the phase is evenly distributed over the circle"); used[i] = true; return; }
	sx_assert(false, "the phase is evenly distributed over the circle");
}
static PSvector cuts(int k) { PSvector c(0); if(k == 1) { c = PSvector(2.5); } if(k == 2) for(int i = 0; i < 6; i++) c[i] = 1 + 0.25 * i; if(k == 3) { c.yp() = 3; c.x() = 2; c.dp() = 1.5; } return c; }
SX_HARNESS(plain, "normal distribution with no, common, individual and some cut-offs; uniform distribution: two vectors, any random numbers")
{
	int k = sx_choose("kind", 0, 5); PSvector c = cuts(k == 5 ? 1 : k); std::unique_ptr<ParticleDistributionGenerator> g; if(k == 4) g.reset(new UniformParticleDistributionGenerator); else if(k == 0) g.reset(new NormalParticleDistributionGenerator); else if(k == 5) g.reset(new NormalParticleDistributionGenerator(2.5)); else g.reset(new NormalParticleDistributionGenerator(c));
	for(int n = 0; n < 2; n++) { PSvector p = g->GenerateFromDistribution(); for(int i = 0; i < 6; i++) if(k == 4) flat(p[i]); else gauss(p[i], c[i]); }
}
SX_HARNESS(rings, "ring in both planes: two vectors, any random numbers")
{
	RingParticleDistributionGenerator g; for(int n = 0; n < 2; n++) { PSvector p = g.GenerateFromDistribution(); ring(p.x(), p.xp(), 1, "a circle of one sigma"); ring(p.y(), p.yp(), 1, "a circle of one sigma"); flat(p.dp()); flat(p.ct()); }
}
SX_HARNESS(halos, "horizontal and vertical halos of any size, of both kinds, with no, common, individual and some cut-offs: two vectors, any random numbers")
{
	int kind = sx_choose("kind", 0, 3), k = kind < 2 ? 0 : sx_choose("cut-offs", 0, 3); bool def = sx_bool("default size"); double s = def ? 1 : sx_double("size", 0.5, 8); PSvector c = cuts(k); std::unique_ptr<ParticleDistributionGenerator> g;
	if(kind == 0) g.reset(def ? new HorizonalHalo1ParticleDistributionGenerator() : new HorizonalHalo1ParticleDistributionGenerator(s)); if(kind == 1) g.reset(def ? new VerticalHalo1ParticleDistributionGenerator() : new VerticalHalo1ParticleDistributionGenerator(s)); if(kind == 2) g.reset(def ? new HorizonalHalo2ParticleDistributionGenerator(c) : new HorizonalHalo2ParticleDistributionGenerator(s, c)); if(kind == 3) g.reset(def ? new VerticalHalo2ParticleDistributionGenerator(c) : new VerticalHalo2ParticleDistributionGenerator(s, c));
	for(int n = 0; n < 2; n++)
	{
		PSvector p = g->GenerateFromDistribution(); int h = kind & 1 ? 2 : 0, o = 2 - h; ring(p[h], p[h + 1], s, "a circle of the size of the halo"); if(kind < 2) { sx_close(p[o], 0, T, "nothing in the other plane"); sx_close(p[o + 1], 0, T, "nothing in the other plane"); } else { gauss(p[o], c[o]); gauss(p[o + 1], c[o + 1]); } flat(p.dp()); flat(p.ct());
	}
}
SX_HARNESS(hollow, "thick and thin hollow halos between any two radii: two vectors, any random numbers")
{
	bool thick = sx_bool("thick"); double a = sx_double("inner", 0.5, 4), b = a + sx_double("width", 0.5, 4); std::unique_ptr<ParticleDistributionGenerator> g; if(thick) g.reset(new ThickHELHaloParticleDistributionGenerator(a, b)); else g.reset(new ThinHELHaloParticleDistributionGenerator(a, b));
	for(int n = 0; n < 2; n++)
	{
		size_t from = draws.size(); PSvector p = g->GenerateFromDistribution(); double r = b; if(thick) { bool ok = false; for(size_t i = from; i < draws.size() && !ok; i++) { const Draw& d = draws[i]; if(d.kind == 0 && std::fabs(d.b - d.a - 2 * PI) > 1e-6 && d.a == a && d.b == b) { r = d.u; used[i] = true; ok = true; } } sx_assert(ok, "the amplitude is evenly distributed between the radii"); }
		ring(p.x(), p.y(), r, "the amplitude of the halo"); sx_close(p.xp(), 0, T, "no slopes"); sx_close(p.yp(), 0, T, "no slopes"); flat(p.dp()); flat(p.ct());
	}
}
