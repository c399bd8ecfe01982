// P45: random numbers
//@ time: *=25
#include "hx.h"
#include <random>
#include <vector>
#include <cmath>
#include "RandomNG.h"
#include "LandauDistribution.h"
typedef std::vector<std::uint32_t> Seeds;
static const Seeds SEEDS[4] = {{1}, {2}, {1, 2}, {7, 8, 9}};
static void seed(int k, bool single) { if(single && SEEDS[k].size() == 1) RandomNG::init(SEEDS[k][0]); else RandomNG::init(SEEDS[k]); }
// what the generators have to hand out: mersenne twisters of the seeds, those of local generators with the name added
static std::mt19937_64 master(const Seeds& s) { std::seed_seq q(s.begin(), s.end()); return std::mt19937_64(q); }
static std::mt19937_64 local(Seeds s, size_t h) { s.push_back(h); return master(s); }

SX_HARNESS(affine, "normal and uniform numbers scale with mean, variance and limits")
{
	int k = sx_choose("seed", 0, 3); seed(k, true); double m = sx_double("mean", -10, 10), v = sx_double("var", 0.01, 10), lo = sx_double("lo", -5, 5), w = sx_double("w", 0.01, 5); auto g = master(SEEDS[k]);
	for(int i = 0; i < 4; i++) switch(sx_choose(sx_n("op", i).c_str(), 0, 2)) {
		case 0: { double z = std::normal_distribution<>(0, 1)(g); sx_close(RandomNG::normal(m, v), m + z * std::sqrt(v), 1e-9, "normal number"); break; }
		case 1: { double u = std::uniform_real_distribution<>(0, 1)(g), x = RandomNG::uniform(lo, lo + w); sx_close(x, lo + w * u, 1e-9, "uniform number"); break; }
		default: sx_assert(RandomNG::normal(m, 0) == m && RandomNG::normal(m, 0, 3) == m, "no variance"); break; }
	double z = std::normal_distribution<>(0, 1)(g); sx_close(RandomNG::normal(m, v, 0), m + z * std::sqrt(v), 1e-9, "no cutoff");
}
SX_HARNESS(truncated, "truncated normal numbers: within the cutoff, scaled like the others")
{
	int k = sx_choose("seed", 0, 3), n = sx_choose("n", 0, 3); double m = sx_double("mean", -10, 10), v = sx_double("var", 0.01, 10), c = 0.4 + 0.6 * sx_choose("c", 0, 2), sign = sx_bool("neg") ? -1 : 1; seed(k, true); for(int i = 0; i < n; i++) RandomNG::uniform(0, 1);
	double x = RandomNG::normal(m, v, sign * c), after = RandomNG::uniform(0, 1); RandomNG::reset(); for(int i = 0; i < n; i++) RandomNG::uniform(0, 1); double z = RandomNG::normal(0, 1, c), after2 = RandomNG::uniform(0, 1);
	RandomNG::reset(); for(int i = 0; i < n; i++) RandomNG::uniform(0, 1); double z0 = RandomNG::normal(0, 1);
	sx_close(x, m + z * std::sqrt(v), 1e-9, "truncated normal number"); sx_assert(std::fabs(z) <= c, "within the cutoff"); sx_assert(after == after2, "numbers used"); if(std::fabs(z0) <= c) sx_assert(z == z0, "a number within the cutoff is taken");
}
SX_HARNESS(histories, "seeding, resetting and drawing from the generators: each goes its own way")
{
	int k = 0; seed(0, true); std::mt19937_64 G = master(SEEDS[0]); bool have[2] = {false, false}; std::mt19937_64 L[2];
	for(int i = 0; i < 4; i++) {
		int op = sx_choose(sx_n("op", i).c_str(), 0, 5);
		if(op == 0) { k = (k + 1) % 4; seed(k, i & 1); G = master(SEEDS[k]); for(int j = 0; j < 2; j++) if(have[j]) L[j] = local(SEEDS[k], 100 + j); }
		else if(op == 1) { RandomNG::reset(); G = master(SEEDS[k]); for(int j = 0; j < 2; j++) if(have[j]) L[j] = local(SEEDS[k], 100 + j); }
		else if(op == 2) { double u = std::uniform_real_distribution<>(0, 1)(G); sx_assert(RandomNG::uniform(0, 1) == u, "the sequence of a seed"); }
		else if(op == 3) { int j = i & 1; RandomNG::resetLocalGenerator(100 + j); L[j] = local(SEEDS[k], 100 + j); have[j] = true; }
		else { int j = op - 4; if(!have[j]) { L[j] = local(SEEDS[k], 100 + j); have[j] = true; } auto& g = RandomNG::getLocalGenerator(100 + j); sx_assert(g() == L[j](), "the sequence of a local generator"); }
		sx_assert(RandomNG::getSeed() == SEEDS[k], "the seed in force");
	}
}
SX_HARNESS(many, "many local generators: asking again goes on with the sequence")
{
	static const size_t H[5] = {0, 1, 4294967295u, 77, 1000003}; RandomNG::init(3); std::mt19937_64 L[5]; for(int j = 0; j < 5; j++) L[j] = local({3}, H[j]); int n = sx_choose("n", 0, 2) * 5 / 2;
	for(int j = 0; j < n; j++) { int i = (j * 3 + 1) % 5; sx_assert(RandomNG::getLocalGenerator(H[i])() == L[i](), "first number"); }
	for(int k = 0; k < 2; k++) { int i = sx_choose(sx_n("g", k).c_str(), 0, 4); sx_assert(RandomNG::getLocalGenerator(H[i])() == L[i](), "the sequence of a local generator"); }
	if(sx_bool("reset")) { int i = sx_choose("which", 0, 4); RandomNG::resetLocalGenerator(H[i]); L[i] = local({3}, H[i]); }
	for(int j = 0; j < 5; j++) sx_assert(RandomNG::getLocalGenerator(H[j])() == L[j](), "the sequence afterwards");
}
SX_HARNESS(others, "Poisson and Landau numbers come from the same generator")
{
	int k = sx_choose("seed", 0, 3); seed(k, false); auto g = master(SEEDS[k]); static const double MU[4] = {0.1, 3, 11.5, 40};
	for(int i = 0; i < 3; i++) if(sx_bool(sx_n("op", i).c_str())) { double mu = MU[sx_choose(sx_n("mu", i).c_str(), 0, 3)]; sx_assert(RandomNG::poisson(mu) == std::poisson_distribution<int>(mu)(g), "Poisson number"); } else { auto h = g; double u = std::uniform_real_distribution<>(0, 1)(g); sx_close(RandomNG::landau(), landau_distribution<double>{}(h), 1e-12, "Landau number"); sx_assert(u > 0, ""); }
	sx_assert(RandomNG::getGenerator()() == g(), "the generator handed out");
}
// the Landau distribution: survival function by its integral, quantile by bisection
static double survival(double l) { double s = 0, h = 1.0 / 60, c = 1 / (1 + std::max(l, 0.0)); for(int i = 1; i < 4000; i++) { double w = i * h, t = c * w * w * w, e = -t * std::log(t) - l * t; if(e < -40) break; s += std::exp(e) * std::sin(M_PI * t) * 3 / w; } return s * h / M_PI; }
static double quantile(double u) { double a = -3.3, b = u > 0.9 ? 1200 : 15; for(int i = 0; i < 45; i++) { double m = (a + b) / 2; if(1 - survival(m) < u) a = m; else b = m; } return (a + b) / 2; }
struct Given { typedef std::uint64_t result_type; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; } result_type operator()() { return 0; } double u; };
namespace std { template<> double generate_canonical<double, 53, Given>(Given& g) { return g.u; } }
static void window(int I)
{
	Given g; g.u = sx_double("u", I / 1000.0, (I + 0.999) / 1000.0); double x = landau_distribution<double>{}(g), f = g.u * 1000 - I, q0 = quantile(I / 1000.0), q1 = quantile((I + 1) / 1000.0), qm = quantile((I + 0.5) / 1000.0), bend = q0 - 2 * qm + q1;
	sx_close(x, q0 + f * (q1 - q0) - 2 * f * (1 - f) * bend, std::fabs(bend) * 0.7 + 1e-4, "Landau number");
}
SX_HARNESS(landau1, "Landau numbers are quantiles of the Landau distribution, all windows of a thousandth") { window(7 + sx_choose("window", 0, 193)); }
SX_HARNESS(landau2, "Landau numbers are quantiles of the Landau distribution, all windows of a thousandth") { window(201 + sx_choose("window", 0, 193)); }
SX_HARNESS(landau3, "Landau numbers are quantiles of the Landau distribution, all windows of a thousandth") { window(395 + sx_choose("window", 0, 193)); }
SX_HARNESS(landau4, "Landau numbers are quantiles of the Landau distribution, all windows of a thousandth") { window(589 + sx_choose("window", 0, 193)); }
SX_HARNESS(landau5, "Landau numbers are quantiles of the Landau distribution, all windows of a thousandth") { window(783 + sx_choose("window", 0, 193)); }
SX_HARNESS(landau6, "the last windows") { window(977 + sx_choose("window", 0, 21)); }
SX_HARNESS(tail, "the lower tail of the Landau distribution at given numbers") { Given g; g.u = sx_choose("u", 1, 70) * 1e-4; sx_close(landau_distribution<double>{}(g), quantile(g.u), 2e-3, "Landau number"); }
