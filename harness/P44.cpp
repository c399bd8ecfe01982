// P44: scattering of particles in matter: choice of the process, angles and energies after it
//@ time: *=25
//@ exclude: RandomNG.cpp
#include "hx.h"
#include <memory>
#include <vector>
#include "ScatteringModel.h"
#include "ScatteringModelsMerlin.h"
#include "ScatteringProcess.h"
#include "MaterialProperties.h"
#include "RandomNG.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
using namespace Collimation;
using namespace PhysicalUnits;
// random numbers chosen by the solver: angles by their range, other uniform numbers and normal ones in the order drawn
static int drawn, angles, normals; static double U[8], PHI, UMAX = 0.999, UMIN = 0.001, FIX = -1; static const double* Z = nullptr;
double RandomNG::uniform(double a, double b)
{
	if(a < 0) { angles++; return PHI = sx_double("phi", -3.1, 3.1); }
	double u = drawn == 0 && FIX > 0 ? FIX : sx_double(sx_n("u", drawn).c_str(), UMIN, UMAX); U[drawn++] = u; return a + (b - a) * u;
}
double RandomNG::normal(double m, double v) { sx_assert(m == 0 && v == 1, "standard normal numbers"); return Z ? Z[normals++] : 0; }
double RandomNG::normal(double m, double, double) { return m; }
double RandomNG::poisson(double) { return 0; }
double RandomNG::landau() { return 0; }
void RandomNG::init() {}
void RandomNG::init(std::uint32_t) {}
void RandomNG::init(const std::vector<std::uint32_t>&) {}
void RandomNG::reset() {}
std::mt19937_64& RandomNG::getGenerator() { static std::mt19937_64 g; return g; }
std::mt19937_64& RandomNG::getLocalGenerator(size_t) { static std::mt19937_64 g; return g; }
void RandomNG::resetLocalGenerator(size_t) {}
std::uint32_t hash_string(std::string) { return 1; }

static const double MP = 0.938272, AMU = 0.931494;
static PSvector part(double d) { PSvector p(0); const char* n[6] = {"x", "xp", "y", "yp", "ct", "dp"}; for(int i = 0; i < 6; i++) p[i] = sx_double(n[i], i == 5 ? -d : -1e-3, i == 5 ? d : 1e-3); return p; }
static const double MA[3] = {12, 63.5, 184};
static MaterialProperties* mat(int i) { return new MaterialProperties(MA[i], 0.33 + i, 0.23 + 0.6 * i, 0.01 * (i + 1), 1.7, 42.7 / (i + 1), 2265. * (i + 1), 6 + 20 * i); }
// the particle after a scatter with momentum transfer t and energy loss D
static void check(const PSvector& p, const PSvector& q, double E, double t, double D, bool kept)
{
	double E2 = (1 + p.dp()) * E - D, th = std::sqrt(t) / E2;
	sx_close((q.dp() + 1) * E / E2, 1, 1e-5, "energy after the scatter"); sx_close((q.dp() - p.dp()) * E, -D, 1e-4, "energy loss of the scatter");
	sx_close((q.xp() - p.xp()) / th, std::cos(PHI), 1e-4, "horizontal angle"); sx_close((q.yp() - p.yp()) / th, std::sin(PHI), 1e-4, "vertical angle");
	sx_assert((q.x() == p.x()) & (q.y() == p.y()) & (q.ct() == p.ct()), "position is kept"); sx_assert(angles == 1, "one azimuth"); sx_assert(kept == (E2 > 0.1), "particles below 0.1 GeV are lost");
}
static double energy() { return sx_bool("LHC") ? 7000 : 450; }
SX_HARNESS(rutherford, "Rutherford scattering off a nucleus and in SixTrack's way")
{
	drawn = angles = 0; int i = sx_choose("material", 0, 2); std::unique_ptr<MaterialProperties> m(mat(i)); bool st = sx_bool("sixtrack"); double E = sx_double("E", 50, 7000); PSvector p = part(0.05), q = p; bool k = st ? SixTrackRutherford().Scatter(q, E) : Rutherford(m.get()).Scatter(q, E);
	sx_assert(drawn == 1, "one random number"); double t = 0.9982e-3 / (1 - U[0]); check(p, q, E, t, st ? 0 : t / (2 * AMU * MA[i]), k);
}
SX_HARNESS(slow, "particles left with little energy are lost")
{
	drawn = angles = 0; UMAX = 0.5; std::unique_ptr<MaterialProperties> m(mat(0)); bool st = sx_bool("sixtrack"); PSvector p = part(0), q; double E = 100; p.dp() = sx_double("slow", 0.0005, 0.0025) - 1; q = p; bool k = st ? SixTrackRutherford().Scatter(q, E) : Rutherford(m.get()).Scatter(q, E);
	double t = 0.9982e-3 / (1 - U[0]), E2 = (1 + p.dp()) * E - (st ? 0 : t / (2 * AMU * MA[0])); sx_implies(E2 > 0.1001, k, "particles above 0.1 GeV are kept"); sx_implies(E2 < 0.0999, !k, "particles below 0.1 GeV are lost"); PSvector r(p); sx_assert(!Inelastic().Scatter(r, E), "inelastic scattering loses the particle"); UMAX = 0.999;
}
SX_HARNESS(elastic, "elastic scattering off nuclei (recoiling or not) and off nucleons in SixTrack's way")
{
	drawn = angles = 0; int i = sx_choose("material", 0, 2), w = sx_choose("process", 0, 2); std::unique_ptr<MaterialProperties> m(mat(i)); double E = w == 2 ? energy() : sx_double("E", 50, 7000); PSvector p = part(0.05), q = p; bool k = w == 0 ? ElasticpN(E, m.get()).Scatter(q, E) : w == 1 ? SixTrackElasticpN(m.get()).Scatter(q, E) : SixTrackElasticpn().Scatter(q, E);
	sx_assert(drawn == 1, "one random number"); double b = w == 2 ? 8.5 + 1.086 * std::log(std::sqrt(2 * MP * E)) : 14.1 * std::pow(MA[i], 0.66), t = -std::log(U[0]) / b; check(p, q, E, t, w == 0 ? t / (2 * AMU * MA[i]) : 0, k);
}
SX_HARNESS(mixture, "scattering off nuclei of a mixture: slope and recoil are those of the nucleus picked")
{
	std::map<std::string, MaterialProperties*> d; std::unique_ptr<MaterialProperties> a(mat(0)), b(mat(2)); d["A"] = a.get(); d["B"] = b.get(); Mixture m(d, {"A", "B"}, {3, 1}, 5000); bool R = sx_bool("Rutherford"), e = sx_bool("SixTrack"); double E = sx_double("E", 50, 7000); PSvector p = part(0.05), q = p; drawn = angles = 0;
	bool k = R ? Rutherford(&m).Scatter(q, E) : e ? SixTrackElasticpN(&m).Scatter(q, E) : ElasticpN(E, &m).Scatter(q, E); sx_assert(drawn == 2, "two random numbers"); double f = R ? 3 * a->sigma_R / (3 * a->sigma_R + b->sigma_R) : 3 * a->sigma_T / (3 * a->sigma_T + b->sigma_T); sx_assume(beyond(U[0] - f, 1e-4));
	double A = U[0] < f ? MA[0] : MA[2], t = R ? 0.9982e-3 / (1 - U[1]) : -std::log(U[1]) / (14.1 * std::pow(A, 0.66)); check(p, q, E, t, !R && e ? 0 : t / (2 * AMU * A), k);
}
SX_HARNESS(diffractive, "single diffractive scattering in SixTrack's way: mass, slope and energy loss")
{
	static const double ms[8] = {1.1, 1.9, 2.1, 3.3, 4.9, 5.1, 30, 100}; drawn = angles = 0; double E = energy(); FIX = std::log(ms[sx_choose("mass", 0, 7)]) / std::log(0.15 * 2 * MP * E); PSvector p = part(0.05), q = p; bool k = SixTrackSingleDiffractive().Scatter(q, E); sx_assert(drawn == 2, "two random numbers");
	double s = 2 * MP * E, b = 8.5 + 1.086 * std::log(std::sqrt(s)), M = std::exp(U[0] * std::log(0.15 * s)); if(M < 2) b *= 2; else if(M <= 5) b *= (106 - 17 * M) / 26; else b *= 7. / 12; check(p, q, E, -std::log(U[1]) / b, M * E / s, k); FIX = -1;
}
// a model whose processes only record which of them was asked
struct Process: ScatteringProcess { int n; bool r; Process(int i, bool b) : n(i), r(b) {} bool Scatter(PSvector& p, double E) const override { p.x() += n; p.y() = E; return r; } };
struct Model: ScatteringModel
{
	int configured = 0; double X[2][5]; MaterialProperties* m[2];
	void Configure(MaterialProperties* a, double) override { configured++; int k = a == m[1]; for(int i = 0; i < 5; i++) Xsection[i] = X[k][i]; for(int i = 1; i < 6; i++) Processes[i] = new Process(i + 10 * k, i % 2); }
};
SX_HARNESS(choice, "the process is chosen with probability cross section over total; materials are configured once")
{
	Model m; std::unique_ptr<MaterialProperties> a(mat(0)), b(mat(1)); m.m[0] = a.get(); m.m[1] = b.get(); UMIN = 0; UMAX = 1; static const double F[5] = {1, 0.2, 0.1, 0.3, 0.25};
	for(int k = 0; k < 2; k++) { m.X[k][0] = k ? 2 : sx_double("total", 1, 3); for(int i = 1; i < 5; i++) m.X[k][i] = k ? F[i] : m.X[k][0] * F[5 - i]; }
	int seq = sx_choose("sequence", 0, 3); static const int S[4][3] = {{0, 0, 0}, {0, 1, 0}, {1, 0, 1}, {0, 1, 1}}; drawn = 0;
	for(int j = 0; j < 3; j++)
	{
		int k = S[seq][j]; if(j < 2) { UMIN = j ? 0.55 : 0.33; UMAX = UMIN + 0.001; } else { UMIN = 0; UMAX = 1; } PSvector p(0); bool r = m.ParticleScatter(p, m.m[k], 100 + j); double u = U[j] * m.X[k][0], c = 0; int n = (int) (p.x() + 0.5); sx_assert(p.y() == 100 + j, "energy given to the process"); sx_assert(n / 10 == k, "processes of the material"); n %= 10; sx_assert(r == (n % 2 == 1), "fate given by the process");
		for(int i = 1; i < 6; i++) { double d = i == 5 ? 10 : c + m.X[k][i]; sx_implies((u > c + 1e-9) & (u < d - 1e-9), n == i, "process by its cross section"); c = d; }
	}
	sx_assert(m.configured == (seq == 0 ? 1 : 2), "each material is configured once"); UMIN = 0.001; UMAX = 0.999;
}
SX_HARNESS(sections, "SixTrack models: cross sections of the processes and which processes they are")
{
	int i = sx_choose("material", 0, 2), e = sx_choose("E", 0, 2); double E = e == 0 ? 450 : e == 1 ? 7000 : 100; bool ion = sx_bool("ionisation"); std::unique_ptr<MaterialProperties> m(mat(i)); std::unique_ptr<ScatteringModel> M; if(ion) M.reset(new ScatteringModelSixTrackIoniz); else M.reset(new ScatteringModelSixTrack); M->Configure(m.get(), E);
	double f = 1.618 * std::pow(MA[i], 0.333), x[5] = {m->sigma_T, m->sigma_R, f * 0.007 * std::pow(E / 450, 0.04792), f * 0.00068 * std::log(0.15 * (2 * MP * E + MP * MP)), m->sigma_I}; for(int j = 0; j < 5; j++) sx_close(M->Xsection[j] / x[j], 1, 1e-5, "cross section"); sx_assert((M->energy_loss_mode == FullEnergyLoss) == ion, "energy loss of the model");
	ScatteringProcess** P = &M->Processes[0]; sx_assert(dynamic_cast<SixTrackRutherford*>(P[1]) && dynamic_cast<SixTrackElasticpn*>(P[2]) && dynamic_cast<SixTrackSingleDiffractive*>(P[3]) && dynamic_cast<Inelastic*>(P[4]) && dynamic_cast<SixTrackElasticpN*>(P[5]), "processes of the model");
}
SX_HARNESS(pathlength, "path length to the next scatter: exponential with the mean free path")
{
	Model m; std::unique_ptr<MaterialProperties> a(mat(0)); drawn = 0; a->lambda = sx_double("lambda", 0.1, 2); double s = m.PathLength(a.get(), 7000); sx_assert(drawn == 1, "one random number"); sx_close(s, -a->lambda * std::log(U[0]), 1e-9, "path length");
}
SX_HARNESS(straggle, "multiple scattering: covariance of angle and offset of each plane, planes independent, momentum untouched")
{
	Model m; int i = sx_choose("material", 0, 2); std::unique_ptr<MaterialProperties> a(mat(i)), b(mat(2 - i)); static const double xs[3] = {0.01, 0.2, 1}; double x = xs[sx_choose("length", 0, 2)], E1 = sx_double("E1", 100, 7000), E2 = E1 - sx_double("loss", 0, 10); PSvector p = part(0.05), q[4]; double s[4][4] = {{0}}, c[4] = {0, 0, 0, 0};
	if(sx_bool("other")) { Z = s[0]; normals = 0; PSvector r = p; m.Straggle(r, 0.1, b.get(), 100, 100); }
	for(int k = 0; k < 4; k++) { s[k][k] = 1; q[k] = p; Z = s[k]; normals = 0; m.Straggle(q[k], x, a.get(), E1, E2); sx_assert(normals == 4, "four random numbers"); sx_assert((q[k].ct() == p.ct()) & (q[k].dp() == p.dp()), "momentum and time are kept"); }
	double X0 = 0.427 / (i + 1) / (2.265 * (i + 1)), th = 0.0136 * std::sqrt(x / X0) * (1 + 0.038 * std::log(x / X0)) * 2 / (E1 + E2); Z = nullptr; (void) c;
	double v[4][4]; for(int j = 0; j < 4; j++) for(int l = 0; l <= j; l++) { v[j][l] = 0; for(int k = 0; k < 4; k++) v[j][l] += (q[k][j] - p[j]) / th * (q[k][l] - p[l]) / th; }
	for(int j = 0; j < 4; j += 2) { sx_close(v[j + 1][j + 1], 1, 1e-5, "variance of the angle"); sx_close(v[j + 1][j] / x, 0.5, 1e-5, "covariance of angle and offset"); sx_close(v[j][j] / x / x, 1. / 3, 1e-5, "variance of the offset"); }
	sx_close(v[2][0] / x / x, 0, 1e-6, "planes are independent"); sx_close(v[3][0] / x, 0, 1e-6, "planes are independent"); sx_close(v[2][1] / x, 0, 1e-6, "planes are independent"); sx_close(v[3][1], 0, 1e-6, "planes are independent");
}
SX_HARNESS(simple_loss, "simple energy loss: dE/dx times the length")
{
	Model m; m.energy_loss_mode = SimpleEnergyLoss; std::unique_ptr<MaterialProperties> a(mat(1)); a->SetExtra("SixtrackdEdx", 2.69); double x = sx_double("length", 0.001, 1), E = sx_double("E", 100, 7000); PSvector p = part(0.05), q = p; m.EnergyLoss(q, x, a.get(), E); sx_close((p.dp() - q.dp()) * E, 2.69 * x, 1e-7, "energy loss"); for(int i = 0; i < 5; i++) sx_assert(p[i] == q[i], "only the momentum changes");
}
