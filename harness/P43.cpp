// P43: material properties, copies and mixtures
//@ time: *=25
//@ exclude: RandomNG.cpp
#include "hx.h"
#include <memory>
#include <vector>
#include <stdexcept>
#include "MaterialProperties.h"
#include "MaterialData.h"
#include "RandomNG.h"
#include "PhysicalUnits.h"
using namespace PhysicalUnits;
// random numbers chosen by the solver: the n-th uniform number of a harness is u<n> of the unit interval
static int drawn = 0; static double last = 0;
double RandomNG::uniform(double a, double b) { last = sx_double(sx_n("u", drawn++).c_str(), 0, 1); return a + (b - a) * last; }
double RandomNG::normal(double m, double) { return m; }
double RandomNG::normal(double m, double, double) { return m; }
double RandomNG::poisson(double) { return 0; }
double RandomNG::landau() { return 0; }
void RandomNG::init() {}
void RandomNG::init(std::uint32_t) {}
void RandomNG::init(const std::vector<std::uint32_t>&) {}
void RandomNG::reset() {}
std::mt19937_64& RandomNG::getGenerator() { static std::mt19937_64 g; return g; }
std::mt19937_64& RandomNG::getLocalGenerator(size_t) { static std::mt19937_64 g; return g; }
void RandomNG::resetLocalGenerator(size_t) {}
std::uint32_t hash_string(std::string) { return 1; }

static const double T = 2e-5; // sums are kept in single precision
struct V { double A, sT, sI, sR, dE, X0, rho, Z; };
// three different elements, or (sym) the same with symbolic values
static V elem(int i, bool sym)
{
	static const V e[3] = {{12.0, 0.33, 0.23, 0.01, 1.745, 42.7, 2265, 6}, {63.5, 1.232, 0.782, 0.05, 1.403, 12.86, 8960, 29}, {27, 0.634, 0.421, 0.02, 1.724, 24.01, 2700, 13}};
	V v = e[i]; if(!sym) return v;
	double* p = &v.A; static const char* n[8] = {"A", "sT", "sI", "sR", "dE", "X0", "rho", "Z"};
	for(int k = 0; k < 8; k++) p[k] *= sx_double((std::string(n[k]) + char('0' + i)).c_str(), 0.5, 2);
	return v;
}
static MaterialProperties* mat(const V& v) { return new MaterialProperties(v.A, v.sT, v.sI, v.sR, v.dE, v.X0, v.rho, v.Z); }
static void rel(double a, double b, double t, const char* w) { sx_close(a / b, 1, t, w); }
static double lam(double A, double s, double rho) { return A * 1e-3 / (s * rho * 1e-28 * 6.022e23); }
static void same(MaterialProperties& m, const V& v, double t, bool nodens = false)
{
	rel(m.A, v.A, t, "atomic mass"); rel(m.Z, v.Z, t, "atomic number"); rel(m.sigma_T, v.sT, t, "total cross section"); rel(m.sigma_I, v.sI, t, "inelastic cross section"); rel(m.sigma_R, v.sR, t, "Rutherford cross section");
	rel(m.dEdx, v.dE, t, "energy loss"); rel(m.X0, v.X0, t, "radiation length"); rel(m.density, v.rho, t, "density"); rel(m.lambda, lam(v.A, v.sT + v.sR, v.rho), t, "mean free path");
}
SX_HARNESS(single, "one material: what was given, mean free path, update, extra properties")
{
	V v = elem(sx_choose("which", 0, 2), true); std::unique_ptr<MaterialProperties> m(mat(v)); same(*m, v, 1e-9); sx_close(m->A_R(), v.A, 1e-9, "random nucleus of an element"); sx_close(m->A_H(), v.A, 1e-9, "random nucleus of an element");
	m->density = v.rho = 3000; m->sigma_T = v.sT = 0.7; m->Update(); same(*m, v, 1e-9);
	sx_assert(!m->HaveExtra("one"), "no extra property"); m->SetExtra("one two", 1.5, -2.0); m->SetExtra("three", 7.0); m->SetExtra("one", 4.0);
	sx_assert(m->HaveExtra("one") && m->HaveExtra("two") && m->HaveExtra("three") && !m->HaveExtra("four"), "extra properties"); sx_assert(m->GetExtra("one") == 4 && m->GetExtra("two") == -2 && m->GetExtra("three") == 7, "values of the extra properties");
}
SX_HARNESS(copies, "copies have every property and extra properties of their own")
{
	V v = elem(0, true), w = elem(1, false); std::unique_ptr<MaterialProperties> a(mat(v)); a->SetExtra("one", 1.0); a->sigma_E = 0.25; a->sigma_D = 0.125;
	std::unique_ptr<MaterialProperties> b; int how = sx_choose("how", 0, 2); if(how == 0) b.reset(new MaterialProperties(*a)); else { b.reset(how == 1 ? mat(w) : new MaterialProperties); if(how == 1) b->SetExtra("old", 3.0); *b = *a; }
	same(*b, v, 1e-9); sx_assert(b->sigma_E == 0.25 && b->sigma_D == 0.125, "elastic and diffractive cross sections"); sx_assert(b->HaveExtra("one") && b->GetExtra("one") == 1 && !b->HaveExtra("old"), "extra properties of a copy");
	b->SetExtra("one", 2.0); b->SetExtra("more", 5.0); sx_assert(a->GetExtra("one") == 1 && !a->HaveExtra("more"), "the original keeps its extra properties"); a->SetExtra("one", 9.0); a->A = 1; same(*b, v, 1e-9); sx_assert(b->GetExtra("one") == 2, "the copy keeps its extra properties");
	MaterialProperties& self = *b; *b = self; same(*b, v, 1e-9); sx_assert(b->GetExtra("one") == 2, "assignment to itself"); a.reset(); same(*b, v, 1e-9); sx_assert(b->GetExtra("more") == 5, "the copy outlives the original");
}
// the mixture of n elements with number fractions w
static V mixed(const V* e, const double* w, int n, double rho)
{
	double s = 0, sm = 0; V r = {0, 0, 0, 0, 0, 0, rho, 0}; double ix = 0;
	for(int i = 0; i < n; i++) { s += w[i]; sm += w[i] * e[i].A; }
	for(int i = 0; i < n; i++) { double f = w[i] / s, g = w[i] * e[i].A / sm; r.A += f * e[i].A; r.Z += f * e[i].Z; r.sT += f * e[i].sT; r.sI += f * e[i].sI; r.sR += f * e[i].sR; r.dE += g * e[i].dE; ix += g / e[i].X0; }
	r.X0 = 1 / ix; return r;
}
static void fill(MaterialData& d, V* e, bool sym) { static const char* n[3] = {"El", "Be", "Ce"}; for(int i = 0; i < 3; i++) { e[i] = elem(i, sym); d.property[n[i]] = mat(e[i]); } }
static const char* comps(int n, bool rev) { return n == 1 ? "Be" : n == 2 ? (rev ? "Be El" : "El Be") : rev ? "Ce El Be" : "El Be Ce"; }
static void pick(V* o, const V* e, int n, bool rev) { if(n == 1) o[0] = e[1]; else if(n == 2) { o[0] = e[rev ? 1 : 0]; o[1] = e[rev ? 0 : 1]; } else { o[0] = e[rev ? 2 : 0]; o[1] = e[rev ? 0 : 1]; o[2] = e[rev ? 1 : 2]; } }
static void mixture(bool sym, bool weight)
{
	MaterialData d; V e[3], o[3]; fill(d, e, sym); int n = sx_choose("n", 1, 3); bool rev = n > 1 && sx_bool("rev"); pick(o, e, n, rev);
	std::vector<double> w; double f[3]; for(int i = 0; i < n; i++) w.push_back(sym ? (i == 0 ? 2 : i == 1 ? 0.6 : 0.25) : sx_double(sx_n("w", i).c_str(), 0.2, 5)); for(int i = 0; i < n; i++) f[i] = weight ? w[i] / o[i].A : w[i];
	double rho = sx_double("density", 1000, 9000); if(weight) d.MakeMixtureByWeight("mix", comps(n, rev), w, rho); else d.MakeMixture("mix", comps(n, rev), w, rho);
	sx_assert(d.property.size() == 4 && d.property.count("mix") == 1, "the mixture is in the table"); same(*d.property["mix"], mixed(o, f, n, rho), T); for(int i = 0; i < 3; i++) { static const char* nm[3] = {"El", "Be", "Ce"}; same(*d.property[nm[i]], e[i], 1e-9); } sx_assert(!d.property["mix"]->HaveExtra("one"), "a mixture has no extra properties"); d.property["mix"]->SetExtra("one", 2.0); sx_assert(d.property["mix"]->GetExtra("one") == 2 && !d.property["El"]->HaveExtra("one"), "extra properties of a mixture");
}
SX_HARNESS(mix_number, "mixtures by number of atoms, symbolic proportions") { mixture(false, false); }
SX_HARNESS(mix_weight, "mixtures by weight, symbolic proportions") { mixture(false, true); }
SX_HARNESS(mix_elements, "mixtures of elements with symbolic properties") { mixture(true, sx_bool("weight")); }
SX_HARNESS(mix_list, "mixtures given as lists of arguments, mixtures of mixtures")
{
	MaterialData d; V e[3], o[3]; fill(d, e, false); bool weight = sx_bool("weight"); o[0] = e[2]; o[1] = e[0]; o[2] = e[1]; double w[3] = {2, 0.5, 0.25}, f[3]; for(int i = 0; i < 3; i++) f[i] = weight ? w[i] / o[i].A : w[i];
	if(weight) d.MakeMixtureByWeight("mix", "Ce El Be", 2.0, 0.5, 0.25, 5000.0); else d.MakeMixture("mix", "Ce El Be", 2.0, 0.5, 0.25, 5000.0); V m = mixed(o, f, 3, 5000); same(*d.property["mix"], m, T);
	V p[2] = {m, e[1]}; double w2[2] = {sx_double("w0", 0.2, 5), sx_double("w1", 0.2, 5)}; std::vector<double> ws(w2, w2 + 2); if(weight) { d.MakeMixtureByWeight("alloy", "mix Be", ws, 6000); w2[0] /= p[0].A; w2[1] /= p[1].A; } else d.MakeMixture("alloy", "mix Be", ws, 6000); same(*d.property["alloy"], mixed(p, w2, 2, 6000), 2 * T);
}
SX_HARNESS(wrong, "unknown components and wrong numbers of proportions are refused; the table is left usable")
{
	MaterialData d; V e[3]; fill(d, e, false); int how = sx_choose("how", 0, 3); std::vector<double> w(how == 0 ? 2 : how == 1 ? 1 : how == 2 ? 3 : 2, 1.0); const char* s = how == 0 ? "El Zz" : how == 3 ? "Zz Be" : "El Be"; bool thrown = false;
	try { if(sx_bool("weight")) d.MakeMixtureByWeight("mix", s, w, 3000); else d.MakeMixture("mix", s, w, 3000); } catch(const std::exception&) { thrown = true; }
	sx_assert(thrown, "refused");
}
SX_HARNESS(nucleus, "random nucleus: component i with probability proportion times cross section over their sum")
{
	drawn = 0; MaterialData d; V e[3], o[3]; fill(d, e, false); int n = sx_choose("n", 1, 3); bool rev = n > 1 && sx_bool("rev"); pick(o, e, n, rev); std::vector<double> w; static const double W[2][3] = {{2, 0.6, 0.25}, {0.1, 1, 3}}; int s = sx_choose("w", 0, 1); for(int i = 0; i < n; i++) w.push_back(W[s][i]);
	d.MakeMixture("mix", comps(n, rev), w, 4000); bool R = sx_bool("Rutherford"); double A = R ? d.property["mix"]->A_R() : d.property["mix"]->A_H(); double u = last;
	double sum = 0, c = 0; for(int i = 0; i < n; i++) sum += w[i] * (R ? o[i].sR : o[i].sT); int which = -1; for(int i = 0; i < n; i++) if(A == o[i].A) which = i; sx_assert(which >= 0, "one of the components");
	for(int i = 0; i < n; i++) { double c1 = c + w[i] * (R ? o[i].sR : o[i].sT) / sum; sx_implies((u > c + 1e-5) & (u < c1 - 1e-5), which == i, "probability of the component"); c = c1; }
}
SX_HARNESS(standard, "standard table: properties of the entries, mean free paths, mixtures, SixTrack values")
{
	StandardMaterialData d; static const char* n[7] = {"Al", "Be", "C", "Cu", "Pb", "Si", "W"}; static const V v[7] = {{26.9815, 0.634, 0.421, 0.00034, 1.724, 24.01, 0, 13}, {9.01218, 0.268, 0.199, 0.000035, 1.594, 65.19, 1848, 4}, {12.011, 0.331, 0.231, 0.000076, 1.745, 42.7, 2265, 6}, {63.546, 1.232, 0.782, 0.00153, 1.403, 12.86, 8960, 29}, {207.2, 2.96, 1.71, 0.00907, 1.123, 6.37, 11350, 82}, {28.1, 0.653, 0.432, 0.00039, 1.664, 21.82, 2330, 14}, {183.84, 2.767, 1.65, 0.00768, 1.145, 6.76, 19300, 74}};
	for(int i = 0; i < 7; i++) { V x = v[i]; if(i == 0) x.rho = 2700; same(*d.property[n[i]], x, 1e-9); static const double k[7] = {3.564e7, 3.08e7, 71400, 5.98e7, 4.8077e6, 1, 1.77e7}; sx_assert(d.property[n[i]]->GetExtra("conductivity") == k[i], "conductivity"); }
	V c = v[2]; c.dE = 0.68; c.rho = 1650; same(*d.property["AC150K"], c, 1e-9); sx_assert(d.property["AC150K"]->HaveExtra("conductivity") && d.property["AC150K"]->GetExtra("conductivity") == 71400, "extra properties of the copy of carbon"); sx_assert(d.property["Glidcop"]->GetExtra("conductivity") == 5.38e7, "conductivity of Glidcop");
	rel(d.property["IT180"]->A, (0.95 * 183.84 + 0.35 * 58.6934 + 0.15 * 63.546) / 1.45, T, "IT180"); double g[3] = {0.9972 / 63.546, 0.0015 / 26.9815, 0.0013 / 15.9994}; rel(d.property["Glidcop"]->A, 1.0 / (g[0] + g[1] + g[2]), T, "Glidcop"); rel(d.property["Glidcop"]->density, 8930, 1e-9, "Glidcop"); rel(d.property["IT180"]->density, 18060, 1e-9, "IT180");
	if(sx_bool("sixtrack")) { d.UseSixTrackValues(); for(int i = 0; i < 7; i++) { rel(d.property[n[i]]->sigma_T, v[i].sT, 1e-9, "total cross section of SixTrack"); } rel(d.property["C"]->sigma_I, 0.231, 1e-9, "inelastic"); rel(d.property["W"]->sigma_R, 0.00768, 1e-9, "Rutherford"); rel(d.property["AC150K"]->dEdx, 0.68, 1e-9, "energy loss"); rel(d.property["Cu"]->dEdx, 2.69, 1e-9, "energy loss"); }
}
