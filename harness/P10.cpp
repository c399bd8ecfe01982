// P10: bunch statistics and reference adjustments
//@ time: *=25
#include "hx.h"
#include <vector>
#include "ParticleBunch.h"
using namespace ParticleTracking;
static const char* nm[6] = {"x", "xp", "y", "yp", "ct", "dp"};
static const double conc[4][6] = {{0.25, -0.5, 0.75, 0.125, -0.25, 0.375}, {-0.5, 0.25, 0.5, -0.75, 0.125, -0.125}, {1.0, 0.75, -0.25, 0.5, 0.375, 0.25}, {-0.75, 0.125, 0.25, -0.5, 0.625, -0.25}};
// n particles with coordinates u and v symbolic
static void fill(ParticleBunch& b, int n, int u, int v)
{
	for(int i = 0; i < n; i++)
	{
		PSvector p(0); for(int j = 0; j < 6; j++) p[j] = conc[i][j];
		p[u] = sx_double((std::string(nm[u]) + std::to_string(i)).c_str(), -2, 2); if(v != u) p[v] = sx_double((std::string(nm[v]) + std::to_string(i)).c_str(), -2, 2);
		p.id() = 10 + i; b.AddParticle(p);
	}
}
static double mean(const ParticleBunch& b, int u) { double s = 0; for(const auto& p : b) s += p[u]; return s / b.size(); }
static double cov(const ParticleBunch& b, int u, int v) { double mu = mean(b, u), mv = mean(b, v), s = 0; for(const auto& p : b) s += (p[u] - mu) * (p[v] - mv); return s / b.size(); }
static void pair(int& u, int& v) { static const int P[7][2] = {{0, 1}, {2, 3}, {4, 5}, {0, 5}, {2, 4}, {1, 3}, {0, 2}}; int i = sx_choose("pair", 0, 6); u = P[i][0]; v = P[i][1]; if(sx_bool("swap")) std::swap(u, v); }
SX_HARNESS(centroid, "GetCentroid, GetProjectedCentroid and the mean of GetMoments are the average of the particles")
{
	int u, v; pair(u, v); ParticleBunch b(10, 1); fill(b, sx_choose("n", 1, 4), u, v);
	PSvector c(7); b.GetCentroid(c); PSmoments S; for(int i = 0; i < 6; i++) S[i] = 3; b.GetMoments(S); Point2D X = b.GetProjectedCentroid(u, v);
	for(int i = 0; i < 6; i++) { double m = mean(b, i); sx_close(c[i], m, 1e-9, "centroid"); sx_close(S[i], m, 1e-9, "mean of the moments"); sx_close(b.GetMoments(i).first, m, 1e-9, "mean of one coordinate"); }
	sx_close(X.x, mean(b, u), 1e-9, "projected centroid"); sx_close(X.y, mean(b, v), 1e-9, "projected centroid");
}
SX_HARNESS(covariance, "second moments of all coordinates, also into an object used before")
{
	int u, v; pair(u, v); ParticleBunch b(10, 1); fill(b, sx_choose("n", 2, 4), u, v); PSmoments S; if(sx_bool("used")) { for(int i = 0; i < 6; i++) { S[i] = 0.3 * i; for(int j = 0; j <= i; j++) S(i, j) = 1 + i + j; } }
	PSmoments& R = b.GetMoments(S); sx_assert(&R == &S, "the object passed in is returned");
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { double e = cov(b, i, j); sx_close(S(i, j), e, 1e-9, "covariance"); }
	for(int i = 0; i < 6; i++) sx_close(S.var(i), S(i, i), 0, "variance is the diagonal");
}
SX_HARNESS(projected, "second moments of a projection, also into an object used before")
{
	int u, v; pair(u, v); ParticleBunch b(10, 1); fill(b, sx_choose("n", 2, 4), u, v); PSmoments2D S; if(sx_bool("used")) { S[0] = 0.5; S[1] = -1; S(0, 0) = 1; S(0, 1) = 2; S(1, 1) = 3; }
	b.GetProjectedMoments(u, v, S); sx_close(S[0], mean(b, u), 1e-9, "projected mean"); sx_close(S[1], mean(b, v), 1e-9, "projected mean");
	sx_close(S(0, 0), cov(b, u, u), 1e-9, "projected variance"); sx_close(S(0, 1), cov(b, u, v), 1e-9, "projected covariance"); sx_close(S(1, 0), cov(b, u, v), 1e-9, "projected covariance"); sx_close(S(1, 1), cov(b, v, v), 1e-9, "projected variance");
}
SX_HARNESS(rms, "rms of one coordinate")
{
	int u = sx_choose("u", 0, 5); ParticleBunch b(10, 1); fill(b, sx_choose("n", 2, 4), u, u); double r = b.GetMoments(u).second, e = cov(b, u, u);
	sx_assert(r >= 0, "rms is not negative"); sx_assert(within(r * r - e, 1e-9), "rms is the root of the variance");
}
SX_HARNESS(momentum, "changing the reference momentum keeps the momentum of every particle")
{
	bool tomean = sx_bool("tomean"); double P0 = sx_bool("hi") ? 7000 : 10; ParticleBunch b(P0, -1); int n = sx_choose("n", 1, 4);
	double dpp = tomean ? 0 : sx_double("dpp", -0.5, 0.5), s = 0; std::vector<PSvector> o; for(int i = 0; i < n; i++) { PSvector p(0); for(int j = 0; j < 6; j++) p[j] = conc[i][j]; p.dp() = sx_double((std::string("dp") + std::to_string(i)).c_str(), -0.3, 0.3); p.id() = i; b.AddParticle(p); o.push_back(p); s += p.dp() / n; }
	b.SetReferenceTime(5); double ret = tomean ? b.AdjustRefMomentumToMean() : b.AdjustRefMomentum(dpp), P1 = b.GetReferenceMomentum();
	sx_close(ret, P1, 0, "the new reference momentum is returned"); sx_assert(within(P1 - P0 * (1 + (tomean ? s : dpp)), 1e-7), "new reference momentum"); sx_assert(b.size() == (size_t) n, "particles are kept");
	int i = 0; double m = 0; for(const auto& p : b) { sx_assert(within(P1 * (1 + p.dp()) - P0 * (1 + o[i].dp()), 1e-7), "momentum of a particle"); for(int j = 0; j < 5; j++) sx_close(p[j], o[i][j], 0, "other coordinates unchanged"); sx_assert(p.id() == i, "identity unchanged"); m += p.dp() / n; i++; }
	if(tomean) sx_assert(within(m, 1e-9), "mean deviation vanishes"); sx_close(b.GetReferenceTime(), 5, 0, "reference time unchanged");
}
SX_HARNESS(time, "changing the reference time keeps the arrival time of every particle")
{
	ParticleBunch b(10, 1); int n = sx_choose("n", 1, 4); fill(b, n, 4, 4); double T0 = sx_double("T", -100, 100); b.SetReferenceTime(T0); std::vector<PSvector> o(b.begin(), b.end());
	double m = mean(b, 4), ret = b.AdjustRefTimeToMean(), T1 = b.GetReferenceTime(); sx_close(ret, T1, 0, "the new reference time is returned"); sx_close(T1, T0 - m, 1e-9, "new reference time"); sx_close(mean(b, 4), 0, 1e-9, "mean time vanishes");
	int i = 0; for(const auto& p : b) { sx_close(T1 - p.ct(), T0 - o[i].ct(), 1e-9, "arrival time of a particle"); for(int j = 0; j < 6; j++) if(j != 4) sx_close(p[j], o[i][j], 0, "other coordinates unchanged"); sx_assert(p.id() == 10 + i, "identity unchanged"); i++; }
	sx_close(b.GetReferenceMomentum(), 10, 0, "reference momentum unchanged");
}
SX_HARNESS(setcentroid, "SetCentroid moves the bunch onto its first particle")
{
	int u, v; pair(u, v); int n = sx_choose("n", 1, 4); ParticleBunch b(10, 1); fill(b, n, u, v); std::vector<PSvector> o(b.begin(), b.end()); bool to = sx_bool("to"); PSvector t(0); for(int j = 0; j < 6; j++) t[j] = 0.1 * j - 0.2; t[u] = sx_double("t", -2, 2); t.id() = 10;
	if(to) b.SetCentroid(t); else { t = o[0]; b.SetCentroid(); }
	sx_assert(b.size() == (size_t) n, "particles are kept"); const auto& a = b.GetParticles();
	for(int j = 0; j < 6; j++) { sx_close(a[0][j], t[j], 0, "first particle"); sx_close(mean(b, j), t[j], 1e-9, "centroid is the first particle"); for(int i = 2; i < n; i++) sx_close(a[i][j] - a[1][j], o[i][j] - o[1][j], 1e-9, "the other particles move together"); }
	for(int i = 1; i < n; i++) sx_assert(a[i].id() == 10 + i, "identity unchanged");
}
