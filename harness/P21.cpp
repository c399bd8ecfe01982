// P21: matrix maps of particles and of moments
//@ time: *=40
#include "hx.h"
#include <vector>
#include "PSTypes.h"
#include "MatrixMaps.h"
#include "RMap.h"
#include "RTMap.h"
static const double T = 1e-9;
static PSvector part(const char* nm, double lim = 1) { PSvector p(0); for(int i = 0; i < 6; i++) p[i] = sx_double(sx_n(nm, i).c_str(), -lim, lim); p.id() = 7; return p; }
static void same(const PSvector& a, const PSvector& b, const char* w) { for(int i = 0; i < 6; i++) sx_close(a[i], b[i], T, w); }
static double elt(int k, int i, int j) { static const double A[6][6] = {{0.5, -1.25, 0.75, 0, 0.25, 2}, {1.5, 0.25, 0, -0.5, 0, 0.125}, {-0.25, 1, 2, 0.75, 0.5, 0}, {0, 0.5, -1.5, 1.25, 0, -0.75}, {0.375, -2, 0.25, 1, 1, 0.5}, {0.125, 0, -0.5, 0.25, 1.75, -1}}; return k == 0 ? (i == j) : k == 1 ? A[i][j] : A[j][i] + (i == j ? 0.5 : 0); }
// r: a square matrix of the degrees of freedom
static RealMatrix mat(int n, int k, bool keepdp) { RealMatrix M(n, n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) M(i, j) = keepdp && i == 5 ? (j == 5) : elt(k, i, j); return M; }
static void ext(const RealMatrix& M, double E[6][6]) { for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) E[i][j] = i < (int) M.nrows() && j < (int) M.ncols() ? M(i, j) : (i == j); }
static PSvector lin(const double E[6][6], const PSvector& x) { PSvector y(x); for(int i = 0; i < 6; i++) { double s = 0; for(int j = 0; j < 6; j++) s += E[i][j] * x[j]; y[i] = s; } return y; }
SX_HARNESS(vectors, "matrices of 1 to 3 degrees of freedom on particles, also of other reference momenta")
{
	int ndf = sx_choose("ndf", 1, 3), k = sx_choose("matrix", 0, 2), P = sx_choose("reference", 0, 2); bool chrom = sx_bool("chromatic"), arr = sx_bool("array"), own = P == 0 ? false : sx_bool("explicit momentum"); double p0 = own ? 0.5 * sx_choose("p0", 1, 3) : 0, ref = P == 0 ? 0 : P; RealMatrix M = mat(2 * ndf, k, own), TT = mat(2 * ndf, 1 + (k + 1) % 2, false); if(own && ndf == 3) for(int j = 0; j < 6; j++) TT(5, j) = 0;
	RMtrx r(M, ref); RdpMtrx d(M, TT, ref); const LinMtrxBase& base = chrom ? (const LinMtrxBase&) d : (const LinMtrxBase&) r; sx_assert(base.GetNDF() == ndf, "degrees of freedom"); sx_close(base.GetRefMomentum(), ref, T, "reference momentum"); sx_assert(base.EnergyIndependent() == (P == 0), "energy independent"); sx_close(r(2, 1), M(1, 0), T, "element");
	PSvector x = part("x"), x2 = part("u"); x2.id() = 9; auto expect = [&](PSvector a) { double dp = a.dp(); if(own) a.dp() = p0 * (1 + dp) / ref - 1; double E[6][6]; ext(M, E); if(chrom) { double q = sx_choose("unused", 0, 0) + a.dp(); for(int i = 0; i < 2 * ndf; i++) for(int j = 0; j < 2 * ndf; j++) E[i][j] += TT(i, j) * q; } PSvector y = lin(E, a); if(own) y.dp() = dp; return y; };
	if(chrom) { x.dp() = 0.25 * sx_choose("dp", -1, 1); x2.dp() = 0.125; } PSvector e = expect(x), e2 = expect(x2);
	if(!arr) { PSvector& q = own ? (chrom ? d.Apply(x, p0) : r.Apply(x, p0)) : (chrom ? d.Apply(x) : r.Apply(x)); sx_assert(&q == &x, "returns its argument"); same(x, e, "mapped particle"); sx_assert(x.id() == 7, "identifier kept"); }
	else { PSvectorArray v; v.push_back(x); v.push_back(x2); PSvectorArray& q = own ? (chrom ? d.Apply(v, p0) : r.Apply(v, p0)) : (chrom ? d.Apply(v) : r.Apply(v)); sx_assert(&q == &v && v.size() == 2, "returns its argument"); same(v[0], e, "mapped first particle"); same(v[1], e2, "mapped second particle"); sx_assert(v[0].id() == 7 && v[1].id() == 9, "identifiers kept"); }
}
template<int N> static TPSMoments<N> mom() { TPSMoments<N> S; for(int i = 0; i < 6; i++) S[i] = sx_double(sx_n("m", i).c_str(), -1, 1); for(int i = 0; i < 2 * N; i++) for(int j = 0; j <= i; j++) S(i, j) = sx_double(sx_n("s", 10 * i + j).c_str(), -1, 1); return S; }
template<int N, class M> static void mapped(const M& S, const M& O, const double E[6][6], const char* w, const char* w1) { for(int i = 0; i < 6; i++) { double c = 0; for(int j = 0; j < 6; j++) c += E[i][j] * O[j]; sx_close(S[i], c, T, w1); } for(int i = 0; i < 2 * N; i++) for(int j = 0; j <= i; j++) { double c = 0; for(int k = 0; k < 2 * N; k++) for(int l = 0; l < 2 * N; l++) c += E[i][k] * E[j][l] * O(k, l); sx_close(S(i, j), c, T, w); } }
SX_HARNESS(moments, "matrices of 1 to 3 degrees of freedom on moments, also of other reference momenta")
{
	int ndf = sx_choose("ndf", 1, 3), k = sx_choose("matrix", 0, 2), P = sx_choose("reference", 0, 2); bool chrom = sx_bool("chromatic"), arr = sx_bool("array"), own = P == 0 ? false : sx_bool("explicit momentum"); double p0 = own ? 0.5 * sx_choose("p0", 1, 3) : 0, ref = P == 0 ? 0 : P; RealMatrix M = mat(2 * ndf, k, own), TT = mat(2 * ndf, 1 + (k + 1) % 2, false); if(own && ndf == 3) for(int j = 0; j < 6; j++) TT(5, j) = 0;
	RMtrx r(M, ref); RdpMtrx d(M, TT, ref); PSmoments S = mom<3>(); if(chrom) S[5] = 0.25 * sx_choose("dp", -1, 1); PSmoments O = S; double s = own ? p0 / ref : 1; O[5] = s * (1 + O[5]) - 1; for(int i = 0; i < 5; i++) O(i, 5) *= s; O(5, 5) *= s * s; double E[6][6]; ext(M, E); if(chrom) for(int i = 0; i < 2 * ndf; i++) for(int j = 0; j < 2 * ndf; j++) E[i][j] += TT(i, j) * (s * (1 + S[5]) - 1);
	PSmomentsArray v; v.push_back(mom<3>()); v.push_back(S); v[0][5] = 0; if(arr) { if(own) chrom ? d.Apply(v, p0) : r.Apply(v, p0); else chrom ? d.Apply(v) : r.Apply(v); sx_assert(v.size() == 2, "number of moments"); S = v[1]; } else { PSmoments& q = own ? (chrom ? d.Apply(S, p0) : r.Apply(S, p0)) : (chrom ? d.Apply(S) : r.Apply(S)); sx_assert(&q == &S, "returns its argument"); }
	PSmoments B = S; if(own) { B[5] = s * (1 + B[5]) - 1; for(int i = 0; i < 5; i++) B(i, 5) *= s; B(5, 5) *= s * s; } mapped<3>(B, O, E, "second order moments", "centroid");
}
SX_HARNESS(statistics, "moments of a few particles, mapped, are the moments of the mapped particles")
{
	int n = sx_choose("particles", 2, 3), ndf = sx_choose("ndf", 1, 3), k = sx_choose("matrix", 1, 2), sym = sx_choose("coordinate", 0, 5); bool own = sx_bool("explicit momentum"); RealMatrix M = mat(2 * ndf, k, own); RMtrx r(M, own ? 2 : 0); std::vector<PSvector> v(n, PSvector(0)); for(int a = 0; a < n; a++) for(int i = 0; i < 6; i++) v[a][i] = i == sym ? sx_double(sx_n("x", a).c_str(), -1, 1) : 0.25 * ((a + 1) * (i + 2) % 5) - 0.5;
	auto stat = [&](const std::vector<PSvector>& w) { PSmoments S; for(auto& p : w) for(int i = 0; i < 6; i++) S[i] += p[i] / n; for(auto& p : w) for(int i = 0; i < 6; i++) for(int j = 0; j <= i; j++) S(i, j) += (p[i] - S[i]) * (p[j] - S[j]) / n; return S; };
	PSmoments S = stat(v); if(own) r.Apply(S, 3.0); else r.Apply(S); for(auto& p : v) { if(own) r.Apply(p, 3.0); else r.Apply(p); } PSmoments E = stat(v); for(int i = 0; i < 6; i++) { sx_close(S[i], E[i], 1e-7, "centroid of the mapped particles"); for(int j = 0; j <= i; j++) sx_close(S(i, j), E(i, j), 1e-7, "moments of the mapped particles"); }
}
SX_HARNESS(product, "product of two matrices")
{
	int ndf = sx_choose("ndf", 1, 3), a = sx_choose("first", 0, 2), b = sx_choose("second", 0, 2); RMtrx A(mat(2 * ndf, a, false)), B(mat(2 * ndf, b, false)); PSvector x = part("x"), y(x); A.Apply(x); B.Apply(x); RMtrx C(A); C *= B; C.Apply(y); same(y, x, "product is one matrix after the other"); RMtrx D(ndf, 2.0); D.SetRefMomentum(3.0); sx_close(D.GetRefMomentum(), 3.0, T, "reference momentum set"); sx_assert(D.GetNDF() == ndf, "degrees of freedom");
}
SX_HARNESS(sparse, "maps kept as lists of terms: values, copies, conversions, moments")
{
	int nt = sx_choose("terms", 0, 3); bool copy = sx_bool("copy"), assign = sx_bool("assigned"); RTMap src; RMap lin; double v[3]; int I[3], J[3]; for(int k = 0; k < nt; k++) { v[k] = sx_double(sx_n("v", k).c_str(), 0.5, 2) * (k == 1 ? -1 : 1); bool ad = sx_bool("added"); I[k] = (ad ? 1 : 0) + 2 * k; J[k] = 5 - k; if(ad) { src.AddTerm(I[k] + 1, J[k] + 1, v[k]); lin.AddTerm(I[k] + 1, J[k] + 1) = v[k]; } else { src(I[k] + 1, J[k] + 1) = v[k]; lin(I[k] + 1, J[k] + 1) = v[k]; } }
	RTMap map; RMap lm; if(assign) { map(1, 1) = 4; lm(2, 2) = 5; map = src; lm = lin; } else if(copy) { RTMap* t = new RTMap(src); map = *t; for(int i = 1; i <= 6; i++) for(int j = 1; j <= 6; j++) (*t)(i, j) = 9; delete t; RMap c(lin); lm = c; } else { map = src; lm = lin; } if(assign || copy) { if(nt) { src(I[0] + 1, J[0] + 1) = 100; lin(I[0] + 1, J[0] + 1) = 100; } }
	double E[6][6] = {}; for(int k = 0; k < nt; k++) E[I[k]][J[k]] = v[k]; const RMap& cl = lm; RealMatrix M = lm, N(6, 6, 3.0); lm.ToMatrix(N, true); for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { sx_close(cl(i + 1, j + 1), E[i][j], T, "value of a term"); sx_close(M(i, j), E[i][j], T, "matrix"); sx_close(N(i, j), E[i][j], T, "matrix"); } lm.ToMatrix(N, false);
	PSvector x(0); for(int i = 0; i < 6; i++) x[i] = 0.25 * i - 0.5; x.id() = 5; PSvector y = ::lin(E, x); PSvector& q = map.Apply(x); sx_assert(&q == &x && x.id() == 5, "identifier kept"); same(x, y, "mapped particle"); RMap again(M); for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) sx_close(again(i + 1, j + 1), E[i][j], T, "value of a term made from a matrix");
	RMap id; int ndf = 1 + (nt + (copy ? 1 : 0)) % 3; MakeIdentity(id, ndf); RealMatrix one = id; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) sx_close(one(i, j), i == j && i < 2 * ndf, T, "identity");
}
SX_HARNESS(sparsemoments, "maps kept as lists of terms on moments")
{
	int k = sx_choose("matrix", 0, 2), N = sx_choose("degrees of freedom", 1, 3); double E[6][6]; RMap m; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { E[i][j] = N < 3 && (i >= 2 * N) != (j >= 2 * N) ? 0 : elt(k, i, j); if(E[i][j] != 0) m(i + 1, j + 1) = E[i][j]; }
	if(N == 3) { PSmoments S = mom<3>(), O = S; m.Apply(S); mapped<3>(S, O, E, "second order moments", "centroid"); SigmaMatrix C = O; m.Apply(C); for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) sx_close(C(i, j), S(i, j), T, "covariance matrix"); } else if(N == 2) { TPSMoments<2> S = mom<2>(), O = S; m.Apply(S); mapped<2>(S, O, E, "second order moments", "centroid"); }
	else { SigmaMatrix2D C; for(int i = 0; i < 2; i++) for(int j = 0; j <= i; j++) C(i, j) = sx_double(sx_n("s", 10 * i + j).c_str(), -1, 1); SigmaMatrix2D O = C; m.Apply(C); for(int i = 0; i < 2; i++) for(int j = 0; j <= i; j++) { double c = 0; for(int a = 0; a < 2; a++) for(int b = 0; b < 2; b++) c += E[i][a] * E[j][b] * O(a, b); sx_close(C(i, j), c, T, "covariance matrix"); } }
}
SX_HARNESS(second, "second order terms")
{
	int nt = sx_choose("terms", 1, 2), c = sx_choose("coefficient", 0, 1), i0 = sx_choose("i", 0, 2), k0 = sx_choose("k", 0, 5); RTMap map(mat(6, c == 0 ? 0 : 1, false)); PSvector x(0); int s = sx_choose("coordinate", 0, 5); for(int i = 0; i < 6; i++) x[i] = i == s ? sx_double("x", -1, 1) : 0.25 * i - 0.625; x.id() = 3; double E[6][6]; ext(mat(6, c == 0 ? 0 : 1, false), E); PSvector y = lin(E, x); for(int t = 0; t < nt; t++) { int i = i0 * 2 + t, j = s, k = (k0 + 2 * t) % 6; double v = t ? 1.5 : -0.75; map(i + 1, j + 1, k + 1) = v; y[i] += v * x[j] * x[k]; }
	RTMap m2(map); m2.Apply(x); same(x, y, "second order map"); sx_assert(x.id() == 3, "identifier kept");
}
SX_HARNESS(plane, "maps of one plane, drifts, maps of containers")
{
	int op = sx_choose("op", 0, 6), k = sx_choose("matrix", 0, 2); R2Map R(elt(k, 0, 0), elt(k, 0, 1), elt(k, 1, 0), elt(k, 1, 1)), Q(elt(k, 2, 2), elt(k, 2, 3), elt(k, 3, 2), elt(k, 3, 3)); double E[6][6]; double z = 0.5 * k + 0.25;
	if(op == 0) { int pl = sx_choose("plane", 0, 2); for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) E[i][j] = i / 2 == pl && j / 2 == pl ? elt(k, i % 2, j % 2) : i == j; PSvector x = part("x"), y = lin(E, x); ApplyR2Map(R, x, pl); same(x, y, "particle mapped in one plane"); sx_assert(x.id() == 7, "identifier kept"); sx_close(R[1][1], R.r11, T, "element"); sx_close(R[1][2], R.r12, T, "element"); sx_close(R[2][1], R.r21, T, "element"); sx_close(R[2][2], R.r22, T, "element"); sx_assert(R.IsIdentity() == (k == 0), "identity"); }
	if(op == 1) { for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) E[i][j] = i < 4 && j < 4 && i / 2 == j / 2 ? elt(k, i, j) : i == j; TPSMoments<2> S = mom<2>(), O = S; ApplyR2Map(R, S, 0); ApplyR2Map(Q, S, 1); ApplyR2Map(R, S, Q); mapped<2>(S, O, E, "moments mapped in both planes", "centroid"); }
	if(op == 2) { for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) E[i][j] = i == j ? 1 : (i == 0 && j == 1) || (i == 2 && j == 3) ? z : 0; if(sx_bool("six")) { PSmoments S = mom<3>(), O = S; ApplySimpleDrift d(z); d(S); mapped<3>(S, O, E, "moments in a drift", "centroid in a drift"); } else { TPSMoments<2> S = mom<2>(), O = S; ApplySimpleDrift d(z); d(S); mapped<2>(S, O, E, "moments in a drift", "centroid in a drift"); } PSvector x = part("x"), y = lin(E, x); ApplySimpleDrift(z).Apply(x); same(x, y, "particle in a drift"); }
	if(op == 3) { PSvector x = part("x"), y(x); y.x() += z * y.xp(); y.y() += z * y.yp(); y.ct() -= z * (y.xp() * y.xp() + y.yp() * y.yp()) / 2; ApplyDriftWithPathLength(z).Apply(x); same(x, y, "path length of a drift"); }
	if(op == 4) { ext(mat(6, k, false), E); RTMap m(mat(6, k, false)); PSvectorArray v; v.push_back(part("x")); v.push_back(part("u")); PSvectorArray w = v; ApplyMap(m, v); same(v[0], lin(E, w[0]), "mapped container"); same(v[1], lin(E, w[1]), "mapped container"); }
	if(op == 5) { ext(mat(6, k, false), E); RTMap m(mat(6, k, false)); PSvectorArray v; v.push_back(part("x")); v.push_back(part("u")); PSvectorArray w = v; ApplyMap(m, v, 3.0, 2.0); for(int a = 0; a < 2; a++) { PSvector y = w[a]; y.dp() = 1.5 * (1 + y.dp()) - 1; y = lin(E, y); y.dp() = w[a].dp(); same(v[a], y, "mapped container of another momentum"); } }
	if(op == 6) { PSvector x = part("x"), y = part("y"), s = x + y, d = x - y, a = x; a += y; double f = 0.5 * k + 0.5; PSvector q = x; q *= f; PSvector r = x; r /= f; for(int i = 0; i < 6; i++) { sx_close(s[i], x[i] + y[i], T, "sum of particles"); sx_close(a[i], x[i] + y[i], T, "sum of particles"); sx_close(d[i], x[i] - y[i], T, "difference of particles"); sx_close(q[i], f * x[i], T, "scaled particle"); sx_close(r[i], x[i] / f, T, "divided particle"); } PSvector zz = x; zz.zero(); same(zz, PSvector(0), "zero"); const PSvector& c = x; sx_close(c.x(), x[0], T, "coordinate"); sx_close(c.xp(), x[1], T, "coordinate"); sx_close(c.y(), x[2], T, "coordinate"); sx_close(c.yp(), x[3], T, "coordinate"); sx_close(c.ct(), x[4], T, "coordinate"); sx_close(c.dp(), x[5], T, "coordinate"); }
}
SX_HARNESS(covariance, "covariance matrices: symmetry, deviations, correlation coefficients")
{
	int i = sx_choose("i", 0, 5), j = sx_choose("j", 0, 5); SigmaMatrix S; for(int a = 0; a < 6; a++) for(int b = 0; b < 6; b++) sx_close(S(a, b), 0, T, "starts at zero"); double v = sx_double("v", 0.1, 2), w = sx_double("w", 0.1, 2), c = sx_double("c", -0.1, 0.1); if(sx_bool("other order")) S.sig(j, i) = c; else S(i, j) = c; if(i != j) { S.var(i) = v; S(j, j) = w; } const SigmaMatrix& C = S;
	for(int a = 0; a < 6; a++) for(int b = 0; b < 6; b++) { double e = a == b ? (i == j ? (a == i ? c : 0) : a == i ? v : a == j ? w : 0) : (i != j && ((a == i && b == j) || (a == j && b == i)) ? c : 0); sx_close(C(a, b), e, T, "element"); sx_close(C.sig(b, a), e, T, "symmetric"); } if(i != j) { double s = C.std(i); sx_close(s * s, v, 1e-7, "deviation squared"); sx_assert(s >= 0, "deviations are not negative"); sx_close(C.var(j), w, T, "variance"); double r = C.r_ij(i, j); sx_close(r * r * v * w, c * c, 1e-6, "correlation coefficient"); sx_implies(c > 0.01, r > 0, "sign of the correlation coefficient"); sx_implies(c < -0.01, r < 0, "sign of the correlation coefficient"); }
	SigmaMatrix D = S; sx_assert(D == S, "equal"); D(i, j) = 5; sx_assert(D != S, "different"); D.Zero(); sx_close(D(i, j), 0, T, "zeroed");
}
