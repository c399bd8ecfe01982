// P40: slices
//@ time: *=50
#include "hx.h"
#include <memory>
#include <array>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "SMPTracker.h"
#include "SMPBunchConstructor.h"
#include "SMPTransform3D.h"
#include "ParticleBunch.h"
#include "Transform3D.h"
#include "TWRFStructure.h"
using namespace SMPTracking;
static const double T = 1e-7, C = 299792458.;
typedef std::array<std::array<double, 4>, 4> M4; typedef std::array<double, 4> V4;
static M4 unit() { M4 m; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) m[i][j] = i == j; return m; }
static M4 mul(const M4& a, const M4& b) { M4 m; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) { m[i][j] = 0; for(int k = 0; k < 4; k++) m[i][j] += a[i][k] * b[k][j]; } return m; }
static M4 tr(const M4& a) { M4 m; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) m[i][j] = a[j][i]; return m; }
// exp(A s) by its series
static M4 flow(const M4& A, double s) { M4 m = unit(), t = unit(); for(int n = 1; n < 40; n++) { t = mul(t, A); for(auto& r : t) for(double& v : r) v *= s / n; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) m[i][j] += t[i][j]; } return m; }
static M4 focus(double kx, double ky) { M4 a; for(auto& r : a) r.fill(0); a[0][1] = a[2][3] = 1; a[1][0] = -kx; a[3][2] = -ky; return a; }
static M4 roll(double a) { M4 m = unit(); double c = std::cos(a), s = std::sin(a); m[0][0] = m[1][1] = m[2][2] = m[3][3] = c; m[0][2] = m[1][3] = s; m[2][0] = m[3][1] = -s; return m; }   // coordinates seen from axes turned by a
static M4 thin(double kx, double ky) { M4 m = unit(); m[1][0] = -kx; m[3][2] = -ky; return m; }
struct Slice { V4 c; M4 s; double ct, dp, q; };
static Slice any(double dp, double ct, double q) { Slice s; s.dp = dp; s.ct = ct; s.q = q; int n = 0; for(int i = 0; i < 4; i++) { s.c[i] = 1e-3 * sx_double(sx_n("c", i).c_str(), -1, 1); for(int j = 0; j <= i; j++) s.s[i][j] = s.s[j][i] = 1e-6 * (i == j ? sx_double(sx_n("v", n++).c_str(), 0.1, 1) : sx_double(sx_n("v", n++).c_str(), -1, 1)); } return s; }
static Slice some(double dp, double ct, double q) { Slice s; s.dp = dp; s.ct = ct; s.q = q; for(int i = 0; i < 4; i++) { s.c[i] = 1e-4 * (i * i + 1 - 3 * q); for(int j = 0; j <= i; j++) s.s[i][j] = s.s[j][i] = 1e-6 * (i == j ? 1 + i : 0.1 * (i - 2 * j)); } return s; }
static SliceMacroParticle make(const Slice& s) { SliceMacroParticle m(s.q); for(int i = 0; i < 4; i++) { m[i] = s.c[i]; for(int j = 0; j <= i; j++) m(i, j) = s.s[i][j]; } m.ct() = s.ct; m.dp() = s.dp; return m; }
static void apply(Slice& s, const M4& m) { V4 c; for(int i = 0; i < 4; i++) { c[i] = 0; for(int j = 0; j < 4; j++) c[i] += m[i][j] * s.c[j]; } s.c = c; s.s = mul(mul(m, s.s), tr(m)); }
static void same(const SliceMacroParticle& m, const Slice& s, double tol = T) { for(int i = 0; i < 4; i++) { sx_close(m[i] * 1e3, s.c[i] * 1e3, tol, "centroid of the slice"); for(int j = 0; j <= i; j++) sx_close(m(i, j) * 1e6, s.s[i][j] * 1e6, tol, "covariance of the slice"); } sx_close(m.ct(), s.ct, 1e-9, "time of the slice"); sx_close(m.dp(), s.dp, 1e-9, "energy of the slice"); sx_close(m.Q(), s.q, 1e-12, "charge of the slice"); }
static void track(SMPBunch& b, AcceleratorComponent& e, int ns) { SMPComponentTracker t; t.SetBunch(b); e.PrepareTracker(t); if(ns == 1) t.Track(); else for(int i = 0; i < ns; i++) t.TrackStep(e.GetLength() / ns); }
struct Case { std::unique_ptr<AcceleratorComponent> e; M4 m; V4 k; double tilt = 0; };
static Case straight(int k, double dp, double P)
{
	Case c; double L = 0.8, br = P / (C * 1e-9) * (1 + dp), G = 11; AcceleratorComponent* e; c.m = flow(focus(0, 0), L); c.k.fill(0); V4 kick; kick.fill(0);
	switch(k) { case 0: e = new Drift("D", L); break; case 1: e = new Quadrupole("Q", L, G); c.m = flow(focus(G / br, -G / br), L); break; case 2: e = new Quadrupole("Q", L, -G); c.m = flow(focus(-G / br, G / br), L); break;
	case 3: case 4: { double g = k == 3 ? G : -G; e = new SkewQuadrupole("S", L, g); M4 a = focus(0, 0); a[1][2] = a[3][0] = -g / br; c.m = flow(a, L); break; }
	case 5: e = new XCor("X", L, 0.01); c.k[0] = -0.01 * L / br * L / 2; c.k[1] = -0.01 * L / br; break; case 6: e = new YCor("Y", L, 0.01); c.k[2] = 0.01 * L / br * L / 2; c.k[3] = 0.01 * L / br; break;
	case 7: e = new XCor("X", 0, 0.01); c.m = unit(); c.k[1] = -0.01 / br; break; case 8: e = new Quadrupole("Q", 0, G); c.m = thin(G / br, -G / br); break;
	case 9: { double Bz = 1.3, ks = Bz / br, t = ks * L / 2, a = std::cos(t), s = std::sin(t); e = new Solenoid("S", L, Bz); M4 f = flow(focus(ks * ks / 4, ks * ks / 4), L), r = unit(); for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) r[i][j] = 0; r[0][0] = r[1][1] = r[2][2] = r[3][3] = a; r[0][2] = r[1][3] = s; r[2][0] = r[3][1] = -s; c.m = mul(r, f); break; }
	case 13: case 14: { Quadrupole* q = new Quadrupole("Q", L, G); M4 a = focus(G / br, -G / br); if(k == 14) { q->GetField().SetCoefficient(1, Complex(0, q->GetField().GetCoefficient(1).real())); a = focus(0, 0); a[1][2] = a[3][0] = -G / br; } q->GetField().SetCoefficient(0, Complex(0.02, -0.01) / G); e = q; M4 f = flow(a, L / 2); c.m = mul(f, f); for(int i = 0; i < 4; i++) c.k[i] = -f[i][1] * 0.02 * L / br - f[i][3] * 0.01 * L / br; break; }
	case 15: { Quadrupole* q = new Quadrupole("Q", L, G); q->GetField().SetCoefficient(2, Complex(0.1, 0.05)); e = q; c.m = flow(focus(G / br, -G / br), L); break; }
	case 10: e = new Sextupole("X", L, 100.); break; case 11: e = new BPM("B", L); break; default: e = new Marker("M"); c.m = unit(); }
	c.e.reset(e); return c;
}
SX_HARNESS(elements, "any centroids and covariances through sixteen kinds of elements, whole or in steps")
{
	int k = sx_choose("kind", 0, 15); double P = 5, dp = sx_bool("off energy") ? 0.02 : 0, ct = 1e-3; Case c = straight(k, dp, P); int ns = k == 5 || k == 6 || k == 13 || k == 14 || c.e->GetLength() == 0 || k == 9 ? 1 : sx_choose("steps", 1, 3); Slice s[2] = {any(dp, ct, 2), some(dp, -ct, 1)}; SMPBunch b(P, 1); for(auto& x : s) b.AddParticle(make(x)); track(b, *c.e, ns); for(int i = 0; i < 2; i++) { apply(s[i], c.m); for(int j = 0; j < 4; j++) s[i].c[j] += c.k[j]; same(b.begin()[i], s[i]); } sx_close(b.GetReferenceMomentum(), P, 1e-12, "reference momentum");
}
SX_HARNESS(bends, "any centroids and covariances through sector bends with gradient, tilt and pole faces, off energy too")
{
	double P = 5, L = 1.2, ang = 0.2, h = ang / L, br = P / (C * 1e-9), dp = sx_bool("off energy") ? 0.01 : 0, ct = 1e-3; int v = sx_choose("variant", 0, 4); bool up = sx_bool("tilted"), faces = sx_bool("faces"); double K1 = v == 1 ? 0.3 : v == 2 ? -0.4 : 0, off = v == 3 ? 1.02 : v == 4 ? 0.9995 : 1, tilt = up ? 0.3 : 0; SectorBend e("B", L, h, h * br * off); if(v == 1 || v == 2) e.SetB1(K1 * br); e.GetGeometry().SetTilt(tilt); if(faces) e.SetPoleFaceInfo(new SectorBend::PoleFace(0.1), new SectorBend::PoleFace(-0.15, 0.4, 0.02)); Slice s = any(dp, ct, 3); SMPBunch b(P, 1); b.AddParticle(make(s)); int ns = faces ? 1 : sx_choose("steps", 1, 2); track(b, e, ns);
	double d = (1 + dp) / off - 1, Kx = h * h + K1, k = std::sqrt(std::fabs(Kx)), S = Kx > 0 ? std::sin(k * L) / k : std::sinh(k * L) / k, Q = Kx > 0 ? std::cos(k * L) : std::cosh(k * L); apply(s, roll(tilt)); if(faces) apply(s, thin(-h * std::tan(0.1), h * std::tan(0.1))); double x = s.c[0], xp = s.c[1]; apply(s, flow(focus(Kx, -K1), L)); s.c[0] += h * (1 - Q) / Kx * d; s.c[1] += h * S * d; s.ct += -h * S * x - h * (1 - Q) / Kx * xp - h * h * (L - S) / Kx * d; if(faces) { double phi = 2 * 0.4 * 0.02 * h * (1 + std::pow(std::sin(-0.15), 2)) / std::cos(-0.15); apply(s, thin(-h * std::tan(-0.15), h * std::tan(-0.15 - phi))); } apply(s, roll(-tilt)); same(*b.begin(), s);
}
SX_HARNESS(consistent, "covariances follow the map of the centroids, any covariances, cavities included")
{
	int k = sx_choose("kind", 0, 3); double P = 0.5, L = 1.5; std::unique_ptr<AcceleratorComponent> e; if(k == 0) e.reset(new TWRFStructure("C", L, 3e9, 0.02, 0)); else if(k == 1) e.reset(new TWRFStructure("C", L, 3e9, 0.02, 0.4)); else if(k == 2) e.reset(new Solenoid("S", L, 0.7)); else e.reset(new SkewQuadrupole("Q", L, 2.)); double dp = 0.01, ct = sx_bool("early") ? 2e-3 : 0; SMPBunch b(P, 1); Slice s = any(dp, ct, 1); b.AddParticle(make(s)); for(int i = 0; i < 5; i++) { Slice r = some(dp, ct, 1); r.c.fill(0); if(i < 4) r.c[i] = 1; b.AddParticle(make(r)); } track(b, *e, sx_choose("steps", 1, 3)); M4 m; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) m[i][j] = b.begin()[j + 1][i] - b.begin()[5][i]; Slice o = s; apply(o, m); for(int i = 0; i < 4; i++) { sx_close(b.begin()[0][i] * 1e3, (o.c[i] + b.begin()[5][i]) * 1e3, T, "centroids move by one map"); for(int j = 0; j <= i; j++) sx_close(b.begin()[0](i, j) * 1e6, o.s[i][j] * 1e6, T, "covariances move by the map of the centroids"); }
}
SX_HARNESS(energy, "energies in cavities, any energies or phases")
{
	double P = 0.5, L = 1.5, g = 0.02, f = 3e9, phi = 0.4, ct = 2e-3, dp = 0.01; int v = sx_choose("variable", 0, 1); if(v) dp = 0.02 * sx_double("dp", -1, 1); else phi = sx_double("phi", -1, 1); TWRFStructure e("C", L, f, g, phi); Slice s[2] = {some(dp, ct, 1), some(-0.005, -1e-3, 1)}; SMPBunch b(P, 1); for(auto& x : s) b.AddParticle(make(x)); track(b, e, 1); double PP = P + g * L * std::cos(phi); sx_close(b.GetReferenceMomentum(), PP, T, "reference momentum"); for(int i = 0; i < 2; i++) { sx_close((1 + b.begin()[i].dp()) * b.GetReferenceMomentum(), P * (1 + s[i].dp) + g * L * std::cos(phi - 2 * M_PI * f / C * s[i].ct), T, "energy behind the cavity"); sx_close(b.begin()[i].ct(), s[i].ct, 1e-9, "time of the slice"); }
}
SX_HARNESS(moments, "charge weighted moments of the bunch, any centroids, covariances and charges")
{
	Slice s[3] = {any(0.01, 1e-3, 2), some(-0.02, 0, 1), some(0.005, -3e-3, 0.5)}; if(sx_bool("charges")) { s[0] = some(0.01, 1e-3, 2); s[0].q = sx_double("q", 0.5, 3); } SMPBunch b(5, 1); double Q = 0, c[6], v[6][6]; for(auto& x : s) { b.AddParticle(make(x)); Q += x.q; } auto z = [](const Slice& x, int i) { return i < 4 ? x.c[i] : i == 4 ? x.ct : x.dp; }; for(int i = 0; i < 6; i++) { c[i] = 0; for(auto& x : s) c[i] += x.q / Q * z(x, i); } for(int i = 0; i < 6; i++) for(int j = 0; j <= i; j++) { v[i][j] = 0; for(auto& x : s) v[i][j] += x.q / Q * ((z(x, i) - c[i]) * (z(x, j) - c[j]) + (i < 4 ? x.s[i][j] : 0)); v[j][i] = v[i][j]; }
	sx_close(b.GetTotalCharge(), Q, 1e-9, "charge"); PSmoments S; if(sx_bool("used")) { S.var(1) = 2; S[3] = 5; } b.GetMoments(S); PSvector p(7); b.GetCentroid(p); for(int i = 0; i < 6; i++) { sx_close(S[i] * 1e3, c[i] * 1e3, T, "centroid"); sx_close(p[i] * 1e3, c[i] * 1e3, T, "centroid"); for(int j = 0; j <= i; j++) sx_close(S(i, j) * 1e6, v[i][j] * 1e6, T, "moments"); } int a = sx_choose("first", 0, 5), d = sx_choose("second", 0, 5); PSmoments2D R; R.var(0) = 1; R[1] = 2; if(a != d) { b.GetProjectedMoments(a, d, R); sx_close(R[0] * 1e3, c[a] * 1e3, T, "projected centroid"); sx_close(R[1] * 1e3, c[d] * 1e3, T, "projected centroid"); sx_close(R(0, 0) * 1e6, v[a][a] * 1e6, T, "projected moments"); sx_close(R(0, 1) * 1e6, v[a][d] * 1e6, T, "projected moments"); sx_close(R(1, 1) * 1e6, v[d][d] * 1e6, T, "projected moments"); Point2D X = b.GetProjectedCentroid(a, d); sx_close(X.x * 1e3, c[a] * 1e3, T, "projected centroid"); sx_close(X.y * 1e3, c[d] * 1e3, T, "projected centroid"); }
}
SX_HARNESS(adjust, "reference momentum and time set to the mean, slices sorted, centroid shifted")
{
	Slice s[3] = {some(0, 0, 2), some(0.01, 0, 1), some(-0.005, 0, 0.5)}; SMPBunch b(5, 1); b.SetReferenceTime(2); double md = 0, mt = 0; for(int i = 0; i < 3; i++) { s[i].ct = 1e-3 * sx_double(sx_n("ct", i).c_str(), -1, 1); if(i == 0) s[i].dp = 0.02 * sx_double("dp", -1, 1); md += s[i].q / 3.5 * s[i].dp; mt += s[i].q / 3.5 * s[i].ct; b.AddParticle(make(s[i])); } double P = b.AdjustRefMomentumToMean(); sx_close(P, 5 * (1 + md), T, "mean momentum"); sx_close(b.GetReferenceMomentum(), P, 1e-12, "mean momentum"); for(int i = 0; i < 3; i++) sx_close((1 + b.begin()[i].dp()) * P, 5 * (1 + s[i].dp), T, "momentum of the slice"); double t = b.AdjustRefTimeToMean(); sx_close(t, 2 - mt, 1e-9, "mean time"); sx_close(b.GetReferenceTime(), t, 1e-12, "mean time"); for(int i = 0; i < 3; i++) sx_close((b.begin()[i].ct() + mt) * 1e3, s[i].ct * 1e3, T, "time of the slice");
	PSvector d(0); for(int i = 0; i < 6; i++) d[i] = 1e-3 * (i + 1); PSvector was[3]; for(int i = 0; i < 3; i++) was[i] = b.begin()[i].GetCentroid(); b.AdjustCentroid(d); for(int i = 0; i < 3; i++) for(int j = 0; j < 6; j++) sx_close(b.begin()[i][j], was[i][j] + d[j], 1e-9, "shifted centroid"); b.SortByCT(); double q = 0, qc = 0; for(int i = 0; i < 3; i++) { if(i) sx_assert(b.begin()[i - 1].ct() <= b.begin()[i].ct(), "sorted"); q += b.begin()[i].Q(); qc += b.begin()[i].Q() * b.begin()[i].ct(); } sx_close(q, 3.5, 1e-9, "sorted slices are the same"); sx_close(qc, 3.5 * d[4], 1e-9, "sorted slices are the same");
}
SX_HARNESS(frames, "displaced and rolled frames, any centroids and covariances, any displacement")
{
	int v = sx_choose("roll", 0, 4); double a = v == 0 ? 0 : v == 1 ? 5e-4 : v == 2 ? -0.3 : v == 3 ? 1.2 : -1e-3, dx = 1e-3 * sx_double("dx", -1, 1), dy = -2e-4; Transform3D t = sx_bool("shifted") ? Transform3D::translation(dx, dy, 0) : Transform3D::translation(dx, dy, 0) * Transform3D::rotationZ(a); if(v && !sx_bool("after")) t = Transform3D::rotationZ(a); Slice s = any(0.01, 1e-3, 1); SMPBunch b(5, 1); b.AddParticle(make(s)); ParticleTracking::ParticleBunch p(5, 1); PSvector z(0); for(int i = 0; i < 4; i++) z[i] = s.c[i]; z.ct() = s.ct; z.dp() = s.dp; p.push_back(z); b.ApplyTransformation(t); p.ApplyTransformation(t); PSvector o = *p.begin(); M4 m; for(int j = 0; j < 5; j++) { ParticleTracking::ParticleBunch u(5, 1); PSvector w(0); if(j < 4) w[j] = 1e-3; u.push_back(w); u.ApplyTransformation(t); for(int i = 0; i < 4; i++) { double y = (*u.begin())[i]; if(j < 4) m[i][j] = y; else for(int k = 0; k < 4; k++) m[i][k] = (m[i][k] - y) * 1e3; } } apply(s, m); for(int i = 0; i < 4; i++) s.c[i] = o[i]; same(*b.begin(), s, 2e-6);
}
SX_HARNESS(constructed, "bunches constructed of slices, any dispersion")
{
	BeamData d; d.beta_x = 3; d.beta_y = 5; d.alpha_x = 0.4; d.alpha_y = -0.7; d.emit_x = 1e-8; d.emit_y = 2e-9; d.sig_dp = 1e-3; d.sig_z = 3e-4; d.x0 = 1e-4; d.yp0 = -2e-5; d.p0 = 5; d.charge = 2; d.Dx = sx_double("Dx", -1, 1); d.Dyp = 0.02; d.Dy = -0.3; d.Dxp = 0.05; int ns = sx_choose("slices", 1, 3), np = sx_choose("energies", 1, 2); SMPBunchConstructor k(d, ns, np); std::unique_ptr<SMPBunch> b(k.ConstructSMPBunch()); sx_assert((int) b->Size() == ns * np, "number of slices"); sx_close(b->GetReferenceMomentum(), 5, 1e-12, "momentum"); auto part = [](double a, double c) { return 0.5 * (std::erf(c / std::sqrt(2.)) - std::erf(a / std::sqrt(2.))); }; int n = 0; for(int i = 0; i < ns; i++) for(int j = 0; j < np; j++, n++) { const SliceMacroParticle& m = b->begin()[n]; double z = -3 + 6. * i / ns, w = 6. / ns, e = -3 + 6. * j / np, u = 6. / np, dp = (e + u / 2) * 1e-3; sx_close(m.Q() / 2, part(z, z + w) * part(e, e + u), 1e-5, "charge of the slice"); sx_close(m.ct() * 1e3, (z + w / 2) * 0.3, T, "time of the slice"); sx_close(m.dp() * 1e3, dp * 1e3, T, "energy of the slice"); sx_close(m.x() * 1e3, (1e-4 + d.Dx * dp) * 1e3, T, "centroid with dispersion"); sx_close(m.xp() * 1e3, 0.05 * dp * 1e3, T, "centroid with dispersion"); sx_close(m.y() * 1e3, -0.3 * dp * 1e3, T, "centroid with dispersion"); sx_close(m.yp() * 1e3, (-2e-5 + 0.02 * dp) * 1e3, T, "centroid with dispersion"); sx_close(m(0, 0) * 1e8, 3, T, "covariance"); sx_close(m(0, 1) * 1e8, -0.4, T, "covariance"); sx_close(m(1, 1) * 1e8, 1.16 / 3, T, "covariance"); sx_close(m(2, 2) * 1e8, 1, T, "covariance"); sx_close(m(2, 3) * 1e8, 0.14, T, "covariance"); sx_close(m(0, 2) * 1e8, 0, T, "covariance"); }
}
SX_HARNESS(tracker, "slices tracked through a line of drifts, quadrupoles and a corrector, any centroids and covariances")
{
	double P = 5, dp = 0.01, br = P / (C * 1e-9) * (1 + dp); AcceleratorModelConstructor c; c.AppendDrift(0.7); c.AppendComponent(new Quadrupole("Q", 0.4, 12.)); c.AppendDrift(1.1); c.AppendComponent(new XCor("X", 0, 0.004)); c.AppendComponent(new Quadrupole("R", 0.3, -9.)); std::unique_ptr<AcceleratorModel> m(c.GetModel()); Slice s = any(dp, 1e-3, 1); SMPBunch* b = new SMPBunch(P, 1); b->AddParticle(make(s)); SMPTracker t(m->GetBeamline(), b); t.Run(); apply(s, flow(focus(0, 0), 0.7)); apply(s, flow(focus(12 / br, -12 / br), 0.4)); apply(s, flow(focus(0, 0), 1.1)); s.c[1] -= 0.004 / br; apply(s, flow(focus(-9 / br, 9 / br), 0.3)); same(*t.GetTrackedBunch().begin(), s);
}
