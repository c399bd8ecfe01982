// P38: spin tracking
//@ time: *=50
#include "hx.h"
#include <memory>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "SpinParticleProcess.h"
#include "PhysicalConstants.h"
using namespace ParticleTracking;
static const double T = 1e-7, C = 299792458., M = 0.510998910e-3, A = 0.001159652181;
struct V { double v[3]; };
// turn of a spin by the field integral b (T m) at momentum P (GeV); trans = factor of the transverse parts
static V turn(const V& s, double bx, double by, double bz, double P, bool arc, double Pspin = 0)
{
	double g = (Pspin != 0 ? Pspin : P) / M, w[3] = {-(1 + A * g) * bx * C * 1e-9 / P, -((arc ? 0 : 1) + A * g) * by * C * 1e-9 / P, -(1 + A) * bz * C * 1e-9 / P}, t = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); if(t == 0) return s; double n[3] = {w[0] / t, w[1] / t, w[2] / t}, c = std::cos(t), d = std::sin(t), k = (n[0] * s.v[0] + n[1] * s.v[1] + n[2] * s.v[2]) * (1 - c);
	V r; r.v[0] = s.v[0] * c + (n[1] * s.v[2] - n[2] * s.v[1]) * d + n[0] * k; r.v[1] = s.v[1] * c + (n[2] * s.v[0] - n[0] * s.v[2]) * d + n[1] * k; r.v[2] = s.v[2] * c + (n[0] * s.v[1] - n[1] * s.v[0]) * d + n[2] * k; return r;
}
static V get(const SpinVector& s) { return V{{s.x(), s.y(), s.z()}}; }
static void same(const SpinVector& s, const V& r, const char* what) { sx_close(s.x(), r.v[0], T, what); sx_close(s.y(), r.v[1], T, what); sx_close(s.z(), r.v[2], T, what); }
static V any(int i) { return V{{sx_double(sx_n("sx", i).c_str(), -1, 1), sx_double(sx_n("sy", i).c_str(), -1, 1), sx_double(sx_n("sz", i).c_str(), -1, 1)}}; }
static SpinVector sv(const V& s) { return SpinVector(s.v[0], s.v[1], s.v[2]); }
static std::unique_ptr<AcceleratorComponent> element(int k) { AcceleratorComponent* e; double L = 1.5; switch(k) { case 0: e = new SectorBend("B", L, 0.1, 0.2); break; case 1: e = new Quadrupole("Q", L, 12.); break; case 2: e = new SkewQuadrupole("SQ", L, -7.); break; case 3: e = new Sextupole("S", L, 200.); break; case 4: e = new Solenoid("SO", L, 1.7); break; case 5: e = new XCor("X", L, 0.05); break; default: e = new YCor("Y", L, -0.04); } return std::unique_ptr<AcceleratorComponent>(e); }
// field of the element in T at a position
static void field(int k, double x, double y, double b[3]) { b[0] = b[1] = b[2] = 0; switch(k) { case 0: b[1] = 0.2; break; case 1: b[1] = 12 * x; b[0] = 12 * y; break; case 2: b[0] = -7 * x; b[1] = 7 * y; break; case 3: b[1] = 100 * (x * x - y * y); b[0] = 200 * x * y; break; case 4: b[2] = 1.7; break; case 5: b[1] = 0.05; break; default: b[0] = -0.04; } }
static void run(int k, int ns, int cut, double P, double Pspin, int n, const PSvector* p, V* s)
{
	std::unique_ptr<AcceleratorComponent> e = element(k); double L = e->GetLength(); SpinParticleBunch b(P, 1); for(int i = 0; i < n; i++) b.AddParticle(p[i], sv(s[i])); SpinParticleProcess sp(1, ns); if(Pspin != 0) sp.SetSpinMomentum(Pspin); sp.InitialiseProcess(b); sp.SetCurrentComponent(*e); sx_assert(sp.IsActive(), "active in fields");
	for(int t = 0; t < ns; t++) for(int c = 0; c < cut; c++) { sx_close(sp.GetMaxAllowedStepSize(), L / ns * (1 - (double) c / cut), 1e-9, "to the end of the step"); sp.DoProcess(L / ns / cut); }
	for(int i = 0; i < n; i++) { double x = p[i].x(), y = p[i].y(), q = P * (1 + p[i].dp()), f[3]; if(k == 4) s[i] = turn(s[i], -1.7 / 2 * x, -1.7 / 2 * y, 0, q, false, Pspin * (1 + p[i].dp())); field(k, x, y, f); s[i] = turn(s[i], f[0] * L, f[1] * L, f[2] * L, q, k == 0, Pspin * (1 + p[i].dp())); if(k == 4) s[i] = turn(s[i], 1.7 / 2 * x, 1.7 / 2 * y, 0, q, false, Pspin * (1 + p[i].dp())); same(b.beginSpinArray()[i], s[i], "spin behind the element"); for(int j = 0; j < 6; j++) sx_close(b.GetParticles()[i][j], p[i][j], 1e-15, "particles are not touched"); }
}
static PSvector at(int k, int v) { PSvector p(0); p.x() = 1e-2; p.y() = k == 0 ? 0 : -5e-3; p.dp() = v ? -0.02 : 0.01; p.xp() = 1e-3; return p; }
SX_HARNESS(spins, "any spins in seven kinds of elements, cut in any of several ways")
{
	int k = sx_choose("kind", 0, 6), c = sx_choose("cut", 0, 3); PSvector p[2] = {at(k, 0), at(k, 1)}; p[1].x() = -7e-3; V s[2] = {any(0), any(1)}; run(k, 1 + c % 3, c == 3 && k == 4 ? 16 : 1 + c / 2, sx_bool("low") ? 1.1 : 20, c == 2 ? 5 : 0, 2, p, s);
}
SX_HARNESS(momenta, "any momentum deviation in bends, where the angle relative to the orbit does not depend on it")
{
	int k = 0; PSvector p = at(k, 0); p.dp() = 0.02 * sx_double("dp", -1, 1); if(k > 0) p.y() = 0; V s{{0.6, 0.48, 0.64}}; run(k, sx_choose("steps", 1, 2), 1, 3, 0, 1, &p, &s);
}
SX_HARNESS(positions, "any horizontal position in quadrupoles and sextupoles and any vertical in solenoids")
{
	int k = sx_choose("kind", 0, 3); PSvector p(0); double u = 1e-2 * sx_double("u", 0.1, 1); if(sx_bool("negative")) u = -u; if(k == 3) { k = 4; p.y() = u; } else { k++; p.x() = u; } p.dp() = 0.01; V s{{0.6, 0.48, 0.64}}; run(k, 2, 1, 3, 0, 1, &p, &s);
}
SX_HARNESS(length, "a turn keeps the length of any spin")
{
	int k = sx_choose("kind", 0, 6); PSvector p = at(k, 0); V s = any(0); std::unique_ptr<AcceleratorComponent> e = element(k); SpinParticleBunch b(3, 1); b.AddParticle(p, sv(s)); SpinParticleProcess sp(1, 1); sp.InitialiseProcess(b); sp.SetCurrentComponent(*e); sp.DoProcess(1.5); V r = get(*b.beginSpinArray()); double a = 0, c = 0; for(int i = 0; i < 3; i++) { a += s.v[i] * s.v[i]; c += r.v[i] * r.v[i]; } sx_close(a, c, T, "length of the spin");
}
SX_HARNESS(bunch, "spins stay with their particles: adding, erasing, means and rotations, any spins")
{
	SpinParticleBunch b(3, 1); V s[4]; PSvector p[4]; int dflt = sx_choose("default", 0, 3), gone = sx_choose("gone", 0, 4); std::vector<int> left; for(int i = 0; i < 4; i++) { p[i] = PSvector(0); p[i].x() = 1e-3 * (i + 1); p[i].yp() = -1e-3 * i; if(i == dflt) { s[i] = V{{0, 0, 1}}; if(i & 1) b.push_back(p[i]); else b.AddParticle(p[i]); } else { s[i] = any(i); b.AddParticle(p[i], sv(s[i])); } } for(int i = 0; i < 4; i++) if(i != gone) left.push_back(i); if(gone < 4) b.erase(b.begin() + gone);
	sx_assert(b.size() == left.size() && (size_t) (b.endSpinArray() - b.beginSpinArray()) == left.size(), "one spin per particle"); V m{{0, 0, 0}}; for(size_t i = 0; i < left.size(); i++) { sx_close(b.GetParticles()[i].x(), p[left[i]].x(), 1e-15, "particles left"); same(b.beginSpinArray()[i], s[left[i]], "spin of the particle"); for(int j = 0; j < 3; j++) m.v[j] += s[left[i]].v[j] / left.size(); } same(b.GetAverageSpin(), m, "mean spin");
	double a = 0.3; int ax = sx_choose("axis", 0, 3); Transform3D t = ax == 0 ? Transform3D::rotationX(a) : ax == 1 ? Transform3D::rotationY(a) : ax == 2 ? Transform3D::rotationZ(a) : Transform3D::translation(1e-3, 0, 0); b.ApplyTransformation(t); for(size_t i = 0; i < left.size(); i++) { const V& o = s[left[i]]; Vector3D r = t.R()(Vector3D(o.v[0], o.v[1], o.v[2])); same(b.beginSpinArray()[i], V{{r.x, r.y, r.z}}, "rotated spin"); ParticleBunch q(3, 1); q.push_back(p[left[i]]); q.ApplyTransformation(t); for(int j = 0; j < 6; j++) sx_close(b.GetParticles()[i][j], q.GetParticles()[0][j], 1e-12, "rotated particle"); }
}
SX_HARNESS(tracked, "spins of particles on axis tracked through a line of bends, solenoids and correctors, any spins and steps")
{
	AcceleratorModelConstructor c; c.AppendDrift(1); c.AppendComponent(new SectorBend("B", 1.2, 0.1, 0.3 / (C * 1e-9) / 1)); c.AppendComponent(new Solenoid("S", 0.8, 0.9)); c.AppendDrift(0.5); c.AppendComponent(new SectorBend("B2", 0.7, 0.1, 0.3 / (C * 1e-9) / 1)); std::unique_ptr<AcceleratorModel> m(c.GetModel()); SpinParticleBunch* b = new SpinParticleBunch(3, 1); PSvector p(0); V s = any(0); b->AddParticle(p, sv(s)); int ns = sx_choose("steps", 1, 3); ParticleTracker t(m->GetBeamline(), b); t.AddProcess(new SpinParticleProcess(1, ns)); t.Track(b);
	double B = 0.3 / (C * 1e-9); s = turn(s, 0, B * 1.2, 0, 3, true); s = turn(s, 0, 0, 0.9 * 0.8, 3, false); s = turn(s, 0, B * 0.7, 0, 3, true); same(*b->beginSpinArray(), s, "spin behind the line");
}
SX_HARNESS(inactive, "without field or without spins nothing happens")
{
	SpinParticleBunch b(3, 1); V s = any(0); b.AddParticle(PSvector(0), sv(s)); SpinParticleProcess sp(1, 1); sp.InitialiseProcess(b); Drift d("D", 1); sp.SetCurrentComponent(d); sx_assert(!sp.IsActive(), "not in drifts"); ParticleBunch n(3, 1); n.push_back(PSvector(0)); sp.InitialiseProcess(n); SectorBend e("B", 1, 0.1, 0.2); sp.SetCurrentComponent(e); sx_assert(!sp.IsActive(), "not without spins");
	SpinParticleBunch q(3, 1); PSvector z(0); q.AddParticle(z, sv(s)); sp.InitialiseProcess(q); Quadrupole qd("Q", 1, 5.); sp.SetCurrentComponent(qd); sp.DoProcess(1); same(*q.beginSpinArray(), s, "no field on the axis");
}
