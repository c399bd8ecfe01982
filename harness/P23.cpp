// P23: RF structures
//@ time: *=40
#include "hx.h"
#include <memory>
#include <vector>
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "Components.h"
#include "TransverseRFStructure.h"
#include "PhysicalConstants.h"
using namespace ParticleTracking;
typedef ParticleComponentTracker PT;
static const double T = 1e-8, P0 = 10, c0 = 2.99792458e+08, twopi = 6.283185307179586;
static PT* tracker(int k) { switch(k) { case 0: return new PT(TRANSPORT::StdISet()); case 1: return new PT(THIN_LENS::StdISet()); default: return new PT(SYMPLECTIC::StdISet()); } }
static double phase(int i) { static const double p[] = {0, 0.4, twopi / 4, -2.2, twopi / 2, -twopi / 4}; return p[i]; }
static double run(int set, AcceleratorComponent& c, PSvector& p) { std::unique_ptr<PT> t(tracker(set)); ParticleBunch b(P0, 1); b.AddParticle(PSvector(0)); b.AddParticle(p); t->SetBunch(b); c.PrepareTracker(*t); t->Track(); sx_assert(b.size() == 2, "particles are kept"); p = *++b.begin(); return b.GetReferenceMomentum(); }
SX_HARNESS(parameters, "amplitude, voltage, phase, phasor, frequency, wavelength and wave number of all structures")
{
	int kind = sx_choose("kind", 0, 2); std::unique_ptr<RFStructure> s; double a = sx_double("amplitude", 0.01, 1), ph = phase(sx_choose("phase", 0, 4)), f = 1e8 * sx_choose("frequency", 3, 4), L = 0.8; if(kind == 0) s.reset(new TWRFStructure("s", L, f, a, ph)); if(kind == 1) { s.reset(new SWRFStructure("s", 3, f, a, ph)); L = 1.5 * c0 / f; } if(kind == 2) s.reset(new TransverseRFStructure("s", L, f, a, ph, 0.3));
	int how = sx_choose("set", 0, 9); Complex z(0); double E = a; double v = how ? sx_double("value", 0.1, 3) : 0; switch(how) { case 0: break; case 1: s->SetAmplitude(E = -v); break; case 2: s->SetVoltage(v); E = v / L; break; case 3: s->SetPhase(ph = 1.25); break; case 4: z = Complex(v, sx_double("im", -3, 3)); s->SetVoltagePhasor(z); break; case 5: s->SetFrequency(f = 1e8 * v); break; case 6: s->SetWavelength(v); f = c0 / v; break; case 7: s->SetK(v); f = c0 * v / twopi; break; case 8: s.reset(static_cast<RFStructure*>(s->Copy())); s->SetPhase(ph = -1); break; default: s->RotateY180(); E = -a; }
	sx_close(s->GetLength(), L, T, "length"); sx_close(s->GetFrequency() / 1e8, f / 1e8, 1e-7, "frequency"); sx_close(s->GetWavelength() * f / c0, 1, 1e-7, "wavelength"); sx_close(s->GetK(), twopi * f / c0, 1e-6, "wave number"); const RFAcceleratingField& fl = s->GetField();
	if(how == 4) { Complex w = s->GetVoltagePhasor(); sx_close(w.real(), z.real(), 1e-6, "phasor set"); sx_close(w.imag(), z.imag(), 1e-6, "phasor set"); sx_close(s->GetVoltage() * s->GetVoltage(), std::norm(z), 1e-6, "voltage of the phasor"); sx_close(s->GetBeamVoltage(), z.real(), 1e-6, "gain on crest of the phasor"); return; }
	sx_close(s->GetAmplitude(), E, T, "amplitude"); sx_close(s->GetVoltage(), E * L, T, "voltage"); sx_close(s->GetPhase(), ph, T, "phase"); sx_close(s->GetBeamVoltage(), E * L * std::cos(ph), T, "nominal gain"); Complex w = s->GetVoltagePhasor(); sx_close(w.real(), E * L * std::cos(ph), T, "phasor"); sx_close(w.imag(), E * L * std::sin(ph), T, "phasor"); sx_close(fl.GetAmplitude(), E, T, "amplitude of the field"); sx_close(fl.GetPhase(), ph, T, "phase of the field"); if(kind == 2) sx_close(static_cast<TransverseRFStructure&>(*s).GetFieldOrientation(), how == 9 ? -0.3 : 0.3, T, "orientation");
}
SX_HARNESS(fields, "fields of travelling, standing and transverse waves at any place and time")
{
	int kind = sx_choose("kind", 0, 2), ip = sx_choose("phase", 0, 3); double a = 0.75, ph = phase(ip), f = 3e8, th = 0.4 * sx_choose("orientation", 0, 2), w = twopi * f; double z = sx_double("z", -1, 1), t = 1e-9 * sx_double("t", -2, 2), x = sx_double("x", -1, 1), q = sx_bool("negative") ? -2 : 1; TWRFStructure tw("t", 1, f, a, ph); SWRFStructure sw("s", 2, f, a, ph); TransverseRFStructure tr("r", 1, f, a, ph, th);
	const EMField& F = kind == 0 ? (const EMField&) tw.GetField() : kind == 1 ? (const EMField&) sw.GetField() : (const EMField&) tr.GetField(); double e = kind == 1 ? a * std::cos(w * z / c0) * std::cos(w * t + ph) : a * std::cos(w * (z / c0 - t) + ph); double ex = kind == 2 ? e * std::cos(th) : 0, ey = kind == 2 ? e * std::sin(th) : 0, ez = kind == 2 ? 0 : e;
	Point3D p(x, 0.3, z); Vector3D E = F.GetEFieldAt(p, t), B = F.GetBFieldAt(p, t), G = F.GetForceAt(p, Vector3D(0.1, x, 0.9), q, t); sx_close(E.x, ex, 1e-7, "electric field"); sx_close(E.y, ey, 1e-7, "electric field"); sx_close(E.z, ez, 1e-7, "electric field"); sx_close(B.x, 0, T, "magnetic field"); sx_close(B.y, 0, T, "magnetic field"); sx_close(B.z, 0, T, "magnetic field"); sx_close(G.x, q * ex, 1e-7, "force"); sx_close(G.y, q * ey, 1e-7, "force"); sx_close(G.z, q * ez, 1e-7, "force"); if(kind < 2) sx_close(static_cast<const RFAcceleratingField&>(F).Ez(z, t), e, 1e-7, "longitudinal field");
}
// any arrival time, the other coordinates from a list
SX_HARNESS(gain, "momentum gained in travelling wave structures for any time of arrival")
{
	int set = sx_choose("integrators", 0, 2); bool full = set == 2 ? false : sx_bool("full acceleration"); double ph = phase(sx_choose("phase", 0, 5)), L = 0.8, g = sx_bool("decelerating") ? -0.05 : 0.1, k = 20; int dpc = sx_choose("dp", -1, 1); TWRFStructure s("s", L, c0 * k / twopi, g, ph); s.GetField().SetFullAcceleration(full); PSvector p(0); p.ct() = set == 2 ? 0.04 * sx_choose("arrival", -1, 2) : sx_double("ct", -0.1, 0.1); p.dp() = 0.01 * dpc; if(set == 2) { g = sx_double("gradient", -0.1, 0.1); sx_assume(beyond(g, 0.001)); s.SetAmplitude(g); } double x0 = 0, xp0 = 0, y0 = 0, yp0 = 0; if(set < 2) { x0 = 0.1; xp0 = 0.2; y0 = 0.3; yp0 = -0.1; } p.x() = x0; p.xp() = xp0; p.y() = y0; p.yp() = yp0; PSvector a(p);
	double P1 = run(set, s, p), co = std::cos(ph - k * a.ct()), dE = g * L * co, Ein = P0 * (1 + a.dp()), E1 = full ? P0 + g * L * std::cos(ph) : P0; sx_close(P1, E1, 1e-7, "reference momentum after the structure"); sx_close(P1 * (1 + p.dp()), Ein + dE, 1e-6, "momentum after the structure"); sx_close(p.ct(), a.ct(), 1e-9, "time of arrival"); if(set == 2) { sx_close(p.x(), 0, 1e-9, "stays on axis"); sx_close(p.xp(), 0, 1e-9, "stays on axis"); return; }
	double fi = -0.5 * g / P0 * co / (1 + a.dp()), u = dE / Ein, Eo = Ein + dE; double xe = xp0 + fi * x0, ye = yp0 + fi * y0; double X = x0 + L * (full ? 1 - 0.5 * u : 1) * xe, Y = y0 + L * (full ? 1 - 0.5 * u : 1) * ye; sx_close(p.x(), X, 2e-5, "position after the structure"); sx_close(p.y(), Y, 2e-5, "position after the structure"); if(full) { sx_close((p.xp() - 0) * Eo, Ein * xe + 0.5 * g * co * p.x(), 1e-5, "transverse momentum"); sx_close(p.yp() * Eo, Ein * ye + 0.5 * g * co * p.y(), 1e-5, "transverse momentum"); } else { double Pn = P0 * (1 + p.dp()); sx_close((p.xp() - xe) * Pn, 0.5 * g * co * p.x(), 1e-5, "end field"); sx_close((p.yp() - ye) * Pn, 0.5 * g * co * p.y(), 1e-5, "end field"); }
}
SX_HARNESS(transverse, "travelling wave structures, any transverse coordinates and momentum; structures switched off")
{
	int set = sx_choose("integrators", 0, 1), kind = sx_choose("kind", 0, 3); double ph = phase(sx_choose("phase", 0, 3)), L = 0.8, g = 0.1, k = 20; PSvector p(0); for(int i = 0; i < 4; i++) p[i] = sx_double(sx_n("x", i).c_str(), -1, 1); p.ct() = 0.03; PSvector a(p); if(kind == 3) { p.x() = a.x() = 0.1; p.y() = a.y() = 0.2; p.xp() = a.xp() = -0.3; p.yp() = a.yp() = 0.1; p.dp() = a.dp() = sx_double("dp", -0.05, 0.05); }
	if(kind < 2) { std::unique_ptr<AcceleratorComponent> s; set = sx_choose("any integrators", 0, 2); if(kind == 0) s.reset(new TWRFStructure("s", L, 1e9, 0, ph)); else { s.reset(new SWRFStructure("s", 3, 1e9, 0, ph)); L = 1.5 * c0 / 1e9; if(set == 1) return; } for(int i = 0; i < 4; i++) p[i] *= 1e-3; double r = run(set, *s, p); sx_close(r, P0, T, "switched off: reference momentum"); sx_close(p.dp(), 0, T, "switched off: momentum"); for(int i = 0; i < 4; i += 2) { sx_close(p[i], 1e-3 * (a[i] + L * a[i + 1]), 2e-6, "switched off: drift"); sx_close(p[i + 1], 1e-3 * a[i + 1], T, "switched off: slope"); } return; }
	TWRFStructure s("s", L, c0 * k / twopi, g, ph); double P1 = run(set, s, p), co = std::cos(ph - k * a.ct()), dE = g * L * co, Ein = P0 * (1 + a.dp()), Eo = Ein + dE, u = dE / Ein; sx_close(P1 * (1 + p.dp()), Eo, 1e-6, "momentum after the structure"); for(int i = 0; i < 4; i += 2) { double e = a[i + 1] - 0.5 * g * co * a[i] / Ein; sx_close(p[i], a[i] + L * (1 - 0.5 * u) * e, 3e-5, "position after the structure"); sx_close(p[i + 1] * Eo, Ein * e + 0.5 * g * co * p[i], 1e-5, "transverse momentum"); }
}
SX_HARNESS(standing, "standing wave structures: gain for any time of arrival, focusing at any phase")
{
	int set = 2 * sx_choose("symplectic", 0, 1), ip = sx_choose("phase", 0, 5), n = sx_choose("cells", 0, 3); static const int cells[] = {1, 9, 13, 21}; static const double fr[] = {1.3e9, 1.3e9, 11e6, 5e6}; double ph = phase(ip), f = fr[n], L = cells[n] * c0 / f / 2, V = sx_bool("decelerating") ? -0.5 : 1, g = V / L, k = twopi * f / c0; SWRFStructure s("s", cells[n], f, g, ph); sx_close(s.GetLength(), L, 1e-6, "length"); double cp = std::cos(ph), E1 = P0 + V * cp; PSvector p(0);
	if(sx_bool("arrival")) { p.ct() = sx_double("ct", -1, 1) * 1.5 / k; p.dp() = 0.02; PSvector a(p); double P1 = run(set, s, p); sx_close(P1, E1, 1e-7, "reference momentum after the structure"); sx_close(P1 * (1 + p.dp()), P0 * (1 + a.dp()) + V * std::cos(ph - k * a.ct()), 1e-6, "momentum after the structure"); sx_close(p.ct(), a.ct(), 1e-9, "time of arrival"); return; }
	double r8 = std::sqrt(8.0), r2 = std::sqrt(2.0), u = V * cp / P0, al = (std::fabs(u) < 1e-9 ? V / P0 : std::log(1 + u) / cp) / r8, C = std::cos(al), S = std::sin(al), m[2][2] = {{C - r2 * cp * S, r8 * P0 / V * L * S}, {-V / L * (2 + std::cos(2 * ph)) * S / E1 / r8, P0 / E1 * (C + r2 * cp * S)}}; double d = 1e-4; bool v = (ip + n) & 1; int i = v ? 2 : 0; bool one = set == 2, even = (ip + n) % 2; p[i] = d * (one && even ? 0.6 : sx_double("x", -1, 1)); p[i + 1] = d / L * (one && !even ? -0.7 : sx_double("xp", -1, 1)); PSvector a(p); double P1 = run(set, s, p); sx_close(P1, E1, 1e-7, "reference momentum after the structure"); sx_close(p[i] / d, (m[0][0] * a[i] + m[0][1] * a[i + 1]) / d, 1e-5, "position after the structure"); sx_close(p[i + 1] * L / d, (m[1][0] * a[i] + m[1][1] * a[i + 1]) * L / d, 1e-5, "slope after the structure"); sx_close(p[2 - i], 0, 1e-12, "other plane"); sx_close(P1 * (1 + p.dp()), P0 + V * cp, 1e-5, "momentum after the structure");
}
SX_HARNESS(deflecting, "transverse RF structures: any time of arrival, coordinates, orientation")
{
	int set = sx_choose("integrators", 0, 1); double ph = phase(sx_choose("phase", 0, 3)), th = 0.8 * sx_choose("orientation", -1, 2), L = 0.8, g = 0.1, k = 20; TransverseRFStructure s("s", L, c0 * k / twopi, g, ph, th); if(sx_bool("turned")) { s.RotateY180(); th = -th; g = -g; } PSvector p(0); for(int i = 0; i < 4; i++) p[i] = 0.1 * sx_double(sx_n("x", i).c_str(), -1, 1); bool t = sx_bool("arrival"); p.ct() = t ? sx_double("ct", -0.1, 0.1) : 0.04; p.dp() = t ? 0.02 : sx_double("dp", -0.05, 0.05); PSvector a(p); double P1 = run(set, s, p), kick = g * L * std::cos(ph - k * a.ct()) / P0; sx_close(P1, P0, T, "reference momentum kept"); sx_close(p.dp(), a.dp(), T, "momentum kept"); double q = 1 + a.dp(), kx = kick * std::cos(th), ky = kick * std::sin(th);
	sx_close((p.xp() - a.xp()) * q, kx, 1e-7, "horizontal kick"); sx_close((p.yp() - a.yp()) * q, ky, 1e-7, "vertical kick"); sx_close((p.x() - a.x() - L * a.xp()) * q, 0.5 * L * kx, 1e-7, "horizontal displacement"); sx_close((p.y() - a.y() - L * a.yp()) * q, 0.5 * L * ky, 1e-7, "vertical displacement");
}
