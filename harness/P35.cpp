// P35: monitors
//@ time: *=40
#include "hx.h"
#include <memory>
#include <vector>
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "BPM.h"
#include "RMSProfileMonitor.h"
#include "BPMDataBuffer.h"
using namespace ParticleTracking;
typedef ParticleComponentTracker PT;
static const double T = 1e-8;
static PT* tracker(int k) { switch(k) { case 0: return new PT(TRANSPORT::StdISet()); case 1: return new PT(THIN_LENS::StdISet()); default: return new PT(SYMPLECTIC::StdISet()); } }
struct BB : BPM::Buffer { std::vector<BPM::Data> d; const BPM* who = nullptr; void Record(const BPM& b, const BPM::Data& x) override { d.push_back(x); who = &b; } };
struct PB : RMSProfileMonitor::Buffer { std::vector<RMSProfileMonitor::Data> d; const RMSProfileMonitor* who = nullptr; void Record(const RMSProfileMonitor& b, const RMSProfileMonitor::Data& x) override { d.push_back(x); who = &b; } };
static void fill(ParticleBunch& b, int n) { for(int k = 0; k < n; k++) { PSvector p(0); for(int i = 0; i < 4; i++) p[i] = sx_double(sx_n(i == 0 ? "x" : i == 1 ? "xp" : i == 2 ? "y" : "yp", k).c_str(), -1, 1); b.AddParticle(p); } }
static void mean(const ParticleBunch& b, double s, double& x, double& y) { x = y = 0; int n = b.size(); for(auto p = b.begin(); p != b.end(); p++) { x += (p->x() + s * p->xp()) / n; y += (p->y() + s * p->yp()) / n; } }
static void track(PT& t, Monitor& m, ParticleBunch& b, double L, int cut) { t.SetBunch(b); m.PrepareTracker(t); if(L == 0) { t.Track(); return; } switch(cut) { case 0: t.Track(); break; case 1: t.TrackStep(L / 2); t.TrackStep(L / 2); break; case 2: t.TrackStep(L / 4); t.TrackStep(L / 8); t.TrackStep(L * 5 / 8); break; default: for(int i = 0; i < 3; i++) t.TrackStep(i == 2 ? t.GetRemainingLength() : L / 3); } }
SX_HARNESS(where, "position monitors of any length and measurement point, in any steps")
{
	int set = sx_choose("integrators", 0, 2), cut = sx_choose("steps", 0, 3), n = sx_choose("particles", 1, 2); double L = sx_bool("thin") ? 0 : 0.8; double mp = L == 0 ? 0 : L / 8 * sx_choose("measurement point", -4, 4); BPM m("m", L, mp); if(sx_bool("set later")) { BPM z("m", L); z.SetMeasurementPt(mp); m = z; } sx_close(m.GetMeasurementPt(), mp, T, "measurement point"); BB buf; m.AddBuffer(&buf); std::unique_ptr<PT> t(tracker(set)); ParticleBunch b(10, 1); fill(b, n); ParticleBunch o(b); double x, y; mean(o, mp + L / 2, x, y); track(*t, m, b, L, cut);
	sx_assert(buf.d.size() == 1 && buf.who == &m, "one measurement"); if(buf.d.size() != 1) return; sx_close(buf.d[0].x.value, x, T, "horizontal position at the measurement point"); sx_close(buf.d[0].y.value, y, T, "vertical position at the measurement point"); sx_assert((int) b.size() == n, "particles are kept"); auto p = b.begin(); for(auto q = o.begin(); q != o.end(); q++, p++) { sx_close(p->x(), q->x() + L * q->xp(), T, "a monitor is a drift"); sx_close(p->xp(), q->xp(), T, "a monitor is a drift"); sx_close(p->y(), q->y() + L * q->yp(), T, "a monitor is a drift"); sx_close(p->yp(), q->yp(), T, "a monitor is a drift"); sx_close(p->dp(), 0, T, "a monitor is a drift"); }
	track(*t, m, b, L, 0); sx_assert(buf.d.size() == 2, "one measurement for every pass");
}
struct Half : BPM::Response { void Apply(BPM::Data* d) override { d->x.value = 0.5 * d->x.value + 1; d->y.value -= d->x.value; } };
SX_HARNESS(reading, "scale, resolution, response, switching off, buffers")
{
	ParticleBunch b(10, 1); fill(b, sx_choose("particles", 1, 3)); double t0 = sx_double("time", -1, 1); b.SetReferenceTime(t0); BPM m("m"), other("o"); double sx = sx_double("scale x", 0.5, 2), sy = -1.5; double x, y; mean(b, 0, x, y); BB b1, b2, def; bool scaled = sx_bool("scaled"), resp = sx_bool("response"), noise = sx_bool("noise allowed"); if(scaled) { m.SetScale(sx, sy); x *= sx; y *= sy; } BPM::generate_noise = noise; double rx = noise ? 0 : 0.25, ry = noise ? 0 : 0.5; m.SetResolution(rx, ry); Half h; if(resp) { sx_assert(m.SetResponse(&h) == nullptr, "no response before"); sx_assert(m.SetResponse(&h) == &h, "response before"); x = 0.5 * x + 1; y -= x; }
	int how = sx_choose("buffers", 0, 5), off = sx_choose("off", 0, 2); bool e1 = false, e2 = false, ed = false; switch(how) { case 0: break; case 1: m.AddBuffer(&b1); e1 = true; break; case 2: m.AddBuffer(&b1); m.AddBuffer(&b2); m.AddBuffer(&b1); e1 = e2 = true; break; case 3: m.AddBuffer(&b1); m.AddBuffer(&b2); sx_assert(m.RemoveBuffer(&b1), "removed"); sx_assert(!m.RemoveBuffer(&b1), "removed once"); e2 = true; break; case 4: m.AddBuffer(&b1); if(sx_bool("default first")) { BPM::SetDefaultBuffer(&def); m.ClearAllBuffers(); } else { m.ClearAllBuffers(); BPM::SetDefaultBuffer(&def); } ed = true; break; default: BPM::SetDefaultBuffer(&def); ed = true; }
	if(off == 1) { sx_assert(m.SetActive(false), "state before"); sx_assert(!m.IsActive(), "inactive"); } if(off == 2) { Monitor::all_inactive = true; sx_assert(!m.IsActive() && !other.IsActive(), "all inactive"); } if(off) e1 = e2 = ed = false; else sx_assert(m.IsActive(), "active"); m.MakeMeasurement(b); BPM::SetDefaultBuffer(nullptr); Monitor::all_inactive = false; BPM::generate_noise = true;
	const BB* all[3] = {&b1, &b2, &def}; bool e[3] = {e1, e2, ed}; for(int i = 0; i < 3; i++) { sx_assert(all[i]->d.size() == (e[i] ? 1u : 0u), "each buffer records once, others nothing"); if(all[i]->d.size() != 1) continue; const BPM::Data& d = all[i]->d[0]; sx_assert(all[i]->who == &m, "the monitor that measured"); sx_close(d.x.value, x, T, "horizontal reading"); sx_close(d.y.value, y, T, "vertical reading"); sx_close(d.x.error, rx, T, "resolution"); sx_close(d.y.error, ry, T, "resolution"); sx_close(d.ct, t0, T, "reference time"); }
	if(off == 1) { sx_assert(!m.SetActive(true), "state before"); sx_assert(m.IsActive() && other.IsActive(), "active again"); if(how == 1) { m.MakeMeasurement(b); sx_assert(b1.d.size() == 1, "measures again"); } }
}
SX_HARNESS(copies, "copies of monitors, orientation")
{
	BPM m("m", 0.5, 0.1); BB buf; m.AddBuffer(&buf); m.SetScale(2, 3); sx_assert(!m.IsReflected(), "not reflected at first"); std::unique_ptr<BPM> c(static_cast<BPM*>(m.Copy())); m.RotateY180(); sx_assert(m.IsReflected() && !c->IsReflected(), "reflected"); m.RotateY180(); sx_assert(!m.IsReflected(), "reflected twice"); sx_assert(!m.SetReflected(true) && m.SetReflected(true), "state before"); ParticleBunch b(10, 1); fill(b, 1); double x, y; mean(b, 0, x, y); m.SetScale(1, 1); c->MakeMeasurement(b); sx_assert(buf.d.size() == 1 && buf.who == c.get(), "a copy keeps the buffers"); sx_close(buf.d[0].x.value, 2 * x, T, "a copy keeps the scale"); sx_close(buf.d[0].y.value, 3 * y, T, "a copy keeps the scale"); sx_close(c->GetLength(), 0.5, T, "length"); sx_close(c->GetMeasurementPt(), 0.1, T, "measurement point"); sx_assert(c->GetType() == "BPM" && c->GetIndex() == BPM::ID, "type");
	RMSProfileMonitor r("r"); PB pb; r.AddBuffer(&pb); r.SetActive(false); r.MakeMeasurement(b); sx_assert(pb.d.empty(), "inactive"); r.SetActive(true); sx_assert(r.RemoveBuffer(&pb), "removed"); r.MakeMeasurement(b); sx_assert(pb.d.empty(), "no buffer"); r.AddBuffer(&pb); r.RemoveAllBuffers(); r.MakeMeasurement(b); sx_assert(pb.d.empty(), "no buffer"); RMSProfileMonitor::SetDefaultBuffer(&pb); r.MakeMeasurement(b); RMSProfileMonitor::SetDefaultBuffer(nullptr); sx_assert(pb.d.size() == 1, "default buffer"); r.MakeMeasurement(b); sx_assert(pb.d.size() == 1, "no default buffer any more");
}
SX_HARNESS(profile, "profile monitors: centres and widths in three directions")
{
	int n = sx_choose("particles", 1, 3), ia = sx_choose("wire", 0, 7), cut = sx_choose("steps", 0, 2); static const double an[] = {0, 1.5707963267948966, 0.78539816339744828, 1.0, -0.5, 2.5, -1.5707963267948966, 3.14159265358979}; double u = an[ia], L = sx_bool("thin") ? 0 : 0.8, mp = L / 4; RMSProfileMonitor m("m", u, L, mp); PB buf; m.AddBuffer(&buf); bool off = sx_bool("noise off"); m.SetResolution(0, 0, 0); std::unique_ptr<PT> t(tracker(off ? 0 : 1)); ParticleBunch b(10, 1); int sym = sx_choose("coordinate", 0, 1); for(int k = 0; k < n; k++) { PSvector p(0); p.x() = sym == 0 ? sx_double(sx_n("x", k).c_str(), -1, 1) : 0.3 * k - 0.1; p.y() = sym == 1 ? sx_double(sx_n("y", k).c_str(), -1, 1) : 0.5 - 0.4 * k * k; p.xp() = 0.1 * k; p.yp() = 0.2; b.AddParticle(p); }
	double X = 0, Y = 0, U = 0, vx = 0, vy = 0, vu = 0, s = L == 0 ? 0 : mp + L / 2, cu = ia == 1 ? 0 : std::cos(u), su = ia == 0 ? 0 : std::sin(u); for(auto p = b.begin(); p != b.end(); p++) { double x = p->x() + s * p->xp(), y = p->y() + s * p->yp(), w = cu * x + su * y; X += x / n; Y += y / n; U += w / n; } for(auto p = b.begin(); p != b.end(); p++) { double x = p->x() + s * p->xp(), y = p->y() + s * p->yp(), w = cu * x + su * y; vx += (x - X) * (x - X) / n; vy += (y - Y) * (y - Y) / n; vu += (w - U) * (w - U) / n; } sx_assume(vu > 1e-4 || n == 1);
	track(*t, m, b, L, cut); sx_assert(buf.d.size() == 1 && buf.who == &m, "one measurement"); if(buf.d.size() != 1) return; const RMSProfileMonitor::Data& d = buf.d[0]; sx_close(d.x0.value, X, T, "horizontal centre"); sx_close(d.y0.value, Y, T, "vertical centre"); sx_close(d.u0.value, U, T, "centre along the third direction"); sx_close(d.xrms.value * d.xrms.value, vx, 1e-6, "horizontal width"); sx_close(d.yrms.value * d.yrms.value, vy, 1e-6, "vertical width"); sx_close(d.urms.value * d.urms.value, vu, 1e-6, "width along the third direction"); sx_assert((d.xrms.value >= 0) & (d.yrms.value >= 0) & (d.urms.value >= -1e-9), "widths are not negative"); sx_close(d.u0.error, 0, T, "resolution"); sx_close(d.xrms.error, 0, T, "resolution");
}
