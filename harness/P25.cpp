// P25: control channels and linear feedback
//@ time: *=40
#include "hx.h"
#include <vector>
#include <string>
#include <algorithm>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Channels.h"
#include "ChannelServer.h"
#include "BPMChannel.h"
#include "RWChannelState.h"
#include "LinearFBSystem.h"
#include "CorrectorWinding.h"
#include "MagnetMover.h"
#include "Components.h"
#include "ParticleBunch.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "PhysicalConstants.h"
static const double T = 1e-9;
static const double C = 2.99792458e8, TWOPI = 6.283185307179586476925;
// one element of every kind with channels
struct Kit
{
	AcceleratorModel* m; Solenoid* sol; Quadrupole* q; Sextupole* sx; Octupole* oc; SkewQuadrupole* sq; SkewSextupole* ss; XCor* xc; YCor* yc; SectorBend* sb; TWRFStructure* tw; SWRFStructure* sw; TransverseRFStructure* tr; MagnetMover* mm; CorrectorWinding* cw; Quadrupole* host;
	Kit()
	{
		AcceleratorModelConstructor k; k.AppendComponent(*(sol = new Solenoid("E", 1, 0.5))); k.AppendComponent(*(q = new Quadrupole("E", 1, 0.5))); k.AppendComponent(*(sx = new Sextupole("E", 1, 0.5))); k.AppendComponent(*(oc = new Octupole("E", 1, 0.5))); k.AppendComponent(*(sq = new SkewQuadrupole("E", 1, 0.5))); k.AppendComponent(*(ss = new SkewSextupole("E", 1, 0.5))); k.AppendComponent(*(xc = new XCor("E", 1, 0.5))); k.AppendComponent(*(yc = new YCor("E", 1, 0.5)));
		k.AppendComponent(*(sb = new SectorBend("E", 1, 0.1, 0.5))); sb->SetB1(0.25); k.AppendComponent(*(tw = new TWRFStructure("E", 1, 1.3e9, 2.0, 0.5))); k.AppendComponent(*(sw = new SWRFStructure("E", 1, 1.3e9, 2.0, 0.5))); k.AppendComponent(*(tr = new TransverseRFStructure("E", 1, 1.3e9, 2.0, 0.5, 0.25)));
		k.NewFrame(mm = new MagnetMover("E")); k.AppendComponent(*(host = new Quadrupole("H", 2, 0.5))); k.EndFrame(); cw = new CorrectorWinding(*host); k.AddModelElement(cw); m = k.GetModel();
	}
	// the parameter of channel n, from the element itself
	double get(int n) { switch(n) { case 0: return sol->GetBz(); case 1: return q->GetFieldStrength(); case 2: return sx->GetFieldStrength(); case 3: return oc->GetFieldStrength(); case 4: return sq->GetFieldStrength(); case 5: return ss->GetFieldStrength(); case 6: return xc->GetFieldStrength(); case 7: return yc->GetFieldStrength(); case 8: return sb->GetB0(); case 9: return sb->GetB1(); case 10: return mm->GetX(); case 11: return mm->GetY(); case 12: return mm->GetRoll(); case 13: return tw->GetAmplitude(); case 14: return tw->GetPhase(); case 15: return C / tw->GetFrequency(); case 16: return TWOPI * tw->GetFrequency() / C; case 17: return sw->GetAmplitude(); case 18: return sw->GetPhase(); case 19: return C / sw->GetFrequency(); case 20: return TWOPI * sw->GetFrequency() / C; case 21: return tr->GetAmplitude(); case 22: return tr->GetPhase(); case 23: return C / tr->GetFrequency(); case 24: return TWOPI * tr->GetFrequency() / C; case 25: return tr->GetFieldOrientation(); case 26: return host->GetField().GetComponent(0).real() * 2; default: return host->GetField().GetComponent(0).imag() * 2; } }
};
static const char* CH[28] = {"Solenoid.E.Bz", "Quadrupole.E.B1", "Sextupole.E.B2", "Octupole.E.B3", "SkewQuadrupole.E.B1", "SkewSextupole.E.B2", "XCor.E.B0", "YCor.E.B0", "SectorBend.E.B0", "SectorBend.E.B1", "MagnetMover.E.X", "MagnetMover.E.Y", "MagnetMover.E.Roll", "TWRFStructure.E.E", "TWRFStructure.E.Phi", "TWRFStructure.E.Lambda", "TWRFStructure.E.K", "SWRFStructure.E.E", "SWRFStructure.E.Phi", "SWRFStructure.E.Lambda", "SWRFStructure.E.K", "TransverseRFStructure.E.E", "TransverseRFStructure.E.Phi", "TransverseRFStructure.E.Lambda", "TransverseRFStructure.E.K", "TransverseRFStructure.E.ROLL", "CorrectorWinding.H.X", "CorrectorWinding.H.Y"};
SX_HARNESS(parameters, "every read-write channel reads, sets and increments its parameter and no other")
{
	Kit K; int n = sx_choose("channel", 0, 27); std::vector<RWChannel*> ch; size_t k = K.m->GetRWChannels(CH[n], ch); sx_assert(k == 1 && ch.size() == 1, "one channel of this name"); if(ch.size() != 1) return; sx_assert(ch[0]->GetID() == CH[n], "name of the channel"); std::vector<ROChannel*> ro; sx_assert(K.m->GetROChannels(CH[n], ro) == 1 && ro.size() == 1, "also read-only");
	int mode = sx_choose("mode", 0, 1); double before[28]; for(int i = 0; i < 28; i++) before[i] = K.get(i);
	double v = sx_double("v", 0.2, 3), want = mode ? before[n] + v : v; sx_close(ch[0]->Read(), before[n], T, "reads the parameter");
	if(mode) { double r = ch[0]->Increment(v); sx_close(r, want, T, "increment returns the new value"); } else ch[0]->Write(v);
	sx_close(K.get(n), want, 1e-6, "the parameter is set"); sx_close(ch[0]->Read(), want, 1e-6, "reads back"); sx_close(ro[0]->Read(), want, 1e-6, "read-only channel");
	static const int pair[4] = {15, 19, 23, 0}; for(int i = 0; i < 28; i++) { bool same = i == n || (n == 8 && i == 9); for(int p = 0; p < 3; p++) same |= (n == pair[p] || n == pair[p] + 1) && (i == pair[p] || i == pair[p] + 1); if(!same) sx_close(K.get(i), before[i], T, "other parameters are left alone"); }
}
SX_HARNESS(selection, "channels by patterns of type, name and key, in a model or a part of its beamline")
{
	AcceleratorModelConstructor k; char nm[4]; AcceleratorComponent* c[5]; for(int i = 0; i < 4; i++) nm[i] = (char) sx_int(sx_n("name", i).c_str(), 'a', 'b'); auto s = [&](int i) { return std::string(1, nm[i]); };
	Quadrupole* q = new Quadrupole(s(0), 1, 1); SectorBend* b = new SectorBend(s(1), 1, 0.1, 1); Marker* mk = new Marker("a"); BPM* bpm = new BPM(s(2)); Quadrupole* q2 = new Quadrupole(s(3), 1, 1); k.AppendComponent(*q); k.AppendComponent(*b); k.AppendComponent(*mk); k.AppendComponent(*bpm); k.AppendComponent(*q2); AcceleratorModel* m = k.GetModel();
	// channels: 0 q.B1, 1 b.B0, 2 b.B1, 3 bpm.X, 4 bpm.Y, 5 q2.B1
	std::string id[6] = {"Quadrupole." + s(0) + ".B1", "SectorBend." + s(1) + ".B0", "SectorBend." + s(1) + ".B1", "BPM." + s(2) + ".X", "BPM." + s(2) + ".Y", "Quadrupole." + s(3) + ".B1"}; int pos[6] = {0, 1, 1, 3, 3, 4}; char cn[6] = {nm[0], nm[1], nm[1], nm[2], nm[2], nm[3]};
	static const char* P[9] = {"*.*.B1", "Quadrupole.*.B1", "*.a.B*", "SectorBend.b.*", "BPM.*.X", "BPM.a.*", "*.b.B0", "Marker.*.X", "Quad*.a.*"}; int p = sx_choose("pattern", 0, 8);
	auto is = [&](int i) { char x = cn[i]; bool quad = i == 0 || i == 5; switch(p) { case 0: return quad || i == 2; case 1: return quad; case 2: return x == 'a' && (quad || i == 1 || i == 2); case 3: return x == 'b' && (i == 1 || i == 2); case 4: return i == 3; case 5: return x == 'a' && (i == 3 || i == 4); case 6: return x == 'b' && i == 1; case 8: return x == 'a' && quad; default: return false; } };
	bool part = sx_bool("part"), rw = p != 4 && p != 5 && sx_bool("rw"); int from = part ? 1 : 0, to = part ? 3 : 4; AcceleratorModel::Beamline bl = m->GetBeamline(from, to); std::vector<std::string> got, want; size_t ret;
	if(rw) { std::vector<RWChannel*> v; ret = part ? m->GetRWChannels(bl, P[p], v) : m->GetRWChannels(P[p], v); for(auto* x : v) got.push_back(x->GetID()); }
	else { std::vector<ROChannel*> v(1, nullptr); ret = part ? m->GetROChannels(bl, P[p], v) : m->GetROChannels(P[p], v); for(size_t i = 1; i < v.size(); i++) got.push_back(v[i]->GetID()); }
	for(int i = 0; i < 6; i++) if(pos[i] >= from && pos[i] <= to && is(i)) want.push_back(id[i]); sx_assert(ret == got.size(), "number of channels"); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); sx_assert(got == want, "exactly the channels matching type, name and key");
}
SX_HARNESS(order, "channels of a part of the beamline come in beamline order; corrector channels act on their own magnet")
{
	AcceleratorModelConstructor k; Quadrupole* q[3]; for(int i = 0; i < 3; i++) k.AppendComponent(*(q[i] = new Quadrupole(sx_n("Q", 2 - i), 1, 1.0 + i))); AcceleratorModel* m = k.GetModel(); AcceleratorModel::Beamline bl = m->GetBeamline(); std::vector<RWChannel*> v; m->GetRWChannels(bl, "Quadrupole.*.B1", v); sx_assert(v.size() == 3, "three channels"); if(v.size() != 3) return;
	RWChannelArray a(v); double x[3]; for(int i = 0; i < 3; i++) x[i] = sx_double(sx_n("x", i).c_str(), -5, 5); RealVector r(3), w(3); for(int i = 0; i < 3; i++) w[i] = x[i]; sx_assert(a.Size() == 3, "size of the array");
	int op = sx_choose("op", 0, 6); double e[3] = {1, 2, 3}; if(op == 0) { a.WriteAll(w); for(int i = 0; i < 3; i++) e[i] = x[i]; } if(op == 1) { a.WriteAll(x[0]); e[0] = e[1] = e[2] = x[0]; } if(op == 2) { a.IncrementAll(w); for(int i = 0; i < 3; i++) e[i] += x[i]; } if(op == 3) { a.IncrementAll(x[0]); for(int i = 0; i < 3; i++) e[i] += x[0]; } if(op == 4) { a.Write(1, x[0]); e[1] = x[0]; } if(op == 5) { a.Increment(2, x[0]); e[2] += x[0]; } if(op == 6) { a = w; for(int i = 0; i < 3; i++) e[i] = x[i]; }
	a.ReadAll(r); RealVector r2 = a; for(int i = 0; i < 3; i++) { sx_close(q[i]->GetFieldStrength(), e[i], T, "magnet strength"); sx_close(r[i], e[i], T, "reading all"); sx_close(r2[i], e[i], T, "conversion to a vector"); sx_close(a.Read(i), e[i], T, "reading one"); sx_close(a[i].Read(), e[i], T, "channel access"); }
	std::vector<RWChannel*> v2; m->GetRWChannels(bl, "Quadrupole.*.B1", v2); RWChannelState st(v2); a.WriteAll(7.0); bool cache = sx_bool("cache"); if(cache) st.CacheCurrentState(); a.WriteAll(9.0); st.Reset(); for(int i = 0; i < 3; i++) sx_close(q[i]->GetFieldStrength(), cache ? 7.0 : e[i], T, "state restored");
	RWChannelArray moved(a); sx_assert(moved.Size() == 3 && a.Size() == 0, "copying passes the channels on"); sx_assert(&moved[0] == v[0], "channels passed on");
}
// a measurement made by the buffer of a BPM
SX_HARNESS(bpm, "BPM channels give the last recorded position and the offset set")
{
	AcceleratorModelConstructor k; BPM* b = new BPM("B"); BPM* b2 = new BPM("C"); k.AppendComponent(*b); k.AppendComponent(*b2); AcceleratorModel* m = k.GetModel(); std::vector<ROChannel*> x, y; m->GetROChannels("BPM.B.X", x); m->GetROChannels("BPM.B.Y", y); sx_assert(x.size() == 1 && y.size() == 1, "two channels"); if(x.size() != 1 || y.size() != 1) return; sx_assert(x[0]->GetID() == "BPM.B.X" && y[0]->GetID() == "BPM.B.Y", "names");
	double ox = sx_double("ox", -1, 1), oy = sx_double("oy", -1, 1), v[2]; bool fx = sx_bool("offset x"), fy = sx_bool("offset y"), first = sx_bool("x first"); auto sx = [&] { if(fx) static_cast<BPMChannel*>(x[0])->SetBPMOffset(ox); }; auto sy = [&] { if(fy) static_cast<BPMChannel*>(y[0])->SetBPMOffset(oy); }; if(first) { sx(); sy(); } else { sy(); sx(); }
	sx_close(x[0]->Read(), fx ? ox : 0, T, "before any measurement"); ParticleTracking::ParticleBunch bu(10, 1); PSvector p(0); v[0] = p.x() = sx_double("x", -1, 1); v[1] = p.y() = sx_double("y", -1, 1); bu.AddParticle(p); b2->MakeMeasurement(bu); sx_close(x[0]->Read(), fx ? ox : 0, T, "measurements of other BPMs do not count"); BPM::generate_noise = false; b->MakeMeasurement(bu);
	sx_close(x[0]->Read(), v[0] + (fx ? ox : 0), T, "horizontal position"); sx_close(y[0]->Read(), v[1] + (fy ? oy : 0), T, "vertical position");
	std::vector<ROChannel*> again; m->GetROChannels("BPM.B.X", again); sx_close(again[0]->Read(), v[0] + (fx ? ox : 0), T, "another channel of the same BPM");
}
struct V : RWChannel { double v; V(double x) : v(x) {} std::string GetID() const { return "V"; } double Read() const { return v; } void Write(double x) { v = x; } };
struct FB
{
	std::vector<V*> s, a; std::vector<ROChannel*> ro; std::vector<RWChannel*> rw; RealMatrix M; double S[3], A[2]; int ns, na; LinearFBSystem* f; double Mi[2][3];
	FB(int kind, bool arrays) : M(kind == 1 ? 3 : kind == 2 ? 1 : 2, 2)
	{
		ns = kind == 1 ? 3 : kind == 2 ? 1 : 2; na = 2; static const double m[4][3][2] = {{{2, 1}, {0, 4}}, {{1, 0}, {1, 1}, {0, 2}}, {{3, 4}}, {{1, 2}, {2, 4}}}; for(int i = 0; i < ns; i++) for(int j = 0; j < na; j++) M(i, j) = m[kind][i][j];
		// pseudo-inverses worked out by hand
		static const double inv[4][2][3] = {{{0.5, -0.125}, {0, 0.25}}, {{5. / 9, 4. / 9, -2. / 9}, {-1. / 9, 1. / 9, 4. / 9}}, {{0.12}, {0.16}}, {{0.04, 0.08}, {0.08, 0.16}}}; for(int j = 0; j < 2; j++) for(int i = 0; i < ns; i++) Mi[j][i] = inv[kind][j][i];
		for(int i = 0; i < ns; i++) { S[i] = sx_double(sx_n("S", i).c_str(), -1, 1); s.push_back(new V(S[i])); ro.push_back(s[i]); } for(int j = 0; j < na; j++) { A[j] = sx_double(sx_n("A", j).c_str(), -1, 1); a.push_back(new V(A[j])); rw.push_back(a[j]); }
		if(arrays) { ROChannelArray x(ro); RWChannelArray y(rw); f = new LinearFBSystem(x, y, M); } else f = new LinearFBSystem(ro, rw, M);
	}
};
SX_HARNESS(feedback, "one correction for square, over- and underdetermined and singular responses")
{
	int kind = sx_choose("response", 0, 3); FB F(kind, sx_bool("arrays")); double g = 1, S0[3] = {0, 0, 0}; sx_assert(F.f->GetNumSignals() == F.ns && F.f->GetNumActuators() == F.na, "numbers of channels");
	if(sx_bool("gain")) { g = sx_double("g", -1, 1); F.f->SetGain(g); } sx_close(F.f->GetGain(), g, T, "gain"); int sp = sx_choose("setpoints", 0, 2); if(sp == 1) { RealVector v(F.ns); for(int i = 0; i < F.ns; i++) v[i] = S0[i] = 0.25 * (i + 1); F.f->SetSetpoints(v); } if(sp == 2) { F.f->SignalsToSetpoints(); for(int i = 0; i < F.ns; i++) { S0[i] = F.S[i]; F.S[i] = 0.5 - 0.25 * i; F.s[i]->v = F.S[i]; } }
	double r = 0, ra = 0; for(int i = 0; i < F.ns; i++) r += (F.S[i] - S0[i]) * (F.S[i] - S0[i]); for(int j = 0; j < 2; j++) ra += F.A[j] * F.A[j]; double rms = F.f->GetSignalRMS(), rmsa = F.f->GetActuatorRMS(); sx_close(rms * rms, r / F.ns, T, "rms deviation of the signals"); sx_close(rmsa * rmsa, ra / 2, T, "rms of the actuators");
	F.f->StoreActuators(); F.f->Apply(); for(int j = 0; j < 2; j++) { double d = 0; for(int i = 0; i < F.ns; i++) d += F.Mi[j][i] * (F.S[i] - S0[i]); sx_close(F.a[j]->v, F.A[j] - g * d, 1e-7, "corrected by the pseudo-inverse"); } for(int i = 0; i < F.ns; i++) sx_close(F.s[i]->v, F.S[i], T, "signals are not changed"); F.f->RestoreActuators(); for(int j = 0; j < 2; j++) sx_close(F.a[j]->v, F.A[j], T, "actuators restored");
}
SX_HARNESS(delay, "corrections delayed by any number of pulses")
{
	FB F(0, false); int n = sx_choose("delay", 1, 3); F.f->SetPulseDelay(n); double g = 0.5; F.f->SetGain(g); if(sx_bool("reset")) { F.f->SetPulseDelay(2); n = 2; } double q[8][2]; 
	for(int k = 0; k < 4; k++)
	{
		for(int j = 0; j < 2; j++) { double d = 0; for(int i = 0; i < 2; i++) d += F.Mi[j][i] * F.s[i]->v; q[k][j] = F.a[j]->v - g * d; }
		F.f->Apply(); for(int j = 0; j < 2; j++) sx_close(F.a[j]->v, k - (n - 1) >= 0 ? q[k - (n - 1)][j] : F.A[j], 1e-7, "the correction of n-1 pulses before arrives"); F.s[0]->v = 0.125 * k;
	}
}
