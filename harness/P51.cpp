// P51: accelerator models from MAD tables
//@ time: *=40
#include "hx.h"
#include <memory>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <unistd.h>
#include "MADInterface.h"
#include "Components.h"
#include "TransverseRFStructure.h"
#include "SequenceFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "DataTable.h"
#include "MerlinIO.h"
static const double T = 1e-8, c0 = 2.99792458e+08, twopi = 6.283185307179586;
typedef std::vector<AcceleratorComponent*> VC;
static const char* NUM[] = {"L", "ANGLE", "K0L", "K1L", "K2L", "K3L", "K4L", "KS", "TILT", "E1", "E2", "HKICK", "VKICK", "FREQ", "LAG", "VOLT", "MUX", "MUY"};
// one row table, all numbers zero
static std::unique_ptr<DataTable> row(const char* key, const char* name, bool angle = true)
{
	std::unique_ptr<DataTable> d(new DataTable); d->AddColumn("NAME", 's'); d->AddColumn("KEYWORD", 's'); for(auto n : NUM) if(angle || std::string(n) != "ANGLE") d->AddColumn(n, 'd');
	d->AddRow(); d->Set_s("NAME", 0, name); d->Set_s("KEYWORD", 0, key); for(auto n : NUM) if(angle || std::string(n) != "ANGLE") d->Set_d(n, 0, 0.0); return d;
}
static VC get(DataTable& d, double brho) { TypeFactory f; DataTableRow r(&d, 0); return f.GetInstance(r, brho); }
template<class E> static E* one(const VC& v, const char* type, double L) { sx_assert(v.size() == 1, "one component"); E* e = dynamic_cast<E*>(v[0]); sx_assert(e != nullptr, "class of the component"); sx_assert(e->GetType() == type, "type of the component"); sx_assert(e->GetName() == "ELM", "name of the component"); sx_close(e->GetLength(), L, T, "length of the component"); return e; }
static double sym(const char* n, double lim) { double v = sx_double(n, -lim, lim); sx_assume(beyond(v, 1e-4)); return v; }
SX_HARNESS(multipoles, "quadrupoles, sextupoles, octupoles normal and skew: length [0.1,5], any strength and rigidity")
{
	static const char* key[] = {"QUADRUPOLE", "SKEWQUAD", "SEXTUPOLE", "SKEWSEXT", "OCTUPOLE"}; static const char* type[] = {"Quadrupole", "SkewQuadrupole", "Sextupole", "SkewSextupole", "Octupole"}; static const char* col[] = {"K1L", "K1L", "K2L", "K2L", "K3L"}; static const int pole[] = {1, 1, 2, 2, 3};
	int k = sx_choose("kind", 0, 4); double L = sx_double("L", 0.1, 5), s = sx_double("strength", -2, 2), brho = sx_double("brho", 1, 100); auto d = row(key[k], "ELM"); d->Set_d("L", 0, L); d->Set_d(col[k], 0, s); VC v = get(*d, brho);
	RectMultipole* m = one<RectMultipole>(v, type[k], L); sx_assert(m->GetPrimaryPoleNo() == pole[k], "pole number"); bool skew = k == 1 || k == 3; static const double fact[] = {1, 1, 2, 6}; Vector3D B = m->GetField().GetBFieldAt(Point3D(1, 0, 0)); sx_close((skew ? B.x : B.y) * L * fact[pole[k]], brho * s, 1e-6, "integrated strength"); sx_close(skew ? B.y : B.x, 0, 1e-6, "normal or skew");
}
SX_HARNESS(bends, "sector and rectangular bends: any angle, gradient, pole face angles, tilt")
{
	int kind = sx_choose("kind", 0, 2); static const double ls[] = {0.5, 2, 3.25}; double L = ls[sx_choose("length", 0, 2)], a = sym("angle", 0.5), brho = sx_double("brho", 1, 100), k1 = sx_bool("gradient") ? sym("k1", 1) : 0, e1 = sx_bool("entrance") ? sym("e1", 0.3) : 0, e2 = sx_bool("exit") ? sym("e2", 0.3) : 0, tilt = sx_bool("tilted") ? sym("tilt", 1) : 0;
	auto d = row(kind == 0 ? "RBEND" : "SBEND", "ELM", kind < 2); d->Set_d("L", 0, L); d->Set_d(kind == 2 ? "K0L" : "ANGLE", 0, a); d->Set_d("K1L", 0, k1); d->Set_d("E1", 0, e1); d->Set_d("E2", 0, e2); d->Set_d("TILT", 0, tilt); VC v = get(*d, brho); SectorBend* b = one<SectorBend>(v, "SectorBend", L);
	sx_close(b->GetGeometry().GetCurvature() * L, a, T, "angle of the bend"); sx_close(b->GetB0() * L, brho * a, 1e-6, "field of the bend"); sx_close(b->GetB1() * L, brho * k1, 1e-6, "gradient of the bend"); sx_close(b->GetGeometry().GetTilt(), tilt, T, "tilt of the bend"); auto& p = b->GetPoleFaceInfo(); sx_close(p.entrance ? p.entrance->rot : 0, e1, T, "entrance pole face"); sx_close(p.exit ? p.exit->rot : 0, e2, T, "exit pole face");
}
SX_HARNESS(correctors, "correctors and kickers: any kick, length [0.1,3] or 0; the kick has the sign of MAD")
{
	int k = sx_choose("kind", 0, 3); static const char* key[] = {"XCOR", "YCOR", "HKICKER", "VKICKER"}; double L = k > 1 && sx_bool("thin") ? 0 : sx_double("L", 0.1, 3), h = sx_double("hkick", -0.01, 0.01), vk = sx_double("vkick", -0.01, 0.01), brho = sx_double("brho", 1, 100); auto d = row(key[k], "ELM"); d->Set_d("L", 0, L); d->Set_d("HKICK", 0, h); d->Set_d("VKICK", 0, vk); VC v = get(*d, brho); bool y = k & 1;
	RectMultipole* m = one<RectMultipole>(v, y ? "YCor" : "XCor", L); double K = k < 2 ? 0 : y ? vk : -h; sx_close(m->GetFieldStrength() * (L == 0 ? 1 : L), brho * K, 1e-6, "integrated field"); sx_assert(m->GetPrimaryPoleNo() == 0, "dipole"); sx_assert(dynamic_cast<XCor*>(v[0]) != nullptr ? !y : y, "plane");
}
SX_HARNESS(cavities, "cavities of 1 to 12 half waves, any voltage and lag, also as a single cell with a drift; crab cavities")
{
	double f = 100 * sx_choose("frequency", 4, 6), half = c0 / (f * 1e6) / 2, V = sx_double("volt", -20, 20), lag = sx_double("lag", -1, 1); int n = sx_choose("cells", 1, 12); double L = n * half * (1 + 0.0001 * sx_choose("off", -1, 1)); int k = sx_choose("kind", 0, 2); static const char* key[] = {"RFCAVITY", "RFCAVITY_SingleCell", "CRABRF"}; if(k == 2 && n > 1) return; auto d = row(key[k], "ELM"); d->Set_d("L", 0, L); d->Set_d("FREQ", 0, f); d->Set_d("LAG", 0, lag); d->Set_d("VOLT", 0, V); VC v = get(*d, 10);
	if(k == 2) { TransverseRFStructure* c = one<TransverseRFStructure>(v, "TransverseRFStructure", L); sx_close(c->GetVoltage(), 0, T, "crab cavities are off"); return; }
	if(k == 1) { sx_assert(v.size() == 2, "cavity and drift"); Drift* r = dynamic_cast<Drift*>(v[1]); sx_assert(r != nullptr, "drift after the cell"); sx_close(r->GetLength(), L - half, 1e-6, "length of the drift"); v.pop_back(); n = 1; }
	SWRFStructure* s = one<SWRFStructure>(v, "SWRFStructure", n * half); sx_close(s->GetFrequency() / 1e6, f, 1e-6, "frequency"); sx_close(s->GetVoltage() * L / (k == 1 ? L : n * half) * 1000, V, 1e-6, "voltage"); sx_close(s->GetPhase(), twopi * (lag - 0.25), T, "phase");
}
SX_HARNESS(others, "drifts, solenoids, collimators, lenses, monitors, markers: any length, parameters")
{
	int k = sx_choose("kind", 0, 8); double L = sx_double("L", 0.1, 5), s = sx_double("a", -2, 2), q = sx_double("b", -2, 2); static const char* key[] = {"DRIFT", "SOLENOID", "COLLIMATOR", "HEL", "MONITOR", "MARKER", "CRABMARKER", "DRIFT", "MONITOR"}; auto d = row(key[k], k == 8 ? "WS1" : "ELM"); d->Set_d("L", 0, k == 7 ? 0.0 : L); d->Set_d("KS", 0, s); d->Set_d("MUX", 0, s); d->Set_d("MUY", 0, q); double brho = sx_double("brho", 1, 100); VC v = get(*d, brho);
	switch(k) { case 0: one<Drift>(v, "Drift", L); break; case 1: { Solenoid* m = one<Solenoid>(v, "Solenoid", L); sx_close(m->GetBz() * L, brho * s, 1e-6, "solenoid field"); break; } case 2: one<Collimator>(v, "Collimator", L); break; case 3: one<HollowElectronLens>(v, "HollowElectronLens", L); break; case 4: one<BPM>(v, "BPM", L); break; case 5: one<Marker>(v, "Marker", 0); break; case 6: { CrabMarker* m = one<CrabMarker>(v, "CrabMarker", L); sx_close(m->GetMuX(), s, T, "phase advance"); sx_close(m->GetMuY(), q, T, "phase advance"); break; } case 7: sx_assert(v.empty(), "drifts of no length"); break; default: { sx_assert(v.size() == 1 && v[0]->GetType() == "RMSProfileMonitor" && v[0]->GetName() == "WS1", "wire scanners are profile monitors"); sx_close(v[0]->GetLength(), L, T, "length of the wire scanner"); } }
}
SX_HARNESS(overrides, "types which are treated as another type; the type of multipoles")
{
	static const char* in[] = {"INSTRUMENT", "PLACEHOLDER", "VMONITOR", "HMONITOR", "KICKER", "TKICKER", "MATRIX", "LCAV", "RCOLLIMATOR", "ECOLLIMATOR", "RBEND", "RFCAVITY", "SEXTUPOLE", "QUADRUPOLE", "MONITOR"}; static const char* out[] = {"DRIFT", "DRIFT", "DRIFT", "DRIFT", "DRIFT", "DRIFT", "DRIFT", "RFCAVITY", "COLLIMATOR", "COLLIMATOR", "RBEND", "RFCAVITY", "SEXTUPOLE", "QUADRUPOLE", "MONITOR"};
	int k = sx_choose("type", 0, 14); auto d = row(in[k], "ELM"); DataTableRow r(d.get(), 0); std::istringstream is("x"); MADInterface m(&is, 10); bool single = sx_bool("single cell"); m.SetSingleCellRF(single); bool user = sx_bool("user"); if(user) m.TreatTypeAsDrift("SEXTUPOLE"); std::string e = out[k]; if(e == "RFCAVITY" && single) e = "RFCAVITY_SingleCell"; if(e == "SEXTUPOLE" && user) e = "DRIFT"; m.TypeOverrides(r); sx_assert(r.Get_s("KEYWORD") == e, "type after the overrides");
	static const char* K[] = {"K0L", "K1L", "K2L", "K3L", "K4L"}; static const char* t[] = {"SBEND", "QUADRUPOLE", "SEXTUPOLE", "OCTUPOLE", "DECAPOLE", "DRIFT"}; if(k <= 5) { if(k < 5) r.Set_d(K[k], sym("k", 1)); sx_assert(m.GetMutipoleType(r) == t[k], "type of the multipole"); }
}
static std::string table(const std::vector<std::string>& rows) { std::string s = "@ NAME %05s \"TWISS\"\n*"; s += " NAME KEYWORD"; for(auto n : NUM) s += std::string(" ") + n; s += "\n$ %s %s"; for(size_t i = 0; i < sizeof NUM / sizeof *NUM; i++) s += " %le"; s += "\n"; for(auto& r : rows) s += r + "\n"; return s; }
static std::string line(const char* name, const char* key, const char* L, const char* angle = "0", const char* k1 = "0") { std::string s = std::string(" \"") + name + "\" \"" + key + "\" " + L + " " + angle + " 0 " + k1; for(size_t i = 4; i < sizeof NUM / sizeof *NUM; i++) s += " 0"; return s; }
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
struct Item { const char* name; const char* key; double L; const char* type; };
static const Item ITEM[] = {{"D1", "DRIFT", 0.5, "Drift"}, {"Q1", "QUADRUPOLE", 0.75, "Quadrupole"}, {"I1", "INSTRUMENT", 0.25, "Drift"}, {"C1", "RCOLLIMATOR", 0, ""}, {"M1", "MARKER", 0, "Marker"}, {"Z1", "DRIFT", 0, ""}, {"C2", "RCOLLIMATOR", 1, "Collimator"}, {"B1", "BPMX", 0, ""}, {"E1", "ECOLLIMATOR", 0, "Collimator"}};
static std::string num(double v) { std::ostringstream s; s << v; return s.str(); }
SX_HARNESS(lattices, "tables of three elements out of nine, two momenta: order, types, positions, strengths, lengths")
{
	Quiet q; std::vector<std::string> rows; std::vector<const Item*> want; double P0 = sx_double("P0", 1, 1000); bool ign = sx_bool("ignore markers"); for(int i = 0; i < 3; i++) { const Item& t = ITEM[sx_choose(sx_n("element", i).c_str(), 0, 8)]; if(t.key == std::string("BPMX")) return; rows.push_back(line(t.name, t.key, num(t.L).c_str(), "0", "0.3")); if(*t.type && !(ign && t.key == std::string("MARKER"))) want.push_back(&t); }
	std::istringstream is(table(rows)); MADInterface m(&is, P0); if(ign) m.IgnoreZeroLengthType("MARKER"); std::unique_ptr<AcceleratorModel> M(m.ConstructModel()); AcceleratorModel::Beamline b = M->GetBeamline(); size_t n = 0; double s = 0; for(auto i = b.begin(); i != b.end(); ++i) { sx_assert(n < want.size() && (*i)->IsComponent(), "elements of the lattice"); AcceleratorComponent& c = (*i)->GetComponent(); sx_assert(c.GetType() == want[n]->type && c.GetName() == want[n]->name, "order of the elements"); sx_close(c.GetLength(), want[n]->L, T, "length of the element"); sx_close(c.GetComponentLatticePosition(), s, T, "position of the element"); s += want[n]->L; if(auto* u = dynamic_cast<Quadrupole*>(&c)) sx_close(u->GetFieldStrength() * 0.75 * c0 * 1e-9 / P0, 0.3, 1e-7, "strength of the element"); n++; }
	sx_assert(n == want.size(), "all elements are built"); sx_close(M->GetGlobalFrame().GetGeometryLength(), s, T, "length of the lattice"); sx_close(m.GetMomentum(), P0, T, "momentum kept");
}
SX_HARNESS(radiation, "bends with losses by synchrotron radiation: the rigidity follows the momentum, any momentum")
{
	Quiet q; double P0 = sx_double("P0", 5, 50); bool sr = sx_bool("losses"), rb = sx_bool("rbend"); std::istringstream is(table({line("B1", rb ? "RBEND" : "SBEND", "2", "0.1", sx_bool("gradient") ? "0.3" : "0"), line("Q1", "QUADRUPOLE", "0.5", "0.1", "0.2"), line("B2", "SBEND", "4", "-0.3"), line("Q2", "QUADRUPOLE", "0.5", "0", "0.2")})); MADInterface m(&is, P0); m.ScaleForSynchRad(sr); sx_assert(m.GetSynchRadFlag() == sr, "flag"); std::unique_ptr<AcceleratorModel> M(m.ConstructModel()); AcceleratorModel::Beamline b = M->GetBeamline(); double C = 8.85e-05 / twopi, P1 = sr ? P0 - C * P0 * P0 * P0 * P0 * 0.1 * 0.1 / 2 : P0, P2 = sr ? P1 - C * P1 * P1 * P1 * P1 * 0.3 * 0.3 / 4 : P0; double P[] = {P0, P1, P1, P2}, K[] = {0.1 / 2, 0.2 / 0.5, -0.3 / 4, 0.2 / 0.5}; int n = 0;
	for(auto i = b.begin(); i != b.end(); ++i) { sx_assert(n < 4, "elements"); AcceleratorComponent& c = (*i)->GetComponent(); double B = n & 1 ? static_cast<Quadrupole&>(c).GetFieldStrength() : static_cast<SectorBend&>(c).GetB0(); sx_close(B * c0 * 1e-9, P[n] * K[n], 1e-5, "field of the magnet"); n++; } sx_assert(n == 4, "elements"); sx_close(m.GetMomentum(), P2, 1e-5, "momentum at the end");
}
struct Seen: public FrameTraverser { std::vector<SequenceFrame*> frames; std::vector<std::string> parts; void ActOn(LatticeFrame* f) { if(auto* s = dynamic_cast<SequenceFrame*>(f)) frames.push_back(s); else if(auto* c = dynamic_cast<ComponentFrame*>(f)) if(c->IsComponent()) parts.push_back(c->GetComponent().GetName()); } };
SX_HARNESS(frames, "line constructs become frames unless the lattice is flat; other lines only when asked for")
{
	Quiet q; int pre = sx_choose("prefix", 0, 4); static const char* nm[] = {"F_SEC", "S_SEC", "G_SEC", "M_SEC", "SEC"}; bool flat = sx_bool("flat"), hon = sx_bool("honour"), nest = sx_bool("nested"); std::vector<std::string> r = {line("D1", "DRIFT", "0.5"), line(nm[pre], "LINE", "0"), line("Q1", "QUADRUPOLE", "0.5", "0", "0.2")}; if(nest) { r.push_back(line("F_IN", "LINE", "0")); r.push_back(line("D2", "DRIFT", "0.25")); r.push_back(line("F_IN", "LINE", "0")); } r.push_back(line(nm[pre], "LINE", "0")); r.push_back(line("D3", "DRIFT", "1")); std::istringstream is(table(r)); MADInterface m(&is, 10); m.ConstructFlatLattice(flat); m.HonourMadStructure(hon); std::unique_ptr<AcceleratorModel> M(m.ConstructModel());
	bool out = !flat && (pre < 4 || hon), in = !flat && nest; Seen all; M->GetGlobalFrame().Traverse(all); std::vector<std::string> want = {"D1", "Q1"}; if(nest) want.push_back("D2"); want.push_back("D3"); sx_assert(all.parts == want, "elements of the lattice"); sx_assert(all.frames.size() == (size_t) (1 + out + in), "number of frames"); sx_close(M->GetGlobalFrame().GetGeometryLength(), nest ? 2.25 : 2, T, "length of the lattice");
	for(SequenceFrame* f : all.frames) { Seen u; f->Traverse(u); std::string n = f->GetName(); if(n == "SEC") { sx_assert(u.parts == (nest ? std::vector<std::string>{"Q1", "D2"} : std::vector<std::string>{"Q1"}), "elements of the frame"); sx_assert(u.frames.size() == (size_t) (1 + in), "frames of the frame"); bool s = dynamic_cast<SimpleMount*>(f) != nullptr, g = dynamic_cast<GirderMount*>(f) != nullptr, v = dynamic_cast<MagnetMover*>(f) != nullptr; sx_assert(pre == 1 ? s && !v : pre == 2 ? g : pre == 3 ? v : !s && !g && !v, "kind of the frame"); } else if(n == "IN") sx_assert(u.parts == std::vector<std::string>{"D2"} && !dynamic_cast<SimpleMount*>(f), "elements of the frame"); else sx_assert(n == "GLOBAL", "name of the frame"); }
}
SX_HARNESS(nested, "three levels of lines of any kind, honoured or not")
{
	Quiet q; static const char* nm[] = {"F_L", "G_L", "L"}; bool hon = sx_bool("honour"); int k[3]; std::vector<std::string> r, up; for(int i = 0; i < 3; i++) { k[i] = sx_choose(sx_n("kind", i).c_str(), 0, 2); up.push_back(nm[k[i]] + std::to_string(i)); r.push_back(line(up[i].c_str(), "LINE", "0")); if(i == 1) r.push_back(line("D", "DRIFT", "1")); } r.push_back(line("D", "DRIFT", "1")); for(int i = 2; i >= 0; i--) { r.push_back(line(up[i].c_str(), "LINE", "0")); r.push_back(line("D", "DRIFT", "1")); }
	std::istringstream is(table(r)); MADInterface m(&is, 10); m.HonourMadStructure(hon); std::unique_ptr<AcceleratorModel> M(m.ConstructModel()); Seen all; M->GetGlobalFrame().Traverse(all); static const double len[] = {4, 3, 1}; size_t n = 1; for(int i = 0; i < 3; i++) n += k[i] < 2 || hon; sx_assert(all.frames.size() == n, "number of frames"); for(auto f : all.frames) { if(f->GetName() == "GLOBAL") { sx_close(f->GetGeometryLength(), 5, T, "length of the lattice"); continue; } int i = f->GetName()[1] - '0'; sx_assert(f->GetName().size() == 2 && i >= 0 && i < 3, "name of the frame"); sx_close(f->GetGeometryLength(), len[i], T, "length of the frame"); }
}
SX_HARNESS(singlecells, "single cell cavities in a lattice: any voltage")
{
	Quiet q; bool single = sx_bool("single cell"); double half = c0 / 400e6 / 2; std::istringstream is(table({line("D", "DRIFT", "1"), " \"R\" \"" + std::string(sx_bool("linac") ? "LCAV" : "RFCAVITY") + "\" 1.5 0 0 0 0 0 0 0 0 0 0 0 0 400 0.25 12 0 0", line("M", "MARKER", "0"), line("E", "DRIFT", "2")})); MADInterface m(&is, 10); m.SetSingleCellRF(single); std::unique_ptr<AcceleratorModel> M(m.ConstructModel()); auto b = M->GetBeamline(); double s = 0; int n = 0; for(auto i = b.begin(); i != b.end(); ++i, ++n) { AcceleratorComponent& c = (*i)->GetComponent(); sx_close(c.GetComponentLatticePosition(), s, 1e-6, "position of the element"); s += c.GetLength(); if(c.GetName() == "R") { sx_close(c.GetLength(), single ? half : 4 * half, 1e-6, "length of the cavity"); sx_close(static_cast<SWRFStructure&>(c).GetVoltage(), 0.012, 1e-4, "voltage of the cavity"); } } sx_assert(n == (single ? 5 : 4), "number of elements"); sx_close(s, single ? 4.5 : 3 + 4 * half, 1e-6, "length of the lattice");
}
struct File { std::string n; File(const std::string& s) { char b[] = "/tmp/sxmadXXXXXX"; int f = mkstemp(b); if(f >= 0) close(f); n = b; std::ofstream(n) << s; } ~File() { std::remove(n.c_str()); } };
SX_HARNESS(append, "models of one to three files appended, any momentum for each")
{
	Quiet q; int n = sx_choose("files", 1, 3); std::istringstream none("x"); MADInterface m(&none, 10); double P[3]; for(int i = 0; i < n; i++) { File f(table({line("D", "DRIFT", "0.5"), line("Q", "QUADRUPOLE", "0.5", "0", "0.2"), line("M", "MARKER", "0")})); m.AppendModel(f.n, P[i] = sx_double(sx_n("P", i).c_str(), 1, 100)); }
	std::unique_ptr<AcceleratorModel> M(m.GetModel()); AcceleratorModel::Beamline b = M->GetBeamline(); int k = 0; for(auto i = b.begin(); i != b.end(); ++i, ++k) { sx_assert(k < 3 * n, "elements of all files"); AcceleratorComponent& c = (*i)->GetComponent(); static const char* t[] = {"Drift", "Quadrupole", "Marker"}; sx_assert(c.GetType() == t[k % 3], "order of the elements"); sx_close(c.GetComponentLatticePosition(), k / 3 + 0.5 * (k % 3), T, "position of the element"); if(k % 3 == 1) sx_close(static_cast<Quadrupole&>(c).GetFieldStrength() * c0 * 1e-9, 0.4 * P[k / 3], 1e-7, "momentum of the file"); } sx_assert(k == 3 * n, "elements of all files"); sx_close(M->GetGlobalFrame().GetGeometryLength(), n, T, "length of all files");
	if(n == 1) { std::istringstream is(table({line("D", "DRIFT", "0.25")})); MADInterface u(&is, 10); std::unique_ptr<AcceleratorModel> N(u.ConstructModel()); sx_close(N->GetGlobalFrame().GetGeometryLength(), 0.25, T, "another model"); }
}
