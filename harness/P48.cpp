// P48: aperture tables and collimator databases give each element the aperture they describe
//@ time: *=25 pipe2=40
//@ exclude: LatticeFunctions.cpp RandomNG.cpp
#include "hx.h"
#include <cstdlib>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <iostream>
#include <memory>
#include <vector>
#include <unistd.h>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "Aperture.h"
#include "ApertureConfiguration.h"
#include "CollimatorAperture.h"
#include "CollimatorDatabase.h"
#include "LatticeFunctions.h"
#include "MaterialData.h"
#include "MaterialProperties.h"
#include "RandomNG.h"
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
struct File { std::string n; File(const std::string& s) { char b[] = "/tmp/sxapXXXXXX"; int f = mkstemp(b); if(f >= 0) close(f); n = b; std::ofstream(n) << s; } ~File() { std::remove(n.c_str()); } };
static const char* TYPE[] = {"CIRCLE", "ELLIPSE", "RECTELLIPSE"};
struct Ap { int type; double v[4]; };
static const Ap APS[] = {{0, {0.3}}, {0, {0.5}}, {0, {0.2}}, {1, {0.3, 0.5}}, {1, {0.45, 0.2}}, {1, {0.4, 0.3}}, {2, {0.3, 0.4, 0.45, 0.5}}, {2, {0.5, 0.2, 0.55, 0.25}}, {2, {0.4, 0.35, 0.5, 0.4}}};
static Ap full(Ap a) { if(a.type == 0) a.v[1] = a.v[2] = a.v[3] = a.v[0]; if(a.type == 1) { a.v[2] = a.v[0]; a.v[3] = a.v[1]; } return a; }
struct El { bool drift, listed; double L, pos; Ap a; };
struct Lat { std::vector<El> e; double C; };
// the aperture at a place: that listed, or interpolated between the nearest listed ends around the ring
static void dims(const Lat& l, int i, double z, double* w)
{
	int n = l.e.size(); if(l.e[i].listed) { Ap a = full(l.e[i].a); for(int k = 0; k < 4; k++) w[k] = a.v[k]; return; }
	double back = 0, fwd = l.e[i].L; int p = (i + n - 1) % n, q = (i + 1) % n; while(!l.e[p].listed) { back += l.e[p].L; p = (p + n - 1) % n; } while(!l.e[q].listed) { fwd += l.e[q].L; q = (q + 1) % n; }
	Ap a = full(l.e[p].a), b = full(l.e[q].a); for(int k = 0; k < 4; k++) w[k] = a.v[k] + (b.v[k] - a.v[k]) * (z + back) / (back + fwd);
}
static std::string table(const Lat& l) { std::ostringstream s; s << "* NAME S L APER_1 APER_2 APER_3 APER_4 APERTYPE\n$ %s %le %le %le %le %le %le %s\n"; for(size_t i = 0; i < l.e.size(); i++) { const El& e = l.e[i]; int n = e.a.type == 0 ? 1 : e.a.type == 1 ? 2 : 4; s << " E" << i << " " << e.pos + e.L << " " << e.L; for(int k = 0; k < 4; k++) s << " " << (e.listed && k < n ? e.a.v[k] : 0); s << " \"" << TYPE[e.a.type] << "\"\n"; } return s.str(); }
static AcceleratorModel* build(const Lat& l, std::vector<AcceleratorComponent*>& c, int own = -1, Aperture* ap = nullptr)
{
	AcceleratorModelConstructor m; m.NewModel(); for(size_t i = 0; i < l.e.size(); i++) { const El& e = l.e[i]; std::string n = "E" + std::to_string(i); AcceleratorComponent* a = e.drift ? (AcceleratorComponent*) new Drift(n, e.L) : new Quadrupole(n, e.L, 0.1); a->SetComponentLatticePosition(e.pos); if((int) i == own) a->SetAperture(ap); m.AppendComponent(a); c.push_back(a); } return m.GetModel();
}
// patterns: Q quadrupole listed, D drift not listed, L drift listed
static const char* PAT[] = {"QDDQ", "DQD", "DQDQD", "QDQDQ", "DQDD", "QD", "DQDQ", "QLD", "LDQD", "QLDQ"};
static Lat lattice(int pat, int kind, bool equal) { static const double LEN[] = {1.5, 0.5, 1, 0.75, 2}; Lat l; l.C = 0; int m = 0; for(int i = 0; PAT[pat][i]; i++) { char t = PAT[pat][i]; El e; e.drift = t != 'Q'; e.listed = t != 'D'; e.L = LEN[i]; e.pos = l.C; l.C += e.L; int k = e.listed ? m++ : 0; e.a = APS[kind == 3 ? (k * 4) % 9 : kind * 3 + (equal ? 0 : k % 3)]; l.e.push_back(e); } return l; }
static void pipe(int lo, int hi)
{
	Quiet q; int kind = sx_choose("kind", 0, 3); Lat l = lattice(sx_choose("pattern", lo, hi), kind, kind == 0 && sx_bool("equal")); int i = sx_choose("element", 0, 4); if(i >= (int) l.e.size()) return;
	File f(table(l)); std::vector<AcceleratorComponent*> c; std::unique_ptr<AcceleratorModel> M(build(l, c)); ApertureConfiguration a(f.n); a.ConfigureElementApertures(M.get());
	Aperture* p = c[i]->GetAperture(); sx_assert(p != nullptr, "every element has an aperture"); if(!p) return;
	double z = sx_double("z", 0.001, 0.999) * l.e[i].L, w[4]; dims(l, i, z, w); static const double D[3][2] = {{1, 0}, {0, -1}, {-0.6, 0.8}}; int d = sx_choose("direction", 0, 2); double r = sx_double("r", 0, 1), x = r * D[d][0], y = r * D[d][1], ax = std::fabs(x), ay = std::fabs(y);
	bool in = p->CheckWithinApertureBoundaries(x, y, z); double A = w[2] * w[2] * w[3] * w[3], E = ax * ax * w[3] * w[3] + ay * ay * w[2] * w[2];
	sx_implies((ax < w[0] - 1e-6) & (ay < w[1] - 1e-6) & (E < A * (1 - 1e-5)), in, "inside the aperture of the table"); sx_implies((ax > w[0] + 1e-6) | (ay > w[1] + 1e-6) | (E > A * (1 + 1e-5)), !in, "outside the aperture of the table");
}
SX_HARNESS(pipe1, "lattices of drifts and listed elements: aperture at any place of any element") { pipe(0, 1); }
SX_HARNESS(pipe2, "lattices of drifts and listed elements: aperture at any place of any element") { pipe(2, 3); }
SX_HARNESS(pipe3, "lattices of drifts and listed elements: aperture at any place of any element") { pipe(4, 5); }
SX_HARNESS(pipe4, "lattices of drifts and listed elements: aperture at any place of any element") { pipe(6, 7); }
SX_HARNESS(pipe5, "lattices of drifts and listed elements: aperture at any place of any element") { pipe(8, 9); }
SX_HARNESS(single, "a drift between two magnets whose apertures are of one type and differ in one parameter only")
{
	Quiet q; int t = sx_choose("type", 1, 2), par = sx_choose("parameter", 0, t == 1 ? 1 : 3); Lat l = lattice(0, t, true); double& v = l.e[3].a.v[par]; v *= sx_bool("smaller") ? 0.6 : 1.3; File f(table(l)); std::vector<AcceleratorComponent*> c; std::unique_ptr<AcceleratorModel> M(build(l, c)); ApertureConfiguration a(f.n); a.ConfigureElementApertures(M.get());
	int i = sx_choose("element", 1, 2), d = sx_choose("direction", 0, 2); double z = (i == 1 ? 0.25 : 0.75) * l.e[i].L, w[4]; dims(l, i, z, w); static const double D[3][2] = {{1, 0}, {0, -1}, {-0.6, 0.8}}; double r = sx_double("r", 0, 1), x = r * D[d][0], y = r * D[d][1], ax = std::fabs(x), ay = std::fabs(y); bool in = c[i]->GetAperture()->CheckWithinApertureBoundaries(x, y, z); double A = w[2] * w[2] * w[3] * w[3], E = ax * ax * w[3] * w[3] + ay * ay * w[2] * w[2];
	sx_implies((ax < w[0] - 1e-6) & (ay < w[1] - 1e-6) & (E < A * (1 - 1e-5)), in, "inside the aperture of the table"); sx_implies((ax > w[0] + 1e-6) | (ay > w[1] + 1e-6) | (E > A * (1 + 1e-5)), !in, "outside the aperture of the table");
}
SX_HARNESS(neighbours, "listed magnets next to each other")
{
	Quiet q; Lat l; l.C = 0; for(int i = 0; i < 3; i++) { El e; e.drift = false; e.listed = true; e.L = 1; e.pos = i; e.a = APS[i]; l.e.push_back(e); l.C += 1; } int i = sx_choose("element", 0, 2); File f(table(l)); std::vector<AcceleratorComponent*> c; std::unique_ptr<AcceleratorModel> M(build(l, c)); ApertureConfiguration a(f.n); a.ConfigureElementApertures(M.get());
	double x = sx_double("x", 0, 1), w = APS[i].v[0]; sx_assume(beyond(x - w, 0.01)); sx_assert(c[i]->GetAperture()->CheckWithinApertureBoundaries(x, 0, 0.5) == (x < w), "magnets next to each other have their own apertures");
}
SX_HARNESS(entries, "entries of the table: beginning and end of each listed element, any sizes")
{
	Quiet q; int k = sx_choose("kind", 0, 2); Lat l = lattice(sx_choose("pattern", 0, 9), k, false); File f(table(l)); ApertureConfiguration a(f.n); size_t n = 0;
	for(auto& e : l.e) if(e.listed) for(int j = 0; j < 2; j++, n++) { sx_assert(n < a.ApertureDataTable.Length(), "number of entries"); sx_close(a.ApertureDataTable.Get_d("S", n), j ? e.pos + e.L : e.pos, 1e-12, "place of the entry"); static const char* A[] = {"APER_1", "APER_2", "APER_3", "APER_4"}; for(int m = 0; m < 4; m++) sx_close(a.ApertureDataTable.Get_d(A[m], n), e.a.v[m], 1e-12, "size of the entry"); sx_assert(a.ApertureDataTable.Get_s("APERTYPE", n) == TYPE[e.a.type], "type of the entry"); }
	sx_assert(a.ApertureDataTable.Length() == n, "number of entries");
}
SX_HARNESS(sizes, "a drift between two circular magnets of any size, in the middle of a lattice")
{
	Quiet q; Lat l = lattice(3, 0, false); File f(table(l)); std::vector<AcceleratorComponent*> c; std::unique_ptr<AcceleratorModel> M(build(l, c)); ApertureConfiguration a(f.n); double R[3]; for(int i = 0; i < 3; i++) { R[i] = sx_double(sx_n("R", i).c_str(), 0.1, 0.9); for(int j = 0; j < 2; j++) a.ApertureDataTable.Set_d("APER_1", 2 * i + j, R[i]); } a.ConfigureElementApertures(M.get());
	int i = sx_choose("element", 0, 4); double t = 0.25 * sx_choose("z", 1, 3), r = i & 1 ? R[i / 2] + (R[i / 2 + 1] - R[i / 2]) * t : R[i / 2], x = sx_double("x", 0, 1); sx_assume(beyond(x - r, 1e-4)); sx_assert(c[i]->GetAperture()->CheckWithinApertureBoundaries(x, 0, t * l.e[i].L) == (x < r), "size at the place");
}
SX_HARNESS(kept, "elements with an aperture keep it, elements without length get none, all can be deleted")
{
	Quiet q; Lat l = lattice(2, 0, false); int own = sx_choose("own", 0, 4), zero = sx_choose("zero", 0, 4); if(zero != own) l.e[zero].L = 0; double s = 0; for(auto& e : l.e) { e.pos = s; s += e.L; } double R = sx_double("R", 0.1, 0.9); Aperture* ap = new CircularAperture(R); std::vector<AcceleratorComponent*> c; std::unique_ptr<AcceleratorModel> M(build(l, c, own, ap)); Lat u = lattice(2, 0, false); File f(table(u)); ApertureConfiguration a(f.n); a.ConfigureElementApertures(M.get());
	for(int i = 0; i < 5; i++) if(i == own) sx_assert(c[i]->GetAperture() == ap, "an aperture is kept"); else sx_assert((c[i]->GetAperture() == nullptr) == (i == zero), "elements with length have apertures");
	double x = sx_double("x", 0, 1); sx_assert(ap->CheckWithinApertureBoundaries(x, 0, 0.1) == (x < R) || !beyond(x - R, 1e-6), "an aperture is kept as it was");
	a.DeleteAllApertures(M.get()); for(int i = 0; i < 5; i++) sx_assert(c[i]->GetAperture() == nullptr, "apertures are deleted");
}
// ---- collimators. The lattice functions are given: row, columns 000 (s), 111, 332 (beta), 100, 300 (orbit)
static const int NROW = 5; static double TW[NROW][5];
LatticeFunctionTable::LatticeFunctionTable(AcceleratorModel*, double) {}
LatticeFunctionTable::~LatticeFunctionTable() {}
double LatticeFunctionTable::Value(int i, int j, int k, int n) { sx_assert(n >= 0 && n < NROW, "a row of the table"); int c = i == 0 ? 0 : i == 1 && j == 1 ? 1 : i == 3 && j == 3 ? 2 : i == 1 && j == 0 ? 3 : i == 3 && j == 0 ? 4 : -1; sx_assert(c >= 0, "a column of the table"); return TW[n][c]; }
int LatticeFunctionTable::NumberOfRows() { return NROW; }
// ---- random numbers: n-th number of a standard normal distribution
static double Z[8]; static int nz; static double lastcut;
double RandomNG::normal(double m, double v) { return m + std::sqrt(v) * Z[nz++ % 8]; }
double RandomNG::normal(double m, double v, double c) { lastcut = c; return m + std::sqrt(v) * Z[nz++ % 8]; }
double RandomNG::uniform(double a, double b) { return (a + b) / 2; }
struct Ring { AcceleratorModel* m; Collimator* c[2]; Drift* d; MaterialData db; Ring() { AcceleratorModelConstructor k; k.NewModel(); d = new Drift("D", 1); c[0] = new Collimator("TCP", 0.6); c[1] = new Collimator("TCS", 1); d->SetComponentLatticePosition(0); c[0]->SetComponentLatticePosition(1); c[1]->SetComponentLatticePosition(1.6); k.AppendComponent(*d); k.AppendComponent(*c[0]); k.AppendComponent(*c[1]); m = k.GetModel(); db.property["Cu"] = new MaterialProperties(63.5, 0.2, 0.8, 0.2, 0.01, 8.9, 12, 15); db.property["C"] = new MaterialProperties(12, 0.2, 0.3, 0.1, 0.01, 2.2, 42, 86); } ~Ring() { delete m; } };
static void twiss() { static const double S[NROW] = {0, 1, 1.6, 2.6, 2.6}; for(int i = 0; i < NROW; i++) { TW[i][0] = S[i]; TW[i][1] = 50 + 10 * i; TW[i][2] = 90 - 8 * i; TW[i][3] = 1e-4 * i; TW[i][4] = -2e-4 * i; } }
static const double EX = 4e-9, EY = 3e-9;
// jaw frame coordinates of a point relative to a centre
static void jaw(double x, double y, double xo, double yo, double t, double& u, double& v) { double c = std::cos(t), s = std::sin(t); u = (x - xo) * c + (y - yo) * s; v = -(x - xo) * s + (y - yo) * c; }
static double sig(int row, double t) { double c = std::cos(t), s = std::sin(t); return std::sqrt(TW[row][1] * EX * c * c + TW[row][2] * EY * s * s); }
static const double TILT[] = {0, 0.5, -0.7, 1.5707963267948966};
SX_HARNESS(matched, "sigma database: jaws follow the envelope and the orbit, any orbit, place and particle")
{
	Quiet q; Ring r; twiss(); int k = sx_choose("collimator", 0, 1), T = sx_choose("tilt", 0, 3); double n[2] = {k ? 8. : 5.7, 12}; static const char* TS[] = {"0", "0.5", "-0.7", "1.5707963267948966"}; bool first = sx_bool("first"), other = first;
	std::ostringstream o; std::string me = std::string(k ? "TCS " : "TCP ") + (n[0] == 8. ? "8" : "5.7") + " 12 " + TS[T] + " Cu\n", rest = std::string("NONE 3 3 0 C\n") + (other ? k ? "TCP 6 9 0.1 C\n" : "TCS 6 9 0.1 C\n" : ""); File f(first ? me + rest : rest + me);
	int e = 1 + k; TW[e][3] = sx_double("xo", -1e-3, 1e-3); TW[e][4] = sx_double("yo", -1e-3, 1e-3); CollimatorDatabase cd(f.n, &r.db, true); LatticeFunctionTable t(r.m, 1); sx_assert(cd.number_collimators == (other ? 3u : 2u), "collimators in the database"); cd.ConfigureCollimators(r.m, EX, EY, &t);
	sx_assert(r.c[k]->GetMaterialProperties() == r.db.property["Cu"], "material of the jaws"); sx_assert(r.d->GetAperture() == nullptr, "other elements are left alone"); sx_assert((r.c[1 - k]->GetAperture() != nullptr) == other && (!other || r.c[1 - k]->GetMaterialProperties() == r.db.property["C"]), "collimators not in the database are left alone");
	Aperture* a = r.c[k]->GetAperture(); sx_assert(a != nullptr, "a collimator of the database has an aperture"); if(!a) return; double L = k ? 1 : 0.6, z = sx_choose("z", 0, 2) * 0.5, s0 = sig(e, TILT[T]), s1 = sig(e + 1, TILT[T]), s = s0 + (s1 - s0) * z, u, v, x = sx_double("x", -0.02, 0.02), y = sx_double("y", -0.02, 0.02);
	jaw(x, y, TW[e][3] + (TW[e + 1][3] - TW[e][3]) * z, TW[e][4] + (TW[e + 1][4] - TW[e][4]) * z, TILT[T], u, v); sx_assume(beyond(std::fabs(u) - n[0] * s, 1e-6) & beyond(std::fabs(v) - n[1] * s, 1e-6)); sx_assert(a->CheckWithinApertureBoundaries(x, y, z * L) == (within(u, n[0] * s) & within(v, n[1] * s)), "open to the number of sigmas");
}
SX_HARNESS(parallel, "sigma database without matching: parallel jaws outside the envelope at both ends")
{
	Quiet q; Ring r; twiss(); int k = sx_choose("collimator", 0, 1), e = 1 + k; bool tilted = sx_bool("tilted"); File f(std::string(k ? "TCS" : "TCP") + (tilted ? " 6 12 0.5 Cu\n" : " 6 12 0 Cu\n")); double T = tilted ? 0.5 : 0; TW[e][3] = sx_double("xo", -1e-3, 1e-3); TW[e][4] = sx_double("yo", -1e-3, 1e-3); if(tilted) { TW[e + 1][3] = TW[e][3]; TW[e + 1][4] = TW[e][4]; } else { TW[e + 1][3] = sx_double("xe", -1e-3, 1e-3); TW[e + 1][4] = sx_double("ye", -1e-3, 1e-3); } if(sx_bool("grows")) TW[e + 1][1] = 300;
	CollimatorDatabase cd(f.n, &r.db, true); cd.MatchBeamEnvelope(false); LatticeFunctionTable t(r.m, 1); cd.ConfigureCollimators(r.m, EX, EY, &t); Aperture* a = r.c[k]->GetAperture(); sx_assert(a != nullptr, "a collimator of the database has an aperture"); if(!a) return;
	double s0 = sig(e, T), s1 = sig(e + 1, T), z = sx_bool("end") ? r.c[k]->GetLength() : 0, x = sx_double("x", -0.02, 0.02), y = sx_double("y", -0.02, 0.02); bool in = a->CheckWithinApertureBoundaries(x, y, z), want; double tol = 1e-6;
	if(tilted) { double u, v, s = std::max(s0, s1); jaw(x, y, TW[e][3], TW[e][4], T, u, v); sx_assume(beyond(std::fabs(u) - 6 * s, tol) & beyond(std::fabs(v) - 12 * s, tol)); want = within(u, 6 * s) & within(v, 12 * s); }
	else { double d[4]; for(int i = 0; i < 2; i++) { double o0 = TW[e][3 + i], o1 = TW[e + 1][3 + i], g = i ? 12 : 6; d[2 * i] = std::max(o0 + g * s0, o1 + g * s1); d[2 * i + 1] = std::min(o0 - g * s0, o1 - g * s1); } sx_assume(beyond(x - d[0], tol) & beyond(x - d[1], tol) & beyond(y - d[2], tol) & beyond(y - d[3], tol)); want = (x < d[0]) & (x > d[1]) & (y < d[2]) & (y > d[3]); }
	sx_assert(in == want, "parallel jaws outside the envelope");
}
SX_HARNESS(errors, "jaw alignment errors: offsets and angles of each jaw have the rms asked for")
{
	Quiet q; Ring r; twiss(); TW[2][1] = TW[1][1]; TW[2][2] = TW[1][2]; TW[2][3] = TW[1][3]; TW[2][4] = TW[1][4]; File f("TCP 6 12 0 Cu\n"); double pos = sx_double("position rms", 1e-6, 1e-3), ang = sx_bool("angle") ? sx_double("angle rms", 1e-6, 1e-3) : 0; for(int i = 0; i < 8; i++) Z[i] = 0; nz = 0; int w = sx_choose("which", 0, 3); Z[w] = sx_bool("neg") ? -1.5 : 2;
	CollimatorDatabase cd(f.n, &r.db, true); cd.MatchBeamEnvelope(false); cd.EnableJawAlignmentErrors(true); cd.SetJawPositionError(pos); cd.SetJawAngleError(ang); LatticeFunctionTable t(r.m, 1); cd.ConfigureCollimators(r.m, EX, EY, &t); Aperture* a = r.c[0]->GetAperture(); sx_assert(a != nullptr, "a collimator of the database has an aperture"); if(!a) return; sx_assert(nz == 5 && lastcut == 3, "errors drawn within three sigma");
	double zf = sx_choose("z", 0, 2) * 0.5, s = sig(1, 0), d1 = 0, d2 = 0; double dz = w & 1 ? ang * 0.6 * zf * Z[w] : pos * Z[w]; (w < 2 ? d1 : d2) = dz; double x = sx_double("x", -0.02, 0.02), hi = TW[1][3] + 6 * s + d1, lo = TW[1][3] - 6 * s + d2; sx_assume(beyond(x - hi, 1e-6) & beyond(x - lo, 1e-6)); sx_assert(a->CheckWithinApertureBoundaries(x, TW[1][4], zf * 0.6) == ((x < hi) & (x > lo)), "jaws displaced by the errors");
}
SX_HARNESS(gaps, "gap database: full gaps in the tilted frame, centred")
{
	Quiet q; Ring r; int k = sx_choose("collimator", 0, 1), T = sx_choose("tilt", 0, 3); static const char* TS[] = {"0", "0.5", "-0.7", "1.5707963267948966"}; File f(std::string(k ? "TCS" : "TCP") + " 0.004 0.02 " + TS[T] + " 0.001 0.002 0.1 0.2 0.6 C\nNONE 1 1 0 0 0 0 0 1 Cu\n"); CollimatorDatabase cd(f.n, &r.db, false); sx_assert(cd.number_collimators == 2, "collimators in the database"); cd.ConfigureCollimators(r.m);
	sx_assert(r.c[1 - k]->GetAperture() == nullptr && r.d->GetAperture() == nullptr, "others are left alone"); sx_assert(r.c[k]->GetMaterialProperties() == r.db.property["C"], "material of the jaws"); Aperture* a = r.c[k]->GetAperture(); sx_assert(a != nullptr, "a collimator of the database has an aperture"); if(!a) return;
	double x = sx_double("x", -0.02, 0.02), y = sx_double("y", -0.02, 0.02), z = sx_choose("z", 0, 2) * 0.5 * r.c[k]->GetLength(), u, v; jaw(x, y, 0, 0, TILT[T], u, v); sx_assume(beyond(std::fabs(u) - 0.002, 1e-6) & beyond(std::fabs(v) - 0.01, 1e-6)); sx_assert(a->CheckWithinApertureBoundaries(x, y, z) == (within(u, 0.002) & within(v, 0.01)), "open by the gaps");
}
SX_HARNESS(impact, "impact factor: number of sigmas at which a halo hits the primary collimator at the depth asked for")
{
	Quiet q; Ring r; twiss(); File f("TCP 6 12 0.5 Cu\nTCS 7 12 0 C\n"); CollimatorDatabase cd(f.n, &r.db, true); LatticeFunctionTable t(r.m, 1); bool on = sx_bool("on"), second = sx_bool("second"); double b = sx_double("impact", 1e-7, 1e-3); if(on) cd.SelectImpactFactor(second ? "TCS" : "TCP", b); double v = cd.ConfigureCollimators(r.m, EX, EY, &t), s = second ? sig(2, 0) : sig(1, 0.5); sx_close(v, on ? ((second ? 7 : 6) * s + b) / s : 1, 1e-6, "impact in sigmas");
}
