// P16: movers, supports and frame adjustments displace what they carry as told
//@ time: *=25 girder_tilt=35
#include "hx.h"
#include <memory>
#include <vector>
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "Drift.h"
#include "SectorBend.h"
static const double T = 1e-6;
static void samePt(const Point3D& u, const Point3D& v, const char* m, double t = T) { sx_close(u.x, v.x, t, m); sx_close(u.y, v.y, t, m); sx_close(u.z, v.z, t, m); }
static void same(const Transform3D& a, const Transform3D& b, const char* m)
{
	static const Point3D pts[] = {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)};
	for(auto& p : pts) samePt(a(p), b(p), m);
}
// frame operations written out on points: the local coordinates of p
struct Op { int k; double a, b, c; };
static Point3D apply(const Op& o, const Point3D& p)
{
	double c = std::cos(o.a), s = std::sin(o.a);
	switch(o.k)
	{
	case 0: return Point3D(p.x - o.a, p.y - o.b, p.z - o.c);
	case 1: return Point3D(p.x, c * p.y + s * p.z, c * p.z - s * p.y);
	case 2: return Point3D(c * p.x - s * p.z, p.y, c * p.z + s * p.x);
	default: return Point3D(c * p.x + s * p.y, c * p.y - s * p.x, p.z);
	}
}
static Op mk(const char* n, int k)
{
	std::string s(n); Op o = {k, sx_double((s + "a").c_str(), -1, 1), 0, 0};
	if(k == 0) { o.b = sx_double((s + "b").c_str(), -1, 1); o.c = sx_double((s + "c").c_str(), -1, 1); }
	else sx_assume(beyond(o.a, 1e-3));
	return o;
}
static void doIt(Transformable& f, const Op& o) { if(o.k == 0) f.Translate(o.a, o.b, o.c); else if(o.k == 1) f.RotateX(o.a); else if(o.k == 2) f.RotateY(o.a); else f.RotateZ(o.a); }
SX_HARNESS(adjustments, "one or two successive adjustments (any translation, rotations about x, y, z up to 1 rad, each of every kind) of a frame, then clearing")
{
	Drift d("D", 1.0); ComponentFrame f(d);
	sx_assert(!f.IsTransformed(), "a new frame is not displaced");
	int n = sx_choose("n", 1, 2);
	Op o1 = mk("o", sx_choose("k1", 0, 3)), o2 = {0, 0, 0, 0};
	doIt(f, o1); if(o1.k) sx_assert(f.IsTransformed(), "a frame that is turned is displaced");
	if(n == 2) { o2 = mk("q", sx_choose("k2", 0, 3)); doIt(f, o2); }
	Transform3D t = f.GetLocalFrameTransform();
	static const Point3D pts[] = {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)};
	for(auto& p : pts) { Point3D e = apply(o1, p); if(n == 2) e = apply(o2, e); samePt(t(p), e, "successive adjustments act one after the other"); }
	ComponentFrame g(f); same(g.GetLocalFrameTransform(), t, "a copied frame has the same displacement");
	f.ClearTransform();
	sx_assert(!f.IsTransformed(), "cleared frame"); same(f.GetLocalFrameTransform(), Transform3D(), "cleared frame");
	same(g.GetLocalFrameTransform(), t, "the copy is independent of the original");
}
SX_HARNESS(single_axis, "translation along one axis; set, apply and clear of the local frame transform")
{
	Drift d("D", 1.0); ComponentFrame f(d); double v = sx_double("v", -1, 1);
	int k = sx_choose("axis", 0, 3);
	if(k == 0) f.TranslateX(v); else if(k == 1) f.TranslateY(v); else if(k == 2) f.TranslateZ(v); else f.Translate(Vector3D(v, 2 * v, -v));
	Point3D o = f.GetLocalFrameTransform()(Point3D(0, 0, 0));
	samePt(o, k == 0 ? Point3D(-v, 0, 0) : k == 1 ? Point3D(0, -v, 0) : k == 2 ? Point3D(0, 0, -v) : Point3D(-v, -2 * v, v), "translation");
	Transform3D a(Point3D(0.1, 0.2, v), Rotation3D::rotationY(0.3)), b(Point3D(v, 0, 0.2), Rotation3D::rotationX(0.2));
	f.SetLocalFrameTransform(a); same(f.GetLocalFrameTransform(), a, "set replaces the displacement");
	f.ApplyLocalFrameTransform(b); same(f.GetLocalFrameTransform(), b * a, "apply adds to the displacement");
	f.ClearLocalFrameTransform(); same(f.GetLocalFrameTransform(), Transform3D(), "cleared frame");
	f.ApplyLocalFrameTransform(b); same(f.GetLocalFrameTransform(), b, "apply on a clean frame");
}
SX_HARNESS(mover, "a magnet mover with any x, y, roll set in any of 3 orders and re-set, alone and with its own displacement")
{
	MagnetMover m("M"); Drift d("D", 1.0); ComponentFrame f(d); m.AppendFrame(f); m.ConsolidateConstruction();
	double x = sx_double("x", -1, 1), y = sx_double("y", -1, 1), r = sx_double("r", -1, 1); sx_assume(beyond(r, 1e-3));
	int o = sx_choose("order", 0, 2); bool own = sx_bool("own");
	if(own) m.Translate(0.1, -0.2, 0.3);
	if(o == 0) { m.SetX(x); m.SetY(y); m.SetRoll(r); }
	else if(o == 1) { m.SetRoll(r); m.SetY(y); m.SetX(x); }
	else { m.SetX(0.4); m.SetRoll(0.2); m.SetX(x); m.SetY(-0.3); m.SetRoll(r); m.SetY(y); }
	sx_close(m.GetX(), x, 1e-9, "mover x"); sx_close(m.GetY(), y, 1e-9, "mover y"); sx_close(m.GetRoll(), r, 1e-6, "mover roll");
	Transform3D t = m.GetLocalFrameTransform();
	static const Point3D pts[] = {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)};
	for(auto& p : pts)
	{
		Point3D q = own ? Point3D(p.x - 0.1, p.y + 0.2, p.z - 0.3) : p;
		samePt(t(p), apply({3, r, 0, 0}, Point3D(q.x - x, q.y - y, q.z)), "mover displacement");
	}
	m.Reset();
	sx_assert((m.GetX() == 0) & (m.GetY() == 0) & (m.GetRoll() == 0), "reset mover");
	samePt(m.GetLocalFrameTransform()(Point3D(0, 0, 0)), own ? Point3D(-0.1, 0.2, -0.3) : Point3D(0, 0, 0), "reset mover keeps its own displacement");
}
static Vector3D off(const char* n, double s) { std::string b(n); return Vector3D(sx_double((b + "x").c_str(), -s, s), sx_double((b + "y").c_str(), -s, s), sx_double((b + "z").c_str(), -s, s)); }
static void nudge(AcceleratorSupport& s, const Vector3D& X, int how)
{
	if(how == 0) s.SetOffset(X);
	else if(how == 1) { s.SetOffset(0.3, 0.1, -0.2); s.SetOffset(X.x, X.y, X.z); }
	else if(how == 2) { s.SetOffset(0, 0, 0); s.IncrementOffset(0.25, 0.5, -0.5); s.IncrementOffset(Vector3D(X.x - 0.25, X.y - 0.5, X.z + 0.5)); }
	else { s.SetOffset(0.3, 0.1, -0.2); s.Reset(); s.IncrementOffset(X); }
}
struct Arena   // a mount behind a bend
{
	SequenceFrame top; Drift d1; SectorBend b; Drift d2, d3; SectorBend arc; ComponentFrame f1, fb, f2, f3, fa; std::unique_ptr<SupportStructure> m; AcceleratorSupportList sup;
	Arena(bool girder, bool bent) : top("T", SequenceFrame::originAtEntrance), d1("D1", 1.0), b("B", 1.5, 0.2, 1.0), d2("D2", 0.8), d3("D3", 0.6), arc("A", 0.6, 0.3, 1.0), f1(d1), fb(b), f2(d2), f3(d3), fa(arc)
	{
		if(girder) m.reset(new GirderMount("G")); else m.reset(new SimpleMount("S"));
		m->AppendFrame(f2); m->AppendFrame(bent ? fa : f3);
		top.AppendFrame(f1); top.AppendFrame(fb); top.AppendFrame(*m); top.ConsolidateConstruction();
		m->ExportSupports(sup);
	}
	ComponentFrame& last(bool bent) { return bent ? fa : f3; }
};
SX_HARNESS(simple_mount, "a simple mount (straight or with a bend) behind a bend: any support offset, four ways of setting it, an earlier setting read out or not")
{
	bool bent = sx_bool("bent"); Arena a(false, bent);
	sx_assert(a.sup.size() == 1, "supports of a simple mount");
	Transform3D p0 = a.f2.GetPhysicalTransform(), q0 = a.last(bent).GetPhysicalTransform();
	sx_close(a.sup[0]->GetArcPosition(), 2.5 + 0.7, T, "position of the support");
	if(sx_bool("earlier")) { a.sup[0]->SetOffset(0.2, -0.1, 0.4); a.f2.GetPhysicalTransform(); }
	Vector3D X = off("o", 1); int how = sx_choose("how", 0, 6);
	if(how < 4) nudge(*a.sup[0], X, how);
	else { Vector3D o = a.sup[0]->GetOffset(), d(how == 4 ? X.x : 0, how == 5 ? X.y : 0, how == 6 ? X.z : 0); a.f2.GetPhysicalTransform(); a.sup[0]->IncrementOffset(d); X = Vector3D(o.x + d.x, o.y + d.y, o.z + d.z); }   // along one axis only
	samePt(Point3D(a.sup[0]->GetOffset().x, a.sup[0]->GetOffset().y, a.sup[0]->GetOffset().z), Point3D(X.x, X.y, X.z), "offset of the support");
	Transform3D p1 = a.f2.GetPhysicalTransform(), q1 = a.last(bent).GetPhysicalTransform();
	static const Point3D pts[] = {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)};
	for(auto& p : pts)
	{
		Point3D pd(p.x + X.x, p.y + X.y, p.z + X.z);
		samePt(p1(pd), p0(p), "elements on a simple mount move with its support");
		samePt(q1(pd), q0(p), "elements on a simple mount move with its support");
	}
	a.sup[0]->Reset();
	same(a.f2.GetPhysicalTransform(), p0, "support reset");
}
SX_HARNESS(girder_translation, "a girder (straight or with a bend) behind a bend: both supports offset equally, in any of four ways")
{
	bool bent = sx_bool("bent"); Arena a(true, bent);
	sx_assert(a.sup.size() == 2, "supports of a girder");
	sx_close(a.sup[0]->GetArcPosition(), 2.5, T, "position of the first support"); sx_close(a.sup[1]->GetArcPosition(), 3.9, T, "position of the second support");
	Transform3D p0 = a.f2.GetPhysicalTransform(), q0 = a.last(bent).GetPhysicalTransform();
	Vector3D X = off("o", 1); int how = sx_choose("how", 0, 3); nudge(*a.sup[0], X, how); nudge(*a.sup[1], X, how);
	Transform3D p1 = a.f2.GetPhysicalTransform(), q1 = a.last(bent).GetPhysicalTransform();
	static const Point3D pts[] = {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)};
	for(auto& p : pts)
	{
		Point3D pd(p.x + X.x, p.y + X.y, p.z + X.z);
		samePt(p1(pd), p0(p), "elements on a girder move with its supports", 1e-5);
		samePt(q1(pd), q0(p), "elements on a girder move with its supports", 1e-5);
	}
}
SX_HARNESS(girder_tilt, "a straight girder 1.4 m long behind a bend, the supports offset by up to 1e-3 (one coordinate of each symbolic), both or only one of them moved after an earlier setting was read out; first order in the offsets")
{
	Arena a(true, false);
	Transform3D in0 = a.m->GetGeometryTransform(AcceleratorGeometry::entrance) * a.m->GetPhysicalTransform(), out0 = a.m->GetGeometryTransform(AcceleratorGeometry::exit) * a.m->GetPhysicalTransform();
	Point3D gi = in0.inv()(Point3D(0, 0, 0)), go = out0.inv()(Point3D(0, 0, 0));
	int c = sx_choose("coordinate", 0, 1), first = sx_choose("earlier", 0, 2);
	double u = (sx_choose("u", 0, 2) - 1) * 5e-4, v = sx_double("v", -1e-3, 1e-3); sx_assume(beyond(u - v, 2e-5));
	Vector3D ez = Vector3D(go.x - gi.x, go.y - gi.y, go.z - gi.z);
	// transverse horizontal direction
	double n = std::sqrt(ez.x * ez.x + ez.z * ez.z); Vector3D ex(ez.z / n, 0, -ez.x / n), X1 = c == 0 ? Vector3D(ex.x * u, 0, ex.z * u) : Vector3D(0, u, 0), X2 = c == 0 ? Vector3D(ex.x * v, 0, ex.z * v) : Vector3D(0, v, 0);
	if(first == 0) { a.sup[0]->SetOffset(X1); a.sup[1]->SetOffset(X2); }
	else if(first == 1) { a.sup[0]->SetOffset(X1); a.sup[1]->SetOffset(2e-4, 1e-4, 0); a.m->GetPhysicalTransform(); a.sup[1]->SetOffset(X2); }
	else { a.sup[1]->SetOffset(X2); a.m->GetPhysicalTransform(); a.sup[0]->SetOffset(X1); }
	Transform3D in1 = a.m->GetGeometryTransform(AcceleratorGeometry::entrance) * a.m->GetPhysicalTransform(), out1 = a.m->GetGeometryTransform(AcceleratorGeometry::exit) * a.m->GetPhysicalTransform();
	samePt(in1(Point3D(gi.x + X1.x, gi.y + X1.y, gi.z + X1.z)), Point3D(0, 0, 0), "the girder's entrance follows its first support", 1e-5);
	samePt(out1(Point3D(go.x + X2.x, go.y + X2.y, go.z + X2.z)), Point3D(0, 0, 0), "the girder's exit follows its second support", 3e-5);
}
SX_HARNESS(girder_short, "a straight girder 0.05 m long at the start of a line, supports offset horizontally or vertically, one by 1 mm, the other by any amount up to 1 mm")
{
	SequenceFrame top("T", SequenceFrame::originAtEntrance); Drift a("A", 0.05); ComponentFrame fa(a); GirderMount m("G"); m.AppendFrame(fa); top.AppendFrame(m); top.ConsolidateConstruction();
	AcceleratorSupportList s; m.ExportSupports(s); int c = sx_choose("coordinate", 0, 1), w = sx_choose("which", 0, 1);
	double u = sx_double("u", -1e-3, 1e-3), v = w ? 1e-3 : -1e-3; sx_assume(beyond(u - v, 1e-5));
	double o[2] = {u, v}; if(w) { o[0] = v; o[1] = u; }
	for(int i = 0; i < 2; i++) s[i]->SetOffset(c == 0 ? o[i] : 0, c == 1 ? o[i] : 0, 0);
	Transform3D in = m.GetGeometryTransform(AcceleratorGeometry::entrance) * m.GetPhysicalTransform(), out = m.GetGeometryTransform(AcceleratorGeometry::exit) * m.GetPhysicalTransform();
	Point3D p = in(Point3D(c == 0 ? o[0] : 0, c == 1 ? o[0] : 0, 0)), q = out(Point3D(c == 0 ? o[1] : 0, c == 1 ? o[1] : 0, 0.05));
	samePt(p, Point3D(0, 0, 0), "the girder's entrance follows its first support", 1e-6);
	sx_close(q.x, 0, 5e-6, "the girder's exit follows its second support"); sx_close(q.y, 0, 5e-6, "the girder's exit follows its second support");
}
