// P15: geometry of element sequences: transforms, positions, extents, nested frames
//@ time: *=30
#include "hx.h"
#include <memory>
#include <vector>
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "Drift.h"
#include "SectorBend.h"
static const double T = 1e-6;
static void same(const Transform3D& a, const Transform3D& b, const char* m)
{
	static const Point3D pts[] = {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)};
	for(auto& p : pts) { Point3D u = a(p), v = b(p); sx_close(u.x, v.x, T, m); sx_close(u.y, v.y, T, m); sx_close(u.z, v.z, T, m); }
}
static Transform3D along(double h, double d)
{
	if(h == 0) return Transform3D::translation(0, 0, d);
	return Transform3D(Point3D((std::cos(h * d) - 1) / h, 0, std::sin(h * d) / h), Rotation3D::rotationY(-h * d));
}
struct Line
{
	std::vector<double> l, h; SequenceFrame seq; std::vector<ComponentFrame*> f; double len = 0;
	Line(SequenceFrame::Origin o) : seq("S", o) {}
	void add(double L, double H)
	{
		AcceleratorComponent* c = H == 0 ? (AcceleratorComponent*) new Drift("D", L) : (AcceleratorComponent*) new SectorBend("B", L, H, 1.0);
		f.push_back(new ComponentFrame(*c)); seq.AppendFrame(*f.back()); l.push_back(L); h.push_back(H); len += L;
	}
	Transform3D upto(double d) const   // frame at distance d from the entrance seen from the entrance
	{
		Transform3D t;
		for(size_t i = 0; i < l.size(); i++)
		{
			if(i + 1 == l.size() || d < l[i]) return along(h[i], d) * t;
			t = along(h[i], l[i]) * t; d -= l[i];
		}
		return t;
	}
	double off() const { return seq.GetLocalGeometryExtent().first; }
};
static double originOf(SequenceFrame::Origin o, double len) { return o == SequenceFrame::originAtEntrance ? 0 : o == SequenceFrame::originAtCenter ? -len / 2 : -len; }
static void fill(Line& L, int pattern, int fixed = 0)
{
	// lengths: one symbolic, curvatures fixed
	double a = pattern == 0 ? sx_double("a", 0.3, 2.5) : fixed ? (fixed == 1 ? 0.7 : 1.9) : sx_double("a", 0.3, 2.5);
	if(pattern == 0) { L.add(a, 0); L.add(1.0, 0); L.add(0.7, 0); }
	else if(pattern == 1) { L.add(1.0, 0); L.add(1.5, 0.2); L.add(a, 0); }
	else if(pattern == 2) { L.add(1.5, 0.2); L.add(a, 0); L.add(0.5, -0.3); }
	else { L.add(0.6, 0); L.add(2.0, 0.3); }
}
SX_HARNESS(between_points, "2-3 element lines of drifts and bends (4 patterns; one length symbolic 0.3..2.5 for drifts, 0.7 or 1.9 with bends), origins at entrance, centre and exit, any two interior points, both directions")
{
	int pat = sx_choose("pattern", 0, 3); SequenceFrame::Origin o = (SequenceFrame::Origin) (pat == 1 ? 1 : pat == 3 ? 2 : sx_choose("origin", 0, 2));
	Line L(o); fill(L, pat, pat == 1 || pat == 2 ? sx_choose("a", 1, 2) : 0); L.seq.ConsolidateConstruction();
	double d0 = sx_bool("second") ? 1.2 : 0.2, d1 = sx_double("d1", 0, 5);
	sx_assume((d1 > 1e-3) & (d1 < L.len - 1e-3) & (d0 < L.len - 1e-3) & beyond(d1 - d0, 1e-6));
	double c = 0; for(double l : L.l) { c += l; sx_assume(beyond(d1 - c, 1e-6)); sx_assume(beyond(d0 - c, 1e-6)); }
	double z = originOf(o, L.len);
	same(L.seq.GetGeometryTransform(z + d0, z + d1), L.upto(d1) * L.upto(d0).inv(), "transform between two points of the line");
	same(L.seq.GetGeometryTransform(z + d1, z + d0), L.upto(d0) * L.upto(d1).inv(), "transform between two points of the line (other order)");
}
SX_HARNESS(planes, "the same lines: entrance plane, exit plane, total transform, extent, length, element positions")
{
	SequenceFrame::Origin o = (SequenceFrame::Origin) sx_choose("origin", 0, 2);
	Line L(o); fill(L, sx_choose("pattern", 0, 3)); L.seq.ConsolidateConstruction();
	double z = originOf(o, L.len);
	AcceleratorGeometry::Extent e = L.seq.GetLocalGeometryExtent();
	sx_close(e.first, z, T, "extent begin"); sx_close(e.second, z + L.len, T, "extent end"); sx_close(L.seq.GetGeometryLength(), L.len, T, "length");
	double c = 0; for(size_t i = 0; i < L.l.size(); i++) { sx_close(L.f[i]->GetLocalPosition(), z + c + L.l[i] / 2, T, "element position"); sx_close(L.f[i]->GetPosition(&L.seq), z + c + L.l[i] / 2, T, "element position in the frame"); c += L.l[i]; }
	// keep the centre off element boundaries
	c = 0; for(double l : L.l) { c += l; sx_assume(beyond(L.len / 2 - c, 1e-6)); }
	same(L.seq.GetTotalGeometryTransform(), L.upto(L.len), "total transform");
	Transform3D o0 = L.upto(-z);
	if(o == SequenceFrame::originAtEntrance) o0 = Transform3D();
	same(L.seq.GetGeometryTransform(AcceleratorGeometry::entrance), o0.inv(), "entrance plane");
	same(L.seq.GetGeometryTransform(AcceleratorGeometry::exit), L.upto(L.len) * o0.inv(), "exit plane");
}
SX_HARNESS(outside, "lines of three drifts: points beyond the ends of the line are refused, points inside are not")
{
	SequenceFrame::Origin o = (SequenceFrame::Origin) sx_choose("origin", 0, 2);
	Line L(o); fill(L, 0); L.seq.ConsolidateConstruction();
	double z = originOf(o, L.len), p = sx_double("d0", -3, 6), q = sx_bool("fixed far") ? 1.7 : 0.4; bool sw = sx_bool("swap"); double d0 = sw ? q : p, d1 = sw ? p : q; bool thrown = false; sx_assume(beyond(d0, 1e-6) & beyond(d1, 1e-6) & beyond(d0 - d1, 1e-6) & beyond(p - L.len, 1e-6));
	double c = 0; for(double l : L.l) { c += l; sx_assume(beyond(d1 - c, 1e-6)); sx_assume(beyond(d0 - c, 1e-6)); }
	try { L.seq.GetGeometryTransform(z + d0, z + d1); } catch(AcceleratorGeometry::BeyondExtent&) { thrown = true; }
	bool in = (d0 > 1e-6) & (d0 < L.len - 1e-6) & (d1 > 1e-6) & (d1 < L.len - 1e-6), out = (d0 < -1e-6) | (d0 > L.len + 1e-6) | (d1 < -1e-6) | (d1 > L.len + 1e-6);
	sx_implies(in, !thrown, "valid points refused"); sx_implies(out & beyond(d0 - d1, 1e-6), thrown, "points beyond the ends accepted");
}
static Transform3D mis(const char* n, int k, bool fixed = false)
{
	std::string s(n); Point3D o(sx_double((s + "x").c_str(), -1, 1), sx_double((s + "y").c_str(), -1, 1), sx_double((s + "z").c_str(), -1, 1));
	double a = k && fixed ? 0.37 : k ? sx_double((s + "a").c_str(), -1, 1) : 0; if(k) sx_assume(beyond(a, 1e-3)); sx_assume(beyond(o.x, 1e-6)); 
	return Transform3D(o, k == 0 ? Rotation3D::identity() : k == 1 ? Rotation3D::rotationX(a) : k == 2 ? Rotation3D::rotationY(a) : Rotation3D::rotationZ(a));
}
SX_HARNESS(nested, "element in a misaligned sub-line of a line with a bend: position, physical and relative transforms for any element and sub-line misalignment (one-axis rotations, the angle of the sub-line fixed when the element is rotated)")
{
	SequenceFrame top("T", SequenceFrame::originAtEntrance), sub("S", SequenceFrame::originAtCenter);
	Drift d1("D1", 1.0), d2("D2", 0.8), d3("D3", 0.6); SectorBend b("B", 1.5, 0.2, 1.0);
	ComponentFrame f1(d1), f2(d2), f3(d3), fb(b);
	sub.AppendFrame(f2); sub.AppendFrame(f3);
	top.AppendFrame(f1); top.AppendFrame(fb); top.AppendFrame(sub); top.ConsolidateConstruction();
	int ke = sx_choose("ke", 0, 3); Transform3D me = mis("e", ke), ms = mis("s", sx_choose("ks", 0, 1) ? 2 : 3, ke > 0);
	f3.SetLocalFrameTransform(me); sub.SetLocalFrameTransform(ms);
	sx_close(f3.GetPosition(), 1.0 + 1.5 + 0.8 + 0.3, T, "position along the nested line");
	sx_close(f3.GetPosition(&sub), 0.7 - 0.3, T, "position in the sub-line");
	AcceleratorGeometry::Extent ex = f3.GetGeometryExtent();
	sx_close(ex.first, 3.3, T, "extent begin in the global line"); sx_close(ex.second, 3.9, T, "extent end in the global line");
	Transform3D toSub = along(0, 0.7) * along(0.2, 1.5) * along(0, 1.0);   // ideal frame at the sub-line centre
	Transform3D ideal = along(0, 0.4) * toSub;
	Transform3D phys = me * along(0, 0.4) * ms * toSub;
	same(f3.GetPhysicalTransform(), phys, "physical transform of the element");
	same(f3.GetFrameTransform(), phys * ideal.inv(), "misalignment of the element seen from the ideal line");
	same(f3.GetFrameTransform(&sub), me, "misalignment of the element in its sub-line");
	same(sub.GetFrameTransform(), ms, "misalignment of the sub-line");
	same(f3.GetPhysicalTransform(&sub), me * along(0, 0.4), "physical transform inside the sub-line");
	same(f3.GetFrameTransform(&f3), Transform3D(), "transform to itself");
}
SX_HARNESS(boundary_planes, "boundary-plane transforms of the first, middle and last element (drift or bend) of a misaligned sub-line (one-axis rotations)")
{
	SequenceFrame top("T", SequenceFrame::originAtEntrance), sub("S", SequenceFrame::originAtCenter);
	bool bend = sx_bool("bend"); Drift d1("D1", 1.0), d2("D2", 0.8), d3("D3", 0.6), d4("D4", 0.4);
	double h = bend ? 0.3 : 0; SectorBend b2("B2", 0.8, h, 1), b3("B3", 0.6, h, 1), b4("B4", 0.4, h, 1);
	int which = sx_choose("which", 0, 2);
	ComponentFrame f1(d1), f2(bend && which == 0 ? (AcceleratorComponent&) b2 : d2), f3(bend && which == 1 ? (AcceleratorComponent&) b3 : d3), f4(bend && which == 2 ? (AcceleratorComponent&) b4 : d4);
	sub.AppendFrame(f2); sub.AppendFrame(f3); sub.AppendFrame(f4);
	top.AppendFrame(f1); top.AppendFrame(sub); top.ConsolidateConstruction();
		int ke = sx_choose("ke", 0, 3); Transform3D me = mis("e", ke), ms = mis("s", bend ? 0 : sx_choose("ks", 0, 1) ? 2 : 3, ke > 0);
	ComponentFrame& f = which == 0 ? f2 : which == 1 ? f3 : f4; double l = which == 0 ? 0.8 : which == 1 ? 0.6 : 0.4;
	f.SetLocalFrameTransform(me); sub.SetLocalFrameTransform(ms);
	Transform3D ein = along(h, -l / 2) * me * along(h, -l / 2).inv(), eout = along(h, l / 2) * me * along(h, l / 2).inv();
	Transform3D toIn = along(0, -0.9), toOut = along(0, 0.9);   // from the centre of the sub-line to its ends
	if(bend)
	{
		double hs[] = {which == 0 ? h : 0, which == 1 ? h : 0, which == 2 ? h : 0};
		toIn = (along(hs[1], 0.1) * along(hs[0], 0.8)).inv(); toOut = along(hs[2], 0.4) * along(hs[1], 0.5);
	}
	Transform3D sin = toIn * ms * toIn.inv(), sout = toOut * ms * toOut.inv();
	same(f.GetEntrancePlaneTransform(), which == 0 ? ein * sin : ein, "entrance plane of the element");
	same(f.GetExitPlaneTransform(), (which == 2 ? eout * sout : eout).inv(), "exit plane of the element");
	same(top.GetEntrancePlaneTransform(), Transform3D(), "the top level has no misalignment");
}
struct Count : FrameTraverser { std::vector<LatticeFrame*> v; void ActOn(LatticeFrame* f) { v.push_back(f); } };
SX_HARNESS(replace_and_traverse, "traversal visits every frame once in order; replacing a sub-frame takes effect; replacement of any of 3")
{
	SequenceFrame top("T", SequenceFrame::originAtCenter), sub("S", SequenceFrame::originAtCenter);
	Drift d1("D1", 1.0), d2("D2", 0.8), d3("D3", 0.6); Drift dn("DN", sx_double("n", 0.3, 2));
	ComponentFrame f1(d1), f2(d2), f3(d3), fn(dn);
	sub.AppendFrame(f2); top.AppendFrame(f1); top.AppendFrame(sub); top.AppendFrame(f3);
	Count c; top.Traverse(c);
	sx_assert(c.v.size() == 5, "frames visited");
	if(c.v.size() == 5) sx_assert(c.v[0] == &top && c.v[1] == &f1 && c.v[2] == &sub && c.v[3] == &f2 && c.v[4] == &f3, "visit order");
	int k = sx_choose("k", 0, 2);
	LatticeFrame* old = k == 0 ? (LatticeFrame*) &f1 : k == 1 ? (LatticeFrame*) &sub : (LatticeFrame*) &f3;
	sx_assert(top.ReplaceSubFrame(old, &fn), "sub-frame found");
	sx_assert(!top.ReplaceSubFrame(old, &f2), "removed sub-frame not found");
	Count e; top.Traverse(e);
	size_t at = k == 0 ? 1 : k == 1 ? 2 : 4;
	sx_assert(e.v.size() == (k == 1 ? 4u : 5u), "frames after replacement");
	sx_assert(at < e.v.size() && e.v[at] == &fn, "replacement visited in place");
	sx_assert(fn.GetGlobalFrame() == &top, "replacement belongs to the line");
}
SX_HARNESS_IEEE(rounding, "lines of up to 40 equal elements (lengths 0.1, 0.3, 0.7) in IEEE arithmetic: every element boundary can be reached from every other one of a sample, and the ends")
{
	static const double len[] = {0.1, 0.3, 0.7}; static const int cnt[] = {3, 7, 23, 40};
	double l = len[sx_choose("length", 0, 2)]; int n = cnt[sx_choose("count", 0, 3)];
	SequenceFrame::Origin o = (SequenceFrame::Origin) sx_choose("origin", 0, 2);
	Line L(o); for(int i = 0; i < n; i++) L.add(l, 0);
	L.seq.ConsolidateConstruction();
	AcceleratorGeometry::Extent e = L.seq.GetLocalGeometryExtent();
	bool bad = false; double s = e.first;
	for(int i = 0; i <= n; i++)
	{
		double at = s < e.second ? s : e.second;
		if(i == n) at = e.second;
		try
		{
			double f[] = {e.first + l / 2, e.first, e.second};
			for(double q : f) bad |= beyond(L.seq.GetGeometryTransform(q, at).X().z - (at - q), 1e-9) | beyond(L.seq.GetGeometryTransform(at, q).X().z - (q - at), 1e-9);
		}
		catch(AcceleratorGeometry::BeyondExtent&) { bad = true; }
		s += l;
	}
	sx_assert(!bad, "element boundary reachable despite rounding");
}

SX_HARNESS(origins_of_sublines, "a sub-line of two drifts (one length symbolic) with any origin within a line of any origin: positions of all elements")
{
	SequenceFrame::Origin o = (SequenceFrame::Origin) sx_choose("origin", 0, 2), os = (SequenceFrame::Origin) sx_choose("sub origin", 0, 2);
	SequenceFrame top("T", o), sub("S", os);
	double a = sx_double("a", 0.3, 2); Drift d1("D1", 1.0), d2("D2", a), d3("D3", 0.6), d4("D4", 0.4);
	ComponentFrame f1(d1), f2(d2), f3(d3), f4(d4);
	sub.AppendFrame(f2); sub.AppendFrame(f3);
	top.AppendFrame(f1); top.AppendFrame(sub); top.AppendFrame(f4); top.ConsolidateConstruction();
	double z = originOf(o, 2.0 + a), zs = originOf(os, 0.6 + a);
	sx_close(f1.GetLocalPosition(), z + 0.5, T, "position before the sub-line");
	sx_close(sub.GetLocalPosition(), z + 1.0 - zs, T, "position of the sub-line");
	sx_close(f4.GetLocalPosition(), z + 1.0 + a + 0.6 + 0.2, T, "position after the sub-line");
	sx_close(f2.GetLocalPosition(), zs + a / 2, T, "position within the sub-line");
	sx_close(f3.GetPosition(), z + 1.0 + a + 0.3, T, "position along the whole line");
	sx_close(top.GetLocalGeometryExtent().first, z, T, "extent begin"); sx_close(top.GetLocalGeometryExtent().second, z + 2.0 + a, T, "extent end");
}
