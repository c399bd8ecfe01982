// P14: element geometries: transforms between points of an element follow its straight line or arc
//@ time: *=40
#include "hx.h"
#include "ArcGeometry.h"
#include "RectangularGeometry.h"
#include <memory>
static const double T = 1e-6;
static void same(const Transform3D& a, const Transform3D& b, const char* m)
{
	static const Point3D pts[] = {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)};
	for(auto& p : pts) { Point3D u = a(p), v = b(p); sx_close(u.x, v.x, T, m); sx_close(u.y, v.y, T, m); sx_close(u.z, v.z, T, m); }
}
static std::unique_ptr<AcceleratorGeometry> geom(double len, double& h)
{
	int k = sx_choose("kind", 0, 2);
	if(k == 0) { h = 0; return std::unique_ptr<AcceleratorGeometry>(new RectangularGeometry(len)); }
	h = k == 1 ? sx_double("h", 0.05, 0.5) : sx_double("h", -0.5, -0.05);
	return std::unique_ptr<AcceleratorGeometry>(new ArcGeometry(len, h));
}
// frame at arc distance d along a circle of curvature h bending towards -x for h>0, seen from the starting frame
static Transform3D along(double h, double d)
{
	if(h == 0) return Transform3D::translation(0, 0, d);
	return Transform3D(Point3D((std::cos(h * d) - 1) / h, 0, std::sin(h * d) / h), Rotation3D::rotationY(-h * d));
}
SX_HARNESS(transforms, "straight and arc, length [0.5,4], curvature 0.05..0.5 both signs, any two points inside")
{
	double len = sx_double("len", 0.5, 4), h; auto g = geom(len, h);
	double s0 = sx_double("s0", -2, 2), s1 = sx_double("s1", -2, 2);
	sx_assume(within(s0, len / 2) & within(s1, len / 2));
	same(g->GetGeometryTransform(s0, s1), along(h, s1 - s0), "transform between two points");
	same(g->GetGeometryTransform(s1), along(h, s1), "transform from the centre");
	same(g->GetGeometryTransform(s1, s0), along(h, s1 - s0).inv(), "transform in the backward direction");
}
SX_HARNESS(ends, "straight and arc, length [0.5,4]: entrance and exit planes, total transform, extent, length")
{
	double len = sx_double("len", 0.5, 4), h; auto g = geom(len, h);
	same(g->GetGeometryTransform(AcceleratorGeometry::entrance), along(h, -len / 2), "entrance plane");
	same(g->GetGeometryTransform(AcceleratorGeometry::exit), along(h, len / 2), "exit plane");
	same(g->GetTotalGeometryTransform(), along(h, len), "total transform");
	AcceleratorGeometry::Extent e = g->GetGeometryExtent();
	sx_close(e.first, -len / 2, T, "extent begin"); sx_close(e.second, len / 2, T, "extent end"); sx_close(g->GetGeometryLength(), len, T, "length"); sx_close(ToLength(e), len, T, "length from the extent");
}
SX_HARNESS(additivity, "three distinct points: the transform over two pieces is the composition")
{
	double len = sx_double("len", 0.5, 4), h; auto g = geom(len, h);
	double s0 = sx_bool("side") ? -0.2 : 0.1, s1 = sx_double("s1", -2, 2), s2 = sx_double("s2", -2, 2);
	sx_assume(within(s1, len / 2) & within(s2, len / 2));
	sx_assume(beyond(s1 - s0, 1e-3) & beyond(s2 - s1, 1e-3) & beyond(s2 - s0, 1e-3));
	same(g->GetGeometryTransform(s1, s2) * g->GetGeometryTransform(s0, s1), g->GetGeometryTransform(s0, s2), "additivity");
}
SX_HARNESS(bounds, "points inside are accepted, points beyond the ends are rejected with the documented exception")
{
	double len = sx_double("len", 0.5, 4), h; auto g = geom(len, h);
	double s0 = sx_double("s0", -4, 4), s1 = sx_double("s1", -4, 4);
	bool in = within(s0, len / 2 - 1e-6) & within(s1, len / 2 - 1e-6), out = beyond(s0, len / 2 + 1e-6) | beyond(s1, len / 2 + 1e-6), thrown = false;
	try { g->GetGeometryTransform(s0, s1); } catch(AcceleratorGeometry::BeyondExtent&) { thrown = true; }
	sx_implies(in, !thrown, "valid points rejected"); sx_implies(out, thrown, "points beyond the extent accepted");
}
SX_HARNESS(zero_curvature, "arc geometry with curvature exactly 0 is a straight line")
{
	double len = sx_double("len", 0.5, 4), s1 = sx_double("s1", -2, 2);
	sx_assume(within(s1, len / 2));
	ArcGeometry ga(len, 0.0); AcceleratorGeometry& g = ga;
	Point3D o = g.GetGeometryTransform(s1)(Point3D(0.1, 0.2, 0.3));
	sx_close(o.x, 0.1, T, "zero curvature"); sx_close(o.y, 0.2, T, "zero curvature"); sx_close(o.z, 0.3 - s1, T, "zero curvature");
	o = g.GetTotalGeometryTransform()(Point3D(0.1, 0.2, 0.3));
	sx_close(o.x, 0.1, T, "zero curvature total"); sx_close(o.z, 0.3 - len, T, "zero curvature total");
}
SX_HARNESS(arc_angle, "arc: the bend angle is length times curvature, settable curvature")
{
	double len = sx_double("len", 0.5, 4), h = sx_double("h", -0.5, 0.5), h2 = sx_double("h2", -0.5, 0.5);
	ArcGeometry g(len, h);
	sx_close(g.GetAngle(), len * h, T, "angle"); sx_close(g.GetCurvature(), h, T, "curvature");
	g.SetCurvature(h2); sx_close(g.GetAngle(), len * h2, T, "angle after change"); sx_close(g.GetCurvature(), h2, T, "curvature after change");
}
