// P13: changing the reference plane keeps a particle on the same straight line in space
//@ time: *=40
#include "hx.h"
#include "PSvectorTransform3D.h"
static const double T = 1e-6;
static PSvector part() { PSvector p(0); p.x() = sx_double("x", -1, 1); p.xp() = sx_double("xp", -0.2, 0.2); p.y() = sx_double("y", -1, 1); p.yp() = sx_double("yp", -0.2, 0.2); p.ct() = sx_double("ct", -1, 1); p.dp() = sx_double("dp", -0.1, 0.1); p.id() = 77; return p; }
static Rotation3D axis(int k, double a) { return k == 0 ? Rotation3D::identity() : k == 1 ? Rotation3D::rotationX(a) : k == 2 ? Rotation3D::rotationY(a) : Rotation3D::rotationZ(a); }
static void online(const Transform3D& t, const PSvector& p, const PSvector& q, double s)
{
	// any point of the old line, seen in the new frame, is on the new line
	Point3D a = t(Point3D(p.x() + s * p.xp(), p.y() + s * p.yp(), s));
	sx_close(a.x, q.x() + a.z * q.xp(), T, "particle stays on its straight line (x)");
	sx_close(a.y, q.y() + a.z * q.yp(), T, "particle stays on its straight line (y)");
	sx_close(q.ct(), p.ct(), 0, "ct unchanged"); sx_close(q.dp(), p.dp(), 0, "dp unchanged");
	sx_assert(q.id() == 77, "id unchanged");
}
SX_HARNESS(one_axis, "identity or one axis rotation (|angle|<=1), offset [-2,2]^3, any particle with |x'|,|y'|<=0.2")
{
	int k = sx_choose("axis", 0, 3); double a = k ? sx_double("a", -1, 1) : 0;
	Transform3D t(Point3D(sx_double("ox", -2, 2), sx_double("oy", -2, 2), sx_double("oz", -2, 2)), axis(k, a));
	PSvector p = part(), q(p);
	PSvectorTransform3D f(t);
	f.Apply(q); online(t, p, q, sx_double("s", -2, 2));
	PSvector r(p); f(r); sx_close(r.x(), q.x(), 0, "call operator equals Apply"); sx_close(r.xp(), q.xp(), 0, "call operator equals Apply"); sx_close(r.y(), q.y(), 0, "call operator equals Apply"); sx_close(r.yp(), q.yp(), 0, "call operator equals Apply");
}
SX_HARNESS(two_axes, "products of two axis rotations, first angle in {0.4,-0.7}, second symbolic |angle|<=0.5, offset [-2,2]^3")
{
	int k = sx_choose("k1", 1, 3), l = sx_choose("k2", 1, 3);
	Transform3D t(Point3D(sx_double("ox", -2, 2), sx_double("oy", -2, 2), sx_double("oz", -2, 2)), axis(k, sx_bool("neg") ? -0.7 : 0.4) * axis(l, sx_double("a", -0.5, 0.5)));
	PSvector p = part(), q(p);
	PSvectorTransform3D(t).Apply(q); online(t, p, q, sx_double("s", -2, 2));
}
SX_HARNESS(array, "array of two particles, one axis rotation or none: every element transformed as if alone")
{
	int k = sx_choose("axis", 0, 3); double a = k ? sx_double("a", -1, 1) : 0;
	Transform3D t(Point3D(sx_double("ox", -2, 2), sx_double("oy", -2, 2), sx_double("oz", -2, 2)), axis(k, a));
	PSvector p = part(), q(p), r(0); r.x() = 0.1; r.yp() = 0.01; r.id() = 77;
	PSvectorArray v{p, r, q};
	PSvectorTransform3D f(t); f.Apply(v);
	sx_assert(v.size() == 3, "array size unchanged");
	online(t, p, v[0], 0.7); online(t, r, v[1], -0.4); online(t, q, v[2], 1.3);
}
SX_HARNESS(round_trip, "there and back through the inverse, one axis rotation, offset [-2,2]^3")
{
	int k = sx_choose("axis", 0, 3); double a = k ? sx_double("a", -1, 1) : 0;
	Transform3D t(Point3D(sx_double("ox", -2, 2), sx_double("oy", -2, 2), sx_double("oz", -2, 2)), axis(k, a));
	PSvector p = part(), q(p);
	PSvectorTransform3D(t).Apply(q); PSvectorTransform3D(t.inv()).Apply(q);
	sx_close(q.x(), p.x(), T, "round trip x"); sx_close(q.xp(), p.xp(), T, "round trip xp"); sx_close(q.y(), p.y(), T, "round trip y"); sx_close(q.yp(), p.yp(), T, "round trip yp");
}
