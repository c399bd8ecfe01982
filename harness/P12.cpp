// P12: rotations and rigid transforms obey the group laws
//@ time: *=40
#include "hx.h"
#include "Transform3D.h"
static const double T = 1e-6;
static Rotation3D axis(int k, double a) { return k == 0 ? Rotation3D::identity() : k == 1 ? Rotation3D::rotationX(a) : k == 2 ? Rotation3D::rotationY(a) : Rotation3D::rotationZ(a); }
// reference rotation about one axis: components of p seen from axes turned by +a (right handed)
static Point3D ref(int k, double a, const Point3D& p)
{
	double c = std::cos(a), s = std::sin(a);
	if(k == 0) return p;
	if(k == 1) return Point3D(p.x, c * p.y + s * p.z, c * p.z - s * p.y);
	if(k == 2) return Point3D(c * p.x - s * p.z, p.y, c * p.z + s * p.x);
	return Point3D(c * p.x + s * p.y, c * p.y - s * p.x, p.z);
}
static void same(const Point3D& a, const Point3D& b, const char* m) { sx_close(a.x, b.x, T, m); sx_close(a.y, b.y, T, m); sx_close(a.z, b.z, T, m); }
static void same(const Vector3D& a, const Vector3D& b, const char* m) { sx_close(a.x, b.x, T, m); sx_close(a.y, b.y, T, m); sx_close(a.z, b.z, T, m); }
static Point3D pt(const char* n) { return Point3D(sx_double((std::string(n) + "x").c_str(), -3, 3), sx_double((std::string(n) + "y").c_str(), -3, 3), sx_double((std::string(n) + "z").c_str(), -3, 3)); }

SX_HARNESS(axis_rotation, "every axis, angle [-3,3], point [-3,3]^3")
{
	int k = sx_choose("axis", 0, 3); double a = sx_double("a", -3, 3); Point3D p = pt("p");
	Rotation3D r = axis(k, a);
	same(r(p), ref(k, a, p), "axis rotation of a point");
	Vector3D v(p.x, p.y, p.z), w = r(v);
	same(Point3D(w.x, w.y, w.z), ref(k, a, p), "axis rotation of a vector");
	same(r.inv()(r(p)), p, "inverse undoes the rotation");
	same(r(r.inv()(p)), p, "rotation undoes the inverse");
	same((r * r.inv())(p), p, "product with the inverse is the identity");
	RealMatrix m(3, 3); r.getMatrix(m);
	Point3D q = r(p);
	sx_close(m(0, 0) * p.x + m(0, 1) * p.y + m(0, 2) * p.z, q.x, T, "matrix row 0");
	sx_close(m(1, 0) * p.x + m(1, 1) * p.y + m(1, 2) * p.z, q.y, T, "matrix row 1");
	sx_close(m(2, 0) * p.x + m(2, 1) * p.y + m(2, 2) * p.z, q.z, T, "matrix row 2");
	if(k == 0) sx_assert(r.isIdentity(), "identity recognised");
	if(k == 0) sx_assert(r.type() == ident, "identity type");
	sx_assert(r.isXrot() == (r.type() == xrot), "x type"); sx_assert(r.isYrot() == (r.type() == yrot), "y type"); sx_assert(r.isZrot() == (r.type() == zrot), "z type");
	if(k) sx_assert(r.type() == ident || r.type() == (k == 1 ? xrot : k == 2 ? yrot : zrot), "axis type");
}
SX_HARNESS(composition, "products of two axis rotations (all 16 axis pairs), angles [-3,3], point [-3,3]^3")
{
	int k = sx_choose("k1", 0, 3), l = sx_choose("k2", 0, 3);
	double a = sx_double("a", -3, 3), b = sx_double("b", -3, 3); Point3D p = pt("p");
	Rotation3D r1 = axis(k, a), r2 = axis(l, b), r = r1 * r2;
	Point3D e = ref(k, a, ref(l, b, p));
	same(r(p), e, "product applies the right factor first");
	Vector3D w = r(Vector3D(p.x, p.y, p.z)); same(Point3D(w.x, w.y, w.z), e, "product applied to a vector");
	same(r.inv()(e), p, "inverse of a product");
	RealMatrix m(3, 3); r.getMatrix(m);
	sx_close(m(0, 0) * p.x + m(0, 1) * p.y + m(0, 2) * p.z, e.x, T, "matrix of a product, row 0");
	sx_close(m(1, 0) * p.x + m(1, 1) * p.y + m(1, 2) * p.z, e.y, T, "matrix of a product, row 1");
	sx_close(m(2, 0) * p.x + m(2, 1) * p.y + m(2, 2) * p.z, e.z, T, "matrix of a product, row 2");
	// operands unchanged
	same(r1(p), ref(k, a, p), "left operand unchanged"); same(r2(p), ref(l, b, p), "right operand unchanged");
}
SX_HARNESS(general_products, "products general*axis, axis*general, general*general, angles [-3,3], point [-3,3]^3")
{
	int l = sx_choose("k", 0, 3), form = sx_choose("form", 0, 2), pr = sx_choose("pair", 0, 2);
	int k1 = pr == 0 ? 1 : pr == 1 ? 2 : 3, k2 = pr == 0 ? 2 : pr == 1 ? 3 : 1;
	double a = sx_double("a", -3, 3), b = sx_double("b", -3, 3), c = sx_double("c", -3, 3); Point3D p = pt("p");
	Rotation3D g = axis(k1, a) * axis(k2, b), x = axis(l, c);
	if(form == 0) same((g * x)(p), ref(k1, a, ref(k2, b, ref(l, c, p))), "general times axis");
	else if(form == 1) same((x * g)(p), ref(l, c, ref(k1, a, ref(k2, b, p))), "axis times general");
	else { Rotation3D h = axis(k2, c) * axis(k1, 0.3); same((g * h)(p), ref(k1, a, ref(k2, b, ref(k2, c, ref(k1, 0.3, p)))), "general times general"); }
	same(((g * x) * g.inv())(p), (g * (x * g.inv()))(p), "associativity");
}
SX_HARNESS(by_pi, "conjugation by a half turn, all axis pairs")
{
	int k = sx_choose("k1", 0, 3), l = sx_choose("k2", 0, 3);
	double a = sx_double("a", -3, 3), b = sx_double("b", -3, 3); Point3D p = pt("p");
	Rotation3D r = axis(k, a) * axis(l, b);
	Point3D X(p.x, -p.y, -p.z), Y(-p.x, p.y, -p.z), Z(-p.x, -p.y, p.z), q;
	q = r(X); same(r.rotXbyPI()(p), Point3D(q.x, -q.y, -q.z), "half turn about x");
	q = r(Y); same(r.rotYbyPI()(p), Point3D(-q.x, q.y, -q.z), "half turn about y");
	q = r(Z); same(r.rotZbyPI()(p), Point3D(-q.x, -q.y, q.z), "half turn about z");
	Point3D x0 = pt("o");
	Transform3D t(x0, r), u = t, v = t, w = t;
	u.rotXbyPI(); v.rotYbyPI(); w.rotZbyPI();
	q = t(X); same(u(p), Point3D(q.x, -q.y, -q.z), "transform half turn about x");
	q = t(Y); same(v(p), Point3D(-q.x, q.y, -q.z), "transform half turn about y");
	q = t(Z); same(w(p), Point3D(-q.x, -q.y, q.z), "transform half turn about z");
}
static Transform3D tr(const char* n, int k, int l, double a, double b, Point3D& o) { o = pt(n); return Transform3D(o, axis(k, a) * axis(l, b)); }
SX_HARNESS(transform_basic, "transform = rotation after removing the offset; two axis rotations, offsets [-3,3]^3")
{
	int k = sx_choose("k1", 0, 3), l = sx_choose("k2", 0, 3);
	double a = sx_double("a", -3, 3), b = sx_double("b", -3, 3); Point3D p = pt("p"), o;
	Transform3D t = tr("o", k, l, a, b, o);
	Point3D e = ref(k, a, ref(l, b, Point3D(p.x - o.x, p.y - o.y, p.z - o.z)));
	same(t(p), e, "transform of a point"); same(t * p, e, "operator form");
	Vector3D v(p.x, p.y, p.z), w = t(v); Point3D ev = ref(k, a, ref(l, b, p));
	same(Point3D(w.x, w.y, w.z), ev, "vectors are only rotated");
	same(t.inv()(e), p, "inverse transform"); same(t(t.inv()(p)), p, "transform of the inverse");
	Transform3D i(t); i.invert(); same(i(e), p, "in-place inverse");
	same((t * t.inv())(p), p, "product with the inverse");
	same(t.X(), o, "translation read back");
}
SX_HARNESS(transform_compose, "composition of two and three transforms; axis rotations, offsets [-3,3]^3")
{
	int k = sx_choose("k1", 0, 3), l = sx_choose("k2", 0, 3);
	double a = sx_double("a", -3, 3), b = sx_double("b", -3, 3); Point3D p = pt("p"), o1 = pt("o"), o2 = pt("q");
	Transform3D t1(o1, axis(k, a)), t2(o2, axis(l, b));
	Point3D e = t1(t2(p));
	same((t1 * t2)(p), e, "product applies the right factor first");
	Transform3D u(t2); u *= t1; same(u(p), e, "in-place composition is left multiplication");
	Vector3D v(p.x, p.y, p.z); same((t1 * t2)(v), t1(t2(v)), "product on vectors");
	Transform3D t3 = Transform3D::translation(0.5, -0.25, 2) * Transform3D::rotationY(0.4);
	same(((t1 * t2) * t3)(p), (t1 * (t2 * t3))(p), "associativity");
	same(((t1 * t2).inv())(e), p, "inverse of a product");
}
SX_HARNESS(factories, "identity, pure translations and pure rotations")
{
	double a = sx_double("a", -3, 3); Point3D p = pt("p"), o = pt("o");
	same(Transform3D()(p), p, "default transform is the identity"); sx_assert(Transform3D().isIdentity(), "identity recognised");
	Point3D d(p.x - o.x, p.y - o.y, p.z - o.z);
	same(Transform3D::translation(o.x, o.y, o.z)(p), d, "translation");
	same(Transform3D::rotationX(a)(p), ref(1, a, p), "rotationX"); same(Transform3D::rotationY(a)(p), ref(2, a, p), "rotationY"); same(Transform3D::rotationZ(a)(p), ref(3, a, p), "rotationZ");
	Transform2D t2(o.x, o.y, a);
	same(Transform3D(t2)(p), ref(3, a, Point3D(p.x - o.x, p.y - o.y, p.z)), "two-dimensional transform embedded");
	Transform3D t(o, axis(3, a));
	sx_implies(beyond(o.x, 1e-3) | beyond(o.y, 1e-3) | beyond(o.z, 1e-3), !t.isIdentity(), "a translation is not the identity");
	sx_implies(beyond(a, 1e-3), !t.isIdentity(), "a rotation is not the identity");
	sx_assert(Transform3D::rotationX(0).isIdentity() && Transform3D::translation(0, 0, 0).isIdentity(), "null transforms are the identity");
}

SX_HARNESS(small_net_rotation, "products of two rotations about the same axis that nearly cancel (net angle 1e-2 .. 1e-5) and the resulting rotation of any point")
{
	static const double net[] = {1e-2, 1e-3, 1e-4, 1e-5, -1e-4};
	int ax = sx_choose("axis", 0, 2), k = sx_choose("net", 0, 4), base = sx_choose("base", 0, 1); double a = base ? 0.3 : -2.1, b = net[k] - a;
	Rotation3D r = ax == 0 ? Rotation3D::rotationX(a) * Rotation3D::rotationX(b) : ax == 1 ? Rotation3D::rotationY(a) * Rotation3D::rotationY(b) : Rotation3D::rotationZ(a) * Rotation3D::rotationZ(b);
	Point3D p(sx_double("x", -3, 3), sx_double("y", -3, 3), sx_double("z", -3, 3)), q = r * p;
	double c = std::cos(net[k]), s = std::sin(net[k]);
	if(ax == 0) { sx_close(q.x, p.x, 1e-8, "small net rotation"); sx_close(q.y, c * p.y + s * p.z, 1e-8, "small net rotation"); sx_close(q.z, c * p.z - s * p.y, 1e-8, "small net rotation"); }
	if(ax == 1) { sx_close(q.y, p.y, 1e-8, "small net rotation"); sx_close(q.x, c * p.x - s * p.z, 1e-8, "small net rotation"); sx_close(q.z, c * p.z + s * p.x, 1e-8, "small net rotation"); }
	if(ax == 2) { sx_close(q.z, p.z, 1e-8, "small net rotation"); sx_close(q.x, c * p.x + s * p.y, 1e-8, "small net rotation"); sx_close(q.y, c * p.y - s * p.x, 1e-8, "small net rotation"); }
}
