// P02: apertures accept exactly the points inside their shape
//@ time: *=25 rectellipse=50
#include "hx.h"
#include <memory>
#include "Aperture.h"
#include "InterpolatedApertures.h"
#include "DataTable.h"
#include "NumericalConstants.h"
static const double M = 1e-5;
static double xx() { return sx_double("x", -2, 2); }
static double yy() { return sx_double("y", -2, 2); }
SX_HARNESS(circle, "circle of any radius 0.1..2, any point, both constructors")
{
	double r = sx_double("r", 0.1, 2), x = xx(), y = yy(), d = x * x + y * y - r * r; sx_assume(beyond(d, M)); std::unique_ptr<Aperture> a(sx_bool("c") ? new CircularAperture(r) : new CircularAperture("CIRCLE", 3, r));
	sx_assert(a->CheckWithinApertureBoundaries(x, y, sx_double("z", -1, 1)) == (d < 0), "circle"); sx_assert(a->GetType() == "CIRCLE", "type"); sx_close(static_cast<CircularAperture&>(*a).GetRadius(), r, 1e-12, "radius");
}
SX_HARNESS(rectangle, "rectangle of any half sizes, any point, both constructors")
{
	double a = sx_double("a", 0.1, 2), b = sx_double("b", 0.1, 2), x = xx(), y = yy(); for(double s : {1.0, -1.0}) sx_assume(beyond(x - s * a, M) & beyond(y - s * b, M)); std::unique_ptr<Aperture> p(sx_bool("c") ? new RectangularAperture(a, b) : new RectangularAperture("RECTANGLE", 1, a, b));
	sx_assert(p->CheckWithinApertureBoundaries(x, y, 0) == (within(x, a) & within(y, b)), "rectangle"); sx_close(static_cast<RectangularAperture&>(*p).GetRectHalfX(), a, 1e-12, "half width"); sx_close(static_cast<RectangularAperture&>(*p).GetRectHalfY(), b, 1e-12, "half height");
}
static const double S[][2] = {{1, 1}, {0.5, 1.2}, {1.2, 0.5}, {0.3, 1.5}, {1.5, 0.3}};
SX_HARNESS(ellipse, "ellipses of five shapes, any point")
{
	int k = sx_choose("shape", 0, 4); double a = S[k][0], b = S[k][1], x = xx(), y = yy(), d = x * x * b * b + y * y * a * a - a * a * b * b; sx_assume(beyond(d, M)); EllipticalAperture e("ELLIPSE", 0, a, b); sx_assert(e.CheckWithinApertureBoundaries(x, y, 0.3) == (d < 0), "ellipse"); sx_close(e.GetEllipHalfX(), a, 1e-12, "half axis"); sx_close(e.GetEllipHalfY(), b, 1e-12, "half axis"); sx_assert(e.GetType() == "ELLIPSE", "type");
}
SX_HARNESS(rectellipse, "intersection of rectangles of four widths and any height and ellipses of five shapes, any point")
{
	int k = sx_choose("shape", 0, 4); double a = S[k][0], b = S[k][1], w = 0.2 + 0.3 * sx_choose("w", 0, 3), h = sx_double("h", 0.1, 2), x = xx(), y = yy(), d = x * x * b * b + y * y * a * a - a * a * b * b; sx_assume(beyond(d, M)); for(double s : {1.0, -1.0}) sx_assume(beyond(x - s * w, M) & beyond(y - s * h, M));
	RectEllipseAperture e("RECTELLIPSE", 0, w, h, a, b); sx_assert(e.CheckWithinApertureBoundaries(x, y, 0.3) == ((d < 0) & within(x, w) & within(y, h)), "rectangle and ellipse"); sx_close(e.GetRectHalfX(), w, 1e-12, "half width"); sx_close(e.GetRectHalfY(), h, 1e-12, "half height"); sx_close(e.GetEllipHalfX(), a, 1e-12, "half axis"); sx_close(e.GetEllipHalfY(), b, 1e-12, "half axis");
}
static const double T1[] = {0.4, 0.3, 0.2, 0.6}, T2[] = {1.1, 1.2, 0.9, 1.3};
// corner cut from (w, w tan a1) to (h / tan a2, h): positive on the inner side, for x, y >= 0
static double cut(double x, double y, double w, double h, double a1, double a2) { double y0 = w * std::tan(a1), x1 = h / std::tan(a2); return (w - x1) * (y0 - y) + (h - y0) * (w - x); }
static double ab(double v) { return std::fabs(v); }
SX_HARNESS(octagon, "octagons of four pairs of angles and four pairs of half sizes, any point")
{
	int k = sx_choose("angles", 0, 3), j = sx_choose("size", 0, 3); double w = 1 + 0.1 * j, h = j == 3 ? 0.9 : 1.05, a1 = T1[k], a2 = T2[k], x = xx(), y = yy(), c[4] = {cut(x, y, w, h, a1, a2), cut(-x, y, w, h, a1, a2), cut(x, -y, w, h, a1, a2), cut(-x, -y, w, h, a1, a2)}; if(h / std::tan(a2) >= w || w * std::tan(a1) >= h) return;
	bool in = within(x, w) & within(y, h); for(int s = 0; s < 4; s++) { sx_assume(beyond(c[s], M)); in = in & (c[s] > 0); } for(double s : {1.0, -1.0}) sx_assume(beyond(x - s * w, M) & beyond(y - s * h, M));
	OctagonalAperture o("OCTAGON", 0, w, h, a1, a2); sx_assert(o.CheckWithinApertureBoundaries(x, y, 0) == in, "octagon"); sx_close(o.GetAngle1(), a1, 1e-12, "angle"); sx_close(o.GetAngle2(), a2, 1e-12, "angle"); sx_close(o.GetRectHalfX(), w, 1e-12, "half width"); sx_close(o.GetRectHalfY(), h, 1e-12, "half height");
}
static DataTable tab(int n) { DataTable t; t.AddColumn("APERTYPE", 's'); t.AddColumn("S", 'd'); t.AddColumn("L", 'd'); for(const char* c : {"APER_1", "APER_2", "APER_3", "APER_4"}) t.AddColumn(c, 'd'); for(int i = 0; i < n; i++) t.AddRow(); return t; }
static void row(DataTable& t, int i, const char* ty, double s, double a, double b, double c, double d) { t.Set("APERTYPE", i, std::string(ty)); t.Set_d("S", i, s); t.Set_d("L", i, 0); t.Set_d("APER_1", i, a); t.Set_d("APER_2", i, b); t.Set_d("APER_3", i, c); t.Set_d("APER_4", i, d); }
static const char* TY[] = {"CIRCLE", "RECTANGLE", "ELLIPSE", "RECTELLIPSE", "OCTAGON", "SQUARE"};
SX_HARNESS(factory, "the factory makes every type from a table row with any parameters")
{
	int k = sx_choose("type", 0, 5); DataTable t = tab(1); bool z3 = sx_bool("zero 3"), z4 = sx_bool("zero 4"); double a = sx_double("a", 0.1, 2), b = sx_double("b", 0.1, 2), c = z3 ? 0 : sx_double("c", 0.1, 2), d = z4 ? 0 : sx_double("d", 0.1, 2); if(k == 4) { c = 0.3; d = 1.1; } row(t, 0, TY[k], 7, a, b, c, d);
	if((k == 3 && (z3 || z4)) || (k == 2 && z3 != z4)) return; std::unique_ptr<Aperture> p(ApertureFactory::GetInstance(*t.begin())); if(k == 5) { sx_assert(!p, "unknown types make no aperture"); return; } sx_assert(p != nullptr, "known types make an aperture"); if(!p) return; sx_assert(p->GetType() == TY[k], "type"); sx_close(p->GetLatticeLocation(), 7, 1e-12, "location");
	Aperture* q = p.get();
	if(k == 0) { auto* e = dynamic_cast<CircularAperture*>(q); sx_assert(e, "class"); if(e) sx_close(e->GetRadius(), z3 ? a : c, 1e-12, "radius"); }
	if(k == 1) { auto* e = dynamic_cast<RectangularAperture*>(q); sx_assert(e, "class"); if(e) { sx_close(e->GetRectHalfX(), a, 1e-12, "half width"); sx_close(e->GetRectHalfY(), b, 1e-12, "half height"); } }
	if(k == 2) { auto* e = dynamic_cast<EllipticalAperture*>(q); sx_assert(e, "class"); if(e) { sx_close(e->GetEllipHalfX(), z3 && z4 ? a : c, 1e-12, "half axis"); sx_close(e->GetEllipHalfY(), z3 && z4 ? b : d, 1e-12, "half axis"); } }
	if(k == 3) { auto* e = dynamic_cast<RectEllipseAperture*>(q); sx_assert(e, "class"); if(e) { sx_close(e->GetRectHalfX(), a, 1e-12, "half width"); sx_close(e->GetRectHalfY(), b, 1e-12, "half height"); sx_close(e->GetEllipHalfX(), c, 1e-12, "half axis"); sx_close(e->GetEllipHalfY(), d, 1e-12, "half axis"); } }
	if(k == 4) { auto* e = dynamic_cast<OctagonalAperture*>(q); sx_assert(e, "class"); if(e) { sx_close(e->GetRectHalfX(), a, 1e-12, "half width"); sx_close(e->GetRectHalfY(), b, 1e-12, "half height"); sx_close(e->GetAngle1(), c, 1e-12, "angle"); sx_close(e->GetAngle2(), d, 1e-12, "angle"); } }
}
// tables of three rows, at 0, 1 and 3 m
static const double TS[3] = {0, 1, 3};
static const double RE[2][3][4] = {{{1, 1, 1.2, 1.2}, {0.5, 0.8, 0.9, 1.0}, {1.2, 0.6, 1.0, 0.7}}, {{0.4, 1, 1.2, 0.9}, {1.2, 0.5, 0.8, 1.4}, {1.2, 1.6, 1.0, 1.1}}};
static double at(const double (*r)[4], int c, double z, int seg) { return r[seg][c] + (r[seg + 1][c] - r[seg][c]) * (z - TS[seg]) / (TS[seg + 1] - TS[seg]); }
static Aperture* interp(const char* ty, const double (*r)[4]) { DataTable t = tab(3); for(int i = 0; i < 3; i++) row(t, i, ty, TS[i], r[i][0], r[i][1], r[i][2], r[i][3]); return InterpolatorFactory::GetInstance(t); }
// a position in one of the segments, clear of its ends; or before the start
static double zin(int& seg) { int k = sx_choose("segment", 0, 2); if(k == 2) { seg = 0; return -0.5; } seg = k; double z = sx_double("z", 0, 3); sx_assume((z > TS[k] + M) & (z < TS[k + 1] - M)); return z; }
SX_HARNESS(interpolated_circle, "circles interpolated between three radii, any point")
{
	int t = sx_choose("table", 0, 1), seg; double z = zin(seg), x = xx(), y = yy(), r = at(RE[t], 0, z < 0 ? 0 : z, seg), d = x * x + y * y - r * r; sx_assume(beyond(d, M)); std::unique_ptr<Aperture> a(interp("CIRCLE", RE[t])); sx_assert(a && a->GetType() == "CIRCLE-interpolated", "type"); sx_assert(a->CheckWithinApertureBoundaries(x, y, z) == (d < 0), "interpolated circle");
}
SX_HARNESS(interpolated_rectellipse, "rectangle and ellipse interpolated between three rows, any point, at nine positions along z")
{
	int t = sx_choose("table", 0, 1), j = sx_choose("z", 0, 8); double z = 0.3 * j + (j ? 0.05 : 0); int seg = z > 1; double x = xx(), y = yy(), w = at(RE[t], 0, z, seg), h = at(RE[t], 1, z, seg), a = at(RE[t], 2, z, seg), b = at(RE[t], 3, z, seg), d = x * x * b * b + y * y * a * a - a * a * b * b; sx_assume(beyond(d, M)); for(double s : {1.0, -1.0}) sx_assume(beyond(x - s * w, M) & beyond(y - s * h, M));
	std::unique_ptr<Aperture> p(interp("RECTELLIPSE", RE[t])); sx_assert(p && p->GetType() == "RECTELLIPSE-interpolated", "type"); sx_assert(p->CheckWithinApertureBoundaries(x, y, z) == ((d < 0) & within(x, w) & within(y, h)), "interpolated rectangle and ellipse");
}
SX_HARNESS(interpolated_rectangle, "the rectangle of an interpolated rectangle and ellipse (the ellipse out of the way), any point and position")
{
	int t = sx_choose("table", 0, 1), seg; double r[3][4]; for(int i = 0; i < 3; i++) { r[i][0] = RE[t][i][0]; r[i][1] = RE[t][i][1]; r[i][2] = r[i][3] = 8; } double z = zin(seg), x = xx(), y = yy(), zz = z < 0 ? 0 : z, w = at(r, 0, zz, seg), h = at(r, 1, zz, seg); for(double s : {1.0, -1.0}) sx_assume(beyond(x - s * w, M) & beyond(y - s * h, M));
	std::unique_ptr<Aperture> p(interp("RECTELLIPSE", r)); sx_assert(p->CheckWithinApertureBoundaries(x, y, z) == (within(x, w) & within(y, h)), "interpolated rectangle");
}
SX_HARNESS(interpolated_ellipse, "ellipses interpolated between three rows, any point, at nine positions along z")
{
	int t = sx_choose("table", 0, 1), j = sx_choose("z", 0, 8); double z = 0.3 * j + (j ? 0.05 : 0); int seg = z > 1; double x = xx(), y = yy(), a = at(RE[t], 0, z, seg), b = at(RE[t], 1, z, seg), d = x * x * b * b + y * y * a * a - a * a * b * b; sx_assume(beyond(d, M));
	std::unique_ptr<Aperture> p(interp("ELLIPSE", RE[t])); sx_assert(p && p->GetType() == "ELLIPSE-interpolated", "type"); sx_assert(p->CheckWithinApertureBoundaries(x, y, z) == (d < 0), "interpolated ellipse");
}
static const double OC[3][4] = {{1, 1, 0.4, 1.1}, {1.2, 1, 0.3, 1.2}, {0.9, 1.1, 0.5, 1.0}};
SX_HARNESS(interpolated_octagon, "octagons interpolated between three rows, any point, at nine positions along z")
{
	int j = sx_choose("z", 0, 8); double z = 0.3 * j + (j ? 0.05 : 0); int seg = z > 1; double x = xx(), y = yy(), w = at(OC, 0, z, seg), h = at(OC, 1, z, seg), a1 = at(OC, 2, z, seg), a2 = at(OC, 3, z, seg); double c[4] = {cut(x, y, w, h, a1, a2), cut(-x, y, w, h, a1, a2), cut(x, -y, w, h, a1, a2), cut(-x, -y, w, h, a1, a2)}; bool in = within(x, w) & within(y, h); for(int s = 0; s < 4; s++) { sx_assume(beyond(c[s], M)); in = in & (c[s] > 0); } for(double s : {1.0, -1.0}) sx_assume(beyond(x - s * w, M) & beyond(y - s * h, M));
	std::unique_ptr<Aperture> p(interp("OCTAGON", OC)); sx_assert(p && p->GetType() == "OCTAGON-interpolated", "type"); sx_assert(p->CheckWithinApertureBoundaries(x, y, z) == in, "interpolated octagon");
}
