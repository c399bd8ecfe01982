// P01: simple aperture shapes accept exactly the points strictly inside their geometric region
//@ time: *=60
#include "hx.h"
#include <cmath>
#include <memory>
#include "Aperture.h"
#include "DataTable.h"
static const double EPS = 1e-5;

// in / out: inside / outside by a margin that native rounding cannot cross
static void verdict(const Aperture& ap, double x, double y, bool in, bool out, const char* min, const char* mout)
{
	double z = sx_double("z", -2, 2);
	bool ok = ap.CheckWithinApertureBoundaries(x, y, z);
	sx_implies(in, ok, min);
	sx_implies(out, !ok, mout);
}
#define CIRC_IN(r) (x * x + y * y < (r) * (r) - EPS)
#define CIRC_OUT(r) (x * x + y * y > (r) * (r) + EPS)
#define ELL_IN(a, b) (x * x * (b) * (b) + y * y * (a) * (a) < (a) * (a) * (b) * (b) - EPS)
#define ELL_OUT(a, b) (x * x * (b) * (b) + y * y * (a) * (a) > (a) * (a) * (b) * (b) + EPS)
#define RECT_IN(a, b) (within(x, (a) - EPS) & within(y, (b) - EPS))
#define RECT_OUT(a, b) (beyond(x, (a) + EPS) | beyond(y, (b) + EPS))

SX_HARNESS(circle, "radius [0.1,2], x,y [-3,3]")
{
	double r = sx_double("r", 0.1, 2), x = sx_double("x", -3, 3), y = sx_double("y", -3, 3);
	if(sx_bool("full")) { CircularAperture a("CIRCLE", 0.0, r); verdict(a, x, y, CIRC_IN(r), CIRC_OUT(r), "point inside the circle is rejected", "point outside the circle is accepted"); sx_assert(a.GetType() == "CIRCLE", "type"); }
	else { CircularAperture a(r); verdict(a, x, y, CIRC_IN(r), CIRC_OUT(r), "point inside the circle is rejected", "point outside the circle is accepted"); }
}
SX_HARNESS(rectangle, "half sizes [0.1,2], x,y [-3,3]")
{
	double a = sx_double("a", 0.1, 2), b = sx_double("b", 0.1, 2), x = sx_double("x", -3, 3), y = sx_double("y", -3, 3);
	if(sx_bool("full")) { RectangularAperture p("RECTANGLE", 0.0, a, b); verdict(p, x, y, RECT_IN(a, b), RECT_OUT(a, b), "point inside the rectangle is rejected", "point outside the rectangle is accepted"); }
	else { RectangularAperture p(a, b); verdict(p, x, y, RECT_IN(a, b), RECT_OUT(a, b), "point inside the rectangle is rejected", "point outside the rectangle is accepted"); }
}
static const double LIST[] = {0.37, 1.0, 1.75};
SX_HARNESS(ellipse, "one half axis symbolic [0.1,2], the other in {0.37,1,1.75}, both orders, x,y [-3,3]")
{
	double s = sx_double("s", 0.1, 2), f = LIST[sx_choose("k", 0, 2)]; bool sw = sx_bool("swap");
	double a = sw ? f : s, b = sw ? s : f, x = sx_double("x", -3, 3), y = sx_double("y", -3, 3);
	EllipticalAperture p("ELLIPSE", 0.0, a, b);
	verdict(p, x, y, ELL_IN(a, b), ELL_OUT(a, b), "point inside the ellipse is rejected", "point outside the ellipse is accepted");
}
SX_HARNESS(rectellipse, "rectangle half sizes symbolic [0.1,2], ellipse half axes all pairs of {0.37,1,1.75}, x,y [-3,3]")
{
	double a = LIST[sx_choose("ka", 0, 2)], b = LIST[sx_choose("kb", 0, 2)], x = sx_double("x", -3, 3), y = sx_double("y", -3, 3);
	double ra = sx_double("ra", 0.1, 2), rb = sx_double("rb", 0.1, 2);
	RectEllipseAperture p("RECTELLIPSE", 0.0, ra, rb, a, b);
	verdict(p, x, y, ELL_IN(a, b) & RECT_IN(ra, rb), ELL_OUT(a, b) | RECT_OUT(ra, rb), "point inside rectangle and ellipse is rejected", "point outside rectangle or ellipse is accepted");
}
// octagon: rectangle cut by the line through (a, a tan(angle1)) and (b tan(pi/2-angle2), b)
SX_HARNESS(octagon, "half sizes [0.2,2], corner angles fixed pairs, x,y [-3,3]")
{
	double a = sx_double("a", 0.2, 2), b = sx_double("b", 0.2, 2), x = sx_double("x", -3, 3), y = sx_double("y", -3, 3);
	static const double A1[] = {0.2, 0.5, 0.7, 0.4}, A2[] = {1.3, 0.9, 0.9, 1.1};
	int k = sx_choose("k", 0, 3);
	double t1 = std::tan(A1[k]), t2 = std::tan(1.57079632679489661923 - A2[k]);
	// a genuine octagon: both corner points on the sides of the rectangle
	sx_assume(a * t1 < b - 0.01);
	sx_assume(b * t2 < a - 0.01);
	OctagonalAperture p("OCTAGON", 0.0, a, b, A1[k], A2[k]);
	double X1 = a, Y1 = a * t1, X2 = b * t2, Y2 = b;
	// outward side of the line P1->P2 (counter clockwise): cross > 0 is inside; all four mirror images
	double c[4]; int k4 = 0;
	for(int sx = -1; sx <= 1; sx += 2) for(int sy = -1; sy <= 1; sy += 2) c[k4++] = (X2 - X1) * (sy * y - Y1) - (Y2 - Y1) * (sx * x - X1);
	bool cin = (c[0] > EPS) & (c[1] > EPS) & (c[2] > EPS) & (c[3] > EPS);
	bool cout_ = (c[0] < -EPS) | (c[1] < -EPS) | (c[2] < -EPS) | (c[3] < -EPS);
	verdict(p, x, y, RECT_IN(a, b) & cin, RECT_OUT(a, b) | cout_, "point inside the octagon is rejected", "point outside the octagon is accepted");
}
// symbolic corner angles
SX_HARNESS(octagon_angles, "octagon: angle1 (0.05,0.75), angle2 (0.82,1.5) symbolic, half sizes equal [0.2,2], x,y [-3,3]")
{
	double a = sx_double("a", 0.2, 2), x = sx_double("x", 0, 3), y = sx_double("y", 0, 3);
	double a1 = sx_double("a1", 0.05, 0.75), a2 = sx_double("a2", 0.82, 1.5);
	OctagonalAperture p("OCTAGON", 0.0, a, a, a1, a2);
	double t1 = std::tan(a1), t2 = std::tan(1.57079632679489661923 - a2);
	double X1 = a, Y1 = a * t1, X2 = a * t2, Y2 = a;
	double cross = (X2 - X1) * (y - Y1) - (Y2 - Y1) * (x - X1);
	verdict(p, x, y, RECT_IN(a, a) & (cross > EPS), RECT_OUT(a, a) | (cross < -EPS), "point inside the octagon is rejected", "point outside the octagon is accepted");
}
SX_HARNESS_IEEE(boundary, "points exactly on the boundary, on the axes; sizes [0.1,2]")
{
	double r = sx_double("r", 0.1, 2), h = sx_double("h", 0.1, 2);
	int s = sx_choose("sign", 0, 1), ax = sx_choose("axis", 0, 1), shape = sx_choose("shape", 0, 2);
	double v = s ? -r : r;
	// r is the half size along the chosen axis
	double hx = ax ? h : r, hy = ax ? r : h;
	double x = ax ? 0.0 : v, y = ax ? v : 0.0;
	if(shape == 0) { CircularAperture p(r); sx_assert(!p.CheckWithinApertureBoundaries(x, y, 0), "circle boundary point accepted"); }
	else if(shape == 1) { RectangularAperture p(hx, hy); sx_assert(!p.CheckWithinApertureBoundaries(x, y, 0), "rectangle boundary point accepted"); }
	else { RectEllipseAperture p("RECTELLIPSE", 0, hx, hy, 3, 3); sx_assert(!p.CheckWithinApertureBoundaries(x, y, 0), "rectellipse boundary point accepted"); }
}
static DataTable row(const char* type, double p1, double p2, double p3, double p4)
{
	DataTable dt;
	dt.AddColumn("APERTYPE", 's'); dt.AddColumn("S", 'd'); dt.AddColumn("L", 'd');
	dt.AddColumn("APER_1", 'd'); dt.AddColumn("APER_2", 'd'); dt.AddColumn("APER_3", 'd'); dt.AddColumn("APER_4", 'd');
	dt.AddRow();
	dt.Set("APERTYPE", 0, type);
	dt.Set_d("S", 0, 1); dt.Set_d("L", 0, 1);
	dt.Set_d("APER_1", 0, p1); dt.Set_d("APER_2", 0, p2); dt.Set_d("APER_3", 0, p3); dt.Set_d("APER_4", 0, p4);
	return dt;
}
SX_HARNESS(factory, "row of each known type and an unknown type, one or two parameters symbolic [0.1,2]")
{
	int k = sx_choose("type", 0, 6);
	double p1 = k < 3 ? sx_double("p1", 0.1, 2) : k == 5 ? 1.1 : 0.8, p2 = k == 5 ? 0.6 : sx_double("p2", 0.1, 2), p3 = k == 1 ? sx_double("p3", 0.1, 2) : 1.3, p4 = k == 4 || k == 5 ? sx_double("p4", 0.1, 2) : 0.55;
	double x = sx_double("x", -3, 3), y = sx_double("y", -3, 3);
	ApertureFactory f;
	const char* names[] = {"CIRCLE", "CIRCLE", "RECTANGLE", "ELLIPSE", "ELLIPSE", "RECTELLIPSE", "NOSUCHTYPE"};
	DataTable dt = row(names[k], p1, p2, (k == 0 || k == 3) ? 0.0 : p3, (k == 0 || k == 3) ? 0.0 : p4);
	Aperture* a = f.GetInstance(*dt.begin());
	if(k == 6) { sx_assert(a == nullptr, "unknown type gives no aperture"); return; }
	sx_assert(a != nullptr, "aperture built");
	sx_assert(a->GetType() == names[k], "type of the built aperture");
	bool in, out;
	if(k == 0) { in = CIRC_IN(p1); out = CIRC_OUT(p1); }
	else if(k == 1) { in = CIRC_IN(p3); out = CIRC_OUT(p3); }
	else if(k == 2) { in = RECT_IN(p1, p2); out = RECT_OUT(p1, p2); }
	else if(k == 3) { in = ELL_IN(p1, p2); out = ELL_OUT(p1, p2); }
	else if(k == 4) { in = ELL_IN(p3, p4); out = ELL_OUT(p3, p4); }
	else { in = ELL_IN(p3, p4) & RECT_IN(p1, p2); out = ELL_OUT(p3, p4) | RECT_OUT(p1, p2); }
	verdict(*a, x, y, in, out, "factory aperture rejects an inside point", "factory aperture accepts an outside point");
	delete a;
}
