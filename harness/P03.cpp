// P03: collimator jaws: gaps, tapers, offsets and tilts
//@ time: *=25 gaps=50 offsets=45
#include "hx.h"
#include <memory>
#include "CollimatorAperture.h"
#include "Collimator.h"
static const double M = 1e-6, L = 0.6, TILT[] = {0, 0.5, -0.3, 1.5707963267948966, 2.5};
struct J { double w, h, we, he, xe, ye, xx, yy; };
static bool inside(const J& j, double t, double x, double y, double z)
{
	double f = z / L, w = j.w + (j.we - j.w) * f, h = j.h + (j.he - j.h) * f, ox = j.xe + (j.xx - j.xe) * f, oy = j.ye + (j.yy - j.ye) * f, c = std::cos(t), s = std::sin(t), u = (x - ox) * c + (y - oy) * s, v = (y - oy) * c - (x - ox) * s;
	for(double g : {1.0, -1.0}) sx_assume(beyond(2 * u - g * w, M) & beyond(2 * v - g * h, M));
	return within(2 * u, w) & within(2 * v, h);
}
static void set(CollimatorAperture& a, const J& j, int how) { if(how == 1) { a.SetEntranceWidth(j.w); a.SetEntranceHeight(j.h); } if(how == 2) { a.SetExitHeight(9); a.SetExitWidth(9); } a.SetExitWidth(j.we); a.SetExitHeight(j.he); a.SetExitXOffset(j.xx); a.SetExitYOffset(j.yy); }
static double X() { return sx_double("x", -1, 1); }
static double Y() { return sx_double("y", -1, 1); }
SX_HARNESS(gaps, "any horizontal or vertical gaps at entrance and exit, set in the constructor or later, any point, five tilts, at entrance, exit and inside, no offsets")
{
	int how = sx_choose("how", 0, 2), k = sx_choose("tilt", 0, 4), v = sx_choose("vary", 0, 1); int iz = sx_choose("z", 0, 2); if((how && (k || iz == 0)) || (k > 2 && iz != 1)) return; J j = {0.7, 1.3, 1.1, 0.8, 0, 0, 0, 0}; if(v) { j.w = sx_double("w", 0.1, 2); j.we = sx_double("we", 0.1, 2); } else { j.h = sx_double("h", 0.1, 2); j.he = sx_double("he", 0.1, 2); } double z = L * 0.5 * iz, x = X(), y = Y();
	CollimatorAperture a(how == 1 ? 0.7 : j.w, how == 1 ? 0.2 : j.h, TILT[k], L); set(a, j, how); sx_assert(a.CheckWithinApertureBoundaries(x, y, z) == inside(j, TILT[k], x, y, z), "jaws between entrance and exit");
	sx_close(a.GetFullEntranceWidth(), j.w, 1e-12, "entrance width"); sx_close(a.GetFullEntranceHeight(), j.h, 1e-12, "entrance height"); sx_close(a.GetFullExitWidth(), j.we, 1e-12, "exit width"); sx_close(a.GetFullExitHeight(), j.he, 1e-12, "exit height"); sx_close(a.GetCollimatorTilt(), TILT[k], 1e-12, "tilt"); sx_close(a.GetCollimatorLength(), L, 1e-12, "length");
}
SX_HARNESS(offsets, "any offsets at entrance and exit, any point, five tilts, at entrance, exit and inside")
{
	J j = {0.6, 1.1, 0.9, 0.7, sx_double("xe", -0.5, 0.5), sx_double("ye", -0.5, 0.5), sx_double("xx", -0.5, 0.5), sx_double("yy", -0.5, 0.5)}; int k = sx_choose("tilt", 0, 4); double z = L * 0.5 * sx_choose("z", 0, 2), x = X(), y = Y(); int zero = sx_choose("zero", 0, 3); if(zero && k > 1) return; if(zero == 1) j.xe = j.ye = 0; if(zero == 2) j.xx = j.yy = 0; if(zero == 3) { j.xe = j.xx = j.ye = 0; }
	CollimatorAperture a(j.w, j.h, TILT[k], L, j.xe, j.ye); set(a, j, 0); sx_assert(a.CheckWithinApertureBoundaries(x, y, z) == inside(j, TILT[k], x, y, z), "offset jaws"); sx_close(a.GetEntranceXOffset(), j.xe, 1e-12, "entrance offset"); sx_close(a.GetEntranceYOffset(), j.ye, 1e-12, "entrance offset"); sx_close(a.GetExitXOffset(), j.xx, 1e-12, "exit offset"); sx_close(a.GetExitYOffset(), j.yy, 1e-12, "exit offset");
}
static const J JS[] = {{0.6, 1.1, 0.9, 0.7, 0, 0, 0, 0}, {1.2, 0.8, 0.3, 0.4, 0, 0, 0, 0}, {0.5, 0.5, 1.5, 0.5, 0.2, -0.1, -0.3, 0.1}, {0.4, 1.9, 0.4, 1.9, 0.3, 0, 0.3, 0}};
SX_HARNESS(along, "four collimators at every position along their length, any point, five tilts")
{
	const J& j = JS[sx_choose("j", 0, 3)]; int k = sx_choose("tilt", 0, 4); double z = sx_double("z", 0, L), x = X(), y = Y(); CollimatorAperture a(j.w, j.h, TILT[k], L, j.xe, j.ye); set(a, j, 0); sx_assert(a.CheckWithinApertureBoundaries(x, y, z) == inside(j, TILT[k], x, y, z), "jaws along the collimator"); sx_assert(a.GetType() == "COLLIMATOR", "type");
}
SX_HARNESS(unaligned, "unaligned and one-sided jaws: any gap and offset, any point, five tilts; neither taper nor exit offset")
{
	J j = {sx_double("w", 0.1, 2), sx_double("h", 0.1, 2), 0, 0, sx_double("xe", -0.5, 0.5), sx_double("ye", -0.5, 0.5), 0, 0}; j.we = j.w; j.he = j.h; j.xx = j.xe; j.yy = j.ye; int kind = sx_choose("kind", 0, 3), k = sx_choose("tilt", 0, 4); double z = sx_choose("z", 0, 1) * L, x = X(), y = Y(), t = TILT[k], c = std::cos(t), s = std::sin(t), u = (x - j.xe) * c + (y - j.ye) * s;
	std::unique_ptr<CollimatorAperture> a; if(kind == 0) a.reset(new UnalignedCollimatorAperture(j.w, j.h, t, L, j.xe, j.ye)); else { auto* o = new OneSidedUnalignedCollimatorAperture(j.w, j.h, t, L, j.xe, j.ye, kind == 2 ? true : false); a.reset(o); sx_assert(o->GetJawSide() == (kind == 2), "side"); if(kind == 3) { o->SetJawSide(true); sx_assert(o->GetJawSide(), "side"); } }
	bool in = inside(j, t, x, y, 0); double v = (y - j.ye) * c - (x - j.xe) * s; if(kind) { bool side = kind != 1; in = within(2 * v, j.h) & (side ? 2 * u < j.w : -2 * u < j.w); } sx_assert(a->CheckWithinApertureBoundaries(x, y, z) == in, kind ? "one-sided jaw" : "unaligned jaws"); sx_assert(a->GetType() == (kind ? "ONE-SIDED COLLIMATOR" : "UNALIGNED COLLIMATOR"), "type");
}
