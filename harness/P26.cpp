// P26: interpolation and ranges
//@ time: *=40
#include "hx.h"
#include <memory>
#include <vector>
#include "Interpolation.h"
#include "Range.h"
static const double T = 1e-8;
static const double nodes[7] = {-1.5, -1, -0.25, 0.25, 1, 2.25, 2.5};
static void values(std::vector<double>& y, int n) { for(int i = 0; i < n; i++) y.push_back(sx_double(sx_n("y", i).c_str(), -2, 2)); }
static bool bad(Interpolation& I, double x, double& v) { try { v = I(x); return false; } catch(Interpolation::BadRange& e) { return true; } }
SX_HARNESS(linear, "linear interpolation of points anywhere, given in any order")
{
	int n = sx_choose("points", 2, 6), sh = sx_choose("shift", 0, 2); std::vector<double> xs, ys; values(ys, n); std::vector<double> px, py; for(int i = 0; i < n; i++) { int k = sh == 0 ? i : sh == 1 ? n - 1 - i : (i * 5 + 1) % n; if(sh == 2 && n % 5 == 0) k = (i + 2) % n; px.push_back(nodes[k]); py.push_back(ys[k]); }
	std::unique_ptr<Interpolation> I; if(sh == 1) I.reset(new Interpolation(px.data(), py.data(), n)); else I.reset(new Interpolation(px, py)); px.assign(n, 0); py.assign(n, 0);
	int s = sx_choose("segment", -1, n - 1); double lo = s < 0 ? -3 : nodes[s], hi = s == n - 1 ? 4 : nodes[s + 1], v = 0; bool end = sx_bool("node"); double x = end ? (s < 0 ? nodes[0] : lo) : sx_double("x", lo, hi); if(!end && s < 0) sx_assume(x < hi); if(!end && s == n - 1) sx_assume(x > lo); bool out = bad(*I, x, v); if(end) { sx_assert(!out, "the data points are inside"); sx_close(v, ys[s < 0 ? 0 : s], T, "passes through the data"); return; } if(s < 0 || s == n - 1) { sx_assert(out, "points outside are refused"); return; } sx_assert(!out, "points between are inside"); sx_close(v, ys[s] + (ys[s + 1] - ys[s]) * ((x - lo) / (hi - lo)), T, "straight line between the data");
}
SX_HARNESS(equal, "equally spaced points, also outside and at the ends")
{
	int n = sx_choose("points", 2, 6); std::vector<double> ys; values(ys, n); static const double st[3][2] = {{-1, 0.5}, {0, 0.1}, {2, 3}}; int k = sx_choose("grid", 0, 2); double x0 = st[k][0], d = st[k][1]; Interpolation I(ys, x0, d); std::vector<double> cp(ys);
	int s = sx_choose("segment", -1, n - 1); int a = s < 0 ? 0 : s == n - 1 ? n - 2 : s; double lo = x0 + s * d, x; int how = sx_choose("where", 0, 2); if(how == 0) x = sx_double("x", lo, lo + d); else if(how == 1) x = x0 + (s < 0 ? 0 : s) * d; else { x = x0 + (n - 1) * d; a = n - 2; } sx_close(I(x), ys[a] + (ys[a + 1] - ys[a]) * ((x - (x0 + a * d)) / d), 1e-7, "straight line between (and beyond) the data");
}
SX_HARNESS(order, "higher order: data, polynomials, history")
{
	int n = sx_choose("points", 3, 7), ord = sx_choose("order", 2, 4), deg = ord < n - 1 ? ord : n - 1; std::vector<double> xs(nodes, nodes + n), ys; int mode = sx_choose("mode", 0, 1); double c[5]; if(mode == 0) values(ys, n); else { for(int j = 0; j <= deg; j++) c[j] = j < 3 ? sx_double(sx_n("c", j).c_str(), -1, 1) : 0.5; for(int i = 0; i < n; i++) { double p = 0, w = 1; for(int j = 0; j <= deg; j++) { p += c[j] * w; w *= nodes[i]; } ys.push_back(p); } } std::vector<double> ax(xs.rbegin(), xs.rend()), ay(ys.rbegin(), ys.rend()); std::unique_ptr<Interpolation> I; if(((n + ord) & 1) == 0) I.reset(new Interpolation(ax.data(), ay.data(), n, ord)); else I.reset(new Interpolation(xs, ys, ord));
	double dummy; switch(sx_choose("asked before", 0, 3)) { case 0: break; case 1: (*I)(nodes[n - 1]); break; case 2: (*I)(nodes[n - 1] - 0.1); (*I)(nodes[0]); break; default: sx_assert(bad(*I, 7, dummy) && bad(*I, -7, dummy), "points outside are refused"); (*I)(-0.5); }
	if(mode == 0) { int k = sx_choose("node", 0, n - 1); sx_close((*I)(nodes[k]), ys[k], 1e-6, "passes through the data"); } else { int s = sx_choose("segment", 0, n - 2); double x = sx_double("x", nodes[s], nodes[s + 1]), p = 0; for(int j = deg; j >= 0; j--) p = p * x + c[j]; sx_close((*I)(x), p, 1e-6, "polynomials of its order are met exactly"); }
}
SX_HARNESS(between, "higher order: the same answer whatever was asked before, close to a node")
{
	int n = sx_choose("points", 4, 7), ord = sx_choose("order", 2, 3); std::vector<double> xs(nodes, nodes + n), ys; for(int i = 0; i < n; i++) ys.push_back(i == 2 || i == 3 ? sx_double(sx_n("y", i).c_str(), -2, 2) : 0.3 * i * (i & 1 ? -1 : 1)); Interpolation I(xs, ys, ord), J(xs, ys, ord); static const double q[] = {-1.2, -0.6, 0, 0.4, 1.5, 2.4}; int a = sx_choose("first", 0, n - 2), b = sx_choose("second", 0, n - 2); I(q[a]); sx_close(I(q[b]), J(q[b]), T, "the same answer whatever was asked before"); double err = -1; double v = J.itsMethod->ValueAt(q[b], &err); sx_close(v, I(q[b]), T, "with the error too"); sx_assert(err > -1e-9, "error"); int k = sx_choose("node", 0, n - 1); double e = 1e-7; if(k > 0) sx_close(I(nodes[k] - e), ys[k], 1e-4, "continuous at the data"); if(k < n - 1) sx_close(I(nodes[k] + e), ys[k], 1e-4, "continuous at the data");
}
SX_HARNESS(range, "numerical ranges")
{
	double a = sx_double("a", -2, 2), b = sx_double("b", -2, 2), x = sx_double("x", -3, 3); NumericalRange<double> r(a, b); sx_assume(!((r.lower == 1) & (r.upper == -1))); double lo = a < b ? a : b, hi = a < b ? b : a; sx_assert((r.lower == lo) & (r.upper == hi), "ends in order"); bool in = (x >= lo) & (x <= hi); sx_assert(r(x) == in, "contains"); RangeBase::Result c = r.Check(x); sx_assert(c == (x < lo ? RangeBase::belowlower : x > hi ? RangeBase::aboveupper : RangeBase::ok), "checked"); sx_assert(!r.IsUnbounded(), "bounded"); sx_assert(r.IsFixedPoint() == (a == b), "a point"); sx_assert(r(lo) && r(hi), "contains its ends");
	NumericalRange<double> f(a); sx_assert(f.IsFixedPoint() && !f.IsUnbounded(), "a point"); sx_assert(f(x) == (x == a), "contains only the point"); NumericalRange<double> u((UnboundedRange())); sx_assert(u.IsUnbounded() && u(x) && u.Check(x) == RangeBase::ok, "unbounded"); NumericalRange<double> s(b, a); sx_assert(s == r && !(s != r), "equal"); sx_assert((f == r) == ((a == b)), "equal to the point"); sx_assert((r != u) && !(r == u), "different"); NumericalRange<int> i(5, 2); int k = sx_int("k", 0, 7); sx_assert(i(k) == (k >= 2 && k <= 5), "whole numbers");
}
