#include "sx.h"
#include <cmath>
#include <vector>
#include <algorithm>
#include <string>
#include "Transform3D.h"
SX_HARNESS(basic, "x,y in [-5,5]")
{
	double x = sx_double("x", -5, 5), y = sx_double("y", -5, 5);
	double r = std::sqrt(x*x + y*y);
	sx_close(r*r, x*x + y*y, 1e-9, "sqrt squares");
	if(x > 1 && y > 2) { sx_reach("xy"); sx_assert(x + y > 3, "sum"); sx_assert(r > 2.2, "r"); }
	double a = std::atan2(y, x);
	sx_close(r*std::cos(a), x, 1e-9, "polar");
	std::vector<double> v{x, y, 1.0};
	std::sort(v.begin(), v.end());
	sx_assert(v[0] <= v[1] && v[1] <= v[2], "sorted");
	int n = (int) x;
	sx_assert(n >= -5 && n <= 5, "trunc");
}
SX_HARNESS(trig, "a,b")
{
	double a = sx_double("a", -3, 3), b = sx_double("b", -3, 3);
	sx_close(std::cos(a + b), std::cos(a)*std::cos(b) - std::sin(a)*std::sin(b), 1e-12, "addition");
	sx_close(std::cosh(a + b), std::cosh(a)*std::cosh(b) + std::sinh(a)*std::sinh(b), 1e-9, "haddition");
}
SX_HARNESS(bad, "x")
{
	double x = sx_double("x", -5, 5);
	double y = x * x * x - x;
	if(x > 3.9) y += 1;
	sx_close(y, x * (x - 1) * (x + 1), 1e-9, "cubic");
}
SX_HARNESS(ints, "n in 0..20")
{
	int64_t n = sx_int("n", 0, 20);
	std::string s;
	for(int i = 0; i < n; i++) s += char('a' + i);
	sx_assert(s.size() == (size_t) n, "len");
	sx_assert(n * n <= 400, "sq");
	char c = (char) sx_int("c", 'a', 'z');
	std::string t = "hello"; t[2] = c;
	size_t p = t.find('l');
	sx_assert(p == 3 || c == 'l', "find");
	sx_assert((t == "hello") == (c == 'l'), "eq");
}
SX_HARNESS_IEEE(fp, "x")
{
	double x = sx_double("x", -5, 5), y = sx_double("y", -5, 5);
	if(x < y) sx_assert(!(y < x), "order");
	sx_assert(std::fabs(x) >= 0, "abs");
	sx_assert(x + y == y + x, "comm");
}
SX_HARNESS(geom, "rot")
{
	double a = sx_double("a", -3, 3), b = sx_double("b", -3, 3), x = sx_double("x", -1, 1);
	Transform3D t = Transform3D::rotationX(a) * Transform3D::rotationY(b) * Transform3D::translation(x, 2 * x, 1);
	Transform3D i = t * t.inv();
	sx_close(i.X().x, 0, 1e-9, "inv x");
	sx_close(i.X().y, 0, 1e-9, "inv y");
	Vector3D v(x, 1, 2);
	Vector3D w = i(v);
	sx_close(w.x, x, 1e-9, "id");
}
