// P24: klystrons
//@ time: *=40
#include "hx.h"
#include <memory>
#include <vector>
#include "Klystron.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
static const double T = 1e-7;
struct Set { std::vector<RFStructure*> c; int n; Set(bool zero = false) { n = sx_choose("cavities", 1, 3); bool same = sx_bool("alike"); for(int i = 0; i < n; i++) { double a = same ? 0.5 : i == 1 ? 0.25 : 1.0, ph = same ? 0.3 : 0.4 * i - 0.5; if(i == 2) c.push_back(new SWRFStructure("c", 3, 1e9, zero ? 0 : a, ph)); else c.push_back(new TWRFStructure("c", 0.5 + 0.5 * i, 1e9, zero ? 0 : a, ph)); } } ~Set() { for(auto p : c) delete p; } Complex sum() const { Complex z(0); for(auto p : c) z += p->GetVoltagePhasor(); return z; } std::vector<Complex> all() const { std::vector<Complex> v; for(auto p : c) v.push_back(p->GetVoltagePhasor()); return v; } };
static void close(const Complex& a, const Complex& b, const char* w) { sx_close(a.real(), b.real(), T, w); sx_close(a.imag(), b.imag(), T, w); }
static void check(Klystron& k, const Set& s, const std::vector<Complex>& old, Complex z, bool bal)
{
	close(k.GetVoltagePhasor(), z, "phasor of the klystron"); close(s.sum(), z, "vector sum of the cavities"); for(int i = 0; i < s.n; i++) { Complex v = s.c[i]->GetVoltagePhasor(); if(bal) close(v * double(s.n), z, "equal shares"); else for(int j = 0; j < i; j++) close(v * old[j], s.c[j]->GetVoltagePhasor() * old[i], "relative voltages and phases kept"); }
}
SX_HARNESS(voltage, "voltage, phase and phasor set in any order")
{
	Set s; bool bal = sx_bool("balanced"); std::vector<Complex> o = s.all(); Complex z = s.sum(); Klystron k("k", s.c, bal ? Klystron::balanced : Klystron::vector_sum); sx_assert((int) k.GetNumberOfCavities() == s.n, "number of cavities"); sx_close(k.GetVoltage(), std::abs(z), T, "voltage of the sum"); check(k, s, o, z, bal);
	for(int step = 0; step < 2; step++) { int op = sx_choose("op", 0, 3); if(op == 0) { double v = step ? 1.5 : sx_double("v", 0.1, 5); k.SetVoltage(v); z = std::polar(v, std::arg(z)); sx_close(k.GetVoltage(), v, T, "voltage set"); } if(op == 1) { double ph = step ? 0.3 : -1.2; double v = k.GetVoltage(); k.SetPhase(ph); sx_close(k.GetPhase(), ph, T, "phase set"); sx_close(k.GetVoltage(), v, T, "voltage kept"); z = Complex(v * std::cos(ph), v * std::sin(ph)); } if(op == 2) { z = step ? Complex(-0.5, 2) : Complex(sx_double("re", 0.1, 3), 1.25); k.SetVoltagePhasor(z); } if(op == 3) { std::unique_ptr<Klystron> c(k.Copy()); double v = step ? 2.5 : sx_double("v", 0.1, 5); c->SetVoltage(v); z = std::polar(v, std::arg(z)); check(*c, s, o, z, bal); return; } check(k, s, o, z, bal); }
}
SX_HARNESS(zero, "voltage switched off and on again")
{
	Set s(sx_bool("off at first")); bool bal = sx_bool("balanced"); Klystron k("k", s.c, bal ? Klystron::balanced : Klystron::vector_sum); k.SetVoltage(0); close(s.sum(), 0, "switched off"); for(auto c : s.c) sx_close(c->GetVoltage(), 0, T, "every cavity is off"); double v = sx_double("v", 0.5, 3); k.SetVoltagePhasor(Complex(v, 0.5)); close(s.sum(), Complex(v, 0.5), "switched on again"); close(k.GetVoltagePhasor(), Complex(v, 0.5), "switched on again");
}
