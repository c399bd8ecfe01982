"""The planted bugs (see plant.py)."""
SEEDS = []


def B(id, property, edits, demo, needs, breaks, first=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, first=first))


B("P01a", "P01", [("Aperture.cpp", "	if(x * x + y * y >= radius_sq)", "	if(x * x + y * y > radius_sq)")], r"""
#include "Aperture.h"
int main() { CircularAperture a(0.5); CHECK(!a.CheckWithinApertureBoundaries(0.3, 0.4, 0)); CHECK(a.CheckWithinApertureBoundaries(0.3, 0.39, 0)); CHECK(!a.CheckWithinApertureBoundaries(-0.5, 0, 0)); return bad; }
""", "a point exactly on the circle", "points on the boundary of a circle are accepted")
B("P01b", "P01", [("Aperture.cpp", "	minRectDim = fmin(rectHalfX, rectHalfY);", "	minDim = fmin(fmin(rectHalfX, rectHalfY), fmax(ellipHalfX, ellipHalfY));\n	minRectDim = fmin(rectHalfX, rectHalfY);")], r'''
#include "Aperture.h"
int main() { RectEllipseAperture a("RECTELLIPSE", 0, 0.03, 0.03, 0.04, 0.01);
 CHECK(!a.CheckWithinApertureBoundaries(0.001, 0.02, 0)); CHECK(a.CheckWithinApertureBoundaries(0.001, 0.009, 0)); return bad; }
''', "a rectellipse whose ellipse is flatter than its rectangle", "quick acceptance reaches outside the ellipse")
B("P12a", "P12", [("Transform3D.cpp", "	x0 += r.inv() * t.x0;\n	r = t.r * r;", "	r = t.r * r;\n	x0 += r.inv() * t.x0;")], r'''
#include "Transform3D.h"
int main() { Transform3D a(Point3D(1, 0, 0), Rotation3D::rotationY(0.3)), b(Point3D(0, 0, 2), Rotation3D::rotationX(0.4)); Transform3D c = a; c *= b;
 Point3D p(0.1, 0.2, 0.3), u = b(a(p)), v = c(p); CHECK(near_(u.x, v.x) && near_(u.y, v.y) && near_(u.z, v.z)); return bad; }
''', "in-place composition of a rotated transform with one having both offset and rotation", "the offset of the second factor is rotated back by the wrong rotation")
B("P12b", "P12", [("AxisRotations.cpp", "	double ncos = cosine() * rx.cosine() - sine() * rx.sine();\n	if(ncos == 1)", "	double ncos = cosine() * rx.cosine() - sine() * rx.sine();\n	if(ncos >= 1 - 1e-6)")], r'''
#include "Transform3D.h"
int main() { Rotation3D r = Rotation3D::rotationX(0.3) * Rotation3D::rotationX(-0.2992); Point3D p(0, 0, 1), q = r * p; CHECK(near_(q.y, std::sin(0.0008), 1e-7)); return bad; }
''', "two rotations about x that nearly cancel (below about 1 mrad)", "small net rotations about x are dropped")
B("P13a", "P13", [("PSvectorTransform3D.cpp", "T(tfrm), bNoRot(tfrm.R().isIdentity())", "T(tfrm), bNoRot(tfrm.R().isIdentity() || tfrm.X().z == 0)")], r'''
#include "PSvectorTransform3D.h"
int main() { PSvector p(0); p.x() = 1e-3; p.xp() = 1e-3; p.yp() = -2e-3; p.y() = 2e-3; PSvectorTransform3D(Transform3D::rotationZ(0.5)).Apply(p);
 CHECK(near_(p.x(), 1e-3 * std::cos(0.5) + 2e-3 * std::sin(0.5), 1e-12)); return bad; }
''', "a pure rotation without longitudinal offset", "rotations are ignored when the frame is not displaced along z")
B("P13b", "P13", [("PSvectorTransform3D.cpp", "p.y() += (T.X().z * p.yp() - T.X().y);", "p.y() += (T.X().z * p.xp() - T.X().y);")], r'''
#include "PSvectorTransform3D.h"
int main() { PSvector p(0); p.yp() = 1e-3; PSvectorTransform3D(Transform3D::translation(0, 0, 2)).Apply(p); CHECK(near_(p.y(), 2e-3, 1e-12)); return bad; }
''', "a longitudinal displacement and unequal slopes", "the vertical position drifts with the horizontal slope")
B("P14a", "P14", [("ArcGeometry.cpp", "sin(phi) / h), Rotation3D::rotationY(-phi));", "sin(phi) / h), Rotation3D::rotationY(phi * h < -0.2 ? phi : -phi));")], r'''
#include "ArcGeometry.h"
int main() { ArcGeometry g(2.0, 0.5); Transform3D a = g.GetGeometryTransform(0.8, -0.4), b = g.GetGeometryTransform(-0.4, 0.8).inv(); Point3D p(0.1, 0.2, 0.3), u = a(p), v = b(p);
 CHECK(near_(u.x, v.x) && near_(u.z, v.z)); return bad; }
''', "a transform backwards along a strongly curved element", "going backwards bends the other way")
B("P14b", "P14", [("CenteredGeometry.h", "	if(fabs(s1) > hl || fabs(s2) > hl)", "	if(s1 > hl || s2 < -hl || fabs(s2 - s1) > len)")], r'''
#include "RectangularGeometry.h"
int main() { RectangularGeometry g(2.0); bool t = false; try { g.GetGeometryTransform(1.5, 0.5); } catch(AcceleratorGeometry::BeyondExtent&) { t = true; } CHECK(t); return bad; }
''', "a start point beyond the exit (or an end point before the entrance) less than a length away", "points beyond the ends are accepted")
B("P15a", "P15", [("SequenceFrame.cpp", "	return inv_t ? t.inv() : t;\n}\n\nTransform3D SequenceGeometry::GetGeometryTransform(BoundaryPlane p)", "	return inv_t && !t.R().isIdentity() ? t.inv() : t;\n}\n\nTransform3D SequenceGeometry::GetGeometryTransform(BoundaryPlane p)")], r'''
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "Drift.h"
int main() { SequenceFrame s("s"); Drift a("a", 1), b("b", 2); ComponentFrame fa(a), fb(b); s.AppendFrame(fa); s.AppendFrame(fb); s.ConsolidateConstruction();
 CHECK(near_(s.GetGeometryTransform(1.0, -1.0).X().z, -2.0)); return bad; }
''', "a transform backwards over several straight elements", "transforms backwards through straight sections have the wrong sign")
B("P15b", "P15", [("LatticeFrame.cpp", "		return t * t0 * t.inv();", "		return t0.R().isIdentity() ? t0 : t * t0 * t.inv();")], r'''
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "SectorBend.h"
int main() { SequenceFrame s("s"); SectorBend b("b", 2, 0.3, 1), c("c", 1, 0.1, 1); ComponentFrame fb(b), fc(c); s.AppendFrame(fb); s.AppendFrame(fc); s.ConsolidateConstruction();
 fb.SetLocalFrameTransform(Transform3D::translation(1e-3, 0, 0)); Point3D p(0, 0, 0), q = fb.GetEntrancePlaneTransform()(p); CHECK(near_(q.x, -1e-3 * std::cos(0.3))); return bad; }
''', "a displaced (not rotated) bend", "the displacement of a bend is not turned into its entrance frame")
B("P15c", "P15", [("SequenceFrame.cpp", "		s += ext.second;", "		s -= ext.first;")], r"""
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "Drift.h"
int main() { SequenceFrame s("s", SequenceFrame::originAtEntrance), in("i", SequenceFrame::originAtEntrance); Drift a("a", 1), b("b", 2); ComponentFrame fa(a), fb(b);
 in.AppendFrame(fa); s.AppendFrame(in); s.AppendFrame(fb); s.ConsolidateConstruction(); CHECK(near_(fb.GetLocalPosition(), 2.0)); return bad; }
""", "a sub-line with its origin at its entrance or exit, followed by another element", "elements after such a sub-line are displaced")

B("P16a", "P16", [("Transformable.cpp", "	if(local_T)\n	{\n		delete local_T;\n		local_T = nullptr;\n	}\n	Invalidate();", "	if(local_T)\n	{\n		*local_T = Transform3D(local_T->X(), Rotation3D());\n		if(local_T->X() == Point3D(0, 0, 0))\n		{\n			delete local_T;\n			local_T = nullptr;\n		}\n	}\n	Invalidate();")], r'''
#include "ComponentFrame.h"
#include "Drift.h"
int main() { Drift d("D", 1); ComponentFrame f(d); f.TranslateX(0.1); f.ClearTransform(); CHECK(!f.IsTransformed()); return bad; }
''', "clearing a translated frame", "clearing keeps the translation")
B("P16b", "P16", [("SupportStructure.cpp", "double phiy = dX.x / s0;", "double phiy = dX.x / (s0 + X1.x);")], r'''
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "SupportStructure.h"
#include "Drift.h"
int main() { SequenceFrame t("T", SequenceFrame::originAtEntrance); Drift a("a", 0.02); ComponentFrame f(a); GirderMount m("G"); m.AppendFrame(f); t.AppendFrame(m); t.ConsolidateConstruction();
 AcceleratorSupportList s; m.ExportSupports(s); s[0]->SetOffset(1e-3, 0, 0); s[1]->SetOffset(-1e-3, 0, 0);
 Transform3D o = m.GetGeometryTransform(AcceleratorGeometry::exit) * m.GetPhysicalTransform(); CHECK(near_(o(Point3D(-1e-3, 0, 0.02)).x, 0, 1.2e-5)); return bad; }
''', "a girder short compared with the horizontal offsets of its supports", "the yaw of the girder uses the wrong lever arm")
B("P16c", "P16", [("MagnetMover.cpp", "return Transform3D(t) * LatticeFrame::GetLocalFrameTransform();", "return LatticeFrame::GetLocalFrameTransform() * Transform3D(t);")], r'''
#include "ComponentFrame.h"
#include "MagnetMover.h"
#include "Drift.h"
int main() { MagnetMover m("M"); Drift d("D", 1); ComponentFrame f(d); m.AppendFrame(f); m.ConsolidateConstruction(); m.TranslateX(0.1); m.SetRoll(0.5);
 Point3D p = m.GetLocalFrameTransform()(Point3D(0.1, 0, 0)); CHECK(near_(p.x, 0) && near_(p.y, 0)); return bad; }
''', "a displaced mover that is rolled", "the roll is applied about the undisplaced axis")
B("P16d", "P16", [("AcceleratorSupport.h", "	modified = true;\n	return offset += dX;", "	modified = modified || dX.x != 0 || dX.y != 0;\n	return offset += dX;")], r'''
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "SupportStructure.h"
#include "Drift.h"
int main() { SequenceFrame t("T", SequenceFrame::originAtEntrance); Drift a("a", 1); ComponentFrame f(a); SimpleMount m("G"); m.AppendFrame(f); t.AppendFrame(m); t.ConsolidateConstruction();
 AcceleratorSupportList s; m.ExportSupports(s); s[0]->SetOffset(1e-3, 0, 0); f.GetPhysicalTransform(); double z = m.GetPhysicalTransform().X().z; s[0]->IncrementOffset(0, 0, 1e-3); CHECK(near_(m.GetPhysicalTransform().X().z - z, 1e-3)); return bad; }
''', "a purely longitudinal increment after the transform was looked at", "longitudinal increments are not taken into account")

PROCDEMO = r'''
#include <vector>
#include "ProcessStepManager.h"
#include "BunchProcess.h"
#include "ParticleBunch.h"
#include "Drift.h"
#include "Marker.h"
#include "ComponentTracker.h"
#include "StandardMultipoles.h"
using namespace ParticleTracking;
struct C { int who; double ds; }; static std::vector<C> log_;
struct R : BunchProcess { int me, cc = 0; double mx; R(int m, int p, double x, bool a = true) : BunchProcess("R", p), me(m), mx(x) { active = a; } void InitialiseProcess(Bunch&) {} void SetCurrentComponent(AcceleratorComponent&) { cc++; } void DoProcess(double d) { log_.push_back({me, d}); } double GetMaxAllowedStepSize() const { return mx; } };
'''
B("P06a", "P06", [("ProcessStepManager.cpp", "(*p)->GetPriority() <= aProcess->GetPriority();", "(*p)->GetPriority() < aProcess->GetPriority();")], PROCDEMO + r'''
int main() { ProcessStepManager M; M.AddProcess(new R(1, 2, 9)); M.AddProcess(new R(2, 2, 9)); Drift d("D", 1); M.Track(d); CHECK(log_.size() == 2 && log_[0].who == 1); return bad; }
''', "two processes of equal priority", "equal priorities act in reverse order of insertion")
B("P06b", "P06", [("ProcessStepManager.cpp", "		if(proc->IsActive())\n		{\n			ds = std::min", "		if(proc->IsActive() && proc->GetMaxAllowedStepSize() < ds / 2)\n		{\n			ds = std::min")], PROCDEMO + r'''
int main() { ProcessStepManager M; M.AddProcess(new R(1, 0, 0.6)); Drift d("D", 1); M.Track(d); CHECK(log_.size() == 2 && log_[0].ds <= 0.6); return bad; }
''', "a step limit between half of and the full remaining length", "a limit a little below the remaining length is ignored")
B("P06c", "P06", [("ComponentIntegrator.h", "	if(AtEntrance())\n	{\n		TrackEntrance();\n	}", "	if(cur_S <= 0.01 * tot_S)\n	{\n		TrackEntrance();\n	}")], PROCDEMO + r'''
struct I : ComponentIntegrator { int GetComponentIndex() const { return Drift::ID; } void TrackStep(double) {} void TrackEntrance() { extern int ent; ent++; } }; int ent;
struct T : ComponentTracker { T() { Register(new I); } };
int main() { T t; Drift d("D", 10); d.PrepareTracker(t); t.TrackStep(0.05); t.TrackStep(0.05); t.TrackStep(9.9); CHECK(ent == 1); return bad; }
''', "a first step below 1% of the element length", "the entrance is applied twice")


TRKDEMO = """
#include <vector>
#include <memory>
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "Components.h"
using namespace ParticleTracking; typedef ParticleComponentTracker PT;
static const double P0 = 10, brho = 10 / 0.299792458;
PSvector run(int k, AcceleratorComponent& c, PSvector p, std::vector<double> st, double q = 1) { std::unique_ptr<PT> t(k == 0 ? new PT(TRANSPORT::StdISet()) : k == 1 ? new PT(THIN_LENS::StdISet()) : new PT(SYMPLECTIC::StdISet())); ParticleBunch b(P0, q); b.AddParticle(p); t->SetBunch(b); c.PrepareTracker(*t); for(double s : st) t->TrackStep(s); PSvector r = *b.begin(); return r; }
bool same(PSvector a, PSvector b, double t) { bool ok = true; for(int i = 0; i < 6; i++) if(!(std::fabs(a[i] - b[i]) <= t)) ok = false; return ok; }
"""
B("P07a", "P07", [("StdIntegrators.cpp", "	if(fequal(Bz, 0))", "	if(fequal(q * Bz / brho * ds, 0, 0.01))")], TRKDEMO + r"""
int main() { Solenoid s("s", 1, 0.4 * brho); PSvector p(0); p.x() = 1e-3; CHECK(same(run(0, s, p, {1.0}), run(0, s, p, {0.02, 0.98}), 1e-9)); return bad; }
""", "a short step in a solenoid", "short steps in a solenoid are tracked as drifts")
B("P07b", "P07", [("SymplecticIntegrators.cpp", "			+ c2 * (1.0 - xc) + c4 * (1.0 - xc2) / 4.0;\n\n		x0 = x1;", "			+ c2 * (1.0 - xc) - c4 * (1.0 - xc2) / 4.0;\n\n		x0 = x1;")], TRKDEMO + r"""
int main() { SectorBend s("s", 1, 0.4, 0.4 * brho); PSvector p(0); p.x() = 1e-2; p.xp() = 1e-2; CHECK(same(run(2, s, p, {1.0}), run(2, s, p, {0.4, 0.6}), 1e-9)); return bad; }
""", "a particle displaced and inclined in a symplectic bend", "the path length in a bend depends on the steps")
B("P07c", "P07", [("StdIntegrators.cpp", "	double len = splitMagnet ? ds / 2.0 : ds;\n\n	RMtrx M(3, Pref);", "	double len = splitMagnet ? ds / 2.0 : ds;\n\n	RMtrx M(3, fequal(ds, currentComponent->GetLength()) ? P0 : Pref);")], TRKDEMO + r"""
int main() { SectorBend s("s", 1, 0.4, 0.4 * brho * 1.01); PSvector p(0); CHECK(same(run(1, s, p, {1.0}), run(1, s, p, {0.4, 0.6}), 1e-9)); return bad; }
""", "a mispowered bend tracked in one step", "the field error is ignored when the whole bend is one step")
B("P20a", "P20", [("SymplecticIntegrators.cpp", "px0 * xs * wx / fabs(k1 + h * h) + dp", "px0 * xs * wx / (k1 + h * h) + dp")], TRKDEMO + r"""
int main() { SectorBend s("s", 1, 0.1, 0.1 * brho); s.SetB1(-0.3 * brho); PSvector p(0); p.xp() = 1e-6; CHECK(run(2, s, p, {1.0}).x() > 0); return bad; }
""", "a symplectic bend whose gradient defocuses more than the bend focuses", "the horizontal displacement has the wrong sign")
B("P20b", "P20", [("StdIntegrators.cpp", "		field.SetCoefficient(0, Complex(0, b0.imag()));", "		field.SetCoefficient(0, Complex(0));")], TRKDEMO + r"""
int main() { SectorBend s("s", 1, 0.1, 0.1 * brho); s.GetField().SetComponent(0, 0.1 * brho, 1e-3 * brho); CHECK(near_(run(1, s, PSvector(0), {1.0}).yp(), 1e-3, 1e-5)); return bad; }
""", "a bend with a skew dipole component, thin-lens tracking", "the vertical kick is lost")
B("P20c", "P20", [("TransportMatrix.cpp", "	R(3, 2) = -h*tan(theta - phi);", "	R(3, 2) = -h*tan(theta) + h * phi;")], TRKDEMO + r"""
int main() { SectorBend s("s", 1, 0.1, 0.1 * brho); s.SetPoleFaceInfo(new SectorBend::PoleFace(0.6, 0.5, 0.2), new SectorBend::PoleFace(0)); PSvector p(0); p.y() = 1e-3; PSvector a = run(1, s, p, {1.0}), b = run(0, s, p, {1.0}); CHECK(near_(a.yp(), b.yp(), 2e-7)); return bad; }
""", "strongly rotated pole faces with a fringe field", "vertical edge focusing is only right for small face angles")
BUNCHDEMO = r"""
#include "ParticleBunch.h"
#include "ParticleDistributionGenerator.h"
#include "BeamData.h"
using namespace ParticleTracking;
"""
B("P10a", "P10", [("ParticleBunch.cpp", "p->dp() = (p->dp() - dpp) / onePlusDpp;", "p->dp() = (p->dp() - dpp) * (1 - dpp);")], BUNCHDEMO + r"""
int main() { ParticleBunch b(10, 1); PSvector p(0); p.dp() = 0.1; b.AddParticle(p); double a = b.GetReferenceMomentum() * (1 + b.FirstParticle().dp()); b.AdjustRefMomentum(0.05); CHECK(near_(b.GetReferenceMomentum() * (1 + b.FirstParticle().dp()), a, 1e-9)); return bad; }
""", "a sizeable change of the reference momentum", "momenta change by second-order terms")
B("P10b", "P10", [("ParticleBunch.cpp", "	double CT = GetReferenceTime() - meanct;", "	double CT = GetReferenceTime() + meanct;")], BUNCHDEMO + r"""
int main() { ParticleBunch b(10, 1); PSvector p(0); p.ct() = 0.3; b.AddParticle(p); b.SetReferenceTime(7); b.AdjustRefTimeToMean(); CHECK(near_(b.GetReferenceTime() - b.FirstParticle().ct(), 6.7, 1e-9)); return bad; }
""", "the bunch's arrival times are looked at after the adjustment", "arrival times shift by twice the mean")
B("P11a", "P11", [("ParticleBunch.h", "	return pArray.erase(p);", "	if(p != pArray.begin()) { size_t i = p - pArray.begin(); *p = pArray.back(); pArray.pop_back(); return pArray.begin() + i; }\n	return pArray.erase(p);")], BUNCHDEMO + r"""
int main() { ParticleBunch b(10, 1); for(int i = 0; i < 4; i++) { PSvector p(i); b.AddParticle(p); } b.erase(b.begin() + 1); CHECK(b.GetParticles()[1].x() == 2); CHECK(b.GetParticles()[2].x() == 3); return bad; }
""", "a particle in the middle of the bunch is removed and order matters", "the last particle takes its place")
B("P11b", "P11", [("NormalTransform.cpp", "	return D * B * A * C;", "	return B * A * D * C;")], BUNCHDEMO + r"""
struct G : ParticleDistributionGenerator { PSvector GenerateFromDistribution() const { PSvector p(0); p.dp() = 1; return p; } };
int main() { BeamData t; t.beta_x = 4; t.beta_y = 1; t.emit_x = t.emit_y = 1e-6; t.p0 = 10; t.Dx = 1; t.sig_dp = 1; G g; ParticleBunch b(2, g, t); CHECK(near_(b.GetParticles()[1].x(), b.GetParticles()[1].dp(), 1e-9)); return bad; }
""", "a beam with dispersion", "the dispersion of the generated bunch is scaled with the beta function")
SIMDEMO = r"""
#include "TrackingSimulation.h"
#include "AcceleratorModelConstructor.h"
#include "BunchProcess.h"
#include "BunchConstructor.h"
#include "ParticleBunch.h"
#include "Drift.h"
#include "Marker.h"
using namespace ParticleTracking;
struct Ctor : BunchConstructor { Bunch* ConstructBunch(int) const { ParticleBunch* b = new ParticleBunch(10, 1); b->AddParticle(PSvector(0)); return b; } };
struct Nop : BunchProcess { Nop() : BunchProcess("N", 0) { active = true; } void InitialiseProcess(Bunch&) {} void SetCurrentComponent(AcceleratorComponent&) {} void DoProcess(double) {} double GetMaxAllowedStepSize() const { return 100; } };
"""
B("P08a", "P08", [("TrackingSimulation.cpp", "		if(includeX)\n		{\n			aBunch.ApplyTransformation(frame->GetExitPlaneTransform());", "		if(includeX && !(fb && injOnAxis))\n		{\n			aBunch.ApplyTransformation(frame->GetExitPlaneTransform());")], SIMDEMO + r"""
int main() { AcceleratorModelConstructor k; k.AppendComponent(*new Drift("A", 1)); k.AppendComponent(*new Drift("B", 1)); AcceleratorModel* m = k.GetModel(); (*m->GetBeamline().begin())->Translate(0.25, 0, 0); TrackingSimulation s(m->GetBeamline()); s.AddProcess(new Nop); s.SetInitialBunchCtor(new Ctor); s.InjectBeamOnAxis(true);
 CHECK(near_(static_cast<ParticleBunch&>(s.Run()).FirstParticle().x(), 0.25, 1e-12)); return bad; }
""", "injection on the axis of a displaced first element", "the beam stays on the displaced axis after the first element")
B("P08b", "P08", [("TrackingSimulation.cpp", "		if(p->Match(key))\n		{\n			return true;\n		}", "		if(p->Match(key) || p + 1 == ids.end())\n		{\n			return p->Match(key) && p != ids.begin() + 2;\n		}")], SIMDEMO + r"""
struct Out : SimulationOutput { int n = 0; Out() { output_all = output_initial = output_final = false; } void Record(const ComponentFrame*, const Bunch*) { n++; } void RecordInitialBunch(const Bunch*) {} void RecordFinalBunch(const Bunch*) {} };
int main() { AcceleratorModelConstructor k; k.AppendComponent(*new Drift("A", 1)); k.AppendComponent(*new Drift("B", 1)); k.AppendComponent(*new Marker("C")); AcceleratorModel* m = k.GetModel(); TrackingSimulation s(m->GetBeamline()); s.AddProcess(new Nop); s.SetInitialBunchCtor(new Ctor); Out o; o.AddIdentifier("*.A"); o.AddIdentifier("*.B"); o.AddIdentifier("*.C"); s.SetOutput(&o); s.Run(); CHECK(o.n == 3); return bad; }
""", "three or more output patterns", "elements matching the third pattern only are not recorded")
B("P28a", "P28", [("StringPattern.cpp", "	return n == s.length() || wcterm.second;", "	return n == s.length() || (wcterm.second && n + 1 != s.length());")], "#include \"StringPattern.h\"\n" + r"""
int main() { int bad = 0; if(!StringPattern("a*").Match("abc") || !StringPattern("a*").Match("ab")) bad = 1; return bad; }
""", "a pattern ending in a wildcard against a name with exactly one character beyond the last literal", "the wildcard does not match a single character")
B("P28b", "P28", [("StringPattern.cpp", "		if(n == s.length())\n		{\n			return false;\n		}\n", "		if(n == s.length())\n		{\n			return wcterm.second;\n		}\n")], "#include \"StringPattern.h\"\n" + r"""
int main() { int bad = 0; if(StringPattern("a*b*").Match("a")) bad = 1; if(!StringPattern("a*b*").Match("ab")) bad = 1; return bad; }
""", "a pattern with a further literal between wildcards against a name that ends after the first", "the name matches without containing the literal")
B("P28c", "P28", [("StringPattern.cpp", "			n = s.find(*i, n);", "			n = s.find(*i, n ? n - 1 : n);")], "#include \"StringPattern.h\"\n" + r"""
int main() { int bad = 0; if(StringPattern("aba*ba*").Match("aba")) bad = 1; if(StringPattern("a*aa*").Match("aa")) bad = 1; if(!StringPattern("a*aa*").Match("aaa")) bad = 1; return bad; }
""", "consecutive literals of which one ends as the next begins", "overlapping occurrences are accepted")
MODDEMO = r"""
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Components.h"
#include "Channels.h"
#include "SequenceFrame.h"
using namespace std;
"""
B("P31a", "P31", [("AcceleratorModel.cpp", "	Index n0 = distance(lattice.begin(), bline.begin());", "	Index n0 = bline.last_index() + 1 == lattice.size() ? 0 : bline.first_index();")], MODDEMO + r"""
int main() { AcceleratorModelConstructor k; k.AppendComponent(*new Drift("a", 1)); k.AppendComponent(*new Drift("b", 1)); k.AppendComponent(*new Drift("c", 1)); AcceleratorModel* m = k.GetModel(); vector<AcceleratorModel::Index> v; m->GetIndexes(m->GetBeamline(1, 2), "Drift.c", v); CHECK(v.size() == 1 && v[0] == 2); return bad; }
""", "indices within a part of the beamline that ends at its end", "the indices count from the start of the part")
B("P31b", "P31", [("ElementRepository.cpp", "	return rv.second;", "	return rv.second || theElements.size() == 1;")], "#include \"ElementRepository.h\"\n#include \"Drift.h\"\n" + r"""
int main() { ElementRepository r; Drift* d = new Drift("a", 1); CHECK(r.Add(d)); CHECK(!r.Add(d)); return bad; }
""", "adding the only element again", "it is reported as new")
B("P31c", "P31", [("AcceleratorModelConstructor.cpp", "	SequenceFrame* cf = frameStack.top();\n	frameStack.pop();\n	(frameStack.top())->AppendFrame(*cf);", "	SequenceFrame* cf = frameStack.top();\n	frameStack.pop();\n	if(frameStack.size() > 1)\n	{\n		static_cast<SequenceFrame*>(currentModel->globalFrame)->AppendFrame(*cf);\n		return;\n	}\n	(frameStack.top())->AppendFrame(*cf);")], MODDEMO + r"""
int main() { AcceleratorModelConstructor k; SequenceFrame *a = new SequenceFrame("a"), *b = new SequenceFrame("b"); k.NewFrame(a); k.NewFrame(b); k.AppendComponent(*new Drift("x", 1)); k.EndFrame(); k.AppendComponent(*new Drift("y", 2)); k.EndFrame(); k.GetModel(); CHECK(near_(a->GetGeometryLength(), 3)); return bad; }
""", "frames nested in frames", "an inner frame is appended to the outermost")
B("P25a", "P25", [("StdChannelDefs.cpp", "DEF_RW_CHANNEL(CorrectorWinding, Y, &CorrectorWinding::GetBx, &CorrectorWinding::SetBx);", "DEF_RW_CHANNEL(CorrectorWinding, Y, &CorrectorWinding::GetBx, &CorrectorWinding::SetBy);")], MODDEMO + "#include \"CorrectorWinding.h\"\n" + r"""
int main() { AcceleratorModelConstructor k; Quadrupole* q = new Quadrupole("q", 1, 1); k.AppendComponent(*q); CorrectorWinding* w = new CorrectorWinding(*q); k.AddModelElement(w); AcceleratorModel* m = k.GetModel(); vector<RWChannel*> v; m->GetRWChannels("CorrectorWinding.*.Y", v); v[0]->Write(0.5); CHECK(near_(w->GetBx(), 0.5)); return bad; }
""", "the vertical corrector winding channel", "writing it sets the other field")
B("P25b", "P25", [("LinearFBSystem.cpp", "	newActs += -gain * (*Mi)(S);", "	newActs += (actuatorQueue ? -1.0 : -gain) * (*Mi)(S);")], "#include \"LinearFBSystem.h\"\n" + r"""
struct V : RWChannel { double v; V(double x) : v(x) {} std::string GetID() const { return "V"; } double Read() const { return v; } void Write(double x) { v = x; } };
int main() { V* s = new V(1), *a = new V(0); std::vector<ROChannel*> r(1, s); std::vector<RWChannel*> w(1, a); RealMatrix M(1, 1); M(0, 0) = 1; LinearFBSystem f(r, w, M); f.SetGain(0.5); f.SetPulseDelay(2); f.Apply(); f.Apply(); CHECK(near_(a->v, -0.5)); return bad; }
""", "a delayed feedback with gain other than one", "the gain is ignored")
B("P25c", "P25", [("Channels.cpp", "	for(size_t i = 0; i < Size(); i++)\n	{\n		RWCh(i)->Increment(values[i]);\n	}", "	for(size_t i = 0; i < Size(); i++)\n	{\n		RWCh(i)->Write(RWCh(0)->Read() + values[i]);\n	}")], "#include \"Channels.h\"\n" + r"""
struct V : RWChannel { double v; V(double x) : v(x) {} std::string GetID() const { return "V"; } double Read() const { return v; } void Write(double x) { v = x; } };
int main() { V *a = new V(1), *b = new V(5); std::vector<RWChannel*> w; w.push_back(a); w.push_back(b); RWChannelArray r(w); RealVector d(2); d[0] = 1; d[1] = 1; r.IncrementAll(d); CHECK(near_(a->v, 2) && near_(b->v, 6)); return bad; }
""", "incrementing channels of different values by a vector", "all are incremented from the first")
ALGDEMO = "#include \"TLAS.h\"\n#include \"TLASimp.h\"\n#include \"LinearAlgebra.h\"\nusing namespace TLAS;\n"
B("P29a", "P29", [("TLASimp.h", "			sign = -sign;", "			sign = j + 2 < n ? -sign : sign;")], ALGDEMO + r"""
int main() { RealMatrix M(2, 2, 0.0); M(0, 1) = M(1, 0) = 1; CHECK(near_(Det(M), -1)); return bad; }
""", "a matrix whose decomposition exchanges the last two rows", "the determinant has the wrong sign")
B("P29b", "P29", [("TLASimp.h", "		if(w[i] <= wmin)", "		if(w[i] <= wmin * T(1e-12))")], ALGDEMO + r"""
int main() { RealMatrix M(3, 2); for(int i = 0; i < 3; i++) { M(i, 0) = 1.1 + 0.3 * i; M(i, 1) = 3.3 + 0.9 * i + 1e-10 * i * i; } SVDMatrix<double> s(M); RealVector b(3); b[0] = 1; b[1] = -2; b[2] = 3; const RealVector c(b); RealVector x = s(c); CHECK(near_(3 * x[0], x[1], 1e-4)); return bad; }
""", "a matrix with dependent columns", "the solution is not of minimal norm but arbitrarily large")
B("P29c", "P29", [("LinearAlgebra.cpp", "			w(row, col) = (v(row, col) + v(col, row)) / 2;", "			w(row, col) = v(row, col);")], ALGDEMO + r"""
int main() { RealMatrix A = RealMatrix(IdentityMatrix(6)); A(0, 0) = 1.1; A(0, 1) = 0.3; A(1, 0) = -0.2; A(0, 3) = 0.2; A(2, 4) = 0.1; RealMatrix B(A); Symplectify(B);
 double S[6][6] = {{0}}; for(int i = 0; i < 3; i++) { S[2*i][2*i+1] = 1; S[2*i+1][2*i] = -1; }
 for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { double t = 0; for(int k = 0; k < 6; k++) for(int l = 0; l < 6; l++) t += B(k, i) * S[k][l] * B(l, j); CHECK(near_(t, S[i][j], 1e-6)); }
 return bad; }
""", "a matrix that is not symplectic to begin with", "the symmetrisation is dropped: the result of Symplectify is not symplectic")

COLDEMO = """
#include <vector>
#include "CollimateParticleProcess.h"
#include "ProcessStepManager.h"
#include "ParticleBunch.h"
#include "Aperture.h"
#include "Components.h"
using namespace ParticleTracking;
struct Mv : ParticleBunchProcess { Mv() : ParticleBunchProcess("MV", 0) {} void SetCurrentComponent(AcceleratorComponent&) { active = true; } void DoProcess(double ds) { for(auto& p : *currentBunch) p.x() += p.xp() * ds; } double GetMaxAllowedStepSize() const { return 1e9; } };
struct Out : CollimationOutput { std::vector<double> pos; std::vector<int> turn; void Dispose(AcceleratorComponent&, double p, Particle&, int t) { pos.push_back(p); turn.push_back(t); } };
void add(ParticleBunch& b, double x, double xp) { PSvector p(0); p.x() = x; p.xp() = xp; p.id() = b.size(); b.AddParticle(p); }
"""
B("P04a", "P04", [("CollimateParticleProcess.cpp", "	nlost += lost.size();", "	nlost = lost.size();")], COLDEMO + r"""
int main() { ProcessStepManager M; auto* c = new CollimateParticleProcess(1, COLL_AT_EXIT); M.AddProcess(new Mv); M.AddProcess(c); c->SetLossThreshold(50); ParticleBunch b(10, 4); add(b, 0, 0); add(b, 0, 0); add(b, 0.015, 0.01); add(b, 0.03, 0); RectangularAperture a(0.02, 0.02); Drift d("d", 0.2), e("e", 0.8); d.SetAperture(&a); e.SetAperture(&a); M.Initialise(b); M.Track(d); bool t = false; try { M.Track(e); } catch(ExcessiveParticleLoss&) { t = true; } CHECK(t); return bad; }
""", "losses spread over several elements", "the losses of earlier elements do not count towards the threshold")
B("P04b", "P04", [("CollimateParticleProcess.cpp", "			// Not interacting", "			// Not interacting")] if False else [("CollimateParticleProcess.cpp", "					lost_i.push_back(*ip);\n					ip = pindex->erase(ip);", "					lost_i.push_back(*ip);\n					ip = pindex->erase(particle_number == first_loss ? ip : prev(pindex->end()));\n					if(ip == pindex->end())\n					{\n						ip = prev(ip);\n					}")], COLDEMO + r"""
int main() { ProcessStepManager M; auto* c = new CollimateParticleProcess(1, COLL_AT_EXIT); M.AddProcess(new Mv); M.AddProcess(c); c->IndexParticles(true); ParticleBunch b(10, 4); add(b, 0, 0); add(b, 0.03, 0); add(b, 0, 0); add(b, 0.03, 0); add(b, 0, 0); RectangularAperture a(0.02, 0.02); Drift d("d", 0.2); d.SetAperture(&a); M.Initialise(b); M.Track(d); std::vector<size_t> v(c->GetIndexes().begin(), c->GetIndexes().end()); CHECK(v.size() == 3 && v[0] == 0 && v[1] == 2 && v[2] == 4); return bad; }
""", "more than one particle lost at the same place, with indexing", "wrong indices are dropped for all but the first loss")
B("P04c", "P04", [("CollimateParticleProcess.cpp", "				if((LostParticleTracker->GetRemainingLength() - StepSize) < 0)", "				if((LostParticleTracker->GetRemainingLength() - 2 * StepSize) < 0)")], COLDEMO + r"""
int main() { ProcessStepManager M; auto* c = new CollimateParticleProcess(1, COLL_AT_EXIT); Out o; M.AddProcess(new Mv); M.AddProcess(c); c->SetCollimationOutput(&o); ParticleBunch b(10, 4); add(b, 0, 0); add(b, 0.015, 0.03); RectangularAperture a(0.02, 0.02); Drift d("d", 0.25); d.SetAperture(&a); M.Initialise(b); M.Track(d); CHECK(o.pos.size() == 1 && near_(o.pos[0], 0.2)); return bad; }
""", "a particle that reaches the aperture in the last full bin of an element whose length is not a multiple of the bin size", "the loss is reported at the end of the element")
B("P04d", "P04", [("CollimateParticleProcess.cpp", "	else if(component.GetName() == FirstElementName && component.GetComponentLatticePosition() == FirstElementS)", "	else if(component.GetName() == FirstElementName && component.GetComponentLatticePosition() == FirstElementS && !idtbl.empty())")], COLDEMO + r"""
int main() { ProcessStepManager M; auto* c = new CollimateParticleProcess(1, COLL_AT_EXIT); Out o; M.AddProcess(new Mv); M.AddProcess(c); c->SetCollimationOutput(&o); ParticleBunch b(10, 4); add(b, 0, 0); add(b, 0.015, 0.03); RectangularAperture a(0.02, 0.02); Drift d("d", 0.1); d.SetAperture(&a); M.Initialise(b); M.Track(d); M.Track(d); CHECK(o.turn.size() == 1 && o.turn[0] == 2); return bad; }
""", "a loss after the first turn", "the turn is always reported as 1")

LOSSDEMO = """
#include <vector>
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "Collimator.h"
#include "Components.h"
using namespace ParticleTracking;
void put(CollimationOutput& o, AcceleratorComponent& c, double pos, int turn = 1) { PSvector p(0); o.Dispose(c, pos, p, turn); }
"""
B("P49a", "P49", [("LossMapCollimationOutput.cpp", "			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->interval ==\n				OutputLosses[outit].interval))", "			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->interval <=\n				OutputLosses[outit].interval + 0.1))")], LOSSDEMO + r"""
int main() { LossMapCollimationOutput& o = *new LossMapCollimationOutput(tencm); Drift d("d", 1); d.SetComponentLatticePosition(5); put(o, d, 0.05); put(o, d, 0.15); o.Finalise(); CHECK(o.OutputLosses.size() == 2 && near_(o.OutputLosses[0].lost, 1)); return bad; }
""", "losses in neighbouring intervals of one element", "neighbouring intervals are merged")
B("P49b", "P49", [("LossMapCollimationOutput.cpp", "		if(currentComponent->GetType() != \"Collimator\" && temp.s >=", "		if(currentComponent->GetType() != \"Collimator\" && temp.position >=")], LOSSDEMO + r"""
int main() { LossMapCollimationOutput& o = *new LossMapCollimationOutput(tencm); o.SetWarmRegion(std::make_pair(5.5, 6.0)); Drift d("d", 1); d.SetComponentLatticePosition(5); put(o, d, 0.75); CHECK(o.DeadParticles[0].temperature == LossData::Cold); return bad; }
""", "a warm region that starts inside an element", "warm regions are applied to the position of the loss instead of the element")
B("P49c", "P49", [("CollimationOutput.h", "	return (a.s + a.position + a.interval) < (b.s + b.position + a.interval);", "	return (a.s + a.interval) < (b.s + a.interval);")], LOSSDEMO + r"""
int main() { LossMapCollimationOutput& o = *new LossMapCollimationOutput(tencm); Drift d("d", 1); d.SetComponentLatticePosition(5); put(o, d, 0.05); put(o, d, 0.55); put(o, d, 0.06); o.Finalise(); CHECK(o.OutputLosses.size() == 2); return bad; }
""", "losses in one element that do not arrive in order of position", "an interval appears twice in the loss map")

APDEMO = """
#include <memory>
#include "Aperture.h"
#include "InterpolatedApertures.h"
#include "CollimatorAperture.h"
#include "DataTable.h"
Aperture* tab(const char* ty, std::vector<std::vector<double>> r) { DataTable t; t.AddColumn("APERTYPE", 's'); t.AddColumn("S", 'd'); t.AddColumn("L", 'd'); for(const char* c : {"APER_1", "APER_2", "APER_3", "APER_4"}) t.AddColumn(c, 'd'); for(size_t i = 0; i < r.size(); i++) { t.AddRow(); t.Set("APERTYPE", i, std::string(ty)); t.Set_d("S", i, r[i][0]); t.Set_d("APER_1", i, r[i][1]); t.Set_d("APER_2", i, r[i][2]); t.Set_d("APER_3", i, r[i][3]); t.Set_d("APER_4", i, r[i][4]); } return InterpolatorFactory::GetInstance(t); }
"""
B("P02a", "P02", [("Aperture.cpp", "	minDim = min({rectHalfX, rectHalfY, ellipHalfX, ellipHalfY});", "	minDim = min({rectHalfX, rectHalfY, fmax(ellipHalfX, ellipHalfY)});")], APDEMO + r"""
int main() { std::unique_ptr<Aperture> a(new RectEllipseAperture("RECTELLIPSE", 0, 1, 1, 1.2, 0.5)); CHECK(!a->CheckWithinApertureBoundaries(0, 0.7, 0)); CHECK(a->CheckWithinApertureBoundaries(0.7, 0, 0)); return bad; }
""", "a rect-ellipse whose ellipse is flatter than the rectangle is narrow", "points beyond the short half axis of the ellipse are accepted")
B("P02b", "P02", [("InterpolatedApertures.cpp", "	double cc2 = hw * tana1;", "	double cc2 = apFront.ap1 * tana1;")], APDEMO + r"""
int main() { std::unique_ptr<Aperture> a(tab("OCTAGON", {{0, 1.0, 1.0, 0.4, 1.1}, {1, 2.0, 2.0, 0.4, 1.1}})); double w = 1.5, t = 1.5 * std::tan(0.4); std::unique_ptr<Aperture> b(new OctagonalAperture("OCTAGON", 0, 1.5, 1.5, 0.4, 1.1)); for(int i = 0; i < 100; i++) for(int j = 0; j < 100; j++) { double x = 0.0151 * i, y = 0.0149 * j; CHECK(a->CheckWithinApertureBoundaries(x, y, 0.5) == b->CheckWithinApertureBoundaries(x, y, 0.5)); } return bad; }
""", "an octagon whose width changes along the element, near the cut corners", "the cut of the corners uses the width at the end")
B("P02c", "P02", [("InterpolatedApertures.cpp", "	for(size_t n = 1; n < ApList.size(); ++n)\n	{\n		if(ApList[n].s >= z)", "	for(size_t n = ApList.size() - 1; n > 0; --n)\n	{\n		if(ApList[n].s >= z)")], APDEMO + r"""
int main() { std::unique_ptr<Aperture> a(tab("RECTELLIPSE", {{0, 1, 1, 2, 2}, {1, 0.2, 0.2, 2, 2}, {3, 1, 1, 2, 2}})); CHECK(a->CheckWithinApertureBoundaries(0.5, 0.5, 0.1)); CHECK(!a->CheckWithinApertureBoundaries(0.5, 0.5, 0.9)); return bad; }
""", "a table of more than two rows", "only the last two rows of the table are ever used")
B("P03a", "P03", [("CollimatorAperture.cpp", "	double y_off = (z * (y_offset_entry - y_offset_exit) / CollimatorLength) - y_offset_entry;\n\n	double x_jaw = (z * (w_exit - GetFullEntranceWidth()) / CollimatorLength) + GetFullEntranceWidth();\n	double y_jaw = (z * (h_exit - GetFullEntranceHeight()) / CollimatorLength) + GetFullEntranceHeight();\n\n	double x1 = ((x + x_off) * cosalpha) - ((y + y_off) * sinalpha);\n	double y1 = ((x + x_off) * sinalpha) + ((y + y_off) * cosalpha);\n\n	return", "	double y_off = (z * (y_offset_entry - y_offset_exit) / CollimatorLength) - y_offset_entry;\n\n	double x_jaw = (z * (w_exit - GetFullEntranceWidth()) / CollimatorLength) + GetFullEntranceWidth();\n	double y_jaw = (z * (h_exit - GetFullEntranceHeight()) / CollimatorLength) + GetFullEntranceHeight();\n\n	double x1 = (x * cosalpha) - (y * sinalpha) + x_off;\n	double y1 = (x * sinalpha) + (y * cosalpha) + y_off;\n\n	return")], APDEMO + r"""
int main() { CollimatorAperture a(0.2, 2, 1.5707963267948966, 1, 0.5, 0); a.SetExitWidth(0.2); a.SetExitHeight(2); a.SetExitXOffset(0.5); CHECK(a.CheckWithinApertureBoundaries(0.5, 0, 0.5)); CHECK(!a.CheckWithinApertureBoundaries(0, 0.5, 0.5)); return bad; }
""", "a tilted collimator with an offset", "the offset is rotated with the jaws")
B("P03b", "P03", [("CollimatorAperture.cpp", "		return -(x1 * 2) < GetFullEntranceWidth() && fabs(y1) * 2 < GetFullEntranceHeight();", "		return -(x1 * 2) < GetFullEntranceWidth() && y1 * 2 < GetFullEntranceHeight();")], APDEMO + r"""
int main() { OneSidedUnalignedCollimatorAperture a(1, 1, 0, 1, 0, 0, false); CHECK(!a.CheckWithinApertureBoundaries(0, -0.7, 0)); CHECK(!a.CheckWithinApertureBoundaries(-0.7, 0, 0)); CHECK(a.CheckWithinApertureBoundaries(0.7, 0, 0)); return bad; }
""", "a one-sided collimator with the jaw on the negative side and a particle far down", "the lower limit is not applied")
B("P03c", "P03", [("CollimatorAperture.cpp", "	if(x_offset_entry == 0 && y_offset_entry == 0 && x_offset_exit == 0 && y_offset_exit == 0)", "	if(x_offset_entry == 0 && y_offset_entry == 0)")], APDEMO + r"""
int main() { CollimatorAperture a(1, 1, 0, 1); a.SetExitWidth(1); a.SetExitHeight(1); a.SetExitXOffset(0.6); CHECK(!a.CheckWithinApertureBoundaries(0, 0, 0.95)); return bad; }
""", "a collimator with an offset at the exit only", "the exit offset is ignored near the axis")

TABDEMO = """
#include <sstream>
#include "DataTable.h"
#include "DataTableTFS.h"
"""
MONDEMO = r"""
#include <memory>
#include <cmath>
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "BPM.h"
#include "RMSProfileMonitor.h"
using namespace ParticleTracking;
struct BB : BPM::Buffer { int n = 0; BPM::Data d; void Record(const BPM&, const BPM::Data& x) override { n++; d = x; } };
struct PB : RMSProfileMonitor::Buffer { RMSProfileMonitor::Data d; void Record(const RMSProfileMonitor&, const RMSProfileMonitor::Data& x) override { d = x; } };
"""
B("P35a", "P35", [("StdIntegrators.cpp", "			ds -= s1;\n		}\n		ApplyDrift", "			if(ds > s1)\n				ds -= s1;\n		}\n		ApplyDrift")], MONDEMO + r"""
int main() { ParticleBunch b(10, 1); PSvector p(0); p.xp() = 0.1; b.AddParticle(p); BPM m("m", 1, 0.5); ParticleComponentTracker t{TRANSPORT::StdISet()}; t.SetBunch(b); m.PrepareTracker(t); t.Track(); CHECK(near_(b.begin()->x(), 0.1)); return bad; }
""", "a measurement point at the very end of a step (the exit)", "the particles are drifted twice")
B("P35b", "P35", [("RMSProfileMonitor.cpp", "fequal(uangle, pi / 2)", "fequal(fabs(uangle), pi / 2)")], MONDEMO + r"""
int main() { ParticleBunch b(10, 1); PSvector p(0); p.y() = 0.5; b.AddParticle(p); RMSProfileMonitor m("m", -1.5707963267948966); PB buf; m.AddBuffer(&buf); m.MakeMeasurement(b); CHECK(near_(buf.d.u0.value, -0.5)); return bad; }
""", "a wire pointing down", "the centre along the wire has the wrong sign")
B("P35c", "P35", [("AMBufferManager.h", "	buffers.clear();", "	buffers.clear();\n	defBuffer = nullptr;")], MONDEMO + r"""
int main() { ParticleBunch b(10, 1); PSvector p(0); b.AddParticle(p); BB def; BPM m("m"), o("o"); BPM::SetDefaultBuffer(&def); m.ClearAllBuffers(); o.MakeMeasurement(b); CHECK(def.n == 1); return bad; }
""", "a default buffer set before the buffers of a monitor are removed", "the default buffer of all monitors is gone")
FLDDEMO = r"""
#include "MultipoleField.h"
#include "Components.h"
"""
B("P18a", "P18", [("MultipoleField.cpp", "	while(n > 1)", "	while(n > 2)")], FLDDEMO + r"""
int main() { Octupole m("m", 1, 6); CHECK(near_(m.GetField().GetField2D(0.5, 0).real(), 0.125)); return bad; }
""", "octupoles and higher multipoles given by their field derivative", "the field is not that of the derivative")
B("P18b", "P18", [("MultipoleField.cpp", "			z = Complex(z.real(), -z.imag());", "			z = Complex(z.real(), z.imag());")], FLDDEMO + r"""
int main() { SkewQuadrupole m("m", 1, 2); m.RotateY180(); CHECK(near_(m.GetField().GetField2D(0.5, 0).imag(), -1)); return bad; }
""", "a skew quadrupole turned round", "its polarity is not reversed")
B("P18c", "P18", [("MultipoleField.cpp", "Complex(bn, an) / (B0 * pow(r0, np))", "Complex(bn, an) / (fabs(B0) * pow(r0, np))")], FLDDEMO + r"""
int main() { Quadrupole m("m", 1, -2); m.GetField().SetComponent(2, 0.5); CHECK(near_(m.GetField().GetComponent(2).real(), 0.5)); return bad; }
""", "a magnet with a negative field scale", "components added have the wrong sign")
B("P18d", "P18", [("SectorBend.cpp", "SpeedOfLight * By / h / q", "SpeedOfLight * By / fabs(h) / q")], FLDDEMO + r"""
int main() { SectorBend m("m", 1, -0.1, -1); CHECK(m.GetMatchedMomentum(1) > 0); return bad; }
""", "a bend to the other side", "the matched momentum has the wrong sign")
INTDEMO = r"""
#include "Interpolation.h"
#include "Range.h"
"""
B("P26a", "P26", [("Interpolation.cpp", "	sort(itsData.begin(), itsData.end(), sort_x);", "	if(itsData.front().x > itsData.back().x)\n	{\n		sort(itsData.begin(), itsData.end(), sort_x);\n	}")], INTDEMO + r"""
int main() { std::vector<double> x{0, 2, 1, 3}, y{0, 4, 1, 9}; Interpolation I(x, y); CHECK(near_(I(1.5), 2.5)); CHECK(near_(I(2.5), 6.5)); return bad; }
""", "points given in mixed order whose first lies before the last", "wrong segments")
B("P26b", "P26", [("Interpolation.cpp", "	if(x < xmin)\n	{\n		n = 0;", "	if(x < xmin)\n	{\n		n = yvals.size() > 2 ? 1 : 0;")], INTDEMO + r"""
int main() { std::vector<double> y{0, 1, 4}; Interpolation I(y, 0, 1); CHECK(near_(I(-1), -1)); return bad; }
""", "extrapolation below the first of three or more equally spaced points", "the wrong segment is extrapolated")
B("P26c", "P26", [("Range.h", "	else if(x <= upper)\n", "	else if(x < upper)\n")], INTDEMO + r"""
int main() { NumericalRange<double> r(1, 2); CHECK(r.Check(2) == RangeBase::ok); return bad; }
""", "a value at the upper end", "reported above the range that contains it")
B("P26d", "P26", [("Interpolation.cpp", "			for(int j = 1; j <= k; j++)\n", "			for(int j = 1; j <= min(k, 3); j++)\n")], INTDEMO + r"""
int main() { std::vector<double> x{0, 1, 2, 3, 4}, y; for(double a : x) y.push_back(a * a * a * a); Interpolation I(x, y, 4); CHECK(near_(I(2), 16)); return bad; }
""", "interpolation of fourth order", "the highest coefficient is lost")
NANDEMO = r"""
#include <cmath>
#include <limits>
#include "ParticleBunch.h"
#include "NANCheckProcess.h"
#include "RingDeltaTProcess.h"
#include "Components.h"
using namespace ParticleTracking;
static void fill(ParticleBunch& b, int n) { for(int i = 0; i < n; i++) { PSvector p(0); p.id() = i; b.AddParticle(p); } }
"""
B("P47a", "P47", [("NANCheckProcess.cpp", "std::isfinite(p.yp()) && std::isfinite(p.dp())", "std::isfinite(p.yp()) && !std::isnan(p.dp())")], NANDEMO + r"""
int main() { ParticleBunch b(10, 1); fill(b, 2); (++b.begin())->dp() = std::numeric_limits<double>::infinity(); NANCheckProcess c("c"); c.SetCullNAN(); Drift d("d", 1); c.InitialiseProcess(b); c.SetCurrentComponent(d); c.DoProcess(1); CHECK(b.size() == 1); return bad; }
""", "an infinite momentum deviation", "the particle stays")
B("P47b", "P47", [("NANCheckProcess.cpp", "	for(auto &p : *currentBunch)\n	{\n		if(is_good(p))\n		{\n			NewBunch->AddParticle(p);", "	for(auto &p : *currentBunch)\n	{\n		if(is_good(p) || !reported.count(p.id()))\n		{\n			NewBunch->AddParticle(p);"), ("NANCheckProcess.cpp", "	ParticleBunchProcess::InitialiseProcess(bunch);", "	ParticleBunchProcess::InitialiseProcess(bunch);\n	if(cull)\n	{\n		reported.insert(-1);\n	}"), ("NANCheckProcess.cpp", "			reported.insert(p.id());", "			reported.insert(cull && p.id() % 2 ? -1 : p.id());")], NANDEMO + r"""
int main() { ParticleBunch b(10, 1); fill(b, 3); (b.begin() + 1)->x() = NAN; NANCheckProcess c("c"); c.SetCullNAN(); Drift d("d", 1); c.InitialiseProcess(b); c.SetCurrentComponent(d); c.DoProcess(1); CHECK(b.size() == 2); return bad; }
""", "an invalid particle with an odd number", "it is reported but not removed")
B("P47c", "P47", [("RingDeltaTProcess.cpp", "ApplyDeltaT(scale * ds)", "ApplyDeltaT(scale * intS)")], NANDEMO + r"""
int main() { ParticleBunch b(10, 1); fill(b, 1); RingDeltaTProcess r(1); r.SetBendScale(2); SectorBend s("s", 1, 0.1, 1); r.InitialiseProcess(b); r.SetCurrentComponent(s); r.DoProcess(0.5); r.DoProcess(0.5); CHECK(near_(b.begin()->ct(), 2)); return bad; }
""", "a bend tracked in more than one step", "the time shift is too large")
MADDEMO = r"""
#include "MADInterface.h"
#include "Components.h"
#include "SequenceFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include <sstream>
#include <memory>
static const char* NUM[] = {"L", "ANGLE", "K0L", "K1L", "K2L", "K3L", "K4L", "KS", "TILT", "E1", "E2", "HKICK", "VKICK", "FREQ", "LAG", "VOLT", "MUX", "MUY"};
static std::string line(const char* name, const char* key, double L, const char* col = "", double v = 0) { std::ostringstream s; s << " \"" << name << "\" \"" << key << "\""; for(auto n : NUM) s << " " << (std::string(n) == "L" ? L : std::string(n) == col ? v : 0); return s.str(); }
static std::string table(const std::vector<std::string>& rows) { std::string s = "@ NAME %05s \"TWISS\"\n* NAME KEYWORD"; for(auto n : NUM) s += std::string(" ") + n; s += "\n$ %s %s"; for(size_t i = 0; i < sizeof NUM / sizeof *NUM; i++) s += " %le"; s += "\n"; for(auto& r : rows) s += r + "\n"; return s; }
static std::vector<AcceleratorComponent*> parts(AcceleratorModel* M) { std::vector<AcceleratorComponent*> v; auto b = M->GetBeamline(); for(auto i = b.begin(); i != b.end(); ++i) v.push_back(&(*i)->GetComponent()); return v; }
"""
B("P51a", "P51", [("MADInterface.cpp", "		scale = brho / length;\n	else\n		scale = brho;\n\n	return {new XCor(name, length, -scale * kick)};", "		scale = brho / length;\n	else\n		scale = momentumScale(brho);\n\n	return {new XCor(name, length, -scale * kick)};"), ("MADInterface.cpp", "vector<AcceleratorComponent*> HKickerComponent::GetInstance(", "static double momentumScale(double brho)\n{\n	return brho * SpeedOfLight * eV;\n}\n\nvector<AcceleratorComponent*> HKickerComponent::GetInstance(")], MADDEMO + r"""
int main() { std::istringstream is(table({line("H", "HKICKER", 0, "HKICK", 0.01), line("V", "VKICKER", 0, "VKICK", 0.01)})); MADInterface m(&is, 10); AcceleratorModel* M = m.ConstructModel(); auto v = parts(M); double brho = 10 / 0.299792458; CHECK(near_(static_cast<YCor*>(v[1])->GetFieldStrength(), 0.01 * brho, 1e-9)); CHECK(near_(static_cast<XCor*>(v[0])->GetFieldStrength(), -0.01 * brho, 1e-9)); return bad; }
""", "a horizontal kicker of no length", "thin horizontal kickers deflect by a third of HKICK")
B("P51b", "P51", [("MADInterface.cpp", "			modelconstr->AppendComponent(*component);\n			component->SetComponentLatticePosition(z);\n			z += component->GetLength();", "			modelconstr->AppendComponent(*component);\n			component->SetComponentLatticePosition(z);\n			z += length;")], MADDEMO + r"""
int main() { std::string t = table({line("R", "RFCAVITY", 1.5, "FREQ", 400), line("M", "MARKER", 0)}); std::istringstream is(t); MADInterface m(&is, 10); m.SetSingleCellRF(true); auto v = parts(m.ConstructModel()); CHECK(v.size() == 3); if(v.size() == 3) { CHECK(near_(v[1]->GetComponentLatticePosition(), 0.5 * 0.299792458 / 0.4, 1e-6)); CHECK(near_(v[2]->GetComponentLatticePosition(), 1.5, 1e-6)); } return bad; }
""", "a row that becomes several components", "elements behind a single cell cavity are placed beyond their position")
B("P51c", "P51", [("MADInterface.cpp", "			momentum -= SRdE(MADinputrow.Get_d(\"ANGLE\") / length, length, momentum);\n			brho = momentum / eV / SpeedOfLight;", "			momentum -= SRdE(MADinputrow.Get_d(\"ANGLE\") / length, length, momentum);\n			if(!MADinputrow.Get_d(\"K1L\"))\n			{\n				brho = momentum / eV / SpeedOfLight;\n			}")], MADDEMO + r"""
int main() { std::string c = line("B", "SBEND", 2, "ANGLE", 0.5); size_t p = c.find("2 0.5 0 0"); CHECK(p != std::string::npos); c[p + 8] = '1'; std::istringstream is(table({c, line("Q", "QUADRUPOLE", 1, "K1L", 1)})); MADInterface m(&is, 50); m.ScaleForSynchRad(true); auto v = parts(m.ConstructModel()); CHECK(near_(static_cast<SectorBend*>(v[0])->GetB1() * 2 * 0.299792458, 50, 1e-6)); CHECK(near_(static_cast<Quadrupole*>(v[1])->GetFieldStrength() * 0.299792458, m.GetMomentum(), 1e-9)); return bad; }
""", "combined function bends with losses by synchrotron radiation", "the magnets behind a combined function bend are not scaled to the momentum")
B("P51d", "P51", [("MADInterface.cpp", "	if((!honMadStructs) && name[1] != '_')\n	{\n		return;\n	}", "	if((!honMadStructs) && name[1] != '_' && modelconstr->GetCurrentFrameDepth() < 2)\n	{\n		return;\n	}")], MADDEMO + r"""
int main() { std::istringstream is(table({line("F_OUT", "LINE", 0), line("F_IN", "LINE", 0), line("CELL", "LINE", 0), line("D1", "DRIFT", 1), line("CELL", "LINE", 0), line("D2", "DRIFT", 1), line("F_IN", "LINE", 0), line("F_OUT", "LINE", 0)})); MADInterface m(&is, 10); AcceleratorModel* M = nullptr; M = m.ConstructModel(); std::vector<SequenceFrame*> f; int n = M->ExtractTypedElements(f, "*"); bool ok = false; for(auto s : f) if(s->GetName() == "IN") ok = near_(s->GetGeometryLength(), 2, 1e-9); CHECK(n > 0); CHECK(ok); return bad; }
""", "a line of other name inside two nested frames", "the inner frame ends too early")
ORBDEMO = r"""
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "ClosedOrbit.h"
#include "Dispersion.h"
#include "TransferMatrix.h"
#include "StableOrbits.h"
#include "Aperture.h"
#include <list>
using namespace ParticleTracking;
static const double BR = 10 / 0.299792458;
static AcceleratorModel* ring(double k, bool thin = false) { AcceleratorModelConstructor c; for(int i = 0; i < 3; i++) { c.AppendComponent(new Quadrupole("QF", 0.4, 0.9 * BR)); c.AppendDrift(0.7); if(i == 0) c.AppendComponent(new XCor("XC", thin ? 0 : 0.2, k * BR / (thin ? 1 : 0.2))); c.AppendDrift(0.3); c.AppendComponent(new Quadrupole("QD", 0.4, -0.8 * BR)); c.AppendDrift(1); } return c.GetModel(); }
static PSvector track(AcceleratorModel::Beamline l, const PSvector& p) { ParticleBunch b(10, 1); b.push_back(p); ParticleTracker t(l, &b, false); t.Run(); return *t.GetTrackedBunch().begin(); }
"""
B("P41a", "P41", [("Dispersion.cpp", "	co.FindClosedOrbit(q, n);\n\n	Dx", "	co.FindClosedOrbit(q);\n\n	Dx")], ORBDEMO + r"""
int main() { AcceleratorModel* m = ring(1e-3); Dispersion D(m, 10); D.SetDelta(1e-6); D.FindDispersion(5); double v[2]; for(int i = 0; i < 2; i++) { ClosedOrbit co(m, 10); co.TransverseOnly(true); PSvector p(0); p.dp() = i ? 1e-6 : -1e-6; co.FindClosedOrbit(p, 5); v[i] = p.x(); } CHECK(near_(D.Dx, (v[1] - v[0]) / 2e-6, 1e-6)); return bad; }
""", "dispersion at another element than the first", "the dispersion is of orbits at two places")
B("P41b", "P41", [("TransferMatrix.cpp", "	ParticleTracker tracker(theModel->GetBeamline(n1, n2), &bunch, false);", "	if(n1 == n2)\n	{\n		bunch.GetParticles()[0] = PSvector(0);\n	}\n	ParticleTracker tracker(theModel->GetBeamline(n1, n2), &bunch, false);")], ORBDEMO + r"""
int main() { AcceleratorModel* m = ring(1e-3); TransferMatrix tm(m, 10); tm.SetDelta(1e-6); RealMatrix M(6); PSvector o(0); o.x() = 1e-3; tm.FindTM(M, o, 2, 2); CHECK(near_(M(0, 0), 1, 1e-4)); CHECK(near_(M(0, 1), 0.2, 1e-4)); CHECK(near_(M(1, 0), 0, 1e-4)); return bad; }
""", "the matrix of a single element around an orbit which is not zero", "the reference ray is on axis")
B("P41c", "P41", [("ClosedOrbit.cpp", "		prev = pres;\n		len += dl;", "		if(dl != 0)\n		{\n			prev = pres;\n		}\n		len += dl;")], ORBDEMO + r"""
int main() { AcceleratorModel* m = ring(1e-3, true); PSvector p(0), q(0); double s = 0, L = 0; int n = 0; auto b = m->GetBeamline(); for(auto i = b.begin(); i != b.end(); ++i, ++n) { double l = (*i)->GetComponent().GetLength(); PSvector o = track(m->GetBeamline(n, n), q); s += l * (o.xp() + q.xp()) * (o.xp() + q.xp()) / 4; q = o; L += l; } ClosedOrbit co(m, 10); co.FindRMSOrbit(p); CHECK(near_(p.xp() * 1e3, std::sqrt(s / L) * 1e3, 1e-6)); return bad; }
""", "a thin corrector", "the rms slope uses the slope before the kick for the element behind it")
B("P41d", "P41", [("StableOrbits.cpp", "		if(turn_count == 1)\n		{", "		if(turn_count == 1 || 2 * turn_count > nturns + 2)\n		{")], ORBDEMO + r"""
int main() { AcceleratorModelConstructor c; Drift* d = new Drift("D", 1); d->SetAperture(new RectangularAperture(1, 1)); c.AppendComponent(d); AcceleratorModel* m = c.GetModel(); StableOrbits so(m); so.SetTurns(3); ParticleBunch b(10, 1); PSvector p(0); b.push_back(p); p.xp() = 0.5; b.push_back(p); p.xp() = 0.3; p.x() = 0; b.push_back(p); p.xp() = 1.5; b.push_back(p); std::list<size_t> idx; so.SelectStable(b, &idx); CHECK(idx.size() == 2); CHECK(idx.size() == 2 && idx.front() == 0 && idx.back() == 2); return bad; }
""", "three turns", "the last turn starts over with the initial bunch")
LATDEMO = r"""
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "LatticeFunctions.h"
#include "PhaseAdvance.h"
#include <unistd.h>
using namespace ParticleTracking;
static const double BR = 10 / 0.299792458;
static RealMatrix tw(double bx, double by) { RealMatrix M(6, 6, 0.0); for(int k = 0; k < 2; k++) { double b = k ? by : bx, m = k ? 2.2 : 1.3; M(2 * k, 2 * k) = M(2 * k + 1, 2 * k + 1) = cos(m); M(2 * k, 2 * k + 1) = b * sin(m); M(2 * k + 1, 2 * k) = -sin(m) / b; } M(4, 4) = M(5, 5) = 1; return M; }
"""
B("P42a", "P42", [("LatticeFunctions.cpp", "			if(k != 3 && v < -1.0e-9)", "			if(k == 1 && v < -1.0e-9)")], LATDEMO + r"""
int main() { if(chdir("/proc")) return 0; AcceleratorModelConstructor c; for(int i = 0; i < 4; i++) c.AppendDrift(1.5); AcceleratorModel* m = c.GetModel(); c.NewModel(); for(int i = 0; i < 5; i++) { c.AppendComponent(new Quadrupole("QF", 0.4, 2.4 * BR)); c.AppendDrift(1); c.AppendComponent(new Quadrupole("QD", 0.4, -2.3 * BR)); c.AppendDrift(1); } m = c.GetModel(); LatticeFunctionTable t(m, 10); t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2); t.RemoveAllFunctions(); t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2); PSvector p(0); RealMatrix M = tw(3, 2); t.Calculate(&p, &M); for(int i = 0; i <= 20; i++) { CHECK(t.Value(0, 0, 1, i) > -1e-8); CHECK(t.Value(0, 0, 2, i) > -1e-8); } return bad; }
""", "a vertical phase advance above half a turn", "vertical phases are not taken modulo 1")
B("P42b", "P42", [("LatticeFunctions.cpp", "		N  = M21 * N;", "		if(M21(0, 1) * M21(0, 1) > 1.0e-8)\n		{\n			N  = M21 * N;\n		}")], LATDEMO + r"""
int main() { if(chdir("/proc")) return 0; AcceleratorModelConstructor c; c.AppendDrift(1); c.AppendComponent(new Sextupole("S", 0, 50 * BR)); c.AppendDrift(1); AcceleratorModel* m = c.GetModel(); LatticeFunctionTable t(m, 10); t.RemoveAllFunctions(); t.AddFunction(1, 1, 1); PSvector p(0); p.x() = 0.01; RealMatrix M = tw(3, 2); t.Calculate(&p, &M); double k = 50 * 0.01, g = 1 / 3.; double R11 = 1 - k, R12 = 1 + (1 - k); CHECK(near_(t.Value(1, 1, 1, 3), R11 * R11 * 3 + R12 * R12 * g, 1e-3)); return bad; }
""", "a thin element that focuses", "the focusing of thin elements is left out of the lattice functions")
B("P42c", "P42", [("LatticeFunctions.cpp", "		if(lfnlist[0]->GetValue(n) >= s)", "		if(lfnlist[0]->GetValue(n) > s)")], LATDEMO + r"""
int main() { if(chdir("/proc")) return 0; AcceleratorModelConstructor c; for(int i = 0; i < 4; i++) c.AppendDrift(1.5); AcceleratorModel* m = c.GetModel(); LatticeFunctionTable t(m, 10); t.UseOrbitFunctions(); PSvector p(0); t.Calculate(&p); CHECK(t.GetSPosIndex(3) == 2); CHECK(t.GetSPosIndex(0) == 0); return bad; }
""", "the position of an element's entrance exactly", "the row of the next element is found")
B("P42d", "P42", [("LatticeFunctions.cpp", "	int nrows = NumberOfRows();\n	if(n2 >= nrows || n2 < n1)\n	{\n		n2 = nrows - 1;\n	}\n\n	double sums = 0;\n	double sumv = 0;\n	for(int row = n1; row < n2; row++)\n	{\n		double ds = lfnlist[0]->GetValue(row + 1) - lfnlist[0]->GetValue(row);\n		double mv1", "	int nrows = NumberOfRows();\n	if(n2 >= nrows || n2 < n1)\n	{\n		n2 = nrows - 1;\n		n1 = 0;\n	}\n\n	double sums = 0;\n	double sumv = 0;\n	for(int row = n1; row < n2; row++)\n	{\n		double ds = lfnlist[0]->GetValue(row + 1) - lfnlist[0]->GetValue(row);\n		double mv1")], LATDEMO + r"""
int main() { if(chdir("/proc")) return 0; AcceleratorModelConstructor c; for(int i = 0; i < 4; i++) c.AppendDrift(1 + i); AcceleratorModel* m = c.GetModel(); LatticeFunctionTable t(m, 10); t.UseOrbitFunctions(); PSvector p(0); p.xp() = 1e-3; t.Calculate(&p); CHECK(near_(t.RMS(1, 0, 0, 2, -1), std::sqrt((3e-3 * 3e-3 + 6e-3 * 6e-3) / 2), 1e-9)); return bad; }
""", "an rms from a later row to the end of the table", "the average starts at the first row")
B("P42e", "P42", [("PhaseAdvance.cpp", "	return PhaseAdvanceBetween(n1, n2, 0);", "	double mu = PhaseAdvanceBetween(n1, n2, 0);\n	return n1 ? mu - static_cast<int>(mu) : mu;")], LATDEMO + r"""
int main() { if(chdir("/proc")) return 0; AcceleratorModelConstructor c; for(int i = 0; i < 7; i++) { c.AppendComponent(new Quadrupole("QF", 0.4, 2.4 * BR)); c.AppendDrift(1); c.AppendComponent(new Quadrupole("QD", 0.4, -2.3 * BR)); c.AppendDrift(1); } AcceleratorModel* m = c.GetModel(); LatticeFunctionTable t(m, 10); t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2); t.RemoveAllFunctions(); t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2); PSvector p(0); RealMatrix M = tw(3, 2); t.Calculate(&p, &M); PhaseAdvance pa(m, &t, 10); CHECK(pa.GetPhaseAdvanceY(26) > 1.1); CHECK(near_(pa.GetPhaseAdvanceY(26, 1), pa.GetPhaseAdvanceY(26) - pa.GetPhaseAdvanceY(1), 1e-9)); return bad; }
""", "a vertical phase advance of more than a turn between two later elements", "whole turns are dropped")
HELDEMO = r"""
#include "ParticleBunch.h"
#include "Components.h"
#include "HollowElectronLens.h"
#include "HollowELensProcess.h"
using namespace ParticleTracking;
static double kick(HollowElectronLens& h, double x, double P = 7000) { ParticleBunch b(P, 1); PSvector p(0); p.x() = x; b.push_back(p); HollowELensProcess q(1); q.InitialiseProcess(b); q.SetCurrentComponent(h); q.DoProcess(0); return b.begin()->xp(); }
"""
B("P37a", "P37", [("HollowELensProcess.cpp", "fmod((floor(Turn / TurnsPerStep)), (Nstep))", "fmod((floor((Turn - 1) / TurnsPerStep)), (Nstep))")], HELDEMO + r"""
int main() { HollowElectronLens h("H", 2, 0, 5, 0.2, 25000, 3), d("D", 2, 0, 5, 0.2, 25000, 3); h.SetRadii(2e-3, 4e-3); d.SetRadii(2e-3, 4e-3); h.SetAC(0.31, 0.01, 0.001, 3, 1); double full = kick(d, 5e-3); for(int t = 1; t < 7; t++) { double Q = 0.3 + (t / 3) * 0.001; CHECK(near_(kick(h, 5e-3) / full, 0.5 * (1 + cos(2 * M_PI * t * Q)), 1e-9)); } return bad; }
""", "an AC tune sweep with several turns per step", "the steps of the tune sweep start a turn late")
B("P37b", "P37", [("HollowELensProcess.cpp", "		f = (n0 + n1 + n2 + (y4 - y3)", "		f = (n0 + n1 + (LHC_Radial ? n2 : 0.9 * n2) + (y4 - y3)")], HELDEMO + r"""
int main() { HollowElectronLens h("H", 2, 0, 5, 0.2, 25000, 3); h.SetRadii(2e-3, 4e-3); h.SetRadialProfile(); double x3 = 364.5 / 222.5 * 2e-3; CHECK(near_(kick(h, x3 * (1 + 1e-9)) / kick(h, x3 * (1 - 1e-9)), 1, 1e-6)); return bad; }
""", "the measured profile in its outermost part", "the current inside the third part is taken too small")
B("P37c", "P37", [("HollowELensProcess.cpp", "	double R = sqrt(pow((x - XOffset), 2) + pow((y - YOffset), 2));\n	return CalcKickRadial(R);", "	double R = sqrt(pow((x - XOffset), 2) + pow(y, 2));\n	return CalcKickRadial(R);")], HELDEMO + r"""
int main() { HollowElectronLens h("H", 2, 0, 5, 0.2, 25000, 3), d("D", 2, 0, 5, 0.2, 25000, 3); h.XOffset = 0; h.YOffset = 1e-3; d.XOffset = d.YOffset = 0; h.SetRadii(2e-3, 4e-3); h.SetRadialProfile(); d.SetRadii(2e-3, 4e-3); d.SetRadialProfile(); ParticleBunch b(7000, 1); PSvector p(0); p.x() = 3e-3; p.y() = 1e-3; b.push_back(p); HollowELensProcess q(1); q.InitialiseProcess(b); q.SetCurrentComponent(h); q.DoProcess(0); CHECK(near_(b.begin()->xp() / kick(d, 3e-3), 1, 1e-9)); return bad; }
""", "a vertically displaced lens with a measured profile", "the vertical offset is ignored when the distance to the lens axis is taken")
B("P37d", "P37", [("HollowELensProcess.cpp", "		if((Turn % SkipTurn) == 0)", "		if((Turn % SkipTurn) == (SkipTurn > 2 ? 1 : 0))")], HELDEMO + r"""
int main() { HollowElectronLens h("H", 2, 0, 5, 0.2, 25000, 3); h.SetRadii(2e-3, 4e-3); h.SetTurnskip(3); for(int t = 1; t < 7; t++) CHECK((kick(h, 5e-3) != 0) == (t % 3 == 0)); return bad; }
""", "kicks every third turn or less often", "the lens is on in the turn after")
SRDEMO = r"""
#include "ElectronBunch.h"
#include "Components.h"
#include "SynchRadParticleProcess.h"
using namespace ParticleTracking;
static PSvector ray(double x, double xp, double y, double dp) { PSvector p(0); p.x() = x; p.xp() = xp; p.y() = y; p.dp() = dp; return p; }
"""
B("P39a", "P39", [("SynchRadParticleProcess.cpp", "			dp -= u / P0;\n\n			double kz = (1.0 + dp) / sqrt(1.0 + kx * kx + ky * ky);", "			double kz = (1.0 + dp) / sqrt(1.0 + kx * kx + ky * ky);\n\n			dp -= u / P0;")], SRDEMO + r"""
int main() { ElectronBunch b(20, 1); b.push_back(ray(0, 2e-3, 0, 0)); SectorBend e("B", 1.2, 0.01, -0.5); SynchRadParticleProcess s(1); s.AdjustBunchReferenceEnergy(false); SynchRadParticleProcess::UseSymplecticVariables(true); s.InitialiseProcess(b); s.SetCurrentComponent(e); s.DoProcess(1.2); PSvector p = *b.begin(); CHECK(p.dp() < 0); CHECK(near_(p.xp() / (1 + p.dp()), 2e-3, 1e-12)); return bad; }
""", "symplectic variables and a particle with a slope", "the loss no longer reduces canonical momenta, so that radiation does not damp and turns the direction")
B("P39b", "P39", [("SynchRadParticleProcess.cpp", "	return (nk1 + 1) * dL - intS;", "	return nk1 ? dL : dL - intS;")], SRDEMO + r"""
int main() { ElectronBunch b(20, 1); b.push_back(ray(0, 0, 0, 0)); SectorBend e("B", 1, 0.01, -0.5); SynchRadParticleProcess s(1); s.SetNumComponentSteps(2); s.InitialiseProcess(b); s.SetCurrentComponent(e); s.DoProcess(0.5); s.DoProcess(0.25); CHECK(near_(s.GetMaxAllowedStepSize(), 0.25, 1e-12)); double P = b.GetReferenceMomentum(); s.DoProcess(s.GetMaxAllowedStepSize()); CHECK(b.GetReferenceMomentum() < P); return bad; }
""", "several radiation steps per element and another process cutting a later step", "the step asked for overshoots, and the rest of the element does not radiate")
B("P39c", "P39", [("SynchRadParticleProcess.cpp", "	u += photgen(uc);", "	u = std::max(u, photgen(uc));")], SRDEMO + r"""
static double g_sum = 0; static double gen(double uc) { g_sum += uc; return uc; }
int main() { ElectronBunch b(20, 1); b.push_back(ray(0, 0, 0, 0)); SectorBend e("B", 3, 0.01, -0.5); SynchRadParticleProcess::SetPhotonGenerator(gen); SynchRadParticleProcess s(1, true); s.AdjustBunchReferenceEnergy(false); s.InitialiseProcess(b); s.SetCurrentComponent(e); s.DoProcess(3); CHECK(near_(b.begin()->dp() * 20, -g_sum, 1e-12)); return bad; }
""", "photon generation with more than one photon in a step", "only the hardest photon of a particle is taken from its energy")
B("P39d", "P39", [("SynchRadParticleProcess.cpp", "Bf.GetField2D(v.x(), v.y())", "Bf.GetField2D(v.x(), 0)")], SRDEMO + r"""
int main() { ElectronBunch b(20, 1); b.push_back(ray(0, 0, 5e-3, 0)); b.push_back(ray(5e-3, 0, 0, 0)); Quadrupole e("Q", 1, 20.); SynchRadParticleProcess s(1); s.IncludeQuadRadiation(true); s.AdjustBunchReferenceEnergy(false); s.InitialiseProcess(b); s.SetCurrentComponent(e); s.DoProcess(1); CHECK(b.GetParticles()[1].dp() < 0); CHECK(near_(b.GetParticles()[0].dp() / b.GetParticles()[1].dp(), 1, 1e-9)); return bad; }
""", "radiation in quadrupoles and particles off the horizontal plane", "vertically displaced particles do not radiate in quadrupoles")
SPINDEMO = r"""
#include "SpinParticleProcess.h"
#include "Components.h"
#include "Transform3D.h"
static PSvector ray(double x, double y, double dp) { PSvector p(0); p.x() = x; p.y() = y; p.dp() = dp; return p; }
static SpinVector through(AcceleratorComponent& e, PSvector p, SpinVector s, int cut = 1, double ps = 0) { SpinParticleBunch b(3, 1); b.AddParticle(p, s); SpinParticleProcess q(1, 1); if(ps) q.SetSpinMomentum(ps); q.InitialiseProcess(b); q.SetCurrentComponent(e); for(int i = 0; i < cut; i++) q.DoProcess(e.GetLength() / cut); return *b.beginSpinArray(); }
"""
B("P38a", "P38", [("SpinParticleProcess.cpp", "		if(intS == 0)\n", "		if(intS < 0.1 * clength)\n")], SPINDEMO + r"""
int main() { Solenoid s("S", 1.6, 5.); SpinVector a = through(s, ray(1e-2, 0, 0), SpinVector(0, 0, 1), 1), b = through(s, ray(1e-2, 0, 0), SpinVector(0, 0, 1), 16); CHECK(near_(a.x(), b.x(), 1e-9)); CHECK(near_(a.y(), b.y(), 1e-9)); return bad; }
""", "solenoids cut into more than ten steps", "the entrance fringe turns the spin again in each step of the first tenth")
B("P38b", "P38", [("SpinParticleProcess.cpp", "w.z = -(1 + ElectronGe) * bnorm.z;\n		}\n		else ", "w.z = -(1 + ElectronGe) * bnorm.z;\n		}\n		else if(bnorm.x == 0)\n		{\n			w.x = 0;\n			w.y = -(ElectronGe * gamma) * bnorm.y;\n			w.z = -(1 + ElectronGe) * bnorm.z;\n		}\n		else ")], SPINDEMO + r"""
int main() { XCor c("C", 1.6, 0.1); Quadrupole q("Q", 1.6, 10.); SpinVector a = through(c, ray(0, 0, 0), SpinVector(0, 0, 1)), b = through(q, ray(1e-2, 1e-14, 0), SpinVector(0, 0, 1)); CHECK(near_(a.x(), b.x(), 1e-9)); CHECK(near_(a.z(), b.z(), 1e-9)); return bad; }
""", "purely vertical fields in straight elements", "the spin is turned relative to the bent direction there, although straight elements keep the axes")
B("P38c", "P38", [("SpinParticleProcess.cpp", "	size_t n = distance(pArray.begin(), p);", "	size_t n = distance(pArray.begin(), p) ? 1 : 0;")], SPINDEMO + r"""
int main() { SpinParticleBunch b(3, 1); for(int i = 0; i < 4; i++) b.AddParticle(ray(1e-3 * i, 0, 0), SpinVector(0.1 * i, 0, 0)); b.erase(b.begin() + 1); b.erase(b.begin() + 2); CHECK(near_(b.beginSpinArray()[0].x(), 0, 1e-12)); CHECK(near_(b.beginSpinArray()[1].x(), 0.2, 1e-12)); return bad; }
""", "erasing a particle behind the second", "the spin of the second particle is erased instead of that of the erased one")
B("P38d", "P38", [("SpinParticleProcess.cpp", "		double norm = SpeedOfLight / brho / (1.0 + p->dp());", "		double norm = SpeedOfLight / (pspin != 0 ? pspin / eV / SpeedOfLight : brho) / (1.0 + p->dp());")], SPINDEMO + r"""
int main() { Solenoid s("S", 1.6, 5.); SpinVector a = through(s, ray(0, 0, 0), SpinVector(1, 0, 0)), b = through(s, ray(0, 0, 0), SpinVector(1, 0, 0), 1, 2); CHECK(near_(a.x(), b.x(), 1e-9)); return bad; }
""", "a spin momentum different from the reference momentum", "the rigidity is taken from the spin momentum too")
BSMP = r"""
#include "SMPTracker.h"
#include "SMPBunchConstructor.h"
#include "SMPTransform3D.h"
#include "ParticleBunch.h"
#include "Components.h"
#include "SMPComponentTracker.h"
#include "ParticleComponentTracker.h"
#include "Transform3D.h"
using namespace SMPTracking;
static SliceMacroParticle slice(double q = 1, double ct = 0, double dp = 0) { SliceMacroParticle m(q); m[0] = 1e-3; m[1] = 2e-3; m[2] = -3e-3; m[3] = 5e-4; for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) m(i, j) = 1e-6 * (i == j ? 1 + i : 0.1 * (1 + i - 2 * j)); m.ct() = ct; m.dp() = dp; return m; }
template<class E> void pass(SMPBunch& b, E& e) { SMPComponentTracker t; t.SetBunch(b); e.PrepareTracker(t); t.Track(); }
"""
SMPDEMO = BSMP
B("P40a", "P40", [("SMPTransform3D.cpp", "R.r22 * (R.r21 * S(2, 1) + R.r22 * S(3, 2));\n	const double s33", "R.r22 * (R.r21 * S(3, 0) + R.r22 * S(3, 2));\n	const double s33")], SMPDEMO + r"""
int main() { SMPBunch b(5, 1); b.AddParticle(slice()); double was = (*b.begin())(2, 3); b.ApplyTransformation(Transform3D::rotationZ(0.3)); b.ApplyTransformation(Transform3D::rotationZ(-0.3)); CHECK(near_((*b.begin())(2, 3), was, 1e-15)); return bad; }
""", "a rolled frame and slices with coupled planes", "the vertical position-slope covariance is taken with the wrong coupling term")
B("P40b", "P40", [("SMPStdIntegrators.cpp", "	if(!fequal(Pref, P0, 1.0e-6))\n	{\n		ApplyMap(M, *currentBunch, P0, Pref);", "	if(!fequal(Pref, P0, 1.0e-2))\n	{\n		ApplyMap(M, *currentBunch, P0, Pref);")], SMPDEMO + r"""
int main() { double h = 0.2, P = 5, br = P / 0.299792458; SectorBend e("B", 1, h, h * br * 1.001), f("B", 1, h, h * br); SMPBunch b(P, 1), c(P * 1.001, 1); b.AddParticle(slice()); SliceMacroParticle m = slice(); m.dp() = 1 / 1.001 - 1; c.AddParticle(m); pass(b, e); pass(c, e); CHECK(near_((*b.begin())[0], (*c.begin())[0], 1e-9)); return bad; }
""", "a bend matched to a momentum a tenth of a percent away from the reference momentum", "the slices are bent as if their momentum were the matched one")
B("P40c", "P40", [("TransportRMaps.cpp", "			R.AddTerm(5, 6) = -h * h * (phi - sinhPhi) / (Kx * k);", "			R.AddTerm(5, 6) = -h * h * (sinhPhi - phi) / (Kx * k);")], SMPDEMO + r"""
int main() { double h = 0.1, P = 5, br = P / 0.299792458; SectorBend e("B", 1.5, h, h * br); e.SetB1(-0.4 * br); double ct[2]; for(int i = 0; i < 2; i++) { SMPBunch b(P, 1); SliceMacroParticle m = slice(); m[0] = m[1] = 0; m.dp() = i ? 1e-3 : 0; b.AddParticle(m); pass(b, e); ct[i] = b.begin()->ct(); } double Kx = h * h - 0.4, k = std::sqrt(-Kx), L = 1.5; CHECK(near_((ct[1] - ct[0]) / 1e-3, -h * h * (L - std::sinh(k * L) / k) / Kx, 1e-9)); return bad; }
""", "combined function bends that defocus horizontally, slices off energy", "the path length changes with energy the wrong way")
B("P40d", "P40", [("SMPBunchConstructor.cpp", "			m.y() += dy * dp;", "			m.y() += dy * z;")], SMPDEMO + r"""
int main() { BeamData d; d.beta_x = 3; d.beta_y = 5; d.emit_x = 1e-8; d.emit_y = 2e-9; d.sig_dp = 1e-3; d.sig_z = 3e-4; d.p0 = 5; d.charge = 2; d.Dy = 0.1; SMPBunchConstructor k(d, 2, 2); SMPBunch* b = k.ConstructSMPBunch(); for(auto& m : *b) CHECK(near_(m.y(), 0.1 * m.dp(), 1e-12)); return bad; }
""", "a constructed bunch with vertical dispersion", "the centroids of its slices shift vertically with their time instead of their energy")
B("P40e", "P40", [("SMPStdIntegrators.cpp", "	if(field.LowestMultipole() > 1)\n", "	if(field.HighestMultipole() > 1)\n")], SMPDEMO + r"""
int main() { Quadrupole q("Q", 0.8, 11.), r("R", 0.8, 11.); r.GetField().SetCoefficient(2, Complex(0.1, 0)); SMPBunch b(5, 1), c(5, 1); b.AddParticle(slice()); c.AddParticle(slice()); pass(b, q); pass(c, r); CHECK(near_((*b.begin())[1], (*c.begin())[1], 1e-12)); return bad; }
""", "a quadrupole with a sextupole error", "the slices see it as a drift")
WAKEDEMO = r"""
#include "ParticleBunch.h"
#include "Components.h"
#include "WakePotentials.h"
#include "WakeFieldProcess.h"
#include "CollimatorWakePotentials.h"
#include "CollimatorWakeProcess.h"
#include "CombinedWakeRF.h"
#include "CouplerWakeFieldProcess.h"
#include "TWRFStructure.h"
#include "SMPBunch.h"
#include "SMPWakeFieldProcess.h"
using namespace ParticleTracking;
using SMPTracking::SliceMacroParticle;
struct Wake : WakePotentials { double l, t; Wake(double a, double b) : l(a), t(b) {} double Wlong(double) const { return 1e15 * l; } double Wtrans(double) const { return 1e18 * t; } };
static PSvector ray(double x, double ct) { PSvector p(0); p.x() = x; p.ct() = ct; return p; }
static void pass(WakeFieldProcess& q, ParticleBunch& b, AcceleratorComponent& d, double s) { q.InitialiseProcess(b); q.SetCurrentComponent(d); q.DoProcess(s); }
static double at(ParticleBunch& b, double ct, int i) { for(auto& p : b) if(fabs(p.ct() - ct) < 1e-9) return p[i]; return NAN; }
"""
B("P33a", "P33", [("ParticleBunchUtilities.cpp", "		if(z < zmin || z >= zmax)", "		if(z < 2 * zmin - zmax || z >= zmax)")], WAKEDEMO + r"""
int main() { ParticleBunch b(5, 1e10); for(int i = 0; i < 30; i++) b.AddParticle(ray(1e-3, 1e-5 * (i + 1))); b.AddParticle(ray(1e-3, -6e-3)); Wake w(1, 0); Drift d("D", 1); d.SetWakePotentials(&w); WakeFieldProcess q(1, 4, 3.); pass(q, b, d, 1); CHECK(b.size() == 30); return bad; }
""", "a particle in the tail beyond the range of the slices", "it is not removed but counted in the last slice, with an extrapolated kick")
B("P33b", "P33", [("WakeFieldProcess.cpp", "	return n > 1 ? c / n : c;", "	return n > 2 ? c / n : c;")], WAKEDEMO + r"""
int main() { double k[2]; for(int m = 0; m < 2; m++) { ParticleBunch b(5, m ? 5e9 : 1e10); for(int i = 0; i < (m ? 4 : 2); i++) b.AddParticle(ray(1e-3, i % 2 ? 1e-3 : -1e-3)); Wake w(0, 1); Drift d("D", 1); d.SetWakePotentials(&w); WakeFieldProcess q(1, 2, 2.); pass(q, b, d, 1); k[m] = b.begin()->xp(); } CHECK(near_(k[0] / k[1], 1, 1e-9)); return bad; }
""", "a slice that holds two particles", "its centroid is taken twice as large")
B("P33c", "P33", [("WakeFieldProcess.cpp", "		currentBunch->SetMacroParticleCharge(Qt / (currentBunch->size()));", "		currentBunch->SetMacroParticleCharge(Qt / (currentBunch->size() + nloss));")], WAKEDEMO + r"""
int main() { ParticleBunch b(5, 1e10); for(int i = 0; i < 30; i++) b.AddParticle(ray(1e-3, 1e-5 * (i + 1))); b.AddParticle(ray(1e-3, 6e-3)); Wake w(1, 0); Drift d("D", 1); d.SetWakePotentials(&w); WakeFieldProcess q(1, 4, 3.); pass(q, b, d, 1); CHECK(near_(b.GetTotalCharge() / 31e10, 1, 1e-9)); return bad; }
""", "particles outside the range of the slices", "the charge of the bunch falls by that of the removed particles")
B("P33d", "P33", [("WakeFieldProcess.cpp", "		currentBunch->SortByCT();\n		Init();\n		ApplyWakefield(clen);\n		active = false;\n	}\n#endif\n\n#ifdef ENABLE_MPI\n	current_s", "		currentBunch->SortByCT();\n		Init();\n		ApplyWakefield(impulse_s);\n		active = false;\n	}\n#endif\n\n#ifdef ENABLE_MPI\n	current_s")], WAKEDEMO + r"""
int main() { double k[2]; for(int m = 0; m < 2; m++) { ParticleBunch b(5, 1e10); for(int i = 0; i < 4; i++) b.AddParticle(ray(1e-3, 1e-3 * i)); Wake w(1, 0); Drift d("D", 1); d.SetWakePotentials(&w); WakeFieldProcess q(1, 2, 2.); if(m) q.ApplyImpulseAt(WakeFieldProcess::atCentre); pass(q, b, d, m ? 0.5 : 1); k[m] = b.GetReferenceMomentum() - 5; } CHECK(near_(k[0] / k[1], 1, 1e-9)); return bad; }
""", "the impulse applied at the centre of elements", "only the wake of the first half of the element is applied")
B("P34a", "P34", [("CollimatorWakeProcess.cpp", "				double wxs = sin((currmode - 1) * theta)", "				double wxs = sin((currmode - 1) * (currmode > 2 ? fabs(theta) : theta))")], WAKEDEMO + r"""
struct CW : CollimatorWakePotentials { CW() : CollimatorWakePotentials(3) {} double Wlong(double) const { return 0; } double Wtrans(double) const { return 0; } double Wlong(double, int) const { return 0; } double Wtrans(double, int m) const { return m == 3 ? 1e12 : 0; } };
int main() { double k[2]; for(int m = 0; m < 2; m++) { ParticleBunch b(5, 1e10); for(int i = 0; i < 4; i++) { PSvector p = ray(1e-3 * (i + 1), 1e-3 * i); p.y() = (m ? -1 : 1) * 5e-4 * (i + 1) * (i + 1); b.AddParticle(p); } CW w; Drift d("D", 1); d.SetWakePotentials(&w); CollimatorWakeProcess q(3, 1, 2, 2.); pass(q, b, d, 1); k[m] = b.begin()->xp(); } CHECK(k[0] != 0); CHECK(near_(k[0] / k[1], 1, 1e-9)); return bad; }
""", "the third mode and particles below the axis", "their horizontal kick by the sine moments has the wrong sign")
B("P34b", "P34", [("CouplerWakeFieldProcess.cpp", "fabs(phi) + k * (zmin + (i + 0.5) * dz));\n//", "fabs(phi) + k * (zmin + i * dz));\n//")], WAKEDEMO + r"""
struct KW : CombinedWakeRF { double Wlong(double) const { return 0; } double Wtrans(double) const { return 0; } Vector2D Wxy(double, double) const { return Vector2D(0, 0); } Vector2D CouplerRFKick(double, double, double phi) const { phis.push_back(phi); return Vector2D(1e-5 * phi, 0); } mutable std::vector<double> phis; };
int main() { ParticleBunch b(5, 1e10); for(int i = 0; i < 4; i++) b.AddParticle(ray(1e-3, 1e-3 * (i % 2 ? 1 : -1))); KW w; TWRFStructure c("C", 1, 1.3e9, 0.03, -0.2); c.SetWakePotentials(&w); CouplerWakeFieldProcess q(1, 2, 2.); pass(q, b, c, 1); double k = 2 * M_PI * 1.3e9 / 299792458; for(double f : w.phis) CHECK(near_(f, 0.2 - k * 1e-3, 1e-9) || near_(f, 0.2 + k * 1e-3, 1e-9)); CHECK(w.phis.size() >= 2); return bad; }
""", "slices as long as a part of the wavelength", "the phase of the coupler kick is that at the edge of a slice")
B("P34c", "P34", [("SMPWakeFieldProcess.cpp", "			tq.push_back(qt);\n			z = p->ct() + dz;", "			tq.push_back(qt);\n			z += dz;")], WAKEDEMO + r"""
int main() { double k[2]; for(int m = 0; m < 2; m++) { SMPTracking::SMPBunch b(5, 1); for(double ct : {0., 5e-3, 5.5e-3}) { SliceMacroParticle s(1e10); for(int i = 0; i < 4; i++) s[i] = 0; for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) s(i, j) = 0; s.ct() = m && ct > 5.1e-3 ? 5e-3 : ct; s.dp() = 0; b.AddParticle(s); } Wake w(1, 0); Drift d("D", 1); d.SetWakePotentials(&w); SMPTracking::WakeFieldProcess q(1, 1e-3); q.InitialiseProcess(b); q.SetCurrentComponent(d); q.DoProcess(1); k[m] = b.begin()[2].dp() - b.begin()[1].dp(); } CHECK(near_(k[0], 0, 1e-12)); return bad; }
""", "macro particles with a gap of more than the slice width", "those behind the gap are cut into slices shorter than the width")
B("P34d", "P34", [("SMPWakeFieldProcess.cpp", "		p(0, 3) *= Er;\n", "		p(0, 3) *= dPy == 0 ? Er : 1;\n")], WAKEDEMO + r"""
int main() { SMPTracking::SMPBunch b(5, 1); for(int n = 0; n < 2; n++) { SliceMacroParticle s(1e10); for(int i = 0; i < 4; i++) s[i] = 1e-3; for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) s(i, j) = 1e-6; s.ct() = 1e-3 * n; s.dp() = 0; b.AddParticle(s); } Wake w(100, 1); Drift d("D", 1); d.SetWakePotentials(&w); SMPTracking::WakeFieldProcess q(1, 1e-4); q.InitialiseProcess(b); q.SetCurrentComponent(d); q.DoProcess(1); CHECK(near_((*b.begin())(0, 3) / (*b.begin())(0, 1), 1, 1e-9)); return bad; }
""", "slices with coupled planes and vertically displaced slices ahead", "one of the coupling covariances is not scaled with the momentum")
MATDEMO = "#include \"MaterialData.h\"\n#include \"MaterialProperties.h\"\n#include \"RandomNG.h\"\n"
B("P43a", "P43", [("MaterialProperties.cpp", "		RX0 += (1. / dict[names[i]]->X0) * proportions[i] * dict[names[i]]->A / suma;", "		RX0 += (1. / dict[names[i]]->X0) * proportions[i] / sum;")], MATDEMO + r"""
int main() { MaterialData d; d.property["A"] = new MaterialProperties(10, 1, 1, 1, 1, 10, 1000, 5); d.property["B"] = new MaterialProperties(30, 1, 1, 1, 1, 20, 1000, 5); d.MakeMixture("M", "A B", std::vector<double>{1, 1}, 1000); CHECK(near_(d.property["M"]->X0, 1 / (0.25 / 10 + 0.75 / 20), 1e-3)); return bad; }
""", "a mixture of elements of different mass", "the radiation length is averaged by number instead of mass")
B("P43b", "P43", [("MaterialProperties.cpp", "		dEdx += dict[names[i]]->dEdx * proportions[i] * dict[names[i]]->A / suma\n", "		dEdx += dict[names[i]]->dEdx * proportions[i] * dict[names[i]]->A / (sum * (A > 0 && i == N - 1 ? A : suma / sum))\n")] if False else [("MaterialData.cpp", "	} while(i != string::npos);\n\n	property[name] = new Mixture(property, elements, proportions, density);", "	} while(i != string::npos);\n\n	if(elements.size() > proportions.size())\n	{\n		elements.resize(proportions.size());\n	}\n	property[name] = new Mixture(property, elements, proportions, density);")], MATDEMO + r"""
int main() { MaterialData d; d.property["A"] = new MaterialProperties(10, 1, 1, 1, 1, 10, 1000, 5); d.property["B"] = new MaterialProperties(30, 1, 1, 1, 1, 20, 1000, 5); bool t = false; try { d.MakeMixture("M", "A B", std::vector<double>{1}, 1000); } catch(std::exception&) { t = true; } CHECK(t); return bad; }
""", "fewer proportions than components", "the components without a proportion are dropped silently")
B("P43c", "P43", [("MaterialProperties.cpp", "		if((r -= V_R[i]) <= 0)", "		if((r -= i ? V_R[i] : V_H[i]) <= 0)")], MATDEMO + r"""
int main() { MaterialData d; d.property["A"] = new MaterialProperties(10, 1, 1, 0.1, 1, 10, 1000, 5); d.property["B"] = new MaterialProperties(30, 1, 1, 0.9, 1, 20, 1000, 5); d.MakeMixture("M", "A B", std::vector<double>{1, 1}, 1000); RandomNG::init(3); int n = 0; for(int i = 0; i < 1000; i++) n += d.property["M"]->A_R() == 10; CHECK(n < 200); return bad; }
""", "a mixture of elements whose ratio of Rutherford and total cross section differs", "the first component is picked with the total cross section")
B("P43d", "P43", [("MaterialProperties.cpp", "		X0 = a.X0;\n		Z = a.Z;\n		sigma_E", "		X0 = a.X0;\n		Z = a.Z;\n		sigma_E")] if False else [("MaterialProperties.cpp", "	while(s >> prop)\n	{\n		(*extra)[prop] = va_arg(arguments, double);", "	while(s >> prop)\n	{\n		double v = va_arg(arguments, double);\n		if(!HaveExtra(prop))\n			(*extra)[prop] = v;")], MATDEMO + r"""
int main() { MaterialProperties m(10, 1, 1, 0.1, 1, 10, 1000, 5); m.SetExtra("a", 1.0); m.SetExtra("a", 2.0); CHECK(m.GetExtra("a") == 2); return bad; }
""", "an extra property set twice", "the second value is ignored")
SCDEMO = "#include \"ScatteringModelsMerlin.h\"\n#include \"ScatteringProcess.h\"\n#include \"MaterialData.h\"\n#include \"MaterialProperties.h\"\n#include \"RandomNG.h\"\nusing namespace Collimation;\n"
B("P44a", "P44", [("ScatteringProcess.cpp", "	double t = -log(RandomNG::uniform(0, 1)) / b_N;\n	ScatterStuff(p, t, AtomicMassUnit * TargetMass, E);", "	double t = -log(RandomNG::uniform(0, 1)) / b_N;\n	ScatterStuff(p, t, AtomicMassUnit * mymat->A, E);")], SCDEMO + r"""
int main() { MaterialProperties a(10, 1, 1, 0.1, 1, 10, 1000, 5), b(200, 1, 1, 0.1, 1, 20, 1000, 5); std::map<std::string, MaterialProperties*> d; d["A"] = &a; d["B"] = &b; Mixture m(d, {"A", "B"}, {1, 1}, 1000); RandomNG::init(5); ElasticpN s(100, &m); int hit = 0; for(int i = 0; i < 200; i++) { PSvector p(0); s.Scatter(p, 100); double th = (p.xp() * p.xp() + p.yp() * p.yp()) * 100 * 100 * (1 + p.dp()) * (1 + p.dp()), M = th / (2 * -p.dp() * 100) / 0.931494; hit += std::fabs(M / 10 - 1) < 1e-3 || std::fabs(M / 200 - 1) < 1e-3; } CHECK(hit == 200); return bad; }
""", "elastic scattering off a mixture", "the recoil is that of the average nucleus while the slope is that of the one picked")
B("P44b", "P44", [("ScatteringModel.cpp", "			for(int i = 1; i < 6; i++)\n				Processes[i] = sc->Processes[i]; // yes really 1", "			for(int i = 1; i < 5; i++)\n				Processes[i] = sc->Processes[i]; // yes really 1")], SCDEMO + r"""
struct Pr: ScatteringProcess { int n; Pr(int i) : n(i) {} bool Scatter(PSvector& p, double) const override { p.x() += n; return false; } };
struct Mo: ScatteringModel { int c = 0; void Configure(MaterialProperties*, double) override { c++; for(int i = 0; i < 5; i++) Xsection[i] = i ? 1e-9 : 1; for(int i = 1; i < 6; i++) Processes[i] = new Pr(c); } };
int main() { MaterialProperties a(10, 1, 1, 0.1, 1, 10, 1000, 5), b(200, 1, 1, 0.1, 1, 20, 1000, 5); RandomNG::init(5); Mo m; PSvector p(0); m.ParticleScatter(p, &a, 100); m.ParticleScatter(p, &b, 100); p = PSvector(0); m.ParticleScatter(p, &a, 100); CHECK(p.x() == 1); return bad; }
""", "coming back to a material already seen, and a nuclear elastic scatter", "the elastic process of the other material is used")
B("P44c", "P44", [("ScatteringProcess.cpp", "	else if(2.0 <= xm2 && xm2 <= 5.0)", "	else if(2.0 <= xm2 && xm2 <= 4.5)"), ("ScatteringProcess.cpp", "	else if(xm2 > 5.0)", "	else")], SCDEMO + r"""
int main() { RandomNG::init(5); SixTrackSingleDiffractive s; double E = 450, S = 2 * 0.938272 * E, sum = 0; int n = 0; for(int i = 0; i < 200000; i++) { PSvector p(0); s.Scatter(p, E); double M = -p.dp() * S; if(M > 4.55 && M < 4.95) { n++; sum += (p.xp() * p.xp() + p.yp() * p.yp()) * E * E * (1 + p.dp()) * (1 + p.dp()); } } double b = (106 - 17 * 4.75) * (8.5 + 1.086 * std::log(std::sqrt(S))) / 26; CHECK(n > 500 && std::fabs(sum / n * b - 1) < 0.25); return bad; }
""", "diffractive masses squared between 4.5 and 5 GeV^2", "the slope of high masses is used")
B("P44d", "P44", [("ScatteringModel.cpp", "	double Eav = (E1 + E2) / 2.0;", "	double Eav = E2 > 0 ? sqrt(E1 * E2) : E1;")], SCDEMO + r"""
int main() { MaterialProperties a(10, 1, 1, 0.1, 1, 10, 1000, 5); ScatteringModelSixTrack m; double k[2]; for(int i = 0; i < 2; i++) { RandomNG::init(5); PSvector p(0); m.Straggle(p, 1, &a, i ? 100 : 60, i ? 20 : 60); k[i] = p.xp(); } CHECK(std::fabs(k[0] / k[1] - 1) < 1e-6); return bad; }
""", "a particle that loses much of its energy in the step", "the geometric mean of the energies is used")
JAWDEMO = r"""
#include "CollimateProtonProcess.h"
#include "ProcessStepManager.h"
#include "ParticleBunch.h"
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "ScatteringModel.h"
#include "ScatteringProcess.h"
#include "MaterialProperties.h"
#include "RandomNG.h"
using namespace ParticleTracking;
using namespace Collimation;
struct Kick: ScatteringProcess { mutable int n = 0; double k = 0, l = 0; bool keep = true; bool Scatter(PSvector& p, double E) const override { n++; p.xp() += k; p.dp() -= l / E; return keep; } };
struct Model: ScatteringModel { Kick k; Model() { energy_loss_mode = SimpleEnergyLoss; } void Configure(MaterialProperties*, double) override { Xsection[0] = 1; for(int i = 1; i < 6; i++) Processes[i] = &k; } };
struct Jaw: CollimatorAperture { double t, width = 100; Jaw(double L, double tp) : CollimatorAperture(2, 2, 0, L, 0, 0), t(tp) {} bool CheckWithinApertureBoundaries(double x, double, double z) const override { double hi = 1 + t * z; return x < hi && x > hi - width; } };
struct Mv : ParticleBunchProcess { Mv() : ParticleBunchProcess("MV", 0) {} void SetCurrentComponent(AcceleratorComponent&) { active = true; } void DoProcess(double ds) { for(auto& p : *currentBunch) { p.x() += p.xp() * ds; p.y() += p.yp() * ds; } } double GetMaxAllowedStepSize() const { return 1e9; } };
struct Out : CollimationOutput { std::vector<double> r; void Dispose(AcceleratorComponent&, double pos, Particle&, int) { r.push_back(pos); } };
struct Run { Model m; Out o, o2; MaterialProperties a{63.5, 1.2, 0.8, 0.05, 1.4, 12.86, 8960, 29}; double taper = 0, L = 0.5, lambda = 1e-3, width = 100; int bins = 1, seed = 7;
	int go(PSvector p, double P0 = 7000) { a.lambda = lambda; a.SetExtra("SixtrackdEdx", 0.001); RandomNG::init(seed); Jaw* j = new Jaw(L, taper); j->width = width; PSvector mid(0); if(width < 1) mid.x() = 1 - 1.3e-3; Collimator* c = new Collimator("COL", L); c->SetAperture(j); c->SetMaterialProperties(&a); auto* cp = new CollimateProtonProcess(1, 4); cp->SetScatteringModel(&m); cp->ScatterAtCollimator(true); cp->SetLossThreshold(200); cp->SetOutputBinSize(L / bins); cp->SetCollimationOutput(&o); cp->SetCollimationOutput(&o2); ProcessStepManager M; M.AddProcess(new Mv); M.AddProcess(cp); ParticleBunch b(P0, 1); b.AddParticle(p); b.AddParticle(mid); M.Initialise(b); M.Track(*c); return b.size() - 1; } };
"""
B("P36a", "P36", [("CollimateProtonProcess.cpp", "			if(colap->CheckWithinApertureBoundaries(extrax, extray, z + lengthtogo))", "			if(colap->CheckWithinApertureBoundaries(extrax, extray, z))")], JAWDEMO + r"""
int main() { Run r; r.lambda = 0.01; r.taper = -2e-3; r.m.k.keep = false; r.width = 1.6e-3; PSvector p(0), q(0); p.x() = 1 - 5e-4; p.xp() = -3e-3; CHECK(r.go(p) == 1); CHECK(r.o.r.empty()); return bad; }
""", "a proton crossing the gap of a tapered collimator", "the way out is judged by the jaw where the proton is, not at the end of the bin")
B("P36b", "P36", [("CollimateProtonProcess.cpp", "	double lengthtogo = s - z;", "	double lengthtogo = s - z;\n	if(z > 0)\n		z -= PhysicalUnits::millimeter;")], JAWDEMO + r"""
int main() { Run r; r.bins = 2; r.taper = -0.02; r.lambda = 1e-4; r.m.k.keep = false; PSvector p(0); p.x() = 0.9925; p.x() = 1 - 0.02 * 0.5 + 1e-5; CHECK(r.go(p) == 0); CHECK(r.o.r.size() == 1); if(r.o.r.size()) CHECK(r.o.r[0] > 0.25 && r.o.r[0] < 0.5); return bad; }
""", "a proton lost in a bin other than the first", "positions in later bins are a millimetre too small")
B("P36c", "P36", [("CollimateProtonProcess.cpp", "			if(!scattermodel->ParticleScatter(p, C->GetMaterialProperties(), E2))", "			if(!scattermodel->ParticleScatter(p, C->GetMaterialProperties(), E1))")], JAWDEMO + r"""
struct E: ScatteringProcess { mutable double e = 0, d = 0; bool Scatter(PSvector& p, double En) const override { e = En; d = p.dp(); return false; } };
struct ME: ScatteringModel { E k; ME() { energy_loss_mode = SimpleEnergyLoss; } void Configure(MaterialProperties*, double) override { Xsection[0] = 1; for(int i = 1; i < 6; i++) Processes[i] = &k; } };
int main() { RandomNG::init(7); ME m; MaterialProperties a(63.5, 1.2, 0.8, 0.05, 1.4, 12.86, 8960, 29); a.lambda = 0.05; a.SetExtra("SixtrackdEdx", 2.69); Jaw j(0.5, 0); Collimator c("C", 0.5); c.SetAperture(&j); c.SetMaterialProperties(&a); auto* cp = new CollimateProtonProcess(1, 4); cp->SetScatteringModel(&m); cp->ScatterAtCollimator(true); cp->SetLossThreshold(200); cp->SetOutputBinSize(0.5); ProcessStepManager M; M.AddProcess(cp); ParticleBunch b(7, 1); PSvector p(0); p.x() = 1.01; b.AddParticle(p); b.AddParticle(PSvector(0)); M.Initialise(b); M.Track(c); double E0 = std::sqrt(49 + 0.938272 * 0.938272); CHECK(m.k.e > 0 && m.k.d < -1e-6 && std::fabs(m.k.e / (E0 * (1 + m.k.d)) - 1) < 1e-7); return bad; }
""", "a scatter after a step that costs energy", "the scatter takes place with the energy before the step")
B("P36d", "P36", [("CollimateProtonProcess.cpp", "		if((p.dp() < -0.95) || (p.dp() < -1))", "		if(interacted && zstep > 0 && ((p.dp() < -0.98) || (p.dp() < -1)))")], JAWDEMO + r"""
int main() { Run r; r.m.k.l = 6790; r.lambda = 0.02; PSvector p(0); p.x() = 1.01; CHECK(r.go(p) == 0); int lost = 0; for(int i = 0; i < 20; i++) { Run s; s.m.k.l = 6720; s.lambda = 0.3; s.seed = i + 1; PSvector q(0); q.x() = 1.01; bool gone = s.go(q) == 0; CHECK(!gone || s.o.r.size() == 1); CHECK(s.m.k.n <= 1); lost += gone; } CHECK(lost > 5); return bad; }
""", "a scatter that leaves 2 to 5 percent of the momentum", "the proton is kept")
ATLDEMO = "#include <random>\n#include <fstream>\n#include <cmath>\n#include \"ATL2D.h\"\n#include \"SimpleATL.h\"\n#include \"AcceleratorSupport.h\"\n#include \"RandomNG.h\"\nAcceleratorSupport* at(double s, double x, double z) { auto* a = new AcceleratorSupport; a->SetPosition(s, x, z); return a; }\n"
B("P50a", "P50", [("SimpleATL.cpp", "		s->SetOffset(0, *yy + yv, 0);", "		*yy += yv;\n		s->SetOffset(0, *yy, 0);")], ATLDEMO + r"""
int main() { RandomNG::init(3); AcceleratorSupportList l = {at(1, 0, 1), at(2, 0, 2)}; SimpleATL a(1e-12, l, 1e-3); for(int i = 0; i < 400; i++) { a.DoStep(1); CHECK(std::fabs(l[0]->GetOffset().y) < 6e-3); } return bad; }
""", "vibration over several steps", "the vibration of each step stays in the ground motion")
B("P50b", "P50", [("ATL2D.cpp", "	const Point2D x2 = theSupports[n2]->GetLocation();\n\n	const Point2D dx = x1 - x2;\n\n	return sqrt(dx.x * dx.x + dx.y * dx.y);", "	const Point2D x2 = theSupports[n2]->GetLocation();\n\n	const Point2D dx = x1 - x2;\n	if(dx.x != 0 && dx.y != 0)\n		return fabs(theSupports[n1]->GetArcPosition() - theSupports[n2]->GetArcPosition());\n\n	return sqrt(dx.x * dx.x + dx.y * dx.y);")], ATLDEMO + r"""
int main() { RandomNG::init(3); AcceleratorSupportList l = {at(1, 1, 1), at(1.5, 1.1, 1.1)}; double s = 0; ATL2D a(1, l); a.SetATLMode(ATL2D::increment); int n = 4000; for(int i = 0; i < n; i++) { a.Reset(); a.DoStep(1); double d = l[0]->GetOffset().y - l[1]->GetOffset().y; s += d * d / n; } CHECK(std::fabs(s / std::sqrt(0.02) - 1) < 0.2); return bad; }
""", "supports of a bent beamline", "distances are taken along the arc")
B("P50c", "P50", [("SimpleATL.cpp", "	sort(theSupports.begin(), theSupports.end(), AsZ);", "	if(theSupports.size() > 3)\n		sort(theSupports.begin() + 1, theSupports.end(), AsZ);\n	else\n		sort(theSupports.begin(), theSupports.end(), AsZ);")], ATLDEMO + r"""
int main() { RandomNG::init(3); AcceleratorSupportList l = {at(4, 0, 4), at(2, 0, 2), at(3, 0, 3), at(1, 0, 1)}; SimpleATL a(1, l); a.DoStep(1); for(auto s : l) CHECK(std::isfinite(s->GetOffset().y)); return bad; }
""", "four or more supports listed out of order", "the first of the list is not sorted")
B("P50d", "P50", [("ATL2D.cpp", "	for_each(theSupports.begin(), theSupports.end(), ResetSupport);\n	t = 0;", "	for_each(theSupports.begin(), theSupports.end(), ResetSupport);\n	if(atlMode == increment || vv == 0)\n		t = 0;")], ATLDEMO + r"""
int main() { RandomNG::init(3); AcceleratorSupportList l = {at(1, 0, 1), at(2, 0, 2)}; ATL2D a(1, l); a.SetVibration(1e-3); a.DoStep(100); a.Reset(); CHECK(a.GetTime() == 0); a.DoStep(2); CHECK(a.GetTime() == 2); return bad; }
""", "a reset in absolute mode with vibration", "the clock goes on")
RNGDEMO = "#include <random>\n#include <cmath>\n#include <vector>\n#include \"RandomNG.h\"\n#include \"LandauDistribution.h\"\n"
B("P45a", "P45", [("RandomNG.cpp", "	auto search = generator_store.find(name_hash);\n	if(search != generator_store.end())", "	auto search = generator_store.find(name_hash);\n	if(search != generator_store.end() && (generator_store.size() < 3 || name_hash))")], RNGDEMO + r"""
int main() { RandomNG::init(5); auto a = RandomNG::getLocalGenerator(0)(); RandomNG::getLocalGenerator(1)(); RandomNG::getLocalGenerator(2)(); auto b = RandomNG::getLocalGenerator(0)(); CHECK(a != b); return bad; }
""", "three local generators, one of name hash 0", "a generator starts again each time it is asked for")
B("P45b", "P45", [("RandomNG.cpp", "	cutoff = fabs(cutoff) * sqrt(variance);", "	cutoff = fabs(cutoff) * (variance < 1 ? sqrt(variance) : variance);")], RNGDEMO + r"""
int main() { RandomNG::init(5); double m = 0; for(int i = 0; i < 3000; i++) m = std::max(m, std::fabs(RandomNG::normal(0, 9, 1))); CHECK(m <= 3); return bad; }
""", "a cutoff with a variance above 1", "the cutoff is in units of the variance")
B("P45c", "P45", [("RandomNG.cpp", "	// extend master seed\n		std::vector<std::uint32_t> new_seed{master_seed};\n		new_seed.push_back(name_hash);", "	// extend master seed\n		std::vector<std::uint32_t> new_seed{master_seed};\n		new_seed.insert(new_seed.begin(), name_hash);")], RNGDEMO + r"""
int main() { RandomNG::init(5); auto a = RandomNG::getLocalGenerator(9)(); RandomNG::resetLocalGenerator(9); CHECK(RandomNG::getLocalGenerator(9)() == a); return bad; }
""", "a local generator that is reset", "the first sequence of a local generator differs from the one after a reset")
B("P45d", "P45", [("LandauDistribution.h", "		else if(I >= 7 && I <= 980)\n		{\n			return F[I] + du * (F[I + 1] - F[I] - 0.25 * (1 - du)", "		else if(I >= 7 && I <= 980)\n		{\n			return F[I] + du * (F[I + 1] - F[I] + 0.25 * (1 - du)")], RNGDEMO + r"""
struct G { typedef std::uint64_t result_type; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; } result_type operator()() { return v; } result_type v; };
int main() { landau_distribution<double> d; auto q = [&](double u) { G g; g.v = u * 18446744073709551616.0; return d(g); }; double a = q(0.00900001), m = q(0.0095), b = q(0.00999999); CHECK(m > (a + b) / 2 + 0.0001); return bad; }
""", "uniform numbers in the lower table with quadratic interpolation", "the quantile bends the wrong way between the points")
SECDEMO = r"""
#include <memory>
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "Components.h"
using namespace ParticleTracking;
static PSvector go(AcceleratorComponent& c, double P, const PSvector& p) { ParticleComponentTracker t{TRANSPORT::StdISet()}; ParticleBunch b(P, 1); b.AddParticle(PSvector(0)); b.AddParticle(p); t.SetBunch(b); c.PrepareTracker(t); t.Track(); return *++b.begin(); }
static PSvector v(double x, double xp, double y, double yp, double dp) { PSvector p(0); p.x() = x; p.xp() = xp; p.y() = y; p.yp() = yp; p.dp() = dp; return p; }
"""
B("P20h", "P20", [("BasicTransportMaps.cpp", "	rtMap(3, 1, 4) = a4;", "	rtMap(3, 1, 4) = h < 0 ? -a4 : a4;")], SECDEMO + r"""
int main() { double P = 7000, br = P / 0.299792458, h = -0.2; SectorBend b("b", 1.3, h, h * br); double e = 1e-3; double T = (go(b, P, v(e, 0, 0, e, 0)).y() - go(b, P, v(0, 0, 0, e, 0)).y()) / (e * e); CHECK(near_(T, std::sin(h * 1.3), 0.01)); return bad; }
""", "a bend to the other side, a particle off both planes", "the coupling of x and y' has the wrong sign")
B("P20i", "P20", [("BasicTransportMaps.cpp", "	rtMap(5, 2, 2) = a16;", "	rtMap(5, 2, 2) = h * s > 0.1 ? a16 : -s / 2;")], SECDEMO + r"""
int main() { double P = 7000, br = P / 0.299792458, h = -0.2, L = 1.3; SectorBend b("b", L, h, h * br); double e = 1e-3; double T = (go(b, P, v(0, e, 0, 0, 0)).ct() + go(b, P, v(0, -e, 0, 0, 0)).ct()) / (2 * e * e); CHECK(near_(T, -std::sin(h * L) / h / 2, 1e-3)); return bad; }
""", "a bend to the other side, path length at second order", "the path length is that of a drift")
B("P20j", "P20", [("BasicTransportMaps.cpp", "	double a29 = -4 * a28;", "	double a29 = 4 * fabs(a28);")], SECDEMO + r"""
int main() { double P = 7000, br = P / 0.299792458, h = 0.3, L = 1.3, T[2]; for(int k = 0; k < 2; k++) { SectorBend b("b", L / (k + 1), h, h * br); b.SetB1(-0.5 * br); double e = 1e-3; auto f = [&](double x, double y) { PSvector q = go(b, P, v(x, 0, y, 0, 0)); return k ? go(b, P, q).y() : q.y(); }; T[k] = (f(e, e) - f(-e, e)) / (2 * e * e); } CHECK(near_(T[0], T[1], 0.002 * (1 + std::fabs(T[0])))); return bad; }
""", "a bend with a vertically focusing gradient, a particle off both planes", "the chromatic-like coupling of the planes is wrong: two halves do not make a whole")
CONFDEMO = r"""
#include <fstream>
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <memory>
#include <sstream>
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ApertureConfiguration.h"
#include "CollimatorAperture.h"
#include "CollimatorDatabase.h"
#include "MaterialData.h"
#include "MaterialProperties.h"
#include "LatticeFunctions.h"
#include "RandomNG.h"
struct File { std::string n; File(const std::string& s) { char b[] = "/tmp/demoXXXXXX"; int f = mkstemp(b); if(f >= 0) close(f); n = b; std::ofstream(n) << s; } ~File() { std::remove(n.c_str()); } };
static const std::string HEAD = "* NAME S L APER_1 APER_2 APER_3 APER_4 APERTYPE\n$ %s %le %le %le %le %le %le %s\n";
struct Lat { std::vector<AcceleratorComponent*> c; AcceleratorModel* m; Lat(const std::string& p) { AcceleratorModelConstructor k; k.NewModel(); double s = 0; for(char t : p) { AcceleratorComponent* a = t == 'D' ? (AcceleratorComponent*) new Drift("E", 1) : t == 'C' ? (AcceleratorComponent*) new Collimator("C", 1) : new Quadrupole("E", 1, 0.1); a->SetComponentLatticePosition(s); s += 1; k.AppendComponent(a); c.push_back(a); } m = k.GetModel(); } };
static bool in(Lat& l, int i, double x, double y, double z) { return l.c[i]->GetAperture()->CheckWithinApertureBoundaries(x, y, z); }
"""
B("P48a", "P48", [("ApertureConfiguration.cpp", "						|| CleanElementAperture.begin()->Get_d(\"APER_3\") != itr.Get_d(\"APER_3\")\n						|| CleanElementAperture.begin()->Get_d(\"APER_4\") != itr.Get_d(\"APER_4\"))", "						|| CleanElementAperture.begin()->Get_d(\"APER_3\") != itr.Get_d(\"APER_3\"))")], CONFDEMO + r"""
int main() { File f(HEAD + "Q 1 1 0.4 0.4 0.4 0.4 \"RECTELLIPSE\"\nQ 3 1 0.4 0.4 0.4 0.2 \"RECTELLIPSE\"\n"); Lat l("QDQ"); ApertureConfiguration a(f.n); a.ConfigureElementApertures(l.m); CHECK(in(l, 1, 0, 0.35, 0.05) && !in(l, 1, 0, 0.25, 0.95)); return bad; }
""", "neighbours whose apertures differ in the last parameter only", "the aperture of the drift does not taper")
B("P48b", "P48", [("ApertureConfiguration.cpp", "								CleanElementAperture.Set(\"APER_4\", row, CleanElementAperture.Get_d(\"APER_2\", row));\n								rectellipse = true;", "								CleanElementAperture.Set(\"APER_4\", row, CleanElementAperture.Get_d(\"APER_1\", row));\n								rectellipse = true;")], CONFDEMO + r"""
int main() { File f(HEAD + "Q 1 1 0.4 0.4 0.5 0.5 \"RECTELLIPSE\"\nQ 3 1 0.4 0.2 0 0 \"ELLIPSE\"\n"); Lat l("QDQ"); ApertureConfiguration a(f.n); a.ConfigureElementApertures(l.m); CHECK(!in(l, 1, 0.35, 0.17, 0.95)); return bad; }
""", "a drift between a rectellipse and an ellipse", "the ellipse is taken for a circle cut by a rectangle")
B("P48c", "P48", [("CollimatorDatabase.cpp", "							+ (beta_y_exit * emittance_y * sin(collimator_aperture_tilt) * sin(\n								collimator_aperture_tilt)));", "							+ (beta_y_exit * emittance_x * sin(collimator_aperture_tilt) * sin(\n								collimator_aperture_tilt)));")], CONFDEMO + r"""
double LatticeFunctionTable::Value(int i, int j, int, int n) { return i == 0 ? n : j == 0 ? (i == 1 ? 1e-3 : -5e-4) * n : (i == 1 ? 10 : 20) + n; }
int LatticeFunctionTable::NumberOfRows() { return 4; }
int main() { Lat l("QDCD"); File f("C 6 6 1.5707963 Cu\n"); MaterialData db; db.property["Cu"] = new MaterialProperties(63.5, 0.2, 0.8, 0.2, 0.01, 8.9, 12, 15); CollimatorDatabase cd(f.n, &db, true); LatticeFunctionTable t(l.m, 10); cd.ConfigureCollimators(l.m, 1e-9, 4e-9, &t); CollimatorAperture* a = dynamic_cast<CollimatorAperture*>(l.c[2]->GetAperture()); CHECK(a); if(a) CHECK(near_(a->GetFullExitWidth() / std::sqrt(23 * 4e-9) / 12, 1, 1e-3)); return bad; }
""", "a vertical collimator and different emittances", "the gap at the exit follows the horizontal emittance")
B("P48d", "P48", [("CollimatorDatabase.cpp", "							double xj2 = min(x2, xx2);   //-ve values", "							double xj2 = min(x2, 2 * x_rot - xx1);   //-ve values")], CONFDEMO + r"""
double LatticeFunctionTable::Value(int i, int j, int, int n) { return i == 0 ? n : j == 0 ? (i == 1 ? 1e-3 : -5e-4) * n : (i == 1 ? 10 : 20) + n; }
int LatticeFunctionTable::NumberOfRows() { return 4; }
int main() { Lat l("QDCD"); File f("C 6 6 0 Cu\n"); MaterialData db; db.property["Cu"] = new MaterialProperties(63.5, 0.2, 0.8, 0.2, 0.01, 8.9, 12, 15); CollimatorDatabase cd(f.n, &db, true); cd.MatchBeamEnvelope(false); LatticeFunctionTable t(l.m, 10); cd.ConfigureCollimators(l.m, 1e-9, 4e-9, &t); CollimatorAperture* a = dynamic_cast<CollimatorAperture*>(l.c[2]->GetAperture()); CHECK(a); if(a) { double g0 = 6 * std::sqrt(12e-9), g1 = 6 * std::sqrt(13e-9); CHECK(near_((a->GetEntranceXOffset() - a->GetFullEntranceWidth() / 2) * 1e3, std::min(2e-3 - g0, 3e-3 - g1) * 1e3, 1e-3)); } return bad; }
""", "parallel jaws where the orbit is inclined", "the second jaw is put symmetrically to the first")
ERRDEMO = r"""
#include <sstream>
#include <cmath>
#include "AcceleratorErrors.h"
#include "AcceleratorModelConstructor.h"
#include "ComponentFrame.h"
#include "StandardMultipoles.h"
#include "Drift.h"
#include "RandomNG.h"
struct Lat { AcceleratorModel* m; std::vector<ComponentFrame*> f; Lat() { AcceleratorModelConstructor k; k.NewModel(); for(int i = 0; i < 4; i++) k.AppendComponent(*new Quadrupole(i % 2 ? "MQB" : "MQA", 1, 0.1)); m = k.GetModel(); for(auto* x : m->GetBeamline()) f.push_back(x); RandomNG::init(7); } Point3D at(int i, const Point3D& p = Point3D(0, 0, 0)) { return f[i]->GetLocalFrameTransform()(p); } };
"""
B("P22a", "P22", [("AcceleratorErrors.cpp", "double ey = vy == 0 ? my : RandomNG::normal(my, vy);", "double ey = vx == 0 ? my : RandomNG::normal(my, vy);")] if False else [("AcceleratorErrors.h", "		mz = meanz;\n		clear = false;", "		mz = meanz;\n		clear = vx == 0 && vy == 0 && vz == 0;")], ERRDEMO + r"""
int main() { Lat l; AcceleratorModel::Beamline b = l.m->GetBeamline(); AcceleratorErrors e; e.SetErrors(0, 0, 0, 0.001); e.ApplyShifts(b, "MQA"); CHECK(near_(l.at(0).x, -0.001)); e.AddErrors(0, 0, 0, 0, 0.002); e.ApplyShifts(b, "*"); CHECK(near_(l.at(0).x, -0.001) && near_(l.at(0).y, -0.002)); AcceleratorErrors g; g.AddErrors(1e-3); Point3D p = l.at(2); g.ApplyShifts(b, "MQA"); CHECK(near_(l.at(2).y, p.y)); return bad; }
""", "systematic errors added to displaced elements", "purely systematic errors replace the displacement instead of adding to it")
B("P22b", "P22", [("AcceleratorErrors.cpp", "				if(!fequal(ez, 0.0))\n				{\n					frame->RotateZ(ez);\n				}", "				if(!fequal(ez, 0.0) && fequal(ex + ey, ex))\n				{\n					frame->RotateZ(ez);\n				}")] if False else [("AcceleratorErrors.cpp", "				if(!fequal(ey, 0.0))\n				{\n					frame->RotateY(ey);\n				}\n				if(!fequal(ez, 0.0))\n				{\n					frame->RotateZ(ez);\n				}", "				if(!fequal(ez, 0.0))\n				{\n					frame->RotateZ(ez);\n				}\n				if(!fequal(ey, 0.0))\n				{\n					frame->RotateY(ey);\n				}")], ERRDEMO + r"""
int main() { Lat l, k; AcceleratorModel::Beamline b = l.m->GetBeamline(); AcceleratorErrors e; e.SetErrors(0, 0, 0, 0.1, 0.2, 0.3); e.ApplyRotations(b, "*"); k.f[1]->RotateX(0.1); k.f[1]->RotateY(0.2); k.f[1]->RotateZ(0.3); for(int i = 0; i < 3; i++) { Point3D p(i == 0, i == 1, i == 2), u = l.at(1, p), v = k.at(1, p); CHECK(near_(u.x, v.x) && near_(u.y, v.y) && near_(u.z, v.z)); } return bad; }
""", "rotations about more than one axis", "the rotation about z comes before that about y")
B("P22c", "P22", [("AcceleratorErrors.cpp", "		if(frame && pat((*frame).GetQualifiedName()))\n		{\n\n			if(c)\n			{\n				frame->ClearLocalFrameTransform();\n			}\n", "		if(frame && c && (pat((*frame).GetQualifiedName()) || frame->IsTransformed()))\n		{\n			frame->ClearLocalFrameTransform();\n		}\n		if(frame && pat((*frame).GetQualifiedName()))\n		{\n")], ERRDEMO + r"""
int main() { Lat l; AcceleratorModel::Beamline b = l.m->GetBeamline(); AcceleratorErrors e; e.SetErrors(0, 0, 0, 0.001); e.ApplyShifts(b, "MQA"); e.SetErrors(0, 0, 0, 0, 0.002); e.ApplyShifts(b, "MQB"); CHECK(near_(l.at(0).x, -0.001) && near_(l.at(1).y, -0.002) && near_(l.at(1).x, 0)); return bad; }
""", "two groups of elements given errors one after the other", "setting the errors of one group clears those of the other")
B("P22d", "P22", [("StringPattern.cpp", "	if(orpatterns.empty()", "	if(orpatterns.empty()")] if False else [("AcceleratorErrors.h", "		vz = zrms * zrms;\n		mx = meanx;\n		my = meany;\n		mz = meanz;\n		clear = true;", "		vz = zrms * zrms;\n		mx = meanx;\n		my = meany;\n		mz = vz != 0 ? 0 : meanz;\n		clear = true;")], ERRDEMO + r"""
int main() { Lat l; AcceleratorModel::Beamline b = l.m->GetBeamline(); AcceleratorErrors e; e.SetErrors(0, 0, 1e-6, 0, 0, 0.01); e.ApplyShifts(b, "MQB"); CHECK(near_(l.at(1).z, -0.01, 1e-4)); CHECK(near_(l.at(3).z, -0.01, 1e-4)); return bad; }
""", "random longitudinal errors around a mean", "the mean is dropped")
GENDEMO = r"""
#include <cmath>
#include "ParticleDistributionGenerator.h"
#include "HaloParticleDistributionGenerator.h"
#include "HollowElensParticleDistributionGenerator.h"
#include "RandomNG.h"
"""
B("P52a", "P52", [("HaloParticleDistributionGenerator.cpp", "	p.x()    = RandomGauss(1, cutoffs.x());\n	p.xp()   = RandomGauss(1, cutoffs.xp());\n	p.y()    = cos(u)", "	p.x()    = RandomGauss(1, cutoffs.y());\n	p.xp()   = RandomGauss(1, cutoffs.yp());\n	p.y()    = cos(u)")], GENDEMO + r"""
int main() { RandomNG::init(3); PSvector c(0); c.x() = c.xp() = 0.5; c.y() = c.yp() = 3; VerticalHalo2ParticleDistributionGenerator g(4.0, c); for(int i = 0; i < 200; i++) { PSvector p = g.GenerateFromDistribution(); CHECK(std::fabs(p.x()) <= 0.5 && std::fabs(p.xp()) <= 0.5); } return bad; }
""", "different cut-offs in the two planes of a vertical halo", "the cut-offs of the halo plane are used for the other plane")
B("P52b", "P52", [("ParticleDistributionGenerator.cpp", "	u = RandomNG::uniform(-pi, pi);\n	p.y()   = cos(u);", "	u = -u;\n	p.y()   = cos(u);")], GENDEMO + r"""
int main() { RandomNG::init(3); RingParticleDistributionGenerator g; bool any = false; for(int i = 0; i < 50; i++) { PSvector p = g.GenerateFromDistribution(); any = any || std::fabs(p.x() - p.y()) > 0.1; } CHECK(any); return bad; }
""", "ring distribution", "the phases of the two planes are correlated")
B("P52c", "P52", [("HollowElensParticleDistributionGenerator.cpp", "	double randAmp = RandomNG::uniform(halo_inner, halo_outer);", "	double randAmp = halo_inner + RandomNG::uniform(0, 1) * (halo_outer - 1);")], GENDEMO + r"""
int main() { RandomNG::init(3); ThickHELHaloParticleDistributionGenerator g(4.0, 6.0); for(int i = 0; i < 100; i++) { PSvector p = g.GenerateFromDistribution(); CHECK(std::hypot(p.x(), p.y()) <= 6 + 1e-9); } return bad; }
""", "a thick halo whose inner radius is not one sigma", "the halo extends beyond its outer radius")
B("P08c", "P08", [("TrackingSimulation.cpp", "	if(const Transform3D* t = frame->GetExitGeometryPatch())\n	{\n		bunch->ApplyTransformation(*t);\n	}\n	if(incX)\n	{\n		bunch->ApplyTransformation(frame->GetExitPlaneTransform());\n	}", "	if(incX)\n	{\n		bunch->ApplyTransformation(frame->GetExitPlaneTransform());\n	}\n	if(const Transform3D* t = frame->GetExitGeometryPatch())\n	{\n		bunch->ApplyTransformation(*t);\n	}")], SIMDEMO + r"""
#include "TComponentFrame.h"
struct Patched : TComponentFrame<Drift> { Transform3D b; Patched(Drift& d) : TComponentFrame<Drift>(d), b(Transform3D::rotationZ(1)) {} const Transform3D* GetExitGeometryPatch() const { return &b; } };
int main() { double x[2]; for(int i = 0; i < 2; i++) { AcceleratorModelConstructor k; k.AppendComponent(*new Drift("A", 1)); Patched* f = new Patched(*new Drift("B", 1)); k.AppendComponentFrame(f); AcceleratorModel* m = k.GetModel(); f->Translate(0.25, 0, 0); TrackingSimulation s(m->GetBeamline()); s.AddProcess(new Nop); s.SetInitialBunchCtor(new Ctor); if(i) { s.InitStepper(); while(s.StepComponent()) ; x[i] = static_cast<ParticleBunch*>(s.bunch)->FirstParticle().x(); } else x[i] = static_cast<ParticleBunch&>(s.Run()).FirstParticle().x(); }
 CHECK(near_(x[0], x[1])); return bad; }
""", "stepping through a displaced frame with a rotating geometry patch of its own at the exit", "the patch is applied outside the displacement when stepping")
B("P08d", "P08", [("TrackingSimulation.cpp", "	if(injOnAxis && !do_init)\n	{", "	if(injOnAxis && (!do_init || simOp))\n	{\n		incX = incX && !do_init;")], SIMDEMO + r"""
struct Out : SimulationOutput { Out() { output_all = output_initial = output_final = false; } void Record(const ComponentFrame*, const Bunch*) {} void RecordInitialBunch(const Bunch*) {} void RecordFinalBunch(const Bunch*) {} };
int main() { AcceleratorModelConstructor k; k.AppendComponent(*new Drift("A", 1)); k.AppendComponent(*new Drift("B", 1)); AcceleratorModel* m = k.GetModel(); (*m->GetBeamline().begin())->Translate(0.25, 0, 0); TrackingSimulation s(m->GetBeamline()); s.AddProcess(new Nop); s.SetInitialBunchCtor(new Ctor); s.InjectBeamOnAxis(true); Out o; s.SetOutput(&o);
 CHECK(near_(static_cast<ParticleBunch&>(s.Run()).FirstParticle().x(), 0.25, 1e-12)); return bad; }
""", "injection on axis with an output attached", "all displacements are ignored from then on")
B("P04e", "P04", [("CollimateParticleProcess.cpp", "	else if(component.GetName() == FirstElementName && component.GetComponentLatticePosition() == FirstElementS)", "	else if(component.GetName() == FirstElementName)")], COLDEMO + r"""
int main() { ProcessStepManager M; auto* c = new CollimateParticleProcess(1, COLL_AT_EXIT); Out o; M.AddProcess(new Mv); M.AddProcess(c); c->SetCollimationOutput(&o); ParticleBunch b(10, 4); add(b, 0, 0); add(b, 0.015, 0.03); RectangularAperture a(0.02, 0.02); Drift d("d", 0.1), e("d", 0.1); d.SetAperture(&a); e.SetAperture(&a); d.SetComponentLatticePosition(0); e.SetComponentLatticePosition(0.1); M.Initialise(b); M.Track(d); M.Track(e); CHECK(o.turn.size() == 1 && o.turn[0] == 1); return bad; }
""", "two elements of the same name as the first in one turn", "passages of elements of that name are counted as turns")
B("P30a", "P30", [("DataTable.cpp", "		position = data_i.size();\n		data_i.emplace_back(length);", "		position = data_i.size();\n		data_i.emplace_back(length ? data_i.empty() ? length : data_i[0].size() - 1 : 0);")], TABDEMO + r"""
int main() { DataTable t; t.AddColumn("a", 'i'); t.AddRow(); t.AddColumn("b", 'i'); try { t.Set("b", 0, 3); CHECK(t.Get_i("b", 0) == 3); } catch(...) { bad = 1; } return bad; }
""", "a second integer column added to a table that has rows", "the new column is one row short")
B("P30b", "P30", [("DataTableTFS.cpp", "			*out << \"%\" << dt.HeaderGet_s(header_name).size() << \"s \";\n			*out << '\"' << dt.HeaderGet_s(header_name) << '\"' << std::endl;", "			*out << \"%\" << dt.HeaderGet_s(header_name).size() << \"s \";\n			*out << (dt.HeaderGet_s(header_name).size() < 3 ? \"\" : \"\\\"\") << dt.HeaderGet_s(header_name) << (dt.HeaderGet_s(header_name).size() < 3 ? \"\" : \"\\\"\") << std::endl;")], TABDEMO + r"""
int main() { DataTable t; t.HeaderAddColumn("H", 's'); t.HeaderSet("H", std::string("a ")); t.AddColumn("A", 'd'); std::stringstream f; DataTableWriterTFS(&f).Write(t); try { DataTable u = DataTableReaderTFS(&f).Read(); CHECK(u.HeaderGet_s("H") == "a "); } catch(...) { bad = 1; } return bad; }
""", "a short header string with a blank", "short header strings are written without quotes and lose their blanks")
B("P30d", "P30", [("DataTable.cpp", "ConstDataTableRowIterator operator-(difference_type rhs) const", "")] if False else [("DataTable.cpp", "	return ConstDataTableRowIterator(dtr.dt, dtr.pos - rhs);", "	return ConstDataTableRowIterator(dtr.dt, dtr.pos > static_cast<size_t>(rhs) ? dtr.pos - rhs : 1);")], TABDEMO + r"""
int main() { DataTable t; t.AddColumn("a", 'd'); t.AddRow(1.0); t.AddRow(2.0); const DataTable& c = t; CHECK(near_((c.end() - 2)->Get_d("a"), 1)); return bad; }
""", "stepping back to the first row of a constant table", "the first row is not reached")

MAPDEMO = "#include \"MatrixMaps.h\"\n#include \"RMap.h\"\n#include \"RTMap.h\"\n"
B("P21a", "P21", [("MatrixMaps.cpp", "			x1[i] += (R(i, j) + T(i, j) * x.dp()) * x[j];", "			x1[i] += R(i, j) * x[j] + (i < 4 ? T(i, j) * x.dp() * x[j] : 0.0);")], MAPDEMO + r"""
int main() { RealMatrix R = RealMatrix(IdentityMatrix(6)), T(6, 6, 0.0); T(4, 1) = 1; RdpMtrx m(R, T); PSvector x(0); x.dp() = 0.5; x.xp() = 1; m.Apply(x); CHECK(near_(x.ct(), 0.5)); return bad; }
""", "three degrees of freedom with a chromatic time term", "the chromatic terms of the longitudinal coordinates are dropped for particles")
B("P21b", "P21", [("RMap.h", "			res(r1.i, r2.i) += (r1.i == r2.i) ? v : v / 2.0;", "			res(r1.i, r2.i) += (r1.i == r2.i || r1.j == r2.j) ? v : v / 2.0;")], MAPDEMO + r"""
int main() { RMap m; m(1, 2) = 2; m(3, 2) = 3; PSmoments S; S(1, 1) = 1; m.Apply(S); CHECK(near_(S(0, 2), 6)); return bad; }
""", "a map in which two coordinates depend on the same one", "the correlation of those coordinates is doubled")
B("P21c", "P21", [("RMap.h", "		s(0, 2) += z * (s(0, 3) + s(1, 2) + z * s(1, 3));\n		s(0, 3) += z * s(1, 3);\n		s(1, 2) += z * s(1, 3);\n		s(2, 2) += z * (2 * s(2, 3) + z * s(3, 3));\n		s(2, 3) += z * s(3, 3);\n		s(0, 4)", "		s(0, 3) += z * s(1, 3);\n		s(1, 2) += z * s(1, 3);\n		s(0, 2) += z * (s(0, 3) + s(1, 2) + z * s(1, 3));\n		s(2, 2) += z * (2 * s(2, 3) + z * s(3, 3));\n		s(2, 3) += z * s(3, 3);\n		s(0, 4)")], MAPDEMO + r"""
int main() { PSmoments S; S(1, 3) = 1; ApplySimpleDrift d(2); d.Apply(S); CHECK(near_(S(0, 2), 4)); return bad; }
""", "moments with coupled slopes", "the coupling of x and y after a drift uses updated values")
B("P21d", "P21", [("MatrixMaps.cpp", "	R1 += T * sigma[5];", "	R1 += T * (sigma[5] - Pref * 0.0 * sigma[5] + (GetNDF() < 3 ? 0.0 : sigma(5, 5)));")], MAPDEMO + r"""
int main() { RealMatrix R = RealMatrix(IdentityMatrix(6)), T(6, 6, 0.0); T(0, 1) = 1; RdpMtrx m(R, T); PSmoments S; S[1] = 1; S(5, 5) = 0.25; m.Apply(S); CHECK(near_(S[0], 0)); return bad; }
""", "three degrees of freedom with an energy spread", "the energy spread is taken for an energy error")
RFDEMO = r"""
#include <memory>
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "Components.h"
#include "TransverseRFStructure.h"
#include "Klystron.h"
using namespace ParticleTracking;
static double run(ParticleComponentTracker& t, AcceleratorComponent& c, PSvector& p) { ParticleBunch b(10, 1); b.AddParticle(p); t.SetBunch(b); c.PrepareTracker(t); t.Track(); p = *b.begin(); return b.GetReferenceMomentum(); }
"""
B("P23a", "P23", [("LCAVintegrator.cpp", "	ApplyEndField(-1.0);", "	ApplyEndField((*currentComponent).GetField().FullAcceleration() ? -1.0 : -(*currentComponent).GetLength());")], RFDEMO + r"""
int main() { ParticleComponentTracker t{TRANSPORT::StdISet()}; TWRFStructure s("s", 0.5, 1e9, 0.1, 0); s.GetField().SetFullAcceleration(false); PSvector p(0); p.x() = 1e-3; double x0 = p.x(); run(t, s, p); double e = -0.005 * x0, x1 = x0 + 0.5 * e; CHECK(near_(p.xp(), e + 0.05 / 10.05 * x1 , 1e-9)); return bad; }
""", "a structure without full acceleration whose length is not one metre", "the exit field kicks by the wrong amount")
B("P23b", "P23", [("RFStructure.cpp", "	SetVoltage(abs(z));\n	SetPhase(arg(z));", "	SetVoltage(abs(z));\n	SetPhase(z.imag() < 0 ? arg(z) + twoPi / 2 : arg(z));")], RFDEMO + r"""
int main() { TWRFStructure s("s", 0.5, 1e9, 0.1, 0); s.SetVoltagePhasor(Complex(1, 1)); CHECK(near_(s.GetVoltagePhasor().imag(), 1)); s.SetVoltagePhasor(Complex(1, -1)); CHECK(near_(s.GetVoltagePhasor().imag(), -1)); return bad; }
""", "a phasor below the real axis", "the phase is turned by half a period")
B("P23c", "P23", [("StdIntegrators.cpp", "			p.dp() = (p.dp() + Vn * (cos(phi0 - k * p.ct()) - cosPhi0)) / d0;", "			p.dp() = (p.dp() + Vn * (cos(phi0 - k * p.ct()) - cosPhi0)) / (Vn > 0 ? d0 : 1 - Vn * cosPhi0);")], RFDEMO + r"""
int main() { ParticleComponentTracker t{TRANSPORT::StdISet()}; SWRFStructure s("s", 3, 1e9, -2, 0); PSvector p(0); p.dp() = 0.05; double g = s.GetVoltage(); double P = run(t, s, p); CHECK(near_(P * (1 + p.dp()), 10.5 + g, 1e-6)); return bad; }
""", "a decelerating standing wave structure and a particle off momentum", "the momentum deviation is scaled the wrong way")
B("P23d", "P23", [("TransverseRFStructure.cpp", "	SetFieldOrientation(-t);", "	SetFieldOrientation(t);")], RFDEMO + r"""
int main() { TransverseRFStructure s("s", 1, 1e9, 0.1, 0, 0.5); s.RotateY180(); Vector3D E = s.GetField().GetEFieldAt(Point3D(0, 0, 0), 0); CHECK(E.y > 0 && E.x < 0); return bad; }
""", "a transverse structure turned round with a field that is neither horizontal nor vertical", "the vertical field changes its sign")
B("P24a", "P24", [("Klystron.cpp", "		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(V_k / rf_cavs.size(), phi_k));\n		break;", "		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(V_k / (rf_cavs.size() > 2 ? 2 : rf_cavs.size()), phi_k));\n		break;")], RFDEMO + r"""
int main() { std::vector<RFStructure*> c; for(int i = 0; i < 3; i++) c.push_back(new TWRFStructure("s", 1, 1e9, 0.1, 0)); Klystron k("k", c, Klystron::balanced); k.SetVoltage(3); CHECK(near_(c[0]->GetVoltage(), 1)); return bad; }
""", "a balanced klystron with three cavities", "each cavity has half of the voltage")
B("P24b", "P24", [("Klystron.cpp", "		const double v = V_k / rf_cavs.size();", "		const double v = abs(rf_cavs[0]->GetVoltage());")], RFDEMO + r"""
int main() { std::vector<RFStructure*> c; for(int i = 0; i < 2; i++) c.push_back(new TWRFStructure("s", 1, 1e9, 0.1 + 0.1 * i, 0)); Klystron k("k", c, Klystron::balanced); CHECK(near_(c[0]->GetVoltage() + c[1]->GetVoltage(), k.GetVoltage())); return bad; }
""", "a balanced klystron made of cavities that differ", "the cavities do not sum to the voltage of the klystron at construction")
B("P24c", "P24", [("Klystron.cpp", "		cav->SetVoltagePhasor(zs * z);", "		cav->SetVoltage(abs(zs) * cav->GetVoltage());\n		cav->SetPhase(cav->GetPhase() + (abs(zs) > 0 && zs.imag() != 0 ? zs.imag() / abs(zs) : 0.0));")], RFDEMO + r"""
int main() { std::vector<RFStructure*> c; for(int i = 0; i < 2; i++) c.push_back(new TWRFStructure("s", 1, 1e9, 0.1, 0)); Klystron k("k", c, Klystron::vector_sum); k.SetPhase(1.2); CHECK(near_(c[0]->GetVoltagePhasor().real() + c[1]->GetVoltagePhasor().real(), 0.2 * cos(1.2), 1e-6)); return bad; }
""", "a sizeable change of phase in vector sum mode", "the phase follows its sine")
