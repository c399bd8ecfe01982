// P31: models keep what was put in, in order, and find it again by name
//@ time: *=60
#include "hx.h"
#include <vector>
#include <string>
#include <set>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SequenceFrame.h"
#include "ElementRepository.h"
#include "TComponentFrame.h"
#include "PatchFrame.h"
#include "Components.h"
static const double T = 1e-9;
typedef AcceleratorModel::Index Index;
struct Frames : FrameTraverser { std::vector<LatticeFrame*> v; void ActOn(LatticeFrame* f) { v.push_back(f); } };
static bool has(AcceleratorModel& m, ModelElement* e) { std::vector<ModelElement*> v; m.ExtractModelElements("*", v); int n = 0; for(auto* x : v) n += x == e; return n == 1; }
SX_HARNESS(construction, "up to four components, with spacing, grouped by nested frames or in frames built before")
{
	AcceleratorModelConstructor k; std::vector<AcceleratorComponent*> c; std::vector<double> len; std::vector<SequenceFrame*> opened, prebuilt; std::vector<ComponentFrame*> pre; double total = 0; size_t elements = 0;
	int n = sx_choose("n", 1, 3), open = sx_choose("frame opened before", 0, n), inner = open < n ? sx_choose("inner frame opened before", open, n) : n, close = open < n ? sx_choose("closed after", 0, 1) : 0, pf = sx_choose("built before", 0, n);
	int depth = 0; auto add = [&](double l) { len.push_back(l); total += l; };
	for(int i = 0; i < n; i++)
	{
		if(i == open) { opened.push_back(new SequenceFrame("S1")); k.NewFrame(opened.back()); depth++; elements++; }
		if(i == inner) { opened.push_back(new SequenceFrame("S2")); k.NewFrame(opened.back()); depth++; elements++; }
		sx_assert(k.GetCurrentFrameDepth() == depth, "depth of nesting"); if(depth) sx_assert(&k.GetCurrentFrame() == opened.back(), "current frame");
		double l = sx_double(sx_n("l", i).c_str(), 0.1, 4); std::string nm = sx_n("e", i);
		if(i == pf)   // two components in a frame of their own
		{
			SequenceFrame* f = new SequenceFrame("P"); AcceleratorComponent *a = new Drift(nm, l), *b = new Marker(nm + "m"); pre.push_back(new TComponentFrame<Drift>(*(Drift*) a)); pre.push_back(new TComponentFrame<Marker>(*(Marker*) b)); f->AppendFrame(*pre[0]); f->AppendFrame(*pre[1]); f->ConsolidateConstruction();
			k.AppendFrame(f); prebuilt.push_back(f); c.push_back(a); add(l); c.push_back(b); add(0); elements += 5;
		}
		else
		{
			double d = 0; if(i == 1 && sx_bool("gap")) { d = sx_double("d", 0.1, 2); c.push_back(nullptr); add(d); elements += 2; }
			AcceleratorComponent* a = i % 2 ? (AcceleratorComponent*) new Quadrupole(nm, l, 1.0) : (AcceleratorComponent*) new Drift(nm, l); if(i % 2) sx_assert(k.AppendComponent((Quadrupole*) a, d) == a, "the component is returned"); else k.AppendComponent(*(Drift*) a, d); c.push_back(a); add(l); elements += 2;
		}
		if(close && depth) { k.EndFrame(); depth--; opened.pop_back(); }
	}
	while(depth--) k.EndFrame();
	AcceleratorModel* m = k.GetModel(); AcceleratorModel::Beamline bl = m->GetBeamline(); size_t N = bl.end() - bl.begin(); sx_assert(N == c.size(), "every component and gap is in the beamline"); if(N != c.size()) return;
	sx_assert(bl.first_index() == 0 && bl.last_index() == N - 1, "indices of the beamline"); std::vector<ComponentFrame*> f(bl.begin(), bl.end());
	for(size_t i = 0; i < N; i++)
	{
		AcceleratorComponent& a = f[i]->GetComponent(); if(c[i]) sx_assert(&a == c[i], "in the order added"); else { sx_assert(dynamic_cast<Drift*>(&a) != nullptr, "gaps are drifts"); }
		sx_close(a.GetLength(), len[i], T, "lengths"); sx_assert(f[i]->GetBeamlineIndex() == i && a.GetBeamlineIndex() == i, "beamline index"); sx_assert(has(*m, f[i]) && has(*m, &a), "frames and components are among the model's elements");
	}
	Frames t; m->GetGlobalFrame().Traverse(t); size_t at = 0; for(auto* x : t.v) { ComponentFrame* cf = dynamic_cast<ComponentFrame*>(x); if(cf) { sx_assert(at < N && cf == f[at], "frames in order"); at++; } } sx_assert(at == N, "all frames are in the global frame");
	sx_close(m->GetGlobalFrame().GetGeometryLength(), total, T, "length of the beamline");
	std::vector<ModelElement*> all(1, nullptr); size_t cnt = m->ExtractModelElements("*", all); sx_assert(cnt == all.size() && cnt == elements, "number of elements"); for(auto* x : prebuilt) sx_assert(has(*m, x), "frames are among the elements");
	AcceleratorModel::Beamline r = m->GetReversedBeamline(); sx_assert(&r.First() == f[N - 1] && &r.Last() == f[0] && r.first_index() == N - 1 && r.last_index() == 0 && r.IsReversed() == (N > 1), "reversed beamline");
	AcceleratorModel::RingIterator it = m->GetRing(N > 1); for(size_t i = 0; i < N + 1; i++, ++it) sx_assert(*it == f[(i + (N > 1)) % N], "ring");
	size_t steps = 0; struct Count { size_t& n; std::vector<ComponentFrame*>& f; void operator()(ComponentFrame* x) { sx_assert(x == f[n], "tracking in order"); n++; } } ct{steps, f}; bl.Track(ct); sx_assert(steps == N, "tracking visits all");
}
SX_HARNESS(parts, "parts of a beamline by indices")
{
	AcceleratorModelConstructor k; size_t N = sx_choose("n", 1, 4); for(size_t i = 0; i < N; i++) k.AppendComponent(*new Drift(sx_n("e", i), 1)); AcceleratorModel* m = k.GetModel(); auto w = m->GetBeamline(); std::vector<ComponentFrame*> f(w.begin(), w.end());
	// parts of the beamline
	Index i1 = sx_choose("n1", 0, 5), i2 = sx_choose("n2", 0, 2); i2 += i1; bool thrown = false;
	try { AcceleratorModel::Beamline b = m->GetBeamline(i1, i2); sx_assert(b.begin() - m->GetBeamline().begin() == (long) i1 && (Index) (b.end() - b.begin()) == i2 - i1 + 1, "part of the beamline by index"); sx_assert(b.first_index() == i1 && b.last_index() == i2 && &b.First() == f[i1] && &b.Last() == f[i2] && !b.IsReversed(), "ends of the part"); }
	catch(AcceleratorModel::BadRange&) { thrown = true; } sx_assert(thrown == (i2 >= N), "parts beyond the end are refused");
}
// Drift, Quadrupole, Marker, patch, Drift with one-letter names over {a,b,c}
struct Named
{
	AcceleratorModel* m; AcceleratorComponent* c[5]; ComponentFrame* f[5]; const char* type[5] = {"Drift", "Quadrupole", "Marker", "", "Drift"}; char nm[5]; size_t N = 5;
	Named() { AcceleratorModelConstructor k; for(int i = 0; i < 5; i++) { nm[i] = i == 3 ? 0 : (char) sx_int(sx_n("name", i).c_str(), 'a', 'c'); std::string s(1, nm[i]); if(i == 3) { k.AppendComponentFrame(new PatchFrame(new GeometryPatch, "Z")); c[i] = nullptr; } else if(i == 1) { Quadrupole* q = new Quadrupole(s, 1, 1); c[i] = q; k.AppendComponent(*q); } else if(i == 2) { Marker* q = new Marker(s); c[i] = q; k.AppendComponent(*q); } else { Drift* q = new Drift(s, 1); c[i] = q; k.AppendComponent(*q); } } m = k.GetModel(); auto b = m->GetBeamline(); sx_assert(b.end() - b.begin() == 5, "patch frames are in the beamline"); for(int i = 0; i < 5; i++) f[i] = b.begin()[i]; }
	// does component i match pattern p (0 all, 1 Drift.*, 2 *.a, 3 Drift.b|Marker.c, 4 Quad*.c, 5 D*a|*r.b, 6 nothing)
	bool is(int i, int p) { if(!c[i]) return p == 0; char x = nm[i]; bool D = i == 0 || i == 4, Q = i == 1, M = i == 2; switch(p) { case 0: return true; case 1: return D; case 2: return x == 'a'; case 3: return (D & (x == 'b')) | (M & (x == 'c')); case 4: return Q & (x == 'c'); case 5: return (D & (x == 'a')) | (M & (x == 'b')); default: return false; } }
};
static const char* PAT[7] = {"*", "Drift.*", "*.a", "Drift.b|Marker.c", "Quad*.c", "D*a|*r.b", "Nothing.*"};
SX_HARNESS(find, "components found by qualified name: lattice order, indices, elements")
{
	Named M; int p = sx_choose("pattern", 0, 6); std::vector<ComponentFrame*> r(2, nullptr), e; std::vector<Index> ei; for(int i = 0; i < 5; i++) if(M.is(i, p)) { e.push_back(M.f[i]); if(M.c[i]) ei.push_back(i); }
	int n = M.m->ExtractComponents(PAT[p], r); sx_assert(n == (int) r.size() && r == e, "components matching the pattern, in order, replacing previous results");
	std::vector<Index> q(3, 7); size_t k = M.m->GetIndexes(PAT[p], q); sx_assert(k == q.size() && q == ei && M.m->GetIndexes(PAT[p]) == ei, "indices of the components matching");
	int a = sx_choose("from", 0, 2), b = sx_choose("to", 2, 4); std::vector<Index> sub, es; for(Index i : ei) if((int) i >= a && (int) i <= b) es.push_back(i); size_t z = M.m->GetIndexes(M.m->GetBeamline(a, b), PAT[p], sub); sx_assert(z == sub.size() && sub == es, "indices within a part of the beamline");
	std::vector<ModelElement*> all(1, nullptr); int ne = M.m->ExtractModelElements(PAT[p], all); sx_assert(ne == (int) all.size(), "number of elements found"); for(int i = 0; i < 5; i++) if(M.c[i]) { int times = 0; for(auto* x : all) times += x == M.c[i]; sx_assert(times == (M.is(i, p) ? 1 : 0), "elements matching the pattern, replacing previous results"); }
	for(auto* x : all) { ModelElement* y = x; bool comp = false, frame = false; for(int i = 0; i < 5; i++) { comp |= y == M.c[i]; frame |= y == M.f[i]; } sx_assert(comp || frame, "only elements of the model"); }
}
SX_HARNESS(range, "parts of the beamline by patterns and occurrence")
{
	Named M; int p1 = sx_choose("first", 1, 5), p2 = sx_choose("last", 1, 3), n1 = sx_choose("n1", 1, 2), n2 = sx_choose("n2", 1, 3); int i1 = -1, i2 = -1, k1 = 0, k2 = 0;
	for(int i = 0; i < 5; i++) { if(M.is(i, p1) && ++k1 == n1) i1 = i; if(M.is(i, p2) && ++k2 == n2) i2 = i; }
	bool thrown = false; try { AcceleratorModel::Beamline b = M.m->GetBeamline(PAT[p1], PAT[p2], n1, n2); sx_assert(i1 >= 0 && i2 >= 0, "ends exist"); if(i1 >= 0 && i2 >= 0) sx_assert(&b.First() == M.f[i1] && &b.Last() == M.f[i2] && b.first_index() == (Index) i1 && b.last_index() == (Index) i2, "from the n1-th to the n2-th occurrence"); } catch(AcceleratorModel::BadRange&) { thrown = true; }
	sx_assert(thrown == (i1 < 0 || i2 < 0), "refused exactly when there is no such occurrence");
}
SX_HARNESS(typed, "components and elements of a type by unqualified name")
{
	Named M; static const char* pt[5] = {"*", "a", "b|c", "c*", "x"}; int p = sx_choose("pattern", 0, 4); auto ok = [&](int i) { char x = M.nm[i]; return p == 0 || (p == 1 && x == 'a') || (p == 2 && x != 'a') || (p == 3 && x == 'c'); };
	std::vector<TComponentFrame<Drift>*> d; int n = M.m->ExtractTypedComponents(d, pt[p]); std::vector<ComponentFrame*> e, g(d.begin(), d.end()); for(int i = 0; i < 5; i += 4) if(ok(i)) e.push_back(M.f[i]); sx_assert(n == (int) d.size() && g == e, "frames of the type in order");
	std::vector<TComponentFrame<Quadrupole>*> q; M.m->ExtractTypedComponents(q, pt[p]); sx_assert(q.size() == (ok(1) ? 1u : 0u) && (q.empty() || q[0] == M.f[1]), "another type");
	std::vector<AcceleratorComponent*> a; M.m->ExtractTypedElements(a, pt[p]); size_t want = 0; for(int i = 0; i < 5; i++) if(M.c[i]) { int t = 0; for(auto* x : a) t += x == M.c[i]; sx_assert(t == (ok(i) ? 1 : 0), "elements of a base type"); want += ok(i); } sx_assert(a.size() == want, "no others");
	std::vector<Marker*> mk; M.m->ExtractTypedElements(mk, pt[p]); sx_assert(mk.size() == (ok(2) ? 1u : 0u), "elements of a derived type");
}
SX_HARNESS(repository, "element repository: adding, counting and finding")
{
	ElementRepository* r = new ElementRepository; ModelElement* e[3]; char nm[3]; for(int i = 0; i < 3; i++) { nm[i] = (char) sx_int(sx_n("name", i).c_str(), 'a', 'b'); std::string s(1, nm[i]); e[i] = i ? (ModelElement*) new Drift(s, 1) : new Marker(s); }
	bool in[3] = {false, false, false}; size_t n = 0; for(int k = 0; k < 3; k++) { int i = sx_choose(sx_n("add", k).c_str(), 0, 2); sx_assert(r->Add(e[i]) == !in[i], "reports whether the element is new"); n += !in[i]; in[i] = true; sx_assert(r->Size() == n, "number of elements"); }
	int p = sx_choose("pattern", 0, 3); static const char* pt[4] = {"Drift.*", "*.a", "Marker.b|Drift.a", "*"}; size_t c = 0; std::vector<ModelElement*> v; size_t k = r->Find(pt[p], v); for(int i = 0; i < 3; i++) { bool w = in[i] && (p == 3 || (p == 0 && i) || (p == 1 && nm[i] == 'a') || (p == 2 && nm[i] == (i ? 'a' : 'b'))); int t = 0; for(auto* x : v) t += x == e[i]; sx_assert(t == (w ? 1 : 0), "exactly the elements matching are found"); c += w; } sx_assert(k == c && v.size() == c && r->Count(pt[p]) == c, "numbers found and counted");
}
SX_HARNESS(install, "installing a zero-length element in a drift at any position")
{
	AcceleratorModelConstructor k; double l0 = sx_double("l0", 0.1, 4), l1 = sx_double("l1", 0.1, 4); Drift *a = new Drift("A", l0), *b = new Drift("B", l1); Quadrupole* q = new Quadrupole("Q", 1, 1); Marker* mk = new Marker("M"); k.AppendComponent(*a); k.AppendComponent(*q); k.AppendComponent(*mk); k.AppendComponent(*b); AcceleratorModel* m = k.GetModel();
	auto old = m->GetBeamline(); std::vector<ComponentFrame*> f(old.begin(), old.end()); Marker* x = new Marker("X"); bool second = sx_bool("second"); double u = sx_double("u", 0.01, 3.9); sx_assume(u < (second ? l1 : l0) - 0.01); double at = u + (second ? l0 + 1 : 0); m->InstallModelElement(x, at);
	auto bl = m->GetBeamline(); size_t N = bl.end() - bl.begin(); sx_assert(N == 6, "three elements in place of one"); if(N != 6) return; size_t p = second ? 3 : 0; ComponentFrame** g = &*bl.begin();
	for(size_t i = 0; i < N; i++) { sx_assert(g[i]->GetBeamlineIndex() == i && g[i]->GetComponent().GetBeamlineIndex() == i, "beamline indices"); sx_assert(has(*m, g[i]) && has(*m, &g[i]->GetComponent()), "frames and components are among the elements"); if(i < p || i > p + 2) sx_assert(g[i] == f[i < p ? i : i - 2], "the others keep their order"); }
	sx_assert(&g[p + 1]->GetComponent() == x, "the element is between the parts"); sx_assert(dynamic_cast<Drift*>(&g[p]->GetComponent()) && dynamic_cast<Drift*>(&g[p + 2]->GetComponent()), "the parts are drifts");
	sx_close(g[p]->GetComponent().GetLength(), u, T, "length before"); sx_close(g[p + 2]->GetComponent().GetLength(), (second ? l1 : l0) - u, T, "length after"); sx_close(x->GetComponentLatticePosition(), at, T, "position of the element"); sx_close(g[p + 2]->GetComponent().GetComponentLatticePosition(), at, T, "position of the part after"); sx_close(g[p]->GetComponent().GetComponentLatticePosition(), at - u, T, "position of the part before");
	if(sx_bool("again")) { Marker* y = new Marker("Y"); double v = sx_double("v", 0.01, 3.9); sx_assume(v < u - 0.01); m->InstallModelElement(y, at - u + v); auto c = m->GetBeamline(); sx_assert(c.end() - c.begin() == 8 && &c.begin()[p + 1]->GetComponent() == y && &c.begin()[p + 3]->GetComponent() == x, "installed again in a part"); for(size_t i = 0; i < 8; i++) sx_assert(c.begin()[i]->GetBeamlineIndex() == i, "indices after installing again"); }
}
SX_HARNESS(position, "rank of an element by lattice position")
{
	AcceleratorModelConstructor k; double s[4]; AcceleratorComponent* c[4]; for(int i = 0; i < 4; i++) { Marker* a = new Marker(sx_n("M", i)); c[i] = a; k.AppendComponent(*a); s[i] = sx_double(sx_n("s", i).c_str(), 0, 10); a->SetComponentLatticePosition(s[i]); } for(int i = 0; i < 4; i++) for(int j = 0; j < i; j++) sx_assume(s[i] != s[j]);
	AcceleratorModel* m = k.GetModel(); int i = sx_choose("which", 0, 3), r = 0; for(int j = 0; j < 4; j++) r += s[j] < s[i]; sx_assert(m->FindElementLatticePosition(sx_n("M", i)) == r, "rank among the components");
}
