// sxrt: runtime of the symbolic executor.  Linked with the instrumented bitcode of /repo's
// sources and of a harness.  Explores every feasible path of a harness within its bounds; each
// branch side and each assertion is decided by Z3.  See DESIGN.md, "Engine".
#include "sx.h"
#include <z3++.h>
#include <gmpxx.h>
#include <unordered_map>
#include <map>
#include <set>
#include <vector>
#include <deque>
#include <string>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cfloat>
#include <ctime>
#include <algorithm>
#include <functional>
#include <sstream>
#include <fstream>
#include <typeinfo>
#include <exception>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <cxxabi.h>
#include <execinfo.h>
static int tracefd = -1;
using std::string; using std::vector;
typedef mpq_class Q;

// ------------------------------------------------------------------ expressions
enum Sort : uint8_t { S_BOOL, S_BV, S_REAL, S_FP };
enum Op : uint8_t {
	CONST, VAR,
	BADD, BSUB, BMUL, BUDIV, BSDIV, BUREM, BSREM, BSHL, BLSHR, BASHR, BAND, BOR, BXOR, BCONCAT, BEXTRACT, BZEXT, BSEXT,
	BEQ, BULT, BULE, BSLT, BSLE,
	NOT, AND, OR, ITE,
	RADD, RSUB, RMUL, RDIV, RNEG, RSQRT, RSIN, RCOS, REXP, RLOG, RATAN2, RASIN, RACOS, RATAN, RPOW, RUF,
	RLT, RLE, REQ,
	FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FREM, FMIN, FMAX, FRND, FFMA, FUF, FEXT /* fp<->fp */, FSITOFP, FUITOFP, FTOSI, FTOUI, FFROMBV, FTOBV,
	FEQ, FLT, FLE, FISNAN, FISINF
};
struct Poly;
struct Expr
{
	Op op; Sort sort; uint16_t w; uint32_t id;
	Expr *a, *b, *c;
	uint64_t u;      // BV/BOOL/FP constant bits, extract lo, var index, misc id
	Q* q;            // REAL constant
	Poly* poly; bool polyDone;
};
static char* arena = nullptr; static size_t arenaUsed = 0; static const size_t ARENA = size_t(8) << 30;
static inline bool isExpr(const void* p) { return p >= arena && p < arena + ARENA; }
static Expr* newExpr()
{
	if(!arena) arena = (char*) mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	Expr* e = (Expr*) (arena + arenaUsed);
	arenaUsed += sizeof(Expr);
	memset((void*) e, 0, sizeof(Expr));
	return e;
}
struct Key
{
	Op op; Sort s; uint16_t w; Expr *a, *b, *c; uint64_t u; string q;
	bool operator==(const Key& o) const { return op == o.op && s == o.s && w == o.w && a == o.a && b == o.b && c == o.c && u == o.u && q == o.q; }
};
struct KeyH { size_t operator()(const Key& k) const
{
	size_t h = k.op * 1000003u + k.s * 7919u + k.w;
	auto mix = [&](size_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
	mix((size_t) k.a); mix((size_t) k.b); mix((size_t) k.c); mix(k.u); mix(std::hash<string>()(k.q));
	return h;
} };
static std::unordered_map<Key, Expr*, KeyH> table;
static uint32_t nextId = 1;
static bool modeIEEE = false;
static Expr* mk(Op op, Sort s, uint16_t w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, uint64_t u = 0, const Q* q = nullptr)
{
	Key k{op, s, w, a, b, c, u, q ? q->get_str() : string()};
	auto it = table.find(k);
	if(it != table.end()) return it->second;
	Expr* e = newExpr();
	e->op = op; e->sort = s; e->w = w; e->a = a; e->b = b; e->c = c; e->u = u; e->id = nextId++;
	if(q) e->q = new Q(*q);
	table.emplace(std::move(k), e);
	return e;
}
static Expr* mkReal(const Q& q) { return mk(CONST, S_REAL, 0, 0, 0, 0, 0, &q); }
// constants that come out of long computations are rounded to 256 bits (doubles have 53): exact fractions grow without bound
static Q trimQ(const Q& q)
{
	size_t n = mpz_sizeinbase(q.get_num_mpz_t(), 2), d = mpz_sizeinbase(q.get_den_mpz_t(), 2); if(n + d < 1024) return q;
	if(q == 0) return q;
	long sh = 256 - ((long) n - (long) d); mpz_class z; if(sh >= 0) { z = q.get_num() << sh; z /= q.get_den(); } else { mpz_class e = q.get_den() << -sh; z = q.get_num() / e; }
	Q r(z); if(sh >= 0) mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), sh); else mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), -sh); return r;
}
static Expr* mkRealT(const Q& q) { return mkReal(trimQ(q)); }
static Expr* mkRealD(double d) { Q q(d); return mkReal(q); }
static Expr* mkBV(int w, uint64_t v) { if(w < 64) v &= (uint64_t(1) << w) - 1; return mk(CONST, S_BV, w, 0, 0, 0, v); }
static Expr* mkBool(bool b) { return mk(CONST, S_BOOL, 1, 0, 0, 0, b); }
static Expr* mkFP(int w, uint64_t bits) { return mk(CONST, S_FP, w, 0, 0, 0, bits); }
static bool isConst(Expr* e) { return e->op == CONST; }
static int64_t sx(uint64_t v, int w) { if(w >= 64) return (int64_t) v; uint64_t m = uint64_t(1) << (w - 1); v &= (uint64_t(1) << w) - 1; return (int64_t) ((v ^ m) - m); }

struct VarInfo { string name; Expr* e; double lo, hi; int64_t ilo, ihi; double val; int64_t ival; bool isInt; bool aux; };
static vector<VarInfo> vars;

// ------------------------------------------------------------------ statistics / path state
struct Rec { int dir; bool hasVal; int64_t val; };       // a decision of the prefix
struct Item { vector<Rec> prefix; std::map<string, string> model; bool maybe = false; int assumeTries = 0; };
static vector<Rec> prefix; static size_t pos = 0; static vector<Rec> taken;
static std::map<string, string> curModel; static int curAssumeTries = 0;
static vector<Expr*> PC;
static std::set<Expr*> PCset;
static bool diverged = false; static bool isWorker = false; static bool finished = false;
static int outFd = -1;
static string replayExe, harnessName, workDir;
static std::map<string, long> cnt;
static double solverTime = 0; static long nQueries = 0;
static std::set<void*> symSites;
static std::set<string> leaks, notes;
static double qTimeout = 10; static int maxConc = 200; static int maxDecisions = 4000;
static double pathDeadline = 0;
static int maybeDepth = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void emit(const string& s)
{
	string l = s; for(auto& ch : l) if(ch == '\n') ch = ' ';
	l += "\n";
	const char* p = l.data(); size_t n = l.size();
	while(n) { ssize_t k = write(outFd, p, n); if(k <= 0) break; p += k; n -= k; }
}
static string esc(const string& s) { string r; for(char c : s) { if(c == '\t' || c == '\n' || c == '\r') r += ' '; else r += c; } return r; }
static string serItem(const vector<Rec>& p, const std::map<string, string>& m, bool maybe, int tries)
{
	std::ostringstream o;
	o << (maybe ? 1 : 0) << "\t" << tries << "\t" << p.size();
	for(auto& r : p) { o << "\t" << r.dir << (r.hasVal ? ":" + std::to_string(r.val) : ""); }
	o << "\t" << m.size();
	for(auto& kv : m) o << "\t" << kv.first << "\t" << kv.second;
	return o.str();
}
static void finishPath(const string& status, const string& info);

// ------------------------------------------------------------------ polynomials (REAL mode)
typedef vector<std::pair<int, int>> Mono;   // (atom, exponent), sorted by atom id
struct MonoLess
{
	// lexicographic, newer atoms (higher id) more significant
	bool operator()(const Mono& x, const Mono& y) const
	{
		size_t i = x.size(), j = y.size();
		while(i && j)
		{
			auto &p = x[i - 1], &q = y[j - 1];
			if(p.first != q.first) return p.first < q.first;
			if(p.second != q.second) return p.second < q.second;
			i--; j--;
		}
		return i < j;
	}
};
struct Poly { std::map<Mono, Q, MonoLess> t; };
enum AtomKind { A_VAR, A_INV, A_SQRT, A_SIN, A_COS, A_EXP, A_LOG, A_ANGLE, A_POW, A_UF, A_ITE, A_OPAQUE };
struct Atom
{
	AtomKind kind; Expr* e; Expr *a1, *a2; Poly p; double lo, hi;
	int mate = -1;                 // sin<->cos, angle -> nothing
	Poly *sinP = nullptr, *cosP = nullptr;       // for angle atoms
	vector<std::function<z3::expr(z3::context&, std::function<z3::expr(Expr*)>, std::function<z3::expr(const Poly&)>)>> ax;
};
static vector<Atom> atoms;
static std::map<string, int> atomIdx;
static size_t polyCap = 4000;
struct PolyTooBig {};
static string polyKey(const Poly& p)
{
	string s;
	for(auto& t : p.t) { s += t.second.get_str(); for(auto& m : t.first) s += "*" + std::to_string(m.first) + "^" + std::to_string(m.second); s += "+"; }
	return s;
}
static Poly pConst(const Q& q) { Poly p; if(q != 0) p.t[Mono()] = q; return p; }
static Poly pAtom(int a) { Poly p; p.t[Mono{{a, 1}}] = 1; return p; }
static bool pIsConst(const Poly& p, Q& q)
{
	if(p.t.empty()) { q = 0; return true; }
	if(p.t.size() == 1 && p.t.begin()->first.empty()) { q = p.t.begin()->second; return true; }
	return false;
}
// x += y for coefficients; what is left of a cancellation of rounded coefficients counts as zero
static long qBits(const Q& q) { return mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2); }
static long qExp(const Q& q) { return (long) mpz_sizeinbase(q.get_num_mpz_t(), 2) - (long) mpz_sizeinbase(q.get_den_mpz_t(), 2); }
static bool qAcc(Q& x, const Q& y)
{
	bool big = qBits(x) > 400 && qBits(y) > 400; long e = big ? qExp(x) : 0;
	x += y; if(x == 0) return false;
	if(big && qExp(x) < e - 180) { x = 0; return false; }
	x = trimQ(x); return true;
}
static void pAddTo(Poly& a, const Poly& b, const Q& k)
{
	for(auto& t : b.t)
	{
		auto it = a.t.find(t.first);
		if(it == a.t.end()) { Q v = trimQ(t.second * k); if(v != 0) a.t.emplace(t.first, v); }
		else if(!qAcc(it->second, t.second * k)) a.t.erase(it);
	}
	if(a.t.size() > polyCap) throw PolyTooBig();
}
static Mono monoMul(const Mono& x, const Mono& y)
{
	Mono r; size_t i = 0, j = 0;
	while(i < x.size() || j < y.size())
	{
		if(j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
		else if(i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
		else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
	}
	return r;
}
static bool monoDiv(const Mono& x, const Mono& y, Mono& out)   // x / y
{
	out.clear(); size_t i = 0;
	for(auto& f : y)
	{
		while(i < x.size() && x[i].first < f.first) out.push_back(x[i++]);
		if(i == x.size() || x[i].first != f.first || x[i].second < f.second) return false;
		if(x[i].second > f.second) out.push_back({x[i].first, x[i].second - f.second});
		i++;
	}
	while(i < x.size()) out.push_back(x[i++]);
	return true;
}
static Poly pMulRaw(const Poly& a, const Poly& b);
static Poly pReduce(Poly in);
static Poly pMul(const Poly& a, const Poly& b) { return pReduce(pMulRaw(a, b)); }
static Poly pMulRaw(const Poly& a, const Poly& b)
{
	Poly r;
	if(a.t.size() * b.t.size() > 400000) throw PolyTooBig();
	for(auto& x : a.t)
		for(auto& y : b.t)
		{
			Mono m = monoMul(x.first, y.first);
			Q v = trimQ(x.second * y.second);
			auto it = r.t.find(m);
			if(it == r.t.end()) r.t.emplace(std::move(m), v);
			else if(!qAcc(it->second, v)) r.t.erase(it);
		}
	if(r.t.size() > polyCap) throw PolyTooBig();
	return r;
}
// find a reduction for monomial m: returns true and the replacement polynomial
static bool reduceMono(const Mono& m, Poly& out)
{
	for(size_t i = m.size(); i-- > 0;)
	{
		int a = m[i].first, ex = m[i].second;
		Atom& A = atoms[a];
		if((A.kind == A_SQRT || A.kind == A_COS) && ex >= 2)
		{
			Mono rest = m; rest[i].second -= 2; if(!rest[i].second) rest.erase(rest.begin() + i);
			Poly r; r.t[rest] = 1;
			Poly sub;
			if(A.kind == A_SQRT) sub = A.p;
			else { sub = pConst(1); pAddTo(sub, pMulRaw(pAtom(A.mate), pAtom(A.mate)), -1); }
			out = pMulRaw(r, sub);
			return true;
		}
		if(A.kind == A_INV)
		{
			// leading monomial of A.p
			auto lt = *A.p.t.rbegin();
			Mono need = monoMul(lt.first, Mono{{a, 1}}), rest;
			if(!lt.first.empty() && monoDiv(m, need, rest))
			{
				Poly sub = pConst(1);
				for(auto& t : A.p.t) if(t.first != lt.first) { Mono q = monoMul(t.first, Mono{{a, 1}}); sub.t[q] = -t.second; }
				Poly r; r.t[rest] = 1 / lt.second;
				out = pMulRaw(r, sub);
				return true;
			}
		}
	}
	return false;
}
static Poly pReduce(Poly in)
{
	Poly out; int steps = 0;
	while(!in.t.empty())
	{
		auto it = std::prev(in.t.end());
		Mono m = it->first; Q c = it->second;
		in.t.erase(it);
		Poly rep;
		if(reduceMono(m, rep))
		{
			if(++steps > 20000) throw PolyTooBig();
			pAddTo(in, rep, c);
		}
		else
		{
			auto jt = out.t.find(m);
			if(jt == out.t.end()) out.t.emplace(m, c);
			else { jt->second += c; if(jt->second == 0) out.t.erase(jt); }
		}
	}
	return out;
}
static int newAtom(const string& key, AtomKind k, Expr* e, double lo, double hi)
{
	auto it = atomIdx.find(key);
	if(it != atomIdx.end()) return it->second;
	Atom a; a.kind = k; a.e = e; a.a1 = a.a2 = nullptr; a.lo = lo; a.hi = hi;
	atoms.push_back(a);
	int id = atoms.size() - 1;
	atomIdx[key] = id;
	return id;
}
static Poly* poly(Expr* e);
static Expr* rAdd(Expr*, Expr*); static Expr* rMul(Expr*, Expr*); static Expr* rSub(Expr*, Expr*); static Expr* rDivE(Expr*, Expr*); static Expr* rSqrtE(Expr*);
// --- intervals (outward-rounded doubles, coarse)
struct Iv { double lo, hi; };
static double dn(double x) { return std::nextafter(x - std::fabs(x) * 1e-15, -INFINITY); }
static double up(double x) { return std::nextafter(x + std::fabs(x) * 1e-15, INFINITY); }
static Iv ivMul(Iv x, Iv y)
{
	auto m = [](double a, double b) { return (a == 0 || b == 0) ? 0.0 : a * b; };
	double p[4] = {m(x.lo, y.lo), m(x.lo, y.hi), m(x.hi, y.lo), m(x.hi, y.hi)};
	return {dn(*std::min_element(p, p + 4)), up(*std::max_element(p, p + 4))};
}
static Iv ivPow(Iv x, int n)
{
	Iv r{1, 1};
	if(n % 2 == 0)
	{
		double a = std::max(std::fabs(x.lo), std::fabs(x.hi)), b = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi));
		Iv y{b, a};
		for(int i = 0; i < n; i++) r = ivMul(r, y);
		if(r.lo < 0) r.lo = 0;
		return r;
	}
	for(int i = 0; i < n; i++) r = ivMul(r, x);
	if(x.lo >= 0 && r.lo < 0) r.lo = 0;
	if(x.hi <= 0 && r.hi > 0) r.hi = 0;
	return r;
}
static Iv ivMono(const Mono& m) { Iv r{1, 1}; for(auto& f : m) r = ivMul(r, ivPow({atoms[f.first].lo, atoms[f.first].hi}, f.second)); return r; }
static Iv ivPoly(const Poly& p)
{
	Iv r{0, 0};
	for(auto& t : p.t)
	{
		double c = t.second.get_d();
		Iv m = ivMul({dn(c), up(c)}, ivMono(t.first));
		r.lo = dn(r.lo + m.lo); r.hi = up(r.hi + m.hi);
		if(std::isnan(r.lo)) r.lo = -INFINITY;
		if(std::isnan(r.hi)) r.hi = INFINITY;
	}
	return r;
}
static Iv ivExpr(Expr* e)
{
	if(Poly* p = poly(e)) return ivPoly(*p);
	return {-INFINITY, INFINITY};
}
// --- trig
struct TrigBase { Q base; int s, c; };
static std::map<string, vector<TrigBase>> trigBases;   // by monomial key
static std::map<string, vector<std::pair<Q, int>>> expBases;
static string monoKey(const Mono& m) { string s; for(auto& f : m) s += std::to_string(f.first) + "^" + std::to_string(f.second) + "*"; return s; }
static void sinCosMul(const Poly& s, const Poly& c, int n, Poly& so, Poly& co)
{
	// angle n*theta
	so = Poly(); co = pConst(1);
	bool neg = n < 0; if(neg) n = -n;
	for(int i = 0; i < n; i++)
	{
		Poly ns = pMul(so, c); pAddTo(ns, pMul(co, s), 1);
		Poly nc = pMul(co, c); pAddTo(nc, pMul(so, s), -1);
		so = ns; co = nc;
	}
	if(neg) { Poly z; pAddTo(z, so, -1); so = z; }
}
static int auxN = 0;
static void sinCosTerm(const Mono& m, Q c, Poly& so, Poly& co)
{
	if(m.empty())
	{
		double d = c.get_d();
		so = pConst(Q(std::sin(d))); co = pConst(Q(std::cos(d)));
		return;
	}
	if(m.size() == 1 && m[0].second == 1 && atoms[m[0].first].kind == A_ANGLE && c.get_den() == 1 && abs(c.get_num()) <= 6)
	{
		Atom& A = atoms[m[0].first];
		sinCosMul(*A.sinP, *A.cosP, (int) c.get_num().get_si(), so, co);
		return;
	}
	auto& v = trigBases[monoKey(m)];
	for(auto& tb : v)
	{
		Q r = c / tb.base; r.canonicalize();
		// coefficients that differ by rounding only are one
		{ double rd = r.get_d(), n = std::round(rd); if(n != 0 && std::fabs(n) <= 8 && std::fabs(rd - n) < 1e-13 * std::fabs(n)) r = Q((long) n); }
		if(r.get_den() == 1 && abs(r.get_num()) <= 8)
		{
			sinCosMul(pAtom(tb.s), pAtom(tb.c), (int) r.get_num().get_si(), so, co);
			return;
		}
	}
	TrigBase tb; tb.base = abs(c);
	// refine an existing base?
	for(auto& o : v)
	{
		Q r = o.base / tb.base; r.canonicalize();
		if(r.get_den() != 1 && r.get_den() <= 4 && r.get_num() <= 8) { tb.base = o.base / Q(r.get_num()); tb.base.canonicalize(); break; }
	}
	Poly arg; arg.t[m] = tb.base;
	Iv iv = ivPoly(arg);
	double slo = -1, shi = 1, clo = -1, chi = 1;
	if(iv.lo >= -1.5 && iv.hi <= 1.5) { slo = dn(std::sin(iv.lo)); shi = up(std::sin(iv.hi)); double mx = std::max(std::fabs(iv.lo), std::fabs(iv.hi)); clo = dn(std::cos(mx)); }
	else if(iv.lo >= 0 && iv.hi <= 3.14159) { slo = 0; clo = dn(std::cos(iv.hi)); chi = up(std::cos(iv.lo)); }
	else if(iv.lo >= -3.14159 && iv.hi <= 3.14159) { double mx = std::max(std::fabs(iv.lo), std::fabs(iv.hi)); clo = dn(std::cos(mx)); }
	string k = "trig" + monoKey(m) + tb.base.get_str();
	tb.s = newAtom(k + "s", A_SIN, nullptr, slo, shi);
	tb.c = newAtom(k + "c", A_COS, nullptr, clo, chi);
	atoms[tb.s].mate = tb.c; atoms[tb.c].mate = tb.s;
	atoms[tb.s].p = arg; atoms[tb.c].p = arg;
	int si = tb.s, ci = tb.c;
	bool small = iv.lo >= -3.0 && iv.hi <= 3.0;
	double M = std::max(std::fabs(iv.lo), std::fabs(iv.hi));
	atoms[tb.s].ax.push_back([si, ci, arg, small, M](z3::context& c, auto, auto tp) {
				z3::expr s = tp(pAtom(si)), k = tp(pAtom(ci)), x = tp(arg);
				z3::expr r = (s * s + k * k == 1);
				r = r && z3::implies(x == 0, s == 0 && k == 1);
				if(small) r = r && z3::implies(x > 0, s > 0 && s <= x) && z3::implies(x < 0, s < 0 && s >= x);
				if(M <= 1)
				{
					// x(1-M^2/6) <= sin x <= x and 1 - M|x|/2 <= cos x
					Q q(up(M * M / 6)), hq(up(M / 2));
					z3::expr f = c.real_val(Q(1 - q).get_str().c_str()), g = c.real_val(hq.get_str().c_str());
					r = r && z3::implies(x > 0, s >= x * f && 1 - k <= g * x) && z3::implies(x < 0, s <= x * f && 1 - k <= -(g * x));
				}
				return r;
			});
	// relation with existing coarser bases
	for(auto& o : v)
	{
		Q r = o.base / tb.base; r.canonicalize();
		if(r.get_den() == 1 && r.get_num() <= 8)
		{
			Poly s2, c2; sinCosMul(pAtom(tb.s), pAtom(tb.c), (int) r.get_num().get_si(), s2, c2);
			int os = o.s, oc = o.c;
			atoms[tb.s].ax.push_back([os, oc, s2, c2](z3::context&, auto, auto tp) { return tp(pAtom(os)) == tp(s2) && tp(pAtom(oc)) == tp(c2); });
		}
	}
	v.insert(v.begin(), tb);
	Q r = c / tb.base; r.canonicalize();
	sinCosMul(pAtom(tb.s), pAtom(tb.c), (int) r.get_num().get_si(), so, co);
}
static void sinCosPoly(const Poly& arg, Poly& so, Poly& co)
{
	so = Poly(); co = pConst(1);
	if(arg.t.size() > 6) throw PolyTooBig();
	for(auto& t : arg.t)
	{
		Poly s1, c1; sinCosTerm(t.first, t.second, s1, c1);
		Poly ns = pMul(so, c1); pAddTo(ns, pMul(co, s1), 1);
		Poly nc = pMul(co, c1); pAddTo(nc, pMul(so, s1), -1);
		so = ns; co = nc;
	}
}
static int invAtom(const Poly& p, Q& scale)   // 1/p = scale * atom, p normalised monic
{
	Q lc = p.t.rbegin()->second; scale = 1 / lc;
	Poly n; pAddTo(n, p, scale);
	string k = "inv" + polyKey(n);
	auto it = atomIdx.find(k);
	if(it != atomIdx.end()) return it->second;
	Iv iv = ivPoly(n); double lo = -INFINITY, hi = INFINITY;
	if(iv.lo > 0) { lo = dn(1 / iv.hi); hi = up(1 / iv.lo); if(lo < 0) lo = 0; }
	else if(iv.hi < 0) { lo = dn(1 / iv.hi); hi = up(1 / iv.lo); if(hi > 0) hi = 0; }
	int id = newAtom(k, A_INV, nullptr, lo, hi);
	atoms[id].p = n;
	atoms[id].ax.push_back([id, n](z3::context&, auto, auto tp) { return tp(n) * tp(pAtom(id)) == 1; });
	return id;
}
static Poly pInv(const Poly& p)
{
	Q q; if(pIsConst(p, q)) { if(q == 0) throw PolyTooBig(); return pConst(1 / q); }
	if(p.t.size() == 1)
	{
		// monomial: product of inverse atoms
		Poly r = pConst(1 / p.t.begin()->second);
		for(auto& f : p.t.begin()->first)
		{
			Poly inv;
			if(atoms[f.first].kind == A_INV) inv = atoms[f.first].p;
			else { Q s; int a = invAtom(pAtom(f.first), s); inv = pAtom(a); }
			for(int i = 0; i < f.second; i++) r = pMul(r, inv);
		}
		return r;
	}
	Q s; int a = invAtom(p, s);
	Poly r; pAddTo(r, pAtom(a), s);
	return r;
}
static Poly pSqrt(const Poly& p, Expr*)
{
	Q q;
	if(pIsConst(p, q))
	{
		if(q >= 0)
		{
			mpz_class n = q.get_num(), d = q.get_den(), rn, rd;
			mpz_sqrt(rn.get_mpz_t(), n.get_mpz_t()); mpz_sqrt(rd.get_mpz_t(), d.get_mpz_t());
			if(rn * rn == n && rd * rd == d) return pConst(Q(rn, rd));
			return pConst(Q(std::sqrt(q.get_d())));
		}
		throw PolyTooBig();
	}
	string k = "sqrt" + polyKey(p);
	Iv iv = ivPoly(p);
	double lo = iv.lo > 0 ? dn(std::sqrt(iv.lo)) : 0, hi = iv.hi < INFINITY ? up(std::sqrt(std::max(0.0, iv.hi))) : INFINITY;
	// perfect square of a single monomial with known sign?
	if(p.t.size() == 1)
	{
		Mono m = p.t.begin()->first; bool even = true;
		for(auto& f : m) if(f.second % 2) even = false;
		Q c = p.t.begin()->second;
		if(even && c > 0)
		{
			mpz_class rn, rd; mpz_sqrt(rn.get_mpz_t(), c.get_num_mpz_t()); mpz_sqrt(rd.get_mpz_t(), c.get_den_mpz_t());
			if(rn * rn == c.get_num() && rd * rd == c.get_den())
			{
				for(auto& f : m) f.second /= 2;
				Poly r; r.t[m] = Q(rn, rd);
				Iv i2 = ivPoly(r);
				if(i2.lo >= 0) return r;
				if(i2.hi <= 0) { r.t[m] = -r.t[m]; return r; }
			}
		}
	}
	int id = newAtom(k, A_SQRT, nullptr, lo, hi);
	if(atoms[id].ax.empty())
	{
		atoms[id].p = p;
		atoms[id].ax.push_back([id, p](z3::context&, auto, auto tp) { z3::expr s = tp(pAtom(id)); return s >= 0 && s * s == tp(p); });
	}
	return pAtom(id);
}
static Poly pExp(const Poly& p)
{
	Poly r = pConst(1);
	if(p.t.size() > 6) throw PolyTooBig();
	for(auto& t : p.t)
	{
		if(t.first.empty()) { r = pMul(r, pConst(Q(std::exp(t.second.get_d())))); continue; }
		if(t.first.size() == 1 && t.first[0].second == 1 && atoms[t.first[0].first].kind == A_LOG && t.second.get_den() == 1 && abs(t.second.get_num()) <= 6)
		{
			Poly b = atoms[t.first[0].first].p; int n = (int) t.second.get_num().get_si();
			if(n < 0) { b = pInv(b); n = -n; }
			for(int i = 0; i < n; i++) r = pMul(r, b);
			continue;
		}
		auto& v = expBases[monoKey(t.first)];
		int atom = -1; Q ratio;
		for(auto& b : v) { Q q = t.second / b.first; q.canonicalize(); if(q.get_den() == 1 && abs(q.get_num()) <= 8) { atom = b.second; ratio = q; break; } }
		if(atom < 0)
		{
			Q base = abs(t.second);
			for(auto& b : v) { Q q = b.first / base; q.canonicalize(); if(q.get_den() <= 4 && q.get_num() <= 8) { base = b.first / Q(q.get_num()); base.canonicalize(); break; } }
			Poly arg; arg.t[t.first] = base; Iv iv = ivPoly(arg);
			double lo = iv.lo > -700 ? dn(std::exp(iv.lo)) : 0, hi = iv.hi < 700 ? up(std::exp(iv.hi)) : INFINITY;
			atom = newAtom("exp" + monoKey(t.first) + base.get_str(), A_EXP, nullptr, lo, hi);
			int id = atom; atoms[id].p = arg;
			atoms[id].ax.push_back([id, arg](z3::context&, auto, auto tp) {
						z3::expr e = tp(pAtom(id)), x = tp(arg);
						return e > 0 && e >= 1 + x && z3::implies(x == 0, e == 1) && z3::implies(x < 0, e < 1);
					});
			for(auto& b : v)
			{
				Q q = b.first / base; q.canonicalize();
				if(q.get_den() == 1 && q.get_num() <= 8) { int o = b.second; int n = q.get_num().get_si(); Poly pw = pConst(1); for(int i = 0; i < n; i++) pw = pMul(pw, pAtom(id)); atoms[id].ax.push_back([o, pw](z3::context&, auto, auto tp) { return tp(pAtom(o)) == tp(pw); }); }
			}
			v.insert(v.begin(), {base, atom});
			ratio = t.second / base; ratio.canonicalize();
		}
		int n = (int) ratio.get_num().get_si();
		Poly b = pAtom(atom); if(n < 0) { b = pInv(b); n = -n; }
		for(int i = 0; i < n; i++) r = pMul(r, b);
	}
	return r;
}
static Poly polyCompute(Expr* e);
static Poly* poly(Expr* e)
{
	if(e->polyDone) return e->poly;
	e->polyDone = true;
	try { Poly p = polyCompute(e); e->poly = new Poly(p); } catch(PolyTooBig&) { e->poly = nullptr; }
	return e->poly;
}
static Poly& polyT(Expr* e) { Poly* p = poly(e); if(!p) throw PolyTooBig(); return *p; }
static z3::expr z3max(z3::expr a, z3::expr b) { return z3::ite(a >= b, a, b); }
static Poly polyCompute(Expr* e)
{
	switch(e->op)
	{
	case CONST: return pConst(*e->q);
	case VAR:
	{
		VarInfo& v = vars[e->u];
		int id = newAtom("var" + std::to_string(e->u), A_VAR, e, v.lo, v.hi);
		return pAtom(id);
	}
	case RADD: { Poly r = polyT(e->a); pAddTo(r, polyT(e->b), 1); return r; }
	case RSUB: { Poly r = polyT(e->a); pAddTo(r, polyT(e->b), -1); return r; }
	case RNEG: { Poly r; pAddTo(r, polyT(e->a), -1); return r; }
	case RMUL: return pMul(polyT(e->a), polyT(e->b));
	case RDIV: return pMul(polyT(e->a), pInv(polyT(e->b)));
	case RSQRT: return pSqrt(polyT(e->a), e);
	case RSIN: { Poly s, c; sinCosPoly(polyT(e->a), s, c); return s; }
	case RCOS: { Poly s, c; sinCosPoly(polyT(e->a), s, c); return c; }
	case REXP: return pExp(polyT(e->a));
	case RLOG:
	{
		Poly p = polyT(e->a); Q q;
		if(pIsConst(p, q)) return pConst(Q(std::log(q.get_d())));
		// log(exp(x)) = x for a single exp atom
		if(p.t.size() == 1 && p.t.begin()->second == 1 && p.t.begin()->first.size() == 1 && atoms[p.t.begin()->first[0].first].kind == A_EXP)
		{
			Poly r; pAddTo(r, atoms[p.t.begin()->first[0].first].p, p.t.begin()->first[0].second); return r;
		}
		Iv iv = ivPoly(p);
		double lo = iv.lo > 0 ? dn(std::log(iv.lo)) : -INFINITY, hi = iv.hi < INFINITY && iv.hi > 0 ? up(std::log(iv.hi)) : INFINITY;
		int id = newAtom("log" + polyKey(p), A_LOG, e, lo, hi);
		if(atoms[id].ax.empty())
		{
			atoms[id].p = p;
			atoms[id].ax.push_back([id, p](z3::context&, auto, auto tp) { z3::expr l = tp(pAtom(id)), x = tp(p); return l <= x - 1 && z3::implies(x == 1, l == 0) && z3::implies(x > 1, l > 0) && z3::implies(x < 1, l < 0); });
		}
		return pAtom(id);
	}
	case RATAN2: case RASIN: case RACOS: case RATAN:
	{
		Poly a = polyT(e->a); Poly b; if(e->b) b = polyT(e->b);
		if(e->op == RATAN2 && a.t.size() == 1 && b.t.size() == 1)
		{
			// atan2(sin x, cos x) = x for |x| < pi
			auto &ta = *a.t.begin(), &tb = *b.t.begin();
			if(ta.first.size() == 1 && ta.first[0].second == 1 && tb.first.size() == 1 && tb.first[0].second == 1 && tb.second > 0 && abs(ta.second) == tb.second
			    && atoms[ta.first[0].first].kind == A_SIN && atoms[ta.first[0].first].mate == tb.first[0].first)
			{
				const Poly& x = atoms[ta.first[0].first].p; Iv iv = ivPoly(x);
				if(iv.lo > -3.14159 && iv.hi < 3.14159) { if(ta.second > 0) return x; Poly z; pAddTo(z, x, -1); return z; }
			}
		}
		string k = "ang" + std::to_string(e->op) + polyKey(a) + "|" + polyKey(b);
		auto it = atomIdx.find(k);
		if(it != atomIdx.end()) return pAtom(it->second);
		Poly *sp = new Poly, *cp = new Poly; double lo = -M_PI, hi = M_PI;
		if(e->op == RATAN2)
		{
			Poly r2 = pMul(a, a); pAddTo(r2, pMul(b, b), 1);
			Poly ir = pInv(pSqrt(r2, nullptr));
			*sp = pMul(a, ir); *cp = pMul(b, ir);
		}
		else if(e->op == RATAN)
		{
			Poly r2 = pMul(a, a); pAddTo(r2, pConst(1), 1);
			Poly ir = pInv(pSqrt(r2, nullptr));
			*sp = pMul(a, ir); *cp = ir; lo = -M_PI / 2; hi = M_PI / 2;
		}
		else
		{
			Poly c2 = pConst(1); pAddTo(c2, pMul(a, a), -1);
			Poly o = pSqrt(c2, nullptr);
			if(e->op == RASIN) { *sp = a; *cp = o; lo = -M_PI / 2; hi = M_PI / 2; } else { *cp = a; *sp = o; lo = 0; hi = M_PI; }
		}
		if(e->op == RATAN2)
		{
			// the box of the arguments avoids the origin and the cut: extremes at the corners
			Iv X = ivPoly(b), Y = ivPoly(a);
			if(X.lo > 0 || Y.lo > 0 || Y.hi < 0)
			{
				double t[4] = {std::atan2(Y.lo, X.lo), std::atan2(Y.lo, X.hi), std::atan2(Y.hi, X.lo), std::atan2(Y.hi, X.hi)}, l = t[0], h = t[0];
				for(double v : t) { l = std::min(l, v); h = std::max(h, v); }
				if(!std::isnan(l) && !std::isnan(h)) { lo = std::max(lo, l - 1e-12); hi = std::min(hi, h + 1e-12); }
			}
		}
		double cut = 0;
		if(e->op == RATAN2)
		{
			Iv X = ivPoly(b), Y = ivPoly(a);
			if(X.hi < 0) { double w = std::atan2(std::max(std::fabs(Y.lo), std::fabs(Y.hi)), X.hi); if(!std::isnan(w)) cut = w - 1e-12; }
		}
		int id = newAtom(k, A_ANGLE, e, up(lo) < lo ? lo : dn(lo), up(hi));
		if(cut > 0) atoms[id].ax.push_back([id, cut](z3::context& c, auto, auto tp) { char v[40]; snprintf(v, sizeof v, "%.15f", cut); z3::expr t = tp(pAtom(id)), w = c.real_val(v); return t >= w || t <= -w; });
		atoms[id].sinP = sp; atoms[id].cosP = cp;
		int op = e->op;
		atoms[id].ax.push_back([id, a, b, op](z3::context& c, auto, auto tp) {
					z3::expr t = tp(pAtom(id)), x = tp(a);
					if(op == RATAN2) { z3::expr y = tp(b); return z3::implies(x > 0, t > 0 && t < c.real_val("3.141592653589794")) && z3::implies(x < 0, t<0 && t> c.real_val("-3.141592653589794")) && z3::implies(x == 0 && y > 0, t == 0) && z3::implies(y > 0, t <= c.real_val("1.570796326794897") && t >= c.real_val("-1.570796326794897")) && z3::implies(y < 0, t >= c.real_val("1.570796326794896") || t <= c.real_val("-1.570796326794896")); }
					if(op == RACOS) return z3::implies(x > 0, t < c.real_val("1.570796326794897")) && z3::implies(x < 0, t > c.real_val("1.570796326794896"));
					return z3::implies(x == 0, t == 0) && z3::implies(x > 0, t > 0) && z3::implies(x < 0, t < 0);
				});
		return pAtom(id);
	}
	case RPOW: case RUF:
	{
		Poly a = polyT(e->a); Poly b; if(e->b) b = polyT(e->b);
		Q qa, qb;
		string k = "uf" + std::to_string(e->op) + "_" + std::to_string(e->u) + polyKey(a) + "|" + polyKey(b);
		bool pos = e->op == RPOW;
		int id = newAtom(k, e->op == RPOW ? A_POW : A_UF, e, pos ? 0 : -INFINITY, INFINITY);
		if(pos && atoms[id].ax.empty())
			atoms[id].ax.push_back([id, a, b](z3::context&, auto, auto tp) { z3::expr t = tp(pAtom(id)), x = tp(a), y = tp(b); return t > 0 && z3::implies(x == 1 || y == 0, t == 1) && z3::implies(y == 1, t == x) && z3::implies(x > 1 && y > 0, t > 1) && z3::implies(x < 1 && y > 0, t < 1) && z3::implies(x > 1 && y < 0, t < 1) && z3::implies(x < 1 && y < 0, t > 1); });
		return pAtom(id);
	}
	case ITE:
	{
		int id = newAtom("ite" + std::to_string(e->id), A_ITE, e, std::min(ivExpr(e->b).lo, ivExpr(e->c).lo), std::max(ivExpr(e->b).hi, ivExpr(e->c).hi));
		if(atoms[id].ax.empty())
			atoms[id].ax.push_back([id, e](z3::context&, auto tr, auto tp) { z3::expr t = tp(pAtom(id)); return z3::ite(tr(e->a), t == tr(e->b), t == tr(e->c)); });
		return pAtom(id);
	}
	default: break;
	}
	throw PolyTooBig();
}

// ------------------------------------------------------------------ construction with simplification
static Expr* bNot(Expr* a)
{
	if(isConst(a)) return mkBool(!a->u);
	if(a->op == NOT) return a->a;
	if(a->op == RLT) return mk(RLE, S_BOOL, 1, a->b, a->a);
	if(a->op == RLE) return mk(RLT, S_BOOL, 1, a->b, a->a);
	return mk(NOT, S_BOOL, 1, a);
}
static Expr* bAnd(Expr* a, Expr* b)
{
	if(isConst(a)) return a->u ? b : a;
	if(isConst(b)) return b->u ? a : b;
	if(a == b) return a;
	return mk(AND, S_BOOL, 1, a, b);
}
static Expr* bOr(Expr* a, Expr* b)
{
	if(isConst(a)) return a->u ? a : b;
	if(isConst(b)) return b->u ? b : a;
	if(a == b) return a;
	return mk(OR, S_BOOL, 1, a, b);
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
	if(isConst(c)) return c->u ? a : b;
	if(a == b) return a;
	if(a->sort == S_BOOL)
	{
		if(isConst(a) && isConst(b)) return a->u ? c : bNot(c);
		if(isConst(a)) return a->u ? bOr(c, b) : bAnd(bNot(c), b);
		if(isConst(b)) return b->u ? bOr(bNot(c), a) : bAnd(c, a);
	}
	return mk(ITE, a->sort, a->w, c, a, b);
}
static Expr* rConstFold(Expr* e)
{
	// canonical constant detection through the polynomial normal form
	Poly* p = poly(e); Q q;
	if(p && pIsConst(*p, q)) return mkRealT(q);
	return e;
}
static bool rz(Expr* e) { return isConst(e) && *e->q == 0; }
static bool r1(Expr* e) { return isConst(e) && *e->q == 1; }
static Expr* rAdd(Expr* a, Expr* b)
{
	if(isConst(a) && isConst(b)) return mkRealT(*a->q + *b->q);
	if(rz(a)) return b;
	if(rz(b)) return a;
	return mk(RADD, S_REAL, 0, a, b);
}
static Expr* rSub(Expr* a, Expr* b)
{
	if(isConst(a) && isConst(b)) return mkRealT(*a->q - *b->q);
	if(rz(b)) return a;
	if(a == b) return mkRealD(0);
	if(rz(a)) return b->op == RNEG ? b->a : mk(RNEG, S_REAL, 0, b);
	return mk(RSUB, S_REAL, 0, a, b);
}
static Expr* rMul(Expr* a, Expr* b)
{
	if(isConst(a) && isConst(b)) return mkRealT(*a->q * *b->q);
	if(rz(a) || rz(b)) return mkRealD(0);
	if(r1(a)) return b;
	if(r1(b)) return a;
	return mk(RMUL, S_REAL, 0, a, b);
}
static Expr* rNeg(Expr* a)
{
	if(isConst(a)) return mkRealT(-*a->q);
	if(a->op == RNEG) return a->a;
	return mk(RNEG, S_REAL, 0, a);
}
static Expr* rDivE(Expr* a, Expr* b)
{
	if(isConst(b)) { if(isConst(a)) return mkRealT(*a->q / *b->q); return rMul(a, mkRealT(1 / *b->q)); }
	if(rz(a)) return a;
	return mk(RDIV, S_REAL, 0, a, b);
}
static Expr* rSqrtE(Expr* a) { return rConstFold(mk(RSQRT, S_REAL, 0, a)); }
// d (op) 0 with denominators of known sign multiplied out; flip: an odd number of negative factors
static Poly clearDen(Poly d, bool& flip)
{
	flip = false;
	if(d.t.size() > 60) return d;
	for(int it = 0; it < 8; it++)
	{
		std::map<int, int> mx;
		for(auto& t : d.t) for(auto& f : t.first) if(atoms[f.first].kind == A_INV) mx[f.first] = std::max(mx[f.first], f.second);
		int pick = -1, ex = 0;
		for(auto r = mx.rbegin(); r != mx.rend(); ++r)
		{
			Atom& A = atoms[r->first]; bool pos = A.lo >= 0, neg = A.hi <= 0;
			ex = r->second;
			if(!pos && !neg) ex += ex & 1;      // even power
			if(A.p.t.size() > 12) continue;
			pick = r->first;
			if(neg && (ex & 1)) flip = !flip;
			break;
		}
		if(pick < 0) break;
		Poly f = atoms[pick].p, r = d;
		if(f.t.size() > 1)
		{
			// multiply monomial-wise so that the inverse cancels completely
			Poly out; vector<Poly> pw{pConst(1)}; for(int i = 0; i < ex; i++) pw.push_back(pMul(pw.back(), f));
			for(auto& t : d.t)
			{
				Mono m = t.first; int e0 = 0;
				for(size_t i = 0; i < m.size(); i++) if(m[i].first == pick) { e0 = m[i].second; m.erase(m.begin() + i); break; }
				Poly q; q.t[m] = t.second;
				pAddTo(out, pMul(q, pw[ex - e0]), 1);
			}
			r = out;
		}
		else for(int i = 0; i < ex; i++) r = pMul(r, f);
		if(r.t.size() > 200) break;
		d = r;
	}
	return d;
}
static std::unordered_map<string, Expr*> cmpTable;
static Expr* rCmp(Op op, Expr* a, Expr* b)   // RLT RLE REQ
{
	if(a == b) return mkBool(op != RLT);
	Poly *p = poly(a), *q = poly(b);
	if(p && q)
	{
		try
		{
			Poly d = *p; pAddTo(d, *q, -1);
			Q c;
			if(pIsConst(d, c)) return mkBool(op == RLT ? c < 0 : op == RLE ? c <= 0 : c == 0);
			Iv iv = ivPoly(d);
			if(op == RLT) { if(iv.hi < 0) return mkBool(true); if(iv.lo >= 0) return mkBool(false); }
			if(op == RLE) { if(iv.hi <= 0) return mkBool(true); if(iv.lo > 0) return mkBool(false); }
			if(op == REQ) { if(iv.hi < 0 || iv.lo > 0) return mkBool(false); }
			if(d.t.size() <= 60)
			{
				bool flip; Poly k = clearDen(d, flip);
				if(flip) { Poly z; pAddTo(z, k, -1); k = z; }
				if(pIsConst(k, c)) return mkBool(op == RLT ? c < 0 : op == RLE ? c <= 0 : c == 0);
				Iv i2 = ivPoly(k);
				if(op == RLT) { if(i2.hi < 0) return mkBool(true); if(i2.lo >= 0) return mkBool(false); }
				if(op == RLE) { if(i2.hi <= 0) return mkBool(true); if(i2.lo > 0) return mkBool(false); }
				if(op == REQ) { if(i2.hi < 0 || i2.lo > 0) return mkBool(false); }
				// same comparison (or its negation) already known under another spelling?
				Q lc = k.t.rbegin()->second; bool neg = lc < 0;
				Poly n; pAddTo(n, k, 1 / lc);
				string key = polyKey(n);
				// RLT: n<0 ("a") or n>0 ("b");  RLE: n<=0 = !(b), n>=0 = !(a)
				string kk = op == REQ ? "e" : op == RLT ? (neg ? "b" : "a") : (neg ? "a" : "b");
				bool inv = op == RLE;
				if(op == REQ && a->id > b->id) std::swap(a, b);
				auto it = cmpTable.find(kk + key);
				if(it != cmpTable.end()) return inv ? bNot(it->second) : it->second;
				Expr* r = mk(op, S_BOOL, 1, a, b);
				cmpTable[kk + key] = inv ? bNot(r) : r;
				return r;
			}
		}
		catch(PolyTooBig&) {}
	}
	if(op == REQ && a->id > b->id) std::swap(a, b);
	return mk(op, S_BOOL, 1, a, b);
}
static Expr* toBV1(Expr* e) { return e->sort == S_BOOL ? mkIte(e, mkBV(1, 1), mkBV(1, 0)) : e; }
static Expr* toBool(Expr* e)
{
	if(e->sort == S_BOOL) return e;
	if(e->sort == S_BV && isConst(e)) return mkBool(e->u & 1);
	if(e->sort == S_BV && e->op == ITE && isConst(e->b) && isConst(e->c)) return mkIte(e->a, mkBool(e->b->u & 1), mkBool(e->c->u & 1));
	return bNot(mk(BEQ, S_BOOL, 1, e, mkBV(e->w, 0)));
}
static uint64_t bvEval(Op op, uint64_t x, uint64_t y, int w)
{
	uint64_t m = w < 64 ? (uint64_t(1) << w) - 1 : ~uint64_t(0);
	int64_t sxx = sx(x, w), sy = sx(y, w);
	switch(op)
	{
	case BADD: return (x + y) & m; case BSUB: return (x - y) & m; case BMUL: return (x * y) & m;
	case BUDIV: return y ? (x / y) & m : m; case BUREM: return y ? (x % y) & m : x;
	case BSDIV: return sy ? (uint64_t) (sy == -1 ? -sxx : sxx / sy) & m : m; case BSREM: return sy ? (uint64_t) (sy == -1 ? 0 : sxx % sy) & m : x;
	case BSHL: return y < (uint64_t) w ? (x << y) & m : 0; case BLSHR: return y < (uint64_t) w ? x >> y : 0;
	case BASHR: return (uint64_t) (sxx >> (y < (uint64_t) w ? y : w - 1)) & m;
	case BAND: return x & y; case BOR: return x | y; case BXOR: return x ^ y;
	default: return 0;
	}
}
static Expr* bvOp(Op op, Expr* a, Expr* b)
{
	int w = a->w;
	if(isConst(a) && isConst(b)) return mkBV(w, bvEval(op, a->u, b->u, w));
	bool cz = isConst(b) && b->u == 0, az = isConst(a) && a->u == 0;
	uint64_t ones = w < 64 ? (uint64_t(1) << w) - 1 : ~uint64_t(0);
	switch(op)
	{
	case BADD: case BOR: case BXOR: if(cz) return a; if(az) return b; break;
	case BSUB: if(cz) return a; if(a == b) return mkBV(w, 0); break;
	case BSHL: case BLSHR: case BASHR: if(cz) return a; break;
	case BMUL: if(cz) return b; if(az) return a; if(isConst(b) && b->u == 1) return a; if(isConst(a) && a->u == 1) return b; break;
	case BAND: if(cz) return b; if(az) return a; if(isConst(b) && b->u == ones) return a; if(isConst(a) && a->u == ones) return b; break;
	default: break;
	}
	return mk(op, S_BV, w, a, b);
}
static Expr* bvCmp(Op op, Expr* a, Expr* b)
{
	if(isConst(a) && isConst(b))
	{
		uint64_t x = a->u, y = b->u; int64_t p = sx(x, a->w), q = sx(y, a->w);
		switch(op) { case BEQ: return mkBool(x == y); case BULT: return mkBool(x < y); case BULE: return mkBool(x <= y); case BSLT: return mkBool(p < q); default: return mkBool(p <= q); }
	}
	if(a == b) return mkBool(op == BEQ || op == BULE || op == BSLE);
	// compare of zext(bool)-like ite against constants
	if(op == BEQ)
	{
		if(isConst(a)) std::swap(a, b);
		if(isConst(b) && a->op == ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkBool(a->b->u == b->u), mkBool(a->c->u == b->u));
		if(isConst(b) && (a->op == BZEXT)) { if(a->a->w < 64 && (b->u >> a->a->w)) return mkBool(false); return bvCmp(BEQ, a->a, mkBV(a->a->w, b->u)); }
	}
	return mk(op, S_BOOL, 1, a, b);
}
static Expr* bvExtract(Expr* a, int lo, int w)
{
	if(lo == 0 && w == a->w) return a;
	if(isConst(a)) return mkBV(w, a->u >> lo);
	if(a->op == BZEXT) { if(lo + w <= a->a->w) return bvExtract(a->a, lo, w); if(lo >= a->a->w) return mkBV(w, 0); }
	if(a->op == BCONCAT) { int lw = a->b->w; if(lo + w <= lw) return bvExtract(a->b, lo, w); if(lo >= lw) return bvExtract(a->a, lo - lw, w); }
	if(a->op == ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, bvExtract(a->b, lo, w), bvExtract(a->c, lo, w));
	if(a->op == BEXTRACT) return bvExtract(a->a, lo + a->u, w);
	return mk(BEXTRACT, S_BV, w, a, 0, 0, lo);
}
static Expr* bvExt(Expr* a, int w, bool sgn)
{
	a = toBV1(a);
	if(w == a->w) return a;
	if(isConst(a)) return mkBV(w, sgn ? (uint64_t) sx(a->u, a->w) : a->u);
	if(a->op == ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, bvExt(a->b, w, sgn), bvExt(a->c, w, sgn));
	return mk(sgn ? BSEXT : BZEXT, S_BV, w, a);
}

// ------------------------------------------------------------------ concrete evaluation (long double, model values)
static std::unordered_map<Expr*, long double> evCache;
static bool evBool(Expr* e);
static uint64_t evBV(Expr* e);
static long double ev(Expr* e)
{
	auto it = evCache.find(e);
	if(it != evCache.end()) return it->second;
	long double r = NAN;
	switch(e->op)
	{
	case CONST: r = e->sort == S_REAL ? (long double) e->q->get_d() : NAN; break;
	case VAR: r = vars[e->u].val; break;
	case RADD: r = ev(e->a) + ev(e->b); break;
	case RSUB: r = ev(e->a) - ev(e->b); break;
	case RMUL: r = ev(e->a) * ev(e->b); break;
	case RDIV: r = ev(e->a) / ev(e->b); break;
	case RNEG: r = -ev(e->a); break;
	case RSQRT: r = sqrtl(ev(e->a)); break;
	case RSIN: r = sinl(ev(e->a)); break;
	case RCOS: r = cosl(ev(e->a)); break;
	case REXP: r = expl(ev(e->a)); break;
	case RLOG: r = logl(ev(e->a)); break;
	case RATAN2: r = atan2l(ev(e->a), ev(e->b)); break;
	case RASIN: r = asinl(ev(e->a)); break;
	case RACOS: r = acosl(ev(e->a)); break;
	case RATAN: r = atanl(ev(e->a)); break;
	case RPOW: r = powl(ev(e->a), ev(e->b)); break;
	case ITE: r = evBool(e->a) ? ev(e->b) : ev(e->c); break;
	default: r = NAN;
	}
	evCache[e] = r;
	return r;
}
static uint64_t evBV(Expr* e)
{
	switch(e->op)
	{
	case CONST: return e->u;
	case VAR: return e->w < 64 ? (uint64_t) vars[e->u].ival & ((uint64_t(1) << e->w) - 1) : (uint64_t) vars[e->u].ival;
	case BCONCAT: return (evBV(e->a) << e->b->w) | evBV(e->b);
	case BEXTRACT: { uint64_t v = evBV(e->a) >> e->u; return e->w < 64 ? v & ((uint64_t(1) << e->w) - 1) : v; }
	case BZEXT: return evBV(e->a);
	case BSEXT: { uint64_t v = (uint64_t) sx(evBV(e->a), e->a->w); return e->w < 64 ? v & ((uint64_t(1) << e->w) - 1) : v; }
	case ITE: return evBool(e->a) ? evBV(e->b) : evBV(e->c);
	default: if(e->op >= BADD && e->op <= BXOR) return bvEval(e->op, evBV(e->a), evBV(e->b), e->w); return 0;
	}
}
static bool evMarginal = false; static long double evTol = 1e-9L;
static bool evBool(Expr* e)
{
	switch(e->op)
	{
	case CONST: return e->u;
	case NOT: return !evBool(e->a);
	case AND: { bool x = evBool(e->a), y = evBool(e->b); return x && y; }
	case OR: { bool x = evBool(e->a), y = evBool(e->b); return x || y; }
	case ITE: return evBool(e->a) ? evBool(e->b) : evBool(e->c);
	case RLT: case RLE: case REQ:
	{
		long double x = ev(e->a), y = ev(e->b);
		if(!(fabsl(x - y) > evTol * (fabsl(x) + fabsl(y)) + 1e-200L) || std::isnan((double) x) || std::isnan((double) y)) evMarginal = true;
		return e->op == RLT ? x < y : e->op == RLE ? x <= y : x == y;
	}
	case BEQ: return evBV(e->a) == evBV(e->b);
	case BULT: return evBV(e->a) < evBV(e->b);
	case BULE: return evBV(e->a) <= evBV(e->b);
	case BSLT: return sx(evBV(e->a), e->a->w) < sx(evBV(e->b), e->b->w);
	case BSLE: return sx(evBV(e->a), e->a->w) <= sx(evBV(e->b), e->b->w);
	default: evMarginal = true; return false;
	}
}

// ------------------------------------------------------------------ Z3 translation
struct Tr
{
	z3::context& c;
	std::unordered_map<Expr*, z3::expr> cache;
	std::map<int, z3::expr> atomE;
	vector<int> pendingAtoms;
	vector<z3::expr> side;            // side constraints (axioms, fresh definitions)
	std::map<string, z3::expr> monoE;
	bool linear = false;              // monomials as opaque bounded reals
	std::set<int> usedVars;
	Tr(z3::context& cc) : c(cc) {}
	z3::expr num(const Q& q) { return c.real_val(q.get_str().c_str()); }
	z3::expr dbl(double d) { Q q(d); return num(q); }
	z3::expr atom(int a)
	{
		auto it = atomE.find(a);
		if(it != atomE.end()) return it->second;
		Atom& A = atoms[a];
		z3::expr v(c);
		if(A.kind == A_VAR) v = var(A.e);
		else v = c.real_const(("a" + std::to_string(a)).c_str());
		atomE.emplace(a, v);
		if(A.kind != A_VAR)
		{
			if(A.lo > -INFINITY) side.push_back(v >= dbl(A.lo));
			if(A.hi < INFINITY) side.push_back(v <= dbl(A.hi));
			pendingAtoms.push_back(a);
		}
		return v;
	}
	z3::expr var(Expr* e)
	{
		auto it = cache.find(e);
		if(it != cache.end()) return it->second;
		VarInfo& v = vars[e->u];
		z3::expr r(c);
		string n = "v" + std::to_string(e->u);
		usedVars.insert(e->u);
		if(e->sort == S_REAL) { r = c.real_const(n.c_str()); side.push_back(r >= dbl(v.lo)); side.push_back(r <= dbl(v.hi)); }
		else if(e->sort == S_BV) { r = c.bv_const(n.c_str(), e->w); if(!v.aux) { side.push_back(r >= c.bv_val((int64_t) v.ilo, e->w)); side.push_back(r <= c.bv_val((int64_t) v.ihi, e->w)); } }
		else if(e->sort == S_FP)
		{
			r = c.constant(n.c_str(), fs(e->w));
			if(!v.aux) { side.push_back(r >= fpv(64, dbits(v.lo))); side.push_back(r <= fpv(64, dbits(v.hi))); }
		}
		else r = c.bool_const(n.c_str());
		cache.emplace(e, r);
		return r;
	}
	static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
	z3::sort fs(int w) { return w == 32 ? c.fpa_sort(8, 24) : c.fpa_sort(11, 53); }
	z3::expr fpv(int w, uint64_t b) { return c.bv_val((uint64_t) b, (unsigned) (w == 32 ? 32 : 64)).mk_from_ieee_bv(fs(w)); }
	z3::expr tp(const Poly& p)
	{
		if(p.t.empty()) return c.real_val(0);
		z3::expr_vector s(c);
		for(auto& t : p.t)
		{
			if(t.first.empty()) { s.push_back(num(t.second)); continue; }
			z3::expr m = mono(t.first);
			s.push_back(t.second == 1 ? m : num(t.second) * m);
		}
		return s.size() == 1 ? s[0] : z3::sum(s);
	}
	z3::expr mono(const Mono& m)
	{
		if(linear && !(m.size() == 1 && m[0].second == 1))
		{
			string k = monoKey(m);
			auto it = monoE.find(k);
			if(it != monoE.end()) return it->second;
			z3::expr v = c.real_const(("m" + k).c_str());
			Iv iv = ivMono(m);
			if(iv.lo > -INFINITY) side.push_back(v >= dbl(iv.lo));
			if(iv.hi < INFINITY) side.push_back(v <= dbl(iv.hi));
			monoE.emplace(k, v);
			return v;
		}
		z3::expr r(c); bool first = true;
		for(auto& f : m)
			for(int i = 0; i < f.second; i++) { z3::expr a = atom(f.first); r = first ? a : r * a; first = false; }
		return r;
	}
	z3::expr real(Expr* e)
	{
		if(Poly* p = poly(e)) return tp(*p);
		auto it = cache.find(e);
		if(it != cache.end()) return it->second;
		z3::expr r(c);
		auto fresh = [&](const char* k) { return c.real_const((string(k) + std::to_string(e->id)).c_str()); };
		switch(e->op)
		{
		case RADD: r = real(e->a) + real(e->b); break;
		case RSUB: r = real(e->a) - real(e->b); break;
		case RNEG: r = -real(e->a); break;
		case RMUL: r = real(e->a) * real(e->b); break;
		case RDIV: { r = fresh("q"); side.push_back(r * real(e->b) == real(e->a)); side.push_back(real(e->b) != 0); break; }
		case RSQRT: { r = fresh("s"); side.push_back(r >= 0 && r * r == real(e->a)); break; }
		case ITE: r = z3::ite(tr(e->a), real(e->b), real(e->c)); break;
		case RSIN: case RCOS:
		{
			z3::expr s = c.real_const(("sn" + std::to_string(e->a->id)).c_str()), k = c.real_const(("cn" + std::to_string(e->a->id)).c_str());
			side.push_back(s * s + k * k == 1);
			r = e->op == RSIN ? s : k; break;
		}
		case REXP: r = fresh("e"); side.push_back(r > 0); break;
		default: r = fresh("o"); break;
		}
		cache.emplace(e, r);
		return r;
	}
	z3::expr tr(Expr* e)
	{
		if(e->sort == S_REAL) return real(e);
		auto it = cache.find(e);
		if(it != cache.end()) return it->second;
		z3::expr r(c);
		switch(e->op)
		{
		case CONST:
			if(e->sort == S_BOOL) r = c.bool_val(e->u != 0);
			else if(e->sort == S_BV) r = c.bv_val((uint64_t) e->u, e->w);
			else r = fpv(e->w, e->u);
			break;
		case VAR: return var(e);
		case BADD: r = tr(e->a) + tr(e->b); break;
		case BSUB: r = tr(e->a) - tr(e->b); break;
		case BMUL: r = tr(e->a) * tr(e->b); break;
		case BUDIV: r = z3::udiv(tr(e->a), tr(e->b)); break;
		case BSDIV: r = tr(e->a) / tr(e->b); break;
		case BUREM: r = z3::urem(tr(e->a), tr(e->b)); break;
		case BSREM: r = z3::srem(tr(e->a), tr(e->b)); break;
		case BSHL: r = z3::shl(tr(e->a), tr(e->b)); break;
		case BLSHR: r = z3::lshr(tr(e->a), tr(e->b)); break;
		case BASHR: r = z3::ashr(tr(e->a), tr(e->b)); break;
		case BAND: r = tr(e->a) & tr(e->b); break;
		case BOR: r = tr(e->a) | tr(e->b); break;
		case BXOR: r = tr(e->a) ^ tr(e->b); break;
		case BCONCAT: r = z3::concat(tr(e->a), tr(e->b)); break;
		case BEXTRACT: r = tr(e->a).extract(e->u + e->w - 1, e->u); break;
		case BZEXT: r = z3::zext(tr(e->a), e->w - e->a->w); break;
		case BSEXT: r = z3::sext(tr(e->a), e->w - e->a->w); break;
		case BEQ: case FEQ: r = e->op == FEQ ? z3::expr(c, Z3_mk_fpa_eq(c, tr(e->a), tr(e->b))) : tr(e->a) == tr(e->b); break;
		case BULT: r = z3::ult(tr(e->a), tr(e->b)); break;
		case BULE: r = z3::ule(tr(e->a), tr(e->b)); break;
		case BSLT: r = tr(e->a) < tr(e->b); break;
		case BSLE: r = tr(e->a) <= tr(e->b); break;
		case NOT: r = !tr(e->a); break;
		case AND: r = tr(e->a) && tr(e->b); break;
		case OR: r = tr(e->a) || tr(e->b); break;
		case ITE: r = z3::ite(tr(e->a), tr(e->b), tr(e->c)); break;
		case RLT: case RLE: case REQ:
		{
			Poly *p = poly(e->a), *q = poly(e->b);
			z3::expr x(c), y(c);
			bool done = false;
			if(p && q)
				try
				{
					Poly d = *p; pAddTo(d, *q, -1);
					bool flip; Poly k = clearDen(d, flip);
					x = tp(k); y = c.real_val(0); done = true;
					if(flip) std::swap(x, y);
				}
				catch(PolyTooBig&) {}
			if(!done) { x = real(e->a); y = real(e->b); }
			r = e->op == RLT ? x < y : e->op == RLE ? x <= y : x == y;
			break;
		}
		case FADD: r = z3::expr(c, Z3_mk_fpa_add(c, rne(), tr(e->a), tr(e->b))); break;
		case FSUB: r = z3::expr(c, Z3_mk_fpa_sub(c, rne(), tr(e->a), tr(e->b))); break;
		case FMUL: r = z3::expr(c, Z3_mk_fpa_mul(c, rne(), tr(e->a), tr(e->b))); break;
		case FDIV: r = z3::expr(c, Z3_mk_fpa_div(c, rne(), tr(e->a), tr(e->b))); break;
		case FFMA: r = z3::expr(c, Z3_mk_fpa_fma(c, rne(), tr(e->a), tr(e->b), tr(e->c))); break;
		case FNEG: r = z3::expr(c, Z3_mk_fpa_neg(c, tr(e->a))); break;
		case FABS: r = z3::expr(c, Z3_mk_fpa_abs(c, tr(e->a))); break;
		case FSQRT: r = z3::expr(c, Z3_mk_fpa_sqrt(c, rne(), tr(e->a))); break;
		case FMIN: r = z3::expr(c, Z3_mk_fpa_min(c, tr(e->a), tr(e->b))); break;
		case FMAX: r = z3::expr(c, Z3_mk_fpa_max(c, tr(e->a), tr(e->b))); break;
		case FRND: { z3::expr rm = e->u == 8 ? z3::expr(c, Z3_mk_fpa_rtn(c)) : e->u == 9 ? z3::expr(c, Z3_mk_fpa_rtp(c)) : e->u == 10 ? z3::expr(c, Z3_mk_fpa_rtz(c)) : e->u == 12 ? z3::expr(c, Z3_mk_fpa_rna(c)) : rne(); r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, rm, tr(e->a))); break; }
		case FUF: r = c.constant(("f" + std::to_string(e->id)).c_str(), fs(e->w)); break;
		case FEXT: r = z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne(), tr(e->a), fs(e->w))); break;
		case FSITOFP: r = z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne(), tr(e->a), fs(e->w))); break;
		case FUITOFP: r = z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), tr(e->a), fs(e->w))); break;
		case FTOSI: r = z3::expr(c, Z3_mk_fpa_to_sbv(c, z3::expr(c, Z3_mk_fpa_rtz(c)), tr(e->a), e->w)); break;
		case FTOUI: r = z3::expr(c, Z3_mk_fpa_to_ubv(c, z3::expr(c, Z3_mk_fpa_rtz(c)), tr(e->a), e->w)); break;
		case FFROMBV: r = tr(e->a).mk_from_ieee_bv(fs(e->w)); break;
		case FTOBV: { r = c.bv_const(("fb" + std::to_string(e->id)).c_str(), e->w); side.push_back(r.mk_from_ieee_bv(fs(e->w)) == tr(e->a)); break; }
		case FLT: r = z3::expr(c, Z3_mk_fpa_lt(c, tr(e->a), tr(e->b))); break;
		case FLE: r = z3::expr(c, Z3_mk_fpa_leq(c, tr(e->a), tr(e->b))); break;
		case FISNAN: r = z3::expr(c, Z3_mk_fpa_is_nan(c, tr(e->a))); break;
		case FISINF: r = z3::expr(c, Z3_mk_fpa_is_infinite(c, tr(e->a))); break;
		default: fprintf(stderr, "sxrt: no translation for op %d\n", e->op); abort();
		}
		cache.emplace(e, r);
		return r;
	}
	z3::expr rne() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
	void axioms()
	{
		if(linear) { pendingAtoms.clear(); return; }
		auto trf = [this](Expr* e) { return tr(e); };
		auto tpf = [this](const Poly& p) { return tp(p); };
		while(!pendingAtoms.empty())
		{
			int a = pendingAtoms.back(); pendingAtoms.pop_back();
			// sin and cos share the axiom of the sine atom
			if(atoms[a].kind == A_COS) atom(atoms[a].mate);
			for(size_t i = 0; i < atoms[a].ax.size(); i++) side.push_back(atoms[a].ax[i](c, trf, tpf));
		}
		// congruence / monotonicity between atoms of the same function
		vector<int> fs, es, ls;
		for(auto& kv : atomE) { auto k = atoms[kv.first].kind; if(k == A_SIN) fs.push_back(kv.first); else if(k == A_EXP) es.push_back(kv.first); else if(k == A_LOG) ls.push_back(kv.first); }
		if(fs.size() <= 5)
			for(size_t i = 0; i < fs.size(); i++) for(size_t j = 0; j < i; j++)
				side.push_back(z3::implies(tp(atoms[fs[i]].p) == tp(atoms[fs[j]].p), tp(pAtom(fs[i])) == tp(pAtom(fs[j])) && tp(pAtom(atoms[fs[i]].mate)) == tp(pAtom(atoms[fs[j]].mate))));
		for(auto* v : {&es, &ls})
			if(v->size() <= 5)
				for(size_t i = 0; i < v->size(); i++) for(size_t j = 0; j < i; j++)
				{
					z3::expr x = tp(atoms[(*v)[i]].p), y = tp(atoms[(*v)[j]].p), ex = tp(pAtom((*v)[i])), ey = tp(pAtom((*v)[j]));
					side.push_back(z3::implies(x == y, ex == ey) && z3::implies(x < y, ex < ey) && z3::implies(x > y, ex > ey));
				}
	}
};

// variables of an expression (for slicing)
static std::unordered_map<Expr*, std::set<int>*> varCache;
static void polyVars(const Poly& p, std::set<int>& out, std::set<int>& seenA);
static std::set<int>& varsOf(Expr* e)
{
	auto it = varCache.find(e);
	if(it != varCache.end()) return *it->second;
	auto* s = new std::set<int>;
	varCache[e] = s;
	if(e->op == VAR) s->insert(e->u);
	for(Expr* k : {e->a, e->b, e->c}) if(k) { auto& t = varsOf(k); s->insert(t.begin(), t.end()); }
	return *s;
}

// ------------------------------------------------------------------ solving (each query in a forked child)
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct Answer { Res r; std::map<string, string> model; bool quick = false; };
static string fmtD(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static void childSolve(int fd, const vector<Expr*>& cs, int strategy, double timeout, const vector<std::pair<int, double>>& pins)
{
	auto put = [&](const string& s) { const char* p = s.data(); size_t n = s.size(); while(n) { ssize_t k = write(fd, p, n); if(k <= 0) break; p += k; n -= k; } };
	try
	{
		z3::context c;
		Tr t(c);
		t.linear = strategy == 0;
		vector<z3::expr> main;
		for(auto* e : cs) main.push_back(t.tr(e));
		for(auto& p : pins)
		{
			Expr* v = vars[p.first].e;
			if(v->sort == S_REAL) main.push_back(t.tr(v) == t.dbl(p.second));
		}
		if(!pins.empty() && strategy != 0)
		{
			// numeric facts for transcendental atoms of pinned arguments
			std::map<int, double> pv(pins.begin(), pins.end());
			for(size_t i = 0; i < atoms.size(); i++)
			{
				Atom& A = atoms[i];
				if(A.kind != A_SIN && A.kind != A_COS && A.kind != A_EXP && A.kind != A_LOG && A.kind != A_ANGLE && A.kind != A_POW) continue;
				bool in = t.atomE.count(i); if(!in) continue;
				std::function<bool(int, double&)> atomVal = [&](int k, double& out) {
						Atom& B = atoms[k];
						auto pval = [&](const Poly& p, double& o) {
								double s = 0;
								for(auto& tm : p.t) { double m = tm.second.get_d(); for(auto& f : tm.first) { double x; if(!atomVal(f.first, x)) return false; m *= std::pow(x, f.second); } s += m; }
								o = s; return true;
							};
						double x;
						switch(B.kind)
						{
						case A_VAR: { auto it = pv.find(B.e->u); if(it == pv.end()) return false; out = it->second; return true; }
						case A_SIN: if(!pval(B.p, x)) return false; out = std::sin(x); return true;
						case A_COS: if(!pval(B.p, x)) return false; out = std::cos(x); return true;
						case A_EXP: if(!pval(B.p, x)) return false; out = std::exp(x); return true;
						case A_LOG: if(!pval(B.p, x)) return false; out = std::log(x); return true;
						case A_SQRT: if(!pval(B.p, x)) return false; out = std::sqrt(x); return true;
						case A_INV: if(!pval(B.p, x)) return false; out = 1 / x; return true;
						case A_ANGLE: { double s, k2; if(!pval(*B.sinP, s) || !pval(*B.cosP, k2)) return false; out = std::atan2(s, k2); return true; }
						case A_POW: { Poly *pa = poly(B.e->a), *pb = poly(B.e->b); double y; if(!pa || !pb || !pval(*pa, x) || !pval(*pb, y)) return false; out = std::pow(x, y); return true; }
						default: return false;
						}
					};
				double v;
				if(atomVal(i, v) && std::isfinite(v))
				{
					double e = std::fabs(v) * 1e-14 + 1e-300;
					main.push_back(t.atom(i) >= t.dbl(v - e)); main.push_back(t.atom(i) <= t.dbl(v + e));
				}
			}
		}
		t.axioms();
		z3::solver s(c);
		bool hasReal = false, hasOther = false;
		for(int v : t.usedVars) { if(vars[v].e->sort == S_REAL) hasReal = true; else hasOther = true; }
		if(strategy == 2 && !hasOther)
		{
			s = (z3::tactic(c, "simplify") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "qfnra-nlsat")).mk_solver();
		}
		else if(strategy == 1 && hasReal && !hasOther) s = z3::tactic(c, "qfnra").mk_solver();
		else if(strategy == 3 && hasReal && !hasOther) s = z3::solver(c, "QF_NRA");
		z3::params p(c);
		p.set("timeout", (unsigned) (timeout * 1000));
		try { s.set(p); } catch(z3::exception&) {}
		for(auto& e : main) s.add(e);
		for(auto& e : t.side) s.add(e);
		if(getenv("SX_DUMP")) { FILE* f = fopen((workDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(strategy) + ".smt2").c_str(), "w"); if(f) { fputs(s.to_smt2().c_str(), f); fclose(f); } }
		auto r = s.check();
		if(r == z3::unsat) { put("U\n"); }
		else if(r == z3::sat && strategy == 0) put("K\n");
		else if(r == z3::sat)
		{
			string o = "S\n";
			z3::model m = s.get_model();
			for(int vi : t.usedVars)
			{
				VarInfo& v = vars[vi];
				if(v.aux) continue;
				z3::expr val = m.eval(t.var(v.e), true);
				if(v.e->sort == S_REAL)
				{
					double d;
					if(val.is_numeral()) { string ns = val.get_decimal_string(25); if(ns.back() == '?') ns.pop_back(); d = strtod(ns.c_str(), nullptr);
						Z3_string q = Z3_get_numeral_string(c, val); try { Q qq(q); d = mpq_get_d(qq.get_mpq_t()); // nearest
							double u1 = std::nextafter(d, d > 0 ? INFINITY : -INFINITY); Q e1 = abs(qq - Q(d)), e2 = abs(qq - Q(u1)); if(e2 < e1) d = u1; } catch(...) {} }
					else if(val.is_algebraic()) { z3::expr lo = val.algebraic_lower(30); string ns = lo.get_decimal_string(25); if(ns.back() == '?') ns.pop_back(); d = strtod(ns.c_str(), nullptr); }
					else d = v.val;
					d = std::min(std::max(d, v.lo), v.hi);
					o += v.name + "\t" + fmtD(d) + "\n";
				}
				else if(v.e->sort == S_BV)
				{
					uint64_t u = 0; val.is_numeral_u64(u);
					o += v.name + "\t" + std::to_string(sx(u, v.e->w)) + "\n";
				}
				else if(v.e->sort == S_FP)
				{
					z3::expr bv(c, Z3_mk_fpa_to_ieee_bv(c, val)); bv = m.eval(bv, true).simplify();
					uint64_t u = 0; bv.is_numeral_u64(u); double d; memcpy(&d, &u, 8);
					o += v.name + "\t" + fmtD(d) + "\n";
				}
			}
			o += "E\n";
			put(o);
		}
		else put("K\n");
	}
	catch(z3::exception& e) { put("K\n"); if(getenv("SX_DEBUG")) fprintf(stderr, "z3: %s\n", e.msg()); }
	catch(...) { put("K\n"); }
	_exit(0);
}
static std::map<string, long> rungCount;
// run the given strategies in parallel, first definite answer wins
static Answer runPortfolio(const vector<Expr*>& cs, const vector<int>& strats, double timeout, const vector<std::pair<int, double>>& pins, int* winner = nullptr)
{
	struct Ch { pid_t pid; int fd; string buf; bool done; int strat; };
	vector<Ch> ch;
	double t0 = now();
	fflush(stdout); fflush(stderr);
	for(int s : strats)
	{
		int pf[2]; if(pipe(pf)) continue;
		pid_t p = fork();
		if(p == 0)
		{
			close(pf[0]);
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
			struct rlimit rl = {size_t(3) << 30, size_t(3) << 30}; (void) rl;
			childSolve(pf[1], cs, s, timeout, pins);
			_exit(0);
		}
		close(pf[1]);
		ch.push_back({p, pf[0], "", false, s});
	}
	Answer a; a.r = UNKNOWN;
	double hard = t0 + timeout + 1.0;
	bool got = false;
	while(!got)
	{
		vector<pollfd> pf; vector<int> idx;
		for(size_t i = 0; i < ch.size(); i++) if(!ch[i].done) { pf.push_back({ch[i].fd, POLLIN, 0}); idx.push_back(i); }
		if(pf.empty()) break;
		double left = hard - now(); if(left <= 0) break;
		int n = poll(pf.data(), pf.size(), (int) (left * 1000) + 1);
		if(n <= 0) { if(n == 0) break; continue; }
		for(size_t k = 0; k < pf.size() && !got; k++)
		{
			if(!pf[k].revents) continue;
			Ch& c = ch[idx[k]];
			char b[65536]; ssize_t r = read(c.fd, b, sizeof b);
			if(r > 0) { c.buf.append(b, r); continue; }
			c.done = true;
			if(c.buf.empty()) continue;
			if(c.buf[0] == 'U') { a.r = UNSAT; got = true; if(winner) *winner = c.strat; }
			else if(c.buf[0] == 'S')
			{
				a.r = SAT; got = true; if(winner) *winner = c.strat;
				std::istringstream is(c.buf); string l; std::getline(is, l);
				while(std::getline(is, l)) { size_t t = l.find('\t'); if(t != string::npos) a.model[l.substr(0, t)] = l.substr(t + 1); }
			}
		}
	}
	for(auto& c : ch) { kill(c.pid, SIGKILL); close(c.fd); int st; waitpid(c.pid, &st, 0); }
	solverTime += now() - t0; nQueries++;
	return a;
}
static void literals(Expr* e, vector<Expr*>& out) { if(e->op == AND) { literals(e->a, out); literals(e->b, out); } else out.push_back(e); }
static vector<Expr*> sliceFor(Expr* goal)
{
	std::set<int> vs = varsOf(goal);
	vector<Expr*> r; vector<bool> in(PC.size(), false);
	bool ch = true;
	while(ch)
	{
		ch = false;
		for(size_t i = 0; i < PC.size(); i++)
		{
			if(in[i]) continue;
			auto& w = varsOf(PC[i]);
			bool hit = w.empty();
			for(int x : w) if(vs.count(x)) { hit = true; break; }
			if(hit) { in[i] = true; ch = true; vs.insert(w.begin(), w.end()); }
		}
	}
	for(size_t i = 0; i < PC.size(); i++) if(in[i]) r.push_back(PC[i]);
	return r;
}
static bool hasIEEE(Expr* e) { return e->sort == S_FP || (e->op >= FADD); }
static bool isTrivialReal(const vector<Expr*>& cs)
{
	for(auto* e : cs) for(int v : varsOf(e)) if(vars[v].e->sort != S_REAL) return false;
	return true;
}
// Search for a satisfying assignment by evaluating the constraints (with a margin) on candidate
// assignments around the current model.  A hit is a SAT witness; a miss says nothing and the
// question goes to the solver.
static uint64_t rngState = 88172645463325252ull;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static double rnd() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
static bool quickModel(const vector<Expr*>& cs, Answer& a)
{
	std::set<int> vs;
	for(auto* e : cs) { auto& w = varsOf(e); vs.insert(w.begin(), w.end()); }
	vector<int> v(vs.begin(), vs.end());
	if(v.empty()) return false;
	for(int i : v) if(vars[i].aux || (vars[i].e->sort != S_REAL && vars[i].e->sort != S_BV)) return false;
	rngState = 88172645463325252ull + cs.back()->id * 7919u + cs.size();
	for(int i = 0; i < 5; i++) rng();
	struct Save { double d; int64_t i; };
	vector<Save> save; for(int i : v) save.push_back({vars[i].val, vars[i].ival});
	double t0 = now(); long double tol = evTol; evTol = 1e-5L;
	bool mg = evMarginal, hit = false;
	// goal first: cheapest rejection
	vector<Expr*> lit; for(auto it = cs.rbegin(); it != cs.rend(); ++it) literals(*it, lit);
	for(int n = 0; n < 400 && !hit; n++)
	{
		if(n > 20 && now() - t0 > 0.03) break;
		int mode = n % 4;
		size_t one = rng() % v.size(), two = rng() % v.size();
		for(size_t k = 0; k < v.size(); k++)
		{
			VarInfo& x = vars[v[k]];
			bool change = mode == 0 ? k == one : mode == 1 ? (k == one || k == two) : mode == 2 ? (rng() & 1) : true;
			if(!change) { x.val = save[k].d; x.ival = save[k].i; continue; }
			if(x.e->sort == S_BV) { uint64_t span = (uint64_t) (x.ihi - x.ilo) + 1; x.ival = span ? x.ilo + (int64_t) (rng() % span) : (int64_t) rng(); x.val = (double) x.ival; continue; }
			int how = rng() % 6; double d;
			if(how == 0) d = -save[k].d;
			else if(how == 1) d = save[k].d + (rnd() - 0.5) * 0.2 * (x.hi - x.lo);
			else if(how == 2) { VarInfo& o = vars[v[rng() % v.size()]]; d = o.val * (rnd() < 0.5 ? 1 : -1) * (0.8 + 0.4 * rnd()); }
			else if(how == 3) d = save[k].d * (0.9 + 0.2 * rnd());
			else d = x.lo + rnd() * (x.hi - x.lo);
			if(!(d >= x.lo)) d = x.lo;
			if(!(d <= x.hi)) d = x.hi;
			// short decimals make readable models
			double r = std::round(d * 4096) / 4096; if(r >= x.lo && r <= x.hi && std::fabs(r - d) < 1e-2 * std::fabs(d)) d = r;
			x.val = d;
		}
		evCache.clear(); evMarginal = false; hit = true;
		for(auto* e : lit) if(!evBool(e) || evMarginal) { hit = false; break; }
	}
	evTol = tol;
	if(hit)
	{
		a.r = SAT; a.model.clear();
		for(int i : v) a.model[vars[i].name] = vars[i].e->sort == S_REAL ? fmtD(vars[i].val) : std::to_string(vars[i].ival);
		for(auto& kv : curModel) if(!a.model.count(kv.first)) a.model[kv.first] = kv.second;
	}
	for(size_t k = 0; k < v.size(); k++) { vars[v[k]].val = save[k].d; vars[v[k]].ival = save[k].i; }
	evCache.clear(); evMarginal = mg;
	return hit;
}
// decide PC && goal
static Answer solve(Expr* goal, double timeout, bool full = true, const vector<std::pair<int, double>>& pins = {})
{
	Answer a;
	if(isConst(goal)) { a.r = goal->u ? SAT : UNSAT; if(a.r == SAT) a.model = curModel; return a; }
	vector<Expr*> cs = sliceFor(goal); cs.push_back(goal);
	bool realOnly = isTrivialReal(cs) && !modeIEEE;
	int win = -1;
	if(!modeIEEE && pins.empty() && quickModel(cs, a)) { rungCount["witness"]++; a.quick = true; return a; }
	static const char* rn[] = {"linear", "qfnra", "nlsat", "QF_NRA", "default", "default2"};
	if(!realOnly)
	{
		a = runPortfolio(cs, {4}, timeout, pins, &win);
	}
	else
	{
		if(pins.empty())
		{
			a = runPortfolio(cs, {0}, std::min(2.0, timeout), pins, &win);
			if(a.r == UNSAT) { rungCount["linear"]++; return a; }
		}
		a = runPortfolio(cs, {2, 3}, std::min(1.5, timeout), pins, &win);
		if(a.r == UNKNOWN && timeout > 1.5) a = runPortfolio(cs, {2, 3, 1}, timeout, pins, &win);
	}
	if(win >= 0) rungCount[rn[win]]++; else rungCount["unknown"]++;
	// complete the model with the current values of the variables outside the slice
	if(a.r == SAT) for(auto& kv : curModel) if(!a.model.count(kv.first)) a.model[kv.first] = kv.second;
	return a;
}

// ------------------------------------------------------------------ decisions
static void addPC(Expr* c) { if(!isConst(c) && PCset.insert(c).second) PC.push_back(c); }
static void pushItem(Rec flip, const std::map<string, string>& m, bool maybe)
{
	vector<Rec> p = taken; p.push_back(flip);
	emit("ITEM\t" + serItem(p, m, maybe, 0));
	cnt["forks"]++;
}
static bool curMaybe = false;
// robust version of a literal: a<b  ->  a + eps <= b
static Expr* robust(Expr* e, double eps)
{
	switch(e->op)
	{
	case RLT: case RLE: return mk(RLE, S_BOOL, 1, rAdd(e->a, mkRealD(eps)), e->b);
	case AND: return bAnd(robust(e->a, eps), robust(e->b, eps));
	case OR: return bOr(robust(e->a, eps), robust(e->b, eps));
	case NOT: if(e->a->op == REQ) return bOr(robust(mk(RLT, S_BOOL, 1, e->a->a, e->a->b), eps), robust(mk(RLT, S_BOOL, 1, e->a->b, e->a->a), eps)); if(e->a->op == AND) return bOr(robust(bNot(e->a->a), eps), robust(bNot(e->a->b), eps)); if(e->a->op == OR) return bAnd(robust(bNot(e->a->a), eps), robust(bNot(e->a->b), eps)); return e;
	default: return e;
	}
}
static Answer solveRobust(Expr* goal, double timeout)
{
	Answer a = solve(goal, timeout);
	bool anyReal = false;
	for(int v : varsOf(goal)) if(vars[v].e->sort == S_REAL) anyReal = true;
	if(a.r == SAT && !a.quick && !modeIEEE && !isConst(goal) && anyReal)
	{
		// nicer model, away from the boundary, for the concrete run
		vector<Expr*> save = PC;
		for(auto& c : PC) c = robust(c, 1e-6);
		Answer b = solve(robust(goal, 1e-6), 0.7);
		PC = save;
		if(b.r == SAT) return b;
	}
	return a;
}
static bool decideExpr(Expr* c, bool conc)
{
	c = toBool(c);
	if(isConst(c)) return c->u;
	if(PCset.count(c)) return true;
	if(PCset.count(bNot(c))) return false;
	if(finished) return conc;
	if(pos < prefix.size())
	{
		Rec r = prefix[pos++];
		taken.push_back(r);
		bool d = r.dir != 0;
		if(d != conc) diverged = true;
		addPC(d ? c : bNot(c));
		return d;
	}
	if((int) taken.size() >= maxDecisions) finishPath("limit", "decision limit");
	if(now() > pathDeadline) finishPath("limit", "path time limit");
	cnt["decisions"]++;
	static bool trace = getenv("SX_TRACE") != nullptr;
	if(trace) { void* f[8]; int n = backtrace(f, 8); dprintf(tracefd, "D"); for(int i = 1; i < n; i++) dprintf(tracefd, " %p", f[i]); dprintf(tracefd, "\n"); }
	bool d = conc;
	if(modeIEEE)
	{
		Answer o = solve(d ? bNot(c) : c, qTimeout);
		if(o.r == SAT) pushItem({!d, false, 0}, o.model, false);
		else if(o.r == UNKNOWN) { pushItem({!d, false, 0}, curModel, true); cnt["unknown_branches"]++; }
		else cnt["infeasible_sides"]++;
	}
	else
	{
		evMarginal = false;
		bool evd = evBool(c);
		bool certain = !evMarginal && evd == conc && !diverged;
		Answer mine; mine.r = SAT;
		if(!certain)
		{
			mine = solve(d ? c : bNot(c), qTimeout);
		}
		Answer o = solveRobust(d ? bNot(c) : c, qTimeout);
		if(mine.r == UNSAT)
		{
			if(o.r == UNSAT) { finishPath("infeasible", ""); }
			d = !d; diverged = true;
			taken.push_back({d, false, 0}); addPC(d ? c : bNot(c));
			return d;
		}
		if(o.r == SAT) pushItem({!d, false, 0}, o.model, false);
		else if(o.r == UNKNOWN) { pushItem({!d, false, 0}, curModel, true); cnt["unknown_branches"]++; }
		else cnt["infeasible_sides"]++;
	}
	taken.push_back({d, false, 0});
	addPC(d ? c : bNot(c));
	return d;
}
static int concCount = 0;
// enumerate values: eq(v) gives the constraint "value is v"
static int64_t concretizeBy(const std::function<Expr*(int64_t)>& eq, int64_t conc)
{
	vector<int64_t> excl;
	while(pos < prefix.size())
	{
		Rec r = prefix[pos++];
		taken.push_back(r);
		Expr* c = eq(r.val);
		if(r.dir) { addPC(c); if(r.val != conc) diverged = true; return r.val; }
		addPC(bNot(c)); excl.push_back(r.val);
	}
	if(finished) return conc;
	if(now() > pathDeadline) finishPath("limit", "path time limit");
	int64_t v = conc;
	Expr* c = eq(v);
	if(isConst(c) && c->u) return v;
	bool dup = std::find(excl.begin(), excl.end(), v) != excl.end();
	if(!dup && PCset.count(c)) return v;
	if((int) excl.size() > maxConc) finishPath("limit", "too many values enumerated");
	if(dup || (diverged && solve(c, qTimeout).r == UNSAT)) finishPath("infeasible", "enumeration");
	Answer o = solveRobust(bNot(c), qTimeout);
	if(o.r == SAT) { vector<Rec> t = taken; pushItem({0, true, v}, o.model, false); }
	else if(o.r == UNKNOWN) cnt["unknown_branches"]++;
	taken.push_back({1, true, v});
	addPC(c);
	return v;
}

// ------------------------------------------------------------------ values
static int kindOf(int ty) { return ty >> 8; }
static int widthOf(int ty) { return ty & 255; }
enum { TK_INT = 1, TK_F32 = 2, TK_F64 = 3, TK_F80 = 4, TK_PTR = 5, TK_BIG = 6 };
static double payloadD(int ty, uint64_t v)
{
	if(kindOf(ty) == TK_F32) { uint32_t u = (uint32_t) v; float f; memcpy(&f, &u, 4); return f; }
	double d; memcpy(&d, &v, 8); return d;
}
static bool isFloatTy(int ty) { int k = kindOf(ty); return k == TK_F32 || k == TK_F64 || k == TK_F80; }
static Expr* lift(int ty, uint64_t v)
{
	if(isFloatTy(ty))
	{
		if(modeIEEE) return mkFP(kindOf(ty) == TK_F32 ? 32 : 64, kindOf(ty) == TK_F32 ? (v & 0xffffffffu) : v);
		double d = payloadD(ty, v);
		if(!std::isfinite(d)) return nullptr;
		return mkRealD(d);
	}
	int w = kindOf(ty) == TK_PTR ? 64 : widthOf(ty);
	if(w == 1) return mkBool(v & 1);
	return mkBV(w ? w : 64, v);
}
static void site() { symSites.insert(__builtin_return_address(0)); }
#define SITE() symSites.insert(__builtin_return_address(0))
static void leak(const string& what, Expr* e, int ty, uint64_t v)
{
	if(leaks.insert(what).second) {}
	cnt["leaks"]++;
	if(e && finished == false)
	{
		// pin the value: under-approximation, reported
		Expr* k = lift(ty, v);
		if(k && e->sort == k->sort && e->sort != S_REAL) { if(e->sort == S_BOOL) decideExpr(e, v & 1); else if(e->sort == S_BV) addPC(bvCmp(BEQ, e, k)); }
	}
}
static Expr* coerce(Expr* e, int ty)
{
	// make e fit the requested type
	if(!e) return e;
	if(isFloatTy(ty)) return e;
	return e;
}
static void escape(const string& why) { finishPath("escaped", why); }

extern "C" {
Expr* __sx_args[256]; Expr* __sx_rets[256];
static void* token = nullptr; static int tokenN = 0; static void* rtoken = nullptr;
void __sx_callprep(void* f, int n) { token = f; tokenN = n; rtoken = nullptr; }
static void anonLeak(void* f, int n);
static void* tokenPeek() { return token; }
void __sx_enter(void* f, int n)
{
	if(token == f && f) { token = nullptr; for(int i = 0; i < n; i++) if(__sx_args[i]) break; return; }
	if(token) { void* t = token; token = nullptr; anonLeak(t, tokenN); }
	for(int i = 0; i < n; i++) __sx_args[i] = nullptr;
}
void __sx_retprep(void* f, int n) { rtoken = f; }
void __sx_retcheck(void* f, int n)
{
	if(token) { bool m = token == f; token = nullptr; if(m) anonLeak(f, tokenN); }
	if(rtoken != f) for(int i = 0; i < n; i++) __sx_rets[i] = nullptr;
	rtoken = nullptr;
}
}
struct FnEnt { void* f; const char* name; };
static vector<FnEnt>& fnTab() { static vector<FnEnt>* v = new vector<FnEnt>; return *v; }
extern "C" void __sx_register(FnEnt* t, int n) { fnTab().insert(fnTab().end(), t, t + n); }
#include <dlfcn.h>
static void anonLeak(void* f, int n)
{
	bool any = false;
	for(int i = 0; i < n; i++) if(__sx_args[i] && isExpr(__sx_args[i]) && __sx_args[i]->op != CONST) any = true;
	if(!any) return;
	Dl_info di; const char* nm = "?";     // no std::string here: its code may be an instrumented copy
	if(dladdr(f, &di) && di.dli_sname) nm = di.dli_sname;
	// stream insertion only produces text
	if(!strncmp(nm, "_ZNSolsE", 8) || !strncmp(nm, "_ZNSo9_M_insert", 15) || !strncmp(nm, "_ZSt16__ostream_insert", 22) || !strcmp(nm, "printf")) return;
	leak(string("call:") + nm, nullptr, 0, 0);
}

// ------------------------------------------------------------------ shadow memory
struct Page { uint64_t e[4096]; };     // expr offset/8 (40 bits) << 16 | byte index << 8 | concrete byte ; 0 = none
static std::unordered_map<uint64_t, Page*> pages;
static uint64_t lastPg = ~0ull; static Page* lastP = nullptr;
static uint64_t bloom[1024];
static Page* page(uint64_t a, bool create)
{
	uint64_t n = a >> 12;
	if(n == lastPg) return lastP;
	if(!create && !((bloom[(n >> 6) & 1023] >> (n & 63)) & 1)) return nullptr;
	auto it = pages.find(n);
	if(it != pages.end()) { lastPg = n; lastP = it->second; return it->second; }
	if(!create) return nullptr;
	Page* p = (Page*) calloc(1, sizeof(Page));
	pages[n] = p; lastPg = n; lastP = p;
	bloom[(n >> 6) & 1023] |= uint64_t(1) << (n & 63);
	return p;
}
static inline uint64_t enc(Expr* e, int i, uint8_t b) { return (uint64_t) (((char*) e - arena) >> 3) << 16 | (uint64_t) i << 8 | b | (uint64_t(1) << 63); }
static inline Expr* dec(uint64_t v) { return (Expr*) (arena + (((v & ~(uint64_t(1) << 63)) >> 16) << 3)); }
static void shClear(uint64_t a, uint64_t n)
{
	while(n)
	{
		uint64_t o = a & 4095, k = std::min(n, 4096 - o);
		if(Page* p = page(a, false)) memset(&p->e[o], 0, k * 8);
		a += k; n -= k;
	}
}
static inline uint64_t shGet(uint64_t a)
{
	Page* p = page(a, false);
	if(!p) return 0;
	uint64_t v = p->e[a & 4095];
	if(!v) return 0;
	if((uint8_t) v != *(uint8_t*) a) { p->e[a & 4095] = 0; return 0; }
	return v;
}
static inline void shSet(uint64_t a, uint64_t v) { page(a, true)->e[a & 4095] = v; }
static int byteW(Expr* e) { return e->sort == S_BOOL ? 1 : e->sort == S_BV ? (e->w + 7) / 8 : e->sort == S_FP ? e->w / 8 : 8; }
extern "C" {
void __sx_clear(void* p, uint64_t n) { if(n > (uint64_t(1) << 34)) return; shClear((uint64_t) p, n); }
void __sx_free(void*) {}
void __sx_storec(void* p, uint64_t n)
{
	uint64_t a = (uint64_t) p;
	if((a >> 12) == ((a + n - 1) >> 12)) { Page* q = page(a, false); if(q) memset(&q->e[a & 4095], 0, n * 8); return; }
	shClear(a, n);
}
void __sx_store(int ty, void* p, uint64_t n, Expr* e)
{
	if(!e || e->op == CONST)
	{
		// constants of REAL mode are kept only when they differ from the concrete value
		if(!e || modeIEEE || e->sort != S_REAL) { shClear((uint64_t) p, n); return; }
	}
	if(e->sort == S_BOOL && kindOf(ty) == TK_INT && widthOf(ty) >= 8) e = bvExt(e, widthOf(ty), false);
	uint64_t a = (uint64_t) p;
	for(uint64_t i = 0; i < n; i++) shSet(a + i, enc(e, i, *(uint8_t*) (a + i)));
}
Expr* __sx_load(int ty, void* p, uint64_t n)
{
	uint64_t a = (uint64_t) p;
	uint64_t v0 = shGet(a);
	Expr* e = v0 ? dec(v0) : nullptr;
	bool full = e && ((v0 >> 8) & 255) == 0;
	bool any = v0 != 0;
	for(uint64_t i = 1; i < n; i++)
	{
		uint64_t v = shGet(a + i);
		if(v) any = true;
		if(!v || !e || dec(v) != e || ((v >> 8) & 255) != i) full = false;
	}
	if(!any) return nullptr;
	SITE();
	if(full)
	{
		if(e->sort == S_REAL || e->sort == S_FP)
		{
			if(e->sort == S_FP && !isFloatTy(ty)) return mk(FTOBV, S_BV, e->w, e);
			return e;
		}
		if(e->sort == S_BOOL) { if(widthOf(ty) == 1) return e; return bvExt(e, widthOf(ty), false); }
		if(isFloatTy(ty) && e->sort == S_BV && modeIEEE && e->w == (kindOf(ty) == TK_F32 ? 32 : 64)) return mk(FFROMBV, S_FP, e->w, e);
		int w = widthOf(ty);
		if(e->w == w) return e;
		if(w == 1) return toBool(bvExtract(e, 0, 1));
		if(e->w > w) return bvExtract(e, 0, w);
		return bvExt(e, w, false);
	}
	// mixed bytes: build a concatenation (bit-vectors only)
	if(isFloatTy(ty)) { leak("partial load of a floating-point value", nullptr, 0, 0); return nullptr; }
	Expr* r = nullptr;
	for(uint64_t i = 0; i < n; i++)
	{
		uint64_t v = shGet(a + i); Expr* b;
		if(!v) b = mkBV(8, *(uint8_t*) (a + i));
		else
		{
			Expr* s = dec(v); int k = (v >> 8) & 255;
			if(s->sort == S_REAL) { leak("byte access to a real", nullptr, 0, 0); return nullptr; }
			if(s->sort == S_FP) s = mk(FTOBV, S_BV, s->w, s);
			s = toBV1(s);
			if(s->w < 8) s = bvExt(s, 8, false);
			if(8 * k + 8 > s->w) b = mkBV(8, 0); else b = bvExtract(s, 8 * k, 8);
		}
		if(!r) r = b;
		else if(isConst(r) && isConst(b)) r = mkBV(r->w + 8, r->u | b->u << r->w);
		else r = mk(BCONCAT, S_BV, r->w + 8, b, r);
	}
	int w = widthOf(ty);
	if(w == 1) return toBool(bvExtract(r, 0, 1));
	if(r->w > w) r = bvExtract(r, 0, w);
	return isConst(r) ? nullptr : r;
}
void __sx_copy(void* d, void* s, uint64_t n)
{
	if(!n || d == s) return;
	uint64_t a = (uint64_t) s, b = (uint64_t) d;
	bool srcAny = false;
	for(uint64_t x = a & ~4095ull; x < a + n; x += 4096) if(page(x, false)) { srcAny = true; break; }
	if(!srcAny) { shClear(b, n); return; }
	vector<uint64_t> t(n);
	for(uint64_t i = 0; i < n; i++) t[i] = shGet(a + i);
	// destination bytes are about to become the source bytes
	for(uint64_t i = 0; i < n; i++)
	{
		if(t[i]) shSet(b + i, t[i]);
		else { Page* p = page(b + i, false); if(p) p->e[(b + i) & 4095] = 0; }
	}
}
void __sx_byval(void* d, void* s, uint64_t n) { if(s) __sx_copy(d, s, n); }
void __sx_setmem(void* d, Expr* s, uint64_t v, uint64_t n)
{
	if(!s) { __sx_clear(d, n); return; }
	for(uint64_t i = 0; i < n; i++) shSet((uint64_t) d + i, enc(s, 0, (uint8_t) v));
}

// ------------------------------------------------------------------ operations
// LLVM opcodes (18): Add 13 FAdd 14 Sub 15 FSub 16 Mul 17 FMul 18 UDiv 19 SDiv 20 FDiv 21 URem 22 SRem 23 FRem 24 Shl 25 LShr 26 AShr 27 And 28 Or 29 Xor 30
static Expr* fmodReal(Expr* a, Expr* b, double ca, double cb);
static bool decideReal(Expr* c, bool conc) { return decideExpr(c, conc); }
static Expr* realDiv(Expr* x, Expr* y, double cy)
{
	if(isConst(y) && *y->q == 0) { escape("division by zero"); return x; }
	if(!isConst(y))
	{
		Expr* z = rCmp(REQ, y, mkRealD(0));
		if(decideReal(z, cy == 0)) escape("division by zero");
	}
	return rDivE(x, y);
}
static Expr* infArith(int op, Expr* x, double other, bool otherIsRhs)
{
	// REAL mode, one operand symbolic and finite, the other +-inf or nan
	if(std::isnan(other)) return nullptr;
	switch(op)
	{
	case 14: case 16: return nullptr;                   // x +- inf: the concrete infinity
	case 18: { bool neg = decideExpr(rCmp(RLT, x, mkRealD(0)), false); (void) neg; escape("product with infinity"); return nullptr; }
	case 21: if(otherIsRhs) return mkRealD(0); escape("infinity divided"); return nullptr;
	}
	return nullptr;
}
Expr* __sx_bin(int op, int ty, Expr* sa, uint64_t a, Expr* sb, uint64_t b)
{
	if(!sa && !sb) return nullptr;
	SITE();
	if(isFloatTy(ty))
	{
		Expr* x = sa ? sa : lift(ty, a); Expr* y = sb ? sb : lift(ty, b);
		if(modeIEEE)
		{
			if(x->sort != S_FP || y->sort != S_FP) { leak("fp op on non-fp", nullptr, 0, 0); return nullptr; }
			Op o = op == 14 ? FADD : op == 16 ? FSUB : op == 18 ? FMUL : op == 21 ? FDIV : FREM;
			if(o == FREM) { leak("frem", nullptr, 0, 0); return nullptr; }
			if(isConst(x) && isConst(y) && x->w == 64) { double p = payloadD(ty, x->u), q = payloadD(ty, y->u), r = op == 14 ? p + q : op == 16 ? p - q : op == 18 ? p * q : p / q; uint64_t u; memcpy(&u, &r, 8); return mkFP(64, u); }
			return mk(o, S_FP, x->w, x, y);
		}
		if(!x) return infArith(op, y, payloadD(ty, a), false);
		if(!y) return infArith(op, x, payloadD(ty, b), true);
		if(x->sort != S_REAL || y->sort != S_REAL) { leak("real op on bits", nullptr, 0, 0); return nullptr; }
		switch(op)
		{
		case 14: return rAdd(x, y);
		case 16: return rSub(x, y);
		case 18: return rMul(x, y);
		case 21: return realDiv(x, y, payloadD(ty, b));
		case 24: return fmodReal(x, y, payloadD(ty, a), payloadD(ty, b));
		}
		return nullptr;
	}
	if(kindOf(ty) == TK_BIG) { leak("wide integer", nullptr, 0, 0); return nullptr; }
	// integer ops applied to the bits of a real (REAL mode): sign-bit idioms
	if((sa && sa->sort == S_REAL) || (sb && sb->sort == S_REAL))
	{
		Expr* x = (sa && sa->sort == S_REAL) ? sa : sb; uint64_t m = x == sa ? b : a; uint64_t cx = x == sa ? a : b;
		double cd; memcpy(&cd, &cx, 8);
		if(!(sa && sb))
		{
			if(op == 28 && m == 0x7fffffffffffffffull) { bool neg = decideExpr(rCmp(RLT, x, mkRealD(0)), cd < 0); return neg ? rNeg(x) : x; }
			if(op == 30 && m == 0x8000000000000000ull) return rNeg(x);
			if(op == 28 && m == 0x8000000000000000ull) { bool neg = decideExpr(rCmp(RLT, x, mkRealD(0)), cd < 0); return mkBV(64, neg ? m : 0); }
		}
		leak("bit operation on a real", nullptr, 0, 0);
		return nullptr;
	}
	Expr* x = sa ? sa : lift(ty, a); Expr* y = sb ? sb : lift(ty, b);
	if(widthOf(ty) == 1)
	{
		x = toBool(x); y = toBool(y);
		switch(op) { case 28: case 17: return bAnd(x, y); case 29: return bOr(x, y); case 30: case 13: case 15: if(isConst(y)) return y->u ? bNot(x) : x; if(isConst(x)) return x->u ? bNot(y) : y; return mkIte(x, bNot(y), y); }
		return nullptr;
	}
	x = toBV1(x); y = toBV1(y);
	if(x->w != y->w) { leak("width mismatch", nullptr, 0, 0); return nullptr; }
	Op o;
	switch(op)
	{
	case 13: o = BADD; break; case 15: o = BSUB; break; case 17: o = BMUL; break; case 19: o = BUDIV; break; case 20: o = BSDIV; break;
	case 22: o = BUREM; break; case 23: o = BSREM; break; case 25: o = BSHL; break; case 26: o = BLSHR; break; case 27: o = BASHR; break;
	case 28: o = BAND; break; case 29: o = BOR; break; default: o = BXOR; break;
	}
	return bvOp(o, x, y);
}
Expr* __sx_fneg(int ty, Expr* s, uint64_t v)
{
	if(!s) return nullptr;
	SITE();
	if(modeIEEE) return mk(FNEG, S_FP, s->w, s);
	return rNeg(s);
}
// FCmp predicates: 0 false 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une 15 true; ICmp: 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
Expr* __sx_cmp(int pred, int ty, Expr* sa, uint64_t a, Expr* sb, uint64_t b)
{
	if(!sa && !sb) return nullptr;
	SITE();
	if(pred < 16)
	{
		if(pred == 0) return mkBool(false);
		if(pred == 15) return mkBool(true);
		Expr* x = sa ? sa : lift(ty, a); Expr* y = sb ? sb : lift(ty, b);
		if(modeIEEE)
		{
			Expr* un = bOr(mk(FISNAN, S_BOOL, 1, x), mk(FISNAN, S_BOOL, 1, y));
			switch(pred)
			{
			case 1: return mk(FEQ, S_BOOL, 1, x, y);
			case 2: return mk(FLT, S_BOOL, 1, y, x);
			case 3: return mk(FLE, S_BOOL, 1, y, x);
			case 4: return mk(FLT, S_BOOL, 1, x, y);
			case 5: return mk(FLE, S_BOOL, 1, x, y);
			case 6: return bAnd(bNot(un), bNot(mk(FEQ, S_BOOL, 1, x, y)));
			case 7: return bNot(un);
			case 8: return un;
			case 9: return bOr(un, mk(FEQ, S_BOOL, 1, x, y));
			case 10: return bNot(mk(FLE, S_BOOL, 1, x, y));
			case 11: return bNot(mk(FLT, S_BOOL, 1, x, y));
			case 12: return bNot(mk(FLE, S_BOOL, 1, y, x));
			case 13: return bNot(mk(FLT, S_BOOL, 1, y, x));
			case 14: return bNot(mk(FEQ, S_BOOL, 1, x, y));
			}
		}
		int p = pred & 7;
		if(!x || !y)
		{
			// comparison of a finite symbolic value with inf/nan
			double c = x ? payloadD(ty, b) : payloadD(ty, a);
			if(std::isnan(c)) return mkBool(pred >= 8);
			if(pred == 7) return mkBool(true);
			if(pred == 8) return mkBool(false);
			bool less = x ? c > 0 : c < 0;      // x < y ?
			switch(p) { case 1: return mkBool(false); case 2: case 3: return mkBool(!less); case 4: case 5: return mkBool(less); case 6: return mkBool(true); }
		}
		if(pred == 7) return mkBool(true);
		if(pred == 8) return mkBool(false);
		if(x->sort != S_REAL || y->sort != S_REAL) { leak("real compare on bits", nullptr, 0, 0); return nullptr; }
		switch(p)
		{
		case 1: return rCmp(REQ, x, y);
		case 2: return rCmp(RLT, y, x);
		case 3: return rCmp(RLE, y, x);
		case 4: return rCmp(RLT, x, y);
		case 5: return rCmp(RLE, x, y);
		case 6: return bNot(rCmp(REQ, x, y));
		}
		return nullptr;
	}
	if((sa && sa->sort == S_REAL) || (sb && sb->sort == S_REAL))
	{
		Expr* x = sa ? sa : nullptr; Expr* y = sb ? sb : nullptr;
		if(!x || !y)
		{
			uint64_t cb = x ? b : a; Expr* s = x ? x : y;
			if(x && pred == 40 && cb == 0) return rCmp(RLT, s, mkRealD(0));              // sign bit set
			if(x && pred == 38 && cb == ~0ull) return rCmp(RLE, mkRealD(0), s);
			if(pred == 32 || pred == 33)
			{
				double d; memcpy(&d, &cb, 8);
				if(std::isfinite(d)) { Expr* e = rCmp(REQ, s, mkRealD(d)); return pred == 32 ? e : bNot(e); }
				return mkBool(pred == 33);
			}
		}
		else if((pred == 32 || pred == 33) && x->sort == S_REAL && y->sort == S_REAL) { Expr* e = rCmp(REQ, x, y); return pred == 32 ? e : bNot(e); }
		leak("bit comparison of a real", nullptr, 0, 0);
		return nullptr;
	}
	Expr* x = sa ? sa : lift(ty, a); Expr* y = sb ? sb : lift(ty, b);
	if(widthOf(ty) == 1 && kindOf(ty) == TK_INT)
	{
		x = toBool(x); y = toBool(y);
		Expr* xorE = isConst(y) ? (y->u ? bNot(x) : x) : isConst(x) ? (x->u ? bNot(y) : y) : mkIte(x, bNot(y), y);
		if(pred == 33) return xorE;
		if(pred == 32) return bNot(xorE);
	}
	x = toBV1(x); y = toBV1(y);
	if(x->w != y->w) { leak("width mismatch", nullptr, 0, 0); return nullptr; }
	switch(pred)
	{
	case 32: return bvCmp(BEQ, x, y);
	case 33: return bNot(bvCmp(BEQ, x, y));
	case 34: return bvCmp(BULT, y, x);
	case 35: return bvCmp(BULE, y, x);
	case 36: return bvCmp(BULT, x, y);
	case 37: return bvCmp(BULE, x, y);
	case 38: return bvCmp(BSLT, y, x);
	case 39: return bvCmp(BSLE, y, x);
	case 40: return bvCmp(BSLT, x, y);
	case 41: return bvCmp(BSLE, x, y);
	}
	return nullptr;
}
// truncation towards zero by enumeration
static Expr* truncCell(Expr* x, int64_t n)
{
	if(n > 0) return bAnd(rCmp(RLE, mkReal(Q((double) n)), x), rCmp(RLT, x, mkReal(Q((double) n + 1))));
	if(n < 0) return bAnd(rCmp(RLT, mkReal(Q((double) n - 1)), x), rCmp(RLE, x, mkReal(Q((double) n))));
	return bAnd(rCmp(RLT, mkRealD(-1), x), rCmp(RLT, x, mkRealD(1)));
}
static Expr* floorCell(Expr* x, int64_t n) { return bAnd(rCmp(RLE, mkReal(Q((double) n)), x), rCmp(RLT, x, mkReal(Q((double) n + 1)))); }
static Expr* ceilCell(Expr* x, int64_t n) { return bAnd(rCmp(RLT, mkReal(Q((double) n - 1)), x), rCmp(RLE, x, mkReal(Q((double) n)))); }
static Expr* roundCell(Expr* x, int64_t n) { return bAnd(rCmp(RLE, mkReal(Q((double) n - 0.5)), x), rCmp(RLT, x, mkReal(Q((double) n + 0.5)))); }
// Cast opcodes: Trunc 38 ZExt 39 SExt 40 FPToUI 41 FPToSI 42 UIToFP 43 SIToFP 44 FPTrunc 45 FPExt 46 PtrToInt 47 IntToPtr 48 BitCast 49
Expr* __sx_cast(int op, int st, int dt, Expr* s, uint64_t v)
{
	if(!s) return nullptr;
	SITE();
	int dw = widthOf(dt);
	switch(op)
	{
	case 38:
		if(s->sort == S_REAL) { leak("truncation of real bits", nullptr, 0, 0); return nullptr; }
		s = toBV1(s); return dw == 1 ? toBool(bvExtract(s, 0, 1)) : bvExtract(s, 0, dw);
	case 39: if(kindOf(dt) == TK_BIG) { leak("wide integer", nullptr, 0, 0); return nullptr; } return bvExt(s, dw, false);
	case 40: if(kindOf(dt) == TK_BIG) { leak("wide integer", nullptr, 0, 0); return nullptr; } return bvExt(s, dw, true);
	case 41: case 42:
		if(modeIEEE) return mk(op == 42 ? FTOSI : FTOUI, S_BV, dw, s);
		{
			if(isConst(s)) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), s->q->get_num_mpz_t(), s->q->get_den_mpz_t()); return mkBV(dw, (uint64_t) z.get_si()); }
			double d = payloadD(st, v); int64_t n = std::isfinite(d) && std::fabs(d) < 9e15 ? (int64_t) d : 0;
			int64_t r = concretizeBy([&](int64_t k) { return truncCell(s, k); }, n);
			return mkBV(dw, (uint64_t) r);
		}
	case 43: case 44:
	{
		if(modeIEEE) return mk(op == 44 ? FSITOFP : FUITOFP, S_FP, kindOf(dt) == TK_F32 ? 32 : 64, toBV1(s));
		if(s->sort == S_BOOL) { bool d = decideExpr(s, v & 1); return mkRealD(d ? (op == 44 ? -1 : 1) : 0); }
		if(isConst(s)) return mkReal(Q((double) (op == 44 ? sx(s->u, s->w) : (int64_t) s->u)));
		int w = s->w;
		int64_t k = concretizeBy([&](int64_t x) { return bvCmp(BEQ, s, mkBV(w, (uint64_t) x)); }, op == 44 ? sx(v, w) : (int64_t) v);
		return mkReal(Q((double) k));
	}
	case 45: case 46:
		if(modeIEEE) { int w = kindOf(dt) == TK_F32 ? 32 : 64; if(w == s->w) return s; return mk(FEXT, S_FP, w, s); }
		return s;
	case 49:
		if(modeIEEE)
		{
			if(isFloatTy(st) && !isFloatTy(dt)) return mk(FTOBV, S_BV, s->w, s);
			if(!isFloatTy(st) && isFloatTy(dt)) return s->op == FTOBV ? s->a : mk(FFROMBV, S_FP, s->w, s);
			return s;
		}
		if(isFloatTy(dt) && s->sort == S_BV)
		{
			if(isConst(s)) { double d = payloadD(dt, s->u); return std::isfinite(d) ? mkRealD(d) : nullptr; }
			leak("bits to real", nullptr, 0, 0); return nullptr;
		}
		return s;
	}
	leak("cast", nullptr, 0, 0);
	return nullptr;
}
Expr* __sx_select(Expr* c, int cv, int ty, Expr* st, uint64_t vt, Expr* sf, uint64_t vf)
{
	if(!c) return cv ? st : sf;
	SITE();
	if((st && st->sort == S_REAL) || (sf && sf->sort == S_REAL)) return decideExpr(c, cv) ? st : sf;
	Expr* x = st ? st : lift(ty, vt); Expr* y = sf ? sf : lift(ty, vf);
	c = toBool(c);
	if(widthOf(ty) == 1) { x = toBool(x); y = toBool(y); } else { x = toBV1(x); y = toBV1(y); if(x->w < widthOf(ty)) x = bvExt(x, widthOf(ty), false); if(y->w < widthOf(ty)) y = bvExt(y, widthOf(ty), false); }
	return mkIte(c, x, y);
}
int __sx_decide(Expr* c, int conc)
{
	if(!c) return conc & 1;
	SITE();
	return decideExpr(c, conc & 1);
}
uint64_t __sx_conc(int ty, Expr* s, uint64_t v)
{
	if(!s) return v;
	SITE();
	if(isConst(s)) return s->sort == S_REAL ? v : s->u;
	if(s->sort == S_REAL || s->sort == S_FP) { leak("concretised real bits", nullptr, 0, 0); return v; }
	if(s->sort == S_BOOL) return decideExpr(s, v & 1);
	int w = s->w;
	int64_t r = concretizeBy([&](int64_t x) { return bvCmp(BEQ, s, mkBV(w, (uint64_t) x)); }, sx(v, w));
	return w < 64 ? (uint64_t) r & ((uint64_t(1) << w) - 1) : (uint64_t) r;
}
void __sx_leak(const char* what, Expr* s, int ty, uint64_t v)
{
	if(!s || isConst(s)) return;
	leak(what, s, ty, v);
}
Expr* __sx_intr2(int id, int ty, Expr* sa, uint64_t a, Expr* sb, uint64_t b)
{
	if(!sa && !sb) return nullptr;
	SITE();
	if(id == 10)
	{
		// is_fpclass(mask b): REAL values are finite; ignore subnormal/zero distinctions
		if(modeIEEE)
		{
			Expr* r = mkBool(false);
			if((b & 3) == 3) r = bOr(r, mk(FISNAN, S_BOOL, 1, sa));
			if((b & 0x204) == 0x204) r = bOr(r, mk(FISINF, S_BOOL, 1, sa));
			if((b & 0x1f8) == 0x1f8) r = bOr(r, bNot(bOr(mk(FISNAN, S_BOOL, 1, sa), mk(FISINF, S_BOOL, 1, sa))));
			return r;
		}
		uint64_t fin = b & 0x1f8;
		if(fin == 0x1f8) return mkBool(true);
		if(fin == 0) return mkBool(false);
		uint64_t neg = 0x8 | 0x10 | 0x20;
		if(fin == neg) return rCmp(RLT, sa, mkRealD(0));
		if(fin == (0x40 | 0x20)) return rCmp(REQ, sa, mkRealD(0));
		leak("is_fpclass", nullptr, 0, 0);
		return nullptr;
	}
	Expr* x = sa ? sa : lift(ty, a); Expr* y = id == 5 ? nullptr : (sb ? sb : lift(ty, b));
	x = toBV1(x); if(y) y = toBV1(y);
	switch(id)
	{
	case 1: return mkIte(bvCmp(BSLT, x, y), y, x);
	case 2: return mkIte(bvCmp(BSLT, x, y), x, y);
	case 3: return mkIte(bvCmp(BULT, x, y), y, x);
	case 4: return mkIte(bvCmp(BULT, x, y), x, y);
	case 5: return mkIte(bvCmp(BSLT, x, mkBV(x->w, 0)), bvOp(BSUB, mkBV(x->w, 0), x), x);
	case 6: { Expr* s = bvOp(BADD, x, y); return mkIte(bvCmp(BULT, s, x), mkBV(x->w, ~0ull), s); }
	case 7: return mkIte(bvCmp(BULT, x, y), mkBV(x->w, 0), bvOp(BSUB, x, y));
	}
	return nullptr;
}
static Expr* fmodReal(Expr* a, Expr* b, double ca, double cb)
{
	if(isConst(b) && *b->q == 0) { escape("fmod by zero"); return nullptr; }
	Expr* q = realDiv(a, b, cb);
	double d = ca / cb; int64_t n = std::isfinite(d) && std::fabs(d) < 9e15 ? (int64_t) d : 0;
	int64_t k = concretizeBy([&](int64_t x) { return truncCell(q, x); }, n);
	return rSub(a, rMul(mkReal(Q((double) k)), b));
}
static Expr* powInt(Expr* x, long n, double cx)
{
	bool neg = n < 0; if(neg) n = -n;
	Expr* r = mkRealD(1);
	for(long i = 0; i < n; i++) r = rMul(r, x);
	return neg ? realDiv(mkRealD(1), r, std::pow(cx, (double) n)) : r;
}
static Expr* rUF1(int id, Expr* x) { return mk(RUF, S_REAL, 0, x, nullptr, nullptr, id); }
Expr* __sx_math(int id, int ty, int ty2, Expr* sa, uint64_t a, Expr* sb, uint64_t b, Expr* sc, uint64_t c)
{
	if(!sa && !sb && !sc) return nullptr;
	SITE();
	double ca = payloadD(ty, a), cb = ty2 && isFloatTy(ty2) ? payloadD(ty2, b) : 0;
	if(modeIEEE)
	{
		Expr* x = sa ? sa : lift(ty, a); Expr* y = id >= 40 && isFloatTy(ty2) ? (sb ? sb : lift(ty2, b)) : nullptr;
		int w = x->w;
		switch(id)
		{
		case 1: return mk(FSQRT, S_FP, w, x);
		case 7: return mk(FABS, S_FP, w, x);
		case 8: case 9: case 10: case 11: case 12: return mk(FRND, S_FP, w, x, 0, 0, id);
		case 44: return mk(FMIN, S_FP, w, x, y);
		case 45: return mk(FMAX, S_FP, w, x, y);
		case 60: return mk(FFMA, S_FP, w, x, y, sc ? sc : lift(ty, c));
		default: notes.insert("uninterpreted libm function in IEEE mode, id " + std::to_string(id)); return mk(FUF, S_FP, w, x, y, nullptr, id);
		}
	}
	Expr* x = sa ? sa : lift(ty, a);
	Expr* y = id >= 40 && isFloatTy(ty2) ? (sb ? sb : lift(ty2, b)) : nullptr;
	if(!x || (id >= 40 && isFloatTy(ty2) && !y)) { // inf/nan operand
		if(id == 44 || id == 45)
		{
			double k = x ? cb : ca; Expr* s = x ? x : y;
			if(std::isnan(k)) return s;
			return (id == 44) == (k > 0) ? s : nullptr;
		}
		escape("non-finite libm operand"); return nullptr;
	}
	auto zero = [] { return mkRealD(0); };
	auto one = [] { return mkRealD(1); };
	auto isNeg = [&](Expr* e, double cv) { return decideExpr(rCmp(RLT, e, zero()), cv < 0); };
	auto integral = [&](std::function<Expr*(Expr*, int64_t)> cell, double cv) {
			int64_t n = std::isfinite(cv) && std::fabs(cv) < 9e15 ? (int64_t) cv : 0;
			return mkReal(Q((double) concretizeBy([&](int64_t k) { return cell(x, k); }, n)));
		};
	switch(id)
	{
	case 1: if(isNeg(x, ca)) { escape("sqrt of a negative value"); } return rSqrtE(x);
	case 2: return rConstFold(mk(RSIN, S_REAL, 0, x));
	case 3: return rConstFold(mk(RCOS, S_REAL, 0, x));
	case 4: { Expr* k = rConstFold(mk(RCOS, S_REAL, 0, x)); return realDiv(rConstFold(mk(RSIN, S_REAL, 0, x)), k, std::cos(ca)); }
	case 5: return rConstFold(mk(REXP, S_REAL, 0, x));
	case 6: if(decideExpr(rCmp(RLE, x, zero()), ca <= 0)) escape("log of a non-positive value"); return rConstFold(mk(RLOG, S_REAL, 0, x));
	case 7: return isNeg(x, ca) ? rNeg(x) : x;
	case 8: return integral(floorCell, std::floor(ca));
	case 9: return integral(ceilCell, std::ceil(ca));
	case 10: return integral(truncCell, std::trunc(ca));
	case 11: case 12: return integral(roundCell, std::floor(ca + 0.5));
	case 13: { Expr* e = mk(REXP, S_REAL, 0, x); Expr* f = mk(REXP, S_REAL, 0, rNeg(x)); return rMul(mkRealD(0.5), rSub(e, f)); }
	case 14: { Expr* e = mk(REXP, S_REAL, 0, x); Expr* f = mk(REXP, S_REAL, 0, rNeg(x)); return rMul(mkRealD(0.5), rAdd(e, f)); }
	case 15: { Expr* e = mk(REXP, S_REAL, 0, rMul(mkRealD(2), x)); return rDivE(rSub(e, one()), rAdd(e, one())); }
	case 16: case 17:
		if(decideExpr(bOr(rCmp(RLT, x, mkRealD(-1)), rCmp(RLT, one(), x)), std::fabs(ca) > 1)) escape("asin/acos domain");
		return mk(id == 16 ? RASIN : RACOS, S_REAL, 0, x);
	case 18: return mk(RATAN, S_REAL, 0, x);
	case 19: case 22:
		if(decideExpr(rCmp(RLE, x, zero()), ca <= 0)) escape("log of a non-positive value");
		return rMul(rConstFold(mk(RLOG, S_REAL, 0, x)), mkRealD(id == 19 ? 1 / std::log(10.0) : 1 / std::log(2.0)));
	case 21: return mk(REXP, S_REAL, 0, rMul(x, mkRealD(std::log(2.0))));
	case 23: { Expr* z = rAdd(one(), x); if(decideExpr(rCmp(RLE, z, zero()), ca <= -1)) escape("log1p domain"); return mk(RLOG, S_REAL, 0, z); }
	case 24: return rSub(mk(REXP, S_REAL, 0, x), one());
	case 20: case 25: case 26: case 27: case 28: case 29: case 30: case 31: notes.insert("uninterpreted libm function id " + std::to_string(id)); return rUF1(id, x);
	case 40:
		if(isConst(y))
		{
			Q q = *y->q;
			if(q.get_den() == 1 && abs(q.get_num()) <= 64) return powInt(x, q.get_num().get_si(), ca);
			if(q.get_den() == 2 && abs(q.get_num()) <= 64)
			{
				if(isNeg(x, ca)) escape("pow of a negative value");
				return powInt(rSqrtE(x), q.get_num().get_si(), std::sqrt(ca));
			}
		}
		if(decideExpr(rCmp(RLE, x, zero()), ca <= 0)) { if(decideExpr(bAnd(rCmp(REQ, x, zero()), rCmp(RLT, zero(), y)), ca == 0 && cb > 0)) return zero(); escape("pow domain"); }
		return mk(RPOW, S_REAL, 0, x, y);
	case 41:
		if(decideExpr(bAnd(rCmp(REQ, x, zero()), rCmp(REQ, y, zero())), ca == 0 && cb == 0)) return zero();
		return mk(RATAN2, S_REAL, 0, x, y);
	case 42: return rSqrtE(rAdd(rMul(x, x), rMul(y, y)));
	case 43: return fmodReal(x, y, ca, cb);
	case 50: { Expr* q = realDiv(x, y, cb); double d = ca / cb; int64_t k = concretizeBy([&](int64_t n) { return roundCell(q, n); }, std::isfinite(d) && std::fabs(d) < 9e15 ? (int64_t) std::floor(d + 0.5) : 0); return rSub(x, rMul(mkReal(Q((double) k)), y)); }
	case 44: return decideExpr(rCmp(RLE, x, y), ca <= cb) ? x : y;
	case 45: return decideExpr(rCmp(RLE, x, y), ca <= cb) ? y : x;
	case 46:
	{
		bool ny = isNeg(y, cb), nx = isNeg(x, ca);
		return ny == nx ? x : rNeg(x);
	}
	case 47: return decideExpr(rCmp(RLT, y, x), cb < ca) ? rSub(x, y) : zero();
	case 48: return powInt(x, (int) b, ca);
	case 49: return rMul(x, mkReal(Q(std::ldexp(1.0, (int) b))));
	case 60: { Expr* z = sc ? sc : lift(ty, c); if(!z) return nullptr; return rAdd(rMul(x, y), z); }
	}
	return nullptr;
}
} // extern "C"

// ------------------------------------------------------------------ harness API
static Expr* takeArg(int i, void* f)
{
	if(token == f) return __sx_args[i];
	return nullptr;
}
struct HarnessDef { string name; void (*fn)(); int ieee; string bounds; };
static vector<HarnessDef>& harnesses() { static vector<HarnessDef> v; return v; }
static std::map<string, int> nameSeen;
static string uniq(const char* n) { int k = nameSeen[n]++; return k ? string(n) + "#" + std::to_string(k) : string(n); }
static double defVal(const string& n, double lo, double hi)
{
	unsigned h = 2166136261u;
	for(char c : n) h = (h ^ (unsigned char) c) * 16777619u;
	double f = 0.25 + 0.5 * ((h >> 8) % 1000) / 1000.0;
	return lo + (hi - lo) * f;
}
static vector<string> inputOrder;
struct AssertStat { long seen = 0, discharged = 0, constant = 0, spurious = 0, unknown = 0; };
static std::map<string, AssertStat> asserts;
static string modelText(const std::map<string, string>& m) { string s; for(auto& kv : m) s += kv.first + "\t" + kv.second + "\n"; return s; }
static std::map<string, string> fullModel() { return curModel; }
static int replaySeq = 0; static std::set<string> lastKnownLines;
// run the native executable on a model; returns exit status and first failure line
static int replay(const std::map<string, string>& m, string& line, string& file)
{
	if(replayExe.empty()) return -1;
	file = workDir + "/" + harnessName + "." + std::to_string(getpid()) + "." + std::to_string(replaySeq++) + ".model";
	FILE* f = fopen(file.c_str(), "w"); if(!f) return -1;
	string t = modelText(m); fputs(t.c_str(), f); fclose(f);
	int pf[2]; if(pipe(pf)) return -1;
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if(p == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(pf[0]); dup2(pf[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
		alarm(20); signal(SIGALRM, SIG_DFL);
		if(chdir(workDir.c_str())) {}
		execl(replayExe.c_str(), replayExe.c_str(), harnessName.c_str(), file.c_str(), (char*) nullptr);
		_exit(99);
	}
	close(pf[1]);
	string out; char b[4096]; ssize_t n;
	while((n = read(pf[0], b, sizeof b)) > 0) if(out.size() < 1000000) out.append(b, n);
	close(pf[0]);
	int st; waitpid(p, &st, 0);
	std::istringstream is(out); string l; line.clear();
	lastKnownLines.clear();
	while(std::getline(is, l)) { if(l.compare(0, 8, "SXKNOWN ") == 0) lastKnownLines.insert(l.substr(8)); else if(l.compare(0, 7, "SXFAIL ") == 0 && line.empty()) line = l.substr(7); }
	if(WIFSIGNALED(st)) { if(WTERMSIG(st) == SIGALRM) return 98; line = "crash: signal " + std::to_string(WTERMSIG(st)) + " " + line; return 128 + WTERMSIG(st); }
	return WEXITSTATUS(st);
}
static std::set<string> violated, knownMsgs, knownSeen;
static bool tryReplay(const std::map<string, string>& m, const string& msg, const string& how)
{
	string line, file;
	int rc = replay(m, line, file);
	cnt["replays"]++;
	if(knownMsgs.count(msg) && rc == 0)
	{
		if(lastKnownLines.count(msg)) { if(knownSeen.insert(msg).second) emit("KNOWN\t" + esc(msg)); violated.insert(msg); unlink(file.c_str()); return true; }
		unlink(file.c_str());
		return false;
	}
	if(rc == 42 || rc >= 128)
	{
		emit("VIOL\t" + esc(msg) + "\t" + esc(line) + "\t" + how + "\t" + file + "\t" + std::to_string(rc));
		violated.insert(msg);
		return true;
	}
	unlink(file.c_str());
	return false;
}
static vector<std::pair<int, double>> pinsFor(Expr* goal, int which)
{
	// pin the variables of transcendental atoms; which = 0: current model values, else other points of the range
	std::set<int> vs;
	for(auto& A : atoms)
	{
		if(A.kind != A_SIN && A.kind != A_COS && A.kind != A_EXP && A.kind != A_LOG && A.kind != A_ANGLE && A.kind != A_POW) continue;
		std::function<void(const Poly&)> coll = [&](const Poly& p) { for(auto& t : p.t) for(auto& f : t.first) { Atom& B = atoms[f.first]; if(B.kind == A_VAR) vs.insert(B.e->u); else { coll(B.p); if(B.sinP) coll(*B.sinP); if(B.cosP) coll(*B.cosP); } } };
		coll(A.p); if(A.sinP) { coll(*A.sinP); coll(*A.cosP); }
		if(A.kind == A_POW && A.e) { if(auto* p = poly(A.e->a)) coll(*p); if(auto* p = poly(A.e->b)) coll(*p); }
	}
	vector<std::pair<int, double>> r;
	for(int v : vs)
	{
		double x = vars[v].val;
		if(which > 0) { double f = which == 1 ? 0.31 : which == 2 ? 0.77 : 0.05; x = vars[v].lo + (vars[v].hi - vars[v].lo) * f; }
		r.push_back({v, x});
	}
	return r;
}
static vector<std::pair<int, double>> pinsAllBut(Expr* goal, int keep)
{
	vector<std::pair<int, double>> r; int n = 0;
	for(int v : varsOf(goal)) { if(vars[v].e->sort != S_REAL) continue; if(n++ != keep) r.push_back({v, vars[v].val}); }
	return r;
}
static void checkGoal(Expr* cond, bool conc, const string& msg, Expr* strong1, Expr* strong2)
{
	AssertStat& S = asserts[msg];
	S.seen++;
	if(finished) return;
	cond = toBool(cond);
	if(!conc && !diverged && !violated.count(msg))
	{
		// the path's own (solver-generated) model already falsifies it
		if(tryReplay(fullModel(), msg, "path-model")) return;
	}
	if(isConst(cond) && cond->u) { S.discharged++; S.constant++; return; }
	if(violated.count(msg)) return;
	Expr* neg = bNot(cond);
	Answer a = solve(neg, qTimeout);
	if(a.r == UNSAT) { S.discharged++; return; }
	if(a.r == SAT)
	{
		for(Expr* st : {strong2, strong1})
			if(st) { Answer b = solve(st, 2); if(b.r == SAT && tryReplay(b.model, msg, "solver")) return; }
		if(tryReplay(a.model, msg, "solver")) return;
		Answer b = solve(robust(neg, 1e-7), 2);
		if(b.r == SAT && tryReplay(b.model, msg, "solver")) return;
	}
	// refine / search with some inputs pinned
	bool allPinUnsat = true;
	for(int w = 0; w < 4; w++)
	{
		auto pins = pinsFor(neg, w);
		if(pins.empty()) { allPinUnsat = false; break; }
		Expr* g = strong1 ? strong1 : neg;
		Answer b = solve(g, 3, true, pins);
		if(b.r == SAT) { allPinUnsat = false; if(tryReplay(b.model, msg, "solver-pinned")) return; }
		if(b.r == UNKNOWN) allPinUnsat = false;
		if(now() > pathDeadline) break;
	}
	(void) allPinUnsat;
	int nv = 0; for(int v : varsOf(neg)) if(vars[v].e->sort == S_REAL) nv++;
	if(!modeIEEE)
		for(int k = 0; k < std::min(nv, 6); k++)
		{
			Answer b = solve(neg, 1, true, pinsAllBut(neg, k));
			if(b.r == SAT && tryReplay(b.model, msg, "solver-pinned")) return;
			if(now() > pathDeadline) break;
		}
	if(a.r == SAT) { S.spurious++; }
	else S.unknown++;
	if(getenv("SX_DEBUG")) fprintf(stderr, "[sx] %s: %s (%s)", harnessName.c_str(), msg.c_str(), a.r == SAT ? "spurious" : "unknown");
	if(getenv("SX_DEBUG")) { for(auto& kv : a.model) fprintf(stderr, " %s=%s", kv.first.c_str(), kv.second.c_str()); for(auto& n : inputOrder) fprintf(stderr, " [%s=%s]", n.c_str(), curModel[n].c_str()); fprintf(stderr, "\n"); }
}
extern "C" {
double sx_double(const char* name, double lo, double hi)
{
	token = nullptr;
	string n = uniq(name);
	VarInfo v; v.name = n; v.lo = lo; v.hi = hi; v.isInt = false; v.aux = false; v.ival = 0;
	auto it = curModel.find(n);
	v.val = it == curModel.end() ? defVal(n, lo, hi) : strtod(it->second.c_str(), nullptr);
	if(v.val < lo) v.val = lo;
	if(v.val > hi) v.val = hi;
	curModel[n] = fmtD(v.val);
	v.e = nullptr; vars.push_back(v);
	Expr* e = mk(VAR, modeIEEE ? S_FP : S_REAL, modeIEEE ? 64 : 0, 0, 0, 0, vars.size() - 1);
	vars.back().e = e;
	inputOrder.push_back(n);
	__sx_rets[0] = e; rtoken = (void*) sx_double;
	return v.val;
}
static Expr* intVar(const char* name, int64_t lo, int64_t hi, int w, int64_t& val)
{
	string n = uniq(name);
	VarInfo v; v.name = n; v.ilo = lo; v.ihi = hi; v.lo = lo; v.hi = hi; v.isInt = true; v.aux = false; v.val = 0;
	auto it = curModel.find(n);
	v.ival = it == curModel.end() ? lo : strtoll(it->second.c_str(), nullptr, 10);
	v.val = v.ival;
	curModel[n] = std::to_string(v.ival);
	v.e = nullptr; vars.push_back(v);
	Expr* e = mk(VAR, S_BV, w, 0, 0, 0, vars.size() - 1);
	vars.back().e = e;
	inputOrder.push_back(n);
	val = v.ival;
	return e;
}
int64_t sx_int(const char* name, int64_t lo, int64_t hi)
{
	token = nullptr;
	int64_t val; Expr* e = intVar(name, lo, hi, 64, val);
	__sx_rets[0] = e; rtoken = (void*) sx_int;
	return val;
}
int sx_choose(const char* name, int lo, int hi)
{
	token = nullptr;
	int64_t val; Expr* e = intVar(name, lo, hi, 64, val);
	// every value of the range is feasible: enumerate without the solver
	int64_t r = concretizeBy([&](int64_t x) { return bvCmp(BEQ, e, mkBV(64, (uint64_t) x)); }, val);
	rtoken = nullptr;
	return (int) r;
}
void sx_assume(bool c)
{
	Expr* s = takeArg(0, (void*) sx_assume); token = nullptr;
	if(!s) { if(!c) finishPath("assume", ""); return; }
	s = toBool(s);
	if(isConst(s)) { if(!s->u) finishPath("assume", ""); return; }
	if(c && !diverged) { addPC(s); return; }
	if(c) { addPC(s); return; }
	Answer a = solveRobust(s, qTimeout);
	if(a.r == UNSAT) finishPath("assume", "");
	if(a.r == SAT && curAssumeTries < 4) { emit("ITEM\t" + serItem(taken, a.model, curMaybe, curAssumeTries + 1)); finishPath("retry", ""); }
	diverged = true; addPC(s);
}
void sx_assert(bool c, const char* msg)
{
	Expr* s = takeArg(0, (void*) sx_assert); token = nullptr;
	if(!s) s = mkBool(c);
	checkGoal(s, c, msg, nullptr, nullptr);
}
void sx_close(double a, double b, double tol, const char* msg)
{
	bool mine = token == (void*) sx_close;
	Expr *x = mine ? __sx_args[0] : nullptr, *y = mine ? __sx_args[1] : nullptr, *t = mine ? __sx_args[2] : nullptr;
	token = nullptr;
	bool conc = std::fabs(a - b) <= tol;
	int dty = (TK_F64 << 8) | 64; uint64_t ua, ub, ut; memcpy(&ua, &a, 8); memcpy(&ub, &b, 8); memcpy(&ut, &tol, 8);
	if(!x && !y && !t) { checkGoal(mkBool(conc), conc, msg, nullptr, nullptr); return; }
	if(!x) x = lift(dty, ua);
	if(!y) y = lift(dty, ub);
	if(!t) t = lift(dty, ut);
	if(!x || !y || !t) { checkGoal(mkBool(false), false, msg, nullptr, nullptr); return; }
	if(modeIEEE)
	{
		Expr* d = mk(FABS, S_FP, 64, mk(FSUB, S_FP, 64, x, y));
		Expr* ok = mk(FLE, S_BOOL, 1, d, t);
		if(x == y) { ok = bOr(ok, mk(FEQ, S_BOOL, 1, x, y)); }
		checkGoal(ok, conc, msg, nullptr, nullptr);
		return;
	}
	Expr* d = rSub(x, y);
	Expr* ok = bAnd(rCmp(RLE, d, t), rCmp(RLE, rNeg(t), d));
	auto strong = [&](double k) { Expr* T = rMul(mkRealD(k), t); if(isConst(T) && *T->q == 0) T = mkRealD(1e-9 * k); return bOr(rCmp(RLT, T, d), rCmp(RLT, d, rNeg(T))); };
	checkGoal(ok, conc, msg, strong(10), strong(1e6));
}
void sx_reach(const char* label) { token = nullptr; cnt[string("reach:") + label]++; }
int sx_native(void) { token = nullptr; return 0; }
void sx_note(const char* t) { token = nullptr; notes.insert(t); }
void sx_register_harness(const char* name, void (*fn)(), int ieee, const char* b) { harnesses().push_back({name, fn, ieee, b ? b : ""}); }
}

// ------------------------------------------------------------------ path end
static string demangle(const char* n) { int st; char* d = abi::__cxa_demangle(n, 0, 0, &st); string r = d ? d : n; free(d); return r; }
static double concreteOnly = 0;
static int validateReplays = 1;
static void finishPath(const string& status, const string& info)
{
	if(finished) _exit(0);
	finished = true;
	emit("PATH\t" + status + "\t" + esc(info) + "\t" + (diverged ? "1" : "0") + "\t" + std::to_string(taken.size()) + "\t" + std::to_string(PC.size()));
	// native run of the path's own model (trace validation), also for escaped/crashed paths
	if(status != "retry" && status != "assume" && status != "infeasible" && !(replayExe.empty()) && validateReplays)
	{
		string line, file;
		int rc = replay(fullModel(), line, file);
		for(auto& k : lastKnownLines) if(knownMsgs.count(k) && knownSeen.insert(k).second) emit("KNOWN\t" + esc(k));
		if(rc == 0) { emit("TRACE\tok"); }
		else if(rc == 42 || rc >= 128) { if(violated.empty() || rc >= 128) emit("VIOL\t" + esc(line) + "\t" + esc(line) + "\tpath-model\t" + file + "\t" + std::to_string(rc)); }
		else if(rc == 43) emit("TRACE\tassume");
		else emit("TRACE\tother" + std::to_string(rc));
		if(!(rc == 42 || rc >= 128)) unlink(file.c_str());
	}
	for(auto& kv : asserts) emit("ASSERT\t" + esc(kv.first) + "\t" + std::to_string(kv.second.seen) + "\t" + std::to_string(kv.second.discharged) + "\t" + std::to_string(kv.second.constant) + "\t" + std::to_string(kv.second.spurious) + "\t" + std::to_string(kv.second.unknown));
	for(auto& kv : cnt) emit("CNT\t" + kv.first + "\t" + std::to_string(kv.second));
	for(auto& kv : rungCount) emit("CNT\trung:" + kv.first + "\t" + std::to_string(kv.second));
	for(auto& l : leaks) emit("LEAK\t" + esc(l));
	for(auto& l : notes) emit("NOTE\t" + esc(l));
	emit("STAT\t" + std::to_string(nQueries) + "\t" + fmtD(solverTime));
	{
		string s;
		for(auto& kv : curModel) { s += kv.first + "=" + kv.second + " "; if(s.size() > 400) { s += "..."; break; } }
		emit("SAMPLE\t" + esc(s));
	}
	// functions that handled symbolic values
	static vector<std::pair<uint64_t, const char*>> sorted;
	for(auto& f : fnTab()) sorted.push_back({(uint64_t) f.f, f.name});
	std::sort(sorted.begin(), sorted.end());
	std::set<const char*> names;
	for(void* a : symSites)
	{
		auto it = std::upper_bound(sorted.begin(), sorted.end(), std::make_pair((uint64_t) a, (const char*) ~0ull));
		if(it != sorted.begin()) names.insert((--it)->second);
	}
	for(auto* n : names) emit(string("FN\t") + esc(demangle(n)));
	emit("END");
	_exit(0);
}
static void onSignal(int sig)
{
	if(finished) _exit(0);
	alarm(30);
	finishPath("crash", string("signal ") + std::to_string(sig));
}

// ------------------------------------------------------------------ coordinator
struct Totals
{
	std::set<string> known;
	std::map<string, AssertStat> as; std::map<string, long> cn; std::set<string> leaks, notes, fns; std::map<string, long> paths; vector<string> infos; long queries = 0; double st = 0; long traces = 0, tracesAssume = 0, tracesOther = 0; vector<string> samples; long divergedN = 0, transitions = 0;
	vector<vector<string>> viol; long pending = 0;
};
static vector<string> split(const string& s) { vector<string> r; size_t i = 0; while(true) { size_t j = s.find('\t', i); r.push_back(s.substr(i, j == string::npos ? j : j - i)); if(j == string::npos) break; i = j + 1; } return r; }
static string js(const string& s) { string r = "\""; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else if(c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static void runWorker(const HarnessDef& h, const Item& it, int fd, double pathT)
{
	outFd = fd; isWorker = true;
	prefix = it.prefix; curModel = it.model; curMaybe = it.maybe; curAssumeTries = it.assumeTries;
	modeIEEE = h.ieee; harnessName = h.name;
	pathDeadline = now() + pathT;
	static char altst[1 << 16];
	stack_t ss; ss.ss_sp = altst; ss.ss_size = sizeof altst; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
	alarm((unsigned) (pathT + 20));
	if(getenv("SX_TRACE")) tracefd = open(getenv("SX_TRACE"), O_WRONLY | O_CREAT | O_APPEND, 0600);
	int dn = open("/dev/null", O_WRONLY); if(!getenv("SX_DEBUG")) { dup2(dn, 1); dup2(dn, 2); } else dup2(2, 1);
	if(chdir(workDir.c_str())) {}
	try { h.fn(); finishPath("done", ""); }
	catch(std::exception& e) { finishPath("exception", string(typeid(e).name()) + ": " + e.what()); }
	catch(...) { finishPath("exception", "?"); }
	_exit(0);
}
int main(int argc, char** argv)
{
	string out, only; int J = 8; double T = 60, pathT = 60; long maxPaths = 100000;
	for(int i = 1; i < argc; i++)
	{
		string a = argv[i];
		auto nx = [&] { return string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--list") { for(auto& h : harnesses()) printf("%s\t%s\n", h.name.c_str(), h.bounds.c_str()); return 0; }
		else if(a == "--out") out = nx(); else if(a == "--harness") only = nx(); else if(a == "-j") J = atoi(nx().c_str());
		else if(a == "--time") T = strtod(nx().c_str(), nullptr); else if(a == "--path-time") pathT = strtod(nx().c_str(), nullptr); else if(a == "--qt") qTimeout = strtod(nx().c_str(), nullptr);
		else if(a == "--max-paths") maxPaths = atol(nx().c_str()); else if(a == "--replay") replayExe = nx(); else if(a == "--work") workDir = nx();
		else if(a == "--known") { string k = nx(); knownMsgs.insert(k); const char* o = getenv("SX_KNOWN"); setenv("SX_KNOWN", ((o ? string(o) + "\n" : string()) + k).c_str(), 1); }
		else if(a == "--no-validate") validateReplays = 0;
	}
	if(workDir.empty()) workDir = ".";
	signal(SIGPIPE, SIG_IGN);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	newExpr(); // reserve the arena
	const HarnessDef* H = nullptr;
	for(auto& h : harnesses()) if(h.name == only) H = &h;
	if(!H) { fprintf(stderr, "no harness %s\n", only.c_str()); return 2; }
	Totals tot; double t0 = now();
	std::deque<Item> q; q.push_back(Item());
	struct W { pid_t pid; int fd; string buf; double start; bool ended; Item it; };
	vector<W> ws; long started = 0; bool timeUp = false; bool stopOnViol = getenv("SX_ALL") == nullptr;
	while(!q.empty() || !ws.empty())
	{
		if(now() - t0 > T) timeUp = true;
		bool stop = timeUp || (stopOnViol && !tot.viol.empty()) || started >= maxPaths;
		while(!stop && !q.empty() && (int) ws.size() < J && started < maxPaths)
		{
			Item it = q.front(); q.pop_front();
			int pf[2]; if(pipe(pf)) break;
			pid_t p = fork();
			if(p == 0)
			{
				close(pf[0]); for(auto& w : ws) close(w.fd);
				setpgid(0, 0);
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				runWorker(*H, it, pf[1], std::min(pathT, std::max(5.0, T - (now() - t0))));
				_exit(0);
			}
			close(pf[1]);
			ws.push_back({p, pf[0], "", now(), false, it}); started++;
		}
		if(ws.empty()) break;
		vector<pollfd> pf; for(auto& w : ws) pf.push_back({w.fd, POLLIN, 0});
		poll(pf.data(), pf.size(), 200);
		for(size_t i = 0; i < ws.size();)
		{
			W& w = ws[i]; bool closed = false;
			if(pf[i].revents)
			{
				char b[65536]; ssize_t n = read(w.fd, b, sizeof b);
				if(n > 0) w.buf.append(b, n); else closed = true;
				size_t e;
				while((e = w.buf.find('\n')) != string::npos)
				{
					string l = w.buf.substr(0, e); w.buf.erase(0, e + 1);
					auto f = split(l);
					if(f[0] == "ITEM")
					{
						Item it; size_t k = 1;
						it.maybe = f[k++] == "1"; it.assumeTries = atoi(f[k++].c_str());
						int n2 = atoi(f[k++].c_str());
						for(int x = 0; x < n2; x++) { string& s = f[k++]; Rec r; r.dir = s[0] - '0'; r.hasVal = s.size() > 1; r.val = r.hasVal ? atoll(s.c_str() + 2) : 0; it.prefix.push_back(r); }
						int m = atoi(f[k++].c_str());
						for(int x = 0; x < m; x++) { it.model[f[k]] = f[k + 1]; k += 2; }
						q.push_back(it);
					}
					else if(f[0] == "PATH") { tot.paths[f[1]]++; tot.transitions += atol(f[4].c_str()); if(f[3] == "1") tot.divergedN++; if(!f[2].empty() && tot.infos.size() < 30) tot.infos.push_back(f[1] + ": " + f[2]); w.ended = true; }
					else if(f[0] == "ASSERT") { auto& a = tot.as[f[1]]; a.seen += atol(f[2].c_str()); a.discharged += atol(f[3].c_str()); a.constant += atol(f[4].c_str()); a.spurious += atol(f[5].c_str()); a.unknown += atol(f[6].c_str()); }
					else if(f[0] == "CNT") tot.cn[f[1]] += atol(f[2].c_str());
					else if(f[0] == "LEAK") tot.leaks.insert(f[1]);
					else if(f[0] == "NOTE") tot.notes.insert(f[1]);
					else if(f[0] == "STAT") { tot.queries += atol(f[1].c_str()); tot.st += strtod(f[2].c_str(), nullptr); }
					else if(f[0] == "FN") tot.fns.insert(f[1]);
					else if(f[0] == "TRACE") { if(f[1] == "ok") tot.traces++; else if(f[1] == "assume") tot.tracesAssume++; else tot.tracesOther++; }
					else if(f[0] == "SAMPLE") { if(tot.samples.size() < 5) tot.samples.push_back(f[1]); }
					else if(f[0] == "KNOWN") tot.known.insert(f[1]);
					else if(f[0] == "VIOL") { tot.viol.push_back(f); }
				}
			}
			double lim = std::min(pathT, T) + 30;
			bool kill_ = (now() - w.start > lim) || (timeUp && now() - t0 > T + 8) || (stopOnViol && !tot.viol.empty() && w.ended == false && now() - t0 > 2 && tot.viol.size() > 0);
			if(kill_ && !closed)
			{
				kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL); closed = true;
				if(!w.ended) { tot.paths["killed"]++; if(getenv("SX_DEBUG")) { fprintf(stderr, "[sx] killed:"); for(auto& kv : w.it.model) fprintf(stderr, " %s=%s", kv.first.c_str(), kv.second.c_str()); fprintf(stderr, "\n"); } }
			}
			else if(closed && !w.ended) tot.paths["died"]++;
			if(closed)
			{
				close(w.fd); int st; waitpid(w.pid, &st, 0); kill(-w.pid, SIGKILL);
				ws.erase(ws.begin() + i); pf.erase(pf.begin() + i);
			}
			else i++;
		}
		if((timeUp || (stopOnViol && !tot.viol.empty()) || started >= maxPaths) && ws.empty()) break;
	}
	tot.pending = q.size();
	std::ostringstream o;
	o << "{\"harness\":" << js(H->name) << ",\"bounds\":" << js(H->bounds) << ",\"mode\":" << js(H->ieee ? "ieee" : "real") << ",\"wall_s\":" << now() - t0 << ",\"pending\":" << tot.pending << ",\"queries\":" << tot.queries << ",\"solver_s\":" << tot.st << ",\"transitions\":" << tot.transitions << ",\"diverged\":" << tot.divergedN << ",\"traces_ok\":" << tot.traces << ",\"traces_assume\":" << tot.tracesAssume << ",\"traces_other\":" << tot.tracesOther << ",\"paths\":{";
	bool first = true; auto sep = [&] { if(!first) o << ","; first = false; };
	for(auto& k : tot.paths) { sep(); o << js(k.first) << ":" << k.second; }
	o << "},\"asserts\":{"; first = true;
	for(auto& k : tot.as) { sep(); o << js(k.first) << ":{\"seen\":" << k.second.seen << ",\"discharged\":" << k.second.discharged << ",\"by_normal_form\":" << k.second.constant << ",\"spurious\":" << k.second.spurious << ",\"unknown\":" << k.second.unknown << "}"; }
	o << "},\"counts\":{"; first = true;
	for(auto& k : tot.cn) { sep(); o << js(k.first) << ":" << k.second; }
	auto lst = [&](const char* n, auto& c) { o << ",\"" << n << "\":["; first = true; for(auto& x : c) { sep(); o << js(x); } o << "]"; };
	o << "}"; lst("leaks", tot.leaks); lst("notes", tot.notes); lst("functions", tot.fns); lst("infos", tot.infos); lst("samples", tot.samples); lst("known", tot.known);
	o << ",\"violations\":["; first = true;
	for(auto& v : tot.viol) { sep(); o << "{\"msg\":" << js(v[1]) << ",\"line\":" << js(v[2]) << ",\"how\":" << js(v[3]) << ",\"model\":" << js(v[4]) << ",\"rc\":" << v[5] << "}"; }
	o << "]}\n";
	if(out.empty()) fputs(o.str().c_str(), stdout);
	else { std::ofstream f(out); f << o.str(); }
	return 0;
}
