// P28: name patterns
//@ time: *=25
#include "hx.h"
#include <vector>
#include <string>
#include <cstring>
#include "StringPattern.h"
// symbolic string over {a,b,.} of length n
static std::string str(int n, const char* nm = "c") { std::string s; static const char A[3] = {'a', 'b', '.'}; for(int i = 0; i < n; i++) s += (char) sx_int(sx_n(nm, i).c_str(), 'a', 'c'); return s; }
// does p (with '*' matching anything) match s?  reachability over positions, branch-free over the characters
static bool glob(const std::string& p, const std::string& s)
{
	int n = s.size(); std::vector<unsigned char> at(n + 1, 0); at[0] = 1;
	for(char c : p)
	{
		if(c == '*') { for(int i = 1; i <= n; i++) at[i] |= at[i - 1]; }
		else { for(int i = n; i > 0; i--) at[i] = at[i - 1] & (unsigned char) (s[i - 1] == c); at[0] = 0; }
	}
	return at[n];
}
static const char* pats[] = {"", "a", "ab", "*", "a*", "*a", "*ab", "a*b", "*a*", "a*b*", "*a*b", "ab*ab", "**a", "a**", "a*a", "*aa", "*aba", "a*ba*a", "*b*b*", "*bab*ab", "aba*", "a*b*c", "b*cb", "*c*"};
static const int NP = sizeof(pats) / sizeof(*pats);
SX_HARNESS(wildcards, "24 patterns with up to three wildcards against all strings over three letters up to length 6")
{
	int k = sx_choose("pattern", 0, NP - 1), n = sx_choose("len", 0, 6); std::string s = str(n); StringPattern p(pats[k]); bool e = glob(pats[k], s);
	bool m = p.Match(s); sx_assert(m == e, m ? "matches what it should not" : "does not match what it should"); sx_assert(p(s) == m, "operator form");
}
SX_HARNESS(literal, "any pattern without wildcard matches exactly itself")
{
	std::string a = str(sx_choose("n", 0, 4), "p"), b = str(sx_choose("m", 0, 4), "s"); StringPattern p(a); bool eq = a.size() == b.size(); if(eq) for(size_t i = 0; i < a.size(); i++) eq &= a[i] == b[i]; sx_assert(p.Match(b) == eq, "literal pattern");
	sx_assert(std::string(p) == a, "pattern text"); StringPattern q(a + "*"); bool pre = b.size() >= a.size(); if(pre) for(size_t i = 0; i < a.size(); i++) pre &= a[i] == b[i]; sx_assert(q.Match(b) == pre, "prefix pattern");
	StringPattern r("*" + a); bool suf = b.size() >= a.size(); if(suf) for(size_t i = 0; i < a.size(); i++) suf &= a[i] == b[b.size() - a.size() + i]; sx_assert(r.Match(b) == suf, "suffix pattern");
	sx_assert((p == StringPattern(b)) == eq, "equality of patterns");
}
SX_HARNESS(alternatives, "up to three alternatives")
{
	static const int pick[8] = {1, 5, 7, 8, 13, 16, 19, 20}; int i = pick[sx_choose("p1", 0, 7)], j = pick[sx_choose("p2", 0, 7)], k = sx_choose("p3", 0, 2), n = 3; std::string s = str(n), t = std::string(pats[i]) + "|" + pats[j]; bool e = glob(pats[i], s) | glob(pats[j], s); if(k) { t += std::string("|") + pats[3 * k + 1]; e |= glob(pats[3 * k + 1], s); }
	sx_assert(StringPattern(t).Match(s) == e, "any of the alternatives");
}
SX_HARNESS(delimit, "splitting a string at a delimiter")
{
	int n = sx_choose("len", 0, 5); std::string s = str(n); std::vector<std::string> v; std::pair<bool, bool> r = DelimitString(s, 'b', v);
	if(n) { sx_assert(r.first == (s[0] == 'b'), "begins with the delimiter"); sx_assert(r.second == (s[n - 1] == 'b'), "ends with the delimiter"); }
	std::vector<std::string> w; std::string c; for(char x : s) { if(x == 'b') { if(!c.empty()) w.push_back(c); c.clear(); } else c += x; } if(!c.empty()) w.push_back(c);
	sx_assert(v == w, "the parts in between");
}
