// P30: data tables keep what they are given; TFS files keep tables
//@ time: *=25
#include "hx.h"
#include <sstream>
#include <memory>
#include <vector>
#include "DataTable.h"
#include "DataTableTFS.h"
struct Cell { double d = 0; int i = 0; std::string s; };
struct Model { std::vector<std::pair<std::string, char>> cols; std::vector<std::vector<Cell>> rows; };
static void check(const DataTable& t, const Model& m)
{
	sx_assert(t.Length() == m.rows.size(), "number of rows"); DataTable u(t); sx_assert(u.ColumnNames().size() == m.cols.size(), "number of columns");
	for(size_t c = 0; c < m.cols.size(); c++)
	{
		auto& k = m.cols[c]; if(c < u.ColumnNames().size()) sx_assert(u.ColumnNames()[c] == k.first, "columns in the order they were added"); sx_assert(u.GetColumnType(k.first) == k.second, "type of the column"); sx_assert(t.HasCol(k.first) && t.HasCol(k.first, k.second) && !t.HasCol(k.first, k.second == 'd' ? 'i' : 'd'), "presence of the column");
		for(size_t r = 0; r < m.rows.size() && r < t.Length(); r++) { auto& e = m.rows[r][c]; if(k.second == 'd') sx_close(t.Get_d(k.first, r), e.d, 1e-12, "value of a cell"); else if(k.second == 'i') sx_assert(t.Get_i(k.first, r) == e.i, "value of a cell"); else sx_assert(t.Get_s(k.first, r) == e.s, "value of a cell"); }
	}
}
static const char TY[] = {'d', 'i', 's'};
SX_HARNESS(operations, "all sequences of four operations (adding columns of each type, adding rows, setting cells to symbolic values)")
{
	DataTable t; Model m; if(sx_bool("preset")) { t.AddColumn("p", 'd'); m.cols.push_back({"p", 'd'}); t.AddRow(); m.rows.push_back(std::vector<Cell>(1)); }
	for(int k = 0; k < 4; k++)
	{
		int op = sx_choose(sx_n("op", k).c_str(), 0, 4);
		if(op < 3) { std::string n = sx_n("c", k); t.AddColumn(n, TY[op]); m.cols.push_back({n, TY[op]}); for(auto& r : m.rows) r.push_back(Cell()); }
		else if(op == 3) { size_t r = t.AddRow(); sx_assert(r == m.rows.size(), "index of the new row"); m.rows.push_back(std::vector<Cell>(m.cols.size())); }
		else if(!m.rows.empty() && !m.cols.empty()) { size_t c = m.cols.size() - 1 - (k % 2 && m.cols.size() > 1), r = k % m.rows.size(); auto& n = m.cols[c].first; Cell& e = m.rows[r][c]; if(m.cols[c].second == 'd') { e.d = sx_double(sx_n("v", k).c_str(), -5, 5); t.Set(n, r, e.d); } else if(m.cols[c].second == 'i') { e.i = sx_int(sx_n("i", k).c_str(), -5, 5); t.Set(n, r, e.i); } else { e.s = std::string(2, (char) sx_int(sx_n("s", k).c_str(), 'a', 'z')); t.Set(n, r, e.s); } }
	}
	check(t, m); DataTable u(t); DataTable w; w = t; check(u, m); check(w, m); if(m.rows.size()) { t.AddRow(); check(u, m); }
}
template<class E, class F> static bool throws(F f) { try { f(); } catch(E&) { return true; } catch(...) { return false; } return false; }
SX_HARNESS(refused, "access by a name of symbolic letters, wrong types, rows beyond the end, repeated names")
{
	DataTable t; t.AddColumn("ab", 'd'); t.AddColumn("ba", 'i'); t.AddColumn("bb", 's'); t.AddRow(); t.AddRow(); double v = sx_double("v", -1, 1); t.Set_d("ab", 1, v); t.Set_i("ba", 1, 4); t.Set_s("bb", 1, "x");
	std::string n(2, 'a'); n[0] = (char) sx_int("n0", 'a', 'c'); n[1] = (char) sx_int("n1", 'a', 'b'); size_t r = sx_int("r", 0, 4); bool d = n == "ab", i = n == "ba", s = n == "bb", any = d | i | s; bool in = r < 2;
	sx_assert(t.HasCol(n) == any, "presence of the column"); sx_assert(t.HasCol(n, 'd') == d, "presence of a column of the type");
	bool ok = true; double g = 0; try { g = t.Get_d(n, r); } catch(std::out_of_range&) { ok = false; sx_assert(!any | (d & !in), "out of range exactly when column or row is missing"); } catch(WrongTypeException&) { ok = false; sx_assert(any & !d, "wrong type exactly when the column has another type"); }
	sx_assert(ok == (d & in), "reading a double"); if(ok) sx_close(g, r == 1 ? v : 0, 1e-12, "value");
	ok = true; int gi = 0; try { gi = t.Get_i(n, r); } catch(std::out_of_range&) { ok = false; } catch(WrongTypeException&) { ok = false; } sx_assert(ok == (i & in), "reading an integer"); if(ok) sx_assert(gi == (r == 1 ? 4 : 0), "value");
	ok = true; std::string gs; try { gs = t.Get_s(n, r); } catch(std::out_of_range&) { ok = false; } catch(WrongTypeException&) { ok = false; } sx_assert(ok == (s & in), "reading a string"); if(ok) sx_assert(gs == (r == 1 ? "x" : ""), "value");
	ok = true; try { t.Set(n, r, 7); } catch(std::out_of_range&) { ok = false; } catch(WrongTypeException&) { ok = false; } sx_assert(ok == (i & in), "setting an integer"); ok = true; try { t.Set(n, r, std::string("q")); } catch(std::out_of_range&) { ok = false; } catch(WrongTypeException&) { ok = false; } sx_assert(ok == (s & in), "setting a string"); ok = true; try { t.Set(n, r, 2.5); } catch(std::out_of_range&) { ok = false; } catch(WrongTypeException&) { ok = false; } sx_assert(ok == (d & in), "setting a double");
	ok = true; try { t.AddColumn(n, 'd'); } catch(std::invalid_argument&) { ok = false; } sx_assert(ok == !any, "a name can be added once"); sx_assert(t.ColumnNames().size() == (any ? 3u : 4u), "number of columns");
	sx_assert(throws<WrongTypeException>([&] { t.AddColumn("zz", 'q'); }) && !t.HasCol("zz"), "unknown types are refused"); sx_assert(t.Length() == 2, "number of rows"); for(int k = 0; k < 2; k++) { sx_close(t.Get_d("ab", k), d & ((int) r == k) ? 2.5 : k ? v : 0, 1e-12, "other cells are unchanged"); sx_assert(t.Get_i("ba", k) == ((i & ((int) r == k)) ? 7 : k ? 4 : 0), "other cells are unchanged"); }
}
static DataTable three(double* v, int n) { DataTable t; t.AddColumn("x", 'd'); t.AddColumn("n", 'i'); t.AddColumn("s", 's'); for(int i = 0; i < n; i++) { v[i] = sx_double(sx_n("x", i).c_str(), -2, 2); t.AddRow(v[i], 10 + i, std::string(1, 'a' + i)); } return t; }
SX_HARNESS(rows, "whole rows, iteration and random access over up to four rows of symbolic values, reading and writing")
{
	double v[4]; int n = sx_choose("rows", 0, 4); DataTable t = three(v, n); const DataTable& c = t; int i = 0;
	for(auto& r : t) { sx_assert(i < n, "one row after the other"); if(i >= n) break; sx_close(r.Get_d("x"), v[i], 1e-12, "value in a row"); sx_assert(r.Get_i("n") == 10 + i && r.Get_s("s") == std::string(1, 'a' + i) && r.get_pos() == (size_t) i, "value in a row"); i++; } sx_assert(i == n, "every row"); i = 0;
	for(auto& r : c) { if(i >= n) break; sx_close(r.Get_d("x"), v[i], 1e-12, "value in a row"); sx_assert(r.Get_i("n") == 10 + i && r.GetAsStr("n") == std::to_string(10 + i) && r.GetAsStr("s") == r.Get_s("s"), "value in a row"); i++; } sx_assert(i == n && t.end() - t.begin() == n && c.end() - c.begin() == n, "every row"); if(!n) { sx_assert(t.begin() == t.end() && c.begin() == c.end(), "no rows"); return; }
	int k = sx_choose("k", 0, n - 1); auto it = t.begin() + k; auto ci = c.begin(); ci += k; sx_close(it->Get_d("x"), v[k], 1e-12, "random access"); sx_close(ci->Get_d("x"), v[k], 1e-12, "random access"); sx_close(t.begin()[k].Get_d("x"), v[k], 1e-12, "random access"); sx_close(c.begin()[k].Get_d("x"), v[k], 1e-12, "random access"); sx_close((k + t.begin())->Get_d("x"), v[k], 1e-12, "random access"); sx_close((t.end() - (n - k))->Get_d("x"), v[k], 1e-12, "random access"); sx_close((c.end() - (n - k))->Get_d("x"), v[k], 1e-12, "random access");
	auto j = it; auto old = j++; sx_assert(old == it && j - it == 1 && j > it && it < j && j >= it && it <= j && j != it, "increment and comparison"); j--; sx_assert(j == it && !(j > it) && j <= it && j >= it, "decrement"); ++j; --j; sx_assert(j == it, "increment and decrement"); j += 1; j -= 1; sx_assert(j == it, "jumps");
	auto a = ci; auto ao = a++; sx_assert(ao == ci && a - ci == 1 && a > ci && ci < a && a >= ci && ci <= a && a != ci, "increment and comparison"); a--; ++a; --a; a -= 0; sx_assert(a == ci, "increment and decrement");
	double w = sx_double("w", -2, 2); it->Set_d("x", w); it->Set("n", 99); it->Set("s", std::string("q")); for(int r = 0; r < n; r++) { sx_close(t.Get_d("x", r), r == k ? w : v[r], 1e-12, "writing through a row changes that row only"); sx_assert(t.Get_i("n", r) == (r == k ? 99 : 10 + r) && t.Get_s("s", r) == (r == k ? "q" : std::string(1, 'a' + r)), "writing through a row changes that row only"); }
	it->SetWithStr("x", "1.5"); it->SetWithStr("n", "-7"); it->SetWithStr("s", "1.5"); sx_close(t.Get_d("x", k), 1.5, 1e-12, "set from text"); sx_assert(t.Get_i("n", k) == -7 && t.Get_s("s", k) == "1.5", "set from text");
}
SX_HARNESS(header, "header values of symbolic name and value, next to a column of the same name")
{
	DataTable t; std::string n(1, (char) sx_int("n", 'a', 'c')); double v = sx_double("v", -1, 1); int i = sx_int("i", -9, 9); t.AddColumn("a", 's'); t.HeaderAddColumn("a", 'd'); t.HeaderAddColumn("b", 'i'); t.HeaderAddColumn("s", 's'); t.HeaderSet("a", v); t.HeaderSet_i("b", i); t.HeaderSet_s("s", n);
	sx_close(t.HeaderGet_d("a"), v, 1e-12, "header value"); sx_assert(t.HeaderGet_i("b") == i && t.HeaderGet_s("s") == n && t.HeaderGetAsStr("s") == n, "header value"); bool a = n == "a", b = n == "b"; sx_assert(t.HeaderHasKey(n) == (a | b), "presence of the header"); sx_assert(t.HeaderHasKey(n, 'i') == b, "presence of a header of the type"); sx_assert(t.HasCol(n) == a, "columns and headers are apart"); sx_assert(t.HeaderNames().size() == 3 && t.HeaderNames()[0] == "a" && t.HeaderNames()[2] == "s" && t.GetHeaderType("b") == 'i', "headers in order");
	bool ok = true; double g = 0; try { g = t.HeaderGet_d(n); } catch(std::out_of_range&) { ok = false; sx_assert(!a & !b, "missing header"); } catch(WrongTypeException&) { ok = false; sx_assert(b, "header of another type"); } sx_assert(ok == a, "reading a header"); if(ok) sx_close(g, v, 1e-12, "header value");
	ok = true; try { t.HeaderSet(n, 5); } catch(std::out_of_range&) { ok = false; } catch(WrongTypeException&) { ok = false; } sx_assert(ok == b, "setting a header"); sx_assert(t.HeaderGet_i("b") == (b ? 5 : i), "header value"); ok = true; try { t.HeaderAddColumn(n, 's'); } catch(std::invalid_argument&) { ok = false; } sx_assert(ok == (!a & !b), "a header can be added once"); t.HeaderSetWithStr("a", "0.25"); t.HeaderSetWithStr("b", "12"); t.HeaderSetWithStr("s", "12"); sx_close(t.HeaderGet_d("a"), 0.25, 1e-12, "set from text"); sx_assert(t.HeaderGet_i("b") == 12 && t.HeaderGet_s("s") == "12" && t.Length() == 0, "set from text");
}
static const double NUM[] = {0, 1.5, -2.25e-12, 1234567.25, 6.02214076e23};
SX_HARNESS(tfs, "writing and reading back a table with headers, 0-2 rows, strings of up to three symbolic characters (letters or blanks), numbers from a list")
{
	DataTable t; int nr = sx_choose("rows", 0, 2), ls = sx_choose("length", 0, 3); std::string s; for(int i = 0; i < ls; i++) s += (char) sx_int(sx_n("ch", i).c_str(), ' ', '!'); for(int i = 0; i < ls; i++) if(s[i] == '!') s[i] = 'k'; double d = NUM[sx_choose("num", 0, 4)];
	t.HeaderAddColumn("TITLE", 's'); t.HeaderSet("TITLE", s); t.HeaderAddColumn("Q", 'd'); t.HeaderSet("Q", d); t.HeaderAddColumn("N", 'i'); t.HeaderSet("N", -42); t.AddColumn("X", 'd'); t.AddColumn("NAME", 's'); t.AddColumn("TURN", 'i'); for(int i = 0; i < nr; i++) t.AddRow(i ? -d : d, i ? std::string("quad 1") : s, 100 * i - 7);
	std::stringstream f; DataTableWriterTFS(&f).Write(t); DataTable u = DataTableReaderTFS(&f).Read();
	sx_assert(u.HeaderNames() == t.HeaderNames() && u.ColumnNames() == t.ColumnNames(), "names of headers and columns"); for(auto& c : t.ColumnNames()) sx_assert(u.GetColumnType(c) == t.GetColumnType(c), "types of the columns"); for(auto& c : t.HeaderNames()) sx_assert(u.GetHeaderType(c) == t.GetHeaderType(c), "types of the headers"); sx_assert(u.HeaderGet_s("TITLE") == s && u.HeaderGet_i("N") == -42, "header values"); sx_close(u.HeaderGet_d("Q"), d, std::fabs(d) * 1e-9, "header values"); sx_assert(u.Length() == (size_t) nr, "number of rows"); if(u.Length() != (size_t) nr) return;
	for(int i = 0; i < nr; i++) { sx_close(u.Get_d("X", i), i ? -d : d, std::fabs(d) * 1e-9, "numbers"); sx_assert(u.Get_s("NAME", i) == (i ? "quad 1" : s), "strings"); sx_assert(u.Get_i("TURN", i) == 100 * i - 7, "integers"); }
}
SX_HARNESS(parse, "a row of six symbolic characters (blank, letters and quotes): split into words")
{
	std::string l(6, ' '), w; std::vector<std::string> words; bool q = false, in = false; for(int i = 0; i < 6; i++) l[i] = (char) sx_int(sx_n("ch", i).c_str(), ' ', '"');
	for(char c : l) { if(c == '"') { q = !q; in = true; } else if(c == ' ' && !q) { if(in) words.push_back(w); w = ""; in = false; } else { w += c; in = true; } } if(in) words.push_back(w); if(q) return;
	std::stringstream f; f << "@ T %3s \"a b\"\n\n* A\t B\n$ %s %12s\n" << l << "\n"; bool bad = false; DataTable t; try { t = DataTableReaderTFS(&f).Read(); } catch(BadFormatException&) { bad = true; }
	sx_assert(bad == (words.size() != 2 && words.size() != 0), "rows of another number of values are refused"); if(bad) return; sx_assert(t.HeaderGet_s("T") == "a b" && t.ColumnNames().size() == 2, "header"); sx_assert(t.Length() == (words.size() ? 1u : 0u), "blank lines are skipped"); if(words.size() == 2 && t.Length() == 1) sx_assert(t.Get_s("A", 0) == words[0] && t.Get_s("B", 0) == words[1], "values in quotes or between blanks");
}
SX_HARNESS(malformed, "truncated and malformed files")
{
	static const char* F[] = {"", "@ T %s x\n", "* A B\n", "* A B\n\n", "$ %s\n", "@ T %s\n* A\n$ %s\n", "* A B\n$ %s\n", "* A\n$ %q\n", "* A\n$ %d\n5 6\n", "* A A\n$ %d %d\n"}; std::stringstream f(F[sx_choose("file", 0, 9)]); f << (sx_bool("nl") ? "\n" : ""); bool bad = false; try { DataTableReaderTFS(&f).Read(); } catch(BadFormatException&) { bad = true; } catch(std::invalid_argument&) { bad = true; } sx_assert(bad, "malformed files are refused");
}
