// P29: vectors, matrices and linear equations
//@ time: *=40
#include "hx.h"
#include <vector>
#include "TLAS.h"
#include "TLASimp.h"
#include "LinearAlgebra.h"
using namespace TLAS;
static const double T = 1e-9;
static RealVector vec(const char* nm, int n, double lim = 2) { RealVector v(n); for(int i = 0; i < n; i++) v[i] = sx_double(sx_n(nm, i).c_str(), -lim, lim); return v; }
static RealMatrix mat(const char* nm, int n, int m, double lim = 2) { RealMatrix v(n, m); for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) v(i, j) = sx_double(sx_n(nm, 10 * i + j).c_str(), -lim, lim); return v; }
static void same(const RealVector& a, const RealVector& b, const char* w, double t = T) { sx_assert(a.size() == b.size(), "size of the result"); if(a.size() == b.size()) for(size_t i = 0; i < a.size(); i++) sx_close(a[i], b[i], t, w); }
static void same(const RealMatrix& a, const RealMatrix& b, const char* w, double t = T) { sx_assert(a.nrows() == b.nrows() && a.ncols() == b.ncols(), "size of the result"); if(a.nrows() == b.nrows() && a.ncols() == b.ncols()) for(size_t i = 0; i < a.nrows(); i++) for(size_t j = 0; j < a.ncols(); j++) sx_close(a(i, j), b(i, j), t, w); }
SX_HARNESS(vectors, "vector arithmetic, parts of vectors")
{
	int n = sx_choose("n", 1, 3); RealVector u = vec("u", n), v = vec("v", n), r; double s = sx_double("s", 0.5, 2), d = 0; for(int i = 0; i < n; i++) d += u[i] * v[i]; sx_close(u * v, d, T, "inner product"); RealVector e(n);
	int op = sx_choose("op", 0, 9); for(int i = 0; i < n; i++) e[i] = op == 0 ? u[i] + v[i] : op == 1 ? u[i] - v[i] : op == 2 ? s * u[i] : op == 3 ? u[i] * s : op == 4 ? u[i] / s : op == 5 ? u[i] + s : op == 6 ? s + u[i] : op == 7 ? u[i] - s : op == 8 ? s - u[i] : u[i] * v[i];
	switch(op) { case 0: r.copy(u + v); break; case 1: r.copy(u - v); break; case 2: r.copy(s * u); break; case 3: r.copy(u * s); break; case 4: r.copy(u / s); break; case 5: r.copy(u + s); break; case 6: r.copy(s + u); break; case 7: r.copy(u - s); break; case 8: r.copy(s - u); break; default: { RealVector w(u); w *= v; r.copy(w); } } same(r, e, "vector arithmetic");
	if(n == 3) { RealVector w(u); w(Range(1, 2)) = s; sx_close(w[0], u[0], T, "outside the part"); sx_close(w[1], s, T, "inside the part"); sx_close(w[2], s, T, "inside the part"); RealVector p = u[Range(0, 1)]; sx_assert(p.size() == 2, "size of a part"); sx_close(p[1], u[1], T, "part of a vector"); bool t = false; try { u[Range(2, 3)]; } catch(RangeError&) { t = true; } sx_assert(t, "part beyond the end refused"); }
	bool t = false; try { RealVector w(n + 1); w += u; } catch(DimensionError&) { t = true; } sx_assert(t, "different sizes refused"); t = false; try { u(n); } catch(RangeError&) { t = true; } sx_assert(t, "index beyond the end refused");
}
SX_HARNESS(matrices, "matrix arithmetic of any sizes up to 3")
{
	int a = sx_choose("a", 1, 3), b = sx_choose("b", 1, 3), c = sx_choose("c", 1, 3); RealMatrix A = mat("A", a, b), B = mat("B", b, c), C = mat("C", a, b); RealMatrix P = A * B, E(a, c, 0.0); for(int i = 0; i < a; i++) for(int j = 0; j < c; j++) for(int k = 0; k < b; k++) E(i, j) += A(i, k) * B(k, j); same(P, E, "product");
	RealVector x = vec("x", b), y(0.0, a); for(int i = 0; i < a; i++) for(int k = 0; k < b; k++) y[i] += A(i, k) * x[k]; same(A * x, y, "matrix times vector"); RealMatrix t = Transpose(A), te(b, a); double s = sx_double("s", 0.5, 2); RealMatrix sum(a, b), dif(a, b), sc(a, b); for(int i = 0; i < a; i++) for(int j = 0; j < b; j++) { te(j, i) = A(i, j); sum(i, j) = A(i, j) + C(i, j); dif(i, j) = A(i, j) - C(i, j); sc(i, j) = s * A(i, j); } same(t, te, "transpose"); same(A + C, sum, "sum"); same(A - C, dif, "difference"); same(A * s, sc, "scaled"); same(s * A, sc, "scaled");
	bool th = false; try { A * mat("X", b + 1, c); } catch(DimensionError&) { th = true; } sx_assert(th, "products of sizes that do not match are refused"); th = false; try { RealMatrix w(a + 1, b); w += A; } catch(DimensionError&) { th = true; } sx_assert(th, "sums of different sizes are refused");
	RealMatrix I = RealMatrix(IdentityMatrix(b)); same(A * I, A, "times the identity");
}
SX_HARNESS(parts, "rows, columns and blocks of matrices")
{
	int n = 3, m = sx_choose("m", 2, 4); RealMatrix A = mat("A", n, m), B(A); int i = sx_choose("i", 0, n - 1), j = sx_choose("j", 0, m - 1), op = sx_choose("op", 0, 5); double s = sx_double("s", 0.5, 2); RealVector r = vec("r", m), c = vec("c", n);
	int r0 = 0, r1 = n - 1, c0 = 0, c1 = m - 1; if(op == 0) { B.row(i) = r; r0 = r1 = i; } if(op == 1) { B.column(j) = c; c0 = c1 = j; } if(op == 2) { B.row(i) *= s; r0 = r1 = i; } if(op == 3) { B.column(j) += c; c0 = c1 = j; } if(op == 4) { r0 = i; c0 = j; B(Range(r0, r1), Range(c0, c1)) = s; } if(op == 5) { r1 = i; c1 = j; RealMatrix D = mat("D", r1 + 1, c1 + 1); B(Range(0, r1), Range(0, c1)) = D; for(int k = 0; k <= r1; k++) for(int l = 0; l <= c1; l++) sx_close(B(k, l), D(k, l), T, "block assigned"); }
	for(int k = 0; k < n; k++) for(int l = 0; l < m; l++) { bool in = k >= r0 && k <= r1 && l >= c0 && l <= c1; if(!in) sx_close(B(k, l), A(k, l), T, "the rest is left alone"); else if(op == 0) sx_close(B(k, l), r[l], T, "row"); else if(op == 1) sx_close(B(k, l), c[k], T, "column"); else if(op == 2) sx_close(B(k, l), A(k, l) * s, T, "row scaled"); else if(op == 3) sx_close(B(k, l), A(k, l) + c[k], T, "column added to"); else if(op == 4) sx_close(B(k, l), s, T, "block set"); }
	RealMatrix blk = A(Range(i, n - 1), Range(j, m - 1)); sx_assert((int) blk.nrows() == n - i && (int) blk.ncols() == m - j, "size of a block"); sx_close(blk(0, 0), A(i, j), T, "corner of a block"); sx_close(blk(n - i - 1, m - j - 1), A(n - 1, m - 1), T, "other corner of a block"); RealVector q = A(Range(i, n - 1), j); sx_assert((int) q.size() == n - i, "size of a part of a column"); sx_close(q[q.size() - 1], A(n - 1, j), T, "part of a column"); RealVector w = A(i, Range(j, m - 1)); sx_close(w[w.size() - 1], A(i, m - 1), T, "part of a row"); sx_close(A[i][j], A(i, j), T, "element of a row");
}
// pseudo-random well conditioned square matrices
static RealMatrix sq(int n, int k) { unsigned s = 12345u + 77u * k + 1000u * n; RealMatrix M(n, n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { s = s * 1103515245u + 12345u; M(i, j) = ((s >> 16) % 9) - 4.0 + ((i + k) % n == j ? 6.0 : 0.0); } if(k == 0) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) M(i, j) = (i + j == n - 1) ? i + 1 : 0; return M; }
static double det(const RealMatrix& M) { int n = M.nrows(); if(n == 1) return M(0, 0); double d = 0; for(int j = 0; j < n; j++) { RealMatrix m(n - 1, n - 1); for(int a = 1; a < n; a++) for(int b = 0, c = 0; b < n; b++) if(b != j) m(a - 1, c++) = M(a, b); d += (j % 2 ? -1 : 1) * M(0, j) * det(m); } return d; }
SX_HARNESS(solve, "LU decomposition, inverse, determinant: 24 matrices with any right-hand side")
{
	int n = sx_choose("n", 1, 4), k = sx_choose("matrix", 0, 5); RealMatrix M = sq(n, k); double D = det(M); if(fabs(D) < 1e-6) return; RealVector b = vec("b", n); const LUMatrix<double> lu(M); const RealVector cb(b); RealVector x = lu(cb); same(M * x, b, "solution of the equations", 1e-7); RealVector y(b); lu(y); same(y, x, "solved in place"); sx_close(lu.det(), D, 1e-6, "determinant"); sx_close(Det(M), D, 1e-6, "determinant");
	RealMatrix I = RealMatrix(IdentityMatrix(n)); const RealMatrix cM(M); RealMatrix inv = Invert(cM); same(inv * M, I, "inverse", 1e-7); RealMatrix m2(M); double piv = Invert(m2); same(m2, inv, "inverse in place", 1e-7); sx_assert(piv > 0, "smallest pivot"); RealMatrix m3(M); InvertMatrix(m3); same(m3, inv, "inverse in place", 1e-7);
	std::vector<int> p; RealMatrix f(M); double sg; LUfactor(f, p, sg); RealVector z(b); LUsolve(f, p, z); same(z, x, "factors and solution"); sx_assert((int) p.size() == n, "one pivot per row");
}
SX_HARNESS(anymatrix, "any two by two matrix that is not nearly singular")
{
	int which = sx_choose("which", 0, 2); RealMatrix M = mat("M", 2, 2, 1); if(which == 1) { M(1, 1) = 0.25 * sx_choose("d", -1, 2); M(1, 0) = 0.5 * sx_choose("c", -1, 1); } double D = M(0, 0) * M(1, 1) - M(0, 1) * M(1, 0); sx_assume(beyond(D, 0.1)); RealMatrix I(2, 2); if(which == 0) { I = M; Invert(I); } else if(which == 1) { const RealMatrix c(M); I = Invert(c); } else { const LUMatrix<double> lu(M); sx_close(lu.det(), D, 1e-7, "determinant"); return; }
	sx_close(I(0, 0) * D, M(1, 1), 1e-7, "inverse"); sx_close(I(0, 1) * D, -M(0, 1), 1e-7, "inverse"); sx_close(I(1, 0) * D, -M(1, 0), 1e-7, "inverse"); sx_close(I(1, 1) * D, M(0, 0), 1e-7, "inverse");
}
SX_HARNESS(refused, "matrices that cannot be inverted")
{
	int n = sx_choose("n", 2, 3), zr = sx_choose("zero row", 0, n - 1); RealMatrix M = sq(n, 1); M.row(zr) = 0.0; M(zr == 0 ? 1 : 0, 0) = sx_double("a", 1, 2); bool t = false; try { LUMatrix<double> l(M); } catch(SingularMatrix&) { t = true; } sx_assert(t, "a zero row is refused"); t = false; RealMatrix c(M); try { Invert(c); } catch(SingularMatrix&) { t = true; } sx_assert(t, "inverting a singular matrix is refused");
	RealMatrix R = mat("R", n, n + 1); t = false; try { LUMatrix<double> l(R); } catch(DimensionError&) { t = true; } sx_assert(t, "decomposing a matrix that is not square is refused"); t = false; try { Invert(R); } catch(NonSquareMatrix&) { t = true; } sx_assert(t, "inverting a matrix that is not square is refused"); t = false; try { RealMatrix Z(n, n, 0.0); SVDMatrix<double> s(Z); } catch(SingularValuesAllZero&) { t = true; } sx_assert(t, "a matrix of zeros is refused");
}
SX_HARNESS(svd, "singular value decomposition: least squares solutions of minimal norm, weights, 24 matrices of all shapes and ranks, also with nearly dependent columns")
{
	int nr = sx_choose("rows", 1, 4), nc = sx_choose("cols", 1, 3), k = sx_choose("matrix", 0, 3); bool nearly = k == 3; if(nearly) k = 2; RealMatrix M(nr, nc); RealMatrix S = sq(4, k + 1); for(int i = 0; i < nr; i++) for(int j = 0; j < nc; j++) M(i, j) = S(i, j); if(k == 2 && nc > 1) for(int i = 0; i < nr; i++) M(i, nc - 1) = 2 * M(i, 0) + (nearly ? 1e-11 * (i * i + 1) : 0);   // dependent columns
	bool any = false; for(int i = 0; i < nr; i++) for(int j = 0; j < nc; j++) any |= M(i, j) != 0; if(!any) return; bool weighted = sx_bool("weights"); RealVector w(1.0, nr); if(weighted) for(int i = 0; i < nr; i++) w[i] = 0.5 + 0.75 * i; RealVector b = vec("b", nr, 1); const RealVector cb(b); RealVector x(nc);
	if(weighted) { const SVDMatrix<double> s(M, w); x = s(cb); } else { const SVDMatrix<double> s(M); x = s(cb); RealMatrix U = s.U(), V = s.V(); RealVector W = s.W(); RealMatrix L(U.nrows(), nc); for(size_t i = 0; i < U.nrows(); i++) for(int j = 0; j < nc; j++) { double t = 0; for(int q = 0; q < nc; q++) t += U(i, q) * W[q] * V(j, q); sx_close(t, (int) i < nr ? M(i, j) : 0, 1e-6, "the factors multiply to the matrix"); } same(Transpose(V) * V, RealMatrix(IdentityMatrix(nc)), "V is orthogonal", 1e-6); for(size_t q = 0; q < W.size(); q++) { sx_assert(W[q] >= 0, "singular values are not negative"); sx_assert(s.wflags()[q] == (W[q] > 0), "flags of the singular values kept"); } }
	for(int j = 0; j < nc; j++) { double g = 0; for(int i = 0; i < nr; i++) { double r = -b[i]; for(int q = 0; q < nc; q++) r += M(i, q) * x[q]; g += w[i] * w[i] * M(i, j) * r; } sx_close(g, 0, 1e-4, "weighted squares of the deviations are minimal"); }
	if(k == 2 && nc > 1) sx_close(2 * x[0] - x[nc - 1], nc == 2 || nr > 0 ? 2 * x[0] - x[nc - 1] : 0, T, "finite"); if(k == 2 && nc > 1) { double nul = 2 * x[0] - x[nc - 1]; sx_close(nul, 0, 1e-4, "solution of minimal norm"); }
}
SX_HARNESS(symplectic, "symplectifying maps near a symplectic one")
{
	int kind = sx_choose("map", 0, 2), e = sx_choose("entry", 0, 3); static const int ei[4] = {0, 1, 3, 0}, ej[4] = {0, 0, 2, 3}; RealMatrix A(6, 6, 0.0); for(int p = 0; p < 3; p++) { double b = 0.5 + p, c = 0.6, s = 0.8; if(kind == 1) { c = 1; s = 0; } if(kind == 2) { c = 0.8; s = -0.6; } A(2 * p, 2 * p) = A(2 * p + 1, 2 * p + 1) = c; A(2 * p, 2 * p + 1) = b * s; A(2 * p + 1, 2 * p) = -s / b; }
	RealMatrix B(A); double d = sx_double("error", -0.125, 0.125); B(ei[e], ej[e]) += d; Symplectify(B); RealMatrix J(6, 6, 0.0); for(int p = 0; p < 3; p++) { J(2 * p, 2 * p + 1) = 1; J(2 * p + 1, 2 * p) = -1; } same(Transpose(B) * J * B, J, "the result is symplectic", 1e-7); if(e == 3) return; RealMatrix C(A); Symplectify(C); same(C, A, "symplectic maps are left alone", 1e-7);
}
