// property: C25
// sources: core/lib/Math/Vector/VectorBase.cpp
// opt: timeout=60 loop_max=4000
// bounded: svd svd_solve inverse_svd householder vector_norm_4
// Matrices and vectors: every shape up to 4x4 listed below, arbitrary real elements
// assumption: matrix and vector shapes are enumerated (up to 4 rows and columns); the element values are arbitrary reals
#include "vp.h"
#include <cmath>
#include <vector>
#include <valarray>
#include "Matrix.hpp"
#include "Vector.hpp"
using namespace gpstk;
typedef Matrix<double> M;
typedef Vector<double> V;
static const double BIG = 1e6;
static const char *const A[16] = {"a0","a1","a2","a3","a4","a5","a6","a7","a8","a9","a10","a11","a12","a13","a14","a15"};
static const char *const B[16] = {"b0","b1","b2","b3","b4","b5","b6","b7","b8","b9","b10","b11","b12","b13","b14","b15"};
static M mat(const char *const *n, size_t r, size_t c, double lo = -BIG, double hi = BIG)
{
   M m(r, c);
   for (size_t i = 0; i < r; i++)
      for (size_t j = 0; j < c; j++)
         m(i, j) = vp_f64(n[i * c + j], lo, hi);
   return m;
}
static V vec(const char *const *n, size_t s, double lo = -BIG, double hi = BIG)
{
   V v(s);
   for (size_t i = 0; i < s; i++) v(i) = vp_f64(n[i], lo, hi);
   return v;
}
static bool shape(const M &m, size_t r, size_t c) { return m.rows() == r && m.cols() == c && m.size() == r * c; }
template <class F> static bool refuses(F f)
{
   try { f(); } catch (Exception &) { return true; }
   return false;
}
// ---- joining
template <size_t R, size_t C> static void joins()
{
   M a = mat(A, R, C), b = mat(B, R, C);
   V v = vec(B, R), w = vec(B, C);
   {
      M m = a && b;
      vp_ensure(shape(m, 2 * R, C), "shape of top to bottom");
      bool ok = true;
      for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) ok = ok && m(i, j) == a(i, j) && m(R + i, j) == b(i, j);
      vp_ensure(ok, "top to bottom");
   }
   {
      M m = a || b;
      vp_ensure(shape(m, R, 2 * C), "shape of left to right");
      bool ok = true;
      for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) ok = ok && m(i, j) == a(i, j) && m(i, C + j) == b(i, j);
      vp_ensure(ok, "left to right");
   }
   {
      M m = a && w, n = w && a;
      vp_ensure(shape(m, R + 1, C) && shape(n, R + 1, C), "shape with one more row");
      bool ok = true;
      for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) ok = ok && m(i, j) == a(i, j) && n(i + 1, j) == a(i, j);
      for (size_t j = 0; j < C; j++) ok = ok && m(R, j) == w(j) && n(0, j) == w(j);
      vp_ensure(ok, "one more row");
   }
   {
      M m = a || v, n = v || a;
      vp_ensure(shape(m, R, C + 1) && shape(n, R, C + 1), "shape with one more column");
      bool ok = true;
      for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) ok = ok && m(i, j) == a(i, j) && n(i, j + 1) == a(i, j);
      for (size_t i = 0; i < R; i++) ok = ok && m(i, C) == v(i) && n(i, 0) == v(i);
      vp_ensure(ok, "one more column");
   }
}
extern "C" void vpproof__C25__join_23__int_real() { joins<2, 3>(); }
extern "C" void vpproof__C25__join_32__int_real() { joins<3, 2>(); }
extern "C" void vpproof__C25__join_11__int_real() { joins<1, 1>(); }
extern "C" void vpproof__C25__join_43__int_real() { joins<4, 3>(); }
extern "C" void vpproof__C25__join_vectors__int_real()
{
   V v = vec(A, 3), w = vec(B, 3), x = vec(B, 2);
   M m = v || w;
   vp_ensure(shape(m, 3, 2), "shape of two columns");
   bool ok = true;
   for (size_t i = 0; i < 3; i++) ok = ok && m(i, 0) == v(i) && m(i, 1) == w(i);
   vp_ensure(ok, "two columns");
   double k = vp_f64("k", -BIG, BIG);
   V p = v && x, q = v && k, r(v), s(v);
   r << x;
   s << k;
   vp_ensure(p.size() == 5 && r.size() == 5 && q.size() == 4 && s.size() == 4, "sizes of joined vectors");
   for (size_t i = 0; i < 3; i++) ok = ok && p(i) == v(i) && q(i) == v(i) && r(i) == v(i) && s(i) == v(i);
   for (size_t i = 0; i < 2; i++) ok = ok && p(3 + i) == x(i) && r(3 + i) == x(i);
   vp_ensure(ok && q(3) == k && s(3) == k, "joined vectors");
}
// ---- parts
template <size_t R, size_t C> static void minors()
{
   M a = mat(A, R, C);
   bool ok = true;
   for (size_t r = 0; r < R; r++)
      for (size_t c = 0; c < C; c++)
      {
         M m = minorMatrix(a, r, c);
         ok = ok && shape(m, R - 1, C - 1);
         for (size_t i = 0; i + 1 < R; i++)
            for (size_t j = 0; j + 1 < C; j++)
               ok = ok && m(i, j) == a(i < r ? i : i + 1, j < c ? j : j + 1);
      }
   vp_ensure(ok, "the matrix without one row and one column");
   vp_ensure(refuses([&]() { minorMatrix(a, R, 0); }) && refuses([&]() { minorMatrix(a, 0, C); }), "no such row or column");
}
extern "C" void vpproof__C25__minor_44__int_real() { minors<4, 4>(); }
extern "C" void vpproof__C25__minor_34__int_real() { minors<3, 4>(); }
extern "C" void vpproof__C25__minor_33__int_real() { minors<3, 3>(); }
extern "C" void vpproof__C25__minor_22__int_real() { minors<2, 2>(); }
extern "C" void vpproof__C25__minor_42__int_real() { minors<4, 2>(); }
template <size_t R, size_t C> static void parts()
{
   M a = mat(A, R, C);
   bool ok = true;
   for (size_t r0 = 0; r0 < R; r0++) for (size_t c0 = 0; c0 < C; c0++)
      for (size_t nr = 1; r0 + nr <= R; nr++) for (size_t nc = 1; c0 + nc <= C; nc++)
      {
         M m(a, r0, c0, nr, nc);
         ok = ok && shape(m, nr, nc);
         for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) ok = ok && m(i, j) == a(r0 + i, c0 + j);
         ConstMatrixSlice<double> s(a, r0, c0, nr, nc);
         ok = ok && s.rows() == nr && s.cols() == nc;
         for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) ok = ok && s(i, j) == a(r0 + i, c0 + j);
      }
   vp_ensure(ok, "submatrices");
   vp_ensure(refuses([&]() { M m(a, 0, 0, R + 1, C); }) && refuses([&]() { M m(a, 0, 1, R, C); })
             && refuses([&]() { M m(a, 1, 0, R, C); }) && refuses([&]() { M m(a, 0, 0, 1, C + 1); }), "submatrices outside are refused");
   for (size_t c = 0; c < C; c++)
      for (size_t r = 0; r < R; r++)
      {
         V v = a.colCopy(c, r), w = a.rowCopy(r, c);
         const M &ca = a;
         ConstMatrixColSlice<double> cs = ca.col(c, r);
         ConstMatrixRowSlice<double> rs = ca.row(r, c);
         MatrixColSlice<double> cr = a.colRef(c, r);
         MatrixRowSlice<double> rr = a.rowRef(r, c);
         ok = ok && v.size() == R - r && w.size() == C - c && cs.size() == R - r && rs.size() == C - c && cr.size() == R - r && rr.size() == C - c;
         for (size_t i = r; i < R; i++) ok = ok && v(i - r) == a(i, c) && cs(i - r) == a(i, c) && cr(i - r) == a(i, c);
         for (size_t j = c; j < C; j++) ok = ok && w(j - c) == a(r, j) && rs(j - c) == a(r, j) && rr(j - c) == a(r, j);
      }
   vp_ensure(ok, "rows and columns");
   V d = a.diagCopy();
   ok = d.size() == (R < C ? R : C);
   for (size_t i = 0; i < R && i < C; i++) ok = ok && d(i) == a(i, i);
   vp_ensure(ok, "diagonal");
   M t = transpose(a);
   ok = shape(t, C, R);
   for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) ok = ok && t(j, i) == a(i, j);
   vp_ensure(ok, "transpose");
}
extern "C" void vpproof__C25__parts_34__int_real() { parts<3, 4>(); }
extern "C" void vpproof__C25__parts_32__int_real() { parts<3, 2>(); }
extern "C" void vpproof__C25__parts_22__int_real() { parts<2, 2>(); }
template <size_t R, size_t C> static void swaps()
{
   M a = mat(A, R, C), b(a);
   for (size_t p = 0; p < R; p++) for (size_t q = 0; q < R; q++)
   {
      b = a;
      b.swapRows(p, q);
      bool ok = shape(b, R, C);
      for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) ok = ok && b(i, j) == a(i == p ? q : i == q ? p : i, j);
      vp_ensure(ok, "rows swapped");
   }
   for (size_t p = 0; p < C; p++) for (size_t q = 0; q < C; q++)
   {
      b = a;
      b.swapCols(p, q);
      bool ok = shape(b, R, C);
      for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) ok = ok && b(i, j) == a(i, j == p ? q : j == q ? p : j);
      vp_ensure(ok, "columns swapped");
   }
}
extern "C" void vpproof__C25__swap__int_real() { swaps<3, 2>(); }
// writing through a slice changes that part and nothing else
extern "C" void vpproof__C25__slice_write__int_real()
{
   M a = mat(A, 3, 3), m = mat(B, 2, 2);
   M b(a);
   MatrixSlice<double> s(b, 1, 0, 2, 2);
   s = m;
   bool ok = true;
   for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++)
      ok = ok && b(i, j) == (i >= 1 && j <= 1 ? m(i - 1, j) : a(i, j));
   vp_ensure(ok, "block written");
   double k = vp_f64("k", -BIG, BIG);
   M c(a), d(a);
   MatrixColSlice<double> cs = c.colRef(1, 1);
   cs = k;
   MatrixRowSlice<double> rs = d.rowRef(2, 1);
   rs = k;
   for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++)
   {
      ok = ok && c(i, j) == (j == 1 && i >= 1 ? k : a(i, j));
      ok = ok && d(i, j) == (i == 2 && j >= 1 ? k : a(i, j));
   }
   vp_ensure(ok, "column and row written");
   vp_ensure(refuses([&]() { MatrixSlice<double> z(b, 2, 0, 2, 2); }) && refuses([&]() { MatrixSlice<double> z(b, 0, 2, 2, 2); }), "slices outside are refused");
   M e(a);
   MatrixSlice<double> st(e, std::slice(0, 2, 2), std::slice(1, 2, 1));
   st = m;
   for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++)
      ok = ok && e(i, j) == (i != 1 && j >= 1 ? m(i / 2, j - 1) : a(i, j));
   vp_ensure(ok, "strided block written");
}
extern "C" void vpproof__C25__build__int_real()
{
   V v = vec(A, 6);
   double k = vp_f64("k", -BIG, BIG);
   M a(2, 3, v), b(2, 3, k), c(2, 3);
   c = v;
   bool ok = shape(a, 2, 3) && shape(b, 2, 3) && shape(c, 2, 3);
   for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) ok = ok && a(i, j) == v(i * 3 + j) && b(i, j) == k && c(i, j) == v(i * 3 + j);
   vp_ensure(ok, "matrix from values row by row");
   M d;
   d = a;
   M e(d);
   d.resize(4, 4, k);
   ok = shape(d, 4, 4) && shape(e, 2, 3);
   for (size_t i = 0; i < 4; i++) for (size_t j = 0; j < 4; j++) ok = ok && d(i, j) == k;
   for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) ok = ok && e(i, j) == a(i, j);
   vp_ensure(ok, "copies are independent");
   M id = ident<double>(3);
   for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) ok = ok && id(i, j) == (i == j ? 1. : 0.);
   vp_ensure(ok && shape(id, 3, 3) && refuses([]() { ident<double>(0); }), "identity");
   M s(3, 3, k);
   ident(s);
   for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) ok = ok && s(i, j) == (i == j ? 1. : 0.);
   vp_ensure(ok && refuses([&]() { ident(a); }), "made an identity");
}
extern "C" void vpproof__C25__blocks__int_real()
{
   M a = mat(A, 2, 2), b = mat(B, 3, 3), c(1, 1, vp_f64("c", -BIG, BIG));
   M m = blkdiag(a, b), n = blkdiag(a, c, a);
   bool ok = shape(m, 5, 5) && shape(n, 5, 5);
   for (size_t i = 0; i < 5; i++) for (size_t j = 0; j < 5; j++)
   {
      ok = ok && m(i, j) == (i < 2 && j < 2 ? a(i, j) : i >= 2 && j >= 2 ? b(i - 2, j - 2) : 0.);
      ok = ok && n(i, j) == (i < 2 && j < 2 ? a(i, j) : i > 2 && j > 2 ? a(i - 3, j - 3) : i == 2 && j == 2 ? c(0, 0) : 0.);
   }
   vp_ensure(ok, "block diagonal");
   M d = diag(b);
   for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) ok = ok && d(i, j) == (i == j ? b(i, j) : 0.);
   vp_ensure(ok && shape(d, 3, 3), "diagonal part");
   vp_ensure(trace(b) == b(0, 0) + b(1, 1) + b(2, 2), "trace");
   M r = mat(B, 2, 3);
   vp_ensure(refuses([&]() { diag(r); }) && refuses([&]() { blkdiag(a, r); }) && refuses([&]() { blkdiag(r, a); }) && refuses([&]() { trace(r); }), "square only");
}
// ---- arithmetic
template <size_t R, size_t K, size_t C> static void products()
{
   M a = mat(A, R, K), b = mat(B, K, C);
   M m = a * b;
   vp_ensure(shape(m, R, C), "shape of the product");
   for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++)
   {
      double s = 0;
      for (size_t k = 0; k < K; k++) s += a(i, k) * b(k, j);
      vp_ensure(vp_eqt(m(i, j), s, 1e13), "rows by columns");
   }
   V v = vec(B, K);
   V p = a * v;
   vp_ensure(p.size() == R, "size of matrix by vector");
   for (size_t i = 0; i < R; i++)
   {
      double s = 0;
      for (size_t k = 0; k < K; k++) s += a(i, k) * v(k);
      vp_ensure(vp_eqt(p(i), s, 1e13), "matrix by vector");
   }
   V u = vec(B, R);
   V q = u * a;
   vp_ensure(q.size() == K, "size of vector by matrix");
   for (size_t k = 0; k < K; k++)
   {
      double s = 0;
      for (size_t i = 0; i < R; i++) s += a(i, k) * u(i);
      vp_ensure(vp_eqt(q(k), s, 1e13), "vector by matrix");
   }
}
extern "C" void vpproof__C25__product_234__int_real() { products<2, 3, 4>(); }
extern "C" void vpproof__C25__product_321__int_real() { products<3, 2, 1>(); }
extern "C" void vpproof__C25__product_333__int_real() { products<3, 3, 3>(); }
template <size_t R, size_t C> static void sums()
{
   M a = mat(A, R, C), b = mat(B, R, C);
   double k = vp_f64("k", -BIG, BIG);
   vp_assume(k != 0);
   M s = a + b, d = a - b, t = a * k, u = k * a, q = a / k, ak = a + k, ka = k + a, sk = a - k, n = -a;
   M e(a), f(a);
   e += b;
   f -= b;
   M g(a), h(a), gi(a), hi(a);
   g *= k;
   h /= k;
   gi += k;
   hi -= k;
   bool ok = shape(s, R, C) && shape(d, R, C) && shape(t, R, C) && shape(u, R, C) && shape(q, R, C) && shape(n, R, C);
   vp_ensure(ok, "shapes of sums");
   for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++)
   {
      vp_ensure(vp_eqt(s(i, j), a(i, j) + b(i, j), BIG) && vp_eqt(e(i, j), a(i, j) + b(i, j), BIG), "sum");
      vp_ensure(vp_eqt(d(i, j), a(i, j) - b(i, j), BIG) && vp_eqt(f(i, j), a(i, j) - b(i, j), BIG), "difference");
      vp_ensure(vp_eqt(t(i, j), a(i, j) * k, 0) && vp_eqt(u(i, j), a(i, j) * k, 0) && vp_eqt(g(i, j), a(i, j) * k, 0), "multiple");
      vp_ensure(vp_eqt(q(i, j), a(i, j) / k, 0) && vp_eqt(h(i, j), a(i, j) / k, 0), "quotient");
      vp_ensure(vp_eqt(ak(i, j), a(i, j) + k, BIG) && vp_eqt(ka(i, j), a(i, j) + k, BIG) && vp_eqt(gi(i, j), a(i, j) + k, BIG), "added number");
      vp_ensure(vp_eqt(sk(i, j), a(i, j) - k, BIG) && vp_eqt(hi(i, j), a(i, j) - k, BIG), "subtracted number");
      vp_ensure(n(i, j) == -a(i, j), "negative");
   }
}
extern "C" void vpproof__C25__sum_23__int_real() { sums<2, 3>(); }
extern "C" void vpproof__C25__sum_32__int_real() { sums<3, 2>(); }
extern "C" void vpproof__C25__refusals__int_real()
{
   M a = mat(A, 2, 3), b = mat(B, 3, 2), c(2, 2, 1.), z;
   V v = vec(A, 3), w = vec(B, 2), e;
   vp_ensure(refuses([&]() { a * a; }) && refuses([&]() { a * c; }) && !refuses([&]() { a * b; }), "product of unfit matrices");
   vp_ensure(refuses([&]() { a + b; }) && refuses([&]() { a + c; }) && refuses([&]() { c + a; }), "sum of unfit matrices");
   vp_ensure(refuses([&]() { a - b; }) && refuses([&]() { a - c; }) && refuses([&]() { c - b; }), "difference of unfit matrices");
   vp_ensure(refuses([&]() { a * w; }) && !refuses([&]() { a * v; }), "matrix by an unfit vector");
   vp_ensure(refuses([&]() { v * a; }) && !refuses([&]() { w * a; }), "vector by an unfit matrix");
   vp_ensure(refuses([&]() { a && b; }) && !refuses([&]() { c && b; }), "columns differ");
   vp_ensure(refuses([&]() { a || b; }) && !refuses([&]() { a || c; }), "rows differ");
   vp_ensure(refuses([&]() { a && w; }) && !refuses([&]() { a && v; }), "row of another length");
   vp_ensure(refuses([&]() { w && a; }) && !refuses([&]() { v && a; }), "row of another length");
   vp_ensure(refuses([&]() { a || v; }) && !refuses([&]() { a || w; }), "column of another length");
   vp_ensure(refuses([&]() { v || a; }) && !refuses([&]() { w || a; }), "column of another length");
   vp_ensure(refuses([&]() { v || w; }), "columns of two lengths");
   vp_ensure(refuses([&]() { v + w; }) && refuses([&]() { v - w; }) && refuses([&]() { v * w; }) && refuses([&]() { v / w; }), "vectors of two lengths");
   vp_ensure(refuses([&]() { outer(v, e); }) && refuses([&]() { outer(e, v); }), "outer product of nothing");
   vp_ensure(refuses([&]() { inverse(a); }) && refuses([&]() { inverse(z); }) && refuses([&]() { inverseLUD(b); }), "inverse of a matrix that is not square");
   LUDecomp<double> lu;
   Cholesky<double> ch;
   CholeskyCrout<double> cc;
   vp_ensure(refuses([&]() { lu(a); }) && refuses([&]() { lu(z); }) && refuses([&]() { ch(a); }) && refuses([&]() { cc(b); }), "decomposition of a matrix that is not square");
   vp_ensure(refuses([&]() { cross(v, w); }) && refuses([&]() { cross(w, v); }) && refuses([&]() { cross(w, w); }) && !refuses([&]() { cross(v, v); }), "cross product in three dimensions");
   vp_ensure(refuses([&]() { slowDet(a); }) && refuses([&]() { det(b); }), "determinant of a matrix that is not square");
   vp_ensure(refuses([&]() { V q(v, 1, 3); }) && refuses([&]() { V q(v, 3, 0); }) && !refuses([&]() { V q(v, 1, 2); }), "part of a vector");
   vp_ensure(refuses([&]() { min(e); }) && refuses([&]() { max(e); }) && refuses([&]() { minabs(e); }) && refuses([&]() { maxabs(e); }), "extremes of nothing");
}
extern "C" void vpproof__C25__kinds__int_real()
{
   M a = mat(A, 3, 3);
   bool ut = a(1, 0) == 0 && a(2, 0) == 0 && a(2, 1) == 0, lt = a(0, 1) == 0 && a(0, 2) == 0 && a(1, 2) == 0;
   vp_ensure(a.isSquare() && a.isUT() == ut && a.isLT() == lt, "triangular");
   vp_ensure(a.isDiagonal() == (ut && lt), "diagonal");
   vp_ensure(a.isSymmetric() == (a(0, 1) == a(1, 0) && a(0, 2) == a(2, 0) && a(1, 2) == a(2, 1)), "symmetric");
   M b(2, 3, 0.);
   vp_ensure(!b.isSquare() && !b.isUT() && !b.isLT() && !b.isDiagonal() && !b.isSymmetric(), "not square");
}
extern "C" void vpproof__C25__rotation__int_real()
{
   double x = vp_f64("angle", -100, 100);
   double c = std::cos(x), s = std::sin(x);
   M r1 = rotation(x, 1), r2 = rotation(x, 2), r3 = rotation(x, 3);
   const double e1[9] = {1, 0, 0, 0, c, s, 0, -s, c}, e2[9] = {c, 0, -s, 0, 1, 0, s, 0, c}, e3[9] = {c, s, 0, -s, c, 0, 0, 0, 1};
   bool ok = shape(r1, 3, 3) && shape(r2, 3, 3) && shape(r3, 3, 3);
   for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++)
      ok = ok && vp_eqt(r1(i, j), e1[i * 3 + j], 1) && vp_eqt(r2(i, j), e2[i * 3 + j], 1) && vp_eqt(r3(i, j), e3[i * 3 + j], 1);
   vp_ensure(ok, "rotation about an axis");
   int ax = (int)vp_i64("axis", -10, 10);
   vp_assume(ax < 1 || ax > 3);
   vp_ensure(refuses([&]() { rotation(x, ax); }), "no other axes");
}
// ---- determinants, inverses, solutions
extern "C" void vpproof__C25__det_slow__int_real()
{
   M a = mat(A, 2, 2), b = mat(A, 3, 3);
   vp_ensure(vp_eqt(slowDet(a), a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0), 1e13), "2x2 determinant");
   double d = b(0, 0) * (b(1, 1) * b(2, 2) - b(1, 2) * b(2, 1)) - b(0, 1) * (b(1, 0) * b(2, 2) - b(1, 2) * b(2, 0)) + b(0, 2) * (b(1, 0) * b(2, 1) - b(1, 1) * b(2, 0));
   vp_ensure(vp_eqt(slowDet(b), d, 1e19), "3x3 determinant");
}
static const double SMALL = 100;
static bool tame(double det)
{
#ifdef VP_PROOF
   (void)det; return true;
#else
   return std::fabs(det) > 1e-2;
#endif
}
extern "C" void vpproof__C25__det_lu__int_real()
{
   M a = mat(A, 2, 2, -SMALL, SMALL);
   double d = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0), x = 0;
   if (!tame(d)) return;
   bool thrown = refuses([&]() { x = det(a); });
   vp_ensure(thrown == (d == 0), "a singular matrix is refused");
   if (!thrown) vp_ensure(vp_eqt(x, d, 1e6), "determinant");
}
extern "C" void vpproof__C25__inverse_2__int_real()
{
   M a = mat(A, 2, 2, -SMALL, SMALL), x;
   double d = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
   if (!tame(d) || !tame(a(0, 0))) return;
   bool thrown = refuses([&]() { x = inverse(a); });
   vp_ensure(thrown == (d == 0), "a singular matrix is refused");
   if (thrown) return;
   vp_ensure(shape(x, 2, 2), "shape of the inverse");
   vp_ensure(vp_eqt(x(0, 0) * d, a(1, 1), 1e6) && vp_eqt(x(0, 1) * d, -a(0, 1), 1e6) && vp_eqt(x(1, 0) * d, -a(1, 0), 1e6) && vp_eqt(x(1, 1) * d, a(0, 0), 1e6), "inverse");
}
extern "C" void vpproof__C25__inverse_lu_2__int_real()
{
   M a = mat(A, 2, 2, -SMALL, SMALL), x, y;
   double d = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0), e = 0;
   if (!tame(d)) return;
   bool thrown = refuses([&]() { x = inverseLUD(a); y = inverseLUD(a, e); });
   vp_ensure(thrown == (d == 0), "a singular matrix is refused");
   if (thrown) return;
   vp_ensure(vp_eqt(e, d, 1e6), "determinant of the decomposition");
   bool ok = true;
   for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) ok = ok && vp_eqt(x(i, j), y(i, j), 1);
   vp_ensure(ok, "both forms agree");
   vp_ensure(vp_eqt(x(0, 0) * d, a(1, 1), 1e6) && vp_eqt(x(0, 1) * d, -a(0, 1), 1e6) && vp_eqt(x(1, 0) * d, -a(1, 0), 1e6) && vp_eqt(x(1, 1) * d, a(0, 0), 1e6), "inverse");
}
extern "C" void vpproof__C25__solve_lu_2__int_real()
{
   M a = mat(A, 2, 2, -SMALL, SMALL);
   V b = vec(B, 2, -SMALL, SMALL);
   double d = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
   vp_assume(d != 0);
   if (!tame(d)) return;
   LUDecomp<double> lu;
   lu(a);
   V x(b);
   lu.backSub(x);
   vp_ensure(vp_eqt(a(0, 0) * x(0) + a(0, 1) * x(1), b(0), 1e6) && vp_eqt(a(1, 0) * x(0) + a(1, 1) * x(1), b(1), 1e6), "solution");
   V w(3, 0.);
   vp_ensure(refuses([&]() { lu.backSub(w); }), "right side of another length");
}
static double det3(const M &b)
{
   return b(0, 0) * (b(1, 1) * b(2, 2) - b(1, 2) * b(2, 1)) - b(0, 1) * (b(1, 0) * b(2, 2) - b(1, 2) * b(2, 0)) + b(0, 2) * (b(1, 0) * b(2, 1) - b(1, 1) * b(2, 0));
}
extern "C" void vpproof__C25__cholesky_2__int_real()
{
   double p = vp_f64("p", -SMALL, SMALL), q = vp_f64("q", -SMALL, SMALL), r = vp_f64("r", -SMALL, SMALL);
   M a(2, 2);
   a(0, 0) = p; a(0, 1) = a(1, 0) = q; a(1, 1) = r;
   bool pd = p > 0 && p * r - q * q > 0;
   if (!tame(p * r - q * q) || !tame(p) || !tame(r)) return;
   Cholesky<double> ch;
   CholeskyCrout<double> cc;
   vp_ensure(refuses([&]() { ch(a); }) == !pd, "Cholesky needs a positive definite matrix");
   vp_ensure(refuses([&]() { cc(a); }) == !pd, "Cholesky-Crout needs a positive definite matrix");
   if (!pd) return;
   vp_ensure(ch.L(0, 0) > 0 && ch.L(1, 1) > 0 && ch.L(0, 1) == 0 && ch.U(0, 0) > 0 && ch.U(1, 1) > 0 && ch.U(1, 0) == 0, "triangular");
   vp_ensure(vp_eqt(ch.L(0, 0) * ch.L(0, 0), p, 1e3) && vp_eqt(ch.L(0, 0) * ch.L(1, 0), q, 1e3) && vp_eqt(ch.L(1, 0) * ch.L(1, 0) + ch.L(1, 1) * ch.L(1, 1), r, 1e4), "L times its transpose");
   vp_ensure(vp_eqt(ch.U(1, 1) * ch.U(1, 1), r, 1e3) && vp_eqt(ch.U(1, 1) * ch.U(0, 1), q, 1e3) && vp_eqt(ch.U(0, 1) * ch.U(0, 1) + ch.U(0, 0) * ch.U(0, 0), p, 1e4), "U times its transpose");
   vp_ensure(vp_eqt(cc.L(0, 0) * cc.L(0, 0), p, 1e3) && vp_eqt(cc.L(0, 0) * cc.L(1, 0), q, 1e3) && vp_eqt(cc.L(1, 0) * cc.L(1, 0) + cc.L(1, 1) * cc.L(1, 1), r, 1e4), "Crout's L times its transpose");
   bool ok = true;
   for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) ok = ok && cc.U(i, j) == cc.L(j, i);
   vp_ensure(ok, "Crout's U");
}
// ---- vectors
extern "C" void vpproof__C25__vector_ops__int_real()
{
   V v = vec(A, 3), w = vec(B, 3);
   double k = vp_f64("k", -BIG, BIG);
   vp_assume(k != 0 && w(0) != 0 && w(1) != 0 && w(2) != 0);
   V s = v + w, d = v - w, p = v * w, q = v / w, vk = v * k, kv = k * v, qk = v / k, ak = v + k, sk = v - k, ks = k - v, n = -v;
   V e(v), f(v), g(v), h(v);
   e += w; f -= w; g *= k; h /= k;
   for (size_t i = 0; i < 3; i++)
   {
      vp_ensure(vp_eqt(s(i), v(i) + w(i), BIG) && vp_eqt(e(i), v(i) + w(i), BIG), "sum");
      vp_ensure(vp_eqt(d(i), v(i) - w(i), BIG) && vp_eqt(f(i), v(i) - w(i), BIG), "difference");
      vp_ensure(vp_eqt(p(i), v(i) * w(i), 0) && vp_eqt(q(i), v(i) / w(i), 0), "element by element");
      vp_ensure(vp_eqt(vk(i), v(i) * k, 0) && vp_eqt(kv(i), v(i) * k, 0) && vp_eqt(g(i), v(i) * k, 0), "multiple");
      vp_ensure(vp_eqt(qk(i), v(i) / k, 0) && vp_eqt(h(i), v(i) / k, 0), "quotient");
      vp_ensure(vp_eqt(ak(i), v(i) + k, BIG) && vp_eqt(sk(i), v(i) - k, BIG) && vp_eqt(ks(i), k - v(i), BIG), "with a number");
      vp_ensure(n(i) == -v(i), "negative");
   }
   vp_ensure(vp_eqt(sum(v), v(0) + v(1) + v(2), BIG), "sum of the elements");
   vp_ensure(vp_eqt(dot(v, w), v(0) * w(0) + v(1) * w(1) + v(2) * w(2), 1e13), "dot product");
   V c = cross(v, w);
   vp_ensure(c.size() == 3 && vp_eqt(c(0), v(1) * w(2) - v(2) * w(1), 1e13) && vp_eqt(c(1), v(2) * w(0) - v(0) * w(2), 1e13) && vp_eqt(c(2), v(0) * w(1) - v(1) * w(0), 1e13), "cross product");
   M o = outer(v, w);
   bool ok = shape(o, 3, 3);
   for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) ok = ok && vp_eqt(o(i, j), v(i) * w(j), 0);
   vp_ensure(ok, "outer product");
   V x = vec(A, 4), y = vec(B, 4);
   vp_ensure(vp_eqt(Minkowski(x, y), x(0) * y(0) + x(1) * y(1) + x(2) * y(2) - x(3) * y(3), 1e13), "Minkowski product");
}
extern "C" void vpproof__C25__vector_access__int_real()
{
   V v = vec(A, 4);
   std::vector<double> w = v.toStdVector();
   bool ok = w.size() == 4 && v.size() == 4 && !v.empty() && V().empty();
   for (size_t i = 0; i < 4; i++) ok = ok && w[i] == v(i) && v[i] == v(i) && v.begin()[i] == v(i);
   vp_ensure(ok && v.end() - v.begin() == 4, "elements in order");
   const V &cv = v;
   vp_ensure(v.front() == v(0) && cv.front() == v(0), "first element");
   V p(v, 1, 2), c(v), d;
   d = v;
   vp_ensure(p.size() == 2 && p(0) == v(1) && p(1) == v(2), "part");
   double k = vp_f64("k", -BIG, BIG);
   c(2) = k;
   vp_ensure(c(2) == k && c(0) == v(0) && c(1) == v(1) && c(3) == v(3) && d(2) == v(2) && d.size() == 4, "copies are independent");
   d = k;
   V f(3, k);
   vp_ensure(d.size() == 4 && d(0) == k && d(3) == k && f.size() == 3 && f(0) == k && f(2) == k, "filled");
   d = w;
   V e;
   e.resize(6, k);
   vp_ensure(d.size() == 4 && d(0) == v(0) && d(3) == v(3) && e.size() == 6 && e(0) == k && e(5) == k, "resized");
   VectorSlice<double> s(v, std::slice(1, 2, 2));
   vp_ensure(s.size() == 2 && s(0) == v(1) && s(1) == v(3), "slice");
   double v0 = v(0), v2 = v(2);
   s = k;
   vp_ensure(v(1) == k && v(3) == k && v(0) == v0 && v(2) == v2, "slice written");
}
template <size_t N> static void norms()
{
   V v = vec(A, N, -SMALL, SMALL);
   double m = norm(v), q = 0;
   bool tie = false;
   for (size_t i = 0; i < N; i++)
   {
      tie = tie || (i > 0 && v(i) * v(i) == q);
      q += v(i) * v(i);
   }
   vp_ensure(m >= 0, "not negative");
   // equal magnitudes are combined with a rounded sqrt(2): norm_ties
   vp_ensure(tie || vp_eqt(m * m, q, 1e-3), "norm");
   vp_ensure(norm(V()) == 0, "norm of nothing");
}
extern "C" void vpproof__C25__vector_norm_1__int_real() { norms<1>(); }
extern "C" void vpproof__C25__vector_norm_2__int_real() { norms<2>(); }
extern "C" void vpproof__C25__vector_norm_4__int_real() { norms<4>(); }
extern "C" void vpproof__C25__vector_norm_ties__int_real()
{
   double x = vp_f64("x", -SMALL, SMALL), y = vp_f64("y", -SMALL, SMALL);
   vp_assume(std::fabs(x) == std::fabs(y));
   V v(2, x);
   v(1) = y;
   double m = norm(v);
   vp_ensure(m >= 0 && std::fabs(m * m - 2 * x * x) <= 1e-12 * (x * x), "norm of equal elements");
}
extern "C" void vpproof__C25__vector_extremes__int_real()
{
   V v = vec(A, 4);
   double lo = min(v), hi = max(v), la = minabs(v), ha = maxabs(v);
   bool in1 = false, in2 = false, in3 = false, in4 = false, ok = true;
   for (size_t i = 0; i < 4; i++)
   {
      in1 = in1 || lo == v(i); in2 = in2 || hi == v(i); in3 = in3 || la == v(i); in4 = in4 || ha == v(i);
      ok = ok && lo <= v(i) && hi >= v(i) && std::fabs(la) <= std::fabs(v(i)) && std::fabs(ha) >= std::fabs(v(i));
   }
   vp_ensure(ok && in1 && in2 && in3 && in4, "smallest and largest elements");
}
// ---- bounded: iterative or with too many paths for the verifier
// elements that are multiples of 1/16: no denormals
static M coarse(const char *const *n, size_t r, size_t c)
{
   M m = mat(n, r, c, -SMALL, SMALL);
   for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m(i, j) = std::floor(m(i, j) * 16) / 16;
   return m;
}
static double far(const M &a, const M &b)
{
   double m = 0;
   for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < a.cols(); j++) { double d = std::fabs(a(i, j) - b(i, j)); if (d > m) m = d; }
   return m;
}
template <size_t R, size_t C> static void svd_of()
{
   M a = coarse(A, R, C);
   SVD<double> svd;
   svd(a);
   size_t n = svd.S.size();
   M w(n, n, 0.);
   bool ok = true;
   for (size_t i = 0; i < n; i++) { w(i, i) = svd.S(i); ok = ok && svd.S(i) >= 0; }
   vp_ensure(ok, "singular values are not negative");
   M u(svd.U, 0, 0, R, n), v(svd.V, 0, 0, C, n);
   vp_ensure(far(u * w * transpose(v), a) < 1e-8, "the matrix is U S V'");
   const M &o = R >= C ? svd.V : svd.U;   // the square one
   double least = svd.S(0);
   for (size_t i = 1; i < n; i++) if (svd.S(i) < least) least = svd.S(i);
   // a rank-deficient matrix that is not square may leave a zero column in the square factor
   vp_ensure(shape(o, n, n), "shape of the square factor");
   if (least > 1e-9) vp_ensure(far(transpose(o) * o, ident<double>(n)) < 1e-9, "the square factor is orthogonal");
   svd.sort(true);
   for (size_t i = 0; i + 1 < n; i++) ok = ok && svd.S(i) >= svd.S(i + 1);
   vp_ensure(ok, "descending");
   M us(svd.U, 0, 0, R, n), vs(svd.V, 0, 0, C, n);
   for (size_t i = 0; i < n; i++) w(i, i) = svd.S(i);
   vp_ensure(far(us * w * transpose(vs), a) < 1e-8, "still the matrix when sorted");
   svd.sort(false);
   for (size_t i = 0; i + 1 < n; i++) ok = ok && svd.S(i) <= svd.S(i + 1);
   vp_ensure(ok, "ascending");
}
extern "C" void vpproof__C25__svd__int_real() { svd_of<3, 3>(); svd_of<4, 2>(); svd_of<2, 4>(); }
extern "C" void vpproof__C25__svd_solve__int_real()
{
   M a = coarse(A, 3, 3);
   V b = vec(B, 3, -SMALL, SMALL);
   if (std::fabs(det3(a)) < 1) return;
   SVD<double> svd;
   svd(a);
   V x(b);
   svd.backSub(x);
   V r = a * x;
   vp_ensure(vp_eqt(r(0), b(0), 1e3) && vp_eqt(r(1), b(1), 1e3) && vp_eqt(r(2), b(2), 1e3), "solution");
   vp_ensure(std::fabs(svd.det() - std::fabs(det3(a))) < 1e-3, "size of the determinant");
}
extern "C" void vpproof__C25__inverse_svd__int_real()
{
   M a = coarse(A, 3, 3), I = ident<double>(3);
   if (std::fabs(det3(a)) < 1) return;
   double big = 0, small = 0;
   V sv;
   // no pivoting: only where the leading minors are not tiny
   if (std::fabs(a(0, 0)) > 1 && std::fabs(a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0)) > 1) vp_ensure(far(a * inverse(a), I) < 1e-4, "Gaussian inverse");
   vp_ensure(far(a * inverseLUD(a), I) < 1e-6, "inverse by decomposition");
   double d = 0;
   vp_ensure(far(a * inverseLUD(a, d), I) < 1e-6 && std::fabs(d - det3(a)) < 1e-3 && std::fabs(det(a) - det3(a)) < 1e-3, "inverse and determinant");
   vp_ensure(far(a * inverseSVD(a), I) < 1e-6, "inverse by singular values");
   vp_ensure(far(a * inverseSVD(a, big, small), I) < 1e-6 && far(a * inverseSVD(a, sv), I) < 1e-6, "inverse by singular values");
   vp_ensure(sv.size() == 3 && sv(0) == big && sv(2) == small && big >= small && small > 0, "largest and smallest");
   if (std::fabs(det3(a)) < 1e3) return;
   M p = a * transpose(a);
   vp_ensure(far(p * inverseChol(p), I) < 1e-2, "inverse by Cholesky");
   Cholesky<double> ch;
   ch(p);
   vp_ensure(far(ch.L * transpose(ch.L), p) < 1e-7 && far(ch.U * transpose(ch.U), p) < 1e-7 && ch.L.isLT() && ch.U.isUT(), "Cholesky factors");
   V b = vec(B, 3, -SMALL, SMALL), x(b);
   ch.backSub(x);
   V r = p * x;
   vp_ensure(std::fabs(r(0) - b(0)) + std::fabs(r(1) - b(1)) + std::fabs(r(2) - b(2)) < 1e-2, "solution by Cholesky");
}
template <size_t R, size_t C> static void house()
{
   M a = coarse(A, R, C);
   Householder<double> h;
   h(a);
   bool ok = true;
   for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C && j < i; j++) ok = ok && h.A(i, j) == 0;
   vp_ensure(ok, "zero below the diagonal");
   vp_ensure(far(transpose(h.A) * h.A, transpose(a) * a) < 1e-6, "an orthogonal transformation");
}
extern "C" void vpproof__C25__householder__int_real() { house<3, 3>(); house<4, 2>(); house<2, 4>(); }
