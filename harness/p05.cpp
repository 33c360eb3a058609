// P05: linear algebra wrappers.  Arrays are in Fortran order: a[j][i] is A(i,j).
#include "pbt.h"
#include "LinearAlgebra.h"
using namespace pbt;
typedef DataArray1D<double> V; typedef DataArray2D<double> M;
typedef std::vector<std::vector<double>> Mat;   // Mat[i][j] = A(i,j)

static Mat rnd(Src & s, int r, int c) { Mat a(r, std::vector<double>(c)); for (auto & x : a) for (auto & y : x) y = s.coin(1, 6) ? 0.0 : s.sreal(1); return a; }
// diagonally dominant after a random row order: well conditioned, pivoting needed
static Mat wellcond(Src & s, int n, int kl, int ku, bool fPerm) {
	Mat a(n, std::vector<double>(n, 0.0));
	for (int i = 0; i < n; i++) { double t = 0; for (int j = std::max(0, i - kl); j <= std::min(n - 1, i + ku); j++) if (i != j) { a[i][j] = s.coin(1, 5) ? 0 : s.sreal(1); t += fabs(a[i][j]); } a[i][i] = (s.coin() ? 1 : -1) * (t + s.real(0.5, 2)); }
	if (fPerm) for (int i = n - 1; i > 0; i--) std::swap(a[i], a[s.draw(i)]);
	return a;
}
static void fill(M & m, const Mat & a) { m.Allocate(a[0].size(), a.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) m[j][i] = a[i][j]; }
static double nrm(const std::vector<double> & v) { double t = 0; for (double x : v) t = std::max(t, fabs(x)); return t; }
static double nrmA(const Mat & a) { double t = 0; for (auto & r : a) { double q = 0; for (double x : r) q += fabs(x); t = std::max(t, q); } return t; }
static void residual(Ctx & c, const Mat & a, const std::vector<double> & x, const std::vector<double> & b, const char * sig) {
	int n = (int)a.size();
	double tol = 1e-13 * n * (nrmA(a) * nrm(x) + nrm(b)) + 1e-300;
	for (int i = 0; i < n; i++) { long double r = 0; for (size_t j = 0; j < a[i].size(); j++) r += (long double)a[i][j] * x[j]; c.close((double)r, b[i], tol, sig, "residual of row %d of %d", i, n); }
}
static int dim(Src & s, Ctx & c) { return (int)(s.coin(3, 4) ? s.irange(1, 8) : s.irange(1, c.nTier ? 60 : 30)); }

static void gemm(Src & s, Ctx & c) {
	int m = dim(s, c), n = dim(s, c), k = dim(s, c);
	Mat A = rnd(s, m, k), B = rnd(s, k, n), C = rnd(s, m, n);
	double al = s.coin(1, 3) ? 1 : s.sreal(3), be = s.coin(1, 3) ? 0 : s.sreal(3);
	c.desc("gemm %dx%dx%d alpha %g beta %g a00 %g", m, k, n, al, be, A[0][0]); c.nontrivial(m * n * k > 1);
	M a, b, d; fill(a, A); fill(b, B); fill(d, C);
	LAPACK::DGEMM(d, a, b, al, be);
	for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
		long double v = 0; for (int l = 0; l < k; l++) v += (long double)A[i][l] * B[l][j];
		c.close(d[j][i], (double)(al * v + be * C[i][j]), 1e-14 * (k + 2) * (fabs(al) + fabs(be) + 1), "gemm", "C(%d,%d)", i, j);
	}
	for (int i = 0; i < m; i++) for (int l = 0; l < k; l++) c.check(a[l][i] == A[i][l], "gemm-input", "A changed");
	// wrong shapes are refused
	int which = (int)s.draw(2);
	M a2, b2, d2; fill(a2, rnd(s, which == 0 ? m + 1 : m, which == 1 ? k + 1 : k)); fill(b2, rnd(s, k, which == 2 ? n + 1 : n)); fill(d2, C);
	bool threw = false; try { LAPACK::DGEMM(d2, a2, b2, al, be); } catch (Exception &) { threw = true; }
	c.check(threw, "gemm-shape", "mismatched product accepted (%d)", which);
}
static void gesv(Src & s, Ctx & c) {
	int n = dim(s, c), nr = (int)s.irange(1, 4);
	bool f1 = s.coin();
	Mat A = wellcond(s, n, n, n, true); M a; fill(a, A);
	c.desc("gesv n=%d rhs=%d a00 %g", n, f1 ? 1 : nr, A[0][0]); c.nontrivial(n > 1);
	DataArray1D<int> pv(n);
	if (f1) {
		V b(n); std::vector<double> B(n), X(n); for (int i = 0; i < n; i++) B[i] = b[i] = s.sreal(1);
		int info = LAPACK::DGESV(a, b, pv); c.check(info == 0, "info", "info %d", info);
		for (int i = 0; i < n; i++) X[i] = b[i]; residual(c, A, X, B, "gesv");
	} else {
		M b(nr, n); Mat B(nr, std::vector<double>(n)); for (int r = 0; r < nr; r++) for (int i = 0; i < n; i++) B[r][i] = b[r][i] = s.sreal(1);
		int info = LAPACK::DGESV(a, b, pv); c.check(info == 0, "info", "info %d", info);
		for (int r = 0; r < nr; r++) { std::vector<double> X(n); for (int i = 0; i < n; i++) X[i] = b[r][i]; residual(c, A, X, B[r], "gesv-multi"); }
	}
	M q; fill(q, rnd(s, n, n + 1)); V bb(n); bool threw = false; try { LAPACK::DGESV(q, bb, pv); } catch (Exception &) { threw = true; }
	c.check(threw, "gesv-shape", "non-square system accepted");
	M q2; fill(q2, A); V b2(n + 1); threw = false; try { LAPACK::DGESV(q2, b2, pv); } catch (Exception &) { threw = true; }
	c.check(threw, "gesv-shape", "right-hand side of wrong length accepted");
	M q3; fill(q3, A); M b3(2, n + 1); threw = false; try { LAPACK::DGESV(q3, b3, pv); } catch (Exception &) { threw = true; }
	c.check(threw, "gesv-shape", "right-hand sides of wrong length accepted");
}
static void gbsv(Src & s, Ctx & c) {
	int n = (int)s.irange(1, 40), kl = (int)s.irange(0, std::min(5, n - 1)), ku = (int)s.irange(0, std::min(5, n - 1));
	int extra = (int)(s.coin() ? 0 : s.irange(1, 4));
	Mat A = wellcond(s, n, kl, ku, false);
	bool fSplit = s.coin();
	int ld = 2 * kl + ku + 1 + extra;
	c.desc("gbsv n=%d kl=%d ku=%d ld=%d %s a00 %g", n, kl, ku, ld, fSplit ? "trf+trs" : "sv", A[0][0]); c.nontrivial(n > 1 && kl + ku > 0);
	c.cls(n < ld ? "band:wider-than-system" : "band:narrow");
	// weaken the diagonal of some rows so that pivoting happens
	for (int i = 0; i + 1 < n; i++) if (kl > 0 && s.coin(1, 4)) { A[i][i] *= 0.01; A[i + 1][i] = 2.5; }
	M a(n, ld); for (int j = 0; j < n; j++) for (int i = std::max(0, j - ku); i <= std::min(n - 1, j + kl); i++) a[j][kl + ku + i - j] = A[i][j];
	V b(n); std::vector<double> B(n), X(n); for (int i = 0; i < n; i++) B[i] = b[i] = s.sreal(1);
	DataArray1D<int> pv(n);
	if (fSplit) {
		int info = LAPACK::DGBTRF(a, pv, kl, ku); c.check(info >= 0, "info", "trf info %d", info); if (info) c.discard();
		bool fT = s.coin(1, 3);
		info = LAPACK::DGBTRS(fT ? 'T' : 'N', a, b, pv, kl, ku); c.check(info == 0, "info", "trs info %d", info);
		if (fT) { Mat At(n, std::vector<double>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) At[j][i] = A[i][j]; A = At; }
	} else { int info = LAPACK::DGBSV(a, b, pv, kl, ku); c.check(info >= 0, "info", "info %d", info); if (info) c.discard(); }
	for (int i = 0; i < n; i++) X[i] = b[i];
	if (nrm(X) > 1e8) c.discard();
	residual(c, A, X, B, "gbsv");
	if (kl + ku > 0) {
		M q(n, 2 * kl + ku); bool threw = false; try { LAPACK::DGBSV(q, b, pv, kl, ku); } catch (Exception &) { threw = true; }
		c.check(threw, "gbsv-shape", "band storage that is too narrow accepted");
	}
	M q(n, ld); V bs(n > 1 ? n - 1 : 1); if (n > 1) { bool threw = false; try { LAPACK::DGBSV(q, bs, pv, kl, ku); } catch (Exception &) { threw = true; } c.check(threw, "gbsv-shape", "short right-hand side accepted"); }
}
static void gtsv(Src & s, Ctx & c) {
	int n = dim(s, c); Mat A = wellcond(s, n, 1, 1, false);
	c.desc("gtsv n=%d a00 %g", n, A[0][0]); c.nontrivial(n > 1);
	for (int i = 0; i + 1 < n; i++) if (s.coin(1, 4)) { A[i][i] *= 0.01; A[i + 1][i] = 2.5; }
	V dl(std::max(1, n - 1)), d(n), du(std::max(1, n - 1)), b(n); std::vector<double> B(n), X(n);
	for (int i = 0; i < n; i++) { d[i] = A[i][i]; if (i + 1 < n) { dl[i] = A[i+1][i]; du[i] = A[i][i+1]; } B[i] = b[i] = s.sreal(1); }
	int info = LAPACK::DGTSV(dl, d, du, b); if (info) c.discard();
	for (int i = 0; i < n; i++) X[i] = b[i];
	if (nrm(X) > 1e8) c.discard();
	residual(c, A, X, B, "gtsv");
	if (n > 2) { V sh(n - 2); bool threw = false; try { LAPACK::DGTSV(sh, d, du, b); } catch (Exception &) { threw = true; } c.check(threw, "gtsv-shape", "short subdiagonal accepted");
		threw = false; try { LAPACK::DGTSV(dl, d, sh, b); } catch (Exception &) { threw = true; } c.check(threw, "gtsv-shape", "short superdiagonal accepted");
		threw = false; try { LAPACK::DGTSV(dl, d, du, sh); } catch (Exception &) { threw = true; } c.check(threw, "gtsv-shape", "short right-hand side accepted"); }
}
static void tri(Src & s, Ctx & c) {
	int n = dim(s, c); if (n > 20) n = 20;
	bool up = s.coin(), tr = s.coin(), un = s.coin(1, 3);
	Mat A(n, std::vector<double>(n, 0.0));
	for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (up ? j > i : j < i) A[i][j] = s.sreal(1.0 / n); A[i][i] = un ? 1 : (s.coin() ? 1 : -1) * s.real(0.5, 2); }
	c.desc("triangular n=%d %s %s %s a00 %g", n, up ? "U" : "L", tr ? "T" : "N", un ? "unit" : "", A[0][0]); c.nontrivial(n > 1);
	V ap(n * (n + 1) / 2), x(n); std::vector<double> B(n), X(n); int k = 0;
	for (int j = 0; j < n; j++) for (int i = up ? 0 : j; i <= (up ? j : n - 1); i++) ap[k++] = (i == j && un) ? 7.0 : A[i][j];
	for (int i = 0; i < n; i++) B[i] = x[i] = s.sreal(1);
	LAPACK::DTPSV(up ? 'U' : 'L', tr ? 'T' : 'N', un ? 'U' : 'N', n, ap, x);
	for (int i = 0; i < n; i++) X[i] = x[i];
	Mat At = A; if (tr) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) At[j][i] = A[i][j];
	residual(c, At, X, B, "tpsv");
	M a; fill(a, A); if (un) for (int i = 0; i < n; i++) a[i][i] = 7.0;
	int info = LAPACK::DTRTRI(up ? 'U' : 'L', un ? 'U' : 'N', a); c.check(info == 0, "info", "trtri info %d", info);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		long double v = 0; for (int l = 0; l < n; l++) { double inv = (l == j && un) ? 1.0 : (double)a[j][l]; v += (long double)A[i][l] * inv; }
		c.close((double)v, i == j, 1e-12 * n, "trtri", "A A^-1 (%d,%d)", i, j);
	}
}
static void getri(Src & s, Ctx & c) {
	int n = dim(s, c); Mat A = wellcond(s, n, n, n, true); M a; fill(a, A);
	bool fSolve = s.coin(), fT = s.coin(1, 3);
	c.desc("getrf+%s n=%d a00 %g", fSolve ? "getrs" : "getri", n, A[0][0]); c.nontrivial(n > 1);
	DataArray1D<int> pv(n);
	int info = LAPACK::DGETRF(a, pv); c.check(info == 0, "info", "getrf info %d", info);
	if (fSolve) {
		V b(n); std::vector<double> B(n), X(n); for (int i = 0; i < n; i++) B[i] = b[i] = s.sreal(1);
		info = LAPACK::DGETRS(fT ? 'T' : 'N', a, b, pv); c.check(info == 0, "info", "getrs info %d", info);
		for (int i = 0; i < n; i++) X[i] = b[i];
		Mat At = A; if (fT) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) At[j][i] = A[i][j];
		residual(c, At, X, B, "getrs");
	} else {
		V w(n + (int)s.irange(0, 3 * n)); info = LAPACK::DGETRI(a, pv, w); c.check(info == 0, "info", "getri info %d", info);
		double mi = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) mi = std::max(mi, fabs((double)a[j][i]));
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { long double v = 0; for (int l = 0; l < n; l++) v += (long double)A[i][l] * a[j][l]; c.close((double)v, i == j, 1e-13 * n * (1 + mi * nrmA(A)), "getri", "A A^-1 (%d,%d)", i, j); }
		if (n > 1) { V sw(n - 1); bool threw = false; try { LAPACK::DGETRI(a, pv, sw); } catch (Exception &) { threw = true; } c.check(threw, "getri-shape", "short workspace accepted"); }
	}
}
static void qr(Src & s, Ctx & c) {
	int n = (int)s.irange(1, 8), m = n + (int)s.irange(0, 6);
	Mat A = rnd(s, m, n); for (int i = 0; i < n; i++) A[i][i] += (A[i][i] < 0 ? -3.0 : 3.0);
	bool fSVD = s.coin(), fWide = fSVD && s.coin();
	c.desc("%s %dx%d a00 %g", fSVD ? "svd-inverse" : "qr", fWide ? n : m, fWide ? m : n, A[0][0]); c.nontrivial(n > 1 || m > 1);
	if (fWide) { Mat T(n, std::vector<double>(m)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) T[j][i] = A[i][j]; A = T; }
	int r = (int)A.size(), q = (int)A[0].size();
	c.cls(fSVD ? (fWide ? "pinv:svd-wide" : "pinv:svd-tall") : "pinv:qr");
	if (fSVD && s.coin(1, 4) && n > 1) { // rank deficient: repeat a row/column exactly
		if (fWide) A[1] = A[0]; else for (int i = 0; i < r; i++) A[i][1] = A[i][0];
		c.cls("pinv:rank-deficient"); c.desc(" rank deficient");
	}
	if (!fSVD) {
		M a; fill(a, A); V tau(n), w(3 * m);
		int info = LAPACK::DGEQRF(a, tau, w); c.check(info == 0, "info", "geqrf %d", info);
		Mat R(n, std::vector<double>(n, 0)); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) R[i][j] = a[j][i];
		info = LAPACK::DORGQR(a, tau, w); c.check(info == 0, "info", "orgqr %d", info);
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { long double v = 0; for (int k = 0; k < m; k++) v += (long double)a[i][k] * a[j][k]; c.close((double)v, i == j, 1e-13 * m, "q-orth", "Q^T Q"); }
		for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { long double v = 0; for (int k = 0; k < n; k++) v += (long double)a[k][i] * R[k][j]; c.close((double)v, A[i][j], 1e-12 * m, "qr", "QR(%d,%d)", i, j); }
	}
	M a, o; fill(a, A);
	if (s.coin(1, 4)) { o.Allocate(fSVD ? q : r, fSVD ? r : q); for (size_t i = 0; i < o.GetRows(); i++) for (size_t j = 0; j < o.GetColumns(); j++) o[i][j] = 5; }
	if (fSVD) LAPACK::GeneralizedInverseSVD(a, o); else LAPACK::GeneralizedInverse(a, o);
	// both return the q x r pseudoinverse; the SVD one stores it row by row, the QR one in Fortran order
	Mat P(q, std::vector<double>(r));
	c.check((int)o.GetRows() == (fSVD ? q : r) && (int)o.GetColumns() == (fSVD ? r : q), "pinv-shape", "inverse is %dx%d", (int)o.GetRows(), (int)o.GetColumns());
	for (int i = 0; i < q; i++) for (int j = 0; j < r; j++) P[i][j] = fSVD ? o[i][j] : o[j][i];
	auto mul = [](const Mat & x, const Mat & y) { Mat z(x.size(), std::vector<double>(y[0].size(), 0)); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < y[0].size(); j++) { long double v = 0; for (size_t k = 0; k < y.size(); k++) v += (long double)x[i][k] * y[k][j]; z[i][j] = (double)v; } return z; };
	Mat AP = mul(A, P), PA = mul(P, A), APA = mul(AP, A), PAP = mul(PA, P);
	double na = nrmA(A), np = nrmA(P), t = 1e-13 * (r + q) * (1 + na * np);
	if (na * np > 1e6) c.discard();
	for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) { c.close(APA[i][j], A[i][j], t * (1 + na), "pinv", "A P A"); c.close(PAP[j][i], P[j][i], t * (1 + np), "pinv", "P A P"); }
	for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) c.close(AP[i][j], AP[j][i], t * 10, "pinv-sym", "A P symmetric");
	for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) c.close(PA[i][j], PA[j][i], t * 10, "pinv-sym", "P A symmetric");
}
static void blas1(Src & s, Ctx & c) {
	int n = dim(s, c); V x(n), y(n), z; double al = s.sreal(3);
	std::vector<double> X(n), Y(n); for (int i = 0; i < n; i++) { X[i] = x[i] = s.sreal(1) * s.logreal(1e-3, 1e3); Y[i] = y[i] = s.sreal(1); }
	c.desc("blas1 n=%d x0 %g", n, X[0]); c.nontrivial(n > 1);
	long double d = 0, q = 0, ad = 0; for (int i = 0; i < n; i++) { d += (long double)X[i] * Y[i]; ad += fabsl((long double)X[i] * Y[i]); q += (long double)X[i] * X[i]; }
	c.close(LAPACK::DDOT(x, y), (double)d, 1e-15 * n * (double)ad, "dot", "dot"); c.close(LAPACK::DDOT_A(x, &y[0]), (double)d, 1e-15 * n * (double)ad, "dot", "dot_a");
	c.close(LAPACK::DNORM2(x), (double)sqrtl(q), 1e-14 * (double)sqrtl(q), "norm", "norm");
	LAPACK::DCOPY(x, z); c.check((int)z.GetRows() == n, "copy", "size"); for (int i = 0; i < n; i++) c.check(z[i] == X[i], "copy", "copied value");
	std::vector<double> w(n + 1, 3.0); LAPACK::DCOPY_A(x, &w[0]); for (int i = 0; i < n; i++) c.check(w[i] == X[i], "copy", "copied value"); c.check(w[n] == 3.0, "copy-overrun", "overrun");
	LAPACK::DAXPY(al, x, y); for (int i = 0; i < n; i++) c.close(y[i], al * X[i] + Y[i], 4e-16 * (fabs(al * X[i]) + fabs(Y[i])), "axpy", "axpy %d", i);
	V y2(n); for (int i = 0; i < n; i++) y2[i] = Y[i]; LAPACK::DAXPY_A(al, &x[0], y2); for (int i = 0; i < n; i++) c.check(y2[i] == y[i], "axpy", "axpy_a");
	LAPACK::DSCAL(x, al); for (int i = 0; i < n; i++) c.close(x[i], al * X[i], 4e-16 * fabs(al * X[i]), "scal", "scale");
	V sh(n + 1); bool threw = false; try { LAPACK::DDOT(x, sh); } catch (Exception &) { threw = true; } c.check(threw, "dot-shape", "dot of different lengths accepted");
}
int main(int argc, char ** argv) {
	return run(argc, argv, {{"p05_gemm", gemm, 1}, {"p05_gesv", gesv, 1}, {"p05_gbsv", gbsv, 1}, {"p05_gtsv", gtsv, 1}, {"p05_tri", tri, 1}, {"p05_getri", getri, 1}, {"p05_qr", qr, 1}, {"p05_blas1", blas1, 1}});
}
