// P03: quadrature rules and Legendre polynomials.
#include "pbt.h"
#include "GaussQuadrature.h"
#include "GaussLobattoQuadrature.h"
#include "LegendrePolynomial.h"
using namespace pbt;

static long double P(int n, long double x) {
	long double p0 = 1, p1 = x;
	if (n == 0) return 1;
	for (int k = 2; k <= n; k++) { long double p = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p; }
	return p1;
}
static long double dP(int n, long double x) {
	// sum form, no division
	long double d = 0;
	for (int k = n - 1; k >= 0; k -= 2) d += (2 * k + 1) * P(k, x);
	return d;
}
static const int NMAX = 40;

static void rule(Src & s, Ctx & c) {
	bool fLob = s.coin();
	int n = s.coin(3, 4) ? (int)s.irange(fLob ? 2 : 1, 12) : (int)s.irange(12, NMAX);
	bool fRef = s.coin(1, 4);
	double a = -1, b = 1;
	if (!fRef) { a = s.sreal(10); b = a + s.logreal(1e-3, 1e3); }
	c.desc("%s n=%d [%.17g,%.17g]%s", fLob ? "lobatto" : "gauss", n, a, b, fRef ? " reference" : "");
	c.cls(fmt("%s%d", fLob ? "lobatto" : "gauss", n));
	c.nontrivial(n > 1);
	DataArray1D<double> x, w;
	if (fRef && fLob) GaussLobattoQuadrature::GetPoints(n, x, w);
	else if (fRef) GaussQuadrature::GetPoints(n, x, w);
	else if (fLob) GaussLobattoQuadrature::GetPoints(n, a, b, x, w);
	else GaussQuadrature::GetPoints(n, a, b, x, w);
	c.check((int)x.GetRows() == n && (int)w.GetRows() == n, "count", "%d points %d weights", (int)x.GetRows(), (int)w.GetRows());
	double h = b - a, sc = std::max(fabs(a), fabs(b));
	double tol = 1e-13 * n, tx = tol * h + 4e-16 * sc;
	for (int i = 0; i < n; i++) {
		c.check(w[i] > 0, "weight-sign", "weight %d is %g", i, (double)w[i]);
		c.check(x[i] >= a - tx && x[i] <= b + tx, "inside", "point %d is %.17g", i, (double)x[i]);
		if (!fLob && n > 0) c.check(x[i] > a && x[i] < b, "inside-open", "Gauss point %d is %.17g", i, (double)x[i]);
		if (i) c.check(x[i] > x[i-1], "increasing", "points %d and %d", i - 1, i);
		c.close(x[i] - a, b - x[n-1-i], 2 * tx, "sym-x", "points not symmetric");
		c.close(w[i], w[n-1-i], tol * h, "sym-w", "weights not symmetric");
	}
	if (fLob) { c.close(x[0], a, tx, "end", "left end"); c.close(x[n-1], b, tx, "end", "right end"); }
	// exactness on a random polynomial given in the Legendre basis
	int deg = fLob ? 2 * n - 3 : 2 * n - 1;
	std::vector<double> cf(deg + 1);
	double norm = 0;
	for (int k = 0; k <= deg; k++) { cf[k] = s.coin(1, 2) ? s.sreal(1) : 0; }
	cf[s.irange(0, deg)] = 1;
	for (int k = 0; k <= deg; k++) norm += fabs(cf[k]);
	long double q = 0;
	for (int i = 0; i < n; i++) {
		long double t = 2.0L * ((long double)x[i] - a) / h - 1.0L, v = 0;
		for (int k = 0; k <= deg; k++) if (cf[k] != 0) v += cf[k] * P(k, t);
		q += (long double)w[i] * v;
	}
	// rounding of the node positions is amplified by the slope of the polynomial
	double amp = 1 + (double)deg * deg * 4e-16 / 1e-13 * (fRef ? 1 : 1 + sc / h);
	c.close((double)q, h * cf[0], 2e-13 * n * h * norm * amp, "exact", "degree %d integral", deg);
	double sum = 0; for (int i = 0; i < n; i++) sum += w[i];
	c.close(sum, h, tol * h, "sum", "weights sum");
	// the points are the roots they claim to be (against long double Newton)
	for (int i = 0; i < n; i++) {
		if (fLob && (i == 0 || i == n - 1)) continue;
		long double t = 2.0L * ((long double)x[i] - a) / h - 1.0L, r = t;
		int m = fLob ? n - 1 : n;
		for (int it = 0; it < 4; it++) {
			long double f, df;
			if (fLob) { f = dP(m, r); df = (2 * r * f - (long double)m * (m + 1) * P(m, r)) / (1 - r * r); }
			else { f = P(m, r); df = dP(m, r); }
			r -= f / df;
		}
		c.close((double)t, (double)r, 2e-13 + 8e-16 * sc / h * 2, "root", "point %d", i);
		long double wr = fLob ? 2 / ((long double)m * (m + 1) * P(m, r) * P(m, r)) : 2 / ((1 - r * r) * dP(m, r) * dP(m, r));
		c.close(w[i] / (0.5 * h), (double)wr, 2e-13 * n, "weight", "weight %d", i);
	}
}
static void legendre(Src & s, Ctx & c) {
	int n = s.coin(3, 4) ? (int)s.irange(0, 12) : (int)s.irange(9, NMAX);
	double x = s.coin(1, 6) ? (s.coin() ? 1.0 : -1.0) : s.sreal(s.coin(1, 8) ? 1.5 : 1.0);
	if (n > 12 && fabs(x) > 1) x /= 2;
	c.desc("P_%d(%.17g)", n, x);
	c.nontrivial(n > 1);
	c.cls(fmt("degree%d", n));
	double v, d;
	LegendrePolynomial::EvaluateValueAndDerivative(n, x, v, d);
	double rv = (double)P(n, x), rd = (double)dP(n, x);
	double sc = std::max(1.0, fabs(rv)), sd = std::max(1.0, std::max(fabs(rd), 0.5 * n * (n + 1.0)));
	// the power-basis forms cancel: up to ~300 in magnitude at degree 8
	double t = 1e-12;
	// the derivative recurrence divides by 1-x^2
	double td = t + (n >= 9 ? 1e-15 * n / std::max(1e-8, fabs(1 - x * x)) : 0);
	if (n >= 9 && fabs(x) != 1.0 && fabs(1 - x * x) < 1e-6) td = 1;
	c.close(v, rv, t * sc, "value", "value");
	c.close(d, rd, td * sd, "derivative", "derivative");
	c.close(LegendrePolynomial::Evaluate(n, x), rv, t * sc, "value", "Evaluate");
	c.close(LegendrePolynomial::EvaluateDerivative(n, x), rd, td * sd, "derivative", "EvaluateDerivative");
}
static void roots(Src & s, Ctx & c) {
	int n = s.coin(2, 3) ? (int)s.irange(1, 12) : (int)s.irange(1, NMAX);
	c.desc("roots degree %d", n);
	c.nontrivial(n > 1);
	std::vector<double> r(n + 1, 77.0), e(n + 1, 77.0);
	LegendrePolynomial::AllRoots(n, &r[0]);
	c.check(r[n] == 77.0, "overrun", "AllRoots wrote past the end");
	LegendrePolynomial::AllDerivativeRoots(n, &e[0]);
	c.check(e[std::max(0, n - 1)] == 77.0, "overrun", "AllDerivativeRoots wrote past the end");
	for (int i = 0; i < n; i++) {
		if (i) c.check(r[i] > r[i-1], "order", "roots not increasing at %d of degree %d", i, n);
		long double t = r[i]; for (int k = 0; k < 4; k++) t -= P(n, t) / dP(n, t);
		c.close(r[i], (double)t, 1e-13, "root", "root %d of degree %d", i, n);
		c.close(r[i], -r[n-1-i], 1e-13, "root-sym", "root %d of degree %d", i, n);
		if (n <= 8) c.close(LegendrePolynomial::Root(n, i), (double)t, 1e-14, "root-table", "root %d of degree %d", i, n);
	}
	for (int i = 0; i < n - 1; i++) {
		if (i) c.check(e[i] > e[i-1], "order", "derivative roots not increasing");
		long double t = e[i];
		for (int k = 0; k < 4; k++) { long double f = dP(n, t); t -= f / ((2 * t * f - (long double)n * (n + 1) * P(n, t)) / (1 - t * t)); }
		c.close(e[i], (double)t, 1e-13, "droot", "derivative root %d of degree %d", i, n);
		if (n <= 8) {
			c.close(LegendrePolynomial::DerivativeRoot(n, i), (double)t, 1e-14, "droot-table", "derivative root %d of degree %d", i, n);
			c.close(LegendrePolynomial::DerivativeExtendedRoot(n, i + 1), (double)t, 1e-14, "droot-ext", "extended derivative root %d of degree %d", i, n);
		}
	}
	if (n <= 8) {
		c.check(LegendrePolynomial::DerivativeExtendedRoot(n, 0) == -1.0 && LegendrePolynomial::DerivativeExtendedRoot(n, n) == 1.0, "droot-ends", "ends");
		// characteristic (cardinal) functions of the roots
		double x = s.sreal(1);
		double sum = 0;
		for (int i = 0; i < n; i++) {
			for (int j = 0; j < n; j++)
				c.close(LegendrePolynomial::EvaluateCharacteristic(n, i, r[j]), i == j, 1e-12, "cardinal", "characteristic %d of degree %d at root %d", i, n, j);
			sum += LegendrePolynomial::EvaluateCharacteristic(n, i, x);
			long double l = 1; for (int j = 0; j < n; j++) if (j != i) l *= ((long double)x - r[j]) / ((long double)r[i] - r[j]);
			c.close(LegendrePolynomial::EvaluateCharacteristic(n, i, x), (double)l, 1e-11, "cardinal-value", "characteristic %d of degree %d at %g", i, n, x);
		}
		c.close(sum, 1, 1e-11, "cardinal-sum", "characteristics of degree %d do not sum to one", n);
	}
}
static void refuse(Src & s, Ctx & c) {
	DataArray1D<double> x, w;
	int k = (int)s.draw(1); int n = k == 0 ? (int)s.irange(-3, 0) : (int)s.irange(-3, 1);
	c.desc("%s count %d", k ? "lobatto" : "gauss", n); c.nontrivial();
	bool threw = false;
	try { if (k) GaussLobattoQuadrature::GetPoints(n, x, w); else GaussQuadrature::GetPoints(n, x, w); } catch (Exception &) { threw = true; }
	c.check(threw, "accepted", "invalid count %d accepted", n);
}
int main(int argc, char ** argv) {
	return run(argc, argv, {{"p03_rule", rule, 1.0}, {"p03_legendre", legendre, 1.0}, {"p03_roots", roots, 0.5}, {"p03_refuse", refuse, 0.02}});
}
