// P04: polynomial interpolation and differentiation.
#include "pbt.h"
#include "PolynomialInterp.h"
#include "FluxCorrectionFunction.h"
using namespace pbt;
typedef long double ld;

struct Case { int n; std::vector<double> x; double t; bool fNode; double h, scale, dist; };
static Case gen(Src & s, Ctx & c, int nmin, int nmax) {
	Case k; k.n = (int)s.irange(nmin, nmax);
	k.scale = s.coin() ? 1.0 : s.logreal(1e-3, 1e5);
	double off = s.coin(1, 3) ? s.sreal(3) : 0;
	std::vector<double> g(k.n);
	double a = 0;
	for (int i = 0; i < k.n; i++) { a += s.real(0.3, 1.0); g[i] = a; }
	for (int i = 0; i < k.n; i++) k.x.push_back(k.scale * (off + (g[i] - g[0]) / (k.n > 1 ? (g[k.n-1] - g[0]) : 1.0)));
	if (s.coin(1, 4)) std::reverse(k.x.begin(), k.x.end());
	else if (s.coin(1, 4)) for (int i = k.n - 1; i > 0; i--) std::swap(k.x[i], k.x[s.draw(i)]);
	k.fNode = s.coin(2, 5);
	double lo = k.scale * off, L = k.scale;
	if (k.fNode) k.t = k.x[s.draw(k.n - 1)];
	else {
		k.t = s.coin(1, 4) ? lo + L * s.real(-0.3, 1.3) : lo + L * s.real(0, 1);
		if (s.coin(1, 5)) { double xm = k.x[s.draw(k.n - 1)]; k.t = xm + L * s.logreal(1e-5, 1e-2) * (s.coin() ? 1 : -1); }
	}
	k.h = k.scale / k.n;
	k.dist = 1e300; for (int i = 0; i < k.n; i++) k.dist = std::min(k.dist, fabs(k.t - k.x[i]) / k.scale);
	if (!k.fNode && k.dist < 1e-6) c.discard();
	c.desc("n=%d scale %.3g offset %.3g target %s%.17g nodes", k.n, k.scale, off, k.fNode ? "node " : "", k.t);
	for (int i = 0; i < k.n; i++) c.desc(" %.17g", k.x[i]);
	c.nontrivial(k.n > 2);
	c.cls(k.fNode ? "target:node" : "target:off-node");
	return k;
}
// exact derivative weights of order d by long double Taylor of the cardinal polynomials
static void exact(const Case & k, int d, std::vector<ld> & w) {
	w.assign(k.n, 0);
	for (int i = 0; i < k.n; i++) {
		std::vector<ld> p(k.n, 0); p[0] = 1;   // in powers of (x - t)
		int deg = 0; ld den = 1;
		for (int j = 0; j < k.n; j++) if (j != i) {
			ld r = (ld)k.t - k.x[j];
			for (int m = ++deg; m >= 1; m--) p[m] = p[m] * r + p[m-1];
			p[0] *= r; den *= (ld)k.x[i] - k.x[j];
		}
		ld f = 1; for (int m = 2; m <= d; m++) f *= m;
		w[i] = (d < k.n ? p[d] : 0) * f / den;
	}
}
static void weights(Src & s, Ctx & c) {
	Case k = gen(s, c, 1, 9);
	int d = (int)s.draw(3);
	if (k.n == 1 && d > 0) { }
	std::vector<double> w(k.n + 1, 55.0);
	if (d == 0) PolynomialInterp::LagrangianPolynomialCoeffs(k.n, &k.x[0], &w[0], k.t);
	else if (d == 1) PolynomialInterp::DiffLagrangianPolynomialCoeffs(k.n, &k.x[0], &w[0], k.t);
	else if (d == 2) PolynomialInterp::DiffDiffLagrangianPolynomialCoeffs(k.n, &k.x[0], &w[0], k.t);
	else PolynomialInterp::DiffDiffDiffLagrangianPolynomialCoeffs(k.n, &k.x[0], &w[0], k.t);
	c.desc(" derivative %d", d);
	c.cls(fmt("derivative:%d", d));
	c.check(w[k.n] == 55.0, "overrun", "wrote past the weights");
	std::vector<ld> e; exact(k, d, e);
	double mx = 0, lag = 0;
	std::vector<ld> e0; exact(k, 0, e0);
	for (int i = 0; i < k.n; i++) { mx = std::max(mx, (double)fabsl(e[i])); lag = std::max(lag, (double)fabsl(e0[i])); }
	// rounding: products of n factors; off-node formulas of order d cancel like dist^-(d-1) (d>=2), nodes given with relative offsets
	double amp = (d >= 2 && !k.fNode) ? pow(std::min(1.0, k.dist * k.n), -(double)(d - 1)) : 1.0;
	double cond = 1 + fabs(k.t) / k.scale * k.n;
	double sc = 1; for (int m = 0; m < d; m++) sc *= 4.0 * k.n * k.n / k.scale;
	double tol = 2e-14 * k.n * cond * amp * std::max(mx, (1 + lag) * sc * 0.05) + 1e-300;
	ld sum = 0;
	for (int i = 0; i < k.n; i++) { c.close(w[i], (double)e[i], tol, "weight", "weight %d for derivative %d", i, d); sum += w[i]; }
	c.close((double)sum, d == 0 ? 1.0 : 0.0, k.n * tol, "sum", "sum of weights for derivative %d", d);
	// random polynomial of degree < n (in powers of the normalized coordinate about a random point)
	double x0 = k.t + k.scale * s.sreal(0.5), val = 0;
	std::vector<double> cf(k.n);
	for (int m = 0; m < k.n; m++) cf[m] = s.sreal(1);
	auto p = [&](ld x, int der) { ld v = 0, y = (x - x0) / k.scale; for (int m = der; m < k.n; m++) { ld f = cf[m]; for (int q = 0; q < der; q++) f *= (m - q); v += f * powl(y, m - der); } return v / powl(k.scale, der); };
	ld num = 0, mag = 0;
	for (int i = 0; i < k.n; i++) { ld v = p(k.x[i], 0); num += (ld)w[i] * v; mag += fabsl(v); }
	c.close((double)num, (double)p(k.t, d), tol * (double)(mag + 1), "reproduce", "derivative %d of a degree %d polynomial", d, k.n - 1);
	if (d == 0) {
		std::vector<double> y(k.n); for (int i = 0; i < k.n; i++) y[i] = (double)p(k.x[i], 0);
		val = PolynomialInterp::Interpolate(k.n, &k.x[0], &y[0], k.t);
		c.close(val, (double)p(k.t, 0), tol * (double)(mag + 1) + 1e-15 * (double)mag * (1 + lag), "interpolate", "Interpolate");
		if (k.fNode) for (int i = 0; i < k.n; i++) if (k.x[i] == k.t) c.check(val == y[i] && w[i] == 1.0, "node-exact", "value at a node is not the node value: %.17g vs %.17g", val, y[i]);
	}
}
static void coeffs(Src & s, Ctx & c) {
	Case k = gen(s, c, 1, 7);
	std::vector<double> y(k.n), a(k.n + 1, 33.0), x(k.x);
	// keep the Vandermonde system well conditioned: scale 1 around the midpoint
	for (int i = 0; i < k.n; i++) { x[i] /= k.scale; y[i] = s.sreal(1); }
	std::vector<double> y0 = y, x0 = x;
	bool fMid = s.coin(2, 3);
	double mid = fMid ? k.t / k.scale : 0.0;
	double mm = 0; for (int i = 0; i < k.n; i++) mm = std::max(mm, fabs(x[i] - mid));
	if (mm > 1.6) { mid = x[0]; fMid = true; mm = 1.0; }
	bool fWork = s.coin();
	std::vector<double> ws(k.n * k.n + 1, 9.0); std::vector<int> pv(k.n);
	if (fWork) PolynomialInterp::InterpolateCoeffs(k.n, &x[0], &y[0], &a[0], mid, &ws[0], &pv[0]);
	else if (fMid || mid != 0.0) PolynomialInterp::InterpolateCoeffs(k.n, &x[0], &y[0], &a[0], mid);
	else PolynomialInterp::InterpolateCoeffs(k.n, &x[0], &y[0], &a[0]);
	c.desc(" coeffs about %.6g", mid);
	c.check(a[k.n] == 33.0 && ws[k.n * k.n] == 9.0, "overrun", "wrote past the arrays");
	c.check(x == x0 && y == y0, "input-changed", "inputs modified");
	ld size = 1; for (int m = 0; m < k.n; m++) size += fabsl(a[m]) * powl(std::max(1.0, mm), m);
	for (int i = 0; i < k.n; i++) {
		ld v = 0, mag = size; for (int m = k.n - 1; m >= 0; m--) v = v * ((ld)x[i] - mid) + a[m];
		ld pw = 1; for (int m = 0; m < k.n; m++) { mag += fabsl(a[m]) * pw; pw *= fabsl((ld)x[i] - mid); }
		c.close((double)v, y[i], 1e-12 * (double)mag, "coeffs", "polynomial at node %d", i);
	}
}
static void fcf(Src & s, Ctx & c) {
	int nOrder = (int)s.irange(1, 8);
	int iType = (int)s.irange(1, std::min(nOrder, 4));
	// nodes: enough to integrate with (any distinct nodes in [0,1])
	int n = (int)s.irange(1, 9);
	DataArray1D<double> nodes(n), dv, dv2;
	for (int i = 0; i < n; i++) nodes[i] = s.coin(1, 4) ? (double)s.draw(1) : s.real(0, 1);
	c.desc("correction type %d order %d at", iType, nOrder);
	for (int i = 0; i < n; i++) c.desc(" %.17g", (double)nodes[i]);
	c.nontrivial(nOrder > 1); c.cls(fmt("fcf:type%d", iType));
	FluxCorrectionFunction::GetDerivatives(iType, nOrder, nodes, dv);
	c.check((int)dv.GetRows() == n, "fcf-count", "%d derivatives", (int)dv.GetRows());
	// integrate the derivative over [0,1] against powers with equispaced-in-angle nodes
	const int M = 24;
	DataArray1D<double> q(M + 1);
	for (int i = 0; i <= M; i++) q[i] = 0.5 - 0.5 * cos(M_PI * i / M);
	FluxCorrectionFunction::GetDerivatives(iType, nOrder, q, dv2);
	// Clenshaw-Curtis weights
	std::vector<ld> w(M + 1);
	for (int i = 0; i <= M; i++) { ld sum = 0; for (int j = 0; j <= M / 2; j++) { ld b = (j == 0 || j == M / 2) ? 0.5 : 1; sum += b * 2 / (1 - 4.0L * j * j) * cosl(2.0L * j * i * M_PIl / M); } w[i] = (i == 0 || i == M ? 0.5L : 1.0L) * 2 / M * sum / 2; }
	ld mag = 1; for (int i = 0; i <= M; i++) mag = std::max(mag, fabsl((ld)dv2[i]));
	double tol = 1e-10 * (double)mag;
	auto moment = [&](int m) { ld v = 0; for (int i = 0; i <= M; i++) v += w[i] * (ld)dv2[i] * powl(2 * (ld)q[i] - 1, m); return (double)v; };
	c.close(moment(0), 1.0, tol, "fcf-jump", "the correction does not rise from 0 to 1");
	for (int m = 1; m <= nOrder - iType; m++) c.close(moment(m), 1.0, tol, "fcf-orth", "correction is not orthogonal to degree %d", m - 1);
	// derivative is a polynomial of degree nOrder-1: interpolate it and compare at the nodes; zero of multiplicity iType at 0
	std::vector<double> xs, ys;
	for (int i = 0; i < nOrder; i++) { int j = nOrder == 1 ? 0 : i * M / (nOrder - 1); xs.push_back(q[j]); ys.push_back(dv2[j]); }
	for (int i = 0; i < n; i++) {
		ld v = 0; for (int a = 0; a < nOrder; a++) { ld l = 1; for (int b = 0; b < nOrder; b++) if (a != b) l *= ((ld)nodes[i] - xs[b]) / ((ld)xs[a] - xs[b]); v += l * ys[a]; }
		c.close(dv[i], (double)v, 10 * tol, "fcf-degree", "derivative at %g", (double)nodes[i]);
	}
	for (int d = 1; d < iType; d++) {
		// (d-1)th derivative of g' at 0, from the interpolant: divided differences via exact weights
		Case k; k.n = nOrder; k.x = xs; k.t = 0; std::vector<ld> e; exact(k, d - 1, e);
		ld v = 0; for (int a = 0; a < nOrder; a++) v += e[a] * ys[a];
		ld em = 0; for (int a = 0; a < nOrder; a++) em += fabsl(e[a]);
		c.close((double)v, 0, tol * (double)em * 10, "fcf-multiplicity", "derivative %d at the far edge", d);
	}
}
int main(int argc, char ** argv) {
	return run(argc, argv, {{"p04_weights", weights, 2.0}, {"p04_coeffs", coeffs, 0.5}, {"p04_fcf", fcf, 0.2}});
}
