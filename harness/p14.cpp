// P14: the operators of a column: interpolation, first and second derivatives, integral, penalty.
#include "pbt.h"
#include "mesh.h"
#include "GaussQuadrature.h"
using namespace pbt; using namespace mu;
typedef long double ld;

struct Col { int vo, nf; double W; std::vector<double> b, n, e, wn, we; DataArray1D<double> N, E; };
static void gauss(int n, std::vector<double> & x, std::vector<double> & w) {   // on [0,1], Newton on P_n
	x.resize(n); w.resize(n);
	for (int i = 0; i < n; i++) { ld t = -cosl(M_PI * (i + 0.75) / (n + 0.5)), d = 1;
		for (int it = 0; it < 100; it++) { ld p0 = 1, p1 = t; for (int k = 2; k <= n; k++) { ld p2 = ((2*k-1)*t*p1 - (k-1)*p0)/k; p0 = p1; p1 = p2; } if (n == 1) p0 = 1;
			d = n * (t*p1 - p0) / (t*t - 1); ld s = p1 / d; t -= s; if (fabsl(s) < 1e-18) break; }
		x[i] = (double)(0.5 * (t + 1)); w[i] = (double)(1 / ((1 - t*t) * d*d)); }
}
static void genCol(Src & s, Ctx & c, Col & q, int voMin = 1, bool fv = false) {
	q.vo = fv ? 2 * (int)s.irange(1, 3) : (int)s.irange(voMin, 8); q.nf = (int)s.irange(1, 6); if (fv) q.nf = (int)s.irange(1, 5) + 1;
	bool uni = s.coin(1, 4); q.W = 1.0;
	std::vector<double> h(fv ? q.vo * q.nf : q.nf, 1.0); double t = 0; for (auto & x : h) { if (!uni) x = s.real(0.25, 1.0) * (s.coin(1, 5) ? 3 : 1); t += x; }
	q.b.assign(1, 0); for (auto x : h) q.b.push_back(q.b.back() + x / t); q.b.back() = 1;
	std::vector<double> gx, gw; int v = fv ? 1 : q.vo; gauss(v, gx, gw); auto L = gll(v + 1), LW = gllw(v + 1); int nf = (int)h.size();
	q.n.resize(v * nf); q.wn.resize(v * nf); q.e.assign(v * nf + 1, 0); q.we.assign(v * nf + 1, 0);
	for (int a = 0; a < nf; a++) { double l = q.b[a], d = q.b[a+1] - l;
		for (int k = 0; k < v; k++) { q.n[a*v+k] = l + gx[k] * d; q.wn[a*v+k] = gw[k] * d; }
		for (int k = 0; k <= v; k++) { q.e[a*v+k] = k == v ? q.b[a+1] : l + L[k] * d; q.we[a*v+k] += LW[k] * d; } }
	q.N.Allocate(q.n.size()); q.E.Allocate(q.e.size());
	for (size_t k = 0; k < q.n.size(); k++) q.N[k] = q.n[k]; for (size_t k = 0; k < q.e.size(); k++) q.E[k] = q.e[k];
	c.desc("order %d elements %d edges", q.vo, q.nf); for (auto x : q.b) c.desc(" %.6g", x);
	c.cls(uni ? "equal elements" : "unequal elements"); c.nontrivial(q.nf > 1 && (q.vo > 1 || fv));
}
struct Poly { std::vector<double> a; double x0;     // sum a_d (x-x0)^d
	ld operator()(ld x) const { ld r = 0; for (int d = (int)a.size() - 1; d >= 0; d--) r = r * (x - x0) + a[d]; return r; }
	Poly diff() const { Poly p; p.x0 = x0; p.a.assign(std::max<size_t>(1, a.size() - 1), 0); for (size_t d = 1; d < a.size(); d++) p.a[d-1] = d * a[d]; return p; }
	Poly integ() const { Poly p; p.x0 = x0; p.a.assign(a.size() + 1, 0); for (size_t d = 0; d < a.size(); d++) p.a[d+1] = a[d] / (d + 1); return p; } };
static Poly genPoly(Src & s, int deg) { Poly p; p.x0 = s.real(0, 1); for (int d = 0; d <= deg; d++) p.a.push_back(s.coin(1, 4) ? 0 : s.sreal(1)); p.a[deg] = s.coin() ? 1 : s.sreal(1); return p; }
// rounding bound of a row: sum |coefficient| |value|
static double rowTol(const LinearColumnOperator & op, int r, const std::vector<double> & in) { double t = 0; for (int l = 0; l < (int)in.size(); l++) t += fabs(op.GetCoeffs()(r, l)) * std::max(fabs(in[l]), 1e-3); return 1e-11 * (t + 1e-2); }

static void compareRows(Ctx & c, const char * nm, const LinearColumnOperator & op, const std::vector<double> & xi, const std::vector<double> & xo, const Poly & p, const Poly & want, ld off, int r0 = 0, int r1 = 1 << 30) {
	if ((int)op.GetCoeffs().GetRows() != (int)xo.size() || (int)op.GetCoeffs().GetColumns() != (int)xi.size()) c.bad("%s: operator is %dx%d", nm, (int)op.GetCoeffs().GetRows(), (int)op.GetCoeffs().GetColumns());
	std::vector<double> in, out(xo.size(), 9e99); for (double x : xi) in.push_back((double)p(x));
	op.Apply(&in[0], &out[0]);
	for (int k = std::max(0, r0); k < std::min((int)xo.size(), r1); k++) { ld w = want(xo[k]) - off; double t = rowTol(op, k, in);
		if (!(fabsl(out[k] - w) <= t)) c.bad("%s of a polynomial of degree %d at row %d (position %.6g): %.12g, exact %.12Lg (tolerance %.2g)", nm, (int)p.a.size() - 1, k, xo[k], out[k], w, t); }
}

// Exactness of every finite element operator on polynomials of its degree
static void exactFE(Src & s, Ctx & c) {
	int kind = (int)s.draw(10);
	Col q; genCol(s, c, q, kind == 8 ? 2 : 1); int vo = q.vo, nf = q.nf;
	auto deg = [&](int m) { int d = s.coin() ? m : (int)s.draw(m); c.desc(" degree %d", d); return d; };
	const char * nm[] = { "interpolation levels->interfaces", "interpolation interfaces->levels", "derivative levels->interfaces", "derivative interfaces->levels", "derivative interfaces->interfaces", "derivative levels->levels", "integral levels->levels", "derivative levels->levels with zero ends", "derivative on Gauss-Lobatto levels", "second derivative levels->levels", "second derivative of quadratics, interfaces" };
	c.desc(" %s", nm[kind]); c.cls(nm[kind]);
	if (kind == 0) { LinearColumnInterpFEM o; o.Initialize(LinearColumnInterpFEM::InterpSource_Levels, vo, q.N, q.E, q.E); Poly p = genPoly(s, deg(vo == 1 ? 1 : vo - 1));
		int lo = vo == 1 && p.a.size() > 1 && nf == 1 ? 1 << 20 : 0; compareRows(c, nm[kind], o, q.n, q.e, p, p, 0, lo); }
	if (kind == 1) { LinearColumnInterpFEM o; o.Initialize(LinearColumnInterpFEM::InterpSource_Interfaces, vo, q.N, q.E, q.N); Poly p = genPoly(s, deg(vo)); compareRows(c, nm[kind], o, q.e, q.n, p, p, 0); }
	if (kind == 2) { LinearColumnDiffFEM o; o.InitializeFluxCorrectionMethod(LinearColumnDiffFEM::InterpSource_Levels, vo, q.N, q.E, q.E, true); Poly p = genPoly(s, deg(vo - 1)); compareRows(c, nm[kind], o, q.n, q.e, p, p.diff(), 0); }
	if (kind == 3) { LinearColumnDiffFEM o; o.InitializeInterfaceMethod(LinearColumnDiffFEM::InterpSource_Interfaces, vo, q.N, q.E, q.N, false); Poly p = genPoly(s, deg(vo)); compareRows(c, nm[kind], o, q.e, q.n, p, p.diff(), 0); }
	if (kind == 4) { LinearColumnDiffFEM o; o.InitializeInterfaceMethod(LinearColumnDiffFEM::InterpSource_Interfaces, vo, q.N, q.E, q.E, false); Poly p = genPoly(s, deg(vo)); compareRows(c, nm[kind], o, q.e, q.e, p, p.diff(), 0); }
	if (kind == 5) { LinearColumnDiffFEM o; o.InitializeInterfaceMethod(LinearColumnDiffFEM::InterpSource_Levels, vo, q.N, q.E, q.N, false); int d = vo == 1 && nf == 1 ? 0 : deg(std::max(1, vo - 1)); Poly p = genPoly(s, d); compareRows(c, nm[kind], o, q.n, q.n, p, p.diff(), 0); }
	if (kind == 6) { LinearColumnIntFEM o; o.InitializeNodeToNodeInterfaceMethod(vo, q.N, q.E); Poly p = genPoly(s, deg(vo - 1)); Poly P = p.integ(); compareRows(c, nm[kind], o, q.n, q.n, p, P, P(0)); }
	if (kind == 7) { LinearColumnDiffFEM o; o.InitializeInterfaceMethod(LinearColumnDiffFEM::InterpSource_Levels, vo, q.N, q.E, q.N, true);
		int d = deg(std::max(0, vo - 1)); Poly p = genPoly(s, d);
		if (s.coin() && vo >= 3) { // vanishing at both ends: x(1-x)r(x), exact in every element
			Poly r = genPoly(s, (int)s.draw(vo - 3)); r.x0 = 0; Poly z; z.x0 = 0; z.a.assign(r.a.size() + 2, 0); for (size_t m = 0; m < r.a.size(); m++) { z.a[m+1] += r.a[m]; z.a[m+2] -= r.a[m]; }
			c.cls("vanishing at both ends"); compareRows(c, nm[kind], o, q.n, q.n, z, z.diff(), 0);
		} else compareRows(c, nm[kind], o, q.n, q.n, p, p.diff(), 0, vo, vo * (nf - 1)); }
	if (kind == 8) { std::vector<double> g = q.e; int v = vo + 1; LinearColumnDiffFEM o; o.InitializeGLLNodes(v, q.E, q.E); Poly p = genPoly(s, deg(vo)); compareRows(c, nm[kind], o, g, g, p, p.diff(), 0); }
	if (kind == 9) { LinearColumnDiffDiffFEM o; o.Initialize(LinearColumnDiffDiffFEM::InterpSource_Levels, vo, q.N, q.E);
		int d = deg(vo == 1 ? 1 : vo - 1); Poly p = genPoly(s, d); compareRows(c, nm[kind], o, q.n, q.n, p, p.diff().diff(), 0, d ? vo : 0, d ? vo * (nf - 1) : 1 << 30); }
	if (kind == 10) { LinearColumnDiffDiffFEM o; bool G = s.coin(); if (G && vo > 0) o.InitializeGLLNodes(vo + 1, q.E); else o.Initialize(LinearColumnDiffDiffFEM::InterpSource_Interfaces, vo, q.N, q.E);
		// weak exactness of GLL quadrature: degree vo is reproduced at interior edges up to the quadrature of u''phi (degree 2vo-2 <= 2vo-1)
		int d = deg(vo); Poly p = genPoly(s, d); int lo = d ? 1 : 0, hi = d ? (int)q.e.size() - 1 : 1 << 30; compareRows(c, nm[kind], o, q.e, q.e, p, p.diff().diff(), 0, lo, hi); }
}

// Lagrange basis derivative on a node set, long double
static ld dbasis(const std::vector<double> & x, int i, ld t) { ld r = 0; for (size_t m = 0; m < x.size(); m++) if ((int)m != i) { ld u = 1; for (size_t j = 0; j < x.size(); j++) if ((int)j != i && j != m) u *= (t - x[j]) / ((ld)x[i] - x[j]); r += u / ((ld)x[i] - x[m]); } return r; }

// Second derivative: conservative, dissipative, and (on interfaces) the exact weak form with zero flux at the ends
static void weak(Src & s, Ctx & c) {
	bool lev = s.coin(); Col q; genCol(s, c, q); int vo = q.vo, nf = q.nf;
	LinearColumnDiffDiffFEM o; int how = lev ? 0 : 1 + (int)s.draw(1);
	if (how == 0) o.Initialize(LinearColumnDiffDiffFEM::InterpSource_Levels, vo, q.N, q.E);
	if (how == 1) o.Initialize(LinearColumnDiffDiffFEM::InterpSource_Interfaces, vo, q.N, q.E);
	if (how == 2) o.InitializeGLLNodes(vo + 1, q.E);
	const char * nm[] = { "levels", "interfaces", "Gauss-Lobatto levels" }; c.desc(" second derivative on %s", nm[how]); c.cls(nm[how]);
	std::vector<double> & w = lev ? q.wn : q.we; int n = (int)w.size();
	std::vector<double> u(n), y(n, 7e77); for (auto & x : u) x = s.coin(1, 5) ? 0 : s.sreal(1); if (s.coin(1, 4)) { std::fill(u.begin(), u.end(), 0.0); u[s.draw(n - 1)] = 1; }
	o.Apply(&u[0], &y[0]);
	double S = 0, D = 0, m = 0; for (int k = 0; k < n; k++) { S += w[k] * y[k]; D += w[k] * u[k] * y[k]; m += fabs(w[k]) * rowTol(o, k, u); }
	c.near("total of the second derivative (zero flux at both ends)", S, 0, 10 * m);
	if (D > 10 * m) c.bad("second derivative creates variance: <u,D2u> = %.6g > 0 (tolerance %.2g)", D, 10 * m);
	if (how) {
		std::vector<ld> ref(n, 0); std::vector<double> gx, gw; gauss(vo + 1, gx, gw);
		for (int a = 0; a < nf; a++) { std::vector<double> x(q.e.begin() + a * vo, q.e.begin() + (a + 1) * vo + 1); double d = q.b[a+1] - q.b[a];
			for (int k = 0; k <= vo; k++) { ld t = q.b[a] + gx[k] * d, du = 0; std::vector<ld> db(vo + 1); for (int i = 0; i <= vo; i++) { db[i] = dbasis(x, i, t); du += db[i] * u[a*vo+i]; } for (int i = 0; i <= vo; i++) ref[a*vo+i] -= gw[k] * d * du * db[i]; } }
		for (int k = 0; k < n; k++) c.near("second derivative against the weak form", y[k], (double)(ref[k] / w[k]), 20 * rowTol(o, k, u), k);
	}
}

// Penalty: vanishes on continuous data, conserves, dissipates
static void penalty(Src & s, Ctx & c) {
	Col q; genCol(s, c, q); int vo = q.vo, nf = q.nf, n = vo * nf; if (nf < 2) { c.nontrivial(false); }
	LinearColumnDiscPenaltyFEM o; o.Initialize(vo, q.N, q.E);
	std::vector<double> wt(std::max(1, nf - 1)); for (auto & x : wt) x = s.coin(1, 4) ? 1 : s.real(0, 3);
	int si = (int)s.irange(1, 3), so = (int)s.irange(1, 3); std::vector<double> in(n * si, 5e55), out(n * so, 0), before; for (auto & x : out) x = s.coin() ? 0 : s.sreal(1); before = out;
	int mode = (int)s.draw(1); c.desc(" strides %d,%d", si, so);
	if (mode == 0) { int d = (int)s.draw(vo - 1); Poly p = genPoly(s, d); c.desc(" polynomial of degree %d", d); c.cls("continuous data"); for (int k = 0; k < n; k++) in[k*si] = (double)p(q.n[k]); }
	else { c.cls("discontinuous data"); for (int k = 0; k < n; k++) in[k*si] = s.sreal(1); }
	o.Apply(&wt[0], &in[0], &out[0], si, so);
	double S = 0, D = 0, m = 0, hm = 1; for (int a = 0; a < nf; a++) hm = std::min(hm, q.b[a+1] - q.b[a]); double tol = 1e-11 * 3 * pow(4.0, vo) / hm;
	for (int k = 0; k < n * so; k++) { if (k % so) { if (out[k] != before[k]) c.bad("penalty wrote between strided values at %d", k); continue; } double d = out[k] - before[k]; S += q.wn[k/so] * d; D += q.wn[k/so] * d * in[k/so*si]; m = std::max(m, fabs(d)); }
	if (mode == 0 && m > tol) c.bad("penalty of a polynomial that is continuous between elements is %.4g (tolerance %.2g)", m, tol);
	c.near("total of the penalty", S, 0, tol); if (D > tol) c.bad("penalty creates variance: %.6g", D);
	if (mode == 1 && nf > 1) { // it acts on a jump: equal weights, one interface
		bool any = false; for (int a = 0; a + 1 < nf; a++) if (wt[a] > 1e-3) any = true;
		double jump = 0; for (int a = 1; a < nf; a++) { double l = 0, r = 0; for (int i = 0; i < vo; i++) { double pl = 1, pr = 1; for (int j = 0; j < vo; j++) if (j != i) { pl *= (q.b[a] - q.n[(a-1)*vo+j]) / (q.n[(a-1)*vo+i] - q.n[(a-1)*vo+j]); pr *= (q.b[a] - q.n[a*vo+j]) / (q.n[a*vo+i] - q.n[a*vo+j]); } l += pl * in[((a-1)*vo+i)*si]; r += pr * in[(a*vo+i)*si]; } jump += wt[a-1] * (r - l) * (r - l); }
		if (any && jump > 1e-6 && !(D < 0)) c.bad("penalty does not act on a jump (weighted squared jump %.6g, change of variance %.6g)", jump, D);
	}
}

// Every way of applying an operator, and composition, agree with its coefficients
static void apply(Src & s, Ctx & c) {
	int ni = (int)s.irange(1, 8), no = (int)s.irange(1, 8), n2 = (int)s.irange(1, 8);
	auto mk = [&](int in, int out) { LinearColumnOperator o(in, out); for (int k = 0; k < out; k++) { int b = (int)s.draw(in - 1), e = b + 1 + (int)s.draw(in - 1 - b); if (s.coin(1, 8)) e = b; o.GetIxBegin()[k] = b; o.GetIxEnd()[k] = e; for (int l = b; l < e; l++) o.GetCoeffs()(k, l) = s.coin(1, 6) ? 0 : s.sreal(2); } return o; };
	LinearColumnOperator A = mk(ni, no), B = mk(n2, ni); c.desc("operators %dx%d and %dx%d", no, ni, ni, n2); c.nontrivial(ni > 1 && no > 1 && n2 > 1);
	int si = (int)s.irange(1, 4), so = (int)s.irange(1, 4); std::vector<double> x(ni * si), xr(ni * si), x1(ni), x1r(ni), yr(no), yrs(no * so), want(no), wref(no); c.desc(" strides %d,%d", si, so);
	for (int l = 0; l < ni; l++) { x1[l] = x[l*si] = s.sreal(3); x1r[l] = xr[l*si] = s.sreal(3); } for (int k = 0; k < no; k++) yrs[k*so] = yr[k] = s.sreal(3);
	for (int k = 0; k < no; k++) { ld a = 0, r = yr[k]; for (int l = A.GetIxBegin()[k]; l < A.GetIxEnd()[k]; l++) { a += (ld)A.GetCoeffs()(k, l) * x1[l]; r += (ld)A.GetCoeffs()(k, l) * ((ld)x1[l] - x1r[l]); } want[k] = (double)a; wref[k] = (double)r; }
	std::vector<double> y(no, 1e30), ys(no * so, 1e30), z(no, 1e30), zs(no * so, 1e30);
	A.Apply(&x1[0], &y[0]); A.Apply(&x[0], &ys[0], si, so); A.ApplyWithRef(&x1[0], &x1r[0], &z[0], &yr[0]); A.ApplyWithRef(&x[0], &xr[0], &zs[0], &yrs[0], si, so);
	for (int k = 0; k < no; k++) { double t = 1e-13 * 100;
		c.near("apply", y[k], want[k], t); c.near("apply with strides", ys[k*so], want[k], t); c.near("apply with reference", z[k], wref[k], t); c.near("apply with reference and strides", zs[k*so], wref[k], t);
		c.near("apply to one row", A.Apply(&x[0], k, si), want[k], t); c.near("apply to one row with reference", A.Apply(&x[0], &xr[0], yr[k], k, si), wref[k], t); }
	for (int k = 0; k < no * so; k++) if (k % so && (ys[k] != 1e30 || zs[k] != 1e30)) c.bad("wrote between strided values");
	std::vector<double> v(n2), bv(ni, 0), abv(no, 0), cv(no, 1e30); for (auto & t : v) t = s.sreal(2);
	B.Apply(&v[0], &bv[0]); A.Apply(&bv[0], &abv[0]); LinearColumnOperator AB(A); AB.ComposeWith(B); AB.Apply(&v[0], &cv[0]);
	for (int k = 0; k < no; k++) c.near("composition", cv[k], abv[k], 1e-11, k);
	LinearColumnOperator I; I.InitializeIdentity(ni); std::vector<double> ix(ni, 1e30); I.Apply(&x1[0], &ix[0]); for (int l = 0; l < ni; l++) if (ix[l] != x1[l]) c.bad("identity changed row %d", l);
	if (s.coin(1, 6) && n2 != no) { LinearColumnOperator X(B); bool th = false; try { X.ComposeWith(mk(ni, n2 + 1)); } catch (Exception &) { th = true; } if (!th) c.bad("composition of operators whose sizes do not match is accepted"); c.cls("mismatched composition"); }
}

// The grid's operators: right operator for each name, zero boundaries, single rows, stretching, finite volumes
static void grid(Src & s, Ctx & c) {
	Cfg g; g.sphere = false; g.np = 1; g.nx = g.ny = 1; g.ho = 2; g.vm = "none"; g.disc = s.coin(1, 3) ? 1 : 0; static const int st[3] = { 2, 3, 1 };
	g.stag = st[g.disc ? s.draw(1) : s.weighted({ 3, 3, 1 })]; g.vo = g.disc ? 2 * (int)s.irange(1, 3) : (int)s.irange(g.stag == 1 ? 2 : 1, 5); int nf = (int)s.irange(2, 5); g.nlev = g.stag == 1 ? 1 + (g.vo - 1) * nf : g.vo * nf;
	g.stretch = std::vector<std::string>{ "uniform", "cubic", "pwlinear" }[s.draw(2)];
	Case * tp = new Case; Case & tc = *tp; tc.ztop = s.logreal(1e2, 1e5); tc.state = [](const PhysicalConstants &, double, double, double, double * x, double *) { x[0] = x[1] = x[3] = 0; x[2] = 300; x[4] = 1; };
	c.desc("%s order %d, %d blocks, staggering %d, stretching %s", g.disc ? "finite volume" : "finite element", g.vo, nf, g.stag, g.stretch.c_str()); c.cls(g.disc ? "finite volume" : "finite element"); c.cls("stretch:" + g.stretch); c.nontrivial(true);
	Sim S(g, tp); GridGLL * p = dynamic_cast<GridGLL *>(S.pg); int n = g.nlev; std::vector<double> N, E; for (int k = 0; k < n; k++) N.push_back(p->GetREtaLevel(k)); for (int k = 0; k <= n; k++) E.push_back(p->GetREtaInterface(k));
	bool gl = g.stag == 1; bool uni = g.stretch == "uniform"; int vo = g.vo, fv = g.disc, D = 0, h0 = 0, h1 = 1 << 30;
	auto exact = [&](const char * nm, std::function<void(const double *, double *)> f, const std::vector<double> & xi, const std::vector<double> & xo, int deg, int der, int r0, int r1) {
		int d = s.coin() ? deg : (int)s.draw(std::max(0, deg)); if (der == 0 && deg < 0) return; Poly P = genPoly(s, d), W = P; for (int k = 0; k < der; k++) W = W.diff(); if (d == 0) { r0 = 0; r1 = 1 << 30; }
		std::vector<double> in, out(xo.size(), 4e44); for (double x : xi) in.push_back((double)P(x)); f(&in[0], &out[0]);
		double t = 1e-9 * pow(n * 4.0, der) * (1 + 2 * vo) * (vo > 4 ? 10 : 1);
		for (int k = r0; k < std::min(r1, (int)xo.size()); k++) c.near(nm, out[k], (double)W(xo[k]), t, k);
	};
	typedef const double * I; typedef double * O; int lo = 0, hi = 1 << 30;
	if (!gl) {
		double big = 3.25; std::vector<double> in(n + 1), o1(n + 1, 1), o2(n + 1, 2); for (auto & x : in) x = s.sreal(big);
		auto same = [&](const char * nm, const std::vector<double> & a, const std::vector<double> & b, int from, int to) { for (int k = from; k < to; k++) c.near(nm, a[k], b[k], 1e-9 * n * n, k); };
		exact("levels->interfaces", [&](I a, O b) { p->InterpolateNodeToREdge(a, b); }, N, E, fv ? vo / 2 - 1 : std::max(1, vo - 1), 0, lo, hi);
		if (fv) exact("levels->interfaces (interior)", [&](I a, O b) { p->InterpolateNodeToREdge(a, b); }, N, E, uni ? vo - 1 : std::max(0, vo - 2), 0, vo / 2, n + 1 - vo / 2);
		exact("interfaces->levels", [&](I a, O b) { p->InterpolateREdgeToNode(a, b); }, E, N, fv ? 1 : vo, 0, lo, hi);
		exact("derivative levels->interfaces", [&](I a, O b) { p->DifferentiateNodeToREdge(a, b); }, N, E, fv ? 0 : vo - 1, 1, lo, hi);
		exact("derivative interfaces->levels", [&](I a, O b) { p->DifferentiateREdgeToNode(a, b); }, E, N, fv ? 2 * 0 + 1 : vo, 1, lo, hi);
		exact("derivative interfaces->interfaces", [&](I a, O b) { p->DifferentiateREdgeToREdge(a, b); }, E, E, fv ? vo / 2 : vo, 1, lo, hi);
		exact("derivative levels->levels", [&](I a, O b) { p->DifferentiateNodeToNode(a, b); }, N, N, fv ? 0 : std::max(1, vo - 1), 1, lo, hi);
		// ends set to zero, interior unchanged
		p->InterpolateNodeToREdge(&in[0], &o1[0]); p->InterpolateNodeToREdge(&in[0], &o2[0], true); same("interpolation with zero ends", o2, o1, 1, n); if (o2[0] != 0 || o2[n] != 0) c.bad("interpolation with zero ends leaves %.6g and %.6g there", o2[0], o2[n]);
		if (!fv) { o1.assign(n + 1, 1); p->DifferentiateNodeToNode(&in[0], &o1[0]); o2 = o1; p->DifferentiateNodeToNode(&in[0], &o2[0], true); same("derivative on levels with zero ends (interior)", o2, o1, vo, n - vo);
			std::vector<double> e(n + 1), d(n); p->InterpolateNodeToREdge(&in[0], &e[0], true); p->DifferentiateREdgeToNode(&e[0], &d[0]); same("derivative on levels with zero ends against interpolation and derivative", o2, d, 0, n); }
		// single rows and reference states
		int sd = (int)s.irange(1, 3); std::vector<double> xs((n + 1) * sd, 8e88), rs((n + 1) * sd, 8e88); for (int k = 0; k <= n; k++) { xs[k*sd] = in[k]; rs[k*sd] = s.sreal(1); } c.desc(" stride %d", sd);
		auto rows = [&](const char * nm, std::function<void(I, O)> f, std::function<double(I, int)> one, int cnt) { std::vector<double> o(n + 1, 0); f(&in[0], &o[0]); for (int k = 0; k < cnt; k++) c.near(nm, one(&xs[0], k), o[k], 1e-9 * n * n, k); };
		rows("levels->interfaces", [&](I a, O b) { p->InterpolateNodeToREdge(a, b); }, [&](I a, int k) { return p->InterpolateNodeToREdge(a, NULL, k, 0, sd); }, n + 1);
		rows("interfaces->levels", [&](I a, O b) { p->InterpolateREdgeToNode(a, b); }, [&](I a, int k) { return p->InterpolateREdgeToNode(a, NULL, k, 0, sd); }, n);
		rows("derivative levels->levels", [&](I a, O b) { p->DifferentiateNodeToNode(a, b); }, [&](I a, int k) { return p->DifferentiateNodeToNode(a, k, sd); }, n);
		rows("derivative levels->interfaces", [&](I a, O b) { p->DifferentiateNodeToREdge(a, b); }, [&](I a, int k) { return p->DifferentiateNodeToREdge(a, k, sd); }, n + 1);
		rows("derivative interfaces->levels", [&](I a, O b) { p->DifferentiateREdgeToNode(a, b); }, [&](I a, int k) { return p->DifferentiateREdgeToNode(a, k, sd); }, n);
		rows("derivative interfaces->interfaces", [&](I a, O b) { p->DifferentiateREdgeToREdge(a, b); }, [&](I a, int k) { return p->DifferentiateREdgeToREdge(a, k, sd); }, n + 1);
		for (int k = 0; k <= n; k++) { double ref = s.sreal(1), v = p->InterpolateNodeToREdge(&xs[0], &rs[0], k, ref, sd), a = p->InterpolateNodeToREdge(&xs[0], NULL, k, 0, sd), b = p->InterpolateNodeToREdge(&rs[0], NULL, k, 0, sd); c.near("levels->interfaces about a reference", v, ref + a - b, 1e-10 * n); }
		for (int k = 0; k < n; k++) { double ref = s.sreal(1), v = p->InterpolateREdgeToNode(&xs[0], &rs[0], k, ref, sd), a = p->InterpolateREdgeToNode(&xs[0], NULL, k, 0, sd), b = p->InterpolateREdgeToNode(&rs[0], NULL, k, 0, sd); c.near("interfaces->levels about a reference", v, ref + a - b, 1e-10 * n); }
		// second derivatives conserve
		std::vector<double> y(n + 1, 0); p->DiffDiffREdgeToREdge(&in[0], &y[0]); double Sg = 0; int v = fv ? 1 : vo; auto LW = gllw(v + 1); for (int a = 0; a < n / v; a++) for (int k = 0; k <= v; k++) Sg += LW[k] * (E[(a+1)*v] - E[a*v]) * y[a*v+k]; c.near("total of the second derivative on interfaces", Sg, 0, 1e-9 * n * n);
		y.assign(n + 1, 0); p->DiffDiffNodeToNode(&in[0], &y[0]); Sg = 0; std::vector<double> gx, gw; gauss(v, gx, gw); for (int a = 0; a < n / v; a++) for (int k = 0; k < v; k++) Sg += gw[k] * (E[(a+1)*v] - E[a*v]) * y[a*v+k]; c.near("total of the second derivative on levels", Sg, 0, 1e-9 * n * n);
	} else {
		exact("derivative on Gauss-Lobatto levels", [&](I a, O b) { p->DifferentiateNodeToNode(a, b); }, N, N, vo - 1, 1, lo, hi);
		exact("second derivative on Gauss-Lobatto levels", [&](I a, O b) { p->DiffDiffNodeToNode(a, b); }, N, N, vo - 1, 2, 1, n - 1);
	}
	(void)D; (void)h0; (void)h1;
}

int main(int argc, char ** argv) { return run(argc, argv, { { "exact", exactFE, 6 }, { "weak", weak, 4 }, { "penalty", penalty, 3 }, { "apply", apply, 3 }, { "grid", grid, 2 } }, [] { initMPI(); }); }
