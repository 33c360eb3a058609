// P15: every integrator reaches its stated order, for tracers as for the state, on generated split systems.
#include "pbt.h"
#include "model_util.h"
using namespace pbt; using namespace mu;
static const int N = 5;      // three components of the state, two tracers
struct Sys {
	// explicit part: A y + B sin(C y + d); vertical explicit part the same; implicit part: L y + b
	double A[2][N][N], B[2][N][N], C[2][N][N], d[2][N], L[N][N], b[N]; bool useV, useI, nl;
	void fe(int w, const double * y, double * f) const {
		for (int i = 0; i < N; i++) { f[i] = 0; for (int j = 0; j < N; j++) f[i] += A[w][i][j] * y[j]; }
		if (nl) { double q[N]; for (int i = 0; i < N; i++) { double a = d[w][i]; for (int j = 0; j < N; j++) a += C[w][i][j] * y[j]; q[i] = sin(a); } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) f[i] += B[w][i][j] * q[j]; }
	}
	void fi(const double * y, double * f) const { for (int i = 0; i < N; i++) { f[i] = b[i]; for (int j = 0; j < N; j++) f[i] += L[i][j] * y[j]; } }
	void f(const double * y, double * r) const {
		double t[N]; fe(0, y, r); if (useV) { fe(1, y, t); for (int i = 0; i < N; i++) r[i] += t[i]; } if (useI) { fi(y, t); for (int i = 0; i < N; i++) r[i] += t[i]; }
	}
	void solve(double h, double * y) const {   // y <- (1 - h L)^-1 (y + h b)
		double M[N][N + 1]; for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) M[i][j] = (i == j) - h * L[i][j]; M[i][N] = y[i] + h * b[i]; }
		for (int c = 0; c < N; c++) { int p = c; for (int r = c; r < N; r++) if (fabs(M[r][c]) > fabs(M[p][c])) p = r; for (int k = 0; k <= N; k++) std::swap(M[c][k], M[p][k]); for (int r = 0; r < N; r++) if (r != c) { double q = M[r][c] / M[c][c]; for (int k = c; k <= N; k++) M[r][k] -= q * M[c][k]; } }
		for (int i = 0; i < N; i++) y[i] = M[i][N] / M[i][i];
	}
};
static Sys * cur; static int nAfter;
static void nodes(Model & m, int ia, int iu, std::function<void(const double *, double *)> g) {
	Grid * pg = m.GetGrid();
	for (int n = 0; n < pg->GetActivePatchCount(); n++) {
		GridPatch * p = pg->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
			double a[N], u[N];
			for (int c = 0; c < N; c++) { a[c] = c < 3 ? p->GetDataState(ia, pg->GetVarLocation(c))(c, i, j, 0) : p->GetDataTracers(ia)(c - 3, i, j, 0); u[c] = c < 3 ? p->GetDataState(iu, pg->GetVarLocation(c))(c, i, j, 0) : p->GetDataTracers(iu)(c - 3, i, j, 0); }
			g(a, u);
			for (int c = 0; c < N; c++) if (c < 3) p->GetDataState(iu, pg->GetVarLocation(c))(c, i, j, 0) = u[c]; else p->GetDataTracers(iu)(c - 3, i, j, 0) = u[c];
		}
	}
}
struct HD : HorizontalDynamics {
	HD(Model & m) : HorizontalDynamics(m) { }
	virtual void StepExplicit(int a, int u, const Time &, double dt) { nodes(m_model, a, u, [&](const double * x, double * y) { double f[N]; cur->fe(0, x, f); for (int i = 0; i < N; i++) y[i] += dt * f[i]; }); }
	virtual void StepAfterSubCycle(int a, int u, int w, const Time &, double) { nAfter++; if (a == w || u == w) _EXCEPTIONT("working data must be distinct"); m_model.GetGrid()->CopyData(a, u, DataType_State); m_model.GetGrid()->CopyData(a, u, DataType_Tracers); }
};
struct VD : VerticalDynamics {
	VD(Model & m) : VerticalDynamics(m) { }
	virtual void StepExplicit(int a, int u, const Time &, double dt) { if (cur->useV) nodes(m_model, a, u, [&](const double * x, double * y) { double f[N]; cur->fe(1, x, f); for (int i = 0; i < N; i++) y[i] += dt * f[i]; }); }
	virtual void StepImplicitTermsExplicitly(int a, int u, const Time &, double dt) { if (cur->useI) nodes(m_model, a, u, [&](const double * x, double * y) { double f[N]; cur->fi(x, f); for (int i = 0; i < N; i++) y[i] += dt * f[i]; }); }
	virtual void StepImplicit(int a, int u, const Time &, double dt) { if (cur->useI) nodes(m_model, a, u, [&](const double * x, double * y) { double z[N]; for (int i = 0; i < N; i++) z[i] = x[i]; cur->solve(dt, z); for (int i = 0; i < N; i++) y[i] += z[i] - x[i]; }); }
};
static HorizontalDynamics * mkH(Model & m, const Cfg &) { return new HD(m); }
static VerticalDynamics * mkV(Model & m, const Cfg &) { return new VD(m); }

struct Sch { const char * n; double order; bool v, i; };
static const std::vector<Sch> SCH = {
	{ "erk/fe", 1, false, false }, { "erk/rk4", 4, false, false }, { "erk/rk3", 3, false, false }, { "erk/kgu35", 3, false, false }, { "erk/ssprk53", 3, false, false }, { "erk", 0, false, false },
	{ "strang/fe", 1, true, true }, { "strang/rk4", 2, true, true }, { "strang/rk3", 2, true, true }, { "strang/kgu35", 2, true, true }, { "strang/ssprk53", 2, true, true }, { "strang", 0, true, true },
	{ "ars222", 2, true, true }, { "ars232", 2, true, true }, { "ars343", 3, true, true }, { "ars443", 3, true, true }, { "ssp3_332", 2, true, true }, { "ark232", 2, true, true }, { "gark2", 2, true, true } };
// order with no implicit part
static double explicitOrder(const std::string & s) {
	if (s == "erk/rk4" || s == "strang/rk4") return 4;
	if (s == "erk/fe" || s == "strang/fe") return 1;
	if (s.substr(0, 3) == "erk" || s.substr(0, 6) == "strang") return 3;
	return 0;
}
static void genSys(Src & s, Sys & y, double mag) {
	for (int w = 0; w < 2; w++) for (int i = 0; i < N; i++) { y.d[w][i] = s.real(0, 6); for (int j = 0; j < N; j++) { y.A[w][i][j] = s.sreal(mag); y.B[w][i][j] = s.sreal(mag); y.C[w][i][j] = s.sreal(1); } }
	for (int i = 0; i < N; i++) { y.b[i] = s.sreal(mag); for (int j = 0; j < N; j++) y.L[i][j] = s.sreal(mag) - (i == j ? s.real(0, 2 * mag) : 0); }
}
static Sim * mk(const Sch & sc, const double * y0) {
	Cfg g; g.sphere = false; g.sw = true; g.np = 1; g.nx = g.ny = 1; g.ho = 2; g.stag = 2; g.ntr = 2; g.scheme = sc.n; g.gd[5] = 1;
	Case * tc = new Case; tc->ztop = 1; std::vector<double> v(y0, y0 + N);
	tc->state = [v](const PhysicalConstants &, double, double, double, double * s, double * q) { for (int i = 0; i < 3; i++) s[i] = v[i]; if (q) { q[0] = v[3]; q[1] = v[4]; } };
	return new Sim(g, tc, mkH, mkV);
}
static void get(Sim & S, double * y) { GridPatchGLL * p = S.patch(0); for (int c = 0; c < N; c++) y[c] = c < 3 ? S.data(p, 0, c)(c, 1, 1, 0) : p->GetDataTracers(0)(c - 3, 1, 1, 0); }
static void exact(const Sys & y, double * u, double T) {
	int n = 400; double h = T / n, k1[N], k2[N], k3[N], k4[N], w[N];
	for (int q = 0; q < n; q++) {
		y.f(u, k1); for (int i = 0; i < N; i++) w[i] = u[i] + h / 2 * k1[i]; y.f(w, k2); for (int i = 0; i < N; i++) w[i] = u[i] + h / 2 * k2[i]; y.f(w, k3); for (int i = 0; i < N; i++) w[i] = u[i] + h * k3[i]; y.f(w, k4);
		for (int i = 0; i < N; i++) u[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
	}
}
static void order(Src & s, Ctx & c) {
	const Sch & sc = s.pick(SCH); Sys y; cur = &y;
	y.nl = s.coin(3, 4); y.useV = sc.v && s.coin(1, 2); y.useI = sc.i && s.coin(3, 4); genSys(s, y, 0.35);
	double y0[N]; for (int i = 0; i < N; i++) y0[i] = s.sreal(2);
	double p = y.useI ? sc.order : explicitOrder(sc.n); if (p == 0) p = sc.order ? sc.order : y.useI ? 2 : 3;
	double T = s.real(0.5, 1.0); bool mark = s.coin(1, 2);   // mark the last step as last
	c.desc("%s nonlinear %d vertical %d implicit %d T %.3f order %g first value %g", sc.n, y.nl, y.useV, y.useI, T, p, y0[0]); c.nontrivial(); c.cls(sc.n);
	double ref[N]; for (int i = 0; i < N; i++) ref[i] = y0[i]; exact(y, ref, T);
	double e[3][2]; int n0 = p >= 4 ? 6 : 10;
	for (int r = 0; r < 3; r++) {
		int n = n0 << (2 * r); if (r == 2 && p > 2) n = n0 * 8;
		Sim * S = mk(sc, y0); nAfter = 0; for (int q = 0; q < n; q++) S->step(T / n, mark && q == n - 1);
		double u[N]; get(*S, u); delete S;
		e[r][0] = e[r][1] = 0; for (int i = 0; i < N; i++) e[r][i >= 3] = std::max(e[r][i >= 3], fabs(u[i] - ref[i]));
		if (nAfter != n) { c.fail("substep", "%s applied the after-step operators %d times in %d steps", sc.n, nAfter, n); return; }
	}
	for (int t = 0; t < 2; t++) {
		double r = n0, h1 = e[0][t], h2 = e[1][t], h3 = e[2][t]; (void)r;
		double f2 = p > 2 ? 2 : 4;
		double o1 = log(h1 / h2) / log(4.0), o2 = log(h2 / h3) / log(f2);
		if (h3 < 2e-11 || h2 < 2e-11) continue;
		if (!(std::max(o1, o2) >= p - 0.35)) { c.fail(t ? "tracer-order" : "state-order", "%s: %s error %.3g, %.3g, %.3g with %d, %d, %d steps: order %.2f, %.2f, stated %g", sc.n, t ? "tracer" : "state", h1, h2, h3, n0, 4 * n0, (int)(4 * n0 * f2), o1, o2, p); return; }
	}
	if (!(e[2][0] < 0.05 && e[2][1] < 0.05)) { c.fail("consistency", "%s does not approach the solution: errors %g %g", sc.n, e[2][0], e[2][1]); return; }
}
// linear invariants and steady fields
static void invariant(Src & s, Ctx & c) {
	const Sch & sc = s.pick(SCH); Sys y; cur = &y; y.nl = s.coin(3, 4); y.useV = sc.v; y.useI = sc.i; genSys(s, y, 0.3);
	double w[N]; bool any = false; for (int i = 0; i < N; i++) { w[i] = s.coin(2, 3) ? s.sreal(1) : 0; any |= w[i] != 0; } if (!any) w[0] = 1;
	int still = s.coin(1, 2) ? (int)s.draw(N - 1) : -1; if (still >= 0) { for (int i = 0; i < N; i++) w[i] = i == still; }
	// project: rows orthogonal to w
	double ww = 0; for (int i = 0; i < N; i++) ww += w[i] * w[i];
	auto proj = [&](double (*M)[N]) { for (int j = 0; j < N; j++) { double q = 0; for (int i = 0; i < N; i++) q += w[i] * M[i][j]; for (int i = 0; i < N; i++) M[i][j] = w[i] == 0 ? M[i][j] : still >= 0 ? 0 : M[i][j] - q * w[i] / ww; } };
	for (int k = 0; k < 2; k++) { proj(y.A[k]); proj(y.B[k]); } proj(y.L); { double q = 0; for (int i = 0; i < N; i++) q += w[i] * y.b[i]; for (int i = 0; i < N; i++) y.b[i] = still >= 0 && w[i] ? 0 : y.b[i] - q * w[i] / ww; }
	double y0[N]; for (int i = 0; i < N; i++) y0[i] = s.sreal(3); int n = (int)s.irange(1, 12); double dt = s.logreal(1e-3, 1.5);
	c.desc("%s steps %d dt %.3g %s", sc.n, n, dt, still >= 0 ? "steady field" : "conserved sum"); c.nontrivial(); c.cls(sc.n);
	Sim * S = mk(sc, y0); double a = 0, m = 0; for (int i = 0; i < N; i++) { a += w[i] * y0[i]; }
	for (int q = 0; q < n; q++) S->step(dt, q == n - 1);
	double u[N], b = 0; get(*S, u); delete S; for (int i = 0; i < N; i++) { b += w[i] * u[i]; m += fabs(w[i]) * (fabs(u[i]) + fabs(y0[i])); }
	if (!(m < 1e6)) { c.discard(); return; }
	if (!(fabs(a - b) <= 1e-12 * n * (m + 10))) { c.fail(still >= 0 ? "steady" : "conserved", "%s: %.15g became %.15g after %d steps of %g", sc.n, a, b, n, dt); return; }
}
int main(int argc, char ** argv) {
	std::vector<Prop> p = { { "order", order, 1 }, { "invariant", invariant, 1 } };
	return run(argc, argv, p, initMPI);
}
