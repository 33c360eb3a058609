// P22: horizontal diffusion damps eigenfunctions at the right rate, never increases variance, keeps means and constants, and acts through the right coefficients.
#include "dyn.h"
using namespace pbt; using namespace mu;
static void apply(Sim & S, double dt, bool split) {   // instance 0 to instance 1
	HorizontalDynamics * H = S.m.GetHorizontalDynamics();
	if (!split) { H->StepAfterSubCycle(0, 1, 2, S.now(), dt); return; }
	S.pg->CopyData(0, 1, DataType_State); S.pg->CopyData(0, 1, DataType_Tracers); int n = H->GetSubStepAfterSubCycleCount();
	for (int k = 0; k < n; k++) { int w = H->SubStepAfterSubCycle(0, 1, 2, S.now(), dt, k); S.pg->PostProcessSubstage(w, DataType_State); S.pg->PostProcessSubstage(w, DataType_Tracers); }
}
struct Modes { bool sphere; int l; double A[3][3], b[3], kx, ky, ph, R;
	// value and (tangential) gradient
	double val(V3 P) const { if (!sphere) return cos(kx * P.x + ky * P.y + ph); double x[3] = { P.x, P.y, P.z }, r = 0; if (l == 1) { for (int i = 0; i < 3; i++) r += b[i] * x[i]; return r; } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r += A[i][j] * x[i] * x[j]; return r; }
	V3 grad(V3 P) const { if (!sphere) { double s = -sin(kx * P.x + ky * P.y + ph); return { s * kx, s * ky, 0 }; } double x[3] = { P.x, P.y, P.z }, g[3]; for (int i = 0; i < 3; i++) { g[i] = l == 1 ? b[i] : 0; if (l == 2) for (int j = 0; j < 3; j++) g[i] += (A[i][j] + A[j][i]) * x[j]; } V3 G = { g[0], g[1], g[2] }; return (1 / R) * (G - dot(G, P) * P); }
	double lam() const { return sphere ? l * (l + 1) / (R * R) : kx * kx + ky * ky; } };
// an eigenfunction of the Laplacian in every scalar, a rotational and a divergent one in the wind
static void eigen(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.walls = false; o.topo = false; o.schemes = { "strang" }; genDyn(s, c, d, o); Cfg & g = d.g; if (g.hm == "v1") g.ho = (int)s.irange(3, 5); g.ntr = (int)s.irange(0, 2); bool sph = g.sphere; int np1 = g.ho - 1;
	Modes m[3]; if (sph) { g.ne = (int)s.irange(2, 4); g.np = g.ne % 2 == 0 && s.coin(1, 4) ? 24 : 6; if (g.hm == "v1" && g.ne * np1 < 6) g.ho = 4; } else { g.nx = (int)s.irange(2, 5); g.ny = (int)s.irange(2, 5); g.np = s.coin(1, 4) ? g.nx : 1; }
	np1 = g.ho - 1; if (!sph && np1 == 2) { g.nx = std::max(g.nx, 4); g.ny = std::max(g.ny, 4); if (g.np > 1) g.np = g.nx; }
	if (s.coin(1, 3)) { g.refLen = sph ? s.real(0.02, 0.3) : s.logreal(1, 1e5); } int ord = s.coin() ? 4 : 2; g.hvOrder = ord; double nuS = s.coin(1, 5) ? 0 : s.logreal(0.1, 10), nuD = s.coin(1, 5) ? 0 : s.logreal(0.1, 10), nuV = s.coin(1, 5) ? 0 : s.logreal(0.1, 10);
	double da = sph ? M_PI / 2 / g.ne : (g.gd[1] - g.gd[0]) / g.nx, ref = g.refLen > 0 ? g.refLen : sph ? M_PI / 60 : 1, R = 6.37122e6 / d.X, lx = g.gd[1] - g.gd[0], ly = g.gd[3] - g.gd[2];
	double sp = minSpacing(d), dt = s.logreal(0.1, 1000), nu0 = 1e-5 * (ord == 2 ? sp * sp : sp * sp * sp * sp) / dt, f = ord == 4 ? pow(da / ref, 3.2) : 1; g.nuS = nuS * nu0 / f; g.nuD = nuD * nu0 / f; g.nuV = nuV * nu0 / f;
	double ppw = 1e9; for (int q = 0; q < 3; q++) { m[q].sphere = sph; m[q].R = R; if (sph) { m[q].l = (int)s.irange(1, 2); double tr = 0; for (int i = 0; i < 3; i++) { m[q].b[i] = s.sreal(1) + (i == 0 ? 1.5 : 0); for (int j = 0; j <= i; j++) m[q].A[i][j] = m[q].A[j][i] = s.sreal(1) + (i == 2 && j == 0 ? 1.5 : 0); tr += m[q].A[i][i]; } for (int i = 0; i < 3; i++) m[q].A[i][i] -= tr / 3; ppw = std::min(ppw, 4.0 * g.ne * np1 / m[q].l); }
		else { int kx = (int)s.draw(g.nx * np1 / 6), ky = (int)s.draw(g.ny * np1 / 6); if (!kx && !ky) kx = 1; m[q].kx = 2 * M_PI * kx / lx; m[q].ky = 2 * M_PI * ky / ly * (s.coin() ? 1 : -1); m[q].ph = s.real(0, 6); if (kx) ppw = std::min(ppw, (double)g.nx * np1 / kx); if (ky) ppw = std::min(ppw, (double)g.ny * np1 / ky); } }
	d.U = 0; d.amp = 0; d.hasTopo = false; c.desc(" eigenfunctions order %d patches %d elements %dx%d points per wave %.3g refLen %g nu %.3g %.3g %.3g of %.3g dt %.3g", g.ho, g.np, sph ? g.ne : g.nx, sph ? g.ne : g.ny, ppw, g.refLen, nuS, nuD, nuV, nu0, dt); c.cls(pbt::fmt("order %d", ord)); c.cls(sph ? "spherical harmonics" : "plane waves");
	bool split = s.coin(1, 3) && ord == 4; std::unique_ptr<Sim> S(build(d)); int nc = g.sw ? 3 : 5; double as = s.logreal(0.01, 10), ar = s.logreal(0.1, 10) * (s.coin(1, 4) ? 0 : 1), ad = s.logreal(0.1, 10) * (s.coin(1, 4) ? 0 : 1); double kr = sqrt(m[1].lam()), kd = sqrt(m[2].lam());
	auto lev = [](int k) { return 1 + 0.3 * k; };
	S->each([&](GridPatchGLL * p, int i, int j) { V3 a, b, P; basisAt(*S, p, i, j, a, b, P); double v = m[0].val(P); V3 gr = m[1].grad(P), gd = m[2].grad(P), rot = sph ? cross(P, gr) : V3{ -gr.y, gr.x, 0 }; V3 w = (ar / kr) * rot + (ad / kd) * gd;
		for (int k = 0; k < g.nlev; k++) { V3 q = lev(k) * w; S->data(p, 0, 0)(0, i, j, k) = dot(q, a); S->data(p, 0, 1)(1, i, j, k) = dot(q, b); }
		for (int t = 2; t < nc; t++) for (int k = 0; k < S->nk(t); k++) S->data(p, 0, t)(t, i, j, k) = 100 * t + as * lev(k) * v; for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) p->GetDataTracers(0)(t, i, j, k) = 1000 * (t + 1) + as * lev(k) * v; });
	S->pg->PostProcessSubstage(0, DataType_State); if (g.ntr) S->pg->PostProcessSubstage(0, DataType_Tracers); apply(*S, dt, split); if (split) { S->pg->PostProcessSubstage(1, DataType_State); if (g.ntr) S->pg->PostProcessSubstage(1, DataType_Tracers); }
	double pw = ord / 2, tolS = 2e-3 + (ppw < 9 ? 0.15 : 0) + (np1 == 2 ? 0.02 : 0), tolW = 0.02 + (ppw < 9 ? 0.3 : 0) + (np1 == 2 ? 0.3 : 0) + (sph && ord == 4 && np1 == 3 ? 0.2 : 0);
	auto judge = [&](const char * what, double nu, double lam, double A, std::function<double(GridPatchGLL *, int, int, int)> delta, std::function<double(GridPatchGLL *, int, int)> mode, int K, double floor, bool vec, std::function<V3(GridPatchGLL *, int, int, int)> dv, std::function<V3(GridPatchGLL *, int, int)> mv) {
		double tolR = vec ? tolW : tolS; for (int k = 0; k < K; k++) { double num = 0, den = 0; S->each([&](GridPatchGLL * p, int i, int j) { double w = p->GetElementAreaNode()(i, j, 0); if (vec) { num += w * dot(dv(p, i, j, k), mv(p, i, j)); den += w * dot(mv(p, i, j), mv(p, i, j)); } else { num += w * delta(p, i, j, k) * mode(p, i, j); den += w * mode(p, i, j) * mode(p, i, j); } });
			double rate = -num / den / (A * lev(k)), want = dt * nu * pow(lam, pw), fl = floor / (A * lev(k)), e = fabs(rate - want);
			if (getenv("P22V")) fprintf(stderr, "P22 %s rel %.2e tol %.2e np1 %d ppw %.1f ord %d %s %s\n", what, e / (want + 1e-300), tolR, np1, ppw, ord, sph ? "sph" : "box", g.hm.c_str());
			c.check(e <= tolR * want + fl, pbt::fmt("%s is not damped at the rate of its coefficient", what).c_str(), "level %d: fraction removed %.8g, expected %.8g", k, rate, want); if (want > 100 * fl) c.nontrivial(); } };
	double eps = 1e-14; auto nul = std::function<V3(GridPatchGLL *, int, int, int)>(); auto nul2 = std::function<V3(GridPatchGLL *, int, int)>(); auto n1 = std::function<double(GridPatchGLL *, int, int, int)>(); auto n2 = std::function<double(GridPatchGLL *, int, int)>();
	auto sm = [&](GridPatchGLL * p, int i, int j) { V3 a, b, P; basisAt(*S, p, i, j, a, b, P); return m[0].val(P); };
	for (int t = 2; t < nc; t++) judge("a scalar", nuS * nu0, m[0].lam(), as, [&](GridPatchGLL * p, int i, int j, int k) { return S->data(p, 1, t)(t, i, j, k) - S->data(p, 0, t)(t, i, j, k); }, sm, S->nk(t), eps * 500, false, nul, nul2);
	for (int t = 0; t < g.ntr; t++) judge("a tracer", nuS * nu0, m[0].lam(), as, [&](GridPatchGLL * p, int i, int j, int k) { return p->GetDataTracers(1)(t, i, j, k) - p->GetDataTracers(0)(t, i, j, k); }, sm, g.nlev, eps * 3000, false, nul, nul2);
	auto dw = [&](GridPatchGLL * p, int i, int j, int k) { return windAt(*S, p, 1, i, j, k) - windAt(*S, p, 0, i, j, k); };
	/* projecting on one kind does not see the other, up to the discretisation */
	double cross_ = (sph && np1 < 4 ? 0.3 : 0.05) * dt * nu0 * (nuV * pow(m[1].lam(), pw) * ar + nuD * pow(m[2].lam(), pw) * ad) + 0.05 * dt * nu0 * (nuD * pow(m[1].lam(), pw) * ar + nuV * pow(m[2].lam(), pw) * ad);
	bool low = sph && ord == 4 && np1 == 2; if (low) c.cls("wind of low order not judged");
	if (ar > 0 && !low) judge("rotational wind", nuV * nu0, m[1].lam(), ar, n1, n2, g.nlev, eps * 100 + cross_, true, dw, [&](GridPatchGLL * p, int i, int j) { V3 a, b, P; basisAt(*S, p, i, j, a, b, P); V3 gr = m[1].grad(P); return (1 / kr) * (sph ? cross(P, gr) : V3{ -gr.y, gr.x, 0 }); });
	if (ad > 0 && !low) judge("divergent wind", nuD * nu0, m[2].lam(), ad, n1, n2, g.nlev, eps * 100 + cross_, true, dw, [&](GridPatchGLL * p, int i, int j) { V3 a, b, P; basisAt(*S, p, i, j, a, b, P); return (1 / kd) * m[2].grad(P); });
	// a wind of one kind is left alone by the other coefficient
	if ((ar > 0) != (ad > 0)) { double nu = ar > 0 ? nuD : nuV, lam = m[ar > 0 ? 1 : 2].lam(), A = ar + ad; if (nu > 0 && (ar > 0 ? nuV : nuD) == 0) { double n2 = 0, w2 = 0; S->each([&](GridPatchGLL * p, int i, int j) { double w = p->GetElementAreaNode()(i, j, 0); V3 q = dw(p, i, j, 0); n2 += w * dot(q, q); w2 += w; }); double r = sqrt(n2 / w2), ref1 = A * dt * nu * nu0 * pow(lam, pw); c.cls("other coefficient only"); if (getenv("P22V")) fprintf(stderr, "OTHER %.2e np1 %d ppw %.1f ord %d %s\n", r / ref1, np1, ppw, ord, sph ? "sph" : "box");
		if (!sph || ord == 2) c.check(r <= 0.5 * ref1 + 1e-13 * A, ar > 0 ? "divergence coefficient acts on rotational wind" : "vorticity coefficient acts on divergent wind", "changed by %.3e, own coefficient would change it by %.3e", r, ref1); } }
}
// rough states: variance falls, means and constants stay, zero coefficients do nothing
static void rough(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = { "strang" }; genDyn(s, c, d, o); genVisc(s, c, d, true); Cfg & g = d.g; int nc = g.sw ? 3 : 5; if (s.coin(1, 4)) { g.nuS *= s.draw(1); g.nuD *= s.draw(1); g.nuV *= s.draw(1); }
	bool allZero = !g.nuS && !g.nuD && !g.nuV; std::unique_ptr<Sim> S(build(d)); double a = s.pick(std::vector<double>{ 0.01, 0.05 }); bool flatH = s.coin(1, 3); c.desc(" rough %g%s", a, flatH ? " constants" : ""); c.cls(flatH ? "constants" : "rough"); if (allZero) c.cls("all coefficients zero"); bool walls = g.bc[0] || g.bc[1];
	if (flatH) S->each([&](GridPatchGLL * p, int i, int j) { for (int q = 2; q < nc; q++) for (int k = 0; k < S->nk(q); k++) S->data(p, 0, q)(q, i, j, k) = 10 * q + k; for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) p->GetDataTracers(0)(t, i, j, k) = 1 + t + k; });
	else roughen(*S, s, 0, a, true);
	S->pg->PostProcessSubstage(0, DataType_State); if (g.ntr) S->pg->PostProcessSubstage(0, DataType_Tracers);
	double lo = 0; S->each([&](GridPatchGLL * p, int i, int j) { for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) lo = std::min(lo, p->GetDataTracers(0)(t, i, j, k)); });
	apply(*S, d.dt, false); S->each([&](GridPatchGLL * p, int i, int j) { for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) lo = std::min(lo, p->GetDataTracers(1)(t, i, j, k)); });
	for (int q = 2; q < nc + g.ntr; q++) { bool tr = q >= nc; if (walls && q == 3) continue; bool ed = !tr && S->loc(q) == DataLocation_REdge; for (int k = 0; k < (tr ? g.nlev : S->nk(q)); k++) { long double m0 = 0, m1 = 0, v0 = 0, v1 = 0, W = 0, D = 0, big = 0; auto val = [&](GridPatchGLL * p, int ix, int i, int j) { return tr ? p->GetDataTracers(ix)(q - nc, i, j, k) : S->data(p, ix, q)(q, i, j, k); };
			auto wt = [&](GridPatchGLL * p, int i, int j) { return (double)(ed ? p->GetElementAreaREdge()(i, j, k) : p->GetElementAreaNode()(i, j, k)); };
			S->each([&](GridPatchGLL * p, int i, int j) { double w = wt(p, i, j); m0 += w * val(p, 0, i, j); m1 += w * val(p, 1, i, j); W += w; D = std::max(D, (long double)fabs(val(p, 1, i, j) - val(p, 0, i, j))); big = std::max(big, (long double)fabs(val(p, 0, i, j))); }); m0 /= W; m1 /= W;
			S->each([&](GridPatchGLL * p, int i, int j) { double w = wt(p, i, j); v0 += w * (val(p, 0, i, j) - m0) * (val(p, 0, i, j) - m0); v1 += w * (val(p, 1, i, j) - m0) * (val(p, 1, i, j) - m0); }); v0 /= W; v1 /= W;
			c.check(fabs((double)(m1 - m0)) <= 1e-13 * (double)big, "diffusion changes a mean", "component %d level %d: %.17g -> %.17g", q, k, (double)m0, (double)m1);
			if (flatH || g.nuS == 0) { c.check((double)D <= 1e-12 * (double)big, flatH ? "diffusion changes a constant" : "diffusion with zero coefficient changes a scalar", "component %d level %d by %.3e of %.3g", q, k, (double)D, (double)big); }
			else { bool judge = !(tr && lo < 0); if (judge) c.check(v1 <= v0 * (1 + 1e-12L) + 1e-26L * big * big, "diffusion increases variance", "component %d level %d: %.17g -> %.17g", q, k, (double)v0, (double)v1); if (D > 0) c.nontrivial(); } } }
	for (int k = 0; k < g.nlev; k++) { long double e0 = 0, e1 = 0; double D = 0, big = 0; S->each([&](GridPatchGLL * p, int i, int j) { double w = p->GetElementAreaNode()(i, j, 0); V3 a0 = windAt(*S, p, 0, i, j, k), a1 = windAt(*S, p, 1, i, j, k); e0 += w * dot(a0, a0); e1 += w * dot(a1, a1); D = std::max(D, len(a1 - a0)); big = std::max(big, len(a0)); });
		if (!walls) c.check(e1 <= e0 * (1 + 1e-11L) + 1e-20L, "diffusion increases kinetic energy", "level %d: %.17g -> %.17g", k, (double)e0, (double)e1);
		if (g.nuD == 0 && g.nuV == 0 && !walls) c.check(D <= 1e-12 * big, "diffusion with zero coefficients changes the wind", "level %d by %.3e of %.3g", k, D, big); }
	if (allZero || flatH) c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "eigen", eigen, 1 }, { "rough", rough, 1 } }, [] { initMPI(); }); }
