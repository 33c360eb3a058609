// Generated flow problems: domain, resolution, solver options, terrain and smooth or rough initial states.
#pragma once
#include "pbt.h"
#include "model_util.h"
#include "mesh.h"
#include <memory>
namespace mu {
using pbt::Src; using pbt::Ctx;

// a smooth scalar and a smooth vector field on the sphere or a periodic box
struct Field { bool sphere; double L[2]; std::vector<double> a; int nm;
	void gen(Src & s, const Cfg & g, int modes) { sphere = g.sphere; L[0] = g.gd[1] - g.gd[0]; L[1] = g.gd[3] - g.gd[2]; nm = modes; a.clear(); for (int i = 0; i < modes * 8; i++) a.push_back(s.sreal(1)); }
	// value in about [-1,1], smooth and periodic; x,y are longitude and latitude on the sphere
	double operator()(double x, double y) const {
		double r = 0, n = 0;
		for (int m = 0; m < nm; m++) { const double * q = &a[m * 8];
			if (sphere) { V3 p = ptRLL(x, y); double u = 1.6 * (q[0] * p.x + q[1] * p.y + q[2] * p.z) + 3 * q[4]; r += q[3] * sin(u); }
			else { int kx = (int)floor(2.49 * fabs(q[1])), ky = (int)floor(2.49 * fabs(q[2])); if (kx + ky == 0) kx = 1; r += q[3] * sin(2 * M_PI * (kx * x / L[0] + ky * y / L[1]) + 3 * q[4]); }
			n += 1; }
		return r / n;
	}
};
struct VField { Field f[3]; bool sphere;
	void gen(Src & s, const Cfg & g, int modes) { sphere = g.sphere; for (int i = 0; i < 3; i++) f[i].gen(s, g, modes); }
	void operator()(double x, double y, double & u, double & v) const {
		if (!sphere) { u = f[0](x, y); v = f[1](x, y); return; }
		V3 w = { f[0](x, y), f[1](x, y), f[2](x, y) }; u = dot(w, east(x, y)); v = dot(w, north(x, y));
	}
};
struct Dyn {
	Cfg g; Case * tc; double dt, X, h0, amp, U; bool rest, hasTopo; Field topo, th, rh, q[4], zf; VField wind;
	double N, th0, ztop, H0; double omega; std::vector<double> qc; std::vector<std::vector<double>> mix; /* tracer t = sum of mix[t][b] times profile b, profile 4 uniform */
	Dyn() : tc(NULL), dt(1), X(1), h0(0), amp(0), U(0), rest(false), hasTopo(false) { }
};
struct DynOpt { int model = 2;              // 0 shallow water, 1 nonhydrostatic, 2 either
	int domain = 2;                         // 0 box, 1 sphere, 2 either
	bool walls = true, topo = true, tracers = true, visc = false, exactTr = false; int maxVo = 4, np = 0; std::vector<std::string> hm = { "v1", "v1", "v2" }, schemes; bool fv = true; bool stretch = true; };

// hydrostatic background: constant buoyancy frequency
inline void background(const Dyn & d, const PhysicalConstants & p, double z, double & th, double & rho) {
	double a = d.N * d.N / p.GetG(); th = d.th0 * exp(a * z); double ex = 1 + p.GetG() * p.GetG() / (p.GetCp() * d.th0 * d.N * d.N) * (exp(-a * z) - 1);
	rho = p.GetP0() * pow(ex, p.GetCv() / p.GetR()) / (p.GetR() * th);
}
inline double minSpacing(const Dyn & d) { auto x = gll(d.g.ho); double L = d.g.sphere ? 6.37122e6 / d.X * M_PI / 2 / d.g.ne * 0.6 : std::min((d.g.gd[1] - d.g.gd[0]) / d.g.nx, d.g.xz ? 1e99 : (d.g.gd[3] - d.g.gd[2]) / d.g.ny); return L * (x[1] - x[0]); }
inline void genDyn(Src & s, Ctx & c, Dyn & d, const DynOpt & o) {
	Cfg & g = d.g;
	g.sw = o.model == 2 ? s.coin(2, 5) : o.model == 0; g.sphere = o.domain == 2 ? s.coin(3, 5) : o.domain == 1;
	g.ho = (int)s.irange(2, 5); g.ntr = o.tracers ? (int)s.irange(0, 3) : 0;
	g.hm = s.pick(o.hm); if (g.hm == "v2") g.ho = 4;   // all that method supports
	d.X = g.sphere ? s.pick(std::vector<double>{ 1, 10, 100 }) : 1; d.omega = s.coin(1, 4) ? 0 : 7.292e-5 * d.X;
	if (g.sphere) { static const int NP[] = { 6, 24, 54 }; g.ne = (int)s.irange(1, 3); g.np = NP[s.weighted({ 4, 2, 1 })]; if (o.np) g.np = o.np; if (g.np == 24) g.ne = 2 * (int)s.irange(1, 2); if (g.np == 54) g.ne = 3; }
	else {
		g.xz = o.walls && !g.sw && s.coin(1, 6); g.nx = (int)s.irange(1, 4); g.ny = g.xz ? 1 : (int)s.irange(1, 4); g.np = 1;
		if (g.nx > 1 && s.coin(1, 3)) g.np = g.nx; if (o.np) { g.np = o.np; g.nx = g.np * (int)s.irange(1, 2); }
		double L = s.logreal(1e4, 4e6); g.gd[0] = s.coin(1, 3) ? -L / 2 : 0; g.gd[1] = g.gd[0] + L; g.gd[2] = s.coin(1, 3) ? -L : 0; g.gd[3] = g.gd[2] + L * s.real(0.5, 2); g.reflat = s.coin() ? 0 : s.real(-1, 1);
		if (o.walls && s.coin(1, 3)) { bool ax = s.coin(), ay = !g.xz && s.coin(); int k = s.coin(1, 4) ? 2 : 1; if (ax) g.bc[0] = g.bc[2] = k; if (ay) g.bc[1] = g.bc[3] = k; }
	}
	if (g.sw) { g.nlev = 1; g.vo = 1; g.stag = g.sphere && s.coin(1, 3) ? 0 : 2; if (!g.sphere) g.stag = 2; d.H0 = s.real(100, 5000); d.ztop = 1; }
	else {
		g.vo = (int)s.irange(1, o.maxVo); int nf = (int)s.irange(2, 5); g.stag = 3;
		if (o.fv && s.coin(1, 6)) { g.disc = 1; g.vo = 2 * (int)s.irange(1, 2); }
		g.nlev = g.vo * nf; g.vm = g.hm;   // (the two methods keep different vertical velocities)
		if (o.stretch) g.stretch = std::vector<std::string>{ "uniform", "uniform", "cubic", "pwlinear" }[s.draw(3)];
		d.ztop = s.real(5000, 25000); d.N = s.real(0.005, 0.02); d.th0 = s.real(270, 310); g.useRef = s.coin();
	}
	if (!g.sphere) { g.gd[4] = 0; g.gd[5] = d.ztop; }
	g.scheme = o.schemes.empty() ? "strang" : s.pick(o.schemes);
	bool wall = g.bc[0] || g.bc[1];
	d.hasTopo = o.topo && !wall && s.coin() && !(g.sw && !g.sphere);   /* terrain would reach above the unit depth of a two-dimensional box */ d.h0 = g.sw ? d.H0 * s.real(0.05, 0.3) : s.real(100, 0.08 * d.ztop); d.topo.gen(s, g, 2);
	d.amp = s.pick(std::vector<double>{ 0.02, 0.005, 0.0 }); d.U = s.pick(std::vector<double>{ 20, 5, 0 }); d.wind.gen(s, g, 2); d.th.gen(s, g, 2); d.rh.gen(s, g, 2); for (int t = 0; t < 4; t++) d.q[t].gen(s, g, 2); for (int t = 0; t < 4; t++) d.qc.push_back(s.real(0.001, 1));
	double cs = g.sw ? sqrt(9.81 * d.H0 * 1.3) : 350; d.dt = s.real(0.03, 0.25) * minSpacing(d) / (cs + d.U);
	c.desc("%s %s patches %d elements %dx%d order %d levels %d order %d %s staggering %d stretch %s horizontal %s vertical %s scheme %s tracers %d walls %d,%d xz %d topography %s wind %g perturbation %g X %g omega %g dt %.4g", g.sw ? "shallow water" : "nonhydrostatic", g.sphere ? "sphere" : "box", g.np, g.sphere ? g.ne : g.nx, g.sphere ? g.ne : g.ny, g.ho, g.nlev, g.vo, g.disc ? "FV" : "FE", g.stag, g.stretch.c_str(), g.hm.c_str(), g.sw ? "-" : g.vm.c_str(), g.scheme.c_str(), g.ntr, g.bc[0], g.bc[1], g.xz, d.hasTopo ? pbt::fmt("%g", d.h0).c_str() : "none", d.U, d.amp, d.X, d.omega, d.dt);
	c.cls(g.sw ? "shallow water" : "nonhydrostatic"); c.cls(g.sphere ? "sphere" : "box"); if (!g.sw) { c.cls("vertical:" + g.vm); c.cls(g.disc ? "finite volume" : "finite element"); c.cls(pbt::fmt("staggering:%d", g.stag)); } if (d.hasTopo) c.cls("topography"); if (wall) c.cls("walls");
}
inline void setCase(Dyn & d) {   // the Case is owned by the Sim built from it
	Case * tc = new Case; d.tc = tc; tc->ztop = d.ztop; Dyn e = d; const Cfg & g = d.g;
	tc->phys = [e](PhysicalConstants & p) { if (e.g.sphere) p.SetEarthRadius(p.GetEarthRadius() / e.X); p.SetOmega(e.omega); };
	if (d.hasTopo) tc->topo = [e](double x, double y) { return e.h0 * (0.5 + 0.5 * e.topo(x, y)); };
	tc->state = [e](const PhysicalConstants & p, double z, double x, double y, double * S, double * Q) {
		double u, v; e.wind(x, y, u, v); double zf = e.g.sw ? 1 : cos(M_PI * z / e.ztop) * 0.5 + 0.6, th, rho; if (e.g.xz) v = 0; if (e.g.bc[0] == 2) { u *= 0; v *= 0; }
		S[0] = e.U * u * zf; S[1] = e.U * v * zf;
		if (e.g.sw) { S[2] = e.H0 * (1 + 5 * e.amp * e.rh(x, y)); rho = S[2] - (e.hasTopo ? e.h0 * (0.5 + 0.5 * e.topo(x, y)) : 0); }
		else { background(e, p, z, th, rho); th *= 1 + e.amp * e.th(x, y) * sin(M_PI * z / e.ztop); rho *= 1 + 0.3 * e.amp * e.rh(x, y) * cos(M_PI * z / e.ztop); S[2] = th; S[3] = 0; S[4] = rho; }
		if (Q) for (int t = 0; t < e.g.ntr; t++) { double r = 0; for (int b = 0; b < 5; b++) { double w = e.mix.empty() ? (b == t) : e.mix[t][b]; if (w) r += w * (b == 4 ? 1 : e.qc[b] + 0.5 * e.qc[b] * e.q[b](x, y) * cos(2 * M_PI * z / e.ztop)); } Q[t] = rho * r; }
	};
	if (!g.sw && g.useRef) tc->ref = [e](const PhysicalConstants & p, double z, double x, double y, double * S, double * Q) { double th, rho; background(e, p, z, th, rho); S[0] = S[1] = S[3] = 0; S[2] = th; S[4] = rho; if (Q) for (int t = 0; t < e.g.ntr; t++) Q[t] = 0; };
}
inline Sim * build(Dyn & d) { setCase(d); return new Sim(d.g, d.tc); }
// total mass of component c (of tracer t when c < 0) and the sum of absolute values
inline void total(Sim & S, int ix, int c, int t, double & m, double & a) {
	long double M = 0, A = 0; const Cfg & g = S.g;
	S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < g.nlev; k++) { double w = p->GetElementAreaNode()(i, j, k), v = c < 0 ? p->GetDataTracers(ix)(t, i, j, k) : p->GetDataState(ix, DataLocation_Node)(c, i, j, k); if (c == 2 && g.sw) v -= p->GetTopography()(i, j); M += (long double)w * v; A += (long double)w * fabs(v); } });
	m = (double)M; a = (double)A;
}

// horizontal diffusion well inside its stability limit
inline void genVisc(Src & s, Ctx & c, Dyn & d, bool always = false) {
	Cfg & g = d.g; int k = always ? 1 + (int)s.draw(1) : (int)s.draw(2); g.hvOrder = 2 * k; if (!k) { c.desc(" no diffusion"); return; }
	double sp = minSpacing(d), nu = s.logreal(1e-4, 1) * (k == 1 ? 0.02 * sp * sp : 0.0005 * sp * sp * sp * sp) / d.dt;
	if (k == 2) { double da = g.sphere ? M_PI / 2 / g.ne : (g.gd[1] - g.gd[0]) / g.nx; nu /= pow(da / (g.sphere ? M_PI / 60 : 1), 3.2); }
	g.nuS = s.coin(4, 5) ? nu : 0; g.nuD = s.coin(4, 5) ? nu : 0; g.nuV = s.coin(4, 5) ? nu : 0;
	c.desc(" diffusion order %d scalar %.3g divergence %.3g vorticity %.3g", g.hvOrder, g.nuS, g.nuD, g.nuV); c.cls(pbt::fmt("diffusion order %d", g.hvOrder));
}
inline bool finite(Sim & S, int ix) { bool ok = true; int nc = S.g.sw ? 3 : 5; S.each([&](GridPatchGLL * p, int i, int j) { for (int q = 0; q < nc; q++) for (int k = 0; k < S.nk(q); k++) { double v = S.data(p, ix, q)(q, i, j, k); if (!(fabs(v) < 1e30)) ok = false; } }); return ok; }
// smallest density or depth
inline double minDepth(Sim & S, int ix) { double m = 1e300; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S.g.nlev; k++) m = std::min(m, S.g.sw ? p->GetDataState(ix, DataLocation_Node)(2, i, j, k) - p->GetTopography()(i, j) : p->GetDataState(ix, DataLocation_Node)(4, i, j, k)); }); return m; }
// one time step; false when the generated flow was not integrable with that step
inline bool stepOk(Sim & S, double dt) {
	double d0 = minDepth(S, 0);
	try { S.step(dt); } catch (Exception & e) { if (e.ToString().find("Inversion failure") != std::string::npos) return false; throw; }
	return finite(S, 0) && minDepth(S, 0) > 0.5 * d0;
}
// smallest and largest mixing ratio of tracer t
inline void ratioRange(Sim & S, int ix, int t, double & lo, double & hi) {
	lo = 1e300; hi = -1e300; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S.g.nlev; k++) { double r = S.g.sw ? p->GetDataState(ix, DataLocation_Node)(2, i, j, k) - p->GetTopography()(i, j) : p->GetDataState(ix, DataLocation_Node)(4, i, j, k), v = p->GetDataTracers(ix)(t, i, j, k) / r; if (v < lo) lo = v; if (v > hi) hi = v; } });
}
// independent noise on every node of instance ix, then averaged over coincident nodes
inline void roughen(Sim & S, Src & s, int ix, double a, bool tracers) {
	int nc = S.g.sw ? 3 : 5; uint64_t z = s.draw(0xffffff) * 2654435761ull + 12345; auto R = [&]() { z = z * 6364136223846793005ull + 1442695040888963407ull; return ((z >> 33) / 4294967296.0 - 0.25) * 4; };
	S.each([&](GridPatchGLL * p, int i, int j) { for (int q = 0; q < nc; q++) for (int k = 0; k < S.nk(q); k++) { double & v = S.data(p, ix, q)(q, i, j, k); if (q == 3) continue; if (q < 2) { double sc = S.g.sphere ? S.m.GetPhysicalConstants().GetEarthRadius() : 1; if (!(S.g.xz && q == 1)) v += 50 * a * sc * R(); } else v *= 1 + a * R(); }
		if (tracers) for (int t = 0; t < S.g.ntr; t++) for (int k = 0; k < S.g.nlev; k++) p->GetDataTracers(ix)(t, i, j, k) *= 1 + a * R(); });
	S.pg->PostProcessSubstage(ix, DataType_State); if (tracers && S.g.ntr) S.pg->PostProcessSubstage(ix, DataType_Tracers);
}
}
namespace mu {
// horizontal wind of a node as a vector: Cartesian on the sphere, (x, y, 0) in a box
inline void basisAt(Sim & S, GridPatchGLL * p, int i, int j, V3 & a, V3 & b, V3 & P) {
	if (!S.g.sphere) { a = { 1, 0, 0 }; b = { 0, 1, 0 }; P = { p->GetLongitude()(i, j), p->GetLatitude()(i, j), 0 }; return; }
	int n = p->GetPatchBox().GetPanel(); P = ptRLL(p->GetLongitude()(i, j), p->GetLatitude()(i, j)); double c = dot(P, PC[n]), X = dot(P, PX[n]) / c, Y = dot(P, PY[n]) / c, R = S.phys().GetEarthRadius(); a = R * tanA(X, Y, n); b = R * tanB(X, Y, n);
}
inline V3 windOf(V3 a, V3 b, double ua, double ub) { double aa = dot(a, a), ab = dot(a, b), bb = dot(b, b), det = aa * bb - ab * ab; return ((bb * ua - ab * ub) / det) * a + ((aa * ub - ab * ua) / det) * b; }
inline V3 windAt(Sim & S, GridPatchGLL * p, int ix, int i, int j, int k) { V3 a, b, P; basisAt(S, p, i, j, a, b, P); return windOf(a, b, S.data(p, ix, 0)(0, i, j, k), S.data(p, ix, 1)(1, i, j, k)); }
// physical vertical velocity at the levels or interfaces where the solver keeps it
inline double vertAt(Sim & S, GridPatchGLL * p, int ix, int i, int j, int k) { bool e = S.loc(3) == DataLocation_REdge; double w = S.data(p, ix, 3)(3, i, j, k); if (S.g.vm == "v1") w /= e ? p->GetDerivRREdge()(i, j, k, 2) : p->GetDerivRNode()(i, j, k, 2); return w; }
}
