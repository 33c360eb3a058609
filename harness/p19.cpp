// P19: steady states stay steady: to rounding where the discretisation is exact, otherwise ever better with resolution.
#include "dyn.h"
using namespace pbt; using namespace mu;
static const std::vector<std::string> SCH = { "strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk", "erk/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332" };

// a shallow-water layer at rest over any terrain
static void layer(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.model = 0; o.schemes = SCH; genDyn(s, c, d, o); d.U = 0; d.amp = 0; genVisc(s, c, d); int n = (int)s.irange(1, 5);
	double rough = s.coin() ? s.real(0, 0.5) : 0; d.g.ntr = 0; setCase(d); if (d.hasTopo) { auto t0 = d.tc->topo; double h0 = d.h0 * rough; if (rough > 0) { d.tc->topo = [t0, h0](double x, double y) { return t0(x, y) + h0 * (0.5 + 0.5 * sin(37 * x + 11) * sin(53 * y)); }; c.desc(" rough terrain %.2f", rough); } }
	std::unique_ptr<Sim> S(new Sim(d.g, d.tc)); double top = d.H0, cs = sqrt(S->phys().GetG() * d.H0), ru = 0, rh = 0;
	for (int k = 0; k < n; k++) S->step(d.dt);
	S->each([&](GridPatchGLL * p, int i, int j) { double u = len(windAt(*S, p, 0, i, j, 0)), h = fabs(p->GetDataState(0, DataLocation_Node)(2, i, j, 0) - top); if (!(u <= ru)) ru = u; if (!(h <= rh)) rh = h; });
	c.check(ru <= 1e-10 * cs, "a layer at rest starts to move", "wind %.3e m/s after %d steps (wave speed %.3g)", ru, n, cs);
	c.check(rh <= 1e-10 * top, "the surface of a layer at rest moves", "by %.3e of %.6g after %d steps", rh, top, n);
	if (d.hasTopo) c.nontrivial();
}
// horizontally uniform columns stay uniform, and uniform wind in a periodic box stays what it is
static void uniform(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = SCH; o.topo = false; genDyn(s, c, d, o); if (!d.g.sw) for (int q = 0; q < 4; q++) if (d.g.bc[q] == 2) d.g.bc[q] = 1;   /* no-slip walls hold the vertical velocity of their columns */
	genVisc(s, c, d); int n = (int)s.irange(1, 4); bool wind = !d.g.sphere && !d.g.bc[0] && !d.g.bc[1] && s.coin(2, 3); if (wind) d.omega = 0; d.amp = 0; d.U = 0;
	setCase(d); double u0 = wind ? s.sreal(40) : 0, v0 = wind && !d.g.xz ? s.sreal(40) : 0; c.desc(" uniform wind %.3g,%.3g", u0, v0); c.cls(wind ? "uniform wind" : "at rest");
	{ double cs = d.g.sw ? sqrt(10 * d.H0) : 340, a = fabs(u0) + fabs(v0), sp = minSpacing(d); if (!d.g.sw) d.dt = std::min(d.dt, 50.0); if (d.g.hm.size() && a > 0) d.dt = std::min(d.dt, 0.2 * sp / (cs + 3 * a)); }   /* the tracer filter acts before element edges are averaged: keep what crosses an edge in a step small */
	auto st = d.tc->state; bool sw = d.g.sw; double shear = wind && !sw ? s.pick(std::vector<double>{ 0, 1 }) : 0, zt = d.ztop; double warp = sw ? 0 : s.pick(std::vector<double>{ 0, 0.01 });
	d.tc->state = [=](const PhysicalConstants & p, double z, double x, double y, double * S, double * Q) { st(p, z, x, y, S, Q); double f = 1 + shear * cos(M_PI * z / zt); S[0] = u0 * f; S[1] = v0 * f; if (!sw) S[2] *= 1 + warp * sin(2 * M_PI * z / zt); if (Q) for (int t = 0; t < 4; t++) Q[t] = (sw ? S[2] : S[4]) * 0.01 * (1 + cos(3 * z / zt)); };
	std::unique_ptr<Sim> S(new Sim(d.g, d.tc)); 
	for (int k = 0; k < n; k++) if (!stepOk(*S, d.dt)) { c.cls("not integrable"); c.discard(); return; }
	if (getenv("P19V")) S->each([&](GridPatchGLL * p, int i, int j) { fprintf(stderr, "%d %d gd %g %g %g %g U %.3e %.3e H %.17g\n", i, j, d.g.gd[0], d.g.gd[1], d.g.gd[2], d.g.gd[3], S->data(p, 0, 0)(0, i, j, 0), S->data(p, 0, 1)(1, i, j, 0), S->data(p, 0, 2)(2, i, j, 0)); });
	double cs = sw ? sqrt(10 * d.H0) : 340, sc = cs + fabs(u0) + fabs(v0);
	int nc = sw ? 3 : 5; for (int q = 2; q < nc + d.g.ntr; q++) { double big = 0; for (int pass = 0; pass < 2; pass++) for (int k = 0; k < (q < nc ? S->nk(q) : d.g.nlev); k++) { double lo = 1e300, hi = -1e300; S->each([&](GridPatchGLL * p, int i, int j) { double v = q == 3 && !sw ? vertAt(*S, p, 0, i, j, k) : q < nc ? S->data(p, 0, q)(q, i, j, k) : p->GetDataTracers(0)(q - nc, i, j, k); lo = std::min(lo, v); hi = std::max(hi, v); big = std::max(big, fabs(v)); });
		if (!pass) continue; double tol = (d.g.scheme == "ark232" ? 1e-7 : 1e-8) * (q == 3 && !sw ? sc + big : big); c.check(hi - lo <= tol, q < nc ? "a horizontally uniform state loses its uniformity" : "a horizontally uniform tracer loses its uniformity", "component %d level %d: between %.17g and %.17g", q, k, lo, hi); } }
	// wind: the vertical exchange may change sheared profiles, but never uniform wind
	double e = 0; S->each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < d.g.nlev; k++) { V3 w = windAt(*S, p, 0, i, j, k); double r = shear ? 0 : len(w - V3{ u0, v0, 0 }); if (!wind) r = len(w); if (!(r <= e)) e = r; } });
	c.check(e <= (d.g.scheme == "ark232" ? 2e-7 : 2e-8) * sc, wind ? "uniform wind changes" : "an atmosphere at rest starts to blow", "by %.3e m/s after %d steps", e, n);
	c.nontrivial();
}
struct Err { double u, w, h; };
// hydrostatic rest over terrain: spurious motion vanishes with resolution
static void rest(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.model = 1; o.walls = false; o.topo = false; o.tracers = false; o.schemes = { "strang", "ars343", "ars232", "ark232", "gark2" }; genDyn(s, c, d, o); Cfg & g = d.g; g.ho = 4; if (g.hm == "v1") g.ho = (int)s.irange(3, 5); g.ntr = 0; g.xz = false; d.U = 0; d.amp = 0; d.hasTopo = s.coin(4, 5); d.h0 = s.real(50, 600); d.ztop = s.real(8000, 15000); d.N = s.real(0.008, 0.015); g.np = g.sphere ? 6 : 1; if (!g.sphere) { double L = s.logreal(5e4, 1e6); g.gd[0] = g.gd[2] = 0; g.gd[1] = L; g.gd[3] = L * s.real(0.7, 1.4); g.gd[5] = d.ztop; d.topo.L[0] = L; d.topo.L[1] = g.gd[3]; } g.vo = g.disc ? 2 : (int)s.irange(1, 3);
	c.desc(" rest over terrain %g of height %g domain %g", d.hasTopo ? 1.0 : 0.0, d.h0, g.gd[1]); c.cls(d.hasTopo ? "terrain" : "flat"); Err e[2]; double T = 0;
	for (int m = 1; m <= 2; m++) { g.ne = g.sphere ? 2 * m : 1; g.nx = g.ny = 3 * m; g.nlev = g.vo * std::max(2, 8 / g.vo) * m; d.dt = 0.2 * minSpacing(d) / 350; if (m == 1) { T = std::min(d.dt, 20.0); d.dt = T; } int n = (int)ceil(T / (0.2 * minSpacing(d) / 350)); d.dt = T / n;
		std::unique_ptr<Sim> S(build(d)); for (int k = 0; k < n; k++) if (!stepOk(*S, d.dt)) { c.cls("not integrable"); c.discard(); return; }
		Err & r = e[m - 1]; r.u = r.w = r.h = 0; S->each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < g.nlev; k++) r.u = std::max(r.u, len(windAt(*S, p, 0, i, j, k))); for (int k = 0; k < S->nk(3); k++) r.w = std::max(r.w, fabs(vertAt(*S, p, 0, i, j, k))); }); }
	bool st = g.stretch != "uniform"; double wf = 0.9;   /* stretched columns of low order converge at first order */
	double fu = 3e-5 + (d.hasTopo ? (st ? 0.1 : 0.01) * T * 9.8 * 2 * M_PI * d.h0 / (g.sphere ? 1e7 : g.gd[1]) : 0);   /* a small part of what an unbalanced slope would accelerate */
	c.check(e[1].u <= (st ? 0.9 : 0.75) * e[0].u + fu, "spurious wind over terrain does not vanish with resolution", "largest wind %.3e, twice the resolution %.3e", e[0].u, e[1].u);
	c.check(e[1].w <= wf * e[0].w + 1e-5 + 3 * fu, "spurious vertical motion at rest does not vanish with resolution", "largest vertical velocity %.3e, twice the resolution %.3e", e[0].w, e[1].w);
	if (getenv("P19V")) fprintf(stderr, "REST u %.2e %.2e (%.2f) w %.2e %.2e (%.2f) | %s vo %d disc %d ho %d %s %s topo %d dt %.3g nlev %d st %s\n", e[0].u, e[1].u, e[0].u / e[1].u, e[0].w, e[1].w, e[0].w / e[1].w, g.hm.c_str(), g.vo, g.disc, g.ho, g.scheme.c_str(), g.sphere ? "sphere" : "box", d.hasTopo, d.dt, g.nlev, g.stretch.c_str());
	c.nontrivial();
}
// solid-body rotation in balance
static void balanced(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.domain = 1; o.walls = false; o.topo = false; o.tracers = false; o.schemes = SCH; genDyn(s, c, d, o); Cfg & g = d.g; if (g.hm == "v1") g.ho = (int)s.irange(3, 5); if (g.scheme == "strang/fe") g.scheme = "strang"; g.ntr = 0; g.ho = std::max(g.ho, 3); g.np = 6; g.vo = g.sw ? 1 : g.disc ? 2 : (int)s.irange(1, 3); double u0 = s.real(5, 60) * (s.coin() ? 1 : -1); if (!g.sw) d.ztop = s.real(8000, 15000); g.stretch = "uniform"; bool tilt = d.omega == 0; V3 ax = { 0, 0, 1 }; if (tilt) ax = ptRLL(s.real(0, 6.28), s.sreal(1.5)); double T0 = s.real(250, 310); if (g.sw) d.H0 = s.real(1000, 8000); bool sw = g.sw; double om = d.omega, H0 = d.H0; c.desc(" balanced rotation %.3g about %.3f,%.3f,%.3f", u0, ax.x, ax.y, ax.z); c.cls(tilt ? "tilted axis" : "polar axis"); 
	Err e[2], sc = { 0, 0, 0 }; double T = 0; g.useRef = false;
	auto init = [=](const PhysicalConstants & p, double z, double lon, double lat, double * S) { V3 P = ptRLL(lon, lat), w = u0 * cross(ax, P); double R = p.GetEarthRadius(), sl = dot(ax, P), q = u0 * (u0 + 2 * om * R) / 2 * sl * sl; S[0] = dot(w, east(lon, lat)); S[1] = dot(w, north(lon, lat)); if (sw) S[2] = H0 - q / p.GetG(); else { double pr = p.GetP0() * exp(-(p.GetG() * z + q) / (p.GetR() * T0)); S[4] = pr / (p.GetR() * T0); S[2] = T0 * pow(p.GetP0() / pr, p.GetR() / p.GetCp()); S[3] = 0; } };
	for (int m = 1; m <= 2; m++) { g.ne = 2 * m; if (!g.sw) g.nlev = g.vo * std::max(2, 6 / g.vo) * m; double cs = sw ? sqrt(10 * d.H0) : 350; d.dt = 0.15 * minSpacing(d) / (cs + fabs(u0)); if (m == 1) T = 2 * d.dt; int n = (int)ceil(T / d.dt); if (n < 2) n = 2; d.dt = T / n;
		setCase(d); d.tc->state = [=](const PhysicalConstants & p, double z, double x, double y, double * S, double * Q) { init(p, z, x, y, S); };
		std::unique_ptr<Sim> S(new Sim(d.g, d.tc)); double h0 = 1e300; S->each([&](GridPatchGLL * p, int i, int j) { if (sw) h0 = std::min(h0, p->GetDataState(0, DataLocation_Node)(2, i, j, 0)); }); if (sw && h0 < 0.3 * H0) { c.cls("too shallow"); c.discard(); return; }
		std::unique_ptr<Sim> I; std::vector<double> v0 = dump(*S, 0); for (int k = 0; k < n; k++) if (!stepOk(*S, d.dt)) { c.cls("not integrable"); c.discard(); return; }
		Err & r = e[m - 1]; r.u = r.w = r.h = 0; const PhysicalConstants & ph = S->phys(); (void)ph;
		S->each([&](GridPatchGLL * p, int i, int j) { V3 P = ptRLL(p->GetLongitude()(i, j), p->GetLatitude()(i, j)); for (int k = 0; k < g.nlev; k++) r.u = std::max(r.u, len(windAt(*S, p, 0, i, j, k) - u0 * cross(ax, P))); if (!sw) for (int k = 0; k < S->nk(3); k++) r.w = std::max(r.w, fabs(vertAt(*S, p, 0, i, j, k))); });
		std::vector<double> v1 = dump(*S, 0); size_t N = 0; S->each([&](GridPatchGLL *, int, int) { N++; }); size_t off = N * S->nk(0) + N * S->nk(1); for (size_t q = 0; q < N * S->nk(2); q++) r.h = std::max(r.h, fabs(v1[off + q] - v0[off + q]) / fabs(v0[off + q])); (void)sc; }
	double cs = sw ? sqrt(10 * H0) : 350, f = 0.85, fb = 0.02 * T * (u0 * u0 * d.X / 6.4e6 + 2 * om * fabs(u0));
	if (getenv("P19V")) fprintf(stderr, "BAL %s u %.2e %.2e (%.2f) w %.2e %.2e (%.2f) h %.2e %.2e (%.2f) | %s vo %d disc %d ho %d %s\n", sw ? "sw" : "nh", e[0].u, e[1].u, e[0].u / e[1].u, e[0].w, e[1].w, e[0].w / e[1].w, e[0].h, e[1].h, e[0].h / e[1].h, g.hm.c_str(), g.vo, g.disc, g.ho, g.scheme.c_str());
	c.check(e[1].u <= f * e[0].u + 1e-8 * cs + fb, "wind of a balanced flow does not converge", "error %.3e, twice the resolution %.3e", e[0].u, e[1].u);
	c.check(e[1].h <= f * e[0].h + 1e-9, "mass of a balanced flow does not converge", "relative error %.3e, twice the resolution %.3e", e[0].h, e[1].h);
	c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "layer", layer, 3 }, { "uniform", uniform, 3 }, { "rest", rest, 1 }, { "balanced", balanced, 2 } }, [] { initMPI(); }); }
