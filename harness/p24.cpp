// P24: thermodynamic conversions agree with one another, with the constants, and with the stored state.
#include "pbt.h"
#include "mesh.h"
using namespace pbt; using namespace mu;
static bool near(double a, double b, double t) { return fabs(a - b) <= t * (fabs(a) + fabs(b)); }
// a history of settings, then the conversions under the constants in force
static void constants(Src & s, Ctx & c) {
	PhysicalConstants p; double v[12] = { 6.37122e6, 9.80616, 7.29212e-5, 0, 287, 1004.5, 300, 100000, 1000, 461.5, 0.608, 2.5e6 };
	int n = (int)s.irange(0, 8); std::string d;
	for (int q = 0; q < n; q++) {
		int w = (int)s.draw(11); double x;
		if (w == 4) x = v[5] * s.real(0.1, 0.6); else if (w == 5) x = v[4] * s.real(1.6, 8); else if (w == 7) x = s.logreal(1e3, 1e6); else x = s.logreal(1e-5, 1e7);
		v[w] = x; d += fmt("%d=%g ", w, x);
		switch (w) { case 0: p.SetEarthRadius(x); break; case 1: p.SetG(x); break; case 2: p.SetOmega(x); break; case 3: p.SetAlpha(x); break; case 4: p.SetR(x); break; case 5: p.SetCp(x); break; case 6: p.SetT0(x); break; case 7: p.SetP0(x); break; case 8: p.SetRhoWater(x); break; case 9: p.SetRvap(x); break; case 10: p.SetMvap(x); break; default: p.SetLvap(x); }
		c.cls("settings");
	}
	double T = s.real(100, 500), P = s.logreal(1, 3e5), R = v[4], cp = v[5], P0 = v[7], kap = R / cp, gam = cp / (cp - R), rho = P / (R * T), th = T * pow(P0 / P, kap), rt = rho * th, pi = cp * pow(P / P0, kap);
	c.desc("settings %s T %g P %g", d.c_str(), T, P); c.nontrivial();
	double g[12] = { p.GetEarthRadius(), p.GetG(), p.GetOmega(), p.GetAlpha(), p.GetR(), p.GetCp(), p.GetT0(), p.GetP0(), p.GetRhoWater(), p.GetRvap(), p.GetMvap(), p.GetLvap() };
	for (int w = 0; w < 12; w++) if (g[w] != v[w]) { c.fail("constant", "constant %d is %.15g, set to %.15g", w, g[w], v[w]); return; }
	double K = 2e-12 * (1 + gam);
	struct { const char * n; double got, want; } t[] = {
		{ "cv", p.GetCv(), cp - R }, { "kappa", p.GetKappa(), kap }, { "gamma", p.GetGamma(), gam }, { "pressure scaling", p.GetPressureScaling(), P0 * pow(R / P0, gam) },
		{ "pressure from rho theta", p.PressureFromRhoTheta(rt), P }, { "rho theta from pressure", p.RhoThetaFromPressure(P), rt },
		{ "exner from rho theta", p.ExnerPressureFromRhoTheta(rt), pi }, { "rho theta from exner", p.RhoThetaFromExnerPressure(pi), rt },
		{ "exner from pressure", p.ExnerPressureFromPressure(P), pi }, { "pressure from exner", p.PressureFromExnerPressure(pi), P },
		{ "pressure there and back", p.PressureFromRhoTheta(p.RhoThetaFromPressure(P)), P }, { "exner there and back", p.PressureFromExnerPressure(p.ExnerPressureFromPressure(P)), P },
		{ "rho theta through exner", p.RhoThetaFromExnerPressure(p.ExnerPressureFromRhoTheta(rt)), rt }, { "two ways to exner", p.ExnerPressureFromPressure(p.PressureFromRhoTheta(rt)), p.ExnerPressureFromRhoTheta(rt) },
		{ "temperature", p.ExnerPressureFromRhoTheta(rt) * th / cp, T } };
	for (auto & q : t) if (!near(q.got, q.want, K * (1 + cp / (cp - R)) * (1 + (cp - R) / R) * 0.5)) { c.fail("conversion", "%s: %.15g, expected %.15g", q.n, q.got, q.want); return; }
}
// Equations of state in a copied set of constants stay bound to it; a component conversion of a pointwise state
static void components(Src & s, Ctx & c) {
	bool sw = s.coin(1, 3); int nt = (int)s.irange(0, 4); EquationSet e(sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations);
	for (int t = 0; t < nt; t++) e.InsertTracer(fmt("Q%d", t), fmt("tracer %d", t));
	PhysicalConstants p; if (s.coin(1, 2)) p.SetP0(s.logreal(1e4, 1e6));
	int nc = sw ? 3 : 5; DataArray1D<double> st(nc), q; if (nt) q.Allocate(nt); std::vector<double> a, b;
	for (int i = 0; i < nc; i++) { st[i] = i == 2 ? s.real(200, 600) : i == 4 ? s.logreal(1e-3, 2) : s.real(-100, 100); a.push_back(st[i]); } for (int i = 0; i < nt; i++) { q[i] = s.real(0, 1); b.push_back(q[i]); }
	c.desc("%s, %d tracers, %g %g", sw ? "shallow water" : "nonhydrostatic", nt, a[2], nc > 4 ? a[4] : 0); c.nontrivial();
	if (e.GetComponents() != nc || e.GetTracers() != nt || e.GetDimensionality() != (sw ? 2 : 3)) { c.fail("equation-set", "%d components %d tracers dimension %d", (int)e.GetComponents(), (int)e.GetTracers(), e.GetDimensionality()); return; }
	for (int t = 0; t < nt; t++) if (e.GetTracerShortName(t) != fmt("Q%d", t) || e.GetTracerFullName(t) != fmt("tracer %d", t)) { c.fail("tracer-name", "tracer %d is %s", t, e.GetTracerShortName(t).c_str()); return; }
	e.ConvertComponents(p, st, q);
	for (int i = 0; i < nc; i++) { double w = !sw && i == 2 ? a[2] * a[4] : a[i]; if (!near(st[i], w, 1e-15)) { c.fail("component", "component %d: %.15g, expected %.15g", i, st[i], w); return; } }
	for (int i = 0; i < nt; i++) if (q[i] != b[i]) { c.fail("component", "tracer %d changed", i); return; }
	DataArray1D<double> bad(nc + 1); bool threw = false; try { e.ConvertComponents(p, bad, q); } catch (Exception &) { threw = true; }
	if (!threw) c.fail("component", "a state of the wrong length is accepted");
}
// the stored initial state, pressure and temperature of a grid
static void stored(Src & s, Ctx & c) {
	Cfg g; g.sphere = s.coin(2, 3); g.sw = s.coin(1, 3); g.ho = (int)s.irange(2, 5); g.ne = (int)s.irange(1, 3); g.nx = (int)s.irange(1, 3); g.ny = (int)s.irange(1, 3); g.nlev = g.sw ? 1 : (int)s.irange(2, 6); g.stag = g.sw && g.sphere ? 0 : s.coin(1, 2) ? 2 : 3; g.ntr = (int)s.irange(0, 4);
	if (!g.sphere) { g.np = 1; g.reflat = 0.3; g.gd[5] = 10000; }
	double k1 = s.real(0.5, 3), k2 = s.real(0.5, 3), pz = s.real(0.1, 0.9), ps = s.real(0, 6), sc = g.sphere ? 1 : 1e-3, hm = s.coin(1, 2) ? s.real(0, 1000) : 0; if (g.sw) hm = 0;
	bool ref = s.coin(1, 2); int set = (int)s.draw(3);
	c.desc("%s %s ho %d ne %d nx %d ny %d levels %d stag %d tracers %d ref %d terrain %g k %g %g", g.sphere ? "sphere" : "box", g.sw ? "2D" : "3D", g.ho, g.ne, g.nx, g.ny, g.nlev, g.stag, g.ntr, ref, hm, k1, k2); c.nontrivial(); c.cls(g.sphere ? "sphere state" : "box state");
	Case * tc = new Case; tc->ztop = g.sw ? 1 : 10000;
	double shift = 0;
	auto f = [=](double z, double lo, double la, double sh, double * st, double * q) { double x = lo * sc, y = la * sc; st[0] = 20 * sin(k1 * cos(x) + y + sh); st[1] = 15 * cos(k2 * sin(x) - y * pz); st[2] = 300 + 20 * sin(k1 * cos(x) + z * 1e-4 + ps + sh); st[3] = 2 * sin(x + z * 3e-4); st[4] = exp(-z / 8000.) * (1 + 0.1 * cos(y * k2)); for (int t = 0; t < g.ntr; t++) q[t] = 1 + t + sin(k1 * y + t + z * 1e-3); };
	tc->state = [=](const PhysicalConstants &, double z, double lo, double la, double * st, double * q) { f(z, lo, la, 0, st, q); };
	if (ref) tc->ref = [=](const PhysicalConstants &, double z, double lo, double la, double * st, double * q) { double qq[32]; f(z, lo, la, 1, st, q ? q : qq); };
	tc->topo = [=](double lo, double la) { return hm * (1 + sin(lo * sc * k1)) * (1 + cos(la * sc)) / 4; };
	if (set) tc->phys = [=](PhysicalConstants & p) { p.SetEarthRadius(1e6 * set); p.SetP0(9e4); p.SetR(280 + set); };
	Sim S(g, tc); Mesh m(S); std::map<int, GridPatchGLL *> P; for (int n = 0; n < S.nPatch(); n++) P[S.patch(n)->GetPatchIndex()] = S.patch(n);
	const PhysicalConstants & ph = S.phys(); int nc = S.nComp(); double rad = ph.GetEarthRadius();
	if (set && (rad != 1e6 * set || ph.GetP0() != 9e4)) { c.fail("test-case-constants", "the test case's constants are not in force"); return; }
	bool fail = false;
	auto cmp = [&](const char * what, GridPatchGLL * p, const El & e, int i, int j, int k, double z, const DataArray4D<double> & a, double sh) {
		double st[8], q[32], lon, lat; int I = e.i0 + i, J = e.j0 + j; S.rll(p, I, J, lon, lat); f(z, lon, lat, sh, st, q);
		if (!g.sw) st[2] *= st[4];
		if (g.sphere) { V3 v = st[0] * east(lon, lat) + st[1] * north(lon, lat); double A, B; m.ab(e, i, j, A, B); double ua = rad * dot(v, tanA(tan(A), tan(B), e.panel)), ub = rad * dot(v, tanB(tan(A), tan(B), e.panel)); st[0] = ua; st[1] = ub; }
		for (int q2 = 0; q2 < nc; q2++) { double sc2 = q2 < 2 ? (g.sphere ? rad * 40 : 40) : fabs(st[q2]) + 1e-3; if (!(fabs(a(q2, I, J, k) - st[q2]) <= 2e-9 * sc2)) { c.fail("stored-state", "%s component %d at panel %d (%d,%d,%d): %.15g, expected %.15g", what, q2, e.panel, I, J, k, a(q2, I, J, k), st[q2]); fail = true; return; } }
	};
	for (auto & e : m.el) { GridPatchGLL * p = P[e.patch];
		for (int i = 0; i < g.ho && !fail; i++) for (int j = 0; j < g.ho && !fail; j++) { int I = e.i0 + i, J = e.j0 + j;
			for (int k = 0; k < g.nlev && !fail; k++) { double z = p->GetZLevels()(I, J, k); cmp("level", p, e, i, j, k, z, p->GetDataState(0, DataLocation_Node), 0); if (ref && !fail) cmp("level reference", p, e, i, j, k, z, p->GetReferenceState(DataLocation_Node), 1);
				double st[8], q[32], lon, lat; S.rll(p, I, J, lon, lat); f(z, lon, lat, 0, st, q); for (int t = 0; t < g.ntr && !fail; t++) if (!near(p->GetDataTracers(0)(t, I, J, k), q[t], 1e-13)) { c.fail("stored-tracer", "tracer %d at (%d,%d,%d): %.15g, expected %.15g", t, I, J, k, p->GetDataTracers(0)(t, I, J, k), q[t]); fail = true; } }
			if (!g.sw) for (int k = 0; k <= g.nlev && !fail; k++) { double z = p->GetZInterfaces()(I, J, k); cmp("interface", p, e, i, j, k, z, p->GetDataState(0, DataLocation_REdge), 0); if (ref && !fail) cmp("interface reference", p, e, i, j, k, z, p->GetReferenceState(DataLocation_REdge), 1); } } }
	if (fail || g.sw) return;
	S.pg->ComputePressure(0);
	S.each([&](GridPatchGLL * p, int i, int j) { if (!fail) for (int k = 0; k < g.nlev; k++) { double rt = p->GetDataState(0, DataLocation_Node)(2, i, j, k), w = ph.GetP0() * pow(ph.GetR() * rt / ph.GetP0(), ph.GetCp() / (ph.GetCp() - ph.GetR())); double got = p->m_dataPressure(i, j, k); if (!near(got, w, 1e-12)) { c.fail("pressure-field", "pressure at (%d,%d,%d): %.15g, expected %.15g", i, j, k, got, w); fail = true; return; } } });
	if (fail) return;
	S.pg->ComputeTemperature(0);
	S.each([&](GridPatchGLL * p, int i, int j) { if (!fail) for (int k = 0; k < g.nlev; k++) { auto & d = p->GetDataState(0, DataLocation_Node); double rt = d(2, i, j, k), pr = ph.GetP0() * pow(ph.GetR() * rt / ph.GetP0(), ph.GetCp() / (ph.GetCp() - ph.GetR())), w = pr / (d(4, i, j, k) * ph.GetR()), got = p->GetDataTemperature()(i, j, k); double th = rt / d(4, i, j, k) * pow(pr / ph.GetP0(), ph.GetR() / ph.GetCp()); if (!near(got, w, 1e-12) || !near(w, th, 1e-12)) { c.fail("temperature-field", "temperature at (%d,%d,%d): %.15g, expected %.15g", i, j, k, got, w); fail = true; return; } } });
}
int main(int argc, char ** argv) {
	std::vector<Prop> p = { { "constants", constants, 1 }, { "components", components, 0.3 }, { "stored", stored, 0.02 } };
	return run(argc, argv, p, initMPI);
}
