// P30: interpolated and written fields are the model's fields at the requested places.
#include "interp_ref.h"
using namespace pbt; using namespace mu;
struct Fill { std::vector<double> eta[2]; int deg[2]; };
// rough, continuous fields whose columns are polynomials of low degree in the vertical coordinate
static void fill(Src & s, Ctx & c, Dyn & d, Sim & S, Fill & F) {
	const Cfg & g = S.g; uint64_t z = s.draw(0xffffff) * 2654435761ull + 99; auto hash = [&](uint64_t a) { a += z; a ^= a >> 31; a *= 0x9E3779B97F4A7C15ull; a ^= a >> 29; a *= 0xBF58476D1CE4E5B9ull; a ^= a >> 32; return (double)(a % 2000003) / 1000001.5 - 1; };
	Mesh M(S); F.deg[0] = g.disc ? 0 : g.vo - 1; F.deg[1] = F.deg[0]; for (int l = 0; l < 2; l++) { const DataArray1D<double> & e = l ? S.pg->GetREtaInterfaces() : S.pg->GetREtaLevels(); for (size_t k = 0; k < e.GetRows(); k++) F.eta[l].push_back(e[k]); }
	int nc = g.sw ? 3 : 5; double rad = g.sphere ? S.phys().GetEarthRadius() : 1;
	for (size_t q = 0; q < M.groups.size(); q++) for (auto & r : M.groups[q]) { GridPatchGLL * p = S.patch(r.patch); if (!p) continue;
		auto poly = [&](int v, int l, int k) { double t = 0, x = F.eta[l][k], m = 1; for (int a = 0; a <= F.deg[l]; a++) { t += hash((q * 64 + v) * 16 + a) * m; m *= x; } return t; };
		for (int v = 0; v < nc; v++) { int l = S.loc(v) == DataLocation_REdge; for (int k = 0; k < S.nk(v); k++) { double b = poly(v, l, k), & D = S.data(p, 0, v)(v, r.i, r.j, k); if (v < 2) D = 20 * rad * b; else if (v == 3) D = b * (l ? p->GetDerivRREdge()(r.i, r.j, k, 2) : p->GetDerivRNode()(r.i, r.j, k, 2)); else D = g.sw ? d.H0 * (2 + 0.3 * b) : v == 2 ? 300 * (1.5 + 0.1 * b) : 1.2 + 0.1 * b; } }
		for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) p->GetDataTracers(0)(t, r.i, r.j, k) = poly(10 + t, 0, k);
		for (int u = 0; u < g.nuser; u++) p->GetUserData2D()(u, r.i, r.j) = hash((q * 64 + 40 + u) * 16); }
	// wind components belong to the panel: make them the components of one vector
	S.pg->PostProcessSubstage(0, DataType_State);
}
// value of a column (polynomial of degree deg sampled at xs) at t
static double column(const std::vector<double> & xs, const std::vector<double> & v, int deg, double t) { int n = (int)xs.size(); std::vector<double> x, y; for (int a = 0; a <= deg; a++) { int k = deg ? a * (n - 1) / deg : 0; x.push_back(xs[k]); y.push_back(v[k]); } std::vector<double> w = lag(x, t); double r = 0; for (size_t i = 0; i < x.size(); i++) r += w[i] * y[i]; return r; }
// expected values of component v at point (from candidate q): at the heights `to`, or where the component is kept when own
static std::vector<double> expectState(Sim & S, Mesh & M, const Cand & q, Fill & F, int v, const std::vector<double> & to, bool own, bool noref) {
	int l = S.loc(v) == DataLocation_REdge; std::vector<double> col, ref, out; for (int k = 0; k < S.nk(v); k++) { auto val = [&](GridPatchGLL * p, int i, int j, int w) { double x = S.data(p, 0, w)(w, i, j, k); if (w == 3) x /= l ? p->GetDerivRREdge()(i, j, k, 2) : p->GetDerivRNode()(i, j, k, 2); if (noref) x -= (l ? p->m_dataRefStateREdge : p->m_dataRefStateNode)(w, i, j, k); return x; };
		if (v < 2) { double ua = at(S, M, q, [&](GridPatchGLL * p, int i, int j) { return val(p, i, j, 0); }), ub = at(S, M, q, [&](GridPatchGLL * p, int i, int j) { return val(p, i, j, 1); }); if (!S.g.sphere) { col.push_back(v ? ub : ua); } else { V3 w = windOf(q.a, q.b, ua, ub); double lo = atan2(q.P.y, q.P.x), la = asin(q.P.z); col.push_back(dot(w, v ? north(lo, la) : east(lo, la))); } }
		else col.push_back(at(S, M, q, [&](GridPatchGLL * p, int i, int j) { return val(p, i, j, v); })); }
	if (own) return col; for (double t : to) out.push_back(column(F.eta[l], col, F.deg[l], t)); return out;
}
static void genCase(Src & s, Ctx & c, Dyn & d, DynOpt & o) { o.walls = true; o.hm = { "v1" }; genDyn(s, c, d, o); d.g.ntr = (int)s.irange(0, 5); d.g.nuser = s.coin(1, 3) ? (int)s.irange(1, 5) : 0; while ((int)d.qc.size() < 8) d.qc.push_back(0.5); d.mix.assign(std::max(1, d.g.ntr), std::vector<double>(5, 0.0)); for (auto & m : d.mix) m[4] = 1; }
static bool same(double a, double b, double tol) { return fabs(a - b) <= tol && std::isfinite(a); }

static void interp(Src & s, Ctx & c) {
	Dyn d; DynOpt o; genCase(s, c, d, o); std::unique_ptr<Sim> S(build(d)); const Cfg & g = S->g; Fill F; fill(s, c, d, *S, F); Mesh M(*S);
	// points
	int n = (int)s.irange(1, 12); std::vector<double> X, Y; bool edge = false; for (int i = 0; i < n; i++) { double x, y;
		if (g.sphere) { int k = (int)s.weighted({ 4, 2, 2, 2, 1 }); x = s.real(-180, 180); y = asin(s.real(-1, 1)) * 180 / M_PI; if (k == 1) { x = -180 + 45 * (int)s.draw(8); edge = true; } if (k == 2) { x = -180 + 45 * (int)s.draw(8); y = (int)s.irange(-1, 1) * 45; edge = true; } if (k == 3) { V3 p = { s.coin() ? 1. : -1., s.real(-1, 1), s.coin() ? 1. : s.real(-1, 1) }; int ro = (int)s.draw(2); double u[3] = { p.x, p.y, p.z }; V3 w = { u[ro], u[(ro + 1) % 3], u[(ro + 2) % 3] }; double nn = sqrt(dot(w, w)); x = atan2(w.y, w.x) * 180 / M_PI; y = asin(w.z / nn) * 180 / M_PI; edge = true; } if (k == 4) { y = s.coin() ? 90 : -90; edge = true; } if (s.coin(1, 8)) x += 360; }
		else { double u = s.coin(1, 3) ? (double)s.irange(0, g.nx) / g.nx : s.real(0, 1), v = s.coin(1, 3) ? (double)s.irange(0, g.ny) / g.ny : s.real(0, 1); if (u == 0 || u == 1) edge = true; x = g.gd[0] + u * (g.gd[1] - g.gd[0]); y = g.gd[2] + v * (g.gd[3] - g.gd[2]); if (u == 1) x = g.gd[1]; if (v == 1) y = g.gd[3]; }
		X.push_back(x); Y.push_back(y); c.desc(" (%.17g,%.17g)", x, y); }
	DataArray1D<double> dX(n), dY(n), dA(n), dB(n); DataArray1D<int> iP(n); for (int i = 0; i < n; i++) { dX[i] = X[i]; dY[i] = Y[i]; }
	S->pg->ConvertReferenceToPatchCoord(dX, dY, dA, dB, iP);
	std::vector<std::vector<Cand>> H; for (int i = 0; i < n; i++) { H.push_back(holders(*S, M, X[i], Y[i])); bool in = false; for (auto & q : H[i]) if (M.el[q.el].patch == iP[i]) in = true; c.check(in, "a point is given to a patch that does not hold it", "point (%.17g,%.17g) patch %d", X[i], Y[i], iP[i]); }
	// heights: the grid's own levels, or any in the column
	bool own = g.sw || (g.disc && !g.sphere) || s.coin(1, 3), noref = d.g.useRef && own && s.coin(1, 3); std::vector<double> to; if (own) to = F.eta[0]; else { int m = (int)s.irange(1, 6); for (int k = 0; k < m; k++) to.push_back(s.coin(1, 6) ? (double)s.draw(1) : s.real(0, 1)); } DataArray1D<double> eta(to.size()); for (size_t k = 0; k < to.size(); k++) eta[k] = to[k]; c.desc(own ? " own levels" : " any height"); c.cls(own ? "own levels" : "any height"); if (noref) c.cls("without reference");
	double wt = 1e-9; int nc = g.sw ? 3 : 5;
	{ DataArray3D<double> R(nc, to.size(), n); S->pg->ReduceInterpolate(DataType_State, eta, dA, dB, iP, R, own && !g.sw ? DataLocation_Node : DataLocation_None, !noref);
		for (int v = 0; v < nc; v++) { if (own && S->loc(v) == DataLocation_REdge) continue; for (int i = 0; i < n; i++) { if (v < 2 && g.sphere && fabs(Y[i]) > 89.9) continue; bool ok = false; std::vector<double> e0; double sc = v < 2 ? 60 : v == 2 ? (g.sw ? d.H0 : 450) : 3; for (auto & q : H[i]) { std::vector<double> e = expectState(*S, M, q, F, v, to, own, noref); if (e0.empty()) e0 = e; bool all = true; for (size_t k = 0; k < to.size(); k++) if (!same(R[v][k][i], e[k], wt * sc)) all = false; if (all) ok = true; } static const char * NM[] = { "zonal wind", "meridional wind", "third variable", "vertical velocity", "density" }; c.check(ok, pbt::fmt("interpolated %s differs from the field", NM[v]).c_str(), "point (%.12g,%.12g): %.15g, expected %.15g", X[i], Y[i], R[v][0][i], e0[0]); } } }
	if (own && !g.sw) { DataArray3D<double> R(nc, g.nlev + 1, n); DataArray1D<double> ee(g.nlev + 1); for (int k = 0; k <= g.nlev; k++) ee[k] = F.eta[1][k]; S->pg->ReduceInterpolate(DataType_State, ee, dA, dB, iP, R, DataLocation_REdge, !noref); for (int v = 0; v < nc; v++) if (S->loc(v) == DataLocation_REdge) for (int i = 0; i < n; i++) { bool ok = false; double e0 = 0; for (auto & q : H[i]) { std::vector<double> e = expectState(*S, M, q, F, v, F.eta[1], true, noref); e0 = e[0]; bool all = true; for (int k = 0; k <= g.nlev; k++) if (!same(R[v][k][i], e[k], wt * 3)) all = false; if (all) ok = true; } c.check(ok, "interpolated vertical velocity differs from the field", "interfaces, point (%.12g,%.12g): %.15g, expected %.15g", X[i], Y[i], R[v][0][i], e0); } }
	// everything else
	auto other = [&](DataType t, int rows, int lev, const char * nm, double tol, std::function<double(GridPatchGLL *, int, int, int, int)> f) { DataArray1D<double> z1(1); DataArray3D<double> R(rows, lev == 1 ? 1 : to.size(), n); S->pg->ReduceInterpolate(t, lev == 1 ? z1 : eta, dA, dB, iP, R);
		for (int v = 0; v < rows; v++) for (int i = 0; i < n; i++) { bool ok = false; double e0 = 0; for (auto & q : H[i]) { std::vector<double> col, e; for (int k = 0; k < lev; k++) col.push_back(at(*S, M, q, [&](GridPatchGLL * p, int a, int b) { return f(p, v, a, b, k); })); if (lev == 1 || own) e = col; else for (double x : to) e.push_back(column(F.eta[0], col, F.deg[0], x)); e0 = e[0]; bool all = true; for (size_t k = 0; k < e.size(); k++) if (!same(R[v][k][i], e[k], tol)) all = false; if (all) ok = true; } c.check(ok, pbt::fmt("interpolated %s differs from the field", nm).c_str(), "number %d point (%.12g,%.12g): %.15g, expected %.15g", v, X[i], Y[i], R[v][0][i], e0); } };
	if (g.ntr) other(DataType_Tracers, g.ntr, g.nlev, "tracer", 1e-9 * 5, [&](GridPatchGLL * p, int v, int a, int b, int k) { return p->GetDataTracers(0)(v, a, b, k); });
	other(DataType_Topography, 1, 1, "topography", 1e-9 * (1 + d.h0), [&](GridPatchGLL * p, int, int a, int b, int) { return p->GetTopography()(a, b); });
	if (g.nuser) other(DataType_Auxiliary2D, g.nuser, 1, "user field", 1e-9, [&](GridPatchGLL * p, int v, int a, int b, int) { return p->GetUserData2D()(v, a, b); });
	if (own) { S->pg->ComputeVorticityDivergence(0); double mx = 0; S->each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < g.nlev; k++) mx = std::max(mx, std::max(fabs(p->m_dataVorticity(i, j, k)), fabs(p->m_dataDivergence(i, j, k)))); }); other(DataType_Vorticity, 1, g.nlev, "vorticity", 1e-9 * mx + 1e-300, [&](GridPatchGLL * p, int, int a, int b, int k) { return p->m_dataVorticity(a, b, k); }); other(DataType_Divergence, 1, g.nlev, "divergence", 1e-9 * mx + 1e-300, [&](GridPatchGLL * p, int, int a, int b, int k) { return p->m_dataDivergence(a, b, k); });
		if (!g.sw) { S->pg->ComputeTemperature(0); const PhysicalConstants & ph = S->phys(); double mt = 0; S->each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < g.nlev; k++) mt = std::max(mt, fabs(p->m_dataTemperature(i, j, k))); });
			other(DataType_Temperature, 1, g.nlev, "temperature", 1e-9 * mt, [&](GridPatchGLL * p, int, int a, int b, int k) { double rt = S->data(p, 0, 2)(2, a, b, k), r = S->data(p, 0, 4)(4, a, b, k), pr = ph.GetP0() * pow(ph.GetR() * rt / ph.GetP0(), ph.GetCp() / ph.GetCv()); return pr / (r * ph.GetR()); });
			S->pg->ComputeSurfacePressure(0); other(DataType_SurfacePressure, 1, 1, "surface pressure", 1e-9 * 1e6, [&](GridPatchGLL * p, int, int a, int b, int) { double t = 0; for (int k = 0; k < g.nlev; k++) t += ph.GetG() * S->data(p, 0, 4)(4, a, b, k) * (p->GetZInterfaces()(a, b, k + 1) - p->GetZInterfaces()(a, b, k)); return t; }); } }
	if (edge) c.cls("points on edges"); c.nontrivial();
}
// files of the reference output manager
static void file(Src & s, Ctx & c) {
	Dyn d; DynOpt o; genCase(s, c, d, o); std::unique_ptr<Sim> S(build(d)); const Cfg & g = S->g; Scratch dir; Mesh M(*S);
	int nx = (int)s.irange(1, 9), ny = (int)s.irange(1, 7), nz = g.sw || s.coin(2, 3) ? 0 : (int)s.irange(1, 4), per = (int)s.pick(std::vector<int>{ 1, 2, 3, -1 }), no = (int)s.irange(1, 4); if (g.sphere && s.coin(1, 4)) { nx = 4; ny = 2 * (int)s.irange(1, 2); }
	bool nodes = s.coin(1, 3), noref = g.useRef && !nz && s.coin(1, 4); if (g.disc && !g.sphere) { nz = 0; nodes = false; } /* boxes with finite volume columns only give their own levels */
	bool vo = s.coin(), di = s.coin(), te = !g.sw && s.coin(), ps = !g.sw && s.coin(); if (nz) vo = di = te = false; /* (derived fields are not polynomial in height) */
	c.desc(" file %dx%dx%d, %d outputs, %d per file%s%s", nx, ny, nz, no, per, nodes ? ", all on levels" : "", noref ? ", reference removed" : "");
	Time start((int)s.irange(1, 2100), (int)s.draw(11), (int)s.draw(27), s.coin(1, 3) ? 0 : (int)s.draw(86399), s.coin(2, 3) ? 0 : (int)s.draw(999999), Time::CalendarNoLeap); S->m.SetStartTime(start);
	OutputManagerReference om(*S->pg, Time(0, 0, 0, 1, 0, Time::CalendarNoLeap, Time::TypeDelta), dir.d + "/out", "f", per, nx, ny, nz, nodes, noref); if (vo) om.OutputVorticity(); if (di) om.OutputDivergence(); if (te) om.OutputTemperature(); if (ps) om.OutputSurfacePressure(); if (nz) nodes = true;
	std::vector<double> et; if (nz) for (int k = 0; k < nz; k++) et.push_back((k + 0.5) / nz); else for (size_t k = 0; k < S->pg->GetREtaLevels().GetRows(); k++) et.push_back(S->pg->GetREtaLevels()[k]);
	struct Rec { Time t; std::map<std::string, std::vector<std::vector<double>>> v; }; double x0 = g.sphere ? -180 : g.gd[0], x1 = g.sphere ? 180 : g.gd[1], y0 = g.sphere ? -90 : g.gd[2], y1 = g.sphere ? 90 : g.gd[3];
	std::vector<std::vector<Cand>> H; for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) H.push_back(holders(*S, M, x0 + (i + 0.5) * (x1 - x0) / nx, y0 + (j + 0.5) * (y1 - y0) / ny));
	std::vector<Rec> recs; Time now = start; const EquationSet & eq = S->m.GetEquationSet(); int nc = g.sw ? 3 : 5; size_t np = H.size();
	for (int q = 0; q < no; q++) { Fill F; fill(s, c, d, *S, F); if (q) { Time dl(0, 0, (int)s.draw(400), (int)s.irange(1, 86399), s.coin() ? 0 : (int)s.draw(999999), Time::CalendarNoLeap, Time::TypeDelta); now += dl; } S->m.SetCurrentTime(now);
		Rec r; r.t = now; if (q == 0) om.InitialOutput(now); else if (q == no - 1) om.FinalOutput(now); else om.ManageOutput(now);
		// expected values: for each variable and point, the list of acceptable columns
		for (int v = 0; v < nc; v++) { bool own = !nz && (!nodes || S->loc(v) == DataLocation_Node); auto & L = r.v[eq.GetComponentShortName(v)]; for (size_t i = 0; i < np; i++) for (auto & h : H[i]) { std::vector<double> e = expectState(*S, M, h, F, v, et, own, noref); e.push_back((double)i); L.push_back(e); } }
		auto other = [&](std::string nm, int lev, std::function<double(GridPatchGLL *, int, int, int)> f) { auto & L = r.v[nm]; for (size_t i = 0; i < np; i++) for (auto & h : H[i]) { std::vector<double> col, e; for (int k = 0; k < lev; k++) col.push_back(at(*S, M, h, [&](GridPatchGLL * p, int a, int b) { return f(p, a, b, k); })); if (lev == 1 || !nz) e = col; else for (double x : et) e.push_back(column(F.eta[0], col, F.deg[0], x)); e.push_back((double)i); L.push_back(e); } };
		for (int t = 0; t < g.ntr; t++) other(eq.GetTracerShortName(t), g.nlev, [&](GridPatchGLL * p, int a, int b, int k) { return p->GetDataTracers(0)(t, a, b, k); });
		for (int u = 0; u < g.nuser; u++) other("UD" + std::to_string(u), 1, [&](GridPatchGLL * p, int a, int b, int) { return p->GetUserData2D()(u, a, b); });
		other("Zs", 1, [&](GridPatchGLL * p, int a, int b, int) { return p->GetTopography()(a, b); });
		if (vo || di) S->pg->ComputeVorticityDivergence(0); const PhysicalConstants & ph = S->phys();
		if (vo) other("ZETA", g.nlev, [&](GridPatchGLL * p, int a, int b, int k) { return p->m_dataVorticity(a, b, k); }); if (di) other("DELTA", g.nlev, [&](GridPatchGLL * p, int a, int b, int k) { return p->m_dataDivergence(a, b, k); });
		if (te) other("T", g.nlev, [&](GridPatchGLL * p, int a, int b, int k) { double rt = S->data(p, 0, 2)(2, a, b, k), r = S->data(p, 0, 4)(4, a, b, k); return ph.GetP0() * pow(ph.GetR() * rt / ph.GetP0(), ph.GetCp() / ph.GetCv()) / (r * ph.GetR()); });
		if (ps) other("PS", 1, [&](GridPatchGLL * p, int a, int b, int) { double t = 0; for (int k = 0; k < g.nlev; k++) t += ph.GetG() * S->data(p, 0, 4)(4, a, b, k) * (p->GetZInterfaces()(a, b, k + 1) - p->GetZInterfaces()(a, b, k)); return t; });
		recs.push_back(r); }
	om.CloseFile();
	int nf = per > 0 ? (no + per - 1) / per : 1;
	for (int f = 0; f < nf; f++) { int first = f * std::max(per, 0), cnt = per > 0 ? std::min(per, no - first) : no; std::string nm = dir.d + "/out/f." + recs[first].t.ToShortString() + ".nc"; Nc N(nm); c.check(N.ok, "an output file is missing", "file %d of %d", f, nf);
		c.check(N.dim("time") == cnt && N.dim("lon") == nx && N.dim("lat") == ny && N.dim("lev") == (long)et.size() && N.dim("ilev") == g.nlev + 1, "file has wrong dimensions", "time %ld lon %ld lat %ld lev %ld ilev %ld", N.dim("time"), N.dim("lon"), N.dim("lat"), N.dim("lev"), N.dim("ilev"));
		std::vector<double> lo = N.var("lon"), la = N.var("lat"), lv = N.var("lev"); for (int i = 0; i < nx; i++) c.check(same(lo[i], x0 + (i + 0.5) * (x1 - x0) / nx, 1e-12 * (fabs(x0) + fabs(x1))), "longitudes or x are not those requested", "%d: %.12g", i, lo[i]); for (int j = 0; j < ny; j++) c.check(same(la[j], y0 + (j + 0.5) * (y1 - y0) / ny, 1e-12 * (fabs(y0) + fabs(y1))), "latitudes or y are not those requested", "%d: %.12g", j, la[j]); for (size_t k = 0; k < et.size(); k++) c.check(same(lv[k], et[k], 1e-12), "levels are not those requested", "%d: %.12g", (int)k, lv[k]);
		const PhysicalConstants & ph = S->phys(); struct { const char * n; double v; } A[] = { { "earth_radius", ph.GetEarthRadius() }, { "g", ph.GetG() }, { "omega", ph.GetOmega() }, { "Rd", ph.GetR() }, { "Cp", ph.GetCp() }, { "P0", ph.GetP0() }, { "T0", ph.GetT0() }, { "Ztop", S->pg->GetZtop() } }; for (auto & a : A) c.check(N.num(a.n) == a.v, "a physical constant in the file is wrong", "%s %.12g, expected %.12g", a.n, N.num(a.n), a.v);
		// time axis
		int Y, Mo, D, h = 0, mi = 0; double se = 0; std::string un = N.att("time", "units"); int k = sscanf(un.c_str(), "days since %d-%d-%d %d:%d:%lf", &Y, &Mo, &D, &h, &mi, &se); c.check(k >= 3 && N.att("time", "calendar") == start.GetCalendarName(), "time axis has no origin or calendar", "%s", un.c_str()); std::vector<double> tv = N.var("time"); for (int q = 0; q < cnt; q++) { Time z(Y, Mo - 1, D - 1, 0, 0, Time::CalendarNoLeap); double el = recs[first + q].t - z - (h * 3600 + mi * 60 + se); c.check(fabs(tv[q] * 86400 - el) <= 2e-6 + 1e-12 * fabs(el), "time label is not the time of the state", "output %d: %.9f days since %s, expected %.9f", first + q, tv[q], un.c_str(), el / 86400); }
		for (int q = 0; q < cnt; q++) for (auto & it : recs[first + q].v) { const std::string & vn = it.first; std::vector<std::string> dm = N.dims(vn); bool fixed = vn == "Zs"; size_t nk = it.second[0].size() - 1; bool flat = fixed || vn == "PS" || vn.compare(0, 2, "UD") == 0; size_t nd = fixed ? 2 : flat ? 3 : 4; c.check(dm.size() == nd && dm[nd - 1] == "lon" && dm[nd - 2] == "lat" && (fixed || dm[0] == "time") && (flat || dm[1] == (nk == et.size() && !(nk == (size_t)g.nlev + 1 && S->loc(3) == DataLocation_REdge && vn == eq.GetComponentShortName(std::min(3, nc - 1)) && !nodes) ? "lev" : "ilev")), "a variable is missing or has the wrong dimensions", "%s: %d dimensions", vn.c_str(), (int)dm.size());
			std::vector<double> val = N.var(vn); size_t off = fixed ? 0 : (size_t)q * nk * np; c.check(val.size() >= off + nk * np, "a variable is short", "%s", vn.c_str()); double sc = 1e-300; for (auto & e : it.second) for (size_t k = 0; k < nk; k++) sc = std::max(sc, fabs(e[k])); if (vn == "U" || vn == "V") sc = std::max(sc, 60.); std::vector<char> ok(np, 0);
			for (auto & e : it.second) { size_t i = (size_t)e[nk]; if (g.sphere && nd == 4 && (vn == eq.GetComponentShortName(0) || vn == eq.GetComponentShortName(1)) && fabs(la[i / nx]) > 89.9) { ok[i] = 1; continue; } bool all = true; for (size_t k = 0; k < nk; k++) if (!same(val[off + k * np + i], e[k], 3e-9 * sc)) all = false; if (all) ok[i] = 1; }
			for (size_t i = 0; i < np; i++) if (!ok[i]) { double e0 = 0; for (auto & e : it.second) if ((size_t)e[nk] == i) e0 = e[0]; c.fail(pbt::fmt("%s in the file differs from the field", flat ? vn.c_str() : vn[0] == 'Q' ? "tracer" : vn.c_str()).c_str(), "%s output %d point (%.8g,%.8g): %.15g, expected %.15g", vn.c_str(), first + q, lo[i % nx], la[i / nx], val[off + i], e0); } } }
	c.cls(nz ? "any height" : "own levels"); c.cls(per == 1 ? "one output per file" : per < 0 ? "one file" : "several per file"); c.nontrivial();
}
// a vertical velocity prescribed by the test case
static void initialW(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.model = 1; o.walls = false; genDyn(s, c, d, o); d.hasTopo = false; d.g.ntr = 0; setCase(d); auto base = d.tc->state; double w = s.real(0.5, 5) * (s.coin() ? 1 : -1); d.tc->state = [=](const PhysicalConstants & p, double z, double x, double y, double * A, double * Q) { base(p, z, x, y, A, Q); A[3] = w; }; std::unique_ptr<Sim> S(new Sim(d.g, d.tc)); int nl = d.g.nlev;
	DataArray1D<double> X(1), Y(1), A(1), B(1), eta(nl + 1); DataArray1D<int> P(1); X[0] = d.g.sphere ? s.real(-180, 180) : s.real(d.g.gd[0], d.g.gd[1]); Y[0] = d.g.sphere ? s.real(-80, 80) : s.real(d.g.gd[2], d.g.gd[3]); for (int k = 0; k <= nl; k++) eta[k] = S->pg->GetREtaInterfaces()[k];
	S->pg->ConvertReferenceToPatchCoord(X, Y, A, B, P); DataArray3D<double> R(5, nl + 1, 1); S->pg->ReduceInterpolate(DataType_State, eta, A, B, P, R, DataLocation_REdge); c.nontrivial(); c.check(fabs(R[3][nl / 2][0] - w) < 1e-6 * fabs(w), "initial vertical velocity", "prescribed %.8g m/s, read back %.8g", w, R[3][nl / 2][0]);
}
#ifndef P30_NOMAIN
int main(int argc, char ** argv) { return run(argc, argv, { { "interp", interp, 3 }, { "file", file, 3 }, { "initialW", initialW, 0 } }, [] { initMPI(); }); }
#endif
