// P10: the stored geometry is that of the declared mapping.
#include "pbt.h"
#include "mesh.h"
using namespace pbt; using namespace mu;
static bool near(double a, double b, double s, double t) { return fabs(a - b) <= t * s; }
// Gauss points on [0,1]
static void gauss(int n, std::vector<double> & x, std::vector<double> & w) {
	x.resize(n); w.resize(n);
	for (int i = 0; i < n; i++) { double t = cos(M_PI * (n - i - 0.25) / (n + 0.5)), d = 1;
		for (int it = 0; it < 100; it++) { double p0 = 1, p1 = t; for (int k = 2; k <= n; k++) { double p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } if (n == 1) { p1 = t; p0 = 1; } d = n * (t * p1 - p0) / (t * t - 1); double s = p1 / d; t -= s; if (fabs(s) < 1e-16) break; }
		x[i] = 0.5 * (t + 1); w[i] = 1 / ((1 - t * t) * d * d); }
}
static std::vector<std::vector<double> > diffMatrix(const std::vector<double> & x) {
	int n = (int)x.size(); std::vector<double> b(n, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) b[i] /= x[i] - x[j];
	std::vector<std::vector<double> > D(n, std::vector<double>(n, 0));   // D[i][j] = l_j'(x_i)
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { D[i][j] = b[j] / b[i] / (x[i] - x[j]); D[i][i] -= D[i][j]; }
	return D;
}
static double stretchF(int k, double e) { return k == 0 ? e : k == 1 ? 0.1 * e + 0.8 * e * e + 0.1 * e * e * e : e < 2.0 / 3 ? 0.5 * e : 2 * (e - 2.0 / 3) + 1.0 / 3; }
// decay of terrain with the terrain-following coordinate: linear on the sphere, a faster function in a box
static long double decay(bool sphere, long double e) { if (sphere) return 1 - e; long double q = 0.5L * M_PIl * e, co = cosl(q); return (1 - e) * (co * co * co * co * co * co + 0.25L * e * sinl(q)); }
static double decayD(bool sphere, double e) { if (sphere) return -1; double q = 0.5 * M_PI * e, co = cos(q), si = sin(q), h = pow(co, 6) + 0.25 * e * si; return -h + (1 - e) * (-3 * M_PI * pow(co, 5) * si + 0.25 * si + M_PI / 8 * e * co); }

static void geometry(Src & s, Ctx & c) {
	Cfg g; g.sphere = s.coin(3, 5); g.sw = s.coin(1, 3); g.ho = (int)s.irange(2, 8);
	if (g.sphere) { int m = s.coin(1, 4) ? (int)s.irange(2, 3) : 1; g.np = 6 * m * m; g.ne = m * (int)s.irange(1, m > 1 ? 2 : 5); }
	else { g.np = (int)s.irange(1, 3); g.nx = g.np * (int)s.irange(1, 3); g.ny = (int)s.irange(1, 4); g.gd[0] = s.coin(1, 2) ? 0 : s.sreal(1e5); g.gd[1] = g.gd[0] + s.logreal(10, 1e6); g.gd[2] = s.coin(1, 2) ? 0 : s.sreal(1e5); g.gd[3] = g.gd[2] + s.logreal(10, 1e6); g.reflat = s.coin(1, 3) ? 0 : s.sreal(1.5); }
	g.vo = 1; g.nlev = 1; int stretch = 0;
	if (!g.sw) { g.disc = s.coin(1, 4); g.vo = g.disc ? 2 * (int)s.irange(1, 2) : (int)s.irange(1, 4); g.nlev = g.vo * (int)s.irange(g.vo == 1 ? 2 : 1, 4); static const int ST[4] = { 2, 3, 0, 1 }; g.stag = ST[s.draw(g.sphere ? 3 : 1)]; stretch = (int)s.draw(2); g.stretch = stretch == 0 ? "uniform" : stretch == 1 ? "cubic" : "pwlinear"; if (!g.sphere && s.coin(1, 4)) { g.xz = true; g.ny = 1; } if (g.disc == 1 && g.nlev < 2) g.nlev = 2 * g.vo; if (g.stag == 1) { g.disc = 0; g.vo = std::max(2, g.vo); g.nlev = 1 + (g.vo - 1) * (int)s.irange(1, 4); } }
	int vo = g.disc == 1 ? 1 : g.vo;
	double ztop = g.sw ? 1 : s.logreal(100, 1e5); g.gd[4] = 0; g.gd[5] = ztop; g.vm = "none";
	double hm = s.coin(1, 4) || (g.sw && !g.sphere) ? 0 : s.real(0.01, 0.6) * ztop, k1 = s.real(0.3, 3), k2 = s.real(0.3, 3), ph = s.real(0, 6);
	double om = s.coin(1, 3) ? 0 : s.coin(1, 2) ? 7.292e-5 : s.sreal(1e-3), rad = s.coin(1, 2) ? 6371220.0 : s.logreal(1e3, 1e8);
	c.desc("%s %s patches %d elements %d (%dx%d) order %d levels %d vertical order %d%s stag %d stretch %s terrain %g of %g omega %g radius %g box [%g,%g]x[%g,%g] reference latitude %g%s", g.sphere ? "sphere" : "box", g.sw ? "2D" : "3D", g.np, g.ne, g.nx, g.ny, g.ho, g.nlev, g.vo, g.disc ? " FV" : "", g.stag, g.stretch.c_str(), hm, ztop, om, rad, g.gd[0], g.gd[1], g.gd[2], g.gd[3], g.reflat, g.xz ? " xz" : "");
	c.nontrivial(); c.cls(g.sphere ? g.sw ? "sphere 2D" : "sphere 3D" : g.sw ? "box 2D" : g.xz ? "box xz" : "box 3D"); if (hm > 0) c.cls("terrain");
	double L1 = g.gd[1] - g.gd[0], L2 = g.gd[3] - g.gd[2];
	auto topo = [=](double lo, double la) { return g.sphere ? hm * (1 + sin(k1 * cos(la) * cos(lo) + ph)) * (1 + cos(k2 * sin(la) + cos(la) * sin(lo))) / 4 : hm * (1 + sin(2 * M_PI * (lo - g.gd[0]) / L1 + ph)) * (1 + cos(2 * M_PI * (la - g.gd[2]) / L2 + k2)) / 4; };
	Case * tc = new Case; tc->ztop = ztop; tc->topo = topo; tc->phys = [=](PhysicalConstants & p) { p.SetOmega(om); p.SetEarthRadius(rad); };
	tc->state = [=](const PhysicalConstants &, double, double, double, double * st, double *) { st[0] = st[1] = st[3] = 0; st[2] = 300; st[4] = 1; };
	Sim S(g, tc); Mesh m(S); std::map<int, GridPatchGLL *> P; for (int n = 0; n < S.nPatch(); n++) P[S.patch(n)->GetPatchIndex()] = S.patch(n);
	// vertical coordinate
	std::vector<double> eN(g.nlev), wN(g.nlev), eE(g.nlev + 1, 0), wE(g.nlev + 1, 0);
	if (g.sw) { eN[0] = 0.5; wN[0] = 1; eE[1] = 1; wE[0] = wE[1] = 0.5; }
	else if (g.stag == 1) { std::vector<double> lx = gll(vo), lw = gllw(vo); int nf = (g.nlev - 1) / (vo - 1); for (int f = 0; f < nf; f++) { double a = stretchF(stretch, (double)f / nf), b = stretchF(stretch, (double)(f + 1) / nf); for (int k = 0; k < vo; k++) { eN[f * (vo - 1) + k] = a + lx[k] * (b - a); wN[f * (vo - 1) + k] += lw[k] * (b - a); } } for (int k = 0; k <= g.nlev; k++) eE[k] = S.pg->GetREtaInterface(k); }
	else { std::vector<double> gx, gw, lx = gll(vo + 1), lw = gllw(vo + 1); gauss(vo, gx, gw); int nf = g.nlev / vo;
		for (int f = 0; f < nf; f++) { double a = stretchF(stretch, (double)f / nf), b = stretchF(stretch, (double)(f + 1) / nf); for (int k = 0; k < vo; k++) { eN[f * vo + k] = a + gx[k] * (b - a); wN[f * vo + k] = gw[k] * (b - a); } for (int k = 0; k <= vo; k++) { eE[f * vo + k] = a + lx[k] * (b - a); wE[f * vo + k] += lw[k] * (b - a); } } }
	for (int k = 0; k <= g.nlev; k++) {
		if (k < g.nlev && !near(S.pg->GetREtaLevel(k), eN[k], 1, 1e-13)) { c.fail("level", "level %d at %.15g, expected %.15g", k, S.pg->GetREtaLevel(k), eN[k]); return; }
		if (!near(S.pg->GetREtaInterface(k), eE[k], 1, 1e-13)) { c.fail("interface", "interface %d at %.15g, expected %.15g", k, S.pg->GetREtaInterface(k), eE[k]); return; }
	}
	int ho = g.ho; std::vector<double> x = gll(ho), w = gllw(ho); auto D = diffMatrix(x);
	double dA = g.sphere ? M_PI / 2 / g.ne : L1 / g.nx, dB = g.sphere ? M_PI / 2 / g.ne : L2 / g.ny;
	// slopes: element gradients averaged as vectors over coincident nodes
	auto frame = [&](const El & e, int i, int j, V3 & ea, V3 & eb) { if (g.sphere) { double A, B; m.ab(e, i, j, A, B); ea = rad * tanA(tan(A), tan(B), e.panel); eb = rad * tanB(tan(A), tan(B), e.panel); } else { ea = { 1, 0, 0 }; eb = { 0, 1, 0 }; } };
	auto tzAt = [&](const El & e, int a, int b) { if (g.sphere) { V3 q = m.pos(e, a, b); return topo(atan2(q.y, q.x), asin(std::max(-1.0, std::min(1.0, q.z)))); } double xx, yy; m.xy(e, a, b, xx, yy); return topo(xx, yy); };
	std::vector<V3> grad(m.groups.size(), V3{ 0, 0, 0 });
	for (auto & e : m.el) for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) {
		double da = 0, db = 0, ua, ub; for (int q = 0; q < ho; q++) { da += D[i][q] * tzAt(e, q, j) / dA; db += D[j][q] * tzAt(e, i, q) / dB; }
		V3 ea, eb; frame(e, i, j, ea, eb); double aa = dot(ea, ea), ab = dot(ea, eb), bb = dot(eb, eb), det = aa * bb - ab * ab; ua = (bb * da - ab * db) / det; ub = (aa * db - ab * da) / det;
		int q = m.group(e, i, j); grad[q] = grad[q] + (1.0 / m.groups[q].size()) * (ua * ea + ub * eb);
	}
	double area = 0, vol = 0, volE = 0, quad = 0; bool ok = true;
	auto fail = [&](const char * sig, const El & e, int i, int j, int k, double got, double want) { ok = false; c.fail(sig, "%s at panel %d element (%d,%d) node (%d,%d) level %d: %.15g, expected %.15g", sig, e.panel, e.ea, e.eb, i, j, k, got, want); };
	for (auto & e : m.el) {
		GridPatchGLL * p = P[e.patch]; if (!p) { c.fail("patch", "patch %d is not active", e.patch); return; }
		for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) {
			int I = e.i0 + i, J = e.j0 + j; double lon = p->GetLongitude()(I, J), lat = p->GetLatitude()(I, J); V3 ea = { 1, 0, 0 }, eb = { 0, 1, 0 };
			double A, B, X = 0, Y = 0;
			if (g.sphere) {
				m.ab(e, i, j, A, B); X = tan(A); Y = tan(B); V3 q = ptXYP(X, Y, e.panel) - ptRLL(lon, lat);
				if (len(q) > 1e-13) return fail("position", e, i, j, 0, len(q), 0);
				ea = rad * tanA(X, Y, e.panel); eb = rad * tanB(X, Y, e.panel);
			} else { m.xy(e, i, j, A, B); if (!near(lon, A, L1 + fabs(g.gd[0]), 1e-13) || !near(lat, B, L2 + fabs(g.gd[2]), 1e-13)) return fail("position", e, i, j, 0, lon, A); }
			if (!near(p->GetANodes()[I], A, fabs(A) + dA, 1e-12) || !near(p->GetBNodes()[J], B, fabs(B) + dB, 1e-12)) return fail("node-coordinate", e, i, j, 0, p->GetANodes()[I], A);
			// rotation
			double cf = p->GetCoriolisF()(I, J), wf = g.sphere ? 2 * om * sin(lat) : g.xz ? 0 : 2 * om * sin(g.reflat) + 2 * om * cos(g.reflat) / rad * (B - 0.5 * L2);
			if (!near(cf, wf, fabs(2 * om) * (1 + (g.sphere ? 0 : (fabs(B) + L2) / rad)) + 1e-300, 1e-13)) return fail("coriolis", e, i, j, 0, cf, wf);
			// terrain
			double zs = tzAt(e, i, j); V3 gr = grad[m.group(e, i, j)]; double dza = dot(gr, ea), dzb = dot(gr, eb);
			double tt = 1e-7;   // terrain near a pole is evaluated from an angle
			if (!near(p->GetTopography()(I, J), zs, ztop, tt)) return fail("terrain", e, i, j, 0, p->GetTopography()(I, J), zs);
			if (!near(p->GetTopographyDeriv()(I, J, 0), dza, hm / dA * ho * ho + 1e-300, tt) || !near(p->GetTopographyDeriv()(I, J, 1), dzb, hm / dB * ho * ho + 1e-300, tt)) return fail("terrain-slope", e, i, j, 0, p->GetTopographyDeriv()(I, J, 0), dza);
			zs = p->GetTopography()(I, J); dza = p->GetTopographyDeriv()(I, J, 0); dzb = p->GetTopographyDeriv()(I, J, 1);
			if (g.sw) zs = dza = dzb = 0;
			// horizontal metric
			double gaa = dot(ea, ea), gab = dot(ea, eb), gbb = dot(eb, eb), det = gaa * gbb - gab * gab, j2 = sqrt(det), sc = gaa + gbb;
			if (!near(p->GetJacobian2D()(I, J), j2, j2, 1e-12)) return fail("jacobian-2d", e, i, j, 0, p->GetJacobian2D()(I, J), j2);
			double cov[4] = { p->GetCovMetric2DA()(I, J, 0), p->GetCovMetric2DA()(I, J, 1), p->GetCovMetric2DB()(I, J, 0), p->GetCovMetric2DB()(I, J, 1) }, wc[4] = { gaa, gab, gab, gbb };
			double con[4] = { p->GetContraMetric2DA()(I, J, 0), p->GetContraMetric2DA()(I, J, 1), p->GetContraMetric2DB()(I, J, 0), p->GetContraMetric2DB()(I, J, 1) }, wi[4] = { gbb / det, -gab / det, -gab / det, gaa / det };
			for (int q = 0; q < 4; q++) { if (!near(cov[q], wc[q], sc, 1e-12)) return fail("covariant-metric", e, i, j, q, cov[q], wc[q]); if (!near(con[q], wi[q], wi[0] + wi[3], 1e-12)) return fail("contravariant-metric", e, i, j, q, con[q], wi[q]); }
			double id[4] = { cov[0] * con[0] + cov[1] * con[2], cov[0] * con[1] + cov[1] * con[3], cov[2] * con[0] + cov[3] * con[2], cov[2] * con[1] + cov[3] * con[3] };
			if (!near(id[0], 1, 1, 1e-12) || !near(id[3], 1, 1, 1e-12) || !near(id[1], 0, 1, 1e-12) || !near(id[2], 0, 1, 1e-12)) return fail("inverse", e, i, j, 0, id[0], 1);
			quad += j2 * w[i] * w[j] * dA * dB;
			for (int loc = 0; loc < (g.stag == 1 ? 1 : 2); loc++) for (int k = 0; k < g.nlev + loc; k++) {
				double et = loc ? eE[k] : eN[k], zl = loc ? p->GetZInterfaces()(I, J, k) : p->GetZLevels()(I, J, k), dec = (double)decay(g.sphere, et);
				double z = g.sphere ? zs + (ztop - zs) * et : ztop * et + dec * zs; if (g.sw) z = zl;
				if (!near(zl, z, ztop, 1e-13)) return fail(loc ? "interface-height" : "level-height", e, i, j, k, zl, z);
				if (loc && !g.sw && ((k == 0 && !near(zl, zs, ztop, 1e-13)) || (k == g.nlev && !near(zl, ztop, ztop, 1e-13)))) return fail("bottom-top", e, i, j, k, zl, k ? ztop : zs);
				double ra = dec * dza, rb = dec * dzb, rx = ztop + decayD(g.sphere, et) * zs, tol = 1e-10;
				const DataArray4D<double> & dr = loc ? p->GetDerivRREdge() : p->GetDerivRNode();
				double sl = fabs(dza) + fabs(dzb) + 1e-300;
				if (!near(dr(I, J, k, 0), ra, sl, tol) || !near(dr(I, J, k, 1), rb, sl, tol) || !near(dr(I, J, k, 2), rx, ztop, tol)) return fail("height-derivative", e, i, j, k, dr(I, J, k, 2), rx);
				double jac = loc ? p->GetJacobianREdge()(I, J, k) : p->GetJacobian()(I, J, k); if (!near(jac, j2 * rx, j2 * ztop, tol)) return fail("jacobian", e, i, j, k, jac, j2 * rx);
				const DataArray4D<double> & ca = loc ? p->GetContraMetricAREdge() : p->GetContraMetricA(), & cb = loc ? p->GetContraMetricBREdge() : p->GetContraMetricB(), & cx = loc ? p->GetContraMetricXiREdge() : p->GetContraMetricXi();
				double G[3][3] = { { gaa + ra * ra, gab + ra * rb, ra * rx }, { gab + ra * rb, gbb + rb * rb, rb * rx }, { ra * rx, rb * rx, rx * rx } }, C[3][3];
				for (int q = 0; q < 3; q++) { C[0][q] = ca(I, J, k, q); C[1][q] = cb(I, J, k, q); C[2][q] = cx(I, J, k, q); }
				for (int q = 0; q < 3; q++) for (int r = 0; r < 3; r++) { double v = 0, n = 0; for (int l = 0; l < 3; l++) { v += G[q][l] * C[l][r]; n += fabs(G[q][l] * C[l][r]); } if (!near(v, q == r, n + 1 + sqrt(G[q][q] * fabs(C[r][r])) * (1 + sl), 1e-11)) { ok = false; return c.fail(loc ? "inverse-interface" : "inverse-level", "metric times inverse (%d,%d) is %.15g at panel %d element (%d,%d) node (%d,%d) level %d", q, r, v, e.panel, e.ea, e.eb, i, j, k); } }
				double ar = loc ? p->GetElementAreaREdge()(I, J, k) : p->GetElementAreaNode()(I, J, k), wa = jac * w[i] * w[j] * dA * dB * (loc ? wE[k] : wN[k]);
				if (!near(ar, wa, j2 * ztop * w[i] * w[j] * dA * dB, 1e-13 * (2 + (g.sphere ? 0 : fabs(g.gd[0]) / dA + fabs(g.gd[2]) / dB)))) return fail(loc ? "interface-area" : "level-area", e, i, j, k, ar, wa);
				(loc ? volE : vol) += ar;
			}
		}
	}
	// totals
	double trueA = g.sphere ? 4 * M_PI * rad * rad : L1 * L2; area = quad;
	double bound = g.sphere ? 8 * pow(0.65 / g.ne, 2 * ho - 2) + 1e-12 : 1e-12 + 1e-13 * (fabs(g.gd[0]) / dA + fabs(g.gd[2]) / dB);
	if (!near(area, trueA, trueA, bound)) { c.fail("total-area", "surface area %.15g, true %.15g: relative error %g, bound %g", area, trueA, fabs(area / trueA - 1), bound); return; }
	if (!(g.stag == 1)) {
		double tv = trueA * ztop;   // at most this much below the model top
		if (hm == 0 || g.sw) { if (!near(vol, tv, tv, bound + 1e-12) || !near(volE, tv, tv, bound + 1e-12)) c.fail("total-volume", "volume %.15g / %.15g, true %.15g", vol, volE, tv); }
		else if (!(vol < tv * (1 + bound)) || !(vol > tv * 0.3)) c.fail("total-volume", "volume %.15g over terrain, box without %.15g", vol, tv);
		if (ok && g.sphere && !near(vol, volE, tv, 1e-11)) c.fail("volume-consistency", "volume from levels %.15g, from interfaces %.15g", vol, volE);
	}
}
int main(int argc, char ** argv) {
	std::vector<Prop> p = { { "geometry", geometry, 1 } };
	return run(argc, argv, p, initMPI);
}
