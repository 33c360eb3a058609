// P09: panel adjacency, index mapping across panel edges, patch neighbours, owners of points.
#include "pbt.h"
#include "mesh.h"
#include "Direction.h"
using namespace pbt; using namespace mu;
typedef CubedSphereTrans T;
static const Direction EDGE[4] = { Direction_Right, Direction_Top, Direction_Left, Direction_Bottom };
static const int DX[8] = { 1, 0, -1, 0, 1, -1, -1, 1 }, DY[8] = { 0, 1, 0, -1, 1, 1, -1, -1 };   // by Direction value
static const Direction DIRS[8] = { Direction_Right, Direction_Top, Direction_Left, Direction_Bottom, Direction_TopRight, Direction_TopLeft, Direction_BottomLeft, Direction_BottomRight };

// the panel over edge d of panel p, found from the geometry; and the direction there that leads back
static int panelAcross(int p, int d, int & back) {
	V3 n = d == 0 ? PX[p] : d == 1 ? PY[p] : d == 2 ? -1.0 * PX[p] : -1.0 * PY[p];
	for (int q = 0; q < 6; q++) if (dot(PC[q], n) > 0.5) {
		double a = dot(PX[q], PC[p]), b = dot(PY[q], PC[p]);
		back = a > 0.5 ? 0 : b > 0.5 ? 1 : a < -0.5 ? 2 : 3; return q;
	}
	return -1;
}
static void panels(Src & s, Ctx & c) {
	int p = (int)s.draw(5), d = (int)s.draw(3), back, q = panelAcross(p, d, back);
	c.desc("panel %d direction %d", p, d); c.nontrivial();
	int r = -9; Direction dO; T::RelativePanel(p, EDGE[d], r, dO);
	c.check(r == q && dO == EDGE[back], "relative-panel", "RelativePanel gives panel %d direction %d, geometry %d %d", r, (int)dO, q, back);
	c.check(T::PanelFromDirection(p, EDGE[d]) == q, "panel-from-direction", "PanelFromDirection");
	c.check(T::DirectionFromPanel(p, q) == EDGE[d], "direction-from-panel", "DirectionFromPanel");
	c.check(T::OpposingDirection(p, q, EDGE[d]) == EDGE[back], "opposing", "OpposingDirection %d", (int)T::OpposingDirection(p, q, EDGE[d]));
	int opp = (p < 4) ? (p + 2) % 4 : 9 - p;
	c.check(T::DirectionFromPanel(p, opp) == Direction_Unreachable && T::DirectionFromPanel(p, p) == Direction_Middle && T::PanelFromDirection(p, Direction_Middle) == p, "unreachable", "opposite or same panel");
	int i = 0, j = 0, e = (int)s.draw(7); DirectionIncrement(DIRS[e], i, j);
	c.check(i == DX[e] && j == DY[e], "increment", "DirectionIncrement");
	DirectionIncrement(DirectionOpposite(DIRS[e]), i, j);
	c.check(i == 0 && j == 0, "opposite", "DirectionOpposite");
}
static void relcoord(Src & s, Ctx & c) {
	int Nc = (int)s.irange(1, s.coin(1, 4) ? 200 : 12), p = (int)s.draw(5), i, j;
	int kind = s.weighted({ 2, 6, 2 });
	int depth = (int)s.irange(0, Nc - 1), d = (int)s.draw(3), t = (int)s.irange(0, Nc - 1);
	if (kind == 0) { i = (int)s.irange(0, Nc - 1); j = t; }
	else { i = d == 0 ? Nc + depth : d == 2 ? -1 - depth : t; j = d == 1 ? Nc + depth : d == 3 ? -1 - depth : t; if (kind == 2) { if (d % 2 == 0) j = s.coin() ? -1 - (int)s.irange(0, Nc - 1) : Nc + (int)s.irange(0, Nc - 1); else i = s.coin() ? -1 - (int)s.irange(0, Nc - 1) : Nc + (int)s.irange(0, Nc - 1); } }
	c.desc("Nc %d panel %d (%d,%d)", Nc, p, i, j);
	int P = -9, I = -9, J = -9; bool ab = true, par = true, perp = true;
	T::RelativeCoord(Nc, p, i, j, P, I, J, ab, par, perp);
	if (kind == 0) { c.check(P == p && I == i && J == j && !ab && !par && !perp, "inside", "an inside point moved to %d (%d,%d)", P, I, J); return; }
	c.nontrivial();
	if (kind == 2) { c.check(I == -1 && J == -1 && P == InvalidPanel, "corner", "outside two edges gives %d (%d,%d)", P, I, J); return; }
	int back, q = panelAcross(p, d, back);
	c.check(P == q, "panel", "panel %d, expected %d", P, q);
	c.check(I >= 0 && I < Nc && J >= 0 && J < Nc, "range", "(%d,%d) outside the panel", I, J);
	int dep = back == 0 ? Nc - 1 - I : back == 2 ? I : back == 1 ? Nc - 1 - J : J, tr = back % 2 == 0 ? J : I;
	c.check(dep == depth, "depth", "depth %d, expected %d", dep, depth);
	// same place along the edge: compare the position of cell t's centre on the shared edge
	auto edge = [&](int pn, int dd, int tt) { double u = tan(M_PI / 4 * (2.0 * (tt + 0.5) / Nc - 1)), v = dd == 0 || dd == 1 ? 1 : -1; return dd % 2 == 0 ? ptXYP(v, u, pn) : ptXYP(u, v, pn); };
	c.check(len(edge(p, d, t) - edge(q, back, tr)) < 1e-12, "along", "lands at another place along the edge (%d -> %d)", t, tr);
	// switches, from the orientation of the axes on the shared edge
	bool sAB = (d % 2) != (back % 2);
	V3 e1 = edge(p, d, 0), e2 = edge(p, d, Nc - 1), f1 = edge(q, back, 0), f2 = edge(q, back, Nc - 1);
	bool sPar = Nc > 1 ? dot(e2 - e1, f2 - f1) < 0 : par;
	bool sPerp = ((d == 0 || d == 1) == (back == 0 || back == 1));
	c.check(ab == sAB && par == sPar && perp == sPerp, "switch", "switches %d %d %d, geometry %d %d %d", ab, par, perp, sAB, sPar, sPerp);
	// and straight back
	int bi = I, bj = J; DirectionIncrement(EDGE[back], bi, bj); (void)bi;
	int oi = back == 0 ? Nc + depth : back == 2 ? -1 - depth : I, oj = back == 1 ? Nc + depth : back == 3 ? -1 - depth : J, P2, I2, J2; bool b1, b2, b3;
	T::RelativeCoord(Nc, P, oi, oj, P2, I2, J2, b1, b2, b3);
	int wi = d == 0 ? Nc - 1 - depth : d == 2 ? depth : i, wj = d == 1 ? Nc - 1 - depth : d == 3 ? depth : j;
	c.check(P2 == p && I2 == wi && J2 == wj, "back", "crossing back gives %d (%d,%d), expected %d (%d,%d)", P2, I2, J2, p, wi, wj);
}
static void dirxyp(Src & s, Ctx & c) {
	int p = (int)s.draw(5); double X = s.real(-3, 3), Y = s.real(-3, 3);
	if (fabs(fabs(X) - 1) < 1e-6 || fabs(fabs(Y) - 1) < 1e-6 || fabs(fabs(X) - fabs(Y)) < 1e-6) c.discard();
	Direction d = T::DirectionFromXYP(p, X, Y), w = fabs(X) < 1 && fabs(Y) < 1 ? Direction_Middle : fabs(X) > fabs(Y) ? (X > 0 ? Direction_Right : Direction_Left) : (Y > 0 ? Direction_Top : Direction_Bottom);
	bool eq = p < 4 && fabs(X) > 1 && fabs(Y) < fabs(X); (void)eq;
	c.desc("panel %d X %g Y %g -> %d", p, X, Y, (int)d); c.nontrivial(w != Direction_Middle);
	c.check(d == w, "direction-xyp", "direction %d, geometry %d", (int)d, (int)w);
}
static void simpleState(const PhysicalConstants &, double, double, double, double * s, double * q) { for (int i = 0; i < 3; i++) s[i] = 1; }
static Cfg genGrid(Src & s, Ctx & c) {
	Cfg g; g.sw = true; g.ho = (int)s.irange(2, 6); g.sphere = s.coin(2, 3);
	if (g.sphere) { int m = (int)s.irange(1, s.coin(1, 3) ? 4 : 2); g.np = 6 * m * m + (s.coin(1, 4) ? (int)s.irange(1, 5) : 0); g.ne = m * (int)s.irange(1, 3); }
	else { g.np = (int)s.irange(1, 5); g.nx = g.np * (int)s.irange(1, 3); g.ny = (int)s.irange(1, 4); for (int i = 0; i < 4; i++) g.bc[i] = 0; int a = s.coin(1, 3) ? (int)s.irange(1, 2) : 0, b = s.coin(1, 3) ? (int)s.irange(1, 2) : 0; g.bc[0] = g.bc[2] = a; g.bc[1] = g.bc[3] = b; g.gd[0] = s.sreal(500); g.gd[1] = g.gd[0] + s.real(10, 1e6); g.gd[2] = s.sreal(500); g.gd[3] = g.gd[2] + s.real(10, 1e6); }
	return g;
}
static void patches(Src & s, Ctx & c) {
	Cfg g = genGrid(s, c);
	c.desc("%s ho %d np %d ne %d nx %d ny %d bc %d %d", g.sphere ? "sphere" : "box", g.ho, g.np, g.ne, g.nx, g.ny, g.bc[0], g.bc[1]);
	Case * tc = new Case; tc->state = simpleState; tc->ztop = 1;
	if (g.np != g.np / 6 * 6 && g.sphere) c.cls("idle processes");
	Sim S(g, tc); Mesh m(S); int ho = g.ho;
	c.nontrivial(S.nPatch() > 1); c.cls(g.sphere ? "sphere" : "box"); c.cls(S.nPatch() > 6 ? "more than 6 patches" : "up to 6 patches");
	// the patches tile the domain
	int nA = g.sphere ? g.ne : g.nx, nB = g.sphere ? g.ne : g.ny, nP = g.sphere ? 6 : 1;
	c.check((int)m.el.size() == nA * nB * nP && m.elAt.size() == m.el.size(), "tile", "%zu elements (%zu distinct), expected %d", m.el.size(), m.elAt.size(), nA * nB * nP);
	// any index inside or one step outside has the owner geometry says
	{
		DataArray1D<int> a(1), b(1), p(1), o(1);
		for (int t = 0; t < 30; t++) {
			int pn = (int)s.draw(nP - 1), e = m.elAt[{ pn, (int)s.draw(nA - 1), (int)s.draw(nB - 1) }], i = (int)s.draw(ho - 1), j = (int)s.draw(ho - 1), d = (int)s.draw(4);
			int f = d == 4 ? e : m.across(e, d), ga = m.el[e].ea * ho + i, gb = m.el[e].eb * ho + j;
			if (d == 0) ga = (m.el[e].ea + 1) * ho; if (d == 2) ga = m.el[e].ea * ho - 1; if (d == 1) gb = (m.el[e].eb + 1) * ho; if (d == 3) gb = m.el[e].eb * ho - 1;
			a[0] = ga; b[0] = gb; p[0] = pn; o[0] = -77; S.pg->GetPatchFromCoordinateIndex(0, a, b, p, o, 1);
			int w = f < 0 ? GridPatch::InvalidIndex : S.patch(m.el[f].patch)->GetPatchIndex();
			c.check(o[0] == w, "owner", "node (%d,%d) of panel %d belongs to patch %d, expected %d", ga, gb, pn, o[0], w);
		}
	}
	// registered neighbours: for each patch edge exactly the patches of the elements across, mutual and consistent
	std::vector<ExchangeBuffer> & reg = S.pg->GetExchangeBufferRegistry().GetExchangeBuffers();
	std::map<std::vector<int>, int> seen;
	for (auto & x : reg) {
		seen[{ x.m_ixSourcePatch, x.m_ixTargetPatch, (int)x.m_dir }]++;
	}
	for (auto & x : reg) {
		auto it = seen.find({ x.m_ixTargetPatch, x.m_ixSourcePatch, (int)x.m_dirOpposing });
		c.check(it != seen.end(), "mutual", "patch %d lists %d in direction %d but not the reverse (%d)", x.m_ixSourcePatch, x.m_ixTargetPatch, (int)x.m_dir, (int)x.m_dirOpposing);
	}
	std::map<std::vector<int>, int> want;
	for (int n = 0; n < S.nPatch(); n++) {
		int ix = S.patch(n)->GetPatchIndex(); std::set<int> to[8];
		for (size_t e = 0; e < m.el.size(); e++) if (m.el[e].patch == n) for (int d = 0; d < 4; d++) {
			const PatchBox & b = S.patch(n)->GetPatchBox(); const El & E = m.el[e];
			bool rim = d == 0 ? E.i0 + ho == b.GetAInteriorEnd() : d == 1 ? E.j0 + ho == b.GetBInteriorEnd() : d == 2 ? E.i0 == b.GetAInteriorBegin() : E.j0 == b.GetBInteriorBegin();
			if (!rim) continue;
			int f = m.across((int)e, d); if (f >= 0) to[d].insert(S.patch(m.el[f].patch)->GetPatchIndex());
			// the corner at the end of this side: across this side, then along
		}
		for (int d = 0; d < 4; d++) { for (int t : to[d]) { want[{ ix, t, d }]++; c.check(seen.count({ ix, t, (int)EDGE[d] }) == 1, "missing", "patch %d has no exchange with neighbour %d in direction %d", ix, t, d); } 
			for (auto & k : seen) if (k.first[0] == ix && k.first[2] == (int)EDGE[d]) c.check(to[d].count(k.first[1]) == 1, "extra", "patch %d exchanges with %d in direction %d, which is not adjacent", ix, k.first[1], d); }
	}
}
static void owners(Src & s, Ctx & c) {
	Cfg g = genGrid(s, c); Case * tc = new Case; tc->state = simpleState; tc->ztop = 1;
	Sim S(g, tc); int n = 40;
	c.desc("%s ho %d np %d ne %d nx %d ny %d", g.sphere ? "sphere" : "box", g.ho, g.np, g.ne, g.nx, g.ny); c.nontrivial(S.nPatch() > 1);
	DataArray1D<double> X(n), Y(n), A(n), B(n); DataArray1D<int> P(n);
	for (int k = 0; k < n; k++) {
		if (g.sphere) {
			// interior, panel edge, element edge, or exact multiples of an angle
			int kind = s.weighted({ 3, 3, 2, 2 }), p = (int)s.draw(5);
			double a, b;
			if (kind == 3) { X[k] = 15.0 * s.irange(-24, 48); Y[k] = 15.0 * s.irange(-6, 6); if (s.coin(1, 3)) X[k] = 360.0 * s.irange(0, 16) / 16.0; continue; }
			a = s.real(-M_PI / 4, M_PI / 4); b = s.real(-M_PI / 4, M_PI / 4);
			if (kind == 1) { if (s.coin()) a = (s.coin() ? 1 : -1) * M_PI / 4; else b = (s.coin() ? 1 : -1) * M_PI / 4; }
			if (kind == 2) { a = -M_PI / 4 + M_PI / 2 * s.irange(0, g.ne) / g.ne; }
			V3 w = ptXYP(tan(a), tan(b), p);
			X[k] = atan2(w.y, w.x) * 180 / M_PI; if (X[k] < 0) X[k] += 360; Y[k] = asin(std::max(-1.0, std::min(1.0, w.z))) * 180 / M_PI;
		} else {
			double u = s.coin(1, 3) ? (double)s.irange(0, g.nx) / g.nx : s.real(0, 1), v = s.coin(1, 3) ? (double)s.irange(0, g.ny) / g.ny : s.real(0, 1);
			X[k] = g.gd[0] + (g.gd[1] - g.gd[0]) * u; Y[k] = g.gd[2] + (g.gd[3] - g.gd[2]) * v;
			if (X[k] > g.gd[1]) X[k] = g.gd[1]; if (Y[k] > g.gd[3]) Y[k] = g.gd[3];
		}
	}
	try { S.pg->ConvertReferenceToPatchCoord(X, Y, A, B, P); }
	catch (Exception & e) { c.fail("no-owner", "some point of the domain has no owner: %s", e.ToString().c_str()); return; }
	for (int k = 0; k < n; k++) {
		c.check(P[k] >= 0 && P[k] < S.pg->GetPatchCount(), "owner-range", "patch %d", P[k]);
		const PatchBox & b = S.pg->GetPatchBox(P[k]); double tol;
		double a0, a1, b0, b1;
		if (g.sphere) {
			V3 w = ptRLL(X[k] * M_PI / 180, Y[k] * M_PI / 180);
			c.check(len(w - ptXYP(tan(A[k]), tan(B[k]), b.GetPanel())) < 1e-13, "owner-coord", "lon %g lat %g is not at the returned coordinates", X[k], Y[k]);
			double d = M_PI / 2 / g.ne / g.ho; a0 = -M_PI / 4 + b.GetAGlobalInteriorBegin() * d; a1 = -M_PI / 4 + b.GetAGlobalInteriorEnd() * d; b0 = -M_PI / 4 + b.GetBGlobalInteriorBegin() * d; b1 = -M_PI / 4 + b.GetBGlobalInteriorEnd() * d; tol = 1e-13;
		} else {
			c.check(A[k] == X[k] && B[k] == Y[k], "owner-coord", "coordinates changed");
			double dx = (g.gd[1] - g.gd[0]) / g.nx / g.ho, dy = (g.gd[3] - g.gd[2]) / g.ny / g.ho; a0 = g.gd[0] + b.GetAGlobalInteriorBegin() * dx; a1 = g.gd[0] + b.GetAGlobalInteriorEnd() * dx; b0 = g.gd[2] + b.GetBGlobalInteriorBegin() * dy; b1 = g.gd[2] + b.GetBGlobalInteriorEnd() * dy; tol = 1e-9;
		}
		c.check(A[k] >= a0 - tol && A[k] <= a1 + tol && B[k] >= b0 - tol && B[k] <= b1 + tol, "owner-box", "point %g %g outside the box of patch %d", X[k], Y[k], P[k]);
	}
}
int main(int argc, char ** argv) {
	std::vector<Prop> p = { { "panels", panels, 1 }, { "relcoord", relcoord, 6 }, { "dirxyp", dirxyp, 2 }, { "patches", patches, 3 }, { "owners", owners, 3 } };
	return run(argc, argv, p, initMPI);
}
