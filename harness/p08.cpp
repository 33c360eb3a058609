// P08: cubed-sphere coordinate and vector transforms against plain vector geometry.
#include "pbt.h"
#include "CubedSphereTrans.h"
#include "sphere.h"
using namespace pbt;
typedef CubedSphereTrans T;

// Point of a panel: interior, edge, corner, centre, diagonal; beyond the edge by up to dHalo
static void panelPoint(Src & s, Ctx & c, double & X, double & Y, double halo = 0) {
	auto one = [&]() { switch (s.weighted({ 6, 1, 1, 1, 1 })) { case 0: return s.real(-1 - halo, 1 + halo); case 1: return 1.0; case 2: return -1.0; case 3: return 0.0; default: return (s.coin() ? 1 : -1) * s.logreal(s.coin(1, 4) ? 1e-18 : 1e-10, 1.0); } };
	X = one(); Y = s.coin(1, 8) ? X : s.coin(1, 8) ? -X : one();
	if (X == 0 && Y == 0) c.cls("panel centre"); else if (fabs(X) >= 1 || fabs(Y) >= 1) c.cls("edge or beyond"); else c.cls("interior");
}
static double lonDiff(double a, double b) { double d = fmod(a - b, 2 * M_PI); if (d > M_PI) d -= 2 * M_PI; if (d < -M_PI) d += 2 * M_PI; return d; }

static void points(Src & s, Ctx & c) {
	double X, Y; int p = (int)s.draw(5); panelPoint(s, c, X, Y, 0.3);
	double pole = (p > 3 && fabs(X) < 1e-13 && fabs(Y) < 1e-13) ? 3e-13 : 0;   // any longitude is right there
	c.desc("panel %d X %.17g Y %.17g", p, X, Y); c.nontrivial(X != 0 || Y != 0);
	V3 w = ptXYP(X, Y, p); double x, y, z;
	T::XYZFromXYP(X, Y, p, x, y, z);
	c.check(len(w - V3{ x, y, z }) < 1e-14, "xyz", "XYZFromXYP gives (%g,%g,%g)", x, y, z);
	double lon, lat; T::RLLFromXYP(X, Y, p, lon, lat);
	c.check(lon >= 0 && lon <= 2 * M_PI + 1e-14 && fabs(lat) <= M_PI / 2 + 1e-15, "range", "lon %g lat %g out of range", lon, lat);
	c.check(len(w - ptRLL(lon, lat)) < 3e-15 + pole, "rll", "RLLFromXYP gives another point (off by %g)", len(w - ptRLL(lon, lat)));
	double lonA, latA; T::RLLFromABP(atan(X), atan(Y), p, lonA, latA);
	c.check(len(w - ptRLL(lonA, latA)) < 3e-15 + pole, "abp-rll", "RLLFromABP gives another point");
	// back
	double X2, Y2; int p2; T::XYPFromRLL(lon, lat, X2, Y2, p2);
	c.check(p2 >= 0 && p2 < 6 && fabs(X2) <= 1 + 1e-14 && fabs(Y2) <= 1 + 1e-14, "contains", "panel %d does not contain the point (%g,%g)", p2, X2, Y2);
	c.check(len(w - ptXYP(X2, Y2, p2)) < 5e-15 + pole, "back", "XYPFromRLL gives another point (panel %d, %g, %g)", p2, X2, Y2);
	if (fabs(X) < 1 - 1e-13 && fabs(Y) < 1 - 1e-13) c.check(p2 == p, "panel", "panel %d, expected %d", p2, p);
	double A2, B2; int p3; T::ABPFromRLL(lon, lat, A2, B2, p3);
	c.check(p3 == p2 && fabs(A2 - atan(X2)) < 1e-15 && fabs(B2 - atan(Y2)) < 1e-15, "abp", "ABPFromRLL (%d %g %g) differs from XYPFromRLL (%d %g %g)", p3, A2, B2, p2, X2, Y2);
	// every panel that sees the point gives the same point; others are refused
	for (int q = 0; q < 6; q++) {
		double zr = dot(w, PC[q]);
		if (fabs(zr) < 1e-3) continue;
		double Xq, Yq; bool threw = false;
		try { T::XYPFromXYP(X, Y, p, q, Xq, Yq); } catch (Exception &) { threw = true; }
		c.check(threw == (zr <= 0), "visible", "panel %d to %d %s", p, q, threw ? "refused" : "accepted");
		if (threw) continue;
		c.check(len(w - ptXYP(Xq, Yq, q)) < pole + 5e-15 * (1 + 1 / zr), "panel-panel", "panel %d to %d moves the point by %g", p, q, len(w - ptXYP(Xq, Yq, q)));
		double lq, tq; T::RLLFromXYP(Xq, Yq, q, lq, tq);
		c.check(len(w - ptRLL(lq, tq)) < pole + 5e-15 * (1 + 1 / zr), "agree", "panels %d and %d disagree", p, q);
	}
	c.check(fabs(T::GnomonicElementArea(0, 0.5, 0, 0.5)) > 0, "area", "zero area");
}
static void rll(Src & s, Ctx & c) {
	double lon = s.coin(1, 5) ? s.irange(-8, 16) * M_PI / 4 : s.real(-2 * M_PI, 4 * M_PI), lat;
	switch (s.weighted({ 5, 1, 1, 1, 1 })) { case 0: lat = asin(s.real(-1, 1)); break; case 1: lat = M_PI / 2; break; case 2: lat = -M_PI / 2; break; case 3: lat = 0; break; default: lat = (s.coin() ? 1 : -1) * (M_PI / 2 - s.logreal(1e-9, 0.1)); }
	c.desc("lon %.17g lat %.17g", lon, lat); c.nontrivial();
	double X, Y; int p; T::XYPFromRLL(lon, lat, X, Y, p);
	V3 w = ptRLL(lon, lat);
	c.check(p >= 0 && p < 6 && fabs(X) <= 1 + 1e-14 && fabs(Y) <= 1 + 1e-14, "contains", "panel %d (%g,%g) does not contain the point", p, X, Y);
	c.check(len(w - ptXYP(X, Y, p)) < 5e-15, "xyp", "XYPFromRLL gives another point");
	double l2, t2; T::RLLFromXYP(X, Y, p, l2, t2);
	c.check(len(w - ptRLL(l2, t2)) < 5e-15, "roundtrip", "lon %g lat %g come back as %g %g", lon, lat, l2, t2);
	if (cos(lat) > 1e-6) { c.check(fabs(lonDiff(lon, l2)) < 1e-8 , "lon", "longitude"); c.check(fabs(lat - t2) < 1e-7, "lat", "latitude"); }
}
// latitude-longitude <-> panel components
static void vecRLL(Src & s, Ctx & c) {
	double X, Y; int p = (int)s.draw(5); panelPoint(s, c, X, Y, 0.2);
	// within 1e-9 of a pole the direction of east is lost in rounding; the pole itself has a convention
	double r = sqrt(X * X + Y * Y);
	if (p > 3 && r < 1e-9 && r >= 1e-14) c.discard();
	double ul = s.sreal(2), ut = s.sreal(2);
	c.desc("panel %d X %.17g Y %.17g u %.17g v %.17g", p, X, Y, ul, ut); c.nontrivial();
	double lon, lat; T::RLLFromXYP(X, Y, p, lon, lat);
	V3 e = east(lon, lat), n = north(lon, lat), v = ul * e + ut * n, ea = tanA(X, Y, p), eb = tanB(X, Y, p);
	double sp = fabs(ul) + fabs(ut), tol = 2e-13 * sp * (p > 3 && r > 1e-10 ? 1 + 1e-2 / r : 1) + 1e-300;
	double wa, wb; contra(v, ea, eb, wa, wb);
	double ua, ub; T::VecTransABPFromRLL(X, Y, p, ul, ut, ua, ub);
	c.close(ua, wa, tol, "vec-alpha", "alpha component"); c.close(ub, wb, tol, "vec-beta", "beta component");
	double l2, t2; T::VecTransRLLFromABP(X, Y, p, wa, wb, l2, t2);
	c.close(l2, ul, tol, "vec-lon", "eastward component back"); c.close(t2, ut, tol, "vec-lat", "northward component back");
	double ca, cb; T::CoVecTransABPFromRLL(X, Y, p, ul, ut, ca, cb);
	c.close(ca, dot(v, ea), tol, "covec-alpha", "covariant alpha component"); c.close(cb, dot(v, eb), tol, "covec-beta", "covariant beta component");
	T::CoVecTransRLLFromABP(X, Y, p, dot(v, ea), dot(v, eb), l2, t2);
	c.close(l2, ul, tol, "covec-lon", "eastward component back from covariant"); c.close(t2, ut, tol, "covec-lat", "northward component back from covariant");
	c.close(ua * ca + ub * cb, ul * ul + ut * ut, tol * sp * 3, "pairing", "vector paired with its covector");
}
// panel to panel
static void vecPanel(Src & s, Ctx & c) {
	static const int nb[6][4] = { { 1, 4, 3, 5 }, { 2, 4, 0, 5 }, { 3, 4, 1, 5 }, { 0, 4, 2, 5 }, { 1, 2, 3, 0 }, { 1, 0, 3, 2 } };
	int p = (int)s.draw(5), d = (int)s.draw(3), q = nb[p][d];
	double a = s.real(-0.5, 0.5), b = s.coin(1, 8) ? (s.coin() ? 1 : -1) * M_PI / 4 : s.real(-M_PI / 4, M_PI / 4);
	if (s.coin(1, 5)) a = 0;      // on the shared edge
	double X, Y;
	if (d == 0) { X = tan(M_PI / 4 + a); Y = tan(b); } else if (d == 1) { Y = tan(M_PI / 4 + a); X = tan(b); } else if (d == 2) { X = -tan(M_PI / 4 + a); Y = tan(b); } else { Y = -tan(M_PI / 4 + a); X = tan(b); }
	double va = s.sreal(2), vb = s.sreal(2);
	V3 w = ptXYP(X, Y, p); if (dot(w, PC[q]) < 0.15) c.discard();
	double Xq = dot(w, PX[q]) / dot(w, PC[q]), Yq = dot(w, PY[q]) / dot(w, PC[q]);
	c.desc("panel %d to %d X %.17g Y %.17g vector %.17g %.17g", p, q, X, Y, va, vb); c.nontrivial();
	V3 v = va * tanA(X, Y, p) + vb * tanB(X, Y, p);
	double wa, wb; contra(v, tanA(Xq, Yq, q), tanB(Xq, Yq, q), wa, wb);
	double A = va, B = vb; T::VecPanelTrans(p, q, A, B, Xq, Yq);
	double tol = 1e-12 * (fabs(va) + fabs(vb) + 1e-3);
	c.close(A, wa, tol, "vec-panel", "alpha component on panel %d", q); c.close(B, wb, tol, "vec-panel", "beta component on panel %d", q);
	T::VecPanelTrans(q, p, A, B, X, Y);
	c.close(A, va, 10 * tol, "vec-panel-back", "alpha component back on panel %d", p); c.close(B, vb, 10 * tol, "vec-panel-back", "beta component back on panel %d", p);
	double ca = dot(v, tanA(X, Y, p)), cb = dot(v, tanB(X, Y, p)), oa = ca, ob = cb;
	T::CoVecPanelTrans(p, q, ca, cb, Xq, Yq);
	c.close(ca, dot(v, tanA(Xq, Yq, q)), tol, "covec-panel", "covariant alpha component on panel %d", q); c.close(cb, dot(v, tanB(Xq, Yq, q)), tol, "covec-panel", "covariant beta component on panel %d", q);
	T::CoVecPanelTrans(q, p, ca, cb, X, Y);
	c.close(ca, oa, 10 * tol, "covec-panel-back", "covariant alpha component back"); c.close(cb, ob, 10 * tol, "covec-panel-back", "covariant beta component back");
	// opposite panels share no points
	static const int opp[6] = { 2, 3, 0, 1, 5, 4 }; bool threw = false;
	try { double t1 = 1, t2 = 1; T::VecPanelTrans(p, opp[p], t1, t2, 0.3, 0.3); } catch (Exception &) { threw = true; }
	c.check(threw, "opposite", "vector taken to the opposite panel %d", opp[p]);
	threw = false; try { double t1 = 1, t2 = 1; T::CoVecPanelTrans(p, opp[p], t1, t2, 0.3, 0.3); } catch (Exception &) { threw = true; }
	c.check(threw, "opposite", "covector taken to the opposite panel %d", opp[p]);
}
// spherical area of gnomonic rectangles
static void area(Src & s, Ctx & c) {
	double X = s.real(-1, 0.9), Y = s.real(-1, 0.9), dX = s.real(0.01, 1 - X), dY = s.real(0.01, 1 - Y), R = s.coin() ? 1 : s.logreal(0.1, 1e7);
	c.desc("rectangle %g+%g x %g+%g R %g", X, dX, Y, dY, R); c.nontrivial();
	// sum of two spherical triangles (Van Oosterom-Strackee)
	V3 a = ptXYP(X, Y, 0), b = ptXYP(X + dX, Y, 0), d = ptXYP(X, Y + dY, 0), e = ptXYP(X + dX, Y + dY, 0);
	auto tri = [](V3 p, V3 q, V3 r) { return 2 * atan2(fabs(dot(p, cross(q, r))), 1 + dot(p, q) + dot(q, r) + dot(p, r)); };
	double w = tri(a, b, e) + tri(a, e, d);
	c.close(T::GnomonicElementArea(X, dX, Y, dY, R) / (R * R), w, 3e-15 * 10, "area", "area");
}
int main(int argc, char ** argv) {
	return run(argc, argv, { { "points", points, 1 }, { "lonlat", rll, 1 }, { "vectors", vecRLL, 1 }, { "panel-vectors", vecPanel, 1 }, { "area", area, 0.2 } });
}
