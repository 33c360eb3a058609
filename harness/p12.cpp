// P12: averaging makes fields continuous, keeps totals and leaves element interiors alone.
#include "pbt.h"
#include "halo_check.h"
using namespace pbt; using namespace mu;
static void dss(Src & s, Ctx & c) {
	Cfg g = genHaloCfg([&](int a, int b) { return (int)s.irange(a, b); });
	if (!g.sphere) g.stag = g.sw ? 2 : g.stag;
	c.desc("%s %s ho %d np %d ne %d nx %d ny %d levels %d tracers %d bc %d %d stag %d", g.sphere ? "sphere" : g.xz ? "xz" : "box", g.sw ? "2D" : "3D", g.ho, g.np, g.ne, g.nx, g.ny, g.nlev, g.ntr, g.bc[0], g.bc[1], g.stag);
	Case * tc = new Case; tc->state = haloState; tc->ztop = g.sw ? 1 : 1000;
	Sim S(g, tc); Mesh m(S); int ho = g.ho;
	c.nontrivial(); c.cls(g.sphere ? "sphere" : g.bc[0] || g.bc[1] ? "box with walls" : "box"); c.cls(S.nPatch() > 6 ? "more than 6 patches" : "up to 6 patches");
	static const DataType types[] = { DataType_State, DataType_Tracers, DataType_Vorticity, DataType_Divergence, DataType_TopographyDeriv };
	int rounds = (int)s.irange(1, 3);
	for (int r = 0; r < rounds; r++) {
		int ti = (int)s.weighted({ 4, 2, 1, 1, 1 }); DataType dt = types[ti]; uint64_t seed = s.draw(1u << 30);
		int ix = dt == DataType_State ? (int)s.draw(S.m.GetComponentDataInstances() - 1) : dt == DataType_Tracers ? (int)s.draw(S.m.GetTracerDataInstances() - 1) : 0;
		if (dt == DataType_Tracers && g.ntr == 0) continue;
		c.cls("type " + std::to_string(ti));
		int nc = dt == DataType_State ? S.nComp() : dt == DataType_Tracers ? g.ntr : 1;
		auto arr = [&](GridPatch * p, int w, int i, int j, int k) -> double & {
			switch (ti) { case 0: return S.data((GridPatch *)p, ix, w)(w, i, j, k); case 1: return p->GetDataTracers(ix)(w, i, j, k); case 2: return p->GetDataVorticity()(i, j, k); case 3: return p->GetDataDivergence()(i, j, k); default: return p->GetTopographyDeriv()(i, j, k); }
		};
		auto nk = [&](int w) { return ti == 0 ? S.nk(w) : ti == 4 ? 2 : g.nlev; };
		std::map<int, GridPatchGLL *> P; for (int n = 0; n < S.nPatch(); n++) P[S.patch(n)->GetPatchIndex()] = S.patch(n);
		auto init = [&](const El & e, int i, int j, int w, int k) { return hval(seed, w, e.panel, e.ea * ho + i, e.eb * ho + j, k); };
		double junk = (double)s.irange(-1, 1) * 1e3;
		for (auto & kv : P) { const PatchBox & b = kv.second->GetPatchBox(); for (int w = 0; w < nc; w++) for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) for (int k = 0; k < nk(w); k++) arr(kv.second, w, i, j, k) = junk; }
		for (auto & e : m.el) for (int w = 0; w < nc; w++) for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) for (int k = 0; k < nk(w); k++) arr(P[e.patch], w, e.i0 + i, e.j0 + j, k) = init(e, i, j, w, k);
		auto total = [&](int w, int k) { double t = 0; for (auto & e : m.el) for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) { GridPatchGLL * p = P[e.patch]; double a = nk(w) > g.nlev || ti == 4 ? p->GetElementAreaNode()(e.i0 + i, e.j0 + j, 0) : p->GetElementAreaNode()(e.i0 + i, e.j0 + j, k); t += a * arr(p, w, e.i0 + i, e.j0 + j, k); } return t; };
		auto area = [&]() { double t = 0; for (auto & e : m.el) for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) t += P[e.patch]->GetElementAreaNode()(e.i0 + i, e.j0 + j, 0); return t; };
		std::vector<double> t0; for (int w = 0; w < nc; w++) for (int k = 0; k < nk(w); k++) t0.push_back(total(w, k));
		dynamic_cast<GridGLL *>(S.pg)->ApplyDSS(ix, dt);
		bool vec = ti == 0 || ti == 4;
		// expected value of component w at node (i,j) of element e
		auto isWall = [&](const El & e, int i, int j, bool & wx, bool & wy, int & bx, int & by) {
			wx = wy = false; if (g.sphere) return;
			if (g.bc[0] && ((e.ea == 0 && i == 0) || (e.ea == g.nx - 1 && i == ho - 1))) { wx = true; bx = g.bc[0]; }
			if (g.bc[1] && ((e.eb == 0 && j == 0) || (e.eb == g.ny - 1 && j == ho - 1))) { wy = true; by = g.bc[1]; }
		};
		for (auto & gr : m.groups) {
			bool seam = false; for (auto & q : gr) seam |= m.el[q.el].panel != m.el[gr[0].el].panel;
			for (int w = 0; w < nc; w++) for (int k = 0; k < nk(w); k++) {
				bool isVec = vec && seam && (ti == 4 ? true : w < 2);
				if (!isVec) {
					double mean = 0; for (auto & q : gr) { const El & e = m.el[q.el]; mean += init(e, q.i - e.i0, q.j - e.j0, w, k); } mean /= gr.size();
					double want = mean; bool wx, wy; int bx = 0, by = 0; isWall(m.el[gr[0].el], gr[0].i - m.el[gr[0].el].i0, gr[0].j - m.el[gr[0].el].j0, wx, wy, bx, by);
					if (ti == 0 && (wx || wy)) {
						if (w == 0 && (wx || (wy && by == 2))) want = 0;
						if (w == 1 && (wy || (wx && bx == 2))) want = 0;
						if (w == 3 && ((wx && bx == 2) || (wy && by == 2))) want = 0;
						c.cls("wall node");
					}
					for (auto & q : gr) {
						double got = arr(P[q.patch], w, q.i, q.j, k);
						if (gr.size() == 1 && !wx && !wy ? got != want : !(fabs(got - want) <= 2e-15 * 4)) { c.fail(wx || wy ? "wall" : gr.size() == 1 ? "inside" : gr.size() == 3 ? "cube-corner" : "mean", "type %d component %d level %d: node held by %d elements has %.15g at patch %d (%d,%d), expected %.15g", ti, w, k, (int)gr.size(), got, q.patch, q.i, q.j, want); return; }
					}
				} else if (ti == 0 ? w == 0 : k == 0) {
					V3 mean = { 0, 0, 0 }; double scale = 0;
					auto toV = [&](const El & e, int i, int j, double va, double vb) {
						double A, B; m.ab(e, i, j, A, B); V3 ea = tanA(tan(A), tan(B), e.panel), eb = tanB(tan(A), tan(B), e.panel);
						double aa = dot(ea, ea), ab = dot(ea, eb), bb = dot(eb, eb), det = aa * bb - ab * ab;
						V3 v = ((bb * va - ab * vb) / det) * ea + ((aa * vb - ab * va) / det) * eb; return v;
					};
					auto two = [&](const El & e, int i, int j, bool now) {
						if (now) { GridPatch * p = P[e.patch]; return ti == 0 ? toV(e, i, j, arr(p, 0, e.i0 + i, e.j0 + j, k), arr(p, 1, e.i0 + i, e.j0 + j, k)) : toV(e, i, j, arr(p, 0, e.i0 + i, e.j0 + j, 0), arr(p, 0, e.i0 + i, e.j0 + j, 1)); }
						return ti == 0 ? toV(e, i, j, init(e, i, j, 0, k), init(e, i, j, 1, k)) : toV(e, i, j, init(e, i, j, 0, 0), init(e, i, j, 0, 1));
					};
					for (auto & q : gr) { const El & e = m.el[q.el]; V3 v = two(e, q.i - e.i0, q.j - e.j0, false); mean = mean + (1.0 / gr.size()) * v; scale = std::max(scale, sqrt(dot(v, v))); }
					for (auto & q : gr) {
						const El & e = m.el[q.el]; V3 v = two(e, q.i - e.i0, q.j - e.j0, true); V3 d = v - mean;
						if (!(sqrt(dot(d, d)) <= 1e-12 * (1 + scale))) { c.fail(gr.size() == 3 ? "cube-corner-vector" : "vector-mean", "type %d level %d: node held by %d elements on several panels: vector (%g %g %g) at patch %d (%d,%d), mean (%g %g %g)", ti, k, (int)gr.size(), v.x, v.y, v.z, q.patch, q.i, q.j, mean.x, mean.y, mean.z); return; }
					}
					c.cls(gr.size() == 3 ? "cube corner vectors" : "panel edge vectors");
				}
			}
		}
		size_t t = 0; double A = area();
		for (int w = 0; w < nc; w++) for (int k = 0; k < nk(w); k++, t++) {
			if (vec && (w < 2 || ti == 4) && (g.sphere || g.bc[0] || g.bc[1])) continue;
			if (ti == 0 && w == 3 && (g.bc[0] == 2 || g.bc[1] == 2)) continue;
			double n = total(w, k); if (!(fabs(n - t0[t]) <= 1e-12 * A)) { c.fail("total", "type %d component %d level %d: total %.15g became %.15g", ti, w, k, t0[t], n); return; }
		}
		if (s.coin(1, 3)) {
			std::vector<double> a; auto all = [&](std::vector<double> & v) { for (auto & e : m.el) for (int w = 0; w < nc; w++) for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) for (int k = 0; k < nk(w); k++) v.push_back(arr(P[e.patch], w, e.i0 + i, e.j0 + j, k)); };
			all(a); dynamic_cast<GridGLL *>(S.pg)->ApplyDSS(ix, dt); std::vector<double> b; all(b);
			for (size_t q = 0; q < a.size(); q++) if (!(fabs(a[q] - b[q]) <= 1e-13)) { c.fail("again", "type %d: averaging a second time changed %.17g to %.17g", ti, a[q], b[q]); return; }
			c.cls("averaged twice");
		}
	}
}
int main(int argc, char ** argv) {
	std::vector<Prop> p = { { "average", dss, 1 } };
	return run(argc, argv, p, initMPI);
}
