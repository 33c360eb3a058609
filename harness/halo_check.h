#pragma once
#include "mesh.h"
#include <cstdint>
namespace mu {
inline double hval(uint64_t seed, int what, int panel, int ga, int gb, int k) {
	uint64_t h = seed * 0x9E3779B97F4A7C15ull + what * 0xBF58476D1CE4E5B9ull + panel * 0x94D049BB133111EBull + (uint64_t)ga * 0xD6E8FEB86659FD93ull + (uint64_t)gb * 0xA0761D6478BD642Full + (uint64_t)k * 0xE7037ED1A0B428DBull;
	h ^= h >> 31; h *= 0x7FB5D329728EA185ull; h ^= h >> 27; h *= 0x81DADEF4BC2DD44Dull; h ^= h >> 33;
	return (double)(h >> 11) / 9007199254740992.0 * 2 - 1;
}
inline void haloState(const PhysicalConstants &, double z, double, double, double * s, double * q) { s[0] = s[1] = 0; s[2] = 300; s[3] = 0; s[4] = 1; if (q) q[0] = 1; }
template <class F> Cfg genHaloCfg(F r) {
	Cfg g; g.sphere = r(0, 2) > 0; g.sw = r(0, 1) == 0; g.ho = r(2, 6); g.ntr = r(0, 7); g.nlev = g.sw ? 1 : r(2, 5); g.stag = g.sw ? 0 : r(0, 1) ? 2 : 3;
	if (g.sphere) { int m = r(1, 3); if (r(0, 2)) m = 1; g.np = 6 * m * m; g.ne = m * r(1, 3); }
	else { g.np = r(1, 4); g.nx = g.np * r(1, 3); g.ny = r(1, 4); int a = r(0, 2) ? 0 : r(1, 2), b = r(0, 2) ? 0 : r(1, 2); g.bc[0] = g.bc[2] = a; g.bc[1] = g.bc[3] = b; if (!g.sw && r(0, 2) == 0) { g.xz = true; g.ny = 1; g.bc[1] = g.bc[3] = 0; } g.gd[5] = 1000; if (g.sw) g.gd[5] = 1; }
	return g;
}
// what one array looks like
struct Fld { double * base; int sz[3]; };   // [i][j][k] or [k...]
// Fill, exchange and check one data type; returns the first mismatch
inline std::string haloRound(Sim & S, Mesh & m, int type, uint64_t seed, int ix) {
	const Cfg & g = S.g; int ho = g.ho; char buf[400];
	DataType dt; int nc, nkN = g.nlev; bool state = false;
	switch (type) { case 0: case 6: case 7: dt = DataType_State; state = true; break; case 1: dt = DataType_Tracers; break; case 2: dt = DataType_Vorticity; break; case 3: dt = DataType_Divergence; break; case 4: dt = DataType_Temperature; break; default: dt = DataType_TopographyDeriv; }
	if (dt == DataType_Tracers && g.ntr == 0) return "";
	if (dt == DataType_Tracers && ix >= S.m.GetTracerDataInstances()) ix = 0;
	// list of (component, node/edge) accessors: value at (patch, what, i, j, k)
	int nWhat = state ? 2 * S.nComp() : dt == DataType_Tracers ? g.ntr : 1;
	auto at = [&](GridPatch * p, int w, int i, int j, int k) -> double & {
		if (state) return w % 2 == 0 ? p->GetDataState(ix, DataLocation_Node)(w / 2, i, j, k) : p->GetDataState(ix, DataLocation_REdge)(w / 2, i, j, k);
		if (dt == DataType_Tracers) return p->GetDataTracers(ix)(w, i, j, k);
		if (dt == DataType_Vorticity) return p->GetDataVorticity()(i, j, k);
		if (dt == DataType_Divergence) return p->GetDataDivergence()(i, j, k);
		if (dt == DataType_Temperature) return p->GetDataTemperature()(i, j, k);
		return p->GetTopographyDeriv()(i, j, k);
	};
	auto nk = [&](int w) { return state ? g.nlev + w % 2 : dt == DataType_TopographyDeriv ? 2 : nkN; };
	auto gval = [&](const El & e, int i, int j, int w, int k) { return hval(seed, w + 100 * type, e.panel, e.ea * ho + i, e.eb * ho + j, k); };
	std::map<int, GridPatchGLL *> local;
	for (int n = 0; n < S.nPatch(); n++) local[S.patch(n)->GetPatchIndex()] = S.patch(n);
	for (auto & kv : local) {   // poison the halo
		GridPatch * p = kv.second; const PatchBox & b = p->GetPatchBox();
		for (int w = 0; w < nWhat; w++) for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) for (int k = 0; k < nk(w); k++) at(p, w, i, j, k) = 777;
	}
	for (auto & e : m.el) if (local.count(e.patch)) for (int w = 0; w < nWhat; w++) for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) for (int k = 0; k < nk(w); k++) at(local[e.patch], w, e.i0 + i, e.j0 + j, k) = gval(e, i, j, w, k);
	S.pg->Exchange(dt, ix);
	if (dt == DataType_State && g.sphere) for (auto & kv : local) dynamic_cast<GridPatchCSGLL *>(kv.second)->TransformHaloVelocities(ix);
	if (dt == DataType_TopographyDeriv && g.sphere) for (auto & kv : local) dynamic_cast<GridPatchCSGLL *>(kv.second)->TransformTopographyDeriv();
	// interior unchanged
	for (auto & e : m.el) if (local.count(e.patch)) for (int w = 0; w < nWhat; w++) for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) for (int k = 0; k < nk(w); k++)
		if (at(local[e.patch], w, e.i0 + i, e.j0 + j, k) != gval(e, i, j, w, k)) { snprintf(buf, sizeof buf, "type %d: interior value changed at patch %d (%d,%d,%d)", type, e.patch, e.i0 + i, e.j0 + j, k); return buf; }
	// halo
	bool vec = g.sphere && (dt == DataType_State || dt == DataType_TopographyDeriv);
	auto checkNode = [&](int e, int i, int j, int hi, int hj, int f, int I, int J) -> std::string {
		// node (i,j) of element e; halo place (hi,hj) in its patch; owner element f, local node I,J
		const El & E = m.el[e], & F = m.el[f]; GridPatch * p = local[E.patch];
		bool seam = E.panel != F.panel;
		for (int w = 0; w < nWhat; w++) for (int k = 0; k < nk(w); k++) {
			double want = gval(F, I, J, w, k), got = at(p, w, hi, hj, k), tol = 0;
			if (state && (w % 2 == 1) != (S.loc(w / 2) == DataLocation_REdge)) continue;   // copy of the variable where the solver does not keep it
			bool isVec = vec && seam && ((dt == DataType_State && w < 4) || dt == DataType_TopographyDeriv);
			if (isVec) {
				double va = dt == DataType_TopographyDeriv ? gval(F, I, J, w, 0) : gval(F, I, J, w % 2, k), vb = dt == DataType_TopographyDeriv ? gval(F, I, J, w, 1) : gval(F, I, J, 2 + w % 2, k);
				double A, B; m.ab(F, I, J, A, B); V3 ea = tanA(tan(A), tan(B), F.panel), eb = tanB(tan(A), tan(B), F.panel);
				double aa = dot(ea, ea), ab = dot(ea, eb), bb = dot(eb, eb), det = aa * bb - ab * ab;
				V3 v = ((bb * va - ab * vb) / det) * ea + ((aa * vb - ab * va) / det) * eb;    // the tangent vector with these covariant components
				double A2, B2; m.ab(E, i, j, A2, B2); V3 fa = tanA(tan(A2), tan(B2), E.panel), fb = tanB(tan(A2), tan(B2), E.panel);
				bool second = dt == DataType_TopographyDeriv ? k == 1 : w / 2 == 1;
				want = dot(v, second ? fb : fa); tol = 1e-12;
			}
			if (!(fabs(got - want) <= tol)) { snprintf(buf, sizeof buf, "type %d field %d: patch %d halo (%d,%d,%d) holds %.15g, element (%d;%d,%d) node (%d,%d) has %.15g", type, w, E.patch, hi, hj, k, got, F.panel, F.ea, F.eb, I, J, want); return buf; }
		}
		return "";
	};
	for (size_t e = 0; e < m.el.size(); e++) if (local.count(m.el[e].patch)) {
		const El & E = m.el[e]; const PatchBox & b = local[E.patch]->GetPatchBox();
		bool rim[4] = { E.i0 + ho == b.GetAInteriorEnd(), E.j0 + ho == b.GetBInteriorEnd(), E.i0 == b.GetAInteriorBegin(), E.j0 == b.GetBInteriorBegin() };
		for (int d = 0; d < 4; d++) if (rim[d]) {
			int f = m.across((int)e, d); if (f < 0) continue;
			for (int t = 0; t < ho; t++) {
				int i = d == 0 ? ho - 1 : d == 2 ? 0 : t, j = d == 1 ? ho - 1 : d == 3 ? 0 : t;
				int I = -1, J = -1;
				if (!g.sphere || m.el[f].panel == E.panel) { I = d == 0 ? 0 : d == 2 ? ho - 1 : t; J = d == 1 ? 0 : d == 3 ? ho - 1 : t; }
				else { int gI, gJ; if (!m.match((int)e, i, j, f, gI, gJ)) return "mesh: no matching node"; I = gI - m.el[f].i0; J = gJ - m.el[f].j0; }
				int hi = E.i0 + i + (d == 0) - (d == 2), hj = E.j0 + j + (d == 1) - (d == 3);
				std::string r = checkNode((int)e, i, j, hi, hj, f, I, J); if (!r.empty()) return r;
			}
		}
		// patch corners
		for (int q = 0; q < 4; q++) {
			int dA = q == 0 || q == 3 ? 0 : 2, dB = q < 2 ? 1 : 3;     // TR TL BL BR
			if (!rim[dA] || !rim[dB]) continue;
			int i = dA == 0 ? ho - 1 : 0, j = dB == 1 ? ho - 1 : 0, hi = E.i0 + i + (dA == 0 ? 1 : -1), hj = E.j0 + j + (dB == 1 ? 1 : -1);
			int f = -1, I = -1, J = -1;
			if (!g.sphere) { int f1 = m.across((int)e, dA); if (f1 < 0) continue; f = m.across(f1, dB); if (f < 0) continue; I = ho - 1 - i; J = ho - 1 - j; }
			else {
				int f1 = m.across((int)e, dA), f2 = m.across((int)e, dB), gr = m.group(E, i, j);
				for (auto & r : m.groups[gr]) if (r.el != (int)e && r.el != f1 && r.el != f2) { f = r.el; I = r.i - m.el[f].i0; J = r.j - m.el[f].j0; }
				if (f < 0) continue;       // cube corner: three elements meet
			}
			std::string r = checkNode((int)e, i, j, hi, hj, f, I, J); if (!r.empty()) return r;
		}
	}
	return "";
}
}
