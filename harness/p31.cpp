// P31: checksums, norms, energy, enstrophy, vertical momentum and the vorticity and divergence fields equal their definitions.
#include "dyn.h"
using namespace pbt; using namespace mu;
struct Setup { Dyn d; std::unique_ptr<Sim> S; std::unique_ptr<Mesh> M; std::vector<std::vector<double> > D; double noise; };
static void make(Src & s, Ctx & c, Setup & x, int model) {
	DynOpt o; o.model = model; o.schemes = { "strang", "ars343" }; genDyn(s, c, x.d, o); x.S.reset(build(x.d)); x.M.reset(new Mesh(*x.S)); x.noise = s.pick(std::vector<double>{ 0.05, 0.3, 0.0 });
	if (x.noise > 0) roughen(*x.S, s, 0, x.noise, true); c.desc(" noise %g", x.noise); Sim & S = *x.S;
	if (!x.d.g.sw && s.coin(3, 4)) { double w0 = s.logreal(0.1, 30), w1 = s.real(1, 9); c.desc(" vertical motion %.3g", w0); S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S.nk(3); k++) { bool e = S.loc(3) == DataLocation_REdge; double f = x.d.g.vm == "v1" ? (e ? p->GetDerivRREdge()(i, j, k, 2) : p->GetDerivRNode()(i, j, k, 2)) : 1; S.data(p, 0, 3)(3, i, j, k) = f * w0 * sin(w1 * (p->GetLongitude()(i, j) + 2 * p->GetLatitude()(i, j)) + 1 + k); } }); }
	// derivative matrix of the element's Lagrange basis on [0,1]: D[s][i] = derivative at node i of the polynomial of node s
	auto & y = x.M->x; int n = (int)y.size(); x.D.assign(n, std::vector<double>(n, 0)); for (int q = 0; q < n; q++) for (int i = 0; i < n; i++) { double r = 0; for (int m = 0; m < n; m++) if (m != q) { double t = 1 / (y[q] - y[m]); for (int l = 0; l < n; l++) if (l != q && l != m) t *= (y[i] - y[l]) / (y[q] - y[l]); r += t; } x.D[q][i] = r; }
}
// independent element-wise curl and divergence of instance ix at level k, averaged over coincident nodes; indexed by group
static void curlDiv(Setup & x, int ix, int k, std::vector<double> & curl, std::vector<double> & div, double & scale) {
	Sim & S = *x.S; Mesh & M = *x.M; const Cfg & g = S.g; int n = g.ho; double da = g.sphere ? M_PI / 2 / g.ne : (g.gd[1] - g.gd[0]) / g.nx, db = g.sphere ? da : (g.gd[3] - g.gd[2]) / g.ny; double R = S.phys().GetEarthRadius(); scale = 0;
	curl.assign(M.groups.size(), 0); div.assign(M.groups.size(), 0); std::map<int, GridPatchGLL *> P; for (int q = 0; q < S.nPatch(); q++) P[S.patch(q)->GetPatchIndex()] = S.patch(q);
	std::vector<double> ua(n * n), ub(n * n), ca(n * n), cb(n * n), J(n * n);
	for (auto & e : M.el) { GridPatchGLL * p = P[e.patch];
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { V3 a = { 1, 0, 0 }, b = { 0, 1, 0 }; if (g.sphere) { double A, B; M.ab(e, i, j, A, B); a = R * tanA(tan(A), tan(B), e.panel); b = R * tanB(tan(A), tan(B), e.panel); } int t = i * n + j; ua[t] = S.data(p, ix, 0)(0, e.i0 + i, e.j0 + j, k); ub[t] = S.data(p, ix, 1)(1, e.i0 + i, e.j0 + j, k); double aa = dot(a, a), ab = dot(a, b), bb = dot(b, b), det = aa * bb - ab * ab; J[t] = sqrt(det); ca[t] = (bb * ua[t] - ab * ub[t]) / det; cb[t] = (aa * ub[t] - ab * ua[t]) / det; }
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double cu = 0, di = 0, sc = 0; int t = i * n + j; for (int q = 0; q < n; q++) { double v[4] = { ub[q * n + j] * x.D[q][i] / da, -ua[i * n + q] * x.D[q][j] / db, J[q * n + j] * ca[q * n + j] * x.D[q][i] / da, J[i * n + q] * cb[i * n + q] * x.D[q][j] / db }; cu += v[0] + v[1]; di += v[2] + v[3]; for (double w : v) sc += fabs(w); }
			int gr = M.group(e, i, j); curl[gr] += cu / J[t] / M.groups[gr].size(); div[gr] += di / J[t] / M.groups[gr].size(); scale = std::max(scale, sc / J[t]); } }
}
static void fields(Src & s, Ctx & c) {
	Setup x; make(s, c, x, 2); Sim & S = *x.S; Mesh & M = *x.M; int ix = (int)s.draw(2); if (ix) { S.pg->CopyData(0, ix, DataType_State); S.pg->ZeroData(0, DataType_State); } c.desc(" instance %d", ix);
	S.pg->ComputeVorticityDivergence(ix); std::map<int, GridPatchGLL *> P; for (int q = 0; q < S.nPatch(); q++) P[S.patch(q)->GetPatchIndex()] = S.patch(q);
	for (int k = 0; k < S.g.nlev; k++) { std::vector<double> cu, di; double sc; curlDiv(x, ix, k, cu, di, sc); double tol = 1e-12 * sc + 1e-300; for (size_t q = 0; q < M.groups.size(); q++) for (auto & r : M.groups[q]) { double v = P[r.patch]->GetDataVorticity()(r.i, r.j, k), w = P[r.patch]->GetDataDivergence()(r.i, r.j, k);
			c.check(fabs(v - cu[q]) <= tol, "vorticity is not the curl of the velocity", "level %d: %.12g, expected %.12g (terms up to %.3g)", k, v, cu[q], sc); c.check(fabs(w - di[q]) <= tol, "divergence is not the divergence of the velocity", "level %d: %.12g, expected %.12g (terms up to %.3g)", k, w, di[q], sc); } if (sc > 0) c.nontrivial(); }
}
static void sums(Src & s, Ctx & c) {
	Setup x; make(s, c, x, 2); Sim & S = *x.S; const Cfg & g = S.g; int nc = g.sw ? 3 : 5, ix = (int)s.draw(2); double f = s.coin() ? 1 : s.sreal(100); int vanish = s.coin(1, 4) ? (int)s.draw(nc - 1) : -1, one = s.coin(1, 4) ? (int)s.irange(2, nc - 1) : -1; if (one == vanish) one = -1;
	if (one >= 0 || vanish >= 0) S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k <= g.nlev; k++) { if (one >= 0 && k < S.nk(one)) S.data(p, 0, one)(one, i, j, k) = 1; if (vanish >= 0 && k < S.nk(vanish)) S.data(p, 0, vanish)(vanish, i, j, k) = 0; } });
	DataArray1D<double> co; co.Allocate(std::max(ix + 1, 2)); if (ix) { S.pg->CopyData(0, ix, DataType_State); S.pg->CopyData(0, ix, DataType_Tracers); S.pg->ZeroData(0, DataType_State); S.pg->ZeroData(0, DataType_Tracers); } S.each([&](GridPatchGLL * p, int i, int j) { for (int q = 0; q < nc; q++) for (int k = 0; k < S.nk(q); k++) S.data(p, ix, q)(q, i, j, k) *= f; for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) p->GetDataTracers(ix)(t, i, j, k) *= f; });
	c.desc(" instance %d factor %.6g zero %d one %d", ix, f, vanish, one); long double vol = 0; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < g.nlev; k++) vol += p->GetElementAreaNode()(i, j, k); });
	static const ChecksumType T[] = { ChecksumType_Sum, ChecksumType_L1, ChecksumType_L2, ChecksumType_Linf };
	for (int tr = 0; tr < 2; tr++) for (int t = 0; t < 4; t++) { if (tr && !g.ntr) continue; int n = tr ? g.ntr : nc; DataArray1D<double> r; if (s.coin()) { r.Allocate(n); for (int q = 0; q < n; q++) r[q] = 1e9; } S.pg->Checksum(tr ? DataType_Tracers : DataType_State, r, ix, T[t]); if ((int)r.GetRows() < n) c.fail("checksum count", "%d of %d", (int)r.GetRows(), n);
		for (int q = 0; q < n; q++) { long double a = 0, ab = 0, l2 = 0, li = 0; bool e = !tr && S.loc(q) == DataLocation_REdge; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < (e ? g.nlev + 1 : g.nlev); k++) { long double w = e ? p->GetElementAreaREdge()(i, j, k) : p->GetElementAreaNode()(i, j, k), v = tr ? p->GetDataTracers(ix)(q, i, j, k) : S.data(p, ix, q)(q, i, j, k); a += w * v; ab += w * fabsl(v); l2 += w * v * v; li = std::max(li, fabsl(v)); } });
			long double want = t == 0 ? a : t == 1 ? ab : t == 2 ? sqrtl(l2) : li, sc = t == 0 ? ab : want; static const char * N[] = { "sum", "L1 norm", "L2 norm", "largest value" };
			c.check(fabsl(r[q] - want) <= 1e-11L * sc, pbt::fmt("%s differs from its definition", N[t]).c_str(), "%s %d: %.15g, expected %.15Lg", tr ? "tracer" : "component", q, (double)r[q], want);
			if (!tr && q == one && !e && t < 2) c.check(fabs((double)r[q] / (t ? fabs(f) : f) / (double)vol - 1) < 1e-10, "mean of a constant", "component %d: %.15g times %.15Lg", q, (double)r[q], vol); if (want > 0) c.nontrivial(); } c.cls(tr ? "tracers" : "state"); }
}
// horizontal covariant part and physical vertical velocity at a node; |U|^2 minus the part carried on interfaces
static void energy(Src & s, Ctx & c) {
	Setup x; make(s, c, x, 2); Sim & S = *x.S; Mesh & M = *x.M; const Cfg & g = S.g; const PhysicalConstants & ph = S.phys(); double G = ph.GetG(); bool split = !g.sw && S.loc(3) == DataLocation_REdge;
	if (split) { S.pg->InterpolateREdgeToNode(3, 0); S.pg->InterpolateNodeToREdge(4, 0); } int ix = (int)s.draw(2); if (ix) { for (int n = 0; n < S.nPatch(); n++) for (int l = 0; l < 2; l++) { DataArray4D<double> & A = S.patch(n)->GetDataState(0, l ? DataLocation_REdge : DataLocation_Node), & B = S.patch(n)->GetDataState(ix, l ? DataLocation_REdge : DataLocation_Node); for (size_t q = 0; q < A.GetTotalSize(); q++) { (&B(0, 0, 0, 0))[q] = (&A(0, 0, 0, 0))[q]; (&A(0, 0, 0, 0))[q] = 0; } } }
	c.desc(" instance %d", ix); long double E = 0, a = 0, Z = 0, W = 0, wa = 0; double om = ph.GetOmega();
	if (g.sw) { std::vector<double> cu, di; double sc; curlDiv(x, ix, 0, cu, di, sc); std::map<int, GridPatchGLL *> P; for (int q = 0; q < S.nPatch(); q++) P[S.patch(q)->GetPatchIndex()] = S.patch(q);
		for (auto & e : M.el) for (int i = 0; i < g.ho; i++) for (int j = 0; j < g.ho; j++) { GridPatchGLL * p = P[e.patch]; int I = e.i0 + i, J = e.j0 + j; double w = p->GetElementAreaNode()(I, J, 0), H = S.data(p, ix, 2)(2, I, J, 0), b = p->GetTopography()(I, J); V3 u = windAt(S, p, ix, I, J, 0); double X, Y, f; if (g.sphere) f = 2 * om * M.pos(e, i, j).z; else { M.xy(e, i, j, X, Y); f = g.xz ? 0 : 2 * om * sin(g.reflat) + 2 * om * cos(g.reflat) / ph.GetEarthRadius() * (Y - 0.5 * (g.gd[3] - g.gd[2])); }
			E += w * (0.5L * (H - b) * dot(u, u) + 0.5L * G * (H * H - b * b)); a += w * (0.5L * (H - b) * dot(u, u) + 0.5L * G * (H * H + b * b)); double q = cu[M.group(e, i, j)] + f; Z += w * 0.5L * q * q / (H - b); wa += w * 0.5L * (sc + fabs(f)) * (sc + fabs(f)) / (H - b); }
		double got = S.pg->ComputeTotalEnergy(ix); c.check(fabsl(got - E) <= 1e-11L * a, "shallow-water energy differs from its definition", "%.15g, expected %.15Lg", got, E); double z = S.pg->ComputeTotalPotentialEnstrophy(ix); c.check(fabsl(z - Z) <= 1e-10L * wa, "potential enstrophy differs from its definition", "%.15g, expected %.15Lg (terms up to %.3Lg)", z, Z, wa); c.nontrivial(); return; }
	bool moving = false; S.each([&](GridPatchGLL * p, int i, int j) { V3 A, B, P; basisAt(S, p, i, j, A, B, P); DataArray4D<double> & st = p->GetDataState(ix, DataLocation_Node), & se = p->GetDataState(ix, DataLocation_REdge);
		auto kin = [&](double ua, double ub, double ux, double Ra, double Rb, double Rx, double & own) { double w = ux / Rx; V3 h = windOf(A, B, ua - w * Ra, ub - w * Rb), gr = windOf(A, B, Ra, Rb); own = ux * ux * (1 + dot(gr, gr)) / (Rx * Rx); return dot(h, h) + w * w; };
		for (int k = 0; k < g.nlev; k++) { double area = p->GetElementAreaNode()(i, j, k), rho = st(4, i, j, k), own, ux = st(3, i, j, k), K = kin(st(0, i, j, k), st(1, i, j, k), ux, p->GetDerivRNode()(i, j, k, 0), p->GetDerivRNode()(i, j, k, 1), p->GetDerivRNode()(i, j, k, 2), own); long double k2 = K; if (split) k2 = (long double)K - own; double pr = ph.GetP0() * pow(ph.GetR() * st(2, i, j, k) / ph.GetP0(), ph.GetCp() / ph.GetCv()), in = pr * ph.GetCv() / ph.GetR(), po = G * rho * p->GetZLevels()(i, j, k); E += area * (0.5L * rho * k2 + in + po); a += area * (0.5L * rho * (K + own) + fabs(in) + fabs(po)); W += area * rho * ux; wa += area * fabs(rho * ux); if (ux != 0) moving = true; }
		if (split) for (int k = 0; k <= g.nlev; k++) { double own, ux = se(3, i, j, k); kin(0, 0, ux, p->GetDerivRREdge()(i, j, k, 0), p->GetDerivRREdge()(i, j, k, 1), p->GetDerivRREdge()(i, j, k, 2), own); E += (long double)p->GetElementAreaREdge()(i, j, k) * 0.5L * se(4, i, j, k) * own; } });
	if (g.vm == "v1") { double got = S.pg->ComputeTotalEnergy(ix); c.check(fabsl(got - E) <= 1e-11L * a, "nonhydrostatic energy differs from its definition", "%.15g, expected %.15Lg", got, E); if (moving) c.cls("energy of vertical motion"); }
	double got = S.pg->ComputeTotalVerticalMomentum(ix); c.check(fabsl(got - W) <= 1e-11L * wa, "vertical momentum differs from its definition", "%.15g, expected %.15Lg", got, W); c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "fields", fields, 2 }, { "sums", sums, 2 }, { "energy", energy, 3 } }, [] { initMPI(); }); }
