// P18: the tracer filter removes negative values without changing mass, and leaves non-negative fields alone.
#include "dyn.h"
#include <array>
#include <map>
using namespace pbt; using namespace mu;
// sharp non-negative tracers: smooth blobs, isolated spikes and zeros, continuous over element edges
static void sharp(Sim & S, Src & s, int ix, int nt, double zeros) {
	int R = S.g.sw ? 2 : 4, kind = (int)s.draw(2); double cut = s.sreal(0.5); Field f; f.gen(s, S.g, 2); uint64_t z = s.draw(0xffffff) * 2654435761ull + 99; auto U = [&]() { z = z * 6364136223846793005ull + 1442695040888963407ull; return (z >> 33) / 2147483648.0; };
	int k0 = (int)s.draw(S.g.nlev - 1), k1 = (int)s.irange(k0, S.g.nlev - 1);
	S.each([&](GridPatchGLL * p, int i, int j) { double x = p->GetLongitude()(i, j), y = p->GetLatitude()(i, j), v = f(x, y);
		for (int t = 0; t < nt; t++) for (int k = 0; k < S.g.nlev; k++) { double r = p->GetDataState(ix, DataLocation_Node)(R, i, j, k) - (S.g.sw ? p->GetTopography()(i, j) : 0), q = kind == 0 ? (v > cut && k >= k0 && k <= k1 ? v - cut + 0.1 : 0) : U() < zeros ? 0 : U(); if (kind == 2 && !(k >= k0 && k <= k1)) q = 0; p->GetDataTracers(ix)(t, i, j, k) = r * q; } });
	if (kind) S.pg->PostProcessSubstage(ix, DataType_Tracers);
}
static double maxAbs(Sim & S, int ix, int t) { double m = 0; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S.g.nlev; k++) m = std::max(m, fabs(p->GetDataTracers(ix)(t, i, j, k))); }); return m; }
static double minVal(Sim & S, int ix, int t) { double m = 1e300; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S.g.nlev; k++) m = std::min(m, p->GetDataTracers(ix)(t, i, j, k)); }); return m; }

// one operation with tracer 0 = q and tracer 1 = q plus a multiple of density: the difference tells what the operation did before filtering
static void ops(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = { "strang" }; genDyn(s, c, d, o); genVisc(s, c, d, true); d.g.ntr = 2; if (d.U == 0) d.U = 10; if (d.g.sw && d.hasTopo) d.g.nuS = 0;
	int op = (int)s.draw(d.g.sw ? 1 : 2); static const char * NM[] = { "horizontal step", "diffusion", "implicit vertical step" }; c.desc(" %s", NM[op]); c.cls(NM[op]); if (op == 1) d.g.hvOrder = 4;
	double f = s.pick(std::vector<double>{ 1, 4, 16 }), dt = d.dt * f; if (op == 2) dt = std::min(dt, 40.0); c.desc(" times %g", f);
	std::unique_ptr<Sim> S(build(d)); Grid * G = S->pg; int R = d.g.sw ? 2 : 4, L = d.g.nlev;
	double zr = s.real(0, 0.95); sharp(*S, s, 0, 1, zr); c.desc(" zeros %.2f", zr); double C = 0; 
	auto rho = [&](GridPatchGLL * p, int ix, int i, int j, int k) { return p->GetDataState(ix, DataLocation_Node)(R, i, j, k) - (d.g.sw ? p->GetTopography()(i, j) : 0); };
	S->each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < L; k++) C = std::max(C, p->GetDataTracers(0)(0, i, j, k) / rho(p, 0, i, j, k)); }); C = 4 * C + 1e-3;
	if (op == 2 && s.coin()) { S->each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S->nk(3); k++) { double z = S->loc(3) == DataLocation_REdge ? p->GetZInterfaces()(i, j, k) : p->GetZLevels()(i, j, k); S->data(p, 0, 3)(3, i, j, k) += 20 * sin(M_PI * z / d.ztop) * (k > 0 && k < L) * (d.g.vm == "v1" ? p->GetDerivRREdge()(i, j, k, 2) : 1); } }); c.desc(" rising"); c.cls("rising"); }
	S->each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < L; k++) p->GetDataTracers(0)(1, i, j, k) = p->GetDataTracers(0)(0, i, j, k) + C * rho(p, 0, i, j, k); });
	G->CopyData(0, 1, DataType_State); G->CopyData(0, 1, DataType_Tracers); HorizontalDynamics * H = S->m.GetHorizontalDynamics();
	if (op == 0) H->StepExplicit(0, 1, S->now(), dt);
	else if (op == 1) { int w = H->SubStepAfterSubCycle(0, 1, 2, S->now(), dt, 0); G->PostProcessSubstage(w, DataType_State); G->PostProcessSubstage(w, DataType_Tracers); H->SubStepAfterSubCycle(0, 1, 2, S->now(), dt, 1); }
	else { try { S->m.GetVerticalDynamics()->StepImplicit(1, 1, S->now(), dt); } catch (Exception & e) { c.cls("not integrable"); c.discard(); return; } }
	if (!finite(*S, 1) || minDepth(*S, 1) < 0.2 * minDepth(*S, 0)) { c.cls("not integrable"); c.discard(); return; }
	if (!(minVal(*S, 1, 1) > 0)) { c.cls("step too long"); c.discard(); return; }
	double big = maxAbs(*S, 1, 1), eps = big * (op == 2 ? 1e-7 : 1e-12); long acted = 0, bad = 0, groups = 0; int h = 1, n = d.g.ho; std::string first; bool xz = d.g.xz;
	// groups: the nodes of one element on one level, or of one column
	std::map<std::array<long, 4>, std::vector<std::array<double, 3>>> gr; // filtered, unfiltered, weight
	S->each([&](GridPatchGLL * p, int i, int j) { int pi = p->GetPatchIndex(); for (int k = 0; k < L; k++) { double a = p->GetDataTracers(1)(0, i, j, k), b = p->GetDataTracers(1)(1, i, j, k) - C * rho(p, 1, i, j, k), w = p->GetElementAreaNode()(i, j, k); std::array<long, 4> key = op == 2 ? std::array<long, 4>{ pi, i, j, 0 } : std::array<long, 4>{ pi, (i - h) / n, (j - h) / n, k }; gr[key].push_back({ a, b, w }); } });
	(void)xz;
	for (auto & g : gr) { double m = 0, u = 0, W = 0, lo = 1e300, ul = 1e300, df = 0; groups++; for (auto & e : g.second) { m += e[0] * e[2]; u += e[1] * e[2]; W += e[2]; lo = std::min(lo, e[0]); ul = std::min(ul, e[1]); df = std::max(df, fabs(e[0] - e[1])); }
		if (ul < -eps) acted++; auto K = g.first;
		if (u < -eps * W) { c.cls("group emptied beyond zero"); continue; }   // no non-negative field has that mass
		c.check(fabs(m - u) <= eps * W, pbt::fmt("filter changes mass in the %s", NM[op]).c_str(), "patch %ld group %ld,%ld,%ld: mass %.10g, unfiltered %.10g (largest value %.3g)", K[0], K[1], K[2], K[3], m / W, u / W, big);
		c.check(lo >= -eps, pbt::fmt("negative tracer after the %s", NM[op]).c_str(), "patch %ld group %ld,%ld,%ld: %.6g (unfiltered lowest %.6g, mean %.6g)", K[0], K[1], K[2], K[3], lo, ul, u / W);
		if (ul >= 0) c.check(df <= eps, pbt::fmt("filter changes a non-negative tracer in the %s", NM[op]).c_str(), "patch %ld group %ld,%ld,%ld: by %.6g of %.3g", K[0], K[1], K[2], K[3], df, big); }
	(void)bad; if (acted) { c.nontrivial(); c.cls("filter acted"); }
}
// whole operations that average at element edges, and whole steps
static void steps(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = { "strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk", "erk/ssprk53" }; genDyn(s, c, d, o); genVisc(s, c, d); d.g.ntr = 1 + (int)s.draw(1); if (d.U == 0) d.U = 10; bool diff = s.coin(1, 3) && d.g.hvOrder;
	if (d.g.sw && d.hasTopo) d.g.nuS = 0; c.desc(diff ? " diffusion only" : ""); c.cls(diff ? "diffusion only" : "steps");
	std::unique_ptr<Sim> S(build(d)); double zr = s.real(0, 0.95); sharp(*S, s, 0, d.g.ntr, zr); c.desc(" zeros %.2f", zr); double m0[4], a[4], m, b; for (int t = 0; t < d.g.ntr; t++) total(*S, 0, -1, t, m0[t], a[t]);
	int n = diff ? 1 : (int)s.irange(1, 3), at = diff ? 1 : 0; bool split = d.g.scheme.find("strang") == 0 || d.g.scheme.find("erk") == 0; double scale = 0; for (int t = 0; t < d.g.ntr; t++) scale = std::max(scale, maxAbs(*S, 0, t));
	for (int k = 0; k < n; k++) {
		if (diff) S->m.GetHorizontalDynamics()->StepAfterSubCycle(0, 1, 2, S->now(), d.dt); else if (!stepOk(*S, d.dt)) { c.cls("not integrable"); c.discard(); return; }
		for (int t = 0; t < d.g.ntr; t++) { total(*S, at, -1, t, m, b); c.check(fabs(m - m0[t]) <= 1e-12 * a[t], diff ? "filtered diffusion changes tracer mass" : "filtered step changes tracer mass", "step %d tracer %d: %.17g -> %.17g (relative %.2e)", k + 1, t, m0[t], m, (m - m0[t]) / a[t]);
			double lo = minVal(*S, at, t); if (diff || split) { c.check(lo >= -1e-12 * scale, diff ? "negative tracer after diffusion" : "negative tracer after a step", "step %d tracer %d: %.6g (largest %.4g)", k + 1, t, lo, scale); } if (a[t] > 0) c.nontrivial(); }
	}
}
int main(int argc, char ** argv) { return run(argc, argv, { { "ops", ops, 3 }, { "steps", steps, 2 } }, [] { initMPI(); }); }
