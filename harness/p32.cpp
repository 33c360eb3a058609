// P32: absorbing layers relax each damped variable toward the reference by the amount the strength and the step imply, and touch nothing else.
#include "dyn.h"
using namespace pbt; using namespace mu;
struct Layer { int kind; double z0, z1, x0, x1, y0, y1, nu; bool sw;   // 0 upper layer, 1 lateral, 2 everywhere, 3 none
	double operator()(double z, double x, double y) const { if (kind == 3) return 0; if (kind == 2) return nu; double r = 0; if (kind == 0 || kind == 4) { double t = (z - z0) / (z1 - z0); if (t > 0) r = nu * sin(M_PI / 2 * std::min(t, 1.0)) * sin(M_PI / 2 * std::min(t, 1.0)); } if (kind == 1 || kind == 4) { double t = (x - x0) / (x1 - x0); if (t > 0) r = std::max(r, nu * t); if (y > y0) r = std::max(r, 0.5 * nu * (y - y0) / (y1 - y0)); } return r; } };
static Layer genLayer(Src & s, Ctx & c, Dyn & d) {
	Layer l; const Cfg & g = d.g; l.sw = g.sw; l.kind = (int)s.weighted({ 3, 3, 2, 1, 2 }); if (g.sw && (l.kind == 0 || l.kind == 4)) l.kind = 1; l.z1 = d.ztop; l.z0 = d.ztop * s.real(0, 0.9); double X0 = g.sphere ? 0 : g.gd[0], X1 = g.sphere ? 2 * M_PI : g.gd[1], Y0 = g.sphere ? -M_PI / 2 : g.gd[2], Y1 = g.sphere ? M_PI / 2 : g.gd[3];
	l.x1 = X1; l.x0 = X0 + (X1 - X0) * s.real(0.1, 0.8); l.y1 = Y1; l.y0 = Y0 + (Y1 - Y0) * s.real(0.1, 0.9); l.nu = s.logreal(1e-4, 30) / d.dt; static const char * K[] = { "upper", "lateral", "uniform", "zero", "upper and lateral" }; c.desc(" layer %s nu*dt %.4g", K[l.kind], l.nu * d.dt); c.cls(std::string("layer:") + K[l.kind]); return l;
}
// the sum of one friction update of a state, against the same operation without friction
static void once(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = { "strang" }; genDyn(s, c, d, o); genVisc(s, c, d); Cfg & g = d.g; int nc = g.sw ? 3 : 5; Layer L = genLayer(s, c, d); if (g.sw) g.useRef = true; bool withRef = g.sw ? s.coin() : g.useRef; double ua = s.sreal(20), ub = s.sreal(20);
	bool same = s.coin(1, 5); bool split = g.hvOrder == 4 && s.coin(1, 3); c.desc(" reference %d%s%s", withRef, same ? " state is the reference" : "", split ? " sub-steps" : "");
	std::unique_ptr<Sim> A(build(d)); { Dyn e = d; setCase(e); Case * tc = e.tc; tc->rayleigh = L; if (g.sw && withRef) tc->ref = [=](const PhysicalConstants &, double, double x, double y, double * S, double * Q) { S[0] = ua * (g.sphere ? cos(y) : 1); S[1] = g.sphere ? 0 : ub; S[2] = d.H0 * 1.1; if (Q) for (int t = 0; t < g.ntr; t++) Q[t] = 0; }; d.tc = tc; }
	std::unique_ptr<Sim> B(new Sim(g, d.tc)); double a = s.pick(std::vector<double>{ 0.01, 0.1 }); roughen(*B, s, 0, a, true); if (!g.sw) { double w0 = s.logreal(0.01, 10), w1 = s.real(1, 9); B->each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < B->nk(3); k++) B->data(p, 0, 3)(3, i, j, k) = w0 * sin(w1 * (p->GetLongitude()(i, j) + 2 * p->GetLatitude()(i, j)) + 1 + k); }); }
	auto ref = [&](GridPatchGLL * p, int q, int i, int j, int k) { return withRef ? (double)p->GetReferenceState(B->loc(q))(q, i, j, k) : 0.0; };
	if (same) { if (!withRef && !g.sw) { /* a reference of zero cannot be a density; compare with friction on variables at zero */ } B->each([&](GridPatchGLL * p, int i, int j) { for (int q = 0; q < nc; q++) { bool damped = g.sw || (q != 4 && !(g.xz && q == 1)); if (damped) for (int k = 0; k < B->nk(q); k++) B->data(p, 0, q)(q, i, j, k) = ref(p, q, i, j, k); } }); }
	for (int n = 0; n < A->nPatch(); n++) { GridPatchGLL * p = A->patch(n), * q = B->patch(n); for (int loc = 0; loc < 2; loc++) { DataLocation l = loc ? DataLocation_REdge : DataLocation_Node; DataArray4D<double> & x = p->GetDataState(0, l), & y = q->GetDataState(0, l); if (x.IsAttached()) for (size_t t = 0; t < x.GetTotalSize(); t++) (&x(0, 0, 0, 0))[t] = (&y(0, 0, 0, 0))[t]; } if (g.ntr) { DataArray4D<double> & x = p->GetDataTracers(0), & y = q->GetDataTracers(0); for (size_t t = 0; t < x.GetTotalSize(); t++) (&x(0, 0, 0, 0))[t] = (&y(0, 0, 0, 0))[t]; } }
	for (Sim * S : { A.get(), B.get() }) { HorizontalDynamics * H = S->m.GetHorizontalDynamics(); if (!split) H->StepAfterSubCycle(0, 1, 2, S->now(), d.dt); else { S->pg->CopyData(0, 1, DataType_State); S->pg->CopyData(0, 1, DataType_Tracers); for (int k = 0; k < H->GetSubStepAfterSubCycleCount(); k++) { int w = H->SubStepAfterSubCycle(0, 1, 2, S->now(), d.dt, k); if (k + 1 < H->GetSubStepAfterSubCycleCount()) { S->pg->PostProcessSubstage(w, DataType_State); S->pg->PostProcessSubstage(w, DataType_Tracers); } } } }
	int damped_ = 0, free_ = 0;
	for (int n = 0; n < A->nPatch(); n++) { GridPatchGLL * p = A->patch(n), * q = B->patch(n); const PatchBox & b = p->GetPatchBox(); for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
		for (int v = 0; v < nc; v++) { bool damp = g.sw || (v != 4 && !(g.xz && v == 1)); bool edge = B->loc(v) == DataLocation_REdge; double big = 0; for (int k = 0; k < B->nk(v); k++) big = std::max(big, fabs(A->data(p, 1, v)(v, i, j, k)));
			for (int k = 0; k < B->nk(v); k++) { double x = A->data(p, 1, v)(v, i, j, k), y = B->data(q, 1, v)(v, i, j, k), z = edge ? q->GetZInterfaces()(i, j, k) : q->GetZLevels()(i, j, k); /* strength of the place where the variable is kept */
				double nu = L(z, q->GetLongitude()(i, j), q->GetLatitude()(i, j)), r = ref(q, v, i, j, k);
				if (!damp || nu == 0) { c.check(x == y, damp ? "friction changes a place of zero strength" : "friction changes a variable that is not damped", "component %d level %d of %d: %.17g, without friction %.17g", v, k, B->nk(v), y, x); free_++; continue; }
				double sc = fabs(x) + fabs(r), lo = exp(-nu * d.dt), hi = 1 / (1 + nu * d.dt); if (fabs(x - r) <= 1e-9 * sc) { c.check(fabs(y - r) <= fabs(x - r) + 1e-14 * sc, "friction moves a state away from the reference", "component %d level %d: %.17g reference %.17g -> %.17g", v, k, x, r, y); continue; }
				double f = (y - r) / (x - r), e = 1e-14 * sc / fabs(x - r) + 1e-13; damped_++;
				c.check(f >= lo - e && f <= hi + e, "friction moves a variable by the wrong amount", "component %d level %d of %d strength %.6g: distance to the reference times %.10g, expected %.10g..%.10g", v, k, B->nk(v), nu * d.dt, f, lo, hi); } }
		for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) c.check(p->GetDataTracers(1)(t, i, j, k) == q->GetDataTracers(1)(t, i, j, k), "friction changes a tracer", "tracer %d level %d", t, k); } }
	if (damped_ && free_) c.cls("damped and free values"); if (damped_ || L.kind == 3 || same) c.nontrivial();
}
// whole steps: uniform flow over flat ground decays level by level as the layer says, whatever the time scheme
static void steps(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.walls = false; o.topo = false; o.domain = 0; o.model = s.coin(1, 4) ? 0 : 1; o.schemes = { "strang", "strang/rk4", "strang/kgu35", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332", "erk" }; genDyn(s, c, d, o); Cfg & g = d.g; d.omega = 0; d.amp = 0; d.U = 0; if (g.scheme == "erk" && !g.sw) g.scheme = "strang"; g.ntr = 0; Layer L = genLayer(s, c, d); if (L.kind == 1 || L.kind == 4) L.kind = g.sw ? 2 : 0; double k0 = s.real(1, 20), k1 = s.coin() ? 0 : s.sreal(20); L.nu = std::min(L.nu, 3 / d.dt); int n = (int)s.irange(1, 3); c.desc(" uniform flow %.4g,%.4g %d steps", k0, k1, n);
	setCase(d); Dyn e = d; d.tc->state = [=](const PhysicalConstants & p, double z, double, double, double * S, double *) { double f = 1 + 0.5 * z / e.ztop, th, rho; S[0] = k0 * f; S[1] = k1 * f; if (g.sw) { S[2] = e.H0; return; } background(e, p, z, th, rho); S[2] = th; S[3] = 0; S[4] = rho; };
	d.tc->ref = [=](const PhysicalConstants & p, double z, double, double, double * S, double *) { double th, rho; S[0] = S[1] = 0; if (g.sw) { S[2] = e.H0; return; } background(e, p, z, th, rho); S[2] = th; S[3] = 0; S[4] = rho; };
	if (!g.sw) { g.useRef = true; g.nlev = std::max(g.nlev, 4 * g.vo); g.stretch = "uniform"; d.dt = std::min(d.dt, 5.0); } Case * plain = new Case(*d.tc); Sim A(g, plain); d.tc->rayleigh = L; Sim B(g, d.tc); std::vector<double> u0 = dump(B, 0, false);
	for (int k = 0; k < n; k++) { A.step(d.dt, false); B.step(d.dt, false); } u0 = dump(A, 0, false); c.cls("scheme:" + g.scheme); size_t at = 0; bool any = false;
	for (int q = 0; q < 2; q++) B.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < g.nlev; k++) { double x = u0[at++], y = B.data(p, 0, q)(q, i, j, k), nu = L(p->GetZLevels()(i, j, k), p->GetLongitude()(i, j), p->GetLatitude()(i, j)) * d.dt; double lo = exp(-nu * n), hi = pow(1 + nu, -n), sc = fabs(k0) + fabs(k1), tol = 0.01 * sc;
		c.check(y >= std::min(x * lo, x * hi) - tol && y <= std::max(x * lo, x * hi) + tol, "whole steps damp by the wrong amount", "component %d level %d: %.8g -> %.8g, factor %.6g, expected %.6g..%.6g", q, k, x, y, y / x, lo, hi); if (nu > 0.1) any = true; } });
	if (any || L.kind == 3) c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "once", once, 3 }, { "steps", steps, 1 } }, [] { initMPI(); }); }
