// P16: mass and tracer mass are conserved by every part of a time step.
#include "dyn.h"
using namespace pbt; using namespace mu;
static const std::vector<std::string> SCH = { "strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk", "erk/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332" };
static const double TOLM1 = 1e-10, TOL = 1e-12;   // the implicit solve of method v1 rounds in mass; everything else cancels term by term

static void steps(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = SCH; genDyn(s, c, d, o); genVisc(s, c, d); int n = (int)s.irange(1, 3), M = d.g.sw ? 2 : 4;
	std::unique_ptr<Sim> S(build(d)); double a, m0, q0[4], qa[4], lo[4], hi[4]; total(*S, 0, M, 0, m0, a); for (int t = 0; t < d.g.ntr; t++) { total(*S, 0, -1, t, q0[t], qa[t]); ratioRange(*S, 0, t, lo[t], hi[t]); }
	double tm = !d.g.sw && d.g.vm == "v1" ? TOLM1 : TOL; bool sane[4] = { true, true, true, true };
	for (int k = 0; k < n; k++) {
		if (!stepOk(*S, d.dt)) { c.cls("not integrable"); c.discard(); return; }
		double m, b; total(*S, 0, M, 0, m, b); c.check(fabs(m - m0) <= tm * a, "mass changes in a step", "step %d: mass %.17g -> %.17g (relative %.2e)", k + 1, m0, m, (m - m0) / a);
		for (int t = 0; t < d.g.ntr; t++) { double l, h; ratioRange(*S, 0, t, l, h); double w = hi[t] - lo[t] + 0.5 * fabs(d.qc[t]); if (l <= 0 || h > hi[t] + w) sane[t] = false; if (!sane[t]) { c.cls("tracer filtered"); continue; }
			total(*S, 0, -1, t, m, b); c.check(fabs(m - q0[t]) <= TOL * qa[t], "tracer mass changes in a step", "step %d tracer %d: %.17g -> %.17g (relative %.2e)", k + 1, t, q0[t], m, (m - q0[t]) / qa[t]); }
	}
	if (d.U > 0 || d.amp > 0 || d.hasTopo) c.nontrivial();
}
// each operation of a step on a rough (only continuous) state
static void parts(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = { "strang" }; genDyn(s, c, d, o); genVisc(s, c, d, s.coin(2, 3)); double ra = s.pick(std::vector<double>{ 0.001, 0.01, 0.05 }); c.desc(" rough %g", ra); int M = d.g.sw ? 2 : 4, op = (int)s.draw(d.g.sw ? 1 : 3);
	std::unique_ptr<Sim> S(build(d)); Grid * G = S->pg; roughen(*S, s, 0, ra, true); double a, m0, q0[4], qa[4]; total(*S, 0, M, 0, m0, a); for (int t = 0; t < d.g.ntr; t++) total(*S, 0, -1, t, q0[t], qa[t]);
	static const char * NM[] = { "horizontal step", "diffusion", "explicit vertical step", "implicit vertical step" }; c.desc(" %s", NM[op]); c.cls(NM[op]);
	double dt = d.dt * (op == 0 ? 1 : 0.2); G->CopyData(0, 1, DataType_State); G->CopyData(0, 1, DataType_Tracers); int at = 1;
	if (op == 0) { S->m.GetHorizontalDynamics()->StepExplicit(0, 1, S->now(), dt); G->PostProcessSubstage(1, DataType_State); G->PostProcessSubstage(1, DataType_Tracers); }
	if (op == 1) { S->m.GetHorizontalDynamics()->StepAfterSubCycle(0, 1, 2, S->now(), d.dt); }
	if (op == 2) S->m.GetVerticalDynamics()->StepExplicit(0, 1, S->now(), dt);
	if (op == 3) { try { S->m.GetVerticalDynamics()->StepImplicit(1, 1, S->now(), dt); } catch (Exception & e) { c.cls("not integrable"); c.discard(); return; } }
	if (!finite(*S, at)) { c.cls("not integrable"); c.discard(); return; }
	double tm = op == 3 && d.g.vm == "v1" ? TOLM1 : TOL, m, b; total(*S, at, M, 0, m, b); a = std::max(a, b);
	c.check(fabs(m - m0) <= tm * a, pbt::fmt("mass changes in the %s", NM[op]).c_str(), "mass %.17g -> %.17g (relative %.2e)", m0, m, (m - m0) / a);
	for (int t = 0; t < d.g.ntr; t++) { total(*S, at, -1, t, m, b); b = std::max(b, qa[t]); double l, h; ratioRange(*S, at, t, l, h); if (l <= 0) { c.cls("tracer filtered"); continue; }
		c.check(fabs(m - q0[t]) <= TOL * b, pbt::fmt("tracer mass changes in the %s", NM[op]).c_str(), "tracer %d: %.17g -> %.17g (relative %.2e)", t, q0[t], m, (m - q0[t]) / b); }
	c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "steps", steps, 3 }, { "parts", parts, 3 } }, [] { initMPI(); }); }
