// P17: tracers: uniform ratios, independence, linearity, no influence on the flow.
#include "dyn.h"
using namespace pbt; using namespace mu;
static const std::vector<std::string> SCH = { "strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk", "erk/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332" };
static void gen(Src & s, Ctx & c, Dyn & d, int nt) { DynOpt o; o.schemes = SCH; genDyn(s, c, d, o); genVisc(s, c, d); d.g.ntr = nt; if (!d.g.sw) { d.g.expl = s.coin(1, 8); if (d.g.expl) { c.cls("explicit vertical"); d.dt = std::min(d.dt, 0.05 * d.ztop / d.g.nlev / d.g.vo / 350); c.desc(" explicit vertical dt %.3g", d.dt); } } }
static bool advance(Ctx & c, Sim & S, double dt, int n) { for (int k = 0; k < n; k++) if (!stepOk(S, dt)) { c.cls("not integrable"); c.discard(); return false; } return true; }

static void uniform(Src & s, Ctx & c) {
	Dyn d; gen(s, c, d, (int)s.irange(1, 3)); int n = (int)s.irange(1, 4);
	if (d.g.sw && d.hasTopo) d.g.nuS = 0;   /* the height of the surface is diffused, not the depth */
	double ra = s.coin() ? s.pick(std::vector<double>{ 0.001, 0.01 }) : 0; c.desc(" rough %g", ra);
	std::vector<double> q; d.mix.assign(d.g.ntr, std::vector<double>(5, 0)); for (int t = 0; t < d.g.ntr; t++) { q.push_back(s.logreal(1e-8, 10)); d.mix[t][4] = q[t]; }
	std::unique_ptr<Sim> S(build(d)); int R = d.g.sw ? 2 : 4;
	if (ra > 0) { roughen(*S, s, 0, ra, false); S->each([&](GridPatchGLL * p, int i, int j) { for (int t = 0; t < d.g.ntr; t++) for (int k = 0; k < d.g.nlev; k++) p->GetDataTracers(0)(t, i, j, k) = q[t] * (p->GetDataState(0, DataLocation_Node)(R, i, j, k) - (d.g.sw ? p->GetTopography()(i, j) : 0)); }); }
	advance(c, *S, d.dt, n);
	for (int t = 0; t < d.g.ntr; t++) { double lo, hi; ratioRange(*S, 0, t, lo, hi); double tol = d.g.sw ? 1e-12 : d.g.scheme == "ark232" ? 1e-7 : 1e-8;   // rounding of long implicit steps; ark232 steps the stiff terms explicitly in its first stage
		 c.check(fabs(lo / q[t] - 1) <= tol && fabs(hi / q[t] - 1) <= tol, "a uniform mixing ratio does not stay uniform", "tracer %d of ratio %.17g after %d steps: between %.17g and %.17g", t, q[t], n, lo, hi); }
	if (d.U > 0 || ra > 0 || d.amp > 0) c.nontrivial();
}
static std::vector<double> flow(Sim & S) { std::vector<double> r; int nc = S.g.sw ? 3 : 5; S.each([&](GridPatchGLL * p, int i, int j) { for (int q = 0; q < nc; q++) for (int k = 0; k < S.nk(q); k++) r.push_back(S.data(p, 0, q)(q, i, j, k)); }); return r; }
static std::vector<double> tr(Sim & S, int t) { std::vector<double> r; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S.g.nlev; k++) r.push_back(p->GetDataTracers(0)(t, i, j, k)); }); return r; }
static bool same(const std::vector<double> & a, const std::vector<double> & b, double f, size_t & w) { for (w = 0; w < a.size(); w++) if (!(a[w] * f == b[w])) return false; return a.size() == b.size(); }
static void independent(Src & s, Ctx & c) {
	Dyn d; gen(s, c, d, 1); int n = (int)s.irange(1, 3), na = (int)s.irange(1, 3); Dyn e = d; d.g.ntr = na; d.mix.assign(na, std::vector<double>(5, 0));
	for (auto & m : d.mix) for (int b = 0; b < 5; b++) if (s.coin(2, 5)) m[b] = s.real(-0.2, 1); 
	std::vector<int> from; std::vector<double> fac; int nb = (int)s.irange(0, 4); e.g.ntr = nb; for (int t = 0; t < nb; t++) { from.push_back((int)s.draw(na - 1)); fac.push_back(ldexp(1, (int)s.irange(-6, 6))); e.mix.push_back(d.mix[from[t]]); for (auto & v : e.mix.back()) v *= fac[t]; }
	c.desc(" first %d tracers, second %d", na, nb);
	std::unique_ptr<Sim> A(build(d)); advance(c, *A, d.dt, n); std::unique_ptr<Sim> B(build(e)); advance(c, *B, d.dt, n);
	size_t w; auto fa = flow(*A), fb = flow(*B); bool ok = same(fa, fb, 1, w); c.check(ok, "tracers influence the flow", "value %zu differs: %.17g with %d tracers, %.17g with %d", w, w < fa.size() ? fa[w] : 0, na, w < fb.size() ? fb[w] : 0, nb);
	for (int t = 0; t < nb; t++) { auto x = tr(*A, from[t]), y = tr(*B, t); ok = same(x, y, fac[t], w); c.check(ok, "a tracer depends on other tracers, its position or its amount", "tracer %d (scaled by %g) as tracer %d: value %zu is %.17g instead of %.17g", from[t], fac[t], t, w, w < y.size() ? y[w] : 0, w < x.size() ? x[w] * fac[t] : 0); }
	if (d.U > 0 || d.amp > 0) c.nontrivial();
}
static void linear(Src & s, Ctx & c) {
	Dyn d; gen(s, c, d, 3); int n = (int)s.irange(1, 3); d.mix.assign(3, std::vector<double>(5, 0)); double al = s.real(0.1, 2), be = s.real(0.1, 2); d.mix[0][0] = 1; d.mix[1][1] = 1; d.mix[1][4] = s.real(0, 1); for (int b = 0; b < 5; b++) d.mix[2][b] = al * d.mix[0][b] + be * d.mix[1][b];
	std::unique_ptr<Sim> S(build(d)); double lo, hi, l0[3]; for (int t = 0; t < 3; t++) ratioRange(*S, 0, t, l0[t], hi);
	advance(c, *S, d.dt, n); for (int t = 0; t < 3; t++) { ratioRange(*S, 0, t, lo, hi); if (lo < 0.7 * l0[t]) { c.cls("tracer may have been filtered"); c.discard(); return; } }
	auto a = tr(*S, 0), b = tr(*S, 1), r = tr(*S, 2); double sc = 0, er = 0; size_t w = 0; for (size_t i = 0; i < a.size(); i++) { sc = std::max(sc, fabs(r[i])); double x = fabs(al * a[i] + be * b[i] - r[i]); if (x > er) { er = x; w = i; } }
	c.check(er <= 1e-11 * sc, "transport is not linear in the tracer", "value %zu: %.17g of the combination, %.17g combined (scale %g)", w, r[w], al * a[w] + be * b[w], sc);
	if (d.U > 0 || d.amp > 0) c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "uniform", uniform, 3 }, { "independent", independent, 2 }, { "linear", linear, 1 } }, [] { initMPI(); }); }
