// P23: the implicit vertical solve satisfies the vertical equations it stands for, and touches nothing else.
#include "dyn.h"
#include <array>
using namespace pbt; using namespace mu;
static const int VC[] = { 2, 3, 4 };   // heat content, vertical velocity, density
// a state off balance: smooth fields plus vertical motion that vanishes at the ground and the top
static void stir(Sim & S, Src & s, double w0, double amp, bool rough) {
	double ph[4]; for (double & x : ph) x = s.real(0, 6.28); int m = (int)s.irange(1, 3); double zt = S.pg->GetZtop(); uint64_t h0 = s.draw(1000000); int n = -1;
	S.each([&](GridPatchGLL * p, int i, int j) { n++; V3 A, B, P; basisAt(S, p, i, j, A, B, P); double q = S.g.sphere ? 3 * P.x + 2 * P.y + P.z : 6.28 * (P.x - S.g.gd[0]) / (S.g.gd[1] - S.g.gd[0]) + (S.g.xz ? 0 : 6.28 * (P.y - S.g.gd[2]) / (S.g.gd[3] - S.g.gd[2])); double topo = p->GetTopography()(i, j);
		for (int e = 0; e < 2; e++) { auto & D = e ? p->GetDataState(0, DataLocation_REdge) : p->GetDataState(0, DataLocation_Node); auto & Z = e ? p->GetZInterfaces() : p->GetZLevels(); auto & R = e ? p->GetDerivRREdge() : p->GetDerivRNode(); for (int k = 0; k < S.g.nlev + e; k++) { double eta = (Z(i, j, k) - topo) / (zt - topo); double r = 0; if (rough) { uint64_t h = (h0 + (uint64_t)(k + 64 * e) * 2654435761u) * 0x9E3779B97F4A7C15ull; r = ((h >> 40) % 2001) / 1000.0 - 1; } double v = w0 * sin(M_PI * m * eta) * (cos(q + ph[0]) + 0.5 * r); if (e && (k == 0 || k == S.g.nlev)) v = 0; D(3, i, j, k) = S.g.vm == "v1" ? v * R(i, j, k, 2) : v; D(2, i, j, k) *= 1 + amp * (cos(q + ph[1] + 3 * eta) + 0.3 * r); D(4, i, j, k) *= 1 + amp * (cos(q + ph[2] + 2 * eta)); } } });
	(void)n;
}
typedef std::vector<double> Vec;
static Vec grab(Sim & S, int ix, int c) { Vec v; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S.nk(c); k++) v.push_back(S.data(p, ix, c)(c, i, j, k)); }); return v; }
static Vec grabT(Sim & S, int ix, int t) { Vec v; S.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < S.g.nlev; k++) v.push_back(p->GetDataTracers(ix)(t, i, j, k)); }); return v; }
static double nrm(const Vec & a, const Vec & b, double f = 1) { long double s = 0; for (size_t i = 0; i < a.size(); i++) { double d = a[i] - f * b[i]; s += (long double)d * d; } return sqrt((double)(s / std::max<size_t>(1, a.size()))); }
static Vec diff(const Vec & a, const Vec & b, double f) { Vec r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = (a[i] - b[i]) * f; return r; }
static Vec zero(const Vec & a) { return Vec(a.size(), 0.0); }
static void imp(Sim & S, double dt) { S.pg->CopyData(0, 1, DataType_State); S.pg->CopyData(0, 1, DataType_Tracers); S.m.GetVerticalDynamics()->StepImplicit(1, 1, S.now(), dt); S.pg->PostProcessSubstage(1, DataType_State); if (S.g.ntr) S.pg->PostProcessSubstage(1, DataType_Tracers); }
static void exq(Sim & S, int from, int to, double dt) { S.pg->CopyData(from, to, DataType_State); S.pg->CopyData(from, to, DataType_Tracers); S.m.GetVerticalDynamics()->StepExplicit(from, to, S.now(), dt); S.pg->PostProcessSubstage(to, DataType_State); if (S.g.ntr) S.pg->PostProcessSubstage(to, DataType_Tracers); }
static void copyState(Sim & A, int ia, Sim & B, int ib) { for (int n = 0; n < A.nPatch(); n++) { GridPatch * p = A.patch(n), * q = B.patch(n); for (DataLocation l : { DataLocation_Node, DataLocation_REdge }) { auto & x = p->GetDataState(ia, l); auto & y = q->GetDataState(ib, l); for (size_t c = 0; c < x.GetSize(0); c++) for (size_t i = 0; i < x.GetSize(1); i++) for (size_t j = 0; j < x.GetSize(2); j++) for (size_t k = 0; k < x.GetSize(3); k++) y(c, i, j, k) = x(c, i, j, k); } auto & x = p->GetDataTracers(ia); auto & y = q->GetDataTracers(ib); for (size_t c = 0; c < x.GetSize(0); c++) for (size_t i = 0; i < x.GetSize(1); i++) for (size_t j = 0; j < x.GetSize(2); j++) for (size_t k = 0; k < x.GetSize(3); k++) y(c, i, j, k) = x(c, i, j, k); } }
static void gen(Src & s, Ctx & c, Dyn & d) { DynOpt o; o.model = 1; o.schemes = { "strang" }; o.np = 0; genDyn(s, c, d, o); Cfg & g = d.g; if (g.sphere) { g.ne = (int)s.irange(1, 2); g.np = 6; } else { g.nx = std::min(g.nx, 2); g.ny = std::min(g.ny, 2); g.np = 1; } if (g.hm == "v2") d.hasTopo = false; for (int & b : g.bc) if (b == 2) b = 1; /* no-slip walls hold W at zero themselves */ }
static double advDt(const Dyn & d) { return d.ztop / d.g.nlev / 350; }   // time sound takes across a level
static void smallStep(Src & s, Ctx & c) {
	Dyn d; gen(s, c, d); Cfg & g = d.g; double w0 = s.pick(std::vector<double>{ 1, 0.1, 5 }), amp = s.pick(std::vector<double>{ 1e-3, 1e-4, 1e-2 }); bool rough = s.coin(); double f = s.pick(std::vector<double>{ 0.005, 0.001, 0.02 }), sharp = g.vo; double dt = f * advDt(d) / (sharp * sharp); c.desc(" w %g amp %g rough %d dt %g", w0, amp, rough, dt);
	setCase(d); Case plain = *d.tc; Sim S(g, d.tc); Cfg h = g; h.expl = true; Sim E(h, new Case(plain)); stir(S, s, w0, amp, rough); S.pg->PostProcessSubstage(0, DataType_State); copyState(S, 0, E, 0); exq(E, 0, 1, dt);
	std::vector<Vec> G, D1, D2, base; for (int v : VC) { base.push_back(grab(S, 0, v)); G.push_back(diff(grab(E, 1, v), grab(E, 0, v), 1 / dt)); } for (int t = 0; t < g.ntr; t++) { base.push_back(grabT(S, 0, t)); G.push_back(diff(grabT(E, 1, t), grabT(E, 0, t), 1 / dt)); }
	for (int q = 0; q < 2; q++) { double t = q ? dt / 8 : dt; imp(S, t); auto & D = q ? D2 : D1; for (int v : VC) D.push_back(diff(grab(S, 1, v), grab(S, 0, v), 1 / t)); for (int r = 0; r < g.ntr; r++) D.push_back(diff(grabT(S, 1, r), grabT(S, 0, r), 1 / t)); }
	for (size_t v = 0; v < G.size(); v++) { double a = nrm(D1[v], G[v]), b = nrm(D2[v], G[v]), sc = nrm(G[v], zero(G[v])), noise = 4e-12 * nrm(base[v], zero(base[v])) / dt; const char * nm = v == 0 ? "heat" : v == 1 ? "vertical velocity" : v == 2 ? "density" : "tracer"; if (getenv("P23V")) fprintf(stderr, "P23S %s %.3e %.3e ratio %.2f noise %.1e %s vo %d %s %s%s\n", nm, a / sc, b / sc, a / b, noise / sc, g.vm.c_str(), g.vo, g.disc ? "FV" : "FE", g.stretch.c_str(), d.hasTopo ? " topo" : "");
		c.check(b <= noise + 1e-6 * sc || b <= 1e-3 * sc || b <= 0.3 * a + 8 * noise, pbt::fmt("implicit %s update differs from the explicit one for small steps", nm).c_str(), "relative %.4g at dt %g, %.4g at an eighth (noise %.3g)", a / sc, dt, b / sc, noise / sc); }
	c.nontrivial();
}
static void residual(Src & s, Ctx & c) {
	Dyn d; gen(s, c, d); Cfg & g = d.g; d.amp = 0; d.U = 0; double amp = s.pick(std::vector<double>{ 1e-4, 1e-3 }), w0 = 350 * amp * s.real(0, 1); bool rough = s.coin(); double dt = s.logreal(0.3, 20) * advDt(d); c.desc(" w %g amp %g rough %d dt %g", w0, amp, rough, dt);
	setCase(d); Case plain = *d.tc; Sim S(g, d.tc); Cfg h = g; h.expl = true; Sim E(h, new Case(plain)); S.pg->PostProcessSubstage(0, DataType_State);
	for (int q = 0; q < 40; q++) { imp(S, 20 * advDt(d)); S.pg->CopyData(1, 0, DataType_State); }   // settles into the discrete equilibrium
	S.pg->CopyData(0, 2, DataType_State); Src keep = s; double rel[2][5], noi[5] = { 0 };
	for (int q = 0; q < 2; q++) { S.pg->CopyData(2, 0, DataType_State); Src t = keep; stir(S, t, q ? w0 / 4 : w0, q ? amp / 4 : amp, rough); S.pg->PostProcessSubstage(0, DataType_State); imp(S, dt); copyState(S, 1, E, 0); exq(E, 0, 1, dt);
	for (int v : VC) { Vec x0 = grab(S, 0, v), x1 = grab(S, 1, v), g1 = diff(grab(E, 1, v), grab(E, 0, v), 1), D = diff(x1, x0, 1); double r = nrm(D, g1), sc = nrm(D, zero(D)) + nrm(g1, zero(g1)), noise = 1e-11 * nrm(x0, zero(x0)); const char * nm = v == 2 ? "heat" : v == 3 ? "vertical velocity" : "density"; rel[q][v] = r / sc; noi[v] = noise / sc; if (getenv("P23V")) fprintf(stderr, "P23R %d %s %.3e noise %.1e cfl %.2g amp %g %s vo %d %s %s%s ref %d rough %d w %g xz %d wall %d %d nl %d sph %d expl\n", q, nm, r / sc, noise / sc, dt / advDt(d), amp, g.vm.c_str(), g.vo, g.disc ? "FV" : "FE", g.stretch.c_str(), d.hasTopo ? " topo" : "", g.useRef, rough, w0, g.xz, g.bc[0], g.bc[1], g.nlev, g.sphere); } }
	for (int v : VC) { if (g.vm == "v1" && v != 3) continue; const char * nm = v == 2 ? "heat" : v == 3 ? "vertical velocity" : "density"; c.check(rel[1][v] <= 0.4 * rel[0][v] + noi[v], pbt::fmt("implicit %s update does not solve its equation", nm).c_str(), "residual relative to the change %.4g for amplitude %g, %.4g for a quarter of it", rel[0][v], amp, rel[1][v]); c.check(rel[0][v] < 0.3, pbt::fmt("implicit %s update far from its equation", nm).c_str(), "residual relative to the change %.4g for amplitude %g", rel[0][v], amp); }
	c.nontrivial();
}
// everything else is left alone, and a column knows nothing of the others
static void untouched(Src & s, Ctx & c) {
	Dyn d; gen(s, c, d); Cfg & g = d.g; if (g.ho < 3) g.ho = 3; double amp = 1e-2; double dt = s.logreal(0.1, 20) * advDt(d); bool rough = s.coin(); c.desc(" columns dt %g rough %d", dt, rough); setCase(d); Case plain = *d.tc; Sim S(g, d.tc); stir(S, s, 3, amp, rough); S.pg->PostProcessSubstage(0, DataType_State);
	auto go = [&]() { S.pg->CopyData(0, 1, DataType_State); S.pg->CopyData(0, 1, DataType_Tracers); S.m.GetVerticalDynamics()->StepImplicit(1, 1, S.now(), dt); }; go();
	for (int v : { 0, 1 }) { Vec a = grab(S, 0, v), b = grab(S, 1, v); bool same = true; for (size_t i = 0; i < a.size(); i++) same &= a[i] == b[i]; c.check(same, "implicit solve changes the horizontal wind", "component %d", v); }
	S.pg->CopyData(1, 2, DataType_State); S.pg->CopyData(1, 2, DataType_Tracers); std::vector<std::array<int, 3>> pts; for (int n = 0; n < S.nPatch(); n++) { auto * p = (GridPatchGLL *)S.patch(n); auto & b = p->GetPatchBox(); for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) { int li = (i - b.GetAInteriorBegin()) % g.ho, lj = (j - b.GetBInteriorBegin()) % g.ho; if (li > 0 && li < g.ho - 1 && (g.xz || (lj > 0 && lj < g.ho - 1))) pts.push_back(std::array<int, 3>{ { n, i, j } }); } }
	if (pts.empty()) c.discard(); auto P = pts[s.draw(pts.size() - 1)]; auto * q = (GridPatchGLL *)S.patch(P[0]); int k0 = (int)s.draw(g.nlev - 1); q->GetDataState(0, S.loc(2))(2, P[1], P[2], k0) *= 1.001; q->GetDataState(0, S.loc(4))(4, P[1], P[2], k0) *= 1.002; if (k0) q->GetDataState(0, S.loc(3))(3, P[1], P[2], k0) += 0.1; go(); bool moved = false; int bad = 0;
	for (int n = 0; n < S.nPatch(); n++) { auto * p = (GridPatchGLL *)S.patch(n); auto & b = p->GetPatchBox(); for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) { bool me = n == P[0] && i == P[1] && (j == P[2] || g.xz); bool diffs = false; for (int v : VC) for (int k = 0; k < S.nk(v); k++) diffs |= S.data(p, 1, v)(v, i, j, k) != S.data(p, 2, v)(v, i, j, k); for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) diffs |= p->GetDataTracers(1)(t, i, j, k) != p->GetDataTracers(2)(t, i, j, k); if (me) moved |= diffs; else bad += diffs; } }
	c.check(bad == 0, "implicit solve of one column depends on another", "%d other columns changed", bad); c.check(moved, "implicit solve ignores its column", "no change"); c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "smallstep", smallStep, 1 }, { "residual", residual, 1 }, { "untouched", untouched, 1 } }, [] { initMPI(); }); }
