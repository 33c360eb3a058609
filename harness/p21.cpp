// P21: computed tendencies approach the equations of motion; the shallow-water tendency conserves energy; dynamics options agree.
#include "dyn.h"
using namespace pbt; using namespace mu;
// the continuous problem: smooth fields on the sphere or plane, with derivatives by high-order differences along great circles or axes
struct Cont { Dyn d; double R, om, g0, Rd, cp, p0, z2 = 0; bool sph; Field w, th; double wamp;
	struct S { V3 u; double w, th, rho, H, b; double q[4]; };
	V3 step(V3 P, V3 e, double h) const { if (!sph) return P + h * e; double a = h / R; return cos(a) * P + sin(a) * e; }
	void ll(V3 P, double & x, double & y) const { if (!sph) { x = P.x; y = P.y; return; } x = atan2(P.y, P.x); if (x < 0) x += 2 * M_PI; y = asin(std::max(-1.0, std::min(1.0, P.z))); }
	S at(V3 P, double z) const { double x, y; ll(P, x, y); PhysicalConstants ph; if (d.tc->phys) d.tc->phys(ph); double s[8] = { 0 }, q[32] = { 0 }; d.tc->state(ph, z, x, y, s, q); S r; r.u = sph ? s[0] * east(x, y) + s[1] * north(x, y) : V3{ s[0], s[1], 0 }; r.b = d.tc->topo ? d.tc->topo(x, y) : 0; r.H = s[2]; r.th = s[2]; r.w = s[3]; r.rho = d.g.sw ? s[2] - r.b : s[4]; for (int t = 0; t < 4; t++) r.q[t] = q[t]; return r; }
	double f(V3 P) const { return sph ? 2 * om * P.z : d.g.xz ? 0 : 2 * om * sin(d.g.reflat) + 2 * om * cos(d.g.reflat) / R * (P.y - 0.5 * (d.g.gd[3] - d.g.gd[2])); }
	// derivative of a function of place along e (unit vector)
	template <class F> auto D(F fn, V3 P, V3 e, double h) const -> decltype(fn(P)) { return (1 / (12 * h)) * ((8.0 * (fn(step(P, e, h)) - fn(step(P, e, -h)))) - (fn(step(P, e, 2 * h)) - fn(step(P, e, -2 * h)))); }
	void frame(V3 P, V3 & a, V3 & b) const { if (!sph) { a = { 1, 0, 0 }; b = { 0, 1, 0 }; return; } a = fabs(P.z) < 0.8 ? cross(V3{ 0, 0, 1 }, P) : cross(V3{ 1, 0, 0 }, P); a = (1 / len(a)) * a; b = cross(P, a); }
};
static void mk(Cont & k, Dyn & d) { k.d = d; PhysicalConstants ph; if (d.tc->phys) d.tc->phys(ph); k.R = ph.GetEarthRadius(); k.om = ph.GetOmega(); k.g0 = ph.GetG(); k.Rd = ph.GetR(); k.cp = ph.GetCp(); k.p0 = ph.GetP0(); k.sph = d.g.sphere; }
struct Rates { V3 u; double w, H, th, q[4]; };
static Rates swRate(const Cont & k, V3 P) {
	Rates r; V3 a, b; k.frame(P, a, b); double h = (k.sph ? k.R : std::min(k.d.g.gd[1] - k.d.g.gd[0], k.d.g.gd[3] - k.d.g.gd[2])) * 1e-3; Cont::S s = k.at(P, k.z2);
	auto U = [&](V3 X) { return k.at(X, k.z2).u; }; auto B = [&](V3 X) { Cont::S t = k.at(X, k.z2); return 0.5 * dot(t.u, t.u) + k.g0 * t.H; };
	double zeta = dot(b, k.D(U, P, a, h)) - dot(a, k.D(U, P, b, h)) + k.f(P); V3 rot = zeta * (dot(s.u, a) * b - dot(s.u, b) * a); r.u = V3{ 0, 0, 0 } - rot - k.D(B, P, a, h) * a - k.D(B, P, b, h) * b;
	auto flux = [&](int t) { return [&k, t](V3 X) { Cont::S c = k.at(X, k.z2); return (t < 0 ? c.rho : c.q[t]) * c.u; }; };
	auto dv = [&](int t) { return dot(a, k.D(flux(t), P, a, h)) + dot(b, k.D(flux(t), P, b, h)); }; r.H = -dv(-1); for (int t = 0; t < k.d.g.ntr; t++) r.q[t] = -dv(t); return r;
}
struct Errs { double u, H, q, su, sH, sq; };
static Errs swErr(Sim & S, Cont & k, double dt) { k.z2 = S.patch(0)->GetZLevels()(2, 2, 0);
	S.pg->CopyData(0, 1, DataType_State); S.pg->CopyData(0, 1, DataType_Tracers); S.m.GetHorizontalDynamics()->StepExplicit(0, 1, S.now(), dt); S.pg->PostProcessSubstage(1, DataType_State); if (S.g.ntr) S.pg->PostProcessSubstage(1, DataType_Tracers);
	Errs e = { 0, 0, 0, 0, 0, 0 }; double W = 0, Lk = k.sph ? k.R : std::min(S.g.gd[1] - S.g.gd[0], S.g.gd[3] - S.g.gd[2]) / (2 * M_PI); S.each([&](GridPatchGLL * p, int i, int j) { double w = p->GetElementAreaNode()(i, j, 0); V3 A, B, P; basisAt(S, p, i, j, A, B, P); if (!k.sph && !S.g.xz && (fabs(P.y - S.g.gd[2]) < 1e-9 * Lk || fabs(P.y - S.g.gd[3]) < 1e-9 * Lk)) return; /* the beta plane jumps there */ Rates r = swRate(k, P); V3 du = (1 / dt) * (windAt(S, p, 1, i, j, 0) - windAt(S, p, 0, i, j, 0)); double dH = (S.data(p, 1, 2)(2, i, j, 0) - S.data(p, 0, 2)(2, i, j, 0)) / dt; V3 x = du - r.u; e.u += w * dot(x, x); double uu = len(windAt(S, p, 0, i, j, 0)), hh = k.at(P, k.z2).rho; e.su += w * (dot(r.u, r.u) + uu * uu * uu * uu / (Lk * Lk)); e.H += w * (dH - r.H) * (dH - r.H); e.sH += w * (r.H * r.H + hh * uu * hh * uu / (Lk * Lk)); W += w; for (int t = 0; t < S.g.ntr; t++) { double dq = (p->GetDataTracers(1)(t, i, j, 0) - p->GetDataTracers(0)(t, i, j, 0)) / dt; e.q += w * (dq - r.q[t]) * (dq - r.q[t]); double qq = k.at(P, k.z2).q[t] * uu / Lk; e.sq += w * (r.q[t] * r.q[t] + qq * qq); } });
	for (double * v : { &e.u, &e.H, &e.q, &e.su, &e.sH, &e.sq }) *v = sqrt(*v / W); return e;
}
static void shallow(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.model = 0; o.walls = false; o.schemes = { "strang" }; genDyn(s, c, d, o); Cfg & g = d.g; d.U = s.pick(std::vector<double>{ 20, 5, 80 }); if (g.hm == "v1") g.ho = (int)s.irange(3, 5); g.np = g.sphere ? 6 : 1; int np1 = g.ho - 1; int n0 = g.sphere ? (np1 == 2 ? 4 : np1 == 3 ? 3 : 2) : (np1 == 2 ? 8 : np1 == 3 ? 7 : 5); if (s.coin()) n0++;
	if (g.sphere) g.ne = n0; else { g.nx = n0; g.ny = n0; } c.desc(" base elements %d order %d U %g", n0, g.ho, d.U); setCase(d); Case plain = *d.tc; Cont k; mk(k, d); Errs e[2]; double dt = 1e-3 * d.dt;
	for (int q = 0; q < 2; q++) { Cfg h = g; h.ne = g.ne << q; h.nx = g.nx << q; h.ny = g.ny << q; if (q && g.sphere && s.coin(1, 4)) h.np = 24; Sim S(h, new Case(plain)); e[q] = swErr(S, k, dt); }
	double Lb = k.sph ? k.R : std::min(g.gd[1] - g.gd[0], g.gd[3] - g.gd[2]) / (2 * M_PI); auto judge = [&](const char * what, double a, double b, double sc, double big) { double rel0 = a / sc, rel1 = b / sc; if (getenv("P21V")) fprintf(stderr, "P21 sc %.2e b %.2e %s %.3e %.3e ratio %.1f np1 %d %s %s\n", sc, b, what, rel0, rel1, a / b, np1, g.sphere ? "sph" : "box", g.hm.c_str()); c.check(b <= 1e-6 * sc || b <= 1e-11 * big || (rel1 < 0.15 && b <= a * pow(2, -np1) * 3) || (rel1 < 0.02 && b <= 0.7 * a) || rel1 < 1e-3 , pbt::fmt("%s does not converge to the equations", what).c_str(), "relative error %.4g with %d elements, %.4g with %d", rel0, n0, rel1, 2 * n0); };
	judge("wind tendency", e[0].u, e[1].u, e[0].su + 1e-30, k.g0 * d.H0 / Lb + 1e-4 * d.U / dt); judge("height tendency", e[0].H, e[1].H, e[0].sH + 1e-30, d.H0 * (d.U + 1) / Lb + 1e-4 * d.H0 / dt); if (g.ntr) judge("tracer tendency", e[0].q, e[1].q, e[0].sq + 1e-30, 4 * d.H0 * (d.U + 1) / Lb); c.nontrivial();
}
template <class F> static auto dz4(F fn, double z, double hz) -> decltype(fn(z)) { return (1 / (12 * hz)) * (8.0 * (fn(z + hz) - fn(z - hz)) - (fn(z + 2 * hz) - fn(z - 2 * hz))); }
// three-dimensional equations: shallow-atmosphere, unapproximated in the vertical
static Rates eulerRate(const Cont & k, V3 P, double z) {
	Rates r; V3 a, b; k.frame(P, a, b); const Dyn & d = k.d; double h = (k.sph ? k.R : d.g.xz ? d.g.gd[1] - d.g.gd[0] : std::min(d.g.gd[1] - d.g.gd[0], d.g.gd[3] - d.g.gd[2])) * 1e-3, hz = d.ztop * 1e-3; Cont::S s = k.at(P, z);
	auto pr = [&](const Cont::S & c) { return k.p0 * pow(k.Rd * c.rho * c.th / k.p0, k.cp / (k.cp - k.Rd)); };
	auto U = [&](V3 X) { return k.at(X, z).u; }; auto K = [&](V3 X) { Cont::S t = k.at(X, z); return 0.5 * dot(t.u, t.u); }; auto PR = [&](V3 X) { return pr(k.at(X, z)); }; auto W = [&](V3 X) { return k.at(X, z).w; };
	double zeta = (d.g.xz ? 0 : dot(b, k.D(U, P, a, h)) - dot(a, k.D(U, P, b, h))) + k.f(P); V3 rot = zeta * (dot(s.u, a) * b - dot(s.u, b) * a); double yy = d.g.xz ? 0 : 1;
	r.u = V3{ 0, 0, 0 } - rot - k.D(K, P, a, h) * a - (yy * k.D(K, P, b, h)) * b - (1 / s.rho) * (k.D(PR, P, a, h) * a + (yy * k.D(PR, P, b, h)) * b) - s.w * dz4([&](double y) { return k.at(P, y).u; }, z, hz);
	if (d.g.xz) r.u.y = 0; r.w = -dot(s.u, a) * k.D(W, P, a, h) - yy * dot(s.u, b) * k.D(W, P, b, h) - s.w * dz4([&](double y) { return k.at(P, y).w; }, z, hz) - dz4([&](double y) { return pr(k.at(P, y)); }, z, hz) / s.rho - k.g0;
	auto dens = [](const Cont::S & c, int t) { return t == -2 ? c.rho * c.th : t == -1 ? c.rho : c.q[t]; };
	auto dv = [&](int t) { auto F = [&](V3 X) { Cont::S c = k.at(X, z); return dens(c, t) * c.u; }; return -(dot(a, k.D(F, P, a, h)) + yy * dot(b, k.D(F, P, b, h)) + dz4([&](double y) { Cont::S c = k.at(P, y); return dens(c, t) * c.w; }, z, hz)); };
	r.H = dv(-1); r.th = dv(-2); for (int t = 0; t < d.g.ntr; t++) r.q[t] = dv(t); return r;
}
struct Errs3 { double e[9], s[9]; };   // wind, heat, vertical velocity, density, tracers
// the first method keeps covariant components of the three-dimensional wind; a test case gives physical ones
static void covariant(Sim & S) { if (S.g.vm != "v1") return; S.each([&](GridPatchGLL * p, int i, int j) { for (int e = 0; e < 2; e++) { auto & D = e ? p->GetDataState(0, DataLocation_REdge) : p->GetDataState(0, DataLocation_Node); auto & R = e ? p->GetDerivRREdge() : p->GetDerivRNode(); for (int k = 0; k < S.g.nlev + e; k++) { double w = D(3, i, j, k); D(0, i, j, k) += w * R(i, j, k, 0); if (!S.g.xz) D(1, i, j, k) += w * R(i, j, k, 1); D(3, i, j, k) = w * R(i, j, k, 2); } } }); S.pg->PostProcessSubstage(0, DataType_State); }
static Errs3 fullErr(Sim & S, Cont & k, double dt, bool interior) {
	covariant(S);
	S.pg->CopyData(0, 1, DataType_State); S.pg->CopyData(0, 1, DataType_Tracers); S.m.GetHorizontalDynamics()->StepExplicit(0, 1, S.now(), dt); S.m.GetVerticalDynamics()->StepExplicit(0, 1, S.now(), dt); S.pg->PostProcessSubstage(1, DataType_State); if (S.g.ntr) S.pg->PostProcessSubstage(1, DataType_Tracers);
	Errs3 E; double n[9]; for (int t = 0; t < 9; t++) E.e[t] = E.s[t] = n[t] = 0; const Cfg & g = S.g; double Lk = k.sph ? k.R : g.gd[1] - g.gd[0]; unsigned cols = g.sphere ? 6 * g.ne * g.ne * g.ho * g.ho : g.nx * g.ho * g.ny * (g.xz ? 1 : g.ho), thin = cols * g.nlev > 6000 ? cols * g.nlev / 6000 + 1 : 0; /* judged on a fixed sample of columns */
	S.each([&](GridPatchGLL * p, int i, int j) { V3 A, B, P; basisAt(S, p, i, j, A, B, P); if (!k.sph && !g.xz && (fabs(P.y - g.gd[2]) < 1e-9 * Lk || fabs(P.y - g.gd[3]) < 1e-9 * Lk)) return; double w = p->GetElementAreaNode()(i, j, 0);
		if (thin && ((unsigned)(i * 2654435761u + j * 40503u + p->GetPatchIndex() * 97u) >> 7) % thin) return;
		auto put = [&](int q, double x, double y) { E.e[q] += w * x; E.s[q] += w * y; n[q] += w; };
		for (int l = 0; l <= 1; l++) { bool edge = l; int N = edge ? g.nlev + 1 : g.nlev; for (int kk = 0; kk < N; kk++) { double z = edge ? p->GetZInterfaces()(i, j, kk) : p->GetZLevels()(i, j, kk); bool need = false; for (int c : { 0, 2, 3, 4 }) need |= (S.loc(c) == DataLocation_REdge) == edge; need |= !edge; if (!need) continue; if (interior && (z < 0.12 * k.d.ztop || z > 0.88 * k.d.ztop)) continue; Rates r = eulerRate(k, P, z); 
			for (int c : { 0, 2, 3, 4 }) { if ((S.loc(c) == DataLocation_REdge) != edge) continue; 
				if (c == 0) { double ra = 0, rb = 0; if (g.vm == "v1") { auto & R = edge ? p->GetDerivRREdge() : p->GetDerivRNode(); ra = R(i, j, kk, 0); rb = R(i, j, kk, 1); } double da = (S.data(p, 1, 0)(0, i, j, kk) - S.data(p, 0, 0)(0, i, j, kk)) / dt, db = (S.data(p, 1, 1)(1, i, j, kk) - S.data(p, 0, 1)(1, i, j, kk)) / dt; V3 x = windOf(A, B, da - r.w * ra, db - r.w * rb); V3 y = x - r.u; if (g.xz) y.y = 0; put(0, dot(y, y), dot(r.u, r.u)); }
				else if (c == 3) { if (kk == 0 || kk == N - 1) continue; double x = (vertAt(S, p, 1, i, j, kk) - vertAt(S, p, 0, i, j, kk)) / dt - r.w; put(2, x * x, r.w * r.w); }
				else { double x = (S.data(p, 1, c)(c, i, j, kk) - S.data(p, 0, c)(c, i, j, kk)) / dt, y = c == 2 ? r.th : r.H; put(c == 2 ? 1 : 3, (x - y) * (x - y), y * y); } }
			if (!edge) for (int t = 0; t < g.ntr; t++) { double x = (p->GetDataTracers(1)(t, i, j, kk) - p->GetDataTracers(0)(t, i, j, kk)) / dt; put(4 + t, (x - r.q[t]) * (x - r.q[t]), r.q[t] * r.q[t]); } } } });
	for (int t = 0; t < 9; t++) { E.e[t] = sqrt(E.e[t] / (n[t] + 1e-300)); E.s[t] = sqrt(E.s[t] / (n[t] + 1e-300)); } return E;
}
static void full(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.model = 1; o.walls = false; o.schemes = { "strang" }; genDyn(s, c, d, o); Cfg & g = d.g; d.U = s.pick(std::vector<double>{ 20, 5, 80 }); d.amp = s.pick(std::vector<double>{ 0.02, 0.005 }); if (g.hm == "v1") g.ho = (int)s.irange(3, 5); g.np = g.sphere ? 6 : 1; g.expl = true; int np1 = g.ho - 1; int n0 = g.sphere ? (np1 == 2 ? 4 : np1 == 3 ? 3 : 2) : (np1 == 2 ? 8 : np1 == 3 ? 6 : 4);
	if (g.sphere) g.ne = n0; else { g.nx = n0; g.ny = g.xz ? 1 : n0; } if (g.hm == "v2") d.hasTopo = false; int nf = g.vo == 1 ? 6 : g.vo == 2 ? 4 : 3; if (g.disc) nf = 6; g.nlev = g.vo * nf; g.np = g.sphere ? 6 : 1; double w0 = s.pick(std::vector<double>{ 1, 0.1, 5 }); Field wf; wf.gen(s, g, 2); c.desc(" base elements %d levels %d order %d U %g amp %g w %g", n0, g.nlev, g.ho, d.U, d.amp, w0); setCase(d);
	{ PhysicalConstants ph; d.tc->phys(ph); double R = ph.GetEarthRadius(); Case base = *d.tc; bool sph = g.sphere; double zt = d.ztop; auto L = g.gd[1] - g.gd[0]; bool xz = g.xz;
		d.tc->state = [base, wf, w0, sph, zt, R, L, xz](const PhysicalConstants & p, double z, double x, double y, double * S, double * Q) { base.state(p, z, x, y, S, Q); double b = base.topo ? base.topo(x, y) : 0, sl = 0; if (base.topo) { V3 P = sph ? V3{ cos(y) * cos(x), cos(y) * sin(x), sin(y) } : V3{ x, y, 0 }, u = sph ? S[0] * east(x, y) + S[1] * north(x, y) : V3{ S[0], S[1], 0 }; double h = sph ? 1e-4 * R : 1e-4 * L; for (int q = 0; q < (xz ? 1 : 2); q++) { V3 e = sph ? (q ? north(x, y) : east(x, y)) : q ? V3{ 0, 1, 0 } : V3{ 1, 0, 0 }; double v[2]; for (int m = 0; m < 2; m++) { V3 X = sph ? cos(h / R) * P + ((m ? -1 : 1) * sin(h / R)) * e : P + ((m ? -h : h)) * e; double xx = X.x, yy = X.y; if (sph) { xx = atan2(X.y, X.x); yy = asin(std::max(-1.0, std::min(1.0, X.z))); } v[m] = base.topo(xx, yy); } sl += dot(u, e) * (v[0] - v[1]) / (2 * h); } } S[3] = w0 * wf(x, y) * sin(M_PI * (z - b) / (zt - b)) + sl * (zt - z) / (zt - b); }; }
	Case plain = *d.tc; Cont k; mk(k, d); Errs3 e[2]; double dt = 1e-3 * d.dt; bool interior = getenv("P21I"); for (int q = 0; q < 2; q++) { Cfg h = g; h.ne = g.ne << q; h.nx = g.nx << q; h.ny = g.xz ? 1 : g.ny << q; h.nlev = g.nlev << q; Sim S(h, new Case(plain)); e[q] = fullErr(S, k, dt, interior); }
	static const char * nm[] = { "wind", "heat", "vertical velocity", "density", "tracer", "tracer", "tracer", "tracer" };
	for (int t = 0; t < 4 + g.ntr; t++) { double a = e[0].e[t], b = e[1].e[t], sc = e[0].s[t]; if (getenv("P21V")) fprintf(stderr, "P21F %s %.3e %.3e ratio %.1f sc %.2e ho %d vo %d %s %s %s %s%s%s\n", nm[t], a / sc, b / sc, a / b, sc, g.ho, g.vo, g.disc ? "FV" : "FE", g.vm.c_str(), g.sphere ? "sph" : g.xz ? "xz" : "box", g.stretch.c_str(), d.hasTopo ? " topo" : "", g.useRef ? " ref" : ""); }
	bool low = g.stretch != "uniform"; double lim = low ? 0.9 : 0.75, Lk = k.sph ? k.R : (g.gd[1] - g.gd[0]) / (2 * M_PI), adv = 0.3 * d.U / Lk + w0 / d.ztop; /* nominal rates: advection across the scale of the fields */
	for (int t = 0; t < 4 + g.ntr; t++) { double val[] = { d.U, 350, w0, 1, 1, 1, 1, 1 }, sc = e[0].s[t] + val[t] * adv + (t == 2 ? 9.8 * d.amp : t == 0 ? 1e5 * d.amp * 0.1 / Lk : 0), a = e[0].e[t], b = e[1].e[t]; if (getenv("P21N") || b <= 1e-12 * val[t] / dt) continue;
		c.check(b <= lim * a || b <= (low ? 0.1 : 1e-3) * sc, pbt::fmt("%s tendency does not converge to the equations", nm[t]).c_str(), "error %.4g of %.4g with %d elements and %d levels, %.4g with twice as many", a, sc, n0, g.nlev, b);
		if (!(t == 2 && (low || g.vo == 1))) c.check(b <= (low ? 0.6 : 0.3) * sc + (t == 2 ? 0.05 : 0), pbt::fmt("%s tendency far from the equations", nm[t]).c_str(), "error %.4g of %.4g with %d elements and %d levels", b, sc, 2 * n0, 2 * g.nlev); }
	c.nontrivial();
}
// total energy rate of the shallow-water tendency, and agreement of the two horizontal methods
static void swEnergy(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.model = 0; o.schemes = { "strang" }; genDyn(s, c, d, o); Cfg & g = d.g; d.U = s.pick(std::vector<double>{ 20, 5, 80 }); bool rough = s.coin(); c.desc(" energy U %g rough %d", d.U, rough); std::unique_ptr<Sim> S(build(d)); if (rough) roughen(*S, s, 0, 0.05, true); double dt = d.dt, G = S->phys().GetG(); S->pg->PostProcessSubstage(0, DataType_State); /* winds that respect the walls */
	S->pg->CopyData(0, 1, DataType_State); S->pg->CopyData(0, 1, DataType_Tracers); S->m.GetHorizontalDynamics()->StepExplicit(0, 1, S->now(), dt); S->pg->PostProcessSubstage(1, DataType_State); if (g.ntr) S->pg->PostProcessSubstage(1, DataType_Tracers); long double E = 0, a = 0, tot = 0;
	S->each([&](GridPatchGLL * p, int i, int j) { double w = p->GetElementAreaNode()(i, j, 0); V3 u = windAt(*S, p, 0, i, j, 0), du = windAt(*S, p, 1, i, j, 0) - u; double H = S->data(p, 0, 2)(2, i, j, 0), dH = S->data(p, 1, 2)(2, i, j, 0) - H, h = H - p->GetTopography()(i, j); tot += w * (fabs(h) * dot(u, u) + G * H * H); E += w * ((long double)h * dot(u, du) + (0.5L * dot(u, u) + G * H) * dH); a += w * (fabs(h * dot(u, du)) + (0.5 * dot(u, u) + G * H) * fabs(dH)); });
	if (getenv("P21V")) fprintf(stderr, "P21E %.3Le %s %s rough %d ho %d wall %d\n", E / a, g.sphere ? "sph" : "box", g.hm.c_str(), rough, g.ho, g.bc[0] + g.bc[1]);
	c.check(fabsl(E) <= 1e-11L * a + 2e-13L * tot, "shallow-water tendency changes total energy", "rate %.6Lg of terms %.6Lg", E, a); if (a > 0) c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "shallow", shallow, 3 }, { "energy", swEnergy, 1 }, { "full", full, 3 } }, [] { initMPI(); }); }
