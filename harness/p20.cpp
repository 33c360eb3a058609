// P20: the discrete equations have the symmetries of their grid: moving, turning or mirroring a state and then stepping equals stepping and then moving.
#include "dyn.h"
using namespace pbt; using namespace mu;
static const std::vector<std::string> SCH = { "strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk", "erk/rk4", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332" };
// x' = M (x - c) + c + t; on the sphere c = t = 0
struct Sym { double M[3][3]; V3 c, t; V3 v(V3 a) const { return { M[0][0] * a.x + M[0][1] * a.y + M[0][2] * a.z, M[1][0] * a.x + M[1][1] * a.y + M[1][2] * a.z, M[2][0] * a.x + M[2][1] * a.y + M[2][2] * a.z }; }
	V3 inv(V3 a) const { return { M[0][0] * a.x + M[1][0] * a.y + M[2][0] * a.z, M[0][1] * a.x + M[1][1] * a.y + M[2][1] * a.z, M[0][2] * a.x + M[1][2] * a.y + M[2][2] * a.z }; }
	V3 pt(V3 a) const { return v(a - c) + c + t; } V3 ptInv(V3 a) const { return inv(a - c - t) + c; } };
static double det(const double (*m)[3]) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }
static void sphereSym(Src & s, Ctx & c, Dyn & d, Sym & y) {
	// signed permutations; with rotation only those that keep the axial vector of the rotation
	static const int P[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 0, 2, 1 }, { 2, 1, 0 }, { 1, 2, 0 }, { 2, 0, 1 } };
	for (;;) { memset(y.M, 0, sizeof y.M); int p = (int)s.draw(d.omega ? 1 : 5), sg = (int)s.draw(7); for (int i = 0; i < 3; i++) y.M[i][P[p][i]] = (sg >> i) & 1 ? -1 : 1;
		double D = det(y.M); if (d.omega && D * y.M[2][2] < 0) { y.M[0][0] *= -1; y.M[0][1] *= -1; }   /* flip one horizontal axis */
		break; }
	y.c = y.t = { 0, 0, 0 }; double D = det(y.M); bool id = y.M[0][0] == 1 && y.M[1][1] == 1 && y.M[2][2] == 1;
	c.desc(" turned by"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (y.M[i][j]) c.desc(" %s%c", y.M[i][j] < 0 ? "-" : "", "xyz"[j]);
	c.cls(id ? "identity" : D > 0 ? "sphere rotation" : "sphere reflection"); if (y.M[2][2] == 0) c.cls("poles moved");
}
static void boxSym(Src & s, Ctx & c, Dyn & d, Sym & y) {
	Cfg & g = d.g; memset(y.M, 0, sizeof y.M); for (int i = 0; i < 3; i++) y.M[i][i] = 1; double lx = g.gd[1] - g.gd[0], ly = g.gd[3] - g.gd[2]; y.c = { g.gd[0] + lx / 2, g.gd[2] + ly / 2, 0 }; y.t = { 0, 0, 0 };
	bool mx = false, my = false, sw = false; if (!d.omega) { mx = s.coin(); my = !g.xz && s.coin(); sw = !g.xz && s.coin(1, 3); } else if (g.reflat == 0 && !g.xz && g.gd[2] == 0) my = s.coin();
	if (sw) { g.np = 1; g.ny = g.nx; g.gd[3] = g.gd[2] + lx; ly = lx; y.c.y = g.gd[2] + ly / 2; for (Field * f : { &d.topo, &d.th, &d.rh, &d.q[0], &d.q[1], &d.q[2], &d.q[3], &d.wind.f[0], &d.wind.f[1] }) f->L[1] = ly; }
	double a[2][2] = { { 1, 0 }, { 0, 1 } }; if (sw) { a[0][0] = a[1][1] = 0; a[0][1] = a[1][0] = 1; } for (int j = 0; j < 2; j++) { if (mx) a[0][j] *= -1; if (my) a[1][j] *= -1; } for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) y.M[i][j] = a[i][j];
	int bcx = g.bc[0], bcy = g.bc[1]; if (sw) std::swap(bcx, bcy); int kx = 0, ky = 0;
	if (!bcx) kx = (int)s.draw(g.nx - 1); if (!bcy && !d.omega && !g.xz) ky = (int)s.draw(g.ny - 1); y.t = { kx * lx / g.nx, ky * ly / g.ny, 0 };
	c.desc(" moved by %d,%d elements%s%s%s", kx, ky, mx ? " mirrored in x" : "", my ? " mirrored in y" : "", sw ? " axes exchanged" : ""); if (kx || ky) c.cls("box shift"); if (mx || my) c.cls("box mirror"); if (sw) c.cls("box exchange"); if (!kx && !ky && !mx && !my && !sw) c.cls("identity");
}
struct Key { long a, b, c; bool operator<(const Key & o) const { return a != o.a ? a < o.a : b != o.b ? b < o.b : c < o.c; } };
static Key key(const Cfg & g, V3 p) {
	if (!g.sphere) { double l[2] = { g.gd[1] - g.gd[0], g.gd[3] - g.gd[2] }, q[2] = { (p.x - g.gd[0]) / l[0], (p.y - g.gd[2]) / l[1] }; for (int i = 0; i < 2; i++) if (!g.bc[i]) { q[i] -= floor(q[i] + 1e-7); } p = { q[0], q[1], 0 }; }
	return { lround(p.x * 1e6 + 0.1234), lround(p.y * 1e6 + 0.2345), lround(p.z * 1e6 + 0.3456) };
}
static void twin(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = SCH; genDyn(s, c, d, o); genVisc(s, c, d); if (d.g.xz && d.omega) d.omega = 0; Sym y; if (d.g.sphere) sphereSym(s, c, d, y); else boxSym(s, c, d, y); Cfg & g = d.g; bool sw = g.sw; if (!sw) d.dt = std::min(d.dt, 60.0); int n = (int)s.irange(1, 3);
	double rough = s.pick(std::vector<double>{ 0, 0.02, 0.1 }); std::vector<double> ph; for (int i = 0; i < 40; i++) ph.push_back(s.real(3, 60)); c.desc(" rough %g steps %d", rough, n); if (!d.hasTopo && rough) c.cls("rough");
	bool sph = g.sphere; double lx = g.gd[1] - g.gd[0], ly = g.gd[3] - g.gd[2], gx = g.gd[0], gy = g.gd[2]; bool noslip = g.bc[0] == 2; bool xz = g.xz; double zt = d.ztop, w0 = d.U > 0 ? s.pick(std::vector<double>{ 1, -1 }) * (1 + d.U / 4) : 1; double sc = (sw ? sqrt(10 * d.H0) : 100) * 0.1;
	auto hi = [=](V3 p, int k) { if (!sph) p = { (p.x - gx) / lx, xz ? 0 : (p.y - gy) / ly, 0 }; return sph ? sin(ph[k] * p.x + ph[k + 1] * p.y + ph[k + 2] * p.z) : sin(2 * M_PI * (floor(ph[k] / 6) * p.x + floor(ph[k + 1] / 6) * p.y) + ph[k + 2]); };
	// the state as a function of a point, with vectors as vectors
	setCase(d); auto st = d.tc->state, rf = d.tc->ref; auto tp = d.tc->topo; int ntr = g.ntr; Case * base = d.tc; (void)base;
	auto noisy = [=](const PhysicalConstants & p, double z, V3 P, double * S, double * Q, V3 & w) {
		double x = P.x, yy = xz ? gy : P.y; if (sph) { x = atan2(P.y, P.x); yy = asin(std::max(-1.0, std::min(1.0, P.z))); } st(p, z, x, yy, S, Q); if (!sw) S[3] = w0 * (2 + 0.5 * hi(P, 30)) * sin(M_PI * z / zt) * (noslip ? sin(M_PI * z / zt) : 1);   /* the linearised implicit step has a kink at zero vertical velocity, where rounding would decide */
		w = sph ? S[0] * east(x, yy) + S[1] * north(x, yy) : V3{ S[0], S[1], 0 };
		if (rough > 0) { if (!noslip) { V3 r = { hi(P, 0), hi(P, 3), hi(P, 6) }; if (sph) r = r - dot(r, P) * P; else { r.z = 0; if (xz) r.y = 0; } w = w + (rough * sc) * r; } S[2] *= 1 + 0.2 * rough * hi(P, 9); if (!sw) { S[4] *= 1 + 0.2 * rough * hi(P, 12); } if (Q) for (int t = 0; t < ntr; t++) Q[t] *= 1 + 0.8 * rough * 10 * hi(P, 15 + 3 * t) / (1 + rough * 10); } };
	auto mkCase = [=](bool moved) { Case * k = new Case(*base); Sym id = y; auto back = [=](double x, double yy) { V3 P = sph ? ptRLL(x, yy) : V3{ x, yy, 0 }; return moved ? y.ptInv(P) : P; };
		auto ll = [=](V3 P, double & x, double & yy) { x = P.x; yy = P.y; if (sph) { x = atan2(P.y, P.x); yy = asin(std::max(-1.0, std::min(1.0, P.z))); } };
		k->state = [=](const PhysicalConstants & p, double z, double x, double yy, double * S, double * Q) { V3 w; noisy(p, z, back(x, yy), S, Q, w); if (moved) w = y.v(w); if (sph) { S[0] = dot(w, east(x, yy)); S[1] = dot(w, north(x, yy)); } else { S[0] = w.x; S[1] = w.y; } };
		if (tp) k->topo = [=](double x, double yy) { double a, b; ll(back(x, yy), a, b); return tp(a, b); };
		if (rf) k->ref = [=](const PhysicalConstants & p, double z, double x, double yy, double * S, double * Q) { double a, b; ll(back(x, yy), a, b); rf(p, z, a, b, S, Q); };
		return k; };
	std::unique_ptr<Sim> A(new Sim(g, mkCase(false))); Cfg gb = g; if (g.sphere && s.coin(1, 3)) { gb.np = g.np == 6 && g.ne % 2 == 0 ? 24 : 6; c.cls("other decomposition"); }
	if (y.M[0][0] == 0 && !sph) { std::swap(gb.bc[0], gb.bc[1]); std::swap(gb.bc[2], gb.bc[3]); }
	std::unique_ptr<Sim> B(new Sim(gb, mkCase(true)));
	if (minDepth(*A, 0) <= 0) { c.cls("not integrable"); c.discard(); return; }
	std::map<Key, std::vector<std::pair<GridPatchGLL *, std::pair<int, int>>>> at; B->each([&](GridPatchGLL * p, int i, int j) { V3 a, b, P; basisAt(*B, p, i, j, a, b, P); at[key(gb, P)].push_back({ p, { i, j } }); });
	for (int k = 0; k <= n; k++) {
		if (k) { bool ok = stepOk(*A, d.dt), ob = stepOk(*B, d.dt); if (!ok || !ob) { c.cls("not integrable"); c.discard(); return; } }
		double big[9] = { 0 }, e[9] = { 0 }; int nc = sw ? 3 : 5; double u = 0, ew = 0; long miss = 0;
		A->each([&](GridPatchGLL * p, int i, int j) { V3 a, b, P; basisAt(*A, p, i, j, a, b, P); V3 T = y.pt(P); Key K = key(gb, T); auto f = at.find(K); if (f == at.end()) { miss++; return; } auto q = f->second[0]; GridPatchGLL * pb = q.first; int ib = q.second.first, jb = q.second.second;
			for (int l = 0; l < g.nlev; l++) { V3 wa = windAt(*A, p, 0, i, j, l), wb = windAt(*B, pb, 0, ib, jb, l); u = std::max(u, len(wa)); ew = std::max(ew, len(y.v(wa) - wb)); }
			for (int m = 2; m < nc + ntr; m++) for (int l = 0; l < (m < nc ? A->nk(m) : g.nlev); l++) { double va, vb; if (m >= nc) { va = p->GetDataTracers(0)(m - nc, i, j, l); vb = pb->GetDataTracers(0)(m - nc, ib, jb, l); } else if (m == 3) { va = vertAt(*A, p, 0, i, j, l); vb = vertAt(*B, pb, 0, ib, jb, l); } else { va = A->data(p, 0, m)(m, i, j, l); vb = B->data(pb, 0, m)(m, ib, jb, l); } big[m] = std::max(big[m], fabs(va)); e[m] = std::max(e[m], fabs(va - vb)); } });
		c.check(miss == 0, "grid is not symmetric", "%ld nodes have no image", miss);
		double tol = !k ? 1e-12 : sw ? 1e-10 : g.scheme == "ark232" ? 1e-7 : 1e-8, cs = sw ? sqrt(10 * d.H0) : 340;
		if (getenv("P20V")) { if (ew > 1e-8 * cs && k) fprintf(stderr, "DESC %s\n", c.strDesc.c_str()); fprintf(stderr, "P20 k %d wind %.1e ", k, ew / (cs + u)); for (int m = 2; m < nc + ntr; m++) fprintf(stderr, "c%d %.1e ", m, m == 3 ? e[m] / cs : e[m] / (big[m] + 1e-300)); fprintf(stderr, "%s %s\n", g.scheme.c_str(), sw ? "sw" : "nh"); }
		c.check(ew <= tol * (cs + u), k ? "wind of the moved state differs" : "initial wind of the moved state differs", "step %d: by %.3e m/s of %.3g", k, ew, cs + u);
		for (int m = 2; m < nc + ntr; m++) c.check(e[m] <= tol * (m == 3 && !sw ? cs : big[m]), m >= nc ? "tracer of the moved state differs" : "state of the moved state differs", "step %d component %d: by %.3e of %.3g", k, m, e[m], big[m]);
	}
	c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "twin", twin, 1 } }, [] { initMPI(); }); }
