// P25: Held-Suarez forcing relaxes temperature and low-level wind at the published rates for the state's own pressure, and nothing else.
#include "dyn.h"
#include "HeldSuarezPhysics.h"
using namespace pbt; using namespace mu;
static double hsTeq(double p, double lat) { double a = 315 - 60 * sin(lat) * sin(lat) - 10 * log(p / 1e5) * cos(lat) * cos(lat); return std::max(200.0, a * pow(p / 1e5, 2.0 / 7)); }
static void forcing(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.model = 1; o.walls = false; o.tracers = true; o.schemes = { "strang" }; o.domain = s.coin(4, 5) ? 1 : 0; genDyn(s, c, d, o); Cfg & g = d.g; if (g.sphere) { g.ne = std::min(g.ne, 2); if (g.np == 54) g.np = 6; if (g.np == 24) g.ne = 2; } g.nlev = g.vo * std::max(g.nlev / g.vo, (8 + g.vo - 1) / g.vo); d.hasTopo = d.hasTopo && s.coin(); if (g.vo == 1 || g.disc) g.nlev *= 2;
	double per = s.logreal(1, 2.5e5); int days = (int)(per / 86400), us = s.coin() ? 0 : 500000; int sec = (int)(per - 86400.0 * days); if (!days && !sec) sec = 1; double dt = 86400.0 * days + sec + us * 1e-6; c.desc(" every %d days %d.%06d s staggering %d levels %d", days, sec, us, g.stag, g.nlev); std::unique_ptr<Sim> S(build(d)); const PhysicalConstants & ph = S->phys(); double Rd = ph.GetR(), cp = ph.GetCp(), p0 = ph.GetP0(), G = ph.GetG(); bool cph = S->loc(2) == DataLocation_REdge;
	// columns of the caller's own pressure and temperature; sometimes exactly at equilibrium
	int kind = (int)s.weighted({ 4, 2, 1 }); double dT = s.real(5, 60), ps0 = s.real(0.7e5, 1.2e5), w1 = s.real(1, 6), wn = s.logreal(0.1, 60); static const char * KN[] = { "any temperature", "equilibrium and rest", "equilibrium" }; c.desc(" %s dT %.3g ps %.5g", KN[kind], dT, ps0); c.cls(KN[kind]); c.cls(cph ? "temperature on interfaces" : "temperature on levels"); c.cls(dt > 3600 ? "long step" : "short step");
	auto column = [&](double x, double y, double z, double & pr, double & T) { double lat = g.sphere ? y : y; /* the forcing reads latitude from the grid's second coordinate */ double f = 1 + 0.15 * sin(w1 * x * (g.sphere ? 1 : 1e-5) + y * (g.sphere ? 1 : 1e-5)); pr = ps0 * f * exp(-z / 7500); T = hsTeq(pr, lat); if (kind == 0) T += dT * sin(w1 * x * (g.sphere ? 1 : 2e-5) + z / 3000 + 1); };
	auto P = [&](double rt) { return p0 * pow(Rd * rt / p0, cp / (cp - Rd)); }; auto RT = [&](double p) { return p0 / Rd * pow(p / p0, (cp - Rd) / cp); };
	double junk = s.coin() ? 1.0 : 3.0; S->each([&](GridPatchGLL * p, int i, int j) { double x = p->GetLongitude()(i, j), y = p->GetLatitude()(i, j); DataArray4D<double> & n = p->GetDataState(0, DataLocation_Node), & e = p->GetDataState(0, DataLocation_REdge);
		for (int k = 0; k <= g.nlev; k++) for (int l = 0; l < 2; l++) { if (!l && k == g.nlev) continue; double pr, T; column(x, y, (l ? p->GetZInterfaces()(i, j, k) : p->GetZLevels()(i, j, k)), pr, T); DataArray4D<double> & D = l ? e : n; bool own4 = (S->loc(4) == DataLocation_REdge) == (l == 1), own2 = (S->loc(2) == DataLocation_REdge) == (l == 1); D(4, i, j, k) = own4 ? pr / (Rd * T) : junk * pr / (Rd * T) ; D(2, i, j, k) = own2 ? RT(pr) : junk * RT(pr); bool own0 = (S->loc(0) == DataLocation_REdge) == (l == 1); double sc = g.sphere ? ph.GetEarthRadius() : 1; D(0, i, j, k) = own0 ? (kind == 1 ? 0 : sc * wn * sin(3 * x + k)) : 0; D(1, i, j, k) = own0 ? (kind == 1 ? 0 : sc * wn * cos(2 * x - k)) : 0; } });
	// (with temperature on interfaces, density there is interpolated from the levels by the forcing)
	std::vector<double> before = dump(*S, 0); S->pg->CopyData(0, 1, DataType_State); Time fr(0, 0, days, sec, us, Time::CalendarNoLeap, Time::TypeDelta); HeldSuarezPhysics F(S->m, fr); F.Initialize(S->now()); F.Perform(S->now()); S->pg->InterpolateNodeToREdge(2, 1);
	int low = 0, high = 0; const double day = 86400;
	S->each([&](GridPatchGLL * p, int i, int j) { DataArray4D<double> & n0 = p->GetDataState(1, DataLocation_Node), & n1 = p->GetDataState(0, DataLocation_Node), & e0 = p->GetDataState(1, DataLocation_REdge), & e1 = p->GetDataState(0, DataLocation_REdge); double lat = p->GetLatitude()(i, j), x = p->GetLongitude()(i, j);
		double ps, T; column(x, lat, p->GetZInterfaces()(i, j, 0), ps, T); double pe = P(e0(2, i, j, 0)), pl = std::min(ps, pe) * 0.998, ph_ = std::max(ps, pe) * 1.002; if (pl < 0.9 * ph_) c.discard();
		auto scale = [&](double pr, double & lo, double & hi) { lo = std::max(0.0, (pr / ph_ - 0.7) / 0.3); hi = std::max(0.0, (pr / pl - 0.7) / 0.3); };
		for (int k = 0; k < g.nlev; k++) { double pr; if (!cph) pr = P(n0(2, i, j, k)); else { column(x, lat, p->GetZLevels()(i, j, k), pr, T); } double lo, hi; scale(pr, lo, hi); if (cph) { hi += 0.05; lo = std::max(0.0, lo - 0.05); }
			for (int q = 0; q < 2; q++) { double a = n0(q, i, j, k), b = n1(q, i, j, k), mx = fabs(a) * (1 - std::min(lo * dt / day / (1 + lo * dt / day), 1 - exp(-lo * dt / day))) , mn = fabs(a) * std::min(exp(-hi * dt / day), 1 / (1 + hi * dt / day)); if (hi == 0) { c.check(a == b, "wind above the boundary layer is changed", "level %d sigma %.4f: %.12g -> %.12g", k, pr / ps, a, b); high++; } else { c.check(a * b >= 0 && fabs(b) <= mx * (1 + 1e-12) && fabs(b) >= mn * (1 - 1e-12), "low-level wind is not damped at the published rate", "level %d sigma %.4f: factor %.8g, expected %.8g..%.8g", k, pr / ps, b / a, mn / fabs(a), mx / fabs(a)); if (lo > 0) low++; } }
			c.check(n1(4, i, j, k) == n0(4, i, j, k), "density is changed", "level %d: %.17g -> %.17g", k, n0(4, i, j, k), n1(4, i, j, k)); }
		if (!cph) for (int k = 0; k <= g.nlev; k++) c.check(e1(3, i, j, k) == e0(3, i, j, k), "vertical velocity is changed", "interface %d", k);
		for (int k = 0; k < (cph ? g.nlev + 1 : g.nlev); k++) { double rt0 = cph ? e0(2, i, j, k) : n0(2, i, j, k), rt1 = cph ? e1(2, i, j, k) : n1(2, i, j, k), rho = cph ? e1(4, i, j, k) : n0(4, i, j, k), pr = P(rt0), T0 = pr / (rho * Rd), T1 = P(rt1) / (rho * Rd), Te = hsTeq(pr, lat), lo, hi; scale(pr, lo, hi); double c4 = pow(cos(lat), 4), k0 = (1 / 40.0 + (0.25 - 1 / 40.0) * lo * c4) / day * dt, k1 = (1 / 40.0 + (0.25 - 1 / 40.0) * hi * c4) / day * dt, gap = Te - T0, fl = 1e-10 * T0;
			if (fabs(gap) < 1e-9 * T0) { c.check(fabs(T1 - T0) <= fl, "temperature at equilibrium is changed", "level %d: %.15g -> %.15g", k, T0, T1); continue; }
			double f = (T1 - T0) / gap, e = fl / fabs(gap), r = std::max(Te / T0, T0 / Te);
			c.check(f >= -e && f <= 1 + e, "temperature does not move toward equilibrium or passes it", "level %d T %.8g equilibrium %.8g -> %.8g", k, T0, Te, T1);
			c.check(f >= k0 * (1 - 2 * r * k0) - e && f <= k1 * (1 + 2 * r * k1) + e && f >= 0.5 * k0 / (1 + k0) / r - e, "temperature is not relaxed at the published rate", "level %d sigma %.4f T %.8g equilibrium %.8g: fraction %.10g, expected about %.10g..%.10g", k, pr / ps, T0, Te, f, k0, k1); }
		for (int t = 0; t < g.ntr; t++) { } });
	std::vector<double> after = dump(*S, 0); size_t at = 0; for (int q = 0; q < 5; q++) at += (size_t)S->nk(q) * (before.size() - 0) * 0; if (g.ntr) { size_t nt = 0; S->each([&](GridPatchGLL *, int, int) { nt += (size_t)g.ntr * g.nlev; }); for (size_t q = before.size() - nt; q < before.size(); q++) c.check(before[q] == after[q], "tracers are changed", "%.17g -> %.17g", before[q], after[q]); }
	c.check(!F.IsReady(S->now()), "due again at once", "x"); if (kind == 1 || (low && high)) c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "forcing", forcing, 1 } }, [] { initMPI(); }); }
