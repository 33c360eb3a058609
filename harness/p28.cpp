// P28: a run resumed from any of its restart files goes on exactly as the run that was never stopped.
#include "interp_ref.h"
#include "TempestInitialize.h"
using namespace pbt; using namespace mu;
struct Rec : public OutputManager {
	Sim & S; std::vector<Time> t; std::vector<std::vector<double>> v; Rec(Sim & S, const Time & f) : OutputManager(*S.pg, f, "", "r", -1), S(S) { }
	void Output(const Time & x) { std::vector<double> d = dump(S, 0); int nc = S.g.sw ? 3 : 5; for (int l = 0; l < 2; l++) { DataArray1D<double> c; if (!l || S.g.ntr) { S.pg->Checksum(l ? DataType_Tracers : DataType_State, c, 0, ChecksumType_L2); for (size_t i = 0; i < c.GetRows(); i++) d.push_back(c[i]); } } d.push_back(S.pg->ComputeTotalEnergy(0)); t.push_back(x); v.push_back(d); }
};
static Time delta(long us) { long d = us / 86400000000L; us %= 86400000000L; return Time(0, 0, (int)d, (int)(us / 1000000), (int)(us % 1000000), Time::CalendarNoLeap, Time::TypeDelta); }
/* the model programs' own set-up of a run that starts from a restart file */
static Grid * driverResume(Model & m, const Cfg & g) {
	_TempestCommandLineVariables v; v.fNoOutput = true; v.strRestartFile = g.restart; v.fRestartPerturbation = false; v.nOutputsPerFile = -1; v.timeOutputDeltaT = Time(0, 0, 1, 0, 0, Time::CalendarNoLeap, Time::TypeDelta);
	v.timeDeltaT = Time(0, 0, 0, 1, 0, Time::CalendarNoLeap, Time::TypeDelta); v.timeEndTime = Time(1, 0, 0, 10, 0, Time::CalendarNoLeap);
	v.timeOutputRestartDeltaT = Time(0, 0, 0, 0, 0, Time::CalendarNoLeap, Time::TypeDelta); v.nOutputResX = v.nOutputResY = v.nOutputResZ = 0; v.fOutputVorticity = v.fOutputDivergence = v.fOutputTemperature = v.fOutputSurfacePressure = v.fOutputRichardson = false;
	v.fNoReferenceState = !g.useRef; v.fNoTracers = g.ntr == 0; v.fNoHyperviscosity = false; v.nHyperviscosityOrder = g.hvOrder; v.dNuScalar = g.nuS; v.dNuDiv = g.nuD; v.dNuVort = g.nuV; v.dInstepNuDiv = g.instep; v.fExplicitVertical = g.expl;
	v.strVerticalStaggering = "LOR"; v.fForceMassFluxOnLevels = g.forceMass; v.strVerticalStretch = g.stretch == "" ? "uniform" : g.stretch; v.strVerticalDiscretization = g.disc == Grid::VerticalDiscretization_FiniteVolume ? "FV" : "FE"; v.nVerticalHyperdiffOrder = g.vhv;
	v.strTimestepScheme = g.scheme; v.strHorizontalDynamics = g.hm; v.strVerticalDynamics = g.vm; v.nResolutionX = g.sphere ? g.ne : g.nx; v.nResolutionY = g.ny; v.nLevels = g.nlev; v.nHorizontalOrder = g.ho; v.nVerticalOrder = g.vo;
	if (g.sphere) _TempestSetupCubedSphereModel(m, v); else { double gd[6]; int bc[4]; for (int i = 0; i < 6; i++) gd[i] = g.gd[i]; for (int i = 0; i < 4; i++) bc[i] = g.bc[i]; _TempestSetupCartesianModel(m, gd, g.reflat, bc, g.xz, v); }
	return m.GetGrid();
}
static void resume(Src & s, Ctx & c) {
	Dyn d; DynOpt o; o.schemes = { "erk", "erk/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332" }; genDyn(s, c, d, o); genVisc(s, c, d); Cfg g = d.g; if (g.sphere && g.np == 54) { g.np = 6; } d.g = g;
	bool ray = s.coin(1, 3); setCase(d); Scratch dir; if (ray) { double zt = d.ztop, sc = 0.1 / d.dt; bool sw = g.sw; d.tc->rayleigh = [=](double z, double, double) { return sw ? sc : z > 0.6 * zt ? sc * (z / zt - 0.6) : 0.0; }; if (!d.tc->ref) { auto st = d.tc->state; d.tc->ref = st; } }
	int n = (int)s.irange(2, 6), every = (int)s.irange(1, n - 1), ofreq = 1; std::vector<int> dv; for (int q = 1; q <= every; q++) if (every % q == 0) dv.push_back(q); ofreq = s.pick(dv); long dt = std::max(1L, (long)(d.dt * 1e6)); int cut = every * (int)s.irange(1, (n - 1) / every); bool part = s.coin(1, 3); long run = dt * n - (part ? (long)(dt * 0.4) : 0);
	Time start((int)s.irange(1, 3000), (int)s.draw(11), (int)s.draw(27), (int)s.draw(86399), (int)s.draw(999999), Time::CalendarNoLeap), end = start; { Time x = delta(run); end += x; } Time tdt = delta(dt), tout = delta(dt * ofreq), tres = delta(dt * every);
	c.desc(" %d steps of %ld us%s, output every %d, restart files every %d, resumed from step %d friction %d", n, dt, part ? " (last short)" : "", ofreq, every, cut, ray); c.cls(ray ? "friction" : "no friction"); c.cls(part ? "last step short" : "whole steps");
	auto go = [&](Sim & S, Rec *& r, bool files, bool resumed) { S.m.SetDeltaT(tdt); if (!resumed) S.m.SetStartTime(start); S.m.SetEndTime(end); r = new Rec(S, tout); r->m_fFromRestartFile = resumed; S.m.AttachOutputManager(r); if (files) S.m.AttachOutputManager(new OutputManagerComposite(*S.pg, tres, dir.d + "/out", "f", resumed ? "resumed" : "")); if (resumed) FunctionTimer::m_mapGroupData.clear(); S.m.Go(); };
	Case tmpl = *d.tc; std::unique_ptr<Sim> A(new Sim(d.g, d.tc)); Rec * ra = NULL; try { go(*A, ra, true, false); } catch (Exception & e) { if (e.ToString().find("Inversion failure") != std::string::npos) { c.discard(); return; } throw; } if (!finite(*A, 0)) { c.discard(); return; } for (auto & o : ra->v) for (double x : o) if (!std::isfinite(x)) { c.discard(); return; }
	Time at = start; { Time x = delta(dt * cut); at += x; } if (at.ToShortString() == end.ToShortString()) { c.discard(); return; } { Time u = at; for (int q = cut + every; q < n; q += every) { Time x = delta(dt * every); u += x; if (u.ToShortString() == at.ToShortString()) { c.discard(); return; } } } /* (file names resolve seconds) */ std::string f = dir.d + "/out/f." + at.ToShortString() + ".restart.dat"; c.check(access(f.c_str(), R_OK) == 0, "restart file is missing", "%s", f.c_str() + dir.d.size());
	Cfg h = d.g; h.restart = f; std::unique_ptr<Sim> B(new Sim(h, new Case(tmpl))); c.check(B->m.GetStartTime() == at, "restart file holds the wrong time", "%s, expected %s", B->m.GetStartTime().ToString().c_str(), at.ToString().c_str());
	const PhysicalConstants & p1 = A->phys(), & p2 = B->phys(); c.check(p1.GetEarthRadius() == p2.GetEarthRadius() && p1.GetOmega() == p2.GetOmega() && p1.GetG() == p2.GetG(), "physical constants of the run are lost on resuming", "radius %g, %g omega %g, %g", p1.GetEarthRadius(), p2.GetEarthRadius(), p1.GetOmega(), p2.GetOmega());
	Rec * rb = NULL; go(*B, rb, false, true);
	size_t k0 = 0; while (k0 < ra->t.size() && ra->t[k0] <= at) k0++; c.check(ra->t.size() - k0 == rb->t.size(), "resumed run writes a different number of outputs", "%d after the restart, resumed run %d", (int)(ra->t.size() - k0), (int)rb->t.size());
	for (size_t k = 0; k < rb->t.size(); k++) { c.check(ra->t[k0 + k] == rb->t[k], "resumed run writes outputs at other times", "%s, %s", ra->t[k0 + k].ToString().c_str(), rb->t[k].ToString().c_str()); std::vector<double> & x = ra->v[k0 + k], & y = rb->v[k]; c.check(x.size() == y.size(), "resumed run has other fields", "%d %d", (int)x.size(), (int)y.size()); double sc = 0; size_t bad = 0; double worst = 0; for (size_t i = 0; i < x.size(); i++) { double e = fabs(x[i] - y[i]) / (fabs(x[i]) + 1e-6); if (!(e <= worst)) { worst = e; bad = i; } } c.check(worst <= 1e-9, "resumed run differs from the uninterrupted one", "output %d value %d of %d: %.17g, resumed %.17g", (int)k, (int)bad, (int)x.size(), x[bad], y[bad]); }
	c.check(B->m.GetCurrentTime() == end, "resumed run ends at another time", "%s", B->m.GetCurrentTime().ToString().c_str()); c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "resume", resume, 1 } }, [] { initMPI(); resumeWith() = driverResume; }); }
