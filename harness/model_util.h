// Builds a whole model (grid, dynamics, integrator, initial state) from a plain description,
// so that a harness can drive it one operation at a time.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <mpi.h>
#include <unistd.h>
#define protected public
#define private public
#include "Tempest.h"
#include "CubedSphereTrans.h"
#include "GridPatchGLL.h"
#include "GridPatchCSGLL.h"
#include "GridPatchCartesianGLL.h"
#include "VerticalStretch.h"
#include "TimestepSchemeSplitExp.h"
#include "LinearColumnOperatorFEM.h"
#include "FunctionTimer.h"
#undef protected
#undef private

namespace mu {

struct Cfg {
	bool sphere = true, sw = false;
	int np = 6, ne = 3, nx = 4, ny = 4;          // patches; elements per panel side / per box side
	int ho = 4, nlev = 1, vo = 1;
	int disc = 0, stag = 2;                       // 0 finite element 1 finite volume; 0 lev 1 int 2 cph 3 lorenz
	double gd[6] = { 0, 1000, 0, 1000, 0, 1000 };
	double reflat = 0;
	int bc[4] = { 0, 0, 0, 0 };                   // right, top, left, bottom: 0 periodic 1 no flux 2 no slip
	bool xz = false;
	int ntr = 0, nuser = 0;                       // tracers; two-dimensional user fields
	std::string scheme = "strang", hm = "v1", vm = "v1", stretch = "uniform";
	int hvOrder = 0; double nuS = 0, nuD = 0, nuV = 0, instep = 0;
	int vhv = 0; bool expl = false, useRef = true, forceMass = false;
	std::string restart;                          // build from this restart file
	double refLen = 0;                            // 0: the grid's own
};

struct Case : public TestCase {
	int eqn = 2, nc = 5, nt = 0; double ztop = 10000;
	// the callers' arrays hold exactly the components and tracers of the equation set
	template <class F> void guarded(F f, double * s, double * q) const {
		double S[8] = { 0 }, Q[32] = { 0 }; f(S, Q);
		for (int c = 0; c < nc; c++) s[c] = S[c];
		if (q) for (int c = 0; c < nt; c++) q[c] = Q[c];
	}
	std::function<void(PhysicalConstants &)> phys;
	std::function<double(double, double)> topo;
	std::function<void(const PhysicalConstants &, double, double, double, double *, double *)> state, ref;
	std::function<double(double, double, double)> rayleigh;
	virtual int GetTracerCount() const { return 0; }
	virtual double GetZtop() const { return ztop; }
	virtual EquationSet::Type GetEquationSetType() const { return eqn; }
	virtual void EvaluatePhysicalConstants(PhysicalConstants & p) const { if (phys) phys(p); }
	virtual double EvaluateTopography(const PhysicalConstants & p, double lon, double lat) const { return topo ? topo(lon, lat) : 0.0; }
	virtual bool HasRayleighFriction() const { return (bool)rayleigh; }
	virtual double EvaluateRayleighStrength(double z, double lon, double lat) const { return rayleigh ? rayleigh(z, lon, lat) : 0.0; }
	virtual bool HasReferenceState() const { return (bool)ref; }
	virtual void EvaluateReferenceState(const PhysicalConstants & p, double z, double lon, double lat, double * s, double * t) const { guarded([&](double * S, double * Q) { ref(p, z, lon, lat, S, Q); }, s, t); }
	virtual void EvaluateReferenceState(const PhysicalConstants & p, double z, double lon, double lat, double * s) const { guarded([&](double * S, double * Q) { ref(p, z, lon, lat, S, Q); }, s, NULL); }
	virtual void EvaluatePointwiseState(const PhysicalConstants & p, const Time & t, double z, double lon, double lat, double * s, double * q) const { guarded([&](double * S, double * Q) { state(p, z, lon, lat, S, Q); }, s, q); }
	virtual void EvaluatePointwisePerturbation(const PhysicalConstants & p, const Time & t, double z, double lon, double lat, double * s, double * q) const { }
};

inline void initMPI() {
	int f = 0; MPI_Initialized(&f);
	if (f) return;
	setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);
	setenv("OMPI_ALLOW_RUN_AS_ROOT", "1", 1); setenv("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1", 1);
	setenv("OMPI_MCA_btl", "self", 0); setenv("OMPI_MCA_pml", "ob1", 0); setenv("OMPI_MCA_btl_vader_single_copy_mechanism", "none", 0);
	int argc = 1; char nm[] = "h"; char * av[] = { nm, NULL }; char ** argv = av;
	MPI_Init(&argc, &argv);
	AnnounceOutputOnAllRanks(); AnnounceSetVerbosityLevel(-100); AnnounceSetOutputBuffer(fopen("/dev/null", "w"));
}

inline EquationSet eqnSet(const Cfg & g) {
	EquationSet e(g.sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations);
	for (int t = 0; t < g.ntr; t++) { char a[16]; sprintf(a, "Q%d", t); e.InsertTracer(a, a); }
	return e;
}

inline TimestepScheme * newScheme(Model & m, const std::string & s) {
	typedef TimestepSchemeStrang S; typedef TimestepSchemeERK E;
	if (s == "strang") return new S(m);
	if (s == "strang/fe") return new S(m, 0.0, S::ForwardEuler);
	if (s == "strang/rk4") return new S(m, 0.0, S::RungeKutta4);
	if (s == "strang/rk3") return new S(m, 0.0, S::RungeKuttaSSP3);
	if (s == "strang/kgu35") return new S(m, 0.0, S::KinnmarkGrayUllrich35);
	if (s == "strang/ssprk53") return new S(m, 0.0, S::RungeKuttaSSPRK53);
	if (s == "erk") return new E(m);
	if (s == "erk/fe") return new E(m, E::ForwardEuler);
	if (s == "erk/rk4") return new E(m, E::RungeKutta4);
	if (s == "erk/rk3") return new E(m, E::RungeKuttaSSP3);
	if (s == "erk/kgu35") return new E(m, E::KinnmarkGrayUllrich35);
	if (s == "erk/ssprk53") return new E(m, E::RungeKuttaSSPRK53);
	if (s == "ars222") return new TimestepSchemeARS222(m);
	if (s == "ars232") return new TimestepSchemeARS232(m);
	if (s == "ark232") return new TimestepSchemeARK232(m);
	if (s == "gark2") return new TimestepSchemeGARK2(m);
	if (s == "ars343") return new TimestepSchemeARS343(m);
	if (s == "ars443") return new TimestepSchemeARS443(m);
	if (s == "ssp3_332") return new TimestepSchemeSSP3332(m);
	if (s == "spex") return new TimestepSchemeSplitExp(m);
	_EXCEPTION1("unknown scheme %s", s.c_str());
}

/* how a model is set up from a restart file: the harness that resumes runs sets this */
typedef Grid * (*ResumeFn)(Model &, const Cfg &);
inline ResumeFn & resumeWith() { static ResumeFn f = NULL; return f; }

struct Sim {
	Cfg g; Model m; Grid * pg; Case * tc;
	Sim(const Cfg & cfg, Case * c, HorizontalDynamics * (*hmake)(Model &, const Cfg &) = NULL, VerticalDynamics * (*vmake)(Model &, const Cfg &) = NULL)
		: g(cfg), m(eqnSet(cfg)), pg(NULL), tc(c) {
		initMPI();
		for (int u = 0; u < g.nuser; u++) m.m_metaUserData.InsertDataItem2D("UD" + std::to_string(u));
		c->eqn = g.sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations; c->nc = g.sw ? 3 : 5; c->nt = g.ntr;
		m.SetDeltaT(Time(0, 0, 0, 1, 0)); m.SetStartTime(Time(1, 0, 0, 0, 0, Time::CalendarNoLeap)); m.SetEndTime(Time(1, 0, 0, 10, 0, Time::CalendarNoLeap));
		if (g.restart != "") { pg = resumeWith()(m, g); m.SetTestCase(c); first = true; t = 0; return; }
		m.SetTimestepScheme(newScheme(m, g.scheme));
		if (hmake) m.SetHorizontalDynamics(hmake(m, g));
		else if (g.hm == "v1") m.SetHorizontalDynamics(new HorizontalDynamicsFEM(m, g.ho, g.hvOrder, g.nuS, g.nuD, g.nuV, g.instep));
		else if (g.hm == "v2") m.SetHorizontalDynamics(new HorizontalDynamicsFEMV2(m, g.ho, g.hvOrder, g.nuS, g.nuD, g.nuV, g.instep));
		else if (g.hm == "spex") m.SetHorizontalDynamics(new SplitExplicitDynamics(m, g.ho, g.hvOrder, g.nuS, g.nuD, g.nuV, g.instep));
		else m.SetHorizontalDynamics(new HighSpeedDynamics(m, g.ho, g.hvOrder, g.nuS, g.nuD, g.nuV, g.instep));
		if (vmake) m.SetVerticalDynamics(vmake(m, g));
		else if (g.nlev == 1 || g.vm == "none") m.SetVerticalDynamics(new VerticalDynamicsStub(m));
		else if (g.vm == "v1") m.SetVerticalDynamics(new VerticalDynamicsFEM(m, g.ho, g.vo, g.vhv, g.expl, g.useRef, g.forceMass));
		else if (g.vm == "v2") m.SetVerticalDynamics(new VerticalDynamicsFEMV2(m, g.ho, g.vo, g.vhv, g.expl, g.useRef, g.forceMass));
		else m.SetVerticalDynamics(new VerticalDynamicsSchur(m, g.ho, g.vo, g.vhv, g.expl, g.useRef, g.forceMass));
		if (g.sphere) {
			GridCSGLL * p = new GridCSGLL(m); pg = p;
			p->DefineParameters();
			p->SetParameters(g.nlev, std::max(6, g.np), g.ne, 4, g.ho, g.vo, g.disc, g.stag);
		} else {
			GridCartesianGLL * p = new GridCartesianGLL(m); pg = p;
			p->DefineParameters();
			p->SetParameters(g.nlev, std::max(6, g.np), g.nx, g.ny, 4, g.ho, g.vo, g.gd, g.reflat, g.bc, g.xz, g.disc, g.stag);
		}
		pg->InitializeDataLocal();
		if (g.stretch == "cubic") pg->SetVerticalStretchFunction(new VerticalStretchCubic);
		if (g.stretch == "pwlinear") pg->SetVerticalStretchFunction(new VerticalStretchPiecewiseLinear);
		m.SetGrid(pg, g.np);
		if (g.refLen > 0) pg->SetReferenceLength(g.refLen);
		m.SetTestCase(c);
		pg->EvaluateGeometricTerms();
		pg->ApplyBoundaryConditions();
		m.GetTimestepScheme()->Initialize();
		m.GetHorizontalDynamics()->Initialize();
		m.GetVerticalDynamics()->Initialize();
		m.SetCurrentTime(m.GetStartTime());
		first = true; t = 0;
	}
	bool first; double t;
	Time now() { Time x = m.GetStartTime(); x += t; return x; }
	void step(double dt, bool last = false) { m.GetTimestepScheme()->Step(first, last, now(), dt); first = false; t += dt; }
	int nPatch() { return pg->GetActivePatchCount(); }
	GridPatchGLL * patch(int n) { return dynamic_cast<GridPatchGLL *>(pg->GetActivePatch(n)); }
	const PhysicalConstants & phys() { return m.GetPhysicalConstants(); }
	int nComp() { return m.GetEquationSet().GetComponents(); }
	// f(patch, i, j) on every interior node
	void each(std::function<void(GridPatchGLL *, int, int)> f) {
		for (int n = 0; n < nPatch(); n++) {
			GridPatchGLL * p = patch(n); const PatchBox & b = p->GetPatchBox();
			for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) f(p, i, j);
		}
	}
	// where the solver keeps component c
	DataLocation loc(int c) { return pg->GetVarLocation(c); }
	DataArray4D<double> & data(GridPatch * p, int ix, int c) { return p->GetDataState(ix, pg->GetVarLocation(c)); }
	int nk(int c) { return g.nlev + (loc(c) == DataLocation_REdge ? 1 : 0); }
	// Position of a node: unit vector on the sphere (for a box: x, y)
	void rll(GridPatch * p, int i, int j, double & lon, double & lat) { lon = p->GetLongitude()(i, j); lat = p->GetLatitude()(i, j); }
};

// every interior value of the state (where it lives) and the tracers, in a fixed order
inline std::vector<double> dump(Sim & s, int ix, bool tracers = true) {
	std::vector<double> v;
	for (int c = 0; c < s.nComp(); c++) s.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < s.nk(c); k++) v.push_back(s.data(p, ix, c)(c, i, j, k)); });
	if (tracers) for (int c = 0; c < s.g.ntr; c++) s.each([&](GridPatchGLL * p, int i, int j) { for (int k = 0; k < s.g.nlev; k++) v.push_back(p->GetDataTracers(ix)(c, i, j, k)); });
	return v;
}

}
