// P29: the time loop ends exactly at the requested end, and outputs, output files and periodic activities happen exactly when they are due.
#include "dyn.h"
#include "WorkflowProcess.h"
using namespace pbt; using namespace mu;
typedef std::vector<std::pair<Time, double>> Stamps;   // time label, model clock (sum of the step lengths given to the integrator)
struct Clock : public TimestepScheme {
	double t; int n; bool last; std::vector<double> dts; std::vector<Time> at; std::vector<int> fl; std::string * log;
	Clock(Model & m) : TimestepScheme(m), t(0), n(0), last(false) { }
	int GetComponentDataInstances() const { return 2; } int GetTracerDataInstances() const { return 2; }
	void Step(bool f, bool l, const Time & time, double dt) { dts.push_back(dt); at.push_back(time); fl.push_back((f ? 1 : 0) + (l ? 2 : 0)); t += dt; n++; }
};
struct Out : public OutputManager {
	Clock & k; std::vector<std::string> opened; std::vector<int> perFile; std::vector<Time> labels, first; std::vector<double> clock; bool open; int bad; bool refuse;
	Out(Grid & g, const Time & f, const std::string & pre, int nper, Clock & k) : OutputManager(g, f, "", pre, nper), k(k), open(false), bad(0), refuse(false) { }
	bool OpenFile(const std::string & n) { if (refuse) return false; if (open) bad |= 1; open = true; opened.push_back(n); perFile.push_back(0); return true; }
	void CloseFile() { if (!open) bad |= 2; open = false; }
	void Output(const Time & t) { if (!open || perFile.empty()) { bad |= 4; return; } if (!perFile.back()) first.push_back(t); perFile.back()++; labels.push_back(t); clock.push_back(k.t); }
};
struct Work : public WorkflowProcess {
	Clock & k; std::vector<Time> labels; std::vector<double> clock; std::vector<int> order; std::vector<Out *> * outs;
	Work(Model & m, const Time & f, Clock & k) : WorkflowProcess(m, f), k(k), outs(NULL) { }
	void Perform(const Time & t) { WorkflowProcess::Perform(t); labels.push_back(t); clock.push_back(k.t); if (outs) for (auto o : *outs) if (!o->labels.empty() && o->labels.back() == t) order.push_back(1); }
};
static Time delta(long us, int months = 0) { long d = us / 86400000000L; us %= 86400000000L; return Time(0, months, (int)d, (int)(us / 1000000), (int)(us % 1000000), Time::CalendarNoLeap, Time::TypeDelta); }

static void schedule(Src & s, Ctx & c) {
	Cfg g; g.sphere = false; g.sw = true; g.np = 1; g.nx = g.ny = 1; g.nlev = 1; g.vo = 1; g.gd[1] = g.gd[3] = 1000; g.gd[5] = 1; g.stag = 3; Case & k = *new Case; k.ztop = 1; k.phys = [](PhysicalConstants & p) { }; k.state = [](const PhysicalConstants &, double, double, double, double * S, double * Q) { S[2] = 100; };
	std::unique_ptr<Sim> S(new Sim(g, &k)); Clock * ck = new Clock(S->m); delete S->m.m_pTimestepScheme; S->m.m_pTimestepScheme = ck;
	// step, length of the run and start
	static const std::vector<long> U = { 1, 100000, 500000, 1000000, 60000000L, 3600000000L, 86400000000L };
	long dt = s.pick(U) * s.irange(1, 40); if (s.coin(1, 4)) dt += s.irange(1, 999999); int n = (int)s.irange(1, 30); long run = dt * n; int rk = (int)s.weighted({ 4, 3, 1 }); if (rk == 1) run += 1 + (long)s.real(0, (double)dt - 1); if (rk == 2) run = std::max(1L, (long)s.real(0, (double)dt));
	Time::CalendarType cal = Time::CalendarNoLeap; /* the standard calendar refuses differences of times, so it cannot run */ int yr = (int)s.irange(1, 2100), mo = (int)s.irange(0, 11), dy = (int)s.irange(0, 27), sec = (int)s.irange(0, 86399); if (s.coin(1, 3)) { mo = (int)(s.coin() ? 1 : 11); dy = 27; sec = 86400 - (int)s.irange(1, 100); }
	Time start(yr, mo, dy, sec, s.coin() ? 0 : (int)s.irange(0, 999999), cal), end = start; { Time d = delta(run); end += d; } Time tdt = delta(dt);
	S->m.SetStartTime(start); S->m.SetEndTime(end); S->m.SetDeltaT(tdt); c.desc("start %s run %.6f s step %.6f s", start.ToString().c_str(), run * 1e-6, dt * 1e-6);
	bool none = s.coin(1, 40); if (none) { S->m.SetEndTime(s.coin() ? start : [&] { Time e = start; e += tdt; S->m.SetStartTime(e); return start; }()); c.desc(" end not after start"); }
	// output managers and activities
	struct Freq { long us; int months; }; auto freq = [&](bool zero) { Freq f = { 0, 0 }; switch ((int)s.weighted({ 4, 3, 2, 2, zero ? 2 : 0, 1, 1 })) { case 0: f.us = dt * s.irange(1, 8); break; case 1: f.us = dt + (long)s.real(1, 6.0 * dt); break; case 2: f.us = std::max(1L, (long)(dt * s.real(0.05, 1))); break; case 3: f.us = std::max(1L, run / s.irange(1, 4)); break; case 4: break; case 5: f.us = run + s.irange(0, 5); break; case 6: if (dt < 27 * 86400000000L) f.months = (int)s.irange(1, 13); else f.us = dt; } return f; };
	std::vector<Out *> O; std::vector<Freq> FO; std::vector<int> NP; std::vector<bool> RS; int no = (int)s.weighted({ 1, 4, 3, 2 });
	for (int q = 0; q < no; q++) { Freq f = freq(true); int np = s.coin(1, 3) ? 1 : s.coin(1, 5) ? -1 : (int)s.irange(2, 9); bool rs = s.coin(1, 5); Out * o = new Out(*S->pg, f.months ? Time(0, f.months, 0, 0, 0, cal, Time::TypeDelta) : delta(f.us), "o" + std::to_string(q), np, *ck); o->m_fFromRestartFile = rs; S->m.AttachOutputManager(o); O.push_back(o); FO.push_back(f); NP.push_back(np); RS.push_back(rs); c.desc(" out(%.6f s %d mo, %d per file%s)", f.us * 1e-6, f.months, np, rs ? ", resumed" : ""); }
	std::vector<Work *> W; std::vector<Freq> FW; int nw = (int)s.weighted({ 2, 3, 1 }); for (int q = 0; q < nw; q++) { Freq f = freq(true); Work * w = new Work(S->m, f.months ? Time(0, f.months, 0, 0, 0, cal, Time::TypeDelta) : delta(f.us), *ck); w->outs = &O; S->m.AttachWorkflowProcess(w); W.push_back(w); FW.push_back(f); c.desc(" activity(%.6f s %d mo)", f.us * 1e-6, f.months); }
	S->m.Go();
	if (none) { c.cls("nothing to run"); c.check(ck->n == 0, "steps are taken though the end is not after the start", "%d steps", ck->n); for (auto w : W) c.check(w->labels.empty(), "activities run though nothing is to be run", "x"); return; }
	// the steps
	int want = (int)((run + dt - 1) / dt); std::vector<Time> T; { Time t = start; for (int i = 0; i < want - 1; i++) { t += tdt; T.push_back(t); } T.push_back(end); }
	c.check(ck->n == want, "number of steps is wrong", "%d steps, expected %d", ck->n, want); double tol = 1e-9 * (1 + run * 1e-6);
	c.check(fabs(ck->t - run * 1e-6) <= tol, "run does not end at the requested end", "steps add up to %.9f s, expected %.9f", ck->t, run * 1e-6); c.check(S->m.GetCurrentTime() == end, "run does not end at the requested end", "clock reads %s", S->m.GetCurrentTime().ToString().c_str());
	for (int i = 0; i < ck->n; i++) { c.check(ck->dts[i] > 0 && ck->dts[i] <= dt * 1e-6 * (1 + 1e-12) + 1e-9, "a step is longer than requested or not positive", "step %d: %.9f s", i + 1, ck->dts[i]); c.check(ck->at[i] == (i ? T[i - 1] : start), "a step starts at the wrong time", "step %d: %s", i + 1, ck->at[i].ToString().c_str()); c.check(ck->fl[i] == (i == 0 ? 1 : 0) + (i == want - 1 ? 2 : 0), "first and last steps are not marked", "step %d: flags %d", i + 1, ck->fl[i]); }
	// due[q]: steps at which something with this interval is due
	auto due = [&](const Freq & f, bool fin) { std::vector<int> v; if (f.us || f.months) { Time next = start, d = f.months ? Time(0, f.months, 0, 0, 0, cal, Time::TypeDelta) : delta(f.us); next += d; for (int i = 0; i < want; i++) { if (T[i] >= next) { if (!fin || i < want - 1) v.push_back(i); while (T[i] >= next) next += d; } } } if (fin) v.push_back(want - 1); return v; };
	for (int q = 0; q < no; q++) { Out & o = *O[q]; std::vector<int> v; if (!RS[q]) v.push_back(-1); for (int i : due(FO[q], true)) v.push_back(i);
		c.check(o.labels.size() == v.size(), "wrong number of outputs", "output %d: %d written, expected %d", q, (int)o.labels.size(), (int)v.size());
		for (size_t i = 0; i < v.size(); i++) { const Time & t = v[i] < 0 ? start : T[v[i]]; double el = v[i] < 0 ? 0 : v[i] == want - 1 ? run * 1e-6 : (v[i] + 1) * (dt * 1e-6); c.check(o.labels[i] == t, "output is labelled with the wrong time or not due then", "output %d number %d: %s, expected %s", q, (int)i, o.labels[i].ToString().c_str(), t.ToString().c_str()); c.check(fabs(o.clock[i] - el) <= tol, "output holds the state of another time", "output %d number %d: state at %.9f s, label %.9f s", q, (int)i, o.clock[i], el); }
		c.check(o.bad == 0, "output files are opened or closed out of turn", "output %d: %d", q, o.bad); int nf = NP[q] > 0 ? (int)((v.size() + NP[q] - 1) / NP[q]) : 1; c.check((int)o.opened.size() == nf, "outputs are not split over files as requested", "output %d: %d outputs in %d files, %d per file", q, (int)v.size(), (int)o.opened.size(), NP[q]);
		for (int i = 0; i < nf; i++) { int in = i < nf - 1 ? NP[q] : (int)v.size() - (nf - 1) * std::max(NP[q], 0); c.check(o.perFile[i] == in, "outputs are not split over files as requested", "output %d file %d holds %d, expected %d", q, i, o.perFile[i], in); std::string nm = "/o" + std::to_string(q) + "." + o.first[i].ToShortString(); c.check(o.opened[i] == nm, "file is named for another time", "%s, expected %s", o.opened[i].c_str(), nm.c_str()); }
		if (NP[q] > 0 && (int)v.size() % NP[q] == 0) c.check(!o.open, "a full file stays open", "output %d", q); }
	for (int q = 0; q < nw; q++) { std::vector<int> v = due(FW[q], false); if (!FW[q].months && FW[q].us && FW[q].us < dt && W[q]->labels.size() == v.size() + 1 && (v.empty() || v.back() != want - 1)) v.push_back(want - 1); /* an interval below the step: runs at every step */ c.check(W[q]->labels.size() == v.size(), "activity runs the wrong number of times", "activity %d: %d, expected %d", q, (int)W[q]->labels.size(), (int)v.size()); for (size_t i = 0; i < v.size(); i++) c.check(W[q]->labels[i] == T[v[i]], "activity runs when not due", "activity %d number %d: %s, expected %s", q, (int)i, W[q]->labels[i].ToString().c_str(), T[v[i]].ToString().c_str()); c.check(W[q]->order.empty(), "activity runs after the output of its step", "activity %d", q); }
	c.cls(rk == 0 ? "step divides run" : rk == 1 ? "last step short" : "single short step"); for (auto & f : FO) c.cls(f.months ? "months" : f.us == 0 ? "ends only" : f.us < dt ? "interval below step" : f.us % dt ? "interval not a multiple of the step" : "interval a multiple of the step"); if (want > 2 && no) c.nontrivial();
}
// a model that lacks a part, or whose file cannot be opened, stops instead of running
static void refuses(Src & s, Ctx & c) {
	Cfg g; g.sphere = false; g.sw = true; g.np = 1; g.nx = g.ny = 1; g.nlev = 1; g.vo = 1; g.gd[1] = g.gd[3] = 1000; g.gd[5] = 1; g.stag = 3; Case & k = *new Case; k.ztop = 1; k.state = [](const PhysicalConstants &, double, double, double, double * S, double * Q) { S[2] = 100; }; std::unique_ptr<Sim> S(new Sim(g, &k)); Clock * ck = new Clock(S->m); delete S->m.m_pTimestepScheme; S->m.m_pTimestepScheme = ck; Out * o = new Out(*S->pg, delta(3000000), "o", 1, *ck); S->m.AttachOutputManager(o); int w = (int)s.draw(6), step = 0; c.desc("without %d", w);
	switch (w) { case 0: S->m.m_pGrid = NULL; break; case 1: S->m.m_pTimestepScheme = NULL; break; case 2: S->m.m_pHorizontalDynamics = NULL; break; case 3: S->m.m_pVerticalDynamics = NULL; break; case 4: S->m.m_pTestCase = NULL; break; case 5: S->m.SetDeltaT(Time(0, 0, 0, 0, 0)); break; case 6: o->refuse = true; }
	bool threw = false; try { S->m.Go(); } catch (Exception & e) { threw = true; } c.check(threw && ck->n == step && o->labels.empty(), "an incomplete model runs", "case %d: %d steps %d outputs", w, ck->n, (int)o->labels.size()); if (w == 0) S->m.m_pGrid = S->pg; c.nontrivial();
}
int main(int argc, char ** argv) { return run(argc, argv, { { "schedule", schedule, 20 }, { "refuses", refuses, 1 } }, [] { initMPI(); }); }
