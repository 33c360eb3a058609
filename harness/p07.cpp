// P07, model programs: option table of src/atm/CommandLine.h and the standard Tempest options.
#include "pbt.h"
#include "mpi.h"
#include "Tempest.h"
#include "p07_cli.h"

static std::string tstr(const Time & t) {
	return fmt("%d|%d-%d-%d %d.%d", (int)t.GetTimeType(), t.GetYear(), t.GetMonth(), t.GetDay(), t.GetSecond(), t.GetMicroSecond());
}
static std::string I(int v) { return fmt("i%d", v); }
static std::string B(bool v) { return v ? "true" : "false"; }
static std::string D(double v) { return fmt("d%.17g", v); }

// Time texts together with what they mean
static std::string rdelta(Src & s, std::string & want) {
	int d = (int)s.irange(0, 40), h = (int)s.irange(0, 23), m = (int)s.irange(0, 59), sec = (int)s.irange(0, 59), us = s.coin(1, 3) ? (int)s.irange(0, 999) * 1000 : 0;
	bool uD = s.coin(), uH = s.coin(), uM = s.coin(), uU = us > 0; bool uS = !uD && !uH && !uM && !uU ? true : s.coin();
	std::string r;
	if (uD) r += fmt("%dd", d); else d = 0;
	if (uH) r += fmt("%dh", h); else h = 0;
	if (uM) r += fmt("%dm", m); else m = 0;
	if (uS) r += fmt("%ds", sec); else sec = 0;
	if (uU) r += fmt("%du", us); else us = 0;
	long tot = h * 3600 + m * 60 + sec;
	Time w; w = Time(0, 0, d, (int)tot, us, Time::CalendarStandard, Time::TypeDelta);
	want = tstr(w);
	return r;
}
static std::string rdate(Src & s, std::string & want) {
	int y = (int)s.irange(1, 3000), mo = (int)s.irange(1, 12), d = (int)s.irange(1, 28), sec = s.coin() ? 0 : (int)s.irange(0, 86399);
	want = fmt("%d|%d-%d-%d %d.%d", (int)Time::TypeFixed, y, mo, d, sec, 0);
	return fmt("%04d-%02d-%02d-%05d", y, mo, d, sec);
}

struct O { const char * name; int kind; std::string def; };
// The documented names and defaults of the standard options (kind as in p07_cli.h)
static std::vector<O> table() {
	std::vector<O> t = {
		{ "output_none", 0, "false" }, { "output_dir", 1, "outXYZ" }, { "output_prefix", 1, "out" }, { "restart_file", 1, "" }, { "perturb_restart", 0, "false" },
		{ "output_perfile", 2, I(-1) }, { "output_restart_dt", 4, "" }, { "output_x", 2, I(360) }, { "output_y", 2, I(180) }, { "output_z", 2, I(0) },
		{ "output_vort", 0, "false" }, { "output_div", 0, "false" }, { "output_temp", 0, "false" }, { "output_ps", 0, "false" }, { "output_Ri", 0, "false" },
		{ "norefstate", 0, "false" }, { "notracers", 0, "false" }, { "nohypervis", 0, "false" }, { "hypervisorder", 2, I(4) },
		{ "nu", 3, D(1e15) }, { "nud", 3, D(1e15) }, { "nuv", 3, D(1e15) }, { "inud", 3, D(0) }, { "explicitvertical", 0, "false" },
		{ "vstagger", 1, "LOR" }, { "vdisc", 1, "FE" }, { "vmassfluxlevels", 0, "false" }, { "vstretch", 1, "uniform" }, { "vhypervisorder", 2, I(0) },
		{ "timescheme", 1, "strang" }, { "hmethod", 1, "V1" }, { "vmethod", 1, "V1" },
		{ "resolution", 2, I(17) }, { "levels", 2, I(9) }, { "outputtime", 4, "" }, { "dt", 4, "" }, { "endtime", 5, "" }, { "order", 2, I(4) }, { "vertorder", 2, I(1) },
		// a test case's own options
		{ "own_int", 2, I(-3) }, { "own_real", 3, D(2.5) }, { "own_text", 1, "some text" }, { "own_flag", 0, "false" } };
	for (auto & o : t) {
		Time x;
		if (o.kind == 4) { x.FromFormattedString(std::string(o.name) == "dt" ? "200s" : std::string(o.name) == "outputtime" ? "5d" : ""); x.SetTimeType(Time::TypeDelta); o.def = tstr(x); }
		if (o.kind == 5) { x.FromFormattedString("0001-01-03-00000"); x.SetTimeType(Time::TypeFixed); o.def = tstr(x); }
	}
	return t;
}
static std::string parse(int argc, char ** argv) {
	AnnounceSetVerbosityLevel(-100);
	int nOwn; double dOwn; std::string strOwn; bool fOwn; std::string r;
	BeginTempestCommandLine("XYZ");
		SetDefaultResolution(17); SetDefaultLevels(9); SetDefaultOutputDeltaT("5d"); SetDefaultDeltaT("200s"); SetDefaultEndTime("0001-01-03-00000");
		SetDefaultHorizontalOrder(4); SetDefaultVerticalOrder(1);
		CommandLineInt(nOwn, "own_int", -3); CommandLineDouble(dOwn, "own_real", 2.5); CommandLineString(strOwn, "own_text", "some text"); CommandLineBool(fOwn, "own_flag");
		ParseCommandLine(argc, argv);
	EndTempestCommandLine(argv)
	const _TempestCommandLineVariables & v = _tempestvars;
	std::vector<std::string> o = { B(v.fNoOutput), v.strOutputDir, v.strOutputPrefix, v.strRestartFile, B(v.fRestartPerturbation), I(v.nOutputsPerFile), tstr(v.timeOutputRestartDeltaT),
		I(v.nOutputResX), I(v.nOutputResY), I(v.nOutputResZ), B(v.fOutputVorticity), B(v.fOutputDivergence), B(v.fOutputTemperature), B(v.fOutputSurfacePressure), B(v.fOutputRichardson),
		B(v.fNoReferenceState), B(v.fNoTracers), B(v.fNoHyperviscosity), I(v.nHyperviscosityOrder), D(v.dNuScalar), D(v.dNuDiv), D(v.dNuVort), D(v.dInstepNuDiv), B(v.fExplicitVertical),
		v.strVerticalStaggering, v.strVerticalDiscretization, B(v.fForceMassFluxOnLevels), v.strVerticalStretch, I(v.nVerticalHyperdiffOrder), v.strTimestepScheme, v.strHorizontalDynamics, v.strVerticalDynamics,
		I(v.nResolutionX), I(v.nLevels), tstr(v.timeOutputDeltaT), tstr(v.timeDeltaT), tstr(v.timeEndTime), I(v.nHorizontalOrder), I(v.nVerticalOrder),
		I(nOwn), D(dOwn), strOwn, B(fOwn) };
	for (auto & x : o) { r += x; r += '\1'; }
	return r;
}
static void options(Src & s, Ctx & c) {
	static std::vector<O> T = table();
	std::vector<std::string> want, argv = { "prog" };
	for (auto & o : T) want.push_back(o.def);
	int bad = s.coin(1, 6) ? (int)s.irange(1, 2) : 0, n = (int)s.irange(0, 12), nset = 0, nUnknown = 0;
	int badAt = bad ? (int)s.irange(0, n) : -1;
	for (int k = 0; k <= n; k++) {
		if (k == badAt) {
			std::vector<int> vo; for (size_t i = 0; i < T.size(); i++) if (T[i].kind) vo.push_back((int)i);
			int i = s.pick(vo); argv.push_back(std::string("--") + T[i].name);
			if (bad == 1 && k < n) { argv.push_back("--output_vort"); break; }      // another option where a value belongs
			if (bad == 1) break;                                                         // nothing follows
			std::vector<int> to; for (size_t j = 0; j < T.size(); j++) if (T[j].kind >= 4) to.push_back((int)j);
			argv.back() = std::string("--") + T[s.pick(to)].name; argv.push_back(s.pick(std::vector<std::string>{ "5x", "3q2s", "10s5s", "abc", "5s7" })); break;   // not a time
		}
		if (k == n) break;
		if (s.coin(1, 10)) { std::string u = "--zz" + rword(s, 0, 6, NAMECH); argv.push_back(u); nUnknown++; continue; }   // unknown: reported, changes nothing
		int i = (int)s.draw(T.size() - 1); nset++;
		argv.push_back(std::string("--") + T[i].name);
		switch (T[i].kind) {
		case 0: want[i] = "true"; break;
		case 1: { std::string v = rvalue(s); argv.push_back(v); want[i] = v; break; }
		case 2: { int v = s.coin(1, 5) ? (s.coin() ? 2147483647 : -2147483647) : (int)s.around(-5000, 5000, 0); argv.push_back(fmt("%d", v)); want[i] = I(v); break; }
		case 3: { double v = s.coin(1, 3) ? (double)s.around(-100, 100, 0) : (s.coin() ? 1 : -1) * s.logreal(1e-8, 1e18); std::string t = s.coin() ? fmt("%.17g", v) : fmt("%.17e", v); argv.push_back(t); want[i] = D(v); break; }
		case 4: { std::string w, t = rdelta(s, w); argv.push_back(t); want[i] = w; break; }
		case 5: { std::string w, t = rdate(s, w); argv.push_back(t); want[i] = w; break; }
		}
	}
	for (auto & a : argv) c.desc("%s ", a.c_str());
	c.nontrivial(nset >= 2 || bad); c.cls(bad == 1 ? "missing value" : bad == 2 ? "malformed time" : "well-formed"); if (nUnknown) c.cls("unknown option");
	std::vector<char *> av; for (auto & a : argv) av.push_back((char *)a.c_str()); av.push_back(NULL);
	int st; std::string out = inChild([&]() { return parse((int)argv.size(), &av[0]); }, st);
	if (bad) { c.check(st != 0 && st < 1000, "accepted", "a bad command line was accepted (status %d)", st); return; }
	c.check(st == 0, "rejected", "a good command line stopped the program (status %d)", st);
	std::vector<std::string> got; size_t p = 0, q; while ((q = out.find('\1', p)) != std::string::npos) { got.push_back(out.substr(p, q - p)); p = q + 1; }
	c.check(got.size() == T.size(), "count", "parsed %zu values", got.size());
	for (size_t i = 0; i < T.size(); i++) c.check(got[i] == want[i], "value", "option --%s is \"%s\", expected \"%s\"", T[i].name, got[i].c_str(), want[i].c_str());
}
int main(int argc, char ** argv) {
	AnnounceOutputOnAllRanks();
	return run(argc, argv, { { "options", options, 1 } });
}
