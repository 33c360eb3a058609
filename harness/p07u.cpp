// P07, utilities: option table of src/base/CommandLine.h, and preferences files.
#include "pbt.h"
#include "CommandLine.h"
#include "Preferences.h"
#include "p07_cli.h"

static void options(Src & s, Ctx & c) {
	int n = (int)s.irange(1, 8);
	std::vector<Opt> T; std::set<std::string> used;
	std::vector<std::string> want;
	std::vector<int> di(n); std::vector<double> dd(n);
	for (int i = 0; i < n; i++) {
		Opt o; o.kind = (int)s.draw(3); do { o.name = rword(s, 1, 8, NAMECH); if (used.count(o.name)) o.name += fmt("x%d", i); } while (used.count(o.name)); used.insert(o.name);
		if (o.kind == 0) o.def = "false"; else if (o.kind == 1) o.def = rvalue(s); else if (o.kind == 2) { di[i] = (int)s.around(-99, 99, 0); o.def = fmt("%d", di[i]); } else { dd[i] = s.sreal(1e3); o.def = fmt("%.17g", dd[i]); }
		T.push_back(o); want.push_back(o.def);
	}
	std::vector<std::string> argv = { "prog" };
	int bad = s.coin(1, 4) ? (int)s.irange(1, 2) : 0, m = (int)s.irange(0, 10), badAt = bad ? (int)s.irange(0, m) : -1;
	for (int k = 0; k <= m; k++) {
		if (k == badAt) {
			if (bad == 2) { std::string u = s.coin() ? "--zz" + rword(s, 0, 6, NAMECH) : rword(s, 1, 6, NAMECH); if (used.count(u.substr(std::min<size_t>(2, u.size())))) u = "--#"; argv.push_back(u); continue; }
			std::vector<int> vo; for (int i = 0; i < n; i++) if (T[i].kind) vo.push_back(i);
			if (vo.empty()) { bad = 0; continue; }
			argv.push_back("--" + T[s.pick(vo)].name); if (k < m && s.coin()) argv.push_back("--" + T[s.draw(n - 1)].name); break;
		}
		if (k == m) break;
		int i = (int)s.draw(n - 1); argv.push_back("--" + T[i].name);
		if (T[i].kind == 0) want[i] = "true";
		else if (T[i].kind == 1) { std::string v = rvalue(s); argv.push_back(v); want[i] = v; }
		else if (T[i].kind == 2) { int v = (int)s.around(-100000, 100000, 0); argv.push_back(fmt("%d", v)); want[i] = argv.back(); }
		else { double v = (s.coin() ? 1 : -1) * s.logreal(1e-8, 1e18); argv.push_back(fmt("%.17g", v)); want[i] = fmt("%.17g", v); }
	}
	// "--" + one-letter names make values of length > 2 look like options; by definition they are
	for (auto & a : argv) c.desc("%s ", a.c_str());
	c.nontrivial(argv.size() > 2); c.cls(bad == 1 ? "missing value" : bad == 2 ? "unknown option" : "well-formed");
	std::vector<char *> av; for (auto & a : argv) av.push_back((char *)a.c_str()); av.push_back(NULL);
	int st; std::string out = inChild([&]() {
		bool b[10]; std::string ss[10]; int ii[10]; double dv[10];
		char ** argvv = &av[0]; int argcc = (int)argv.size();
		BeginCommandLine()
			for (int i = 0; i < n; i++) {
				if (T[i].kind == 0) { CommandLineBool(b[i], T[i].name) }
				else if (T[i].kind == 1) { CommandLineStringD(ss[i], T[i].name, T[i].def, "(text)") }
				else if (T[i].kind == 2) { CommandLineInt(ii[i], T[i].name, di[i]) }
				else { CommandLineDoubleD(dv[i], T[i].name, dd[i], "(real)") }
			}
			ParseCommandLine(argcc, argvv);
		EndCommandLine(argvv)
		std::string r;
		for (int i = 0; i < n; i++) { r += T[i].kind == 0 ? std::string(b[i] ? "true" : "false") : T[i].kind == 1 ? ss[i] : T[i].kind == 2 ? fmt("%d", ii[i]) : fmt("%.17g", dv[i]); r += '\1'; }
		return r;
	}, st);
	if (bad) { c.check(st != 0 && st < 1000, "u-accepted", "a bad command line was accepted (status %d)", st); return; }
	c.check(st == 0, "u-rejected", "a good command line stopped the program (status %d)", st);
	std::vector<std::string> got; size_t p = 0, q; while ((q = out.find('\1', p)) != std::string::npos) { got.push_back(out.substr(p, q - p)); p = q + 1; }
	c.check((int)got.size() == n, "u-count", "parsed %zu values", got.size());
	for (int i = 0; i < n; i++) c.check(got[i] == want[i], "u-value", "option --%s is \"%s\", expected \"%s\"", T[i].name.c_str(), got[i].c_str(), want[i].c_str());
}

static void prefs(Src & s, Ctx & c) {
	std::string text; std::map<std::string, std::string> want; int n = (int)s.irange(0, 12), bad = s.coin(1, 6) ? (int)s.irange(1, 2) : 0, badAt = bad ? (int)s.irange(0, n) : -1;
	bool fBadDone = false;
	for (int k = 0; k <= n; k++) {
		std::string line;
		if (k == badAt) { line = bad == 1 ? rword(s, 1, 8, "abc 12") : std::string((size_t)s.irange(0, 3), ' ') + "=" + rword(s, 0, 4, "ab "); fBadDone = true; }
		else if (k == n) break;
		else if (s.coin(1, 6)) line = "#" + rword(s, 0, 10, "ab= #1");
		else if (s.coin(1, 8)) line = "";
		else {
			std::string nm = rword(s, 1, 6, "abXY_12.") , v;
			if (s.coin(1, 8)) nm += " " + rword(s, 1, 3, "ab");
			if (nm[0] == '#') nm = "n" + nm;
			int how = (int)s.draw(5);
			if (how == 0) v = ""; else if (how == 1) v = fmt("%ld", s.around(-9999, 9999, 0)); else if (how == 2) v = fmt("%.17g", s.sreal(1e6)); else if (how == 3) v = rword(s, 1, 9, "abcDEF=# /x"); else if (how == 4) v = std::string((size_t)s.irange(1, 600), 'v'); else v = rword(s, 1, 9, "ABcd19.-");
			size_t a = v.find_first_not_of(' '); v = a == std::string::npos ? "" : v.substr(a, v.find_last_not_of(' ') - a + 1);
			line = std::string(s.draw(3), ' ') + nm + std::string(s.draw(3), ' ') + "=" + std::string(s.draw(3), ' ') + v + std::string(s.draw(3), ' ');
			if (line[0] == '#') continue;
			want.insert(std::make_pair(nm, v));
		}
		text += line + "\n";
	}
	bool fEnd = s.coin(); if (!fEnd && !text.empty()) text.erase(text.size() - 1);
	c.desc("%s", text.c_str()); c.nontrivial(want.size() >= 2); c.cls(fEnd ? "final newline" : "no final newline"); if (fBadDone) c.cls("malformed");
	char path[64]; snprintf(path, 64, "/tmp/p07pref.%d", (int)getpid());
	{ std::ofstream f(path); f << text; }
	Preferences pr; bool threw = false;
	alarm(20);
	try { pr.ParsePreferences(path); } catch (Exception &) { threw = true; }
	alarm(0);
	unlink(path);
	if (fBadDone) { c.check(threw, "pref-accepted", "malformed preferences accepted"); return; }
	c.check(!threw, "pref-refused", "well-formed preferences refused");
	for (auto & w : want) {
		const char * nm = w.first.c_str(); int e = -1;
		c.check(pr.GetPreferenceAsCharArray_NoThrow(nm) != NULL, "pref-missing", "preference \"%s\" missing", nm);
		c.check(pr.GetPreferenceAsCharArray(nm) == w.second, "pref-value", "preference \"%s\" is \"%s\", expected \"%s\"", nm, pr.GetPreferenceAsCharArray(nm), w.second.c_str());
		c.check(pr.GetPreferenceAsString(nm) == w.second && pr.GetPreferenceAsString_NoThrow(nm, &e) == w.second && e == 0, "pref-string", "as string");
		c.check(w.second == pr.GetPreferenceAsCharArray(nm) && w.second == pr.GetPreferenceAsCharArray_NoThrow(nm), "pref-chars", "as char array");
		std::string lo = w.second; for (auto & ch : lo) ch = (char)tolower(ch);
		c.check(pr.GetPreferenceAsString_NoCase(nm) == lo && pr.GetPreferenceAsString_NoCase_NoThrow(nm, &e) == lo && e == 0, "pref-nocase", "as lower case");
		c.check(pr.GetPreferenceAsDouble(nm) == atof(w.second.c_str()) && pr.GetPreferenceAsDouble_NoThrow(nm, &e) == atof(w.second.c_str()) && e == 0, "pref-double", "as double");
		c.check(pr.GetPreferenceAsInt(nm) == atoi(w.second.c_str()) && pr.GetPreferenceAsInt_NoThrow(nm, &e) == atoi(w.second.c_str()) && e == 0, "pref-int", "as int");
		c.check(pr.GetPreferenceAsUInt(nm) == (unsigned)atoi(w.second.c_str()) && pr.GetPreferenceAsUInt_NoThrow(nm, &e) == (unsigned)atoi(w.second.c_str()) && e == 0, "pref-uint", "as unsigned");
	}
	const char * no = "not there"; int e;
	if (!want.count(no)) {
		c.check(pr.GetPreferenceAsCharArray_NoThrow(no) == NULL, "pref-ghost", "preference that was not written");
		e = 0; pr.GetPreferenceAsInt_NoThrow(no, &e); c.check(e == 1, "pref-error", "error flag int"); e = 0; pr.GetPreferenceAsDouble_NoThrow(no, &e); c.check(e == 1, "pref-error", "error flag double");
		e = 0; pr.GetPreferenceAsString_NoThrow(no, &e); c.check(e == 1, "pref-error", "error flag string"); e = 0; pr.GetPreferenceAsUInt_NoThrow(no, &e); c.check(e == 1, "pref-error", "error flag uint"); e = 0; pr.GetPreferenceAsString_NoCase_NoThrow(no, &e); c.check(e == 1, "pref-error", "error flag nocase");
		bool t = false; try { pr.GetPreferenceAsInt(no); } catch (Exception &) { t = true; } c.check(t, "pref-nothrow", "missing preference did not throw");
		t = false; try { pr.GetPreferenceAsDouble(no); } catch (Exception &) { t = true; } c.check(t, "pref-nothrow", "missing preference did not throw");
		t = false; try { pr.GetPreferenceAsString(no); } catch (Exception &) { t = true; } c.check(t, "pref-nothrow", "missing preference did not throw");
	}
	Preferences pr2; bool t = false; try { pr2.ParsePreferences("/tmp/p07-no-such-file"); } catch (Exception &) { t = true; } c.check(t, "pref-nofile", "missing file accepted");
}
int main(int argc, char ** argv) { return run(argc, argv, { { "util-options", options, 0.3 }, { "preferences", prefs, 1 } }); }
