// Minimal property-based testing engine used by every C++ harness in /verif.
//
// A case is a function of a sequence of bounded integer choices (Src).  In
// generation mode choices come from a PRNG seeded by (VERIF_SEED, property
// name, case number); a failing case is shrunk by deleting and lowering
// choices, and the shrunk choice list is the replay file.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <iostream>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include "Exception.h"

namespace pbt {

inline uint64_t splitmix(uint64_t & s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

inline uint64_t hashstr(const std::string & s) {
	uint64_t h = 1469598103934665603ULL;
	for (size_t i = 0; i < s.size(); i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; }
	return h;
}

struct Failure {
	std::string sig;
	std::string msg;
	Failure(const std::string & s, const std::string & m) : sig(s), msg(m) { }
};

struct Discard { };

inline std::string vfmt(const char * f, va_list ap) {
	char buf[4096];
	vsnprintf(buf, sizeof(buf), f, ap);
	return buf;
}

inline std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char * f, ...) {
	va_list ap; va_start(ap, f);
	std::string s = vfmt(f, ap);
	va_end(ap);
	return s;
}

// Source of choices.
class Src {
public:
	std::vector<uint64_t> given;
	bool fReplay;
	uint64_t rng;
	size_t pos;
	std::vector<uint64_t> rec;
	double dSize;    // 0..1 growing size hint

	Src() : fReplay(false), rng(0), pos(0), dSize(1.0) { }

	// Uniform on [0,max]; the value 0 is the simplest.
	uint64_t draw(uint64_t max) {
		uint64_t v;
		if (fReplay) {
			v = (pos < given.size()) ? given[pos] : 0;
			if (v > max) v = (max == UINT64_MAX) ? v : v % (max + 1);
		} else {
			uint64_t r = splitmix(rng);
			v = (max == UINT64_MAX) ? r : r % (max + 1);
		}
		pos++;
		rec.push_back(v);
		return v;
	}

	// Integer in [lo,hi], simplest is lo.
	long irange(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo)); }

	// Integer in [lo,hi], simplest is c.
	long around(long lo, long hi, long c) {
		uint64_t v = draw((uint64_t)(hi - lo));
		long up = hi - c, dn = c - lo;
		long m = std::min(up, dn);
		if ((long)v <= 2 * m) return (v & 1) ? c + (long)((v + 1) / 2) : c - (long)(v / 2);
		long r = (long)v - 2 * m;
		return (up > dn) ? c + m + r : c - m - r;
	}

	bool coin(int num = 1, int den = 2) { return (int)draw(den - 1) >= den - num; }

	// Real in [lo,hi]; a quarter of the draws are round fractions.
	double real(double lo, double hi) {
		uint64_t v = draw(1 << 30);
		return lo + (hi - lo) * ((double)v / (double)(1 << 30));
	}

	// Log-uniform positive real.
	double logreal(double lo, double hi) {
		return exp(real(log(lo), log(hi)));
	}

	// Real symmetric about 0.
	double sreal(double mag) {
		double s = coin() ? -1.0 : 1.0;
		return s * real(0.0, mag);
	}

	template <typename T> const T & pick(const std::vector<T> & v) { return v[(size_t)draw(v.size() - 1)]; }
	size_t weighted(const std::vector<int> & w) {
		int t = 0; for (size_t i = 0; i < w.size(); i++) t += w[i];
		int r = (int)draw(t - 1);
		for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return i; r -= w[i]; }
		return 0;
	}
};

class Ctx {
public:
	std::string strDesc;
	bool fNontrivial;
	std::map<std::string, long> mapClass;
	long nChecks;
	int nTier;  // 0 quick, 1 thorough

	Ctx() : fNontrivial(false), nChecks(0), nTier(0) { }

	void desc(const char * f, ...) __attribute__((format(printf, 2, 3))) {
		va_list ap; va_start(ap, f);
		strDesc += vfmt(f, ap);
		va_end(ap);
	}
	void nontrivial(bool f = true) { if (f) fNontrivial = true; }
	void cls(const std::string & s) { mapClass[s]++; }
	void discard() { throw Discard(); }

	void fail(const std::string & sig, const char * f, ...) __attribute__((format(printf, 3, 4))) {
		va_list ap; va_start(ap, f);
		std::string m = vfmt(f, ap);
		va_end(ap);
		throw Failure(sig, m);
	}
	void check(bool ok, const std::string & sig, const char * f, ...) __attribute__((format(printf, 4, 5))) {
		nChecks++;
		if (ok) return;
		va_list ap; va_start(ap, f);
		std::string m = vfmt(f, ap);
		va_end(ap);
		throw Failure(sig, m);
	}
	// |a-b| <= tol, NaN fails
	void close(double a, double b, double tol, const std::string & sig, const char * f, ...) __attribute__((format(printf, 6, 7))) {
		nChecks++;
		if (fabs(a - b) <= tol) return;
		va_list ap; va_start(ap, f);
		std::string m = vfmt(f, ap);
		va_end(ap);
		throw Failure(sig, m + fmt(": got %.17g expected %.17g (diff %.3g, tol %.3g)", a, b, a - b, tol));
	}
	// the same with the format (or name) as the signature
	void bad(const char * f, ...) __attribute__((format(printf, 2, 3))) {
		va_list ap; va_start(ap, f);
		std::string m = vfmt(f, ap);
		va_end(ap);
		throw Failure(f, m);
	}
	void near(const char * name, double a, double b, double tol, int row = -1) {
		nChecks++;
		if (fabs(a - b) <= tol) return;
		throw Failure(name, std::string(name) + (row >= 0 ? fmt(" at %d", row) : std::string()) + fmt(": got %.17g expected %.17g (diff %.3g, tol %.3g)", a, b, a - b, tol));
	}
};

typedef std::function<void(Src &, Ctx &)> CaseFn;

struct Prop {
	std::string name;
	CaseFn fn;
	double weight;   // multiplies the number of cases
};

struct Shared {
	volatile long iProp;
	volatile long iCase;
	volatile int  nPhase;   // 0 running a case, 1 shrinking, 2 done
	volatile double dStart;
};

inline double now() {
	struct timeval tv; gettimeofday(&tv, NULL);
	return tv.tv_sec + 1e-6 * tv.tv_usec;
}

inline std::string jesc(const std::string & s) {
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

struct Outcome {
	int kind;   // 0 pass 1 fail 2 discard
	std::string sig, msg;
};

inline Outcome runOne(const Prop & p, Src & s, Ctx & c) {
	Outcome o; o.kind = 0;
	try { p.fn(s, c); }
	catch (Discard &) { o.kind = 2; }
	catch (Failure & f) { o.kind = 1; o.sig = f.sig; o.msg = f.msg; }
	catch (Exception & e) { o.kind = 1; o.sig = "exception"; o.msg = std::string("uncaught Exception: ") + e.ToString(); }
	catch (std::exception & e) { o.kind = 1; o.sig = "exception"; o.msg = std::string("uncaught std::exception: ") + e.what(); }
	catch (...) { o.kind = 1; o.sig = "exception"; o.msg = "uncaught unknown exception"; }
	return o;
}

struct Options {
	uint64_t seed; int shard, nshard; double tmax; double mult; long cases;
	std::string out, replay, only, replaydir, prop;
	std::set<std::string> known;
	bool nofork; int tier;
	double caseTimeout;
};

inline void writeReplay(const std::string & path, const std::string & prop, const std::vector<uint64_t> & ch,
	const std::string & sig, const std::string & msg, const std::string & desc) {
	std::ofstream f(path.c_str());
	f << "prop " << prop << "\n";
	f << "choices " << ch.size();
	for (size_t i = 0; i < ch.size(); i++) f << " " << ch[i];
	f << "\n";
	std::string m = msg, d = desc;
	std::replace(m.begin(), m.end(), '\n', ' ');
	std::replace(d.begin(), d.end(), '\n', ' ');
	f << "sig " << sig << "\nmsg " << m << "\ndesc " << d << "\n";
}

inline uint64_t caseSeed(const Options & o, const std::string & prop, long g) {
	uint64_t s = o.seed * 0x9e3779b97f4a7c15ULL ^ hashstr(prop) ^ ((uint64_t)g * 0xd1342543de82ef95ULL);
	splitmix(s); splitmix(s);
	return s;
}

// Worker: run cases of all props from (iProp0, iCase0); results to files.
struct Stats {
	long evals, nontriv, discards, checks, knownHits;
	std::set<uint64_t> distinct;
	std::map<std::string, long> cls;
	std::vector<std::string> samples;
	struct F { std::string prop, sig, msg, desc, replay; };
	std::vector<F> fails;
	std::map<std::string, long> known;
	Stats() : evals(0), nontriv(0), discards(0), checks(0), knownHits(0) { }
};

inline std::vector<uint64_t> shrink(const Prop & p, const Options & o, std::vector<uint64_t> best, Outcome & bo, std::string & bdesc) {
	double t0 = now();
	long tries = 0;
	auto attempt = [&](const std::vector<uint64_t> & cand) -> bool {
		if (now() - t0 > 40.0 || tries > 3000) return false;
		tries++;
		Src s; s.fReplay = true; s.given = cand;
		Ctx c; c.nTier = o.tier;
		Outcome r = runOne(p, s, c);
		if (r.kind == 1 && r.sig == bo.sig) {
			std::vector<uint64_t> n = s.rec;
			// keep only if simpler
			if (n.size() < best.size() || (n.size() == best.size() && n < best)) {
				best = n; bo = r; bdesc = c.strDesc; return true;
			}
		}
		return false;
	};
	bool progress = true;
	while (progress && now() - t0 < 40.0 && tries < 3000) {
		progress = false;
		for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size(); ) {
				std::vector<uint64_t> c(best.begin(), best.begin() + i);
				c.insert(c.end(), best.begin() + i + len, best.end());
				if (attempt(c)) progress = true; else i += len;
				if (now() - t0 > 40.0) break;
			}
			if (len == 1) break;
		}
		for (size_t i = 0; i < best.size(); i++) {
			if (best[i] == 0) continue;
			std::vector<uint64_t> c = best; c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = best[i];
			while (hi - lo > 1 && now() - t0 < 40.0) {
				uint64_t mid = lo + (hi - lo) / 2;
				c = best; if (i >= c.size()) break; c[i] = mid;
				if (attempt(c)) { progress = true; hi = mid; } else lo = mid;
				if (i >= best.size()) break;
			}
			if (now() - t0 > 40.0) break;
		}
	}
	return best;
}

inline void dump(const Stats & st, const Options & o, double wall, bool complete) {
	std::ofstream f(o.out.c_str());
	f << "{\"evaluations\":" << st.evals << ",\"nontrivial\":" << st.nontriv << ",\"discards\":" << st.discards
	  << ",\"checks\":" << st.checks << ",\"wall\":" << wall << ",\"complete\":" << (complete ? "true" : "false");
	f << ",\"distinct\":[";
	bool first = true;
	for (std::set<uint64_t>::const_iterator it = st.distinct.begin(); it != st.distinct.end(); ++it) { f << (first ? "" : ",") << "\"" << std::hex << *it << std::dec << "\""; first = false; }
	f << "],\"classes\":{"; first = true;
	for (std::map<std::string, long>::const_iterator it = st.cls.begin(); it != st.cls.end(); ++it) { f << (first ? "" : ",") << "\"" << jesc(it->first) << "\":" << it->second; first = false; }
	f << "},\"known\":{"; first = true;
	for (std::map<std::string, long>::const_iterator it = st.known.begin(); it != st.known.end(); ++it) { f << (first ? "" : ",") << "\"" << jesc(it->first) << "\":" << it->second; first = false; }
	f << "},\"samples\":["; first = true;
	for (size_t i = 0; i < st.samples.size(); i++) { f << (first ? "" : ",") << "\"" << jesc(st.samples[i]) << "\""; first = false; }
	f << "],\"failures\":["; first = true;
	for (size_t i = 0; i < st.fails.size(); i++) {
		f << (first ? "" : ",") << "{\"prop\":\"" << jesc(st.fails[i].prop) << "\",\"sig\":\"" << jesc(st.fails[i].sig) << "\",\"msg\":\"" << jesc(st.fails[i].msg)
		  << "\",\"desc\":\"" << jesc(st.fails[i].desc) << "\",\"replay\":\"" << jesc(st.fails[i].replay) << "\"}"; first = false;
	}
	f << "]}\n";
}

inline void runCases(const std::vector<Prop> & props, const Options & o, Shared * sh, Stats & st, long iProp0, long iCase0) {
	double t0 = now();
	for (size_t p = (size_t)iProp0; p < props.size(); p++) {
		if (o.only != "" && props[p].name != o.only) continue;
		long ncases = (long)ceil(o.cases * props[p].weight);
		double tprop = now();
		// what is left of the time is shared among the properties still to run
		double wsum = 0.0;
		for (size_t q = p; q < props.size(); q++) wsum += props[q].weight;
		double tshare = (o.tmax - (tprop - t0)) * ((o.only != "" || wsum <= 0) ? 1.0 : props[p].weight / wsum);
		int nfail = 0;
		for (long i = (p == (size_t)iProp0 ? iCase0 : 0); ; i++) {
			long g = i * o.nshard + o.shard;
			if (g >= ncases) break;
			if (now() - t0 > o.tmax || (now() - tprop > tshare && i > 3)) { st.cls["capped:" + props[p].name]++; break; }
			sh->iProp = (long)p; sh->iCase = i; sh->nPhase = 0; sh->dStart = now();
			Src s; s.rng = caseSeed(o, props[p].name, g);
			s.dSize = std::min(1.0, 0.2 + 0.8 * (double)g / (double)(ncases > 1 ? ncases - 1 : 1));
			Ctx c; c.nTier = o.tier;
			Outcome r = runOne(props[p], s, c);
			if (r.kind == 2) { st.discards++; continue; }
			st.evals++; st.checks += c.nChecks;
			if (c.fNontrivial) { st.nontriv++; if (st.distinct.size() < 50000) st.distinct.insert(hashstr(props[p].name + c.strDesc)); }
			st.cls["prop:" + props[p].name]++;
			for (std::map<std::string, long>::iterator it = c.mapClass.begin(); it != c.mapClass.end(); ++it) st.cls[it->first] += it->second;
			if (c.fNontrivial && (i == 0 || (i == 7 && o.shard < 3))) st.samples.push_back(props[p].name + ": " + c.strDesc.substr(0, 400));
			if (r.kind == 1) {
				if (o.known.count(r.sig)) { st.known[r.sig]++; continue; }
				bool seen = false;
				for (size_t k = 0; k < st.fails.size(); k++) if (st.fails[k].prop == props[p].name && st.fails[k].sig == r.sig) seen = true;
				if (seen) continue;
				sh->nPhase = 1;
				std::string path = o.replaydir + "/" + props[p].name + fmt("-%d-%ld.replay", o.shard, i);
				writeReplay(path, props[p].name, s.rec, r.sig, r.msg, c.strDesc);
				std::string bdesc = c.strDesc;
				std::vector<uint64_t> b = shrink(props[p], o, s.rec, r, bdesc);
				writeReplay(path, props[p].name, b, r.sig, r.msg, bdesc);
				Stats::F f; f.prop = props[p].name; f.sig = r.sig; f.msg = r.msg; f.desc = bdesc; f.replay = path;
				st.fails.push_back(f);
				if (++nfail >= 3) break;
			}
		}
	}
	sh->nPhase = 2;
}

inline int run(int argc, char ** argv, const std::vector<Prop> & props, std::function<void()> initWorker = std::function<void()>(), std::function<void()> finalWorker = std::function<void()>()) {
	Options o; o.seed = 1; o.shard = 0; o.nshard = 1; o.tmax = 1e9; o.cases = 100; o.nofork = false; o.tier = 0; o.caseTimeout = 120.0;
	o.replaydir = "."; o.out = "/dev/stdout";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nxt = [&]() -> std::string { return (i + 1 < argc) ? argv[++i] : ""; };
		if (a == "--seed") o.seed = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--shard") { std::string v = nxt(); sscanf(v.c_str(), "%d/%d", &o.shard, &o.nshard); }
		else if (a == "--time") o.tmax = atof(nxt().c_str());
		else if (a == "--cases") o.cases = atol(nxt().c_str());
		else if (a == "--out") o.out = nxt();
		else if (a == "--replay") o.replay = nxt();
		else if (a == "--replaydir") o.replaydir = nxt();
		else if (a == "--known") o.known.insert(nxt());
		else if (a == "--only") o.only = nxt();
		else if (a == "--nofork") o.nofork = true;
		else if (a == "--tier") o.tier = (nxt() == "thorough") ? 1 : 0;
		else if (a == "--case-timeout") o.caseTimeout = atof(nxt().c_str());
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	if (o.replay != "") {
		std::ifstream f(o.replay.c_str());
		std::string w, prop; size_t n = 0; std::vector<uint64_t> ch;
		f >> w >> prop >> w >> n;
		for (size_t i = 0; i < n; i++) { uint64_t v; f >> v; ch.push_back(v); }
		if (!f) { fprintf(stderr, "bad replay file\n"); return 2; }
		for (size_t p = 0; p < props.size(); p++) if (props[p].name == prop) {
			alarm((unsigned)o.caseTimeout);
			if (initWorker) initWorker();
			Src s; s.fReplay = true; s.given = ch;
			Ctx c; c.nTier = o.tier;
			Outcome r = runOne(props[p], s, c);
			printf("case: %s\n", c.strDesc.c_str());
			if (r.kind == 1) printf("REPLAY-FAIL sig=%s msg=%s\n", r.sig.c_str(), r.msg.c_str());
			else printf("REPLAY-PASS%s\n", r.kind == 2 ? " (discarded)" : "");
			fflush(stdout);
			if (finalWorker) finalWorker();
			return r.kind == 1 ? 1 : 0;
		}
		fprintf(stderr, "unknown prop %s\n", prop.c_str());
		return 2;
	}
	Shared * sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now();
	if (o.nofork) {
		if (initWorker) initWorker();
		Stats st;
		runCases(props, o, sh, st, 0, 0);
		dump(st, o, now() - t0, true);
		if (finalWorker) finalWorker();
		return st.fails.empty() ? 0 : 1;
	}
	// Fork mode: a crash or hang of a case is a failure of that case.
	long ip = 0, ic = 0;
	std::vector<Stats::F> crashes;
	Stats stAll;
	int round = 0;
	while (true) {
		sh->iProp = ip; sh->iCase = ic; sh->nPhase = 0; sh->dStart = now();
		std::string base = o.out;
		Options ow = o;
		ow.out = base + fmt(".w%d", round);
		ow.tmax = o.tmax - (now() - t0);
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid == 0) {
			if (initWorker) initWorker();
			Stats st;
			runCases(props, ow, sh, st, ip, ic);
			dump(st, ow, now() - t0, true);
			fflush(stdout);
			if (finalWorker) finalWorker();
			_exit(0);
		}
		int status = 0; bool hung = false;
		while (true) {
			pid_t r = waitpid(pid, &status, WNOHANG);
			if (r == pid) break;
			if (sh->nPhase == 0 && now() - sh->dStart > o.caseTimeout) { hung = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
			if (sh->nPhase == 1 && now() - sh->dStart > o.caseTimeout + 120.0) { kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
			usleep(20000);
		}
		round++;
		if (sh->nPhase == 2 && WIFEXITED(status) && WEXITSTATUS(status) == 0) break;
		// the case crashed (or hung): record it
		const Prop & p = props[sh->iProp];
		long g = sh->iCase * o.nshard + o.shard;
		Stats::F f; f.prop = p.name;
		if (sh->nPhase == 2) { f.sig = "crash-at-exit"; f.msg = fmt("worker ended abnormally after its cases, status %x", status); }
		else if (hung) { f.sig = "hang"; f.msg = fmt("case did not finish in %g s", o.caseTimeout); }
		else if (WIFSIGNALED(status)) { f.sig = fmt("crash-signal-%d", WTERMSIG(status)); f.msg = f.sig; }
		else { f.sig = "crash-exit"; f.msg = fmt("process exited with status %d inside a case", WEXITSTATUS(status)); }
		f.replay = o.replaydir + "/" + p.name + fmt("-crash-%d-%ld.replay", o.shard, sh->iCase);
		{
			// replay by seed: store a single marker; the replay driver regenerates
			std::ofstream rf(f.replay.c_str());
			Src s; s.rng = caseSeed(o, p.name, g);
			// generous number of raw choices: replay takes them modulo each bound,
			// which reproduces draw() exactly
			rf << "prop " << p.name << "\nchoices 20000";
			uint64_t rr = s.rng;
			for (int i = 0; i < 20000; i++) rf << " " << splitmix(rr);
			rf << "\nsig " << f.sig << "\nmsg " << f.msg << "\ndesc crash of generated case " << g << "\n";
		}
		if (o.known.count(f.sig)) stAll.known[f.sig]++; else crashes.push_back(f);
		if (sh->nPhase == 2) break;
		ip = sh->iProp; ic = sh->iCase + 1;
		if (crashes.size() >= 2 || now() - t0 > o.tmax) break;
	}
	stAll.fails = crashes;
	dump(stAll, o, now() - t0, true);
	return 0;
}

} // namespace pbt

#endif
