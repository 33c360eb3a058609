// P01: model time arithmetic.
#include "timeref.h"
using namespace pbt;

static Time mk(const RefTime & t, bool fStd) {
	return Time((int)t.y, (int)t.m, (int)t.d, (int)t.s, (int)t.us, fStd ? Time::CalendarStandard : Time::CalendarNoLeap);
}
static void same(Ctx & c, const Time & t, const RefTime & r, const char * sig, const std::string & what) {
	bool ok = t.GetYear() == r.y && t.GetMonth() == r.m + 1 && t.GetDay() == r.d + 1 && t.GetSecond() == r.s && t.GetMicroSecond() == r.us;
	c.check(ok, sig, "%s: got %04d-%02d-%02d-%05d-%06d expected %s", what.c_str(), t.GetYear(), t.GetMonth(), t.GetDay(), t.GetSecond(), t.GetMicroSecond(), refStr(r).c_str());
}
static long mag(Src & s, long hi) {
	// increments at many scales, near exact multiples of the carries
	long v;
	switch (s.weighted({2, 3, 2})) {
		case 0: v = s.irange(0, 3); break;
		case 1: { static const long base[] = {60, 3600, 86400, 12, 28, 29, 30, 31, 365, 366, 1461, 36524, 36525, 146097, 1000000};
			v = base[s.draw(14)] * s.irange(1, 6) + s.around(-1, 1, 0); break; }
		default: v = (long)s.logreal(1.0, (double)hi); break;
	}
	if (v > hi) v = v % hi;
	return s.coin() ? v : -v;
}
static bool inRange(const RefTime & r) { return r.y >= 1 && r.y <= 9998; }

static void history(Src & s, Ctx & c) {
	bool fStd = s.coin();
	RefTime r = genDate(s, fStd);
	Time t = mk(r, fStd);
	c.desc("%s start %s:", fStd ? "std" : "noleap", refStr(r).c_str());
	same(c, t, r, "construct", "constructed");
	c.cls(fStd ? "calendar:standard" : "calendar:noleap");
	int n = (int)s.irange(1, 6);
	for (int k = 0; k < n; k++) {
		RefTime q = r;
		int op = (int)s.draw(5);
		std::string what;
		if (op == 0) { int v = (int)mag(s, 2000000000L); q.s += v; q = refNorm(q, fStd); if (!inRange(q)) continue; if (s.coin()) t.AddSeconds(v); else t += v; what = fmt(" +%ds", v); }
		else if (op == 1) { int v = (int)mag(s, 200000); q.d += v; q = refNorm(q, fStd); if (!inRange(q)) continue; t.AddDays(v); what = fmt(" +%dd", v); }
		else if (op == 2) { int v = (int)mag(s, 5000); q.m += v; q = refNorm(q, fStd); if (!inRange(q)) continue; t.AddMonths(v); what = fmt(" +%dM", v); }
		else if (op == 3) { int v = (int)mag(s, 500); q.y += v; q = refNorm(q, fStd); if (!inRange(q)) continue; t.AddYears(v); what = fmt(" +%dy", v); }
		else {
			RefTime dl; dl.y = s.coin(1, 4) ? mag(s, 30) : 0; dl.m = s.coin(1, 3) ? mag(s, 40) : 0; dl.d = s.coin() ? mag(s, 2000) : 0;
			dl.s = s.coin() ? mag(s, 900000000L) : 0; dl.us = s.coin() ? mag(s, 2000000000L) : 0;
			q.y += dl.y; q.m += dl.m; q.d += dl.d; q.s += dl.s; q.us += dl.us; 
			if (op == 4) {
				q = refNorm(q, fStd); if (!inRange(q)) continue;
				Time td((int)dl.y, (int)dl.m, (int)dl.d, (int)dl.s, (int)dl.us, fStd ? Time::CalendarStandard : Time::CalendarNoLeap, Time::TypeDelta);
				if (s.coin()) t += td; else t.AddTime(td);
				what = fmt(" +(%ldy%ldM%ldd%lds%ldu)", dl.y, dl.m, dl.d, dl.s, dl.us);
			} else {
				// a date constructed from unnormalized parts
				if (labs(q.s) > 2000000000L || labs(q.us) > 2000000000L) continue;
				Time tn((int)q.y, (int)q.m, (int)q.d, (int)q.s, (int)q.us, fStd ? Time::CalendarStandard : Time::CalendarNoLeap);
				what = fmt(" construct(%ld,%ld,%ld,%ld,%ld)", q.y, q.m, q.d, q.s, q.us);
				q = refNorm(q, fStd); if (!inRange(q)) continue;
				t = tn;
			}
		}
		c.desc("%s", what.c_str());
		c.cls(fmt("op:%d", op));
		same(c, t, q, "arith", "after" + what);
		bool fCarry = q.y != r.y || q.m != r.m || q.d != r.d;
		c.nontrivial(fCarry);
		r = q;
	}
	c.check(t >= mk(r, fStd) && t <= mk(r, fStd) && t == mk(r, fStd), "cmp-self", "time does not equal itself");
}

// there and back, many small = one large, elapsed seconds, order
static void inverse(Src & s, Ctx & c) {
	bool fStd = s.coin();
	RefTime r = genDate(s, fStd);
	r.y = std::max(400L, std::min(9500L, r.y));
	if (r.d >= refDim(r.y, r.m, fStd)) r.d = refDim(r.y, r.m, fStd) - 1;
	Time t0 = mk(r, fStd), t = t0;
	long nSec = mag(s, 1000000000L);
	long nUs = s.coin() ? mag(s, 1000000000L) : 0;
	c.desc("%s %s by %lds %ldus", fStd ? "std" : "noleap", refStr(r).c_str(), nSec, nUs);
	Time tf(0, 0, 0, (int)nSec, (int)nUs, t0.GetCalendarType(), Time::TypeDelta);
	Time tb(0, 0, 0, (int)-nSec, (int)-nUs, t0.GetCalendarType(), Time::TypeDelta);
	t += tf;
	long e = refMicros(r, fStd) + nSec * 1000000L + nUs;
	bool fwd = nSec * 1000000L + nUs > 0, zero = nSec * 1000000L + nUs == 0;
	c.nontrivial(!t0.IsSameDate(t));
	c.check((t > t0) == fwd && (t < t0) == (!fwd && !zero) && (t == t0) == zero && (t >= t0) == (fwd || zero) && (t <= t0) == !fwd, "order", "comparison after moving is wrong: %s vs %s", t.ToLongString().c_str(), t0.ToLongString().c_str());
	c.check((t0 < t) == fwd && (t0 > t) == (!fwd && !zero), "order", "reverse comparison wrong");
	if (!fStd) {
		double d = t - t0, dref = (double)nSec + 1e-6 * (double)nUs;
		c.close(d, dref, 1e-6 * 0.4 + 4e-16 * fabs(dref) * 8, "elapsed", "elapsed seconds");
		c.close(t0 - t, -dref, 1e-6 * 0.4 + 4e-16 * fabs(dref) * 8, "elapsed", "elapsed seconds (negative)");
		double g = t.GetSeconds() - t0.GetSeconds();
		c.close(g, dref, 1e-4, "getseconds", "difference of absolute seconds");
	}
	Time tk = t;
	t += tb;
	c.check(t == t0, "inverse", "moving back gives %s instead of %s", t.ToLongString().c_str(), t0.ToLongString().c_str());
	// many small moves
	int n = (int)s.irange(2, 40);
	Time ts = t0, tl = t0;
	long h = mag(s, 20000000L);
	for (int i = 0; i < n; i++) ts.AddSeconds((int)h);
	tl.AddSeconds((int)(h * n));
	c.check(ts == tl, "additive", "%d moves of %lds give %s, one gives %s", n, h, ts.ToLongString().c_str(), tl.ToLongString().c_str());
	(void)e; (void)tk;
	Time td = t0;
	td.AddDays((int)mag(s, 50000));
	Time tu = td;
	(void)tu;
}

static void order(Src & s, Ctx & c) {
	bool fStd = s.coin();
	RefTime a = genDate(s, fStd), b = a;
	// neighbours that differ in one or two fields
	int k = (int)s.draw(5);
	if (k == 0) b.y += s.around(-3, 3, 0);
	else if (k == 1) b.m += s.around(-3, 3, 0);
	else if (k == 2) b.d += s.around(-40, 40, 0);
	else if (k == 3) { b.s = s.irange(0, 86399); }
	else if (k == 4) b.us = s.irange(0, 999999);
	else b = genDate(s, fStd);
	if (s.coin()) b.s = s.irange(0, 86399);
	if (s.coin()) b.us = s.irange(0, 999999);
	b = refNorm(b, fStd);
	c.desc("%s %s vs %s", fStd ? "std" : "noleap", refStr(a).c_str(), refStr(b).c_str());
	Time ta = mk(a, fStd), tb = mk(b, fStd);
	long da = (refDays(a.y, a.m, fStd) + a.d) * 86400L + a.s, db = (refDays(b.y, b.m, fStd) + b.d) * 86400L + b.s;
	int cmp = da < db ? -1 : da > db ? 1 : a.us < b.us ? -1 : a.us > b.us ? 1 : 0;
	c.nontrivial(cmp != 0);
	c.check((ta < tb) == (cmp < 0), "lt", "< wrong"); c.check((ta > tb) == (cmp > 0), "gt", "> wrong");
	c.check((ta <= tb) == (cmp <= 0), "le", "<= wrong"); c.check((ta >= tb) == (cmp >= 0), "ge", ">= wrong");
	c.check((ta == tb) == (cmp == 0), "eq", "== wrong");
	c.check(ta.IsSameDate(tb) == (a.y == b.y && a.m == b.m && a.d == b.d), "samedate", "IsSameDate wrong");
	if (!fStd) {
		double e = (double)(da - db) + 1e-6 * (double)(a.us - b.us);
		c.close(ta - tb, e, 4e-7 + 4e-15 * fabs(e), "diff", "difference");
		c.close(ta.GetSeconds() - tb.GetSeconds(), e, 1e-4, "getseconds", "GetSeconds difference");
	}
}

int main(int argc, char ** argv) {
	return run(argc, argv, {{"p01_history", history, 2.0}, {"p01_inverse", inverse, 1.0}, {"p01_order", order, 1.0}});
}
