// P02: times and durations as text.
#include "timeref.h"
using namespace pbt;
static void same(Ctx & c, const Time & t, const RefTime & r, const char * sig, const std::string & what) {
	bool fix = t.GetTimeType() == Time::TypeFixed;
	bool ok = t.GetYear() == r.y && t.GetMonth() == r.m + (fix ? 1 : 0) && t.GetDay() == r.d + (fix ? 1 : 0) && t.GetSecond() == r.s && t.GetMicroSecond() == r.us;
	c.check(ok, sig, "%s: got %d-%d-%d-%d-%d expected %s (+1 for dates)", what.c_str(), t.GetYear(), t.GetMonth(), t.GetDay(), t.GetSecond(), t.GetMicroSecond(), refStr(r).c_str());
}
static Time parse(const std::string & s, bool fStd) {
	Time t(fStd ? Time::CalendarStandard : Time::CalendarNoLeap);
	// leftovers must not survive
	t.SetYear(77); t.SetMonth(3); t.SetDay(9); t.SetSecond(4321); t.SetMicroSecond(99);
	t.FromFormattedString(s);
	return t;
}
static void roundtrip(Src & s, Ctx & c) {
	bool fStd = s.coin();
	RefTime r = genDate(s, fStd);
	if (s.coin(1, 4)) r.y = s.irange(0, 99);
	if (r.d >= refDim(r.y, r.m, fStd)) r.d = 0;
	if (r.y > 9999) r.y = 9999;
	Time t((int)r.y, (int)r.m, (int)r.d, (int)r.s, (int)r.us, fStd ? Time::CalendarStandard : Time::CalendarNoLeap);
	c.desc("%s %s", fStd ? "std" : "noleap", refStr(r).c_str());
	c.nontrivial(r.us != 0 || r.s != 0);
	std::string l = t.ToLongString(), st = t.ToString(), sh = t.ToShortString(), da = t.ToDateString();
	c.check(l == refStr(r), "long-text", "long string is '%s'", l.c_str());
	c.check(da == fmt("%04ld-%02ld-%02ld", r.y, r.m + 1, r.d + 1), "date-text", "date string is '%s'", da.c_str());
	c.check(sh == fmt("%04ld-%02ld-%02ld-%05ld", r.y, r.m + 1, r.d + 1, r.s), "short-text", "short string is '%s'", sh.c_str());
	std::string e = fmt("%04ld-%02ld-%02ld %02ld:%02ld:%02ld", r.y, r.m + 1, r.d + 1, r.s / 3600, r.s / 60 % 60, r.s % 60);
	if (r.us) e += fmt(".%06ld", r.us);
	c.check(st == e, "text", "string is '%s'", st.c_str());
	Time tl(l, t.GetCalendarType());
	c.check(tl == t, "long-roundtrip", "long string '%s' reads as %s", l.c_str(), tl.ToLongString().c_str());
	Time tl2(t.GetCalendarType()); tl2.FromLongString(l);
	c.check(tl2 == t, "long-roundtrip", "long string '%s' reads as %s", l.c_str(), tl2.ToLongString().c_str());
	Time ts = parse(st, fStd);
	c.check(ts == t, "roundtrip", "string '%s' reads as %s", st.c_str(), ts.ToLongString().c_str());
	RefTime q = r; q.us = 0;
	same(c, parse(sh, fStd), q, "short-roundtrip", "'" + sh + "'");
	q.s = 0;
	same(c, parse(da, fStd), q, "date-roundtrip", "'" + da + "'");
	std::string ym = fmt("%04ld-%02ld", r.y, r.m + 1);
	q.d = 0;
	same(c, parse(ym, fStd), q, "ym", "'" + ym + "'");
	std::string dd = fmt("%04ld-%02ld-%02ld-%02ld:%02ld:%02ld", r.y, r.m + 1, r.d + 1, r.s / 3600, r.s / 60 % 60, r.s % 60);
	q = r; q.us = 0;
	same(c, parse(dd, fStd), q, "dash-time", "'" + dd + "'");
	// 0 to 6 decimals
	int nd = (int)s.irange(1, 6);
	long p = 1; for (int i = 0; i < 6 - nd; i++) p *= 10;
	q.us = r.us / p * p;
	std::string fr = dd + fmt(".%0*ld", nd, r.us / p);
	same(c, parse(fr, fStd), q, "fraction", "'" + fr + "'");
	std::string tm = fmt("%02ld:%02ld:%02ld", r.s / 3600, r.s / 60 % 60, r.s % 60);
	RefTime z = {0, 0, 0, r.s, 0};
	Time tt = parse(tm, fStd);
	same(c, tt, z, "time-only", "'" + tm + "'");
	z.us = q.us; tm += fmt(".%0*ld", nd, r.us / p);
	same(c, parse(tm, fStd), z, "time-only", "'" + tm + "'");
}
static void duration(Src & s, Ctx & c) {
	RefTime r = {0, 0, 0, 0, 0};
	struct U { char ch; long v; };
	std::vector<U> u;
	const char * all = "yMdhmsu";
	std::string txt;
	long tot = 0;
	// units in any order, each at most once
	std::vector<char> un(all, all + 7);
	for (int i = 6; i > 0; i--) if (s.coin(1, 3)) std::swap(un[i], un[s.draw(i)]);
	for (int i = 0; i < 7; i++) if (s.coin(1, 3)) {
		long v;
		char k = un[i];
		switch (s.weighted({3, 2, 1})) { case 0: v = s.irange(0, 99); break; case 1: v = s.irange(0, 2000); break; default: v = s.irange(0, k == 'h' ? 500000 : k == 'm' ? 10000000 : k == 's' || k == 'u' ? 1000000000 : 5000); }
		txt += fmt(s.coin(1, 8) ? "%03ld%c" : "%ld%c", v, k);
		if (k == 'y') r.y = v; if (k == 'M') r.m = v; if (k == 'd') r.d = v;
		if (k == 'h') tot += 3600 * v; if (k == 'm') tot += 60 * v; if (k == 's') tot += v; if (k == 'u') r.us = v;
	}
	if (txt == "") txt = "1s", tot = 1;
	if (tot > 2000000000L) c.discard();
	r.s = tot;
	c.desc("duration '%s'", txt.c_str());
	c.nontrivial(txt.size() > 3);
	Time t = parse(txt, false);
	c.check(t.GetTimeType() == Time::TypeDelta, "type", "a duration is not a delta");
	// canonical form
	RefTime q = r;
	q.s += fdiv(q.us, 1000000); q.us -= fdiv(q.us, 1000000) * 1000000;
	q.d += fdiv(q.s, 86400); q.s -= fdiv(q.s, 86400) * 86400;
	// meaning: adding it to any date moves by that amount
	bool fStd = s.coin();
	RefTime d0 = genDate(s, fStd); d0.y = 1 + d0.y % 3000; if (d0.d >= refDim(d0.y, d0.m, fStd)) d0.d = 0;
	Time td((int)d0.y, (int)d0.m, (int)d0.d, (int)d0.s, (int)d0.us, fStd ? Time::CalendarStandard : Time::CalendarNoLeap);
	td += t;
	RefTime e = d0; e.y += r.y; e.m += r.m; e.d += r.d; e.s += r.s; e.us += r.us;
	e = refNorm(e, fStd);
	same(c, td, e, "duration-amount", refStr(d0) + " plus '" + txt + "'");
	// printing and reading back
	std::string f = t.ToFreeString();
	if (!t.IsZero()) {
		Time t2 = parse(f, false);
		c.check(t2 == t, "free-roundtrip", "'%s' prints as '%s' which reads as '%s'", txt.c_str(), f.c_str(), t2.ToFreeString().c_str());
	} else c.check(f == "", "free-zero", "zero prints as '%s'", f.c_str());
	if (r.y == 0 && r.m == 0) c.close(t.GetSeconds(), 86400.0 * r.d + r.s + 1e-6 * r.us, 1e-6 + 1e-15 * t.GetSeconds(), "free-seconds", "GetSeconds of '%s'", txt.c_str());
}
static void malformed(Src & s, Ctx & c) {
	std::string t;
	int k = (int)s.draw(7);
	auto num = [&]() { return fmt("%ld", s.irange(0, 999)); };
	const char * units = "yMdhmsu";
	switch (k) {
		case 0: { // a unit twice
			char u = units[s.draw(6)];
			t = num() + u;
			if (s.coin()) { char w = units[s.draw(6)]; if (w != u) t += num() + w; }
			t += num() + u; break; }
		case 1: { // unknown character
			t = num();
			static const char bad[] = "HYDSUabcefgijklnopqrtvwxz*/+,;_%"; 
			t += bad[s.draw(sizeof(bad) - 2)];
			if (s.coin()) t = num() + units[s.draw(6)] + t;
			break; }
		case 2: t = num() + units[s.draw(6)] + num(); break;   // dangling number
		case 3: t = fmt("%02ld:%02ld:%02ld", s.irange(0, 23), s.irange(0, 59), s.irange(0, 59)) + units[s.draw(6)]; break; // mix time + free
		case 4: t = num() + units[s.draw(6)] + fmt("%02ld:%02ld", s.irange(0, 23), s.irange(0, 59)); break;
		case 5: t = fmt("%04ld-%02ld-%02ld", s.irange(0, 9999), s.irange(1, 12), s.irange(1, 28)) + units[s.draw(6)]; break;
		case 6: t = fmt("%04ld-%02ld-%02ld-%05ld-%02ld", s.irange(0, 9999), s.irange(1, 12), s.irange(1, 28), s.irange(0, 86399), s.irange(0, 99)); break;
		default: t = fmt("%02ld:%02ld:%02ld:%02ld:%02ld", s.irange(0, 23), s.irange(0, 59), s.irange(0, 59), s.irange(0, 9), s.irange(0, 9)); break;
	}
	c.desc("malformed '%s'", t.c_str());
	c.nontrivial();
	c.cls(fmt("malformed:%d", k));
	bool threw = false; std::string got;
	try { Time x = parse(t, s.coin()); got = fmt("%d %d %d %d %d", x.GetYear(), x.GetMonth(), x.GetDay(), x.GetSecond(), x.GetMicroSecond()); } catch (Exception & e) { threw = true; }
	c.check(threw, "malformed-accepted", "'%s' was read as %s", t.c_str(), got.c_str());
}
static void longbad(Src & s, Ctx & c) {
	// long strings with a field out of range, or of the wrong length
	bool fStd = s.coin();
	RefTime r = genDate(s, fStd); if (r.y > 9999) r.y = 9999;
	int k = (int)s.draw(4);
	std::string t;
	if (k == 0) { r.m = s.irange(12, 98); }
	else if (k == 1) { r.d = refDim(r.y, r.m, fStd) + s.irange(0, 60); }
	else if (k == 2) { r.s = s.irange(86400, 99999); }
	else if (k == 3) { r.m = -1; }
	t = refStr(r);
	if (k == 4) { if (s.coin()) t += "0"; else t.erase(t.size() - 1); }
	c.desc("%s long string '%s'", fStd ? "std" : "noleap", t.c_str());
	c.nontrivial();
	bool threw = false;
	try { Time x(t, fStd ? Time::CalendarStandard : Time::CalendarNoLeap); } catch (Exception &) { threw = true; }
	c.check(threw, "long-malformed-accepted", "'%s' accepted", t.c_str());
}
static void bareyear(Src & s, Ctx & c) {
	long y = s.irange(0, 9999);
	c.desc("year only '%04ld'", y);
	c.nontrivial();
	RefTime r = {y, 0, 0, 0, 0};
	Time t;
	try { t = parse(fmt("%04ld", y), false); } catch (Exception & e) { c.fail("bare-year-refused", "the documented form 'yyyy' (%04ld) is refused: %s", y, e.ToString().c_str()); }
	same(c, t, r, "bare-year", "year only");
}
int main(int argc, char ** argv) {
	return run(argc, argv, {{"p02_roundtrip", roundtrip, 2.0}, {"p02_duration", duration, 2.0}, {"p02_malformed", malformed, 1.0}, {"p02_longbad", longbad, 1.0}, {"p02_bareyear", bareyear, 0.01}});
}
