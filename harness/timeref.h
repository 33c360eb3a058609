// Independent calendar reference: days are counted with a closed formula.
#ifndef VERIF_TIMEREF_H
#define VERIF_TIMEREF_H
#include "TimeObj.h"
#include "pbt.h"
struct RefTime {
	long y, m, d, s, us;  // m,d zero based
};
inline long fdiv(long a, long b) { long q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
inline bool refLeap(long y, bool fStd) { return fStd && (y % 4 == 0) && (y % 100 != 0 || y % 400 == 0); }
inline int refDim(long y, long m, bool fStd) {
	if (m == 1) return refLeap(y, fStd) ? 29 : 28;
	return (m == 3 || m == 5 || m == 8 || m == 10) ? 30 : 31;
}
// days before (y,m,0) since year 0
inline long refDays(long y, long m, bool fStd) {
	static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
	long n = 365 * y + cum[m];
	if (fStd) {
		long p = y - 1;
		n += fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400) + 1;  // year 0 is a leap year
		if (m > 1 && refLeap(y, true)) n++;
	}
	return n;
}
inline RefTime refNorm(RefTime t, bool fStd) {
	long c = fdiv(t.us, 1000000); t.us -= c * 1000000; t.s += c;
	c = fdiv(t.s, 86400); t.s -= c * 86400; t.d += c;
	c = fdiv(t.m, 12); t.m -= c * 12; t.y += c;
	long n = refDays(t.y, t.m, fStd) + t.d;
	// binary search the year, then the month
	long lo = -20000, hi = 30000;
	while (hi - lo > 1) { long mid = lo + (hi - lo) / 2; if (refDays(mid, 0, fStd) <= n) lo = mid; else hi = mid; }
	long mo = 0;
	while (mo < 11 && refDays(lo, mo + 1, fStd) <= n) mo++;
	t.y = lo; t.m = mo; t.d = n - refDays(lo, mo, fStd);
	return t;
}
inline long refMicros(const RefTime & t, bool fStd) {  // within long for the range used
	return ((refDays(t.y, t.m, fStd) + t.d) * 86400L + t.s) * 1000000L + t.us;
}
inline std::string refStr(const RefTime & t) { return pbt::fmt("%04ld-%02ld-%02ld-%05ld-%06ld", t.y, t.m + 1, t.d + 1, t.s, t.us); }
inline RefTime genDate(pbt::Src & s, bool fStd) {
	RefTime t;
	switch (s.weighted({3, 3, 3})) {
		case 0: t.y = s.irange(1, 40); break;
		case 1: t.y = 100 * s.irange(1, 90) + s.around(-2, 5, 0); break;   // century years
		default: t.y = s.irange(1, 9900); break;
	}
	t.m = s.coin(1, 3) ? s.irange(0, 2) : s.irange(0, 11);
	int dim = refDim(t.y, t.m, fStd);
	t.d = s.coin(1, 3) ? dim - 1 - s.irange(0, 2) : s.irange(0, dim - 1);
	t.s = s.coin(1, 3) ? (s.coin() ? 86399 : 0) : s.irange(0, 86399);
	t.us = s.coin(1, 3) ? 0 : (s.coin(1, 3) ? 999999 : s.irange(0, 999999));
	return t;
}
#endif
