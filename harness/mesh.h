// Independent description of the element mesh of a Sim: elements, coincident nodes, neighbours.
#pragma once
#include "model_util.h"
#include "sphere.h"
namespace mu {

// Gauss-Lobatto points on [0,1] by Newton iteration on P'_{n-1}
inline std::vector<double> gll(int n) {
	std::vector<double> x(n);
	for (int i = 0; i < n; i++) {
		double t = -cos(M_PI * i / (n - 1));
		if (i > 0 && i < n - 1) for (int it = 0; it < 60; it++) {
			double p0 = 1, p1 = t; for (int k = 2; k <= n - 1; k++) { double p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
			int N = n - 1; double d = N * (t * p1 - p0) / (t * t - 1), dd = (2 * t * d - N * (N + 1) * p1) / (1 - t * t);
			double s = d / dd; t -= s; if (fabs(s) < 1e-16) break;
		}
		x[i] = 0.5 * (t + 1);
	}
	return x;
}
inline std::vector<double> gllw(int n) {
	std::vector<double> x = gll(n), w(n);
	for (int i = 0; i < n; i++) {
		double t = 2 * x[i] - 1, p0 = 1, p1 = t; for (int k = 2; k <= n - 1; k++) { double p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
		if (n == 1) { w[i] = 1; continue; }
		w[i] = 1.0 / (n * (n - 1) * p1 * p1);
	}
	return w;
}

struct El { int patch, panel, ea, eb, i0, j0; };
struct Ref { int patch, i, j, el; };

struct Mesh {
	Sim & s; std::vector<double> x; std::vector<El> el; std::vector<std::vector<Ref> > groups; std::vector<int> groupOf; std::map<std::vector<long>, int> gid;
	std::map<std::vector<int>, int> elAt;      // panel, ea, eb
	Mesh(Sim & sim) : s(sim) {
		int ho = s.g.ho; x = gll(ho);
		for (int n = 0; n < s.pg->GetPatchCount(); n++) {
			const PatchBox & b = s.pg->GetPatchBox(n); int h = b.GetAInteriorBegin();
			for (int a = 0; a < b.GetAInteriorWidth() / ho; a++) for (int c = 0; c < b.GetBInteriorWidth() / ho; c++) {
				El e = { n, b.GetPanel(), b.GetAGlobalInteriorBegin() / ho + a, b.GetBGlobalInteriorBegin() / ho + c, h + a * ho, b.GetBInteriorBegin() + c * ho };
				elAt[{ e.panel, e.ea, e.eb }] = (int)el.size(); el.push_back(e);
			}
		}
		for (size_t e = 0; e < el.size(); e++) for (int i = 0; i < ho; i++) for (int j = 0; j < ho; j++) {
			std::vector<long> k = key(el[e], i, j); int id; auto it = gid.find(k);
			if (it == gid.end()) { id = (int)groups.size(); gid[k] = id; groups.push_back(std::vector<Ref>()); } else id = it->second;
			groups[id].push_back(Ref{ el[e].patch, el[e].i0 + i, el[e].j0 + j, (int)e });
		}
	}
	void ab(const El & e, int i, int j, double & A, double & B) { double d = M_PI / 2 / s.g.ne; A = -M_PI / 4 + (e.ea + x[i]) * d; B = -M_PI / 4 + (e.eb + x[j]) * d; }
	V3 pos(const El & e, int i, int j) { double A, B; ab(e, i, j, A, B); return ptXYP(tan(A), tan(B), e.panel); }
	void xy(const El & e, int i, int j, double & X, double & Y) {
		X = s.g.gd[0] + (s.g.gd[1] - s.g.gd[0]) * (e.ea + x[i]) / s.g.nx; Y = s.g.gd[2] + (s.g.gd[3] - s.g.gd[2]) * (e.eb + x[j]) / s.g.ny;
	}
	bool perX() { return s.g.bc[0] == 0 && s.g.bc[2] == 0; }
	bool perY() { return s.g.bc[1] == 0 && s.g.bc[3] == 0; }
	std::vector<long> key(const El & e, int i, int j) {
		if (s.g.sphere) { V3 p = pos(e, i, j); return { lround(p.x * 1e7 + 0.2360679), lround(p.y * 1e7 + 0.1415926), lround(p.z * 1e7 + 0.3219280) }; }
		long h = s.g.ho - 1, a = e.ea * h + i, b = e.eb * h + j;
		if (perX()) a %= s.g.nx * h; if (perY()) b %= s.g.ny * h;
		return { a, b };
	}
	int group(const El & e, int i, int j) { return gid[key(e, i, j)]; }
	// element across side d of element e: 0 right 1 top 2 left 3 bottom; -1 when there is none
	int across(int e, int d) {
		const El & E = el[e]; int ho = s.g.ho;
		static const int da[4] = { 1, 0, -1, 0 }, db[4] = { 0, 1, 0, -1 };
		int n1 = s.g.sphere ? s.g.ne : s.g.nx, n2 = s.g.sphere ? s.g.ne : s.g.ny;
		int a = E.ea + da[d], b = E.eb + db[d];
		if (!s.g.sphere) {
			if (a < 0 || a >= n1) { if (!perX()) return -1; a = (a + n1) % n1; }
			if (b < 0 || b >= n2) { if (!perY()) return -1; b = (b + n2) % n2; }
			return elAt[{ 0, a, b }];
		}
		if (a >= 0 && a < n1 && b >= 0 && b < n2) return elAt[{ E.panel, a, b }];
		int h = ho - 1, g1, g2;
		if (d == 0) { g1 = group(E, h, 0); g2 = group(E, h, h); } else if (d == 1) { g1 = group(E, 0, h); g2 = group(E, h, h); }
		else if (d == 2) { g1 = group(E, 0, 0); g2 = group(E, 0, h); } else { g1 = group(E, 0, 0); g2 = group(E, h, 0); }
		for (auto & r : groups[g1]) if (r.el != e) for (auto & q : groups[g2]) if (q.el == r.el) return r.el;
		return -1;
	}
	// node of element f at the same place as node (i,j) of element e.  In a periodic direction one element wide both
	// of its ends coincide: farA/farB say which end is wanted.
	bool match(int e, int i, int j, int f, int & I, int & J, int wantI = -1, int wantJ = -1) {
		int g = group(el[e], i, j); bool ok = false;
		for (auto & r : groups[g]) if (r.el == f) { int ii = r.i - el[f].i0, jj = r.j - el[f].j0; if ((wantI >= 0 && ii != wantI) || (wantJ >= 0 && jj != wantJ)) continue; I = r.i; J = r.j; ok = true; }
		return ok;
	}
};
}
