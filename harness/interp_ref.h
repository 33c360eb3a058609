// Independent horizontal and vertical interpolation of the nodal data of a Sim, and reading of netCDF output files.
#pragma once
#include "dyn.h"
#include <netcdf.h>
#include <ftw.h>
namespace mu {
struct Cand { int el; std::vector<double> wa, wb; V3 a, b, P; };   // an element that holds the point, weights, local basis
inline std::vector<double> lag(const std::vector<double> & x, double t) { std::vector<double> w(x.size(), 1.0); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x.size(); j++) if (i != j) w[i] *= (t - x[j]) / (x[i] - x[j]); return w; }
// every element whose closure holds the point (x, y: degrees on the sphere, coordinates in a box)
inline std::vector<Cand> holders(Sim & S, Mesh & M, double x, double y) {
	std::vector<Cand> r; const double E = 1e-9;
	auto add = [&](int panel, double fa, double fb, int na, int nb, V3 a, V3 b, V3 P) { for (int ea = (int)floor(fa - E); ea <= (int)floor(fa + E); ea++) for (int eb = (int)floor(fb - E); eb <= (int)floor(fb + E); eb++) { if (ea < 0 || ea >= na || eb < 0 || eb >= nb) continue; auto it = M.elAt.find({ panel, ea, eb }); if (it == M.elAt.end()) continue; r.push_back(Cand{ it->second, lag(M.x, fa - ea), lag(M.x, fb - eb), a, b, P }); } };
	if (!S.g.sphere) { double fa = (x - S.g.gd[0]) / (S.g.gd[1] - S.g.gd[0]) * S.g.nx, fb = (y - S.g.gd[2]) / (S.g.gd[3] - S.g.gd[2]) * S.g.ny; add(0, fa, fb, S.g.nx, S.g.ny, { 1, 0, 0 }, { 0, 1, 0 }, { x, y, 0 }); return r; }
	V3 P = ptRLL(x * M_PI / 180, y * M_PI / 180); double R = S.phys().GetEarthRadius();
	for (int n = 0; n < 6; n++) { double c = dot(P, PC[n]); if (c < 0.3) continue; double X = dot(P, PX[n]) / c, Y = dot(P, PY[n]) / c; if (fabs(X) > 1 + 1e-9 || fabs(Y) > 1 + 1e-9) continue; V3 a, b; double Q = 1 + X * X + Y * Y, q = pow(Q, -1.5); V3 p = PC[n] + X * PX[n] + Y * PY[n];
		/* derivative of p/|p| with respect to alpha (X = tan alpha) and beta, times the radius */
		a = (R * (1 + X * X)) * ((1 / sqrt(Q)) * PX[n] - (q * X) * p); b = (R * (1 + Y * Y)) * ((1 / sqrt(Q)) * PY[n] - (q * Y) * p);
		add(n, (atan(X) + M_PI / 4) / (M_PI / 2) * S.g.ne, (atan(Y) + M_PI / 4) / (M_PI / 2) * S.g.ne, S.g.ne, S.g.ne, a, b, P); }
	return r;
}
template <class F> double at(Sim & S, Mesh & M, const Cand & q, F f) { double v = 0; const El & e = M.el[q.el]; GridPatchGLL * p = S.patch(e.patch); for (int i = 0; i < S.g.ho; i++) for (int j = 0; j < S.g.ho; j++) v += q.wa[i] * q.wb[j] * f(p, e.i0 + i, e.j0 + j); return v; }
// a private directory, removed with everything in it
struct Scratch { std::string d; Scratch() { char t[] = "/tmp/vpbtXXXXXX"; d = mkdtemp(t); } static int rm(const char * f, const struct stat *, int, struct FTW *) { return remove(f); } ~Scratch() { if (d.size() > 8) nftw(d.c_str(), rm, 16, FTW_DEPTH | FTW_PHYS); } };
struct Nc { int id; bool ok; Nc(const std::string & f) : id(-1) { ok = nc_open(f.c_str(), NC_NOWRITE, &id) == NC_NOERR; } ~Nc() { if (ok) nc_close(id); }
	long dim(const char * n) { int q; size_t l; if (nc_inq_dimid(id, n, &q) || nc_inq_dimlen(id, q, &l)) return -1; return (long)l; }
	bool has(const std::string & v) { int q; return nc_inq_varid(id, v.c_str(), &q) == NC_NOERR; }
	std::vector<std::string> dims(const std::string & v) { std::vector<std::string> r; int q, n, d[NC_MAX_VAR_DIMS]; char nm[NC_MAX_NAME + 1]; if (nc_inq_varid(id, v.c_str(), &q) || nc_inq_var(id, q, NULL, NULL, &n, d, NULL)) return r; for (int i = 0; i < n; i++) { nc_inq_dimname(id, d[i], nm); r.push_back(nm); } return r; }
	std::vector<double> var(const std::string & v) { std::vector<double> r; int q, n, d[NC_MAX_VAR_DIMS]; if (nc_inq_varid(id, v.c_str(), &q) || nc_inq_var(id, q, NULL, NULL, &n, d, NULL)) return r; size_t s = 1, l; for (int i = 0; i < n; i++) { nc_inq_dimlen(id, d[i], &l); s *= l; } r.resize(s); if (s && nc_get_var_double(id, q, &r[0])) r.clear(); return r; }
	std::string att(const std::string & v, const char * a) { int q = NC_GLOBAL; size_t l; if (v != "" && nc_inq_varid(id, v.c_str(), &q)) return "?"; if (nc_inq_attlen(id, q, a, &l)) return "?"; std::string s(l, 0); if (l && nc_get_att_text(id, q, a, &s[0])) return "?"; while (s.size() && !s.back()) s.pop_back(); return s; }
	double num(const char * a) { double v; if (nc_get_att_double(id, NC_GLOBAL, a, &v)) return NAN; return v; }
};
}
