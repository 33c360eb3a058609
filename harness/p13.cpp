// P13: the result does not depend on how the grid is cut into patches, nor on how the patches are spread over MPI processes.
#include "interp_ref.h"
#include <map>
#include <unistd.h>
#include <sys/wait.h>
using namespace pbt; using namespace mu;
struct Run { Dyn d; int n; std::vector<double> X, Y, eta; std::vector<int> counts; };
typedef std::map<long, std::vector<double> > Nodes;
struct Result { Nodes nodes; std::vector<double> totals, points; };
static void gen(Src & s, Ctx & c, Run & r) {
	Dyn & d = r.d; DynOpt o; o.schemes = { "strang", "strang/rk3", "erk", "erk/rk4", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332" }; genDyn(s, c, d, o); genVisc(s, c, d); Cfg & g = d.g;
	int e0 = g.sphere ? g.ne : g.nx; if (g.sphere) { g.ne = s.pick(std::vector<int>{ 2, 3, 4, 6 }); if (g.ne > 3 && g.ho > 3) g.ne = 2; if (g.ne == 6 && !g.sw) g.ne = 4; d.dt *= std::min(1.0, (double)e0 / g.ne); } else { g.nx = (int)s.irange(2, 8); d.dt *= std::min(1.0, (double)e0 / g.nx); }
	if (g.hvOrder == 4) { double q = pow((double)e0 / (g.sphere ? g.ne : g.nx), 0.8); g.nuS *= q; g.nuD *= q; g.nuV *= q; }   /* keeps the diffusion below its limit */
	g.np = g.sphere ? 6 : 1; int e1 = g.sphere ? g.ne : g.nx; if (g.sphere) for (int q = 1; q <= e1; q++) { if (e1 % q == 0) r.counts.push_back(6 * q * q); } else for (int q = 1; q <= e1; q++) if (g.nx * g.ny % q == 0) r.counts.push_back(q);
	bool ray = s.coin(1, 4); setCase(d); if (ray) { double zt = d.ztop, sc = 0.1 / d.dt; bool sw = g.sw; d.tc->rayleigh = [=](double z, double, double) { return sw ? sc : z > 0.6 * zt ? sc * (z / zt - 0.6) : 0.0; }; if (!d.tc->ref) { auto st = d.tc->state; d.tc->ref = st; } }
	r.n = (int)s.irange(1, 4); int m = (int)s.irange(1, 5); for (int i = 0; i < m; i++) { if (g.sphere) { r.X.push_back(s.real(-180, 180)); r.Y.push_back(s.real(-85, 85)); } else { r.X.push_back(g.gd[0] + s.real(0, 1) * (g.gd[1] - g.gd[0])); r.Y.push_back(g.gd[2] + s.real(0, 1) * (g.gd[3] - g.gd[2])); } }
	c.desc(" elements now %d, %d steps, friction %d", e1, r.n, ray);
}
/* one run with np patches; the case is copied, so that a Run serves several */
static bool go(const Run & r, int np, Result & R, double eps = 0) {
	Cfg g = r.d.g; g.np = np; bool ok = true;
	try {
		std::unique_ptr<Sim> S(new Sim(g, new Case(*r.d.tc))); Dyn d = r.d; d.g = g;
		S->pg->EvaluateTestCase(*S->tc, S->m.GetStartTime());
		if (eps > 0) { uint64_t h = 99; S->each([&](GridPatchGLL * p, int i, int j) { for (int c = 0; c < S->nComp(); c++) for (int k = 0; k < S->nk(c); k++) S->data(p, 0, c)(c, i, j, k) *= 1 + eps * ((double)(splitmix(h) >> 11) / 4503599627370496.0 - 1); for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) p->GetDataTracers(0)(t, i, j, k) *= 1 + eps * ((double)(splitmix(h) >> 11) / 4503599627370496.0 - 1); }); S->pg->PostProcessSubstage(0, DataType_State); if (g.ntr) S->pg->PostProcessSubstage(0, DataType_Tracers); }
		for (int i = 0; i < r.n; i++) S->step(d.dt, i == r.n - 1);
		int nc = S->nComp(), ho = g.ho; (void)ho;
		S->each([&](GridPatchGLL * p, int i, int j) { const PatchBox & b = p->GetPatchBox(); long key = ((long)b.GetPanel() * 4096 + b.GetAGlobalInteriorBegin() + i - b.GetAInteriorBegin()) * 4096 + b.GetBGlobalInteriorBegin() + j - b.GetBInteriorBegin(); std::vector<double> & v = R.nodes[key]; if (!v.empty()) v.push_back(1e300);   /* held twice */
			for (int c = 0; c < nc; c++) for (int k = 0; k < S->nk(c); k++) v.push_back(S->data(p, 0, c)(c, i, j, k)); for (int t = 0; t < g.ntr; t++) for (int k = 0; k < g.nlev; k++) v.push_back(p->GetDataTracers(0)(t, i, j, k)); });
		const ChecksumType ct[] = { ChecksumType_Sum, ChecksumType_L1, ChecksumType_L2, ChecksumType_Linf }; for (int l = 0; l < 2; l++) if (!l || g.ntr) for (int q = 0; q < 4; q++) { DataArray1D<double> c; S->pg->Checksum(l ? DataType_Tracers : DataType_State, c, 0, ct[q]); for (size_t i = 0; i < c.GetRows(); i++) R.totals.push_back(c[i]); }
		R.totals.push_back(S->pg->ComputeTotalEnergy(0));
		int n = (int)r.X.size(); DataArray1D<double> dX(n), dY(n), dA(n), dB(n); DataArray1D<int> iP(n); for (int i = 0; i < n; i++) { dX[i] = r.X[i]; dY[i] = r.Y[i]; } S->pg->ConvertReferenceToPatchCoord(dX, dY, dA, dB, iP);
		DataArray1D<double> eta(g.sw ? 1 : g.nlev); for (size_t k = 0; k < eta.GetRows(); k++) eta[k] = g.sw ? 0 : S->pg->GetREtaLevel(k);
		for (int l = 0; l < 2; l++) if (!l || g.ntr) { DataArray3D<double> I(l ? g.ntr : nc, eta.GetRows(), n); S->pg->ReduceInterpolate(l ? DataType_Tracers : DataType_State, eta, dA, dB, iP, I, g.sw || l ? DataLocation_None : DataLocation_Node); for (size_t a = 0; a < I.GetRows(); a++) if (l || g.sw || S->loc(a) == DataLocation_Node) for (size_t b = 0; b < eta.GetRows(); b++) for (int i = 0; i < n; i++) R.points.push_back(I[a][b][i]); }
	} catch (Exception & e) { if (e.ToString().find("Inversion failure") == std::string::npos) throw; ok = false; }
	return ok;
}
static bool usable(const Result & R) { for (auto & n : R.nodes) for (double v : n.second) if (!std::isfinite(v)) return false; for (double v : R.totals) if (!std::isfinite(v)) return false; return true; }
static void compare(Ctx & c, const Run & r, const Result & A, const Result & B, const char * what, const Result * P = NULL) {
	c.check(A.nodes.size() == B.nodes.size(), "the nodes of the grid depend on the layout", "%s: %d and %d", what, (int)A.nodes.size(), (int)B.nodes.size()); if (A.nodes.size() != B.nodes.size()) return;
	size_t len = A.nodes.begin()->second.size(); std::vector<double> sc; const Cfg & g = r.d.g; int nc = g.sw ? 3 : 5; (void)nc;
	/* scale of each stored variable over all its levels */
	std::vector<int> var; { std::vector<int> nk; int tot = 0; for (int q = 0; q < (g.sw ? 3 : 5); q++) { int k = g.sw ? 1 : (q == 3 ? g.nlev + 1 : g.nlev); nk.push_back(k); tot += k; } for (int t = 0; t < g.ntr; t++) { nk.push_back(g.nlev); tot += g.nlev; } if (tot != (int)len) { nk.assign(len, 1); } for (size_t q = 0; q < nk.size(); q++) for (int k = 0; k < nk[q]; k++) var.push_back((int)q); sc.assign(nk.size(), 0); }
	for (auto & n : A.nodes) for (size_t q = 0; q < n.second.size() && q < len; q++) sc[var[q]] = std::max(sc[var[q]], fabs(n.second[q]));
	double wind = std::max(sc[0], sc[1]); sc[0] = sc[1] = wind; if (!g.sw && sc.size() > 4 && var.size() == len) sc[3] = std::max(sc[3], 1e-3 * wind);   /* vertical velocity at rest is rounding */
	double floorw = 1e-4 * (g.sphere ? 6.37122e6 / r.d.X : g.gd[1] - g.gd[0]); sc[0] = std::max(sc[0], floorw); sc[1] = std::max(sc[1], floorw); if (!g.sw && sc.size() > 4) sc[3] = std::max(sc[3], 1e-3 * floorw);
	std::vector<double> ex(sc.size(), 0); if (P) for (auto & n : A.nodes) { auto it = P->nodes.find(n.first); if (it != P->nodes.end()) for (size_t q = 0; q < len; q++) ex[var[q]] = std::max(ex[var[q]], 100 * fabs(n.second[q] - it->second[q])); }   /* what rounding grows to in this run */
	auto ext = [&](size_t q) { return P ? 100 * fabs(A.totals[q] - P->totals[q]) : 0.0; };
	for (auto & n : A.nodes) { auto it = B.nodes.find(n.first); c.check(it != B.nodes.end() && it->second.size() == n.second.size(), "the nodes of the grid depend on the layout", "%s: node %ld", what, n.first); if (it == B.nodes.end() || it->second.size() != n.second.size()) return;
		for (size_t q = 0; q < len; q++) { double t = 1e-9 * sc[var[q]] + ex[var[q]] + 1e-300; c.check(fabs(n.second[q] - it->second[q]) <= t, "the state depends on the layout", "%s: panel %ld node %ld,%ld variable %d (entry %d): %.17g and %.17g, scale %g", what, n.first / (4096L * 4096), n.first / 4096 % 4096, n.first % 4096, var[q], (int)q, n.second[q], it->second[q], sc[var[q]]); } }
	c.check(A.totals.size() == B.totals.size(), "number of totals depends on the layout", "%s", what);
	for (size_t q = 0; q < A.totals.size() && q < B.totals.size(); q++) { double lin = 0; for (auto & n : A.nodes) for (double v : n.second) lin = std::max(lin, fabs(v)); (void)lin; }
	size_t tq = 0; for (int l = 0; l < 2; l++) if (!l || g.ntr) { int m = l ? g.ntr : (g.sw ? 3 : 5); std::vector<double> L1(A.totals.begin() + tq + m, A.totals.begin() + tq + 2 * m); for (int q = 0; q < 4; q++) for (int i = 0; i < m; i++, tq++) { double a = A.totals[tq], b = B.totals[tq]; double ref = q == 0 ? std::max(L1[i], fabs(a)) : fabs(a); if (l == 0 && (i < 2 || i == 3)) { double mm = q < 2 ? std::max(L1[0], L1[1]) : 0; ref = std::max(ref, mm); if (q >= 2) ref = std::max(std::max(A.totals[tq - i], A.totals[tq - i + 1]), ref); ref = std::max(ref, 1e-3); if (ref < floorw && q == 3) ref = floorw; if (q < 3) ref = std::max(ref, floorw * (q == 2 ? sqrt(L1[g.sw ? 2 : 4]) : L1[g.sw ? 2 : 4])); } c.check(fabs(a - b) <= 1e-9 * ref + ext(tq) + 1e-300, "a global total depends on the layout", "%s: total %d kind %d of variable %d: %.17g and %.17g", what, l, q, i, a, b); } }
	c.check(fabs(A.totals[tq] - B.totals[tq]) <= 1e-9 * fabs(A.totals[tq]) + ext(tq), "a global total depends on the layout", "%s: energy %.17g and %.17g", what, A.totals[tq], B.totals[tq]);
	c.check(A.points.size() == B.points.size(), "number of interpolated values depends on the layout", "%s", what);
	double ep = 0; if (P) for (size_t q = 0; q < A.points.size(); q++) ep = std::max(ep, 100 * fabs(A.points[q] - P->points[q]));
	double ps = 0; for (double v : A.points) ps = std::max(ps, fabs(v)); for (size_t q = 0; q < A.points.size() && q < B.points.size(); q++) c.check(fabs(A.points[q] - B.points[q]) <= 1e-9 * (fabs(A.points[q]) + std::max(1.0, 1e-3 * ps)) + ep, "an interpolated value depends on the layout", "%s: value %d: %.17g and %.17g", what, (int)q, A.points[q], B.points[q]);
}
/* a difference is judged against what a change of 1e-15 of the initial state does to the same run */
static void judge(Ctx & c, const Run & r, const Result & A, const Result & B, const std::string & what) {
	bool bad = false; try { Ctx q; compare(q, r, A, B, what.c_str()); } catch (Failure &) { bad = true; }
	Result P; if (bad) { c.cls("judged against the growth of rounding"); if (!go(r, r.counts[0], P, 1e-15) || !usable(P)) c.discard(); } compare(c, r, A, B, what.c_str(), bad ? &P : NULL);
}
static void patches(Src & s, Ctx & c) {
	Run r; gen(s, c, r); if (r.counts.size() < 2) c.discard(); int np = r.counts[1 + s.draw(r.counts.size() - 2)]; c.desc(" against %d patches", np); c.cls(pbt::fmt("patches %d", np));
	Result A, B; if (!go(r, r.counts[0], A) || !usable(A)) c.discard(); bool ok = go(r, np, B); c.check(ok, "the run fails with another layout", "%d patches", np); if (ok) { judge(c, r, A, B, pbt::fmt("%d and %d patches", r.counts[0], np)); c.nontrivial(); }
}
/* the same over MPI: the processes rebuild the case from one number */
static void fromSeed(uint64_t seed, Ctx & c, Run & r) { Src s; s.rng = seed * 0x9E3779B97F4A7C15ULL + 12345; gen(s, c, r); }
static void put(FILE * f, const std::vector<double> & v) { double n = v.size(); fwrite(&n, 8, 1, f); if (!v.empty()) fwrite(&v[0], 8, v.size(), f); }
static bool get(FILE * f, std::vector<double> & v) { double n; if (fread(&n, 8, 1, f) != 1 || n < 0 || n > 1e8) return false; v.resize((size_t)n); return v.empty() || fread(&v[0], 8, v.size(), f) == v.size(); }
static int child(uint64_t seed, int np, const std::string & dir) {
	int argc = 1; char nm[] = "h"; char * av[] = { nm, NULL }; char ** argv = av; MPI_Init(&argc, &argv); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank); AnnounceOutputOnAllRanks(); AnnounceSetVerbosityLevel(-100); AnnounceSetOutputBuffer(fopen("/dev/null", "w"));
	std::string msg; try { Ctx c; Run r; fromSeed(seed, c, r); Result R; bool ok = go(r, np, R); FILE * f = fopen((dir + "/r" + std::to_string(rank)).c_str(), "w"); put(f, std::vector<double>(1, ok)); put(f, rank ? std::vector<double>() : R.totals); put(f, rank ? std::vector<double>() : R.points); for (auto & n : R.nodes) { put(f, std::vector<double>(1, (double)n.first)); put(f, n.second); } fclose(f); }
	catch (Exception & e) { FILE * f = fopen((dir + "/e" + std::to_string(rank)).c_str(), "w"); fputs(e.ToString().c_str(), f); fclose(f); MPI_Abort(MPI_COMM_WORLD, 1); }
	MPI_Finalize(); return 0;
}
static void mpi(Src & s, Ctx & c) {
	uint64_t seed = s.draw(0x7fffffff); Run r; fromSeed(seed, c, r); int np = r.counts[s.draw(r.counts.size() - 1)]; int ranks = (int)s.irange(2, 6); ranks = std::min(ranks, np); if (ranks < 2) c.discard(); c.desc(" with %d patches over %d processes", np, ranks); c.cls(pbt::fmt("processes %d", ranks));
	Result A, B; if (!go(r, r.counts[0], A) || !usable(A)) c.discard();
	Scratch dir; char self[4096]; ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1); if (l < 0) c.discard(); self[l] = 0;
	std::string cmd = pbt::fmt("cd %s && env -i PATH=/usr/bin:/bin HOME=/tmp TMPDIR=%s OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_btl_vader_backing_directory=%s OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=1 ASAN_OPTIONS=detect_leaks=0:alloc_dealloc_mismatch=0 timeout 60 mpirun -n %d %s --mpi-child %llu %d %s > log 2>&1", dir.d.c_str(), dir.d.c_str(), dir.d.c_str(), ranks, self, (unsigned long long)seed, np, dir.d.c_str());
	int st = system(cmd.c_str()); bool ok = true;
	for (int q = 0; q < ranks; q++) { FILE * e = fopen((dir.d + "/e" + std::to_string(q)).c_str(), "r"); if (e) { char b[600]; size_t n = fread(b, 1, 599, e); b[n] = 0; fclose(e); c.check(false, "a run over several processes fails", "process %d: %s", q, b); return; } }
	if (st != 0) { std::string lg; FILE * f = fopen((dir.d + "/log").c_str(), "r"); if (f) { char b[1500]; size_t n = fread(b, 1, 1499, f); b[n] = 0; lg = b; fclose(f); } bool crash = lg.find("signal") != std::string::npos || (WIFEXITED(st) && WEXITSTATUS(st) == 124); if (crash) c.check(false, WIFEXITED(st) && WEXITSTATUS(st) == 124 ? "a run over several processes does not end" : "a run over several processes crashes", "%s", lg.substr(0, 700).c_str()); else { fprintf(stderr, "mpirun could not be used: %s\n", lg.substr(0, 300).c_str()); c.discard(); } return; }
	for (int q = 0; q < ranks; q++) { FILE * f = fopen((dir.d + "/r" + std::to_string(q)).c_str(), "r"); c.check(f != NULL, "a run over several processes crashes", "process %d wrote nothing", q); if (!f) return; std::vector<double> a, k; get(f, a); ok = ok && a[0] != 0; get(f, a); if (!q) B.totals = a; get(f, a); if (!q) B.points = a; while (get(f, k) && get(f, a)) { c.check(!B.nodes.count((long)k[0]), "a node is held by two processes", "node %ld", (long)k[0]); B.nodes[(long)k[0]] = a; } fclose(f); }
	c.check(ok, "the run fails with another layout", "%d patches, %d processes", np, ranks); if (ok) { judge(c, r, A, B, pbt::fmt("one process, and %d patches on %d", np, ranks)); c.nontrivial(); }
}
int main(int argc, char ** argv) {
	if (argc == 5 && std::string(argv[1]) == "--mpi-child") return child(strtoull(argv[2], NULL, 10), atoi(argv[3]), argv[4]);
	return run(argc, argv, { { "patches", patches, 3 }, { "mpi", mpi, 1 } }, [] { initMPI(); });
}
