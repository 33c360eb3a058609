// P11: after an exchange every halo value is the neighbour's value at the same place.
#include "pbt.h"
#include "halo_check.h"
using namespace pbt; using namespace mu;
static void exch(Src & s, Ctx & c) {
	Cfg g = genHaloCfg([&](int a, int b) { return (int)s.irange(a, b); });
	c.desc("%s %s ho %d np %d ne %d nx %d ny %d levels %d tracers %d bc %d %d stag %d", g.sphere ? "sphere" : g.xz ? "xz" : "box", g.sw ? "2D" : "3D", g.ho, g.np, g.ne, g.nx, g.ny, g.nlev, g.ntr, g.bc[0], g.bc[1], g.stag);
	Case * tc = new Case; tc->state = haloState; tc->ztop = g.sw ? 1 : 1000;
	Sim S(g, tc); Mesh m(S);
	c.nontrivial(); c.cls(g.sphere ? "sphere" : "box"); c.cls(S.nPatch() > 6 ? "more than 6 patches" : "up to 6 patches");
	int rounds = (int)s.irange(1, 4);
	for (int r = 0; r < rounds; r++) {
		int type = (int)s.draw(7); uint64_t seed = s.draw(1u << 30);
		std::string e = haloRound(S, m, type, seed, s.draw(S.m.GetComponentDataInstances() - 1));
		c.cls("type " + std::to_string(type));
		if (!e.empty()) { c.fail("halo", "round %d: %s", r, e.c_str()); return; }
	}
}
int main(int argc, char ** argv) {
	std::vector<Prop> p = { { "exchange", exch, 1 } };
	return run(argc, argv, p, initMPI);
}
