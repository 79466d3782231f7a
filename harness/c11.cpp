// C11: convergence of every integrator
#define VF_MAIN
#include "md.hpp"
using namespace vf;

namespace {

struct Soft
{
	Model m;
	dv v; // constant velocity of the coupled degrees of freedom
};

Model
base(const string& name)
{
	Model m;
	m.name = name;
	// taut, soft and damped, far from the seabed and the surface: smooth
	m.linetypes = { "soft 0.10 15.0 2.0e4 400.0 0 1.1 1.0 0.2 0.1",
		            "bend 0.12 18.0 3.0e4 600.0 4.0e3 1.1 1.0 0.2 0.1" };
	m.rodtypes = { "bar 0.3 200.0 1.1 1.0 0.8 0.4" };
	m.opt("WtrDpth", 200.0).opt("TmaxIC", 0.0).opt("writeLog", "0");
	return m;
}

vector<Soft>
softs()
{
	vector<Soft> o;
	{
		Model m = base("chain");
		m.points = { "1 Fixed 0 0 -80 0 0 0 0", "2 Coupled 10 3 -60 0 0 0 0" };
		m.lines = { "1 soft 1 2 21 4 -" };
		m.x0 = { 10, 3, -60 };
		o.push_back({ m, { 0.8, -0.5, 0.6 } });
	}
	{
		Model m = base("bend");
		m.points = { "1 Fixed 0 0 -80 0 0 0 0", "2 Coupled 10 3 -60 0 0 0 0" };
		m.lines = { "1 bend 1 2 21 4 -" };
		m.x0 = { 10, 3, -60 };
		o.push_back({ m, { -0.8, 0.5, 0.6 } });
	}
	{
		Model m = base("bridle");
		m.points = { "1 Fixed -10 0 -80 0 0 0 0", "2 Fixed 9 4 -78 0 0 0 0",
			         "3 Coupled 0 1 -50 0 0 0 0", "4 Free 0 0 -65 150 0.05 0.4 0.8" };
		m.lines = { "1 soft 1 4 17 3 -", "2 soft 2 4 15 3 -", "3 soft 4 3 14 3 -" };
		m.x0 = { 0, 1, -50 };
		o.push_back({ m, { 0.7, 0.4, 0.5 } });
	}
	{
		Model m = base("freerod");
		m.rods = { "1 bar Free -1 0 -60 1 0.5 -59 3 -" };
		m.points = { "1 Fixed -12 2 -70 0 0 0 0", "2 Coupled 12 0 -50 0 0 0 0" };
		m.lines = { "1 soft 1 R1A 14 3 -", "2 soft R1B 2 13 3 -" };
		m.x0 = { 12, 0, -50 };
		o.push_back({ m, { 0.7, 0.4, 0.5 } });
	}
	{
		Model m = base("pinrod");
		m.rods = { "1 bar Pinned -1 0 -60 1 0.5 -58 3 -" };
		m.points = { "1 Coupled 12 0 -50 0 0 0 0" };
		m.lines = { "1 soft R1B 1 12.5 3 -" };
		m.x0 = { 12, 0, -50 };
		o.push_back({ m, { 0.7, -0.4, 0.5 } });
	}
	{
		Model m = base("cpldrods");
		m.rods = { "1 bar Coupled 10 0 -50 10 0 -48 2 -",
			       "2 bar CoupledPinned -10 1 -50 -9 1 -48 2 -" };
		m.points = { "1 Fixed 0 0 -70 0 0 0 0" };
		m.lines = { "1 soft 1 R1A 21 3 -", "2 soft 1 R2B 22 3 -" };
		m.x0 = { 10, 0, -50, 0, 0, 1, -10, 1, -50 };
		o.push_back({ m, { 0.5, 0.3, 0.4, 0, 0, 0, -0.5, 0.3, 0.2 } });
	}
	{
		Model m = base("freebody");
		m.bodies = { "1 Free 0 0 -60 5 10 20 900 0.1|0|-0.2 500|700|600 0.5 2 0.6" };
		m.rods = { "1 bar Body1 0 0 0.5 0 1 1.5 2 -", "2 bar Body1Pinned 1 0 0 2 0 0.5 2 -" };
		m.points = { "1 Body1 -1 0.3 0 0 0 0 0", "2 Fixed -14 2 -68 0 0 0 0",
			         "3 Coupled 13 0 -50 0 0 0 0", "4 Fixed 3 12 -70 0 0 0 0" };
		m.lines = { "1 soft 2 1 14 3 -", "2 soft R2B 3 13 3 -", "3 soft 4 R1B 13 3 -" };
		m.x0 = { 13, 0, -50 };
		o.push_back({ m, { 0.5, 0.6, 0.4 } });
	}
	{
		Model m = base("cpldbodies");
		m.bodies = { "1 Coupled 10 0 -50 0 0 0 900 0.1|0|-0.2 500 0.5 2 0.6",
			         "2 CoupledPinned -10 0 -50 0 5 0 900 0.1|0|-0.2 500 0.5 2 0.6" };
		m.rods = { "1 bar Body1Pinned 1 0 0 2 0 0.5 2 -" };
		m.points = { "1 Body2 -0.5 0.3 -1 0 0 0 0", "2 Fixed 0 2 -72 0 0 0 0",
			         "3 Body1 -0.5 0 -1 0 0 0 0", "4 Fixed 20 12 -75 0 0 0 0" };
		m.lines = { "1 soft 2 1 21 3 -", "2 soft 2 3 21 3 -", "3 soft 4 R1B 24 3 -" };
		m.x0 = { 10, 0, -50, 0, 0, 0, -10, 0, -50, 0, 0, 0 };
		o.push_back({ m, { 0.5, 0.6, 0.4, 0, 0, 0, -0.4, 0.3, 0.2, 0, 0, 0 } });
	}
	{
		// time dependent forces: current, and waves evaluated on the nodes
		Soft w = o[3];
		w.m.name = "waves";
		w.m.opt("WaveKin", "7").opt("dtWave", 0.25).opt("WtrDpth", 100);
		w.m.files["wave_frequencies.txt"] = "0.0 0.0 0.0 0.0\n0.3 1.5 0.4 0.3\n0.6 0.8 -0.5 0.1\n0.9 0.0 0.0 0.0\n";
		w.m.files["water_grid.txt"] = "--- MoorDyn Waves grid File ---\n"
		                              "List of grid points\nblocks\n2\n-30 30 3\n2\n-30 30 3\n2\n-100 2 5\n";
		o.push_back(w);
	}
	return o;
}


const double H = 0.125; // every inner step used is exact in binary
const int NH = 4;

/// How the coupled degrees of freedom move: at constant velocity, or changing
/// of velocity on each coupling step
enum Move
{
	STEADY,
	JUMPS
};

struct Traj
{
	vector<dv> o; // positions and velocities after each coupling step
};

Traj
run(Ctx& c, const Soft& s, Move mv, const string& scheme, int nsub, const string& then = "")
{
	Model m = s.m;
	m.scheme(scheme).opt("dtM", sfmt("%.17g", H / nsub));
	Sys y;
	c.req(y.create(m, c.dir, sfmt("%s_%d", scheme.c_str(), nsub)), "refused", scheme);
	y.x = m.x0;
	y.xd = s.v;
	y.f.assign(y.x.size() + 6, 0);
	int e = MoorDyn_Init_NoIC(y.md, y.x.data(), y.xd.data());
	c.req(e == 0, "init", sfmt("%s: %d", scheme.c_str(), e));
	Traj o;
	for (int i = 0; i < NH; i++) {
		if (i == NH / 2 && then.size()) {
			e = MoorDyn_SetTimeScheme(y.md, then.c_str());
			c.req(e == 0, "switch", sfmt("%s: %d", then.c_str(), e));
		}
		e = y.raw_step(H);
		c.req(e == 0, "step", sfmt("%s: %d", scheme.c_str(), e));
		for (size_t k = 0; k < y.x.size(); k++)
			y.x[k] += y.xd[k] * H;
		if (mv == JUMPS)
			for (size_t k = 0; k < y.x.size(); k++)
				y.xd[k] = s.v[k] * (i % 2 ? 1.0 : -0.6);
		c.trans(nsub);
		o.o.push_back(y.obs(false));
	}
	c.state(o.o.back());
	return o;
}

double
dist(const Traj& a, const Traj& b)
{
	double e = 0;
	for (size_t i = 0; i < a.o.size(); i++)
		for (size_t k = 0; k < a.o[i].size(); k++) {
			double d = fabs(a.o[i][k] - b.o[i][k]);
			if (!(d <= e))
				e = d;
		}
	return e;
}

struct Scheme
{
	string name;
	int order, jorder; // order for each kind of motion
};

vector<Scheme>
schemes(bool thorough)
{
	vector<Scheme> o = {
		{ "euler", 1, 1 }, { "leuler", 1, 1 }, { "heun", 1, 1 }, { "rk2", 2, 2 },
		{ "rk4", 4, 4 },   { "ab2", 1, 1 },    { "ab3", 1, 1 },  { "ab4", 1, 1 },
		{ "lab2", 1, 1 },  { "lab3", 1, 1 },   { "lab4", 1, 1 },
	};
	vector<int> its = { 1, 2, 4, 6 };
	if (thorough)
		its = { 1, 2, 3, 4, 5, 6, 8, 10, 15, 20 };
	for (int n : its) {
		o.push_back({ sfmt("beuler%d", n), 1, 1 });
		o.push_back({ sfmt("midpoint%d", n), 2, 2 });
		o.push_back({ sfmt("anderson%d", n), 2, 2 });
		o.push_back({ sfmt("aca%d", n), 1, 1 });
		o.push_back({ sfmt("wilson%d", n), 1, 1 });
	}
	return o;
}

const char* YARD[5] = { "", "euler", "rk2", "", "rk4" };

/// The error of a scheme against its yardstick at every refinement, and the
/// order of the yardsticks themselves
void
converge(Ctx& c, const Soft& s, Move mv, const string& name, int p, const string& then = "", const string& sig = "order")
{
	auto ref = run(c, s, mv, "rk4", 256);
	const bool yard = name == YARD[p] && then.empty();
	double e8 = 0;
	string log;
	const int top = c.thorough() ? 128 : 64;
	for (int n = 8; n <= top; n *= 2) {
		double e = dist(run(c, s, mv, name, n, then), ref);
		log += sfmt(" %d: %.3g", n, e);
		if (n == 8)
			e8 = e;
		if (yard) {
			// the order, starting by a sensible error. The quadratic drag
			// has kinks of the second derivative where a velocity vanishes
			if (n == 8)
				c.req(e < (p == 1 ? 0.5 : p == 2 ? 0.03 : 5e-5), "error", log);
			else
				c.req(e <= e8 * pow(8.0 / n, p) * pow(n / 8.0, 0.3) + (p == 4 ? 2.5e-7 : 0.0), "order", sfmt("order %d:", p) + log);
		} else {
			double r = dist(run(c, s, mv, YARD[p], n), ref);
			log += sfmt(" (%s %.3g)", YARD[p], r);
			c.req(e <= (p == 1 ? 8.0 : 5.0) * r + 1e-9, sig, sfmt("order %d:", p) + log);
		}
	}
}

/// The rate of change of the positions is the velocity
void
consistent(Ctx& c, const Soft& s, const string& name)
{
	Model m = s.m;
	const double h = 1.0 / 512;
	m.scheme(name).opt("dtM", sfmt("%.17g", h / 2));
	Sys y;
	c.req(y.create(m, c.dir), "refused", name);
	y.x = m.x0;
	y.xd = s.v;
	y.f.assign(y.x.size() + 6, 0);
	c.req(MoorDyn_Init_NoIC(y.md, y.x.data(), y.xd.data()) == 0, "init", name);
	vector<dv> o;
	unsigned nb;
	MoorDyn_GetNumberBodies(y.md, &nb);
	for (int i = 0; i < 40; i++) {
		c.req(y.raw_step(h) == 0, "step", name);
		for (size_t k = 0; k < y.x.size(); k++)
			y.x[k] += y.xd[k] * h;
		o.push_back(y.obs(false));
		c.trans(2);
	}
	c.state(o.back());
	// 6 positions and 6 velocities per body, 3 and 3 per node elsewhere
	auto cmp = [&](size_t ip, size_t iv) {
		for (int i = 5; i + 1 < (int)o.size(); i++) {
			double v = (o[i + 1][ip] - o[i - 1][ip]) / (2 * h);
			// a first order scheme evaluates it within a time step
			double a = fabs(o[i + 1][iv] - o[i - 1][iv]) + 1e-3;
			c.req(fabs(v - o[i][iv]) <= a, "rate", sfmt("%s: d/dt of component %zu is %g, but the velocity is %g", name.c_str(), ip, v, o[i][iv]));
		}
	};
	for (unsigned b = 0; b < nb; b++)
		for (int k = 0; k < 3; k++)
			cmp(12 * b + k, 12 * b + 6 + k);
	for (size_t q = 12 * nb; q < o[0].size(); q += 6)
		for (int k = 0; k < 3; k++)
			cmp(q + k, q + 3 + k);
}

string
recase(const string& s, int how)
{
	string o = s;
	for (size_t i = 0; i < o.size(); i++)
		if (how == 1 || (how == 2 && i % 2 == 0) || (how == 3 && i % 2))
			o[i] = toupper(o[i]);
	return o;
}

/// A few steps selecting the scheme by name in the file or the interface
dv
named(Ctx& c, const Soft& s, const string& name, int api, string& title)
{
	Model m = s.m;
	m.scheme(api == 0 ? name : "rk4").opt("dtM", 0.005);
	Sys y;
	c.req(y.create(m, c.dir, sfmt("%s_%d", name.c_str(), api)), "refused", name);
	y.x = m.x0;
	y.xd = s.v;
	y.f.assign(y.x.size() + 6, 0);
	if (api == 1)
		c.req(MoorDyn_SetTimeScheme(y.md, name.c_str()) == 0, "refused", name);
	c.req(MoorDyn_Init_NoIC(y.md, y.x.data(), y.xd.data()) == 0, "init", name);
	if (api == 2)
		c.req(MoorDyn_SetTimeScheme(y.md, name.c_str()) == 0, "refused", name);
	size_t len = 0;
	c.req(MoorDyn_GetTimeScheme(y.md, NULL, &len) == 0, "name", name);
	vector<char> b(len + 16, 0);
	c.req(MoorDyn_GetTimeScheme(y.md, b.data(), &len) == 0, "name", name);
	title = b.data();
	dv o;
	for (int i = 0; i < 4; i++) {
		c.req(y.raw_step(0.02) == 0, "step", name);
		dv p = y.obs();
		o.insert(o.end(), p.begin(), p.end());
		c.trans(4);
	}
	c.state(o);
	return o;
}

} // namespace

void
vf::enumerate(Cases& cs, const string& tier)
{
	const bool th = tier == "thorough";
	auto ss = softs();
	for (auto& s : ss) {
		for (Move mv : { STEADY, JUMPS })
			for (auto& sc : schemes(th))
				cs.push_back({ "conv/" + s.m.name + (mv == STEADY ? "/steady/" : "/jumps/") + sc.name,
				               [=](Ctx& c) { converge(c, s, mv, sc.name, mv == STEADY ? sc.order : sc.jorder); } });
		for (auto& sc : schemes(th))
			cs.push_back({ "rate/" + s.m.name + "/" + sc.name, [=](Ctx& c) { consistent(c, s, sc.name); } });
	}
	// the documented order of those which are demanded the first order above
	for (string n : { "heun", "ab2", "ab3", "ab4", "lab2", "lab3", "lab4", "aca4", "wilson6" })
		cs.push_back({ "formal/" + n, [=](Ctx& c) { converge(c, ss[0], STEADY, n, 2, "", "formal-order"); } });
	// selection by name
	for (auto& sc : schemes(false))
		for (int how = 0; how < 4; how++)
			cs.push_back({ sfmt("name/%s/%d", sc.name.c_str(), how), [=](Ctx& c) {
				              string t0, t1;
				              auto s = softs()[6];
				              dv a = named(c, s, sc.name, 0, t0);
				              for (int api = 0; api < 3; api++) {
					              dv b = named(c, s, recase(sc.name, how), api, t1);
					              c.same(a, b, "name", sfmt("%s selected by way %d", recase(sc.name, how).c_str(), api));
					              c.req(t0 == t1, "title", t0 + " / " + t1);
				              }
			              } });
	for (auto& a : schemes(false))
		for (auto& b : schemes(false))
			if (a.name != b.name)
				cs.push_back({ "switch/" + a.name + "/" + b.name, [=](Ctx& c) {
					              converge(c, softs()[6], STEADY, a.name, std::min({ a.order, b.order, 2 }), b.name);
				              } });
}
