// C18: initial shapes and static equilibrium
#define VF_MAIN
#include "ref.hpp"
using namespace vf;
using namespace ref;

namespace {

// ------------------------------------------------------- the catenary -------
typedef long double ld;

/// End B relative to end A (the lower one) for the tension (H, V) at B. s is
/// the unstretched distance from A
void
place(ld H, ld V, ld L, ld EA, ld W, bool bed, ld s, ld& x, ld& z)
{
	// vertical force at A: positive if the line pulls it upwards
	ld VA = V - W * L;
	ld lb = 0; // length laying on the seabed
	if (bed && VA < 0) {
		lb = -VA / W;
		VA = 0;
	}
	if (s <= lb) {
		x = s * (1 + H / EA);
		z = 0;
		return;
	}
	ld u = s - lb;
	ld Vs = VA + W * u;
	x = lb * (1 + H / EA) + H / W * (asinhl(Vs / H) - asinhl(VA / H)) + H * u / EA;
	z = (sqrtl(H * H + Vs * Vs) - sqrtl(H * H + VA * VA)) / W + (VA * u + 0.5L * W * u * u) / EA;
}

/// Nested bisections: at a given H the height grows with V, and along the
/// V that gives the height, the span grows with H
bool
solve(ld X, ld Z, ld L, ld EA, ld W, bool bed, ld& H, ld& V)
{
	auto vert = [&](ld h) {
		ld a = bed ? 0 : -10 * fabsl(W) * L - 1, b = 10 * fabsl(W) * L + 1, x, z;
		for (int i = 0; i < 200; i++) {
			if (!bed) {
				place(h, a, L, EA, W, bed, L, x, z);
				if (z > Z)
					a *= 2;
			}
			place(h, b, L, EA, W, bed, L, x, z);
			if (z < Z)
				b *= 2;
			else if (i > 40)
				break;
		}
		for (int i = 0; i < 120; i++) {
			ld m = (a + b) / 2;
			place(h, m, L, EA, W, bed, L, x, z);
			(z < Z ? a : b) = m;
		}
		return (a + b) / 2;
	};
	ld a = 1e-12L, b = 1, x, z;
	for (int i = 0; i < 400; i++) {
		place(b, vert(b), L, EA, W, bed, L, x, z);
		if (x > X)
			break;
		b *= 2;
	}
	place(a, vert(a), L, EA, W, bed, L, x, z);
	if (x > X)
		return false;
	for (int i = 0; i < 200; i++) {
		ld m = sqrtl(a * b);
		place(m, vert(m), L, EA, W, bed, L, x, z);
		(x < X ? a : b) = m;
	}
	H = sqrtl(a * b);
	V = vert(H);
	return true;
}

/// Newton iterations are not expected to converge close to the vertical, or to
/// the transition between shapes, nor with stiff buoyant lines: there the
/// straight line is admitted as well
struct Cat
{
	bool must;
	double mass, EA, X, Z, ratio, az;
	bool bed, swap, neg;
	int N;
};

void
cat_case(Ctx& c, const Cat& k)
{
	const double D = 0.1, A = M_PI / 4 * D * D, g = 9.80665, rho = 1025, depth = 200;
	const double dist = sqrt(k.X * k.X + k.Z * k.Z);
	const double L = k.ratio * dist;
	const double W = (k.mass / A - rho) * A * g;
	V3 a(12, -7, k.bed ? -depth : -150), b = a + V3(k.X * cos(k.az), k.X * sin(k.az), k.Z);
	vf::Model m;
	m.name = "cat";
	m.linetypes = { sfmt("t %.17g %.17g %.17g 100 0 1 1 0 0", D, k.mass, k.EA) };
	auto pt = [](int i, V3 p) { return sfmt("%d Fixed %.17g %.17g %.17g 0 0 0 0", i, p[0], p[1], p[2]); };
	m.points = { pt(1, a), pt(2, b) };
	m.lines = { sfmt("1 t %d %d %.17g %d -", k.swap ? 2 : 1, k.swap ? 1 : 2, k.neg ? -k.ratio : L, k.N) };
	m.opt("dtM", 0.001).opt("WtrDpth", depth).opt("g", g).opt("rho", rho).opt("writeLog", "0").opt("TmaxIC", 0.0);
	Sys y;
	c.req(y.create(m, c.dir, "s"), "create", "the system is not created");
	c.trans();
	int e = y.init(true);
	c.req(e == 0, "init", sfmt("MoorDyn_Init_NoIC returned %d", e));
	auto line = MoorDyn_GetLine(y.md, 1);
	double ul = 0;
	MoorDyn_GetLineUnstretchedLength(line, &ul);
	c.nearv(dv{ ul }, dv{ L }, 1e-12, 0, "length", "unstretched length");
	ld H = 0, V = 0;
	bool sol = k.X > 0 && W != 0;
	if (sol)
		sol = solve(k.X, k.Z, L, k.EA, W, k.bed && W > 0, H, V);
	dv obs;
	double err[2] = { 0, 0 }; // straight, catenary
	string what[2];
	for (int i = 0; i <= k.N; i++) {
		double p[3], v[3];
		int n = k.swap ? k.N - i : i;
		MoorDyn_GetLineNodePos(line, n, p);
		MoorDyn_GetLineNodeVel(line, n, v);
		V3 got(p[0], p[1], p[2]);
		if (i == 0 || i == k.N) {
			V3 e = i ? b : a;
			c.nearv(dv(p, p + 3), dv{ e[0], e[1], e[2] }, 0, 1e-9, "ends", "position of the end");
		}
		for (int q = 0; q < (sol ? 2 : 1); q++) {
			V3 want = a + (b - a) * ((double)i / k.N);
			if (q) {
				ld x, z;
				place(H, V, L, k.EA, W, k.bed && W > 0, L * i / k.N, x, z);
				if (i == k.N && (fabsl(x - k.X) > 1e-6 * L || fabsl(z - k.Z) > 1e-6 * L))
					throw HarnessError{ "the reference catenary is not solved" };
				want = a + V3((double)x * cos(k.az), (double)x * sin(k.az), (double)z);
			}
			double d = (got - want).norm() / L;
			if (!(d <= err[q])) {
				err[q] = d;
				what[q] = sfmt("node %d of %d at %.6g %.6g %.6g instead of %.6g %.6g %.6g", i, k.N, p[0], p[1], p[2], want[0], want[1], want[2]);
			}
		}
		c.same(dv(v, v + 3), dv(3, 0.0), "velocity", "initial velocity");
		obs.insert(obs.end(), p, p + 3);
	}
	bool straight = err[0] < 1e-9, cat = sol && err[1] < 2e-4;
	if (!sol && !straight)
		c.fail("straight", "not a straight line: " + what[0]);
	if (sol && !cat && (k.must || !straight))
		c.fail("shape", "not the catenary: " + what[1]);
	c.state(obs);
	c.outcome(dv{ (double)sol, (double)cat, (double)(sol && k.bed && V < W * L) });
	c.trace();
}

// ------------------------------------------------- initial conditions -------

vector<string>
toks(const string& s)
{
	std::istringstream i(s);
	vector<string> o;
	string t;
	while (i >> t)
		o.push_back(t);
	return o;
}

/// Without initial conditions everything stays where it was defined
void
noic_case(Ctx& c, const vf::Model& m0, bool zero)
{
	vf::Model m = m0;
	m.amp = 0;
	m.opt("TmaxIC", zero ? 0.0 : 50.0);
	Sys y;
	c.req(y.create(m, c.dir, "s"), "create", "not created");
	int e = y.init(!zero);
	c.trans();
	c.req(e == 0, "init", sfmt("returned %d", e));
	double v[6], w[6];
	for (size_t i = 0; i < m.points.size(); i++) {
		auto t = toks(m.points[i]);
		if (t[1].find("ody") != string::npos)
			continue;
		auto p = MoorDyn_GetPoint(y.md, i + 1);
		MoorDyn_GetPointPos(p, v);
		MoorDyn_GetPointVel(p, w);
		c.nearv(dv(v, v + 3), dv{ atof(t[2].c_str()), atof(t[3].c_str()), atof(t[4].c_str()) }, 1e-14, 1e-12, "point", "position of point " + t[0]);
		c.same(dv(w, w + 3), dv(3, 0.0), "velocity", "velocity of point " + t[0]);
	}
	for (size_t i = 0; i < m.bodies.size(); i++) {
		auto t = toks(m.bodies[i]);
		auto b = MoorDyn_GetBody(y.md, i + 1);
		MoorDyn_GetBodyState(b, v, w);
		dv want;
		for (int j = 0; j < 6; j++)
			want.push_back(atof(t[2 + j].c_str()) * (j < 3 ? 1 : M_PI / 180));
		c.nearv(dv(v, v + 6), want, 1e-12, 1e-10, "body", "position of body " + t[0]);
		c.same(dv(w, w + 6), dv(6, 0.0), "velocity", "velocity of body " + t[0]);
	}
	for (size_t i = 0; i < m.rods.size(); i++) {
		auto t = toks(m.rods[i]);
		// the driver gives the orientation of coupled rods
		if (t[2].find("ody") != string::npos || t[2] == "Coupled")
			continue;
		auto r = MoorDyn_GetRod(y.md, i + 1);
		unsigned n = 0;
		MoorDyn_GetRodNumberNodes(r, &n);
		for (unsigned k = 0; k < n; k++) {
			MoorDyn_GetRodNodePos(r, k, v);
			MoorDyn_GetRodNodeVel(r, k, w);
			dv want;
			double f = n > 1 ? (double)k / (n - 1) : 0;
			for (int j = 0; j < 3; j++)
				want.push_back((1 - f) * atof(t[3 + j].c_str()) + f * atof(t[6 + j].c_str()));
			c.nearv(dv(v, v + 3), want, 1e-12, 1e-10, "rod", sfmt("node %u of rod %s", k, t[0].c_str()));
			c.nearv(dv(w, w + 3), dv(3, 0.0), 0, 1e-14, "velocity", "velocity of rod " + t[0]);
		}
	}
	c.state(y.obs(false));
	// and skipping the initial conditions is the same as giving them no time
	if (zero) {
		Sys z;
		c.req(z.create(m, c.dir, "z") && z.init(true) == 0, "init", "the system is not initialised");
		for (int i = 0; i < 5; i++) {
			c.nearv(y.obs(), z.obs(), 1e-12, 1e-12, "skip", sfmt("with no time for the initial conditions, after %d steps", i));
			c.req(y.step(0.01) == 0 && z.step(0.01) == 0, "step", "fails");
			c.trans();
			c.state(y.obs(false));
		}
	}
	c.outcome(dv{ (double)zero });
	c.trace();
}

/// The properties are the original ones: the system behaves afterwards as
/// another one, that never had initial conditions, put at the same state
void
restore_case(Ctx& c, const vf::Model& m0, const string& scheme, bool legacy)
{
	vf::Model m = m0;
	m.scheme(scheme);
	m.opt("TmaxIC", 2.0).opt("dtIC", 0.5).opt("threshIC", 1e-4).opt("CdScaleIC", legacy ? 2.6 : 3.3);
	m.opt("ICgenDynamic", legacy ? 1.0 : 0.0);
	Sys y, z;
	c.req(y.create(m, c.dir, "s") && z.create(m, c.dir, "z"), "create", "not created");
	int e = y.init(false);
	c.req(e == 0, "init", sfmt("returned %d", e));
	c.req(z.init(true) == 0, "init", "fails without initial conditions");
	c.trans(2);
	string sv = c.dir + "/state";
	c.req(MoorDyn_Save(y.md, sv.c_str()) == 0 && MoorDyn_Load(z.md, sv.c_str()) == 0, "save", "the state cannot be copied");
	for (int i = 0; i <= 8; i++) {
		c.nearv(y.obs(false), z.obs(false), 1e-9, 1e-9, "restored", sfmt("after %d steps", i));
		c.state(y.obs(false));
		c.req(y.step(0.02) == 0 && z.step(0.02) == 0, "step", "fails");
		c.nearv(y.forces(), z.forces(), 1e-7, 1e-5, "restored", sfmt("forces of step %d", i));
		c.nearv(dv{ y.t }, dv{ 0.02 * (i + 1) }, 1e-12, 0, "time", "time");
		c.trans(2);
	}
	// the coupled objects never move: the input file might have other places
	c.outcome(dv{ (double)legacy });
	c.trace();
}

double
drift(Ctx& c, Sys& y, const string& w)
{
	dv o0 = y.obs(false);
	double d = 0;
	for (int i = 0; i < 50; i++) {
		int e = y.step(0.02);
		c.req(e == 0, "step", w + sfmt(": step %d returned %d", i, e));
		c.trans();
		dv o = y.obs(false);
		c.state(o);
		for (size_t j = 0; j < o.size(); j++)
			d = std::max(d, fabs(o[j] - o0[j]));
	}
	return d;
}

/// With time enough the system stays there
void
eq_case(Ctx& c, const vf::Model& m0, bool legacy)
{
	vf::Model m = m0;
	m.amp = 0;
	m.opt("TmaxIC", legacy ? 300.0 : 4000.0).opt("dtIC", 0.5).opt("threshIC", legacy ? 1e-5 : 1e-9);
	m.opt("ICgenDynamic", legacy ? 1.0 : 0.0);
	if (!legacy)
		m.opt("dtM", 0.02);
	Sys y, z;
	c.req(y.create(m, c.dir, "s") && z.create(m, c.dir, "z"), "create", "not created");
	int e = y.init(false);
	c.req(e == 0, "init", sfmt("returned %d", e));
	c.req(z.init(true) == 0, "init", "fails without initial conditions");
	if (!legacy) {
		MoorDyn_SetDt(y.md, 0.002);
		MoorDyn_SetDt(z.md, 0.002);
	}
	double d = drift(c, y, "with initial conditions"), d0 = drift(c, z, "without initial conditions");
	c.req(d < 0.09, "equilibrium", sfmt("the system moves %g m (%g m without initial conditions)", d, d0));
	c.req(d < 0.05 * d0 || d < (legacy ? 0.09 : 0.002), "equilibrium", sfmt("the system moves %g m (%g m without initial conditions)", d, d0));
	c.outcome(dv{ d < 1e-6 ? 1.0 : 0.0 });
	c.trace();
}

void
cs_more(Cases& cs, bool deep)
{
	for (auto& m0 : all_systems()) {
		vf::Model m = m0;
		for (bool z : { false, true })
			cs.push_back({ sfmt("noic/%s/%d", m.name.c_str(), z), [=](Ctx& c) { noic_case(c, m, z); } });
		for (auto& s0 : all_schemes()) {
			string s = s0;
			if (!deep && s != "euler" && s != "rk2" && s != "leuler" && s != "wilson6" && m.name != "mixed")
				continue;
			for (bool l : { false, true })
				if (!l || s != "wilson6") // unstable with so much drag
				cs.push_back({ sfmt("restore/%s/%s/%s", m.name.c_str(), s.c_str(), l ? "dynamic" : "static"),
				               [=](Ctx& c) { restore_case(c, m, s, l); } });
		}
		if (m.name.substr(0, 5) == "waves" || m.name == "many")
			continue;
		for (bool l : { false, true })
			if (!l || m.name != "current") // the drag of the current is scaled
				cs.push_back({ sfmt("eq/%s/%s", m.name.c_str(), l ? "dynamic" : "static"), [=](Ctx& c) { eq_case(c, m, l); } });
	}
}

} // namespace

void
vf::enumerate(Cases& cs, const string& tier)
{
	bool deep = tier == "thorough";
	for (double mass : { 40.0, 9.0, 3.0, 200.0 })
		for (double EA : { 1e4, 1e6, 1e9 })
			for (int geo = 0; geo < 9; geo++)
				for (double ratio : { 0.8, 0.97, 0.9999, 1.0, 1.001, 1.02, 1.1, 1.25, 1.45, 2.2 })
					for (int bed = 0; bed < 2; bed++)
						for (int swap = 0; swap < 2; swap++) {
							const double g[9][2] = { { 100, 0 },   { 100, 20 }, { 100, 100 }, { 40, 120 }, { 5, 120 },
								                     { 0, 100 },   { 0.05, 90 }, { 3, 4 },    { 120, 1 } };
							bool must = geo != 6 && !(mass == 9.0 && geo == 8 && ratio == 1.001);
							if (mass == 3.0)
								must = must && EA < 1e8 && !(geo == 3 && ratio == 1.02);
							Cat k{ must, mass, EA, g[geo][0], g[geo][1], ratio, 0, bed == 1, swap == 1, false, 5 };
							int h = geo * 7 + (int)(ratio * 100) + bed + 2 * swap;
							const double az[] = { 0, M_PI / 2, 2.1, -2.5 };
							k.az = az[h % 4];
							k.neg = h % 3 == 0;
							k.N = h % 5 == 0 ? 1 : h % 5 == 1 ? 12 : 5;
							cs.push_back({ sfmt("cat/%g/%g/%d/%g/%s/%s", mass, EA, geo, ratio, bed ? "bed" : "mid", swap ? "down" : "up"),
							               [=](Ctx& c) { cat_case(c, k); } });
						}
	cs_more(cs, deep);
}
