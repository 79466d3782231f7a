// C21: externally given water kinematics
#define VF_MAIN
#include "ref.hpp"
using namespace vf;
using namespace ref;

namespace {

/// every subset of: 1 a line between points, 2 a free point with two lines,
/// 4 a fixed rod with a line, 8 a free rod, 16 a free body with a point and a
/// rod, 32 a coupled body with a pinned rod
Desc
describe(int mask)
{
	Desc d;
	LineT t;
	t.EA = 2e5;
	d.lt = { t };
	d.rt = { RodT() };
	auto point = [&](Att a, V3 p, int body = -1) {
		PointS s;
		s.att = a;
		s.body = body;
		s.p = p;
		s.CdA = 0.8;
		s.V = 0.02;
		s.m = 40;
		d.points.push_back(s);
		return End{ 'p', (int)d.points.size() - 1 };
	};
	auto line = [&](End a, End b, double L, int N) {
		LineS l;
		l.type = 0;
		l.a = a;
		l.b = b;
		l.L = L;
		l.N = N;
		d.lines.push_back(l);
	};
	auto rod = [&](Att at, V3 a, V3 b, int N, int body = -1) {
		RodS r;
		r.att = at;
		r.body = body;
		r.type = 0;
		r.a = a;
		r.b = b;
		r.N = N;
		d.rods.push_back(r);
		return (int)d.rods.size() - 1;
	};
	if (mask & 1)
		line(point(ref::FIXED, V3(0, 0, -25)), point(ref::COUPLED, V3(4, 3, -8)), 19, 3);
	if (mask & 2) {
		auto a = point(ref::FIXED, V3(20, 0, -25));
		auto b = point(ref::FREE, V3(22, 4, -14));
		auto c = point(ref::COUPLED, V3(25, 8, -3));
		line(a, b, 12, 2);
		line(c, b, 12.2, 1);
	}
	if (mask & 4) {
		int r = rod(ref::FIXED, V3(-20, 2, -12), V3(-19, 2, -10), 2);
		auto p = point(ref::COUPLED, V3(-15, 6, -4));
		line(p, End{ 'b', r }, 8, 2);
		line(End{ 'a', r }, p, 11, 2);
	}
	if (mask & 8)
		rod(ref::FREE, V3(-5, -20, -12), V3(-4, -21, -9.5), 3);
	if (mask & 16) {
		BodyS b;
		b.att = ref::FREE;
		b.p = V3(3, 25, -12);
		b.rpy = V3(10, 20, -30);
		b.m = 700;
		b.V = 0.6;
		b.I = V3(300, 400, 500);
		b.CdA << 1, 2, 3, 4, 5, 6;
		b.Ca << 0.3, 0.4, 0.5, 0, 0, 0;
		d.bodies.push_back(b);
		int i = d.bodies.size() - 1;
		point(ref::BODY, V3(0.5, 0.2, 0.3), i);
		rod(ref::BODY, V3(-0.5, 0.1, 0), V3(-1.5, 0.2, 0.4), 2, i);
	}
	if (mask & 32) {
		BodyS b;
		b.att = ref::COUPLED;
		b.p = V3(-8, 30, -6);
		b.rpy = V3(0, 15, 5);
		d.bodies.push_back(b);
		rod(ref::BODYPIN, V3(0.3, 0.1, -0.2), V3(1.3, 0.9, -0.9), 1, d.bodies.size() - 1);
	}
	d.extwaves = true;
	d.dt = 0.004;
	return d;
}

Water
field(int k)
{
	Water w;
	w.tag = k == 0 ? 0.6 : k == 1 ? 1.1 : 0.0;
	w.U0 = k == 1 ? V3(-0.5, 0.9, 0.2) : V3(0.7, -0.3, -0.1);
	w.A0 = k == 1 ? V3(0.3, 0.1, -0.6) : V3(-0.2, 0.4, 0.1);
	return w;
}

void
seq_case(Ctx& c, int mask, int current)
{
	Desc d = describe(mask);
	const int depth = c.thorough() ? 5 : 3, nop = 3;
	int total = 1;
	for (int i = 0; i < depth; i++)
		total *= nop;
	for (int q = 0; q < total; q++) {
		Desc e = d;
		if (current)
			e.opts.push_back({ "Currents", "1" });
		Run r(c, e, "c21");
		V3 cur(0, 0, 0);
		if (current) {
			cur = V3(0.4, -0.3, 0.1);
			r.m.files["current_profile.txt"] =
			    "--- currents ---\nTable\nz ux uy uz\n-40 0.4 -0.3 0.1\n-5 0.4 "
			    "-0.3 0.1\n10 0.4 -0.3 0.1\n";
		}
		r.start(dv(64, 0.1));
		unsigned n = 0;
		c.req(MoorDyn_ExternalWaveKinGetN(r.s.md, &n) == 0 && n == r.nk,
		      "extcount",
		      "the number of coordinates depends on the function");
		r.w = field(0);
		r.w.U0.setZero();
		r.w.A0.setZero();
		r.w.tag = 0;
		r.hold = true; // nothing has been set yet: still water
		r.w.current = cur;
		string where;
		r.step(dv(r.x.size(), 0.1), "nothing set");
		int z = q;
		for (int i = 0; i < depth; i++, z /= nop) {
			int o = z % nop;
			where += sfmt("%d", o);
			if (o < 2) {
				r.w = field((o + i) % 2 + (i == 2 && o ? 1 : 0));
				r.w.current = cur;
				r.hold = false;
			} else
				r.hold = true;
			r.step(dv(r.x.size(), i % 2 ? -0.3 : 0.2), "sequence " + where);
			c.req(MoorDyn_ExternalWaveKinGetN(r.s.md, &n) == 0 && n == r.nk,
			      "extcount",
			      "the number of coordinates changes");
		}
		c.trace();
		c.outcome(dv{ r.maxrel });
	}
}

/// The same uniform flow, given by the driver or by a currents file, is the
/// same run with any integrator and any number of inner steps
void
twin_case(Ctx& c, const Model& m0, bool regular)
{
	Model a = m0, b = m0;
	a.opt("Currents", "1");
	a.files["current_profile.txt"] =
	    "--- currents ---\nTable\nz ux uy uz\n-40 0.6 -0.4 0.1\n-5 0.6 -0.4 "
	    "0.1\n20 0.6 -0.4 0.1\n";
	b.opt("WaveKin", "1");
	Sys x, y;
	c.req(x.create(a, c.dir, "a") && y.create(b, c.dir, "b"), "create", m0.name);
	// the external kinematics are set after the initialisation
	c.req(x.init() == 0 && y.init() == 0, "init", m0.name);
	unsigned n = 0;
	c.req(MoorDyn_ExternalWaveKinInit(y.md, &n) == 0 && n > 0, "extwaves", "init");
	dv u(3 * n), ud(3 * n, 0.0);
	for (unsigned i = 0; i < n; i++) {
		u[3 * i] = 0.6;
		u[3 * i + 1] = -0.4;
		u[3 * i + 2] = 0.1;
	}
	for (int s = 0; s < 5; s++) {
		if (s == 0 || regular)
			c.req(MoorDyn_ExternalWaveKinSet(y.md, u.data(), ud.data(), y.t) == 0,
			      "extwaves",
			      "set");
		c.req(x.step(0.02) == 0 && y.step(0.02) == 0, "step", m0.name);
		c.nearv(y.obs(false), x.obs(false), 1e-10, 1e-10, "twin", sfmt("step %d", s));
		c.nearv(y.forces(), x.forces(), 1e-8, 1e-6, "twin", sfmt("forces of step %d", s));
		c.trans(2);
		c.state(y.obs());
	}
	c.trace();
	c.outcome(y.obs());
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	for (int k = 1; k < 64; k++)
		for (int cur = 0; cur < 2; cur++)
			cases.push_back({ sfmt("seq/%02d/%d", k, cur),
				              [k, cur](Ctx& c) { seq_case(c, k, cur); } });
	for (auto& m : all_systems()) {
		bool water = false;
		for (auto& o : m.options)
			water |= o.first == "WaveKin" || o.first == "Currents";
		if (water)
			continue;
		for (auto& sch : all_schemes())
			for (int g = 0; g < 2; g++) {
				Model q = m;
				q.scheme(sch);
				cases.push_back({ sfmt("twin/%s/%s/%d", m.name.c_str(), sch.c_str(), g),
					              [q, g](Ctx& c) { twin_case(c, q, g); } });
			}
	}
	(void)tier;
}
