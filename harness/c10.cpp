// C10: each transition of the real bodies against rigid body dynamics
#define VF_MAIN
#include "ref.hpp"
using namespace vf;
using namespace ref;

namespace {

const Att KINDS[] = { ref::FREE, ref::CPLDPIN, ref::COUPLED, ref::FIXED };
const char* KNAMES[] = { "free", "cpldpin", "coupled", "fixed" };

/// attached objects: bit 0 points, bit 1 a fixed rod, bit 2 a pinned rod,
/// bit 3 lines
struct Cfg
{
	int kind, props, rot, att, depth, water;
	int reps = 1; // longer runs
	int plane = 0; // everything in a vertical plane
	double fast = 1; // quicker motions
};

BodyS
props(int k)
{
	BodyS b;
	b.m = 900;
	b.V = 0.8;
	b.I = V3(400, 500, 600);
	switch (k) {
		case 0:
			break;
		case 1: // excentric
			b.cg = V3(0.3, -0.2, -0.5);
			break;
		case 2: // drag
			b.CdA << 2, 3, 1.5, 4, 5, 6;
			b.V = 1.2;
			break;
		case 3: // added mass
			b.Ca << 0.5, 1.1, 0.8, 0, 0, 0;
			b.cg = V3(0, 0, 0.4);
			break;
		case 4: // everything
			b.cg = V3(-0.4, 0.3, 0.2);
			b.CdA << 1, 2.5, 0.5, 3, 2, 1;
			b.Ca << 0.9, 0.2, 0.6, 0, 0, 0;
			b.I = V3(900, 350, 600);
			b.V = 0.3;
			break;
		case 5: // no properties of its own
			b.m = b.V = 0;
			b.I.setZero();
			break;
	}
	return b;
}
const int NPROPS = 6;

const V3 ROTS[] = { V3(0, 0, 0),     V3(30, 0, 0),    V3(0, 40, 0),
	                V3(0, 0, -50),   V3(15, -25, 60), V3(-70, 20, 110),
	                V3(180, 0, 0),   V3(0, 90, 0),    V3(-90, 0, 0),
	                V3(120, 70, -150), V3(0, 135, 0),  V3(0, 0, 180) };
const int NROTS = 12;

Desc
describe(const Cfg& f)
{
	Desc d;
	LineT t;
	t.EA = 2e5;
	d.lt = { t };
	d.rt = { RodT() };
	double z = f.depth == 0 ? -12 : f.depth == 1 ? 0.2 : 5.0;
	BodyS other; // another body first
	other.att = ref::COUPLED;
	other.p = V3(9, 9, -5);
	other.rpy = V3(5, 5, 5);
	d.bodies.push_back(other);
	BodyS b = props(f.props);
	b.att = KINDS[f.kind];
	b.p = V3(1, -2, z);
	b.rpy = ROTS[f.rot];
	d.bodies.push_back(b);
	M3 R = euler(b.rpy * M_PI / 180);
	PointS p;
	p.body = -1;
	p.att = ref::FIXED;
	p.p = V3(-7, 2, -30);
	d.points.push_back(p);
	p.att = ref::COUPLED;
	p.p = V3(6, 5, 2);
	d.points.push_back(p);
	p.att = ref::BODY;
	p.body = 0;
	p.p = V3(0.5, 0.1, -0.3);
	d.points.push_back(p);
	auto world = [&](const V3& v) { return V3(b.p + R * v); };
	auto line = [&](End a, V3 pa, End e, V3 pe, double s) {
		LineS l;
		l.type = 0;
		l.a = a;
		l.b = e;
		l.L = s * (pa - pe).norm();
		l.N = 2;
		d.lines.push_back(l);
	};
	if (f.att & 1) {
		p.body = 1;
		p.p = V3(1.1, 0.4, -0.6);
		p.m = 40;
		p.V = 0.02;
		p.CdA = 0.7;
		p.Ca = 0.5;
		d.points.push_back(p);
		p.p = V3(-0.9, 0.8, 0.5);
		p.m = 0;
		p.CdA = 0;
		d.points.push_back(p);
		if (f.att & 8) {
			line({ 'p', 3 }, world(d.points[3].p), { 'p', 0 }, d.points[0].p, 0.99);
			line({ 'p', 1 }, d.points[1].p, { 'p', 4 }, world(d.points[4].p), 1.01);
			line({ 'p', 4 }, world(d.points[4].p), { 'p', 0 }, d.points[0].p, 1.0);
		}
	}
	RodS r;
	r.body = 1;
	r.type = 0;
	r.N = 3;
	if (f.att & 2) {
		r.att = ref::BODY;
		r.a = V3(0.2, 0.3, -0.4);
		r.b = V3(0.9, 1.2, -2.0);
		d.rods.push_back(r);
		if (f.att & 8)
			line({ 'b', 0 }, world(r.b), { 'p', 0 }, d.points[0].p, 0.995);
	}
	if (f.att & 4) {
		r.att = ref::BODYPIN;
		r.a = V3(-0.5, 0.1, 0.3);
		r.b = V3(-1.8, -0.7, 1.1);
		r.N = 2;
		d.rods.push_back(r);
		if (f.att & 8)
			line({ 'p', 1 }, d.points[1].p, { 'b', (int)d.rods.size() - 1 }, world(r.b), 1.0);
	}
	if (f.att & 16) {
		// many of each
		for (int i = 0; i < 9; i++) {
			p.body = 1;
			p.p = V3(1.3 * sin(i + 1.0), 1.1 * cos(2.0 * i), 0.2 * i - 0.7);
			p.m = 15 * (i % 3);
			p.V = 0.01 * (i % 4);
			p.CdA = 0.1 * i;
			p.Ca = 0.3;
			int k = (int)d.points.size();
			d.points.push_back(p);
			if (i % 2)
				line({ 'p', k }, world(p.p), { 'p', 0 }, d.points[0].p, 0.99 + 0.005 * i);
			else if (i % 4)
				line({ 'p', 1 }, d.points[1].p, { 'p', k }, world(p.p), 1.0);
			if (i % 3)
				continue;
			r.att = i % 2 ? ref::BODYPIN : ref::BODY;
			r.a = V3(0.4 * i - 1.0, 0.3, -0.4);
			r.b = V3(0.3 * i, 1.2 - 0.2 * i, -1.5);
			r.N = 1 + i % 4;
			d.rods.push_back(r);
			line({ 'b', (int)d.rods.size() - 1 }, world(r.b), { 'p', 0 }, d.points[0].p, 0.995);
		}
	}
	// away from the body
	line({ 'p', 2 }, V3(9.5, 9.1, -5.3), { 'p', 0 }, d.points[0].p, 1.01);
	d.extwaves = f.water;
	d.dt = 0.004;
	return d;
}

dv
motion(int k, size_t n)
{
	dv v(n, 0.0);
	static const double a[3][6] = { { 0, 0, 0, 0, 0, 0 },
		                            { 1.4, -0.5, 0.9, 0.3, -0.6, 0.5 },
		                            { -0.7, 1.2, -1.1, -0.8, 0.2, 0.4 } };
	for (size_t i = 0; i < n; i++)
		v[i] = a[k][i % 6] * (i < 6 ? -0.5 : 1.0);
	return v;
}

void
run_case(Ctx& c, const Cfg& f)
{
	Desc d = describe(f);
	// long runs go to and fro
	auto mot = [&](int k, size_t n, int j) {
		dv v = motion(k, n);
		if (f.reps > 1 && (j / 40) % 2)
			for (auto& y : v)
				y = -y;
		return v;
	};
	const int steps = f.reps * (c.thorough() ? 10 : 5), depth = 2;
	for (int q = 0; q < 9; q++) {
		if (!c.thorough() && (q == 0 || q == 4 || q == 8))
			continue; // uniform motions are prefixes of the others
		if (f.reps > 1 && q != 1 && q != 5)
			continue;
		Run r(c, d, "c10", f.plane);
		r.fast = f.fast;
		r.what.lines = r.what.points = r.what.rods = false;
		if (f.water == 2)
			r.waves();
		r.start(motion(q % 3, 64));
		for (int i = 0, z = q; i < depth; i++, z /= 3) {
			r.w.U0 = i % 2 ? V3(0.9, -0.4, 0.1) : V3(-0.3, 0.8, -0.2);
			r.w.A0 = i % 2 ? V3(-0.2, 0.5, 0.3) : V3(0.6, 0.1, -0.4);
			r.w.G(0, 2) = 0.05;
			r.w.G(2, 0) = 0.15;
			r.w.H(1, 0) = 0.03;
			r.w.H(2, 2) = 0.04;
			if (!f.water)
				r.w = Water(); // (the waves do not use the values above)
			for (int j = 0; j < steps; j++)
				r.step(mot(z % 3, r.x.size(), j),
				       sfmt("motion %d step %d.%d", q, i, j));
		}
		c.trace();
		c.outcome(dv{ r.maxrel });
	}
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	int n = 0;
	for (int kind = 0; kind < 4; kind++)
		for (int p = 0; p < NPROPS; p++)
			for (int rot = 0; rot < NROTS; rot++)
				for (int at = 0; at < 17; at++)
					for (int dp = 0; dp < 3; dp++)
						for (int w = 0; w < 3; w++) {
							if (p == 5 && kind < 2 && !(at & 18))
								continue; // no inertia
							if (at == 8)
								continue; // no place for the lines
							n++;
							if (!th && n % 4)
								continue;
							Cfg f{ kind, p, rot, at, dp, w };
							f.reps = (n / 4) % (th ? 61 : 173) ? 1 : 50;
							string key = sfmt("%s/p%d/r%d/a%d/z%d/w%d", KNAMES[kind], p, rot, at, dp, w);
								cases.push_back({ key, [f](Ctx& c) { run_case(c, f); } });
								// in a plane: in turn
								if (cases.size() % 8 == 5 && f.reps == 1) {
									Cfg h = f;
									h.fast = 7;
									cases.push_back({ key + "/fast", [h](Ctx& c) { run_case(c, h); } });
								}
								if (int pl = (int)cases.size() % 8; pl < 4 && f.reps == 1) {
									Cfg h = f;
									h.plane = pl + 1;
									cases.push_back({ key + sfmt("/plane%d", h.plane), [h](Ctx& c) { run_case(c, h); } });
								}
						}
}
