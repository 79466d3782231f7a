// C08: each transition of the real points against Newton's law
#define VF_MAIN
#include "ref.hpp"
using namespace vf;
using namespace ref;

namespace {

struct Props
{
	double m, V, CdA, Ca;
};
const Props PROPS[] = {
	{ 0, 0, 0, 0 },      { 120, 0, 0, 0 },     { 0, 0.4, 0, 0.7 },
	{ 80, 0.3, 0, 0 },   { 60, 0.1, 1.5, 0 },  { 200, 0.05, 0.8, 1.2 },
	{ 10, 0, 2.5, 0.5 }, { 5, 0.9, 0.3, 0.9 },
};
const int NPROPS = 8;

/// Attachments of the hub: a list of lines (direction) given by digits:
/// 0 fixed anchor by end B (hub is A), 1 anchor by end A (hub is B),
/// 2 driven point (hub is A), 3 rod end (hub is B)
struct Cfg
{
	int kind;         // 0 free, 1 fixed, 2 coupled, 3 on a coupled body,
	                  // 4 on a fixed body, 5 on a free body
	vector<int> lines;
	int props, N, depth, water;
	int reps = 1; // longer runs
	int plane = 0; // everything in a vertical plane
	double fast = 1; // quicker motions
};

Desc
describe(const Cfg& f)
{
	Desc d;
	LineT t1, t2;
	t2.d = 0.06;
	t2.w = 9;
	t2.EA = 3e5;
	t2.BA = 2e3;
	t2.EI = 400;
	d.lt = { t1, t2 };
	d.rt = { RodT() };
	auto point = [&](Att a, V3 p, int body = -1) {
		PointS s;
		s.att = a;
		s.body = body;
		s.p = p;
		d.points.push_back(s);
		return (int)d.points.size() - 1;
	};
	// some other points first, so that ids do not start at the hub
	int an = point(ref::FIXED, V3(-9, 4, -30));
	int dr = point(ref::COUPLED, V3(8, 3, f.depth == 2 ? 3.0 : -2.0));
	double zh = f.depth == 0 ? -14.0 : f.depth == 1 ? -29.5 : 0.6;
	V3 H(1, -2, zh);
	int hub;
	BodyS b;
	b.p = V3(0.5, -1.5, zh + 0.4);
	b.rpy = V3(10, -15, 25);
	b.m = 500;
	b.I = V3(300, 300, 300);
	V3 hb = euler(b.rpy * M_PI / 180).transpose() * (H - b.p);
	switch (f.kind) {
		case 0:
			hub = point(ref::FREE, H);
			break;
		case 1:
			hub = point(ref::FIXED, H);
			break;
		case 2:
			hub = point(ref::COUPLED, H);
			break;
		default:
			b.att = f.kind == 3 ? ref::COUPLED
			        : f.kind == 4 ? ref::FIXED
			                      : ref::FREE;
			d.bodies.push_back(b);
			hub = point(ref::BODY, hb, 0);
			break;
	}
	auto& P = PROPS[f.props];
	d.points[hub].m = P.m;
	d.points[hub].V = P.V;
	d.points[hub].CdA = P.CdA;
	d.points[hub].Ca = P.Ca;
	int rod = -1;
	int n = 0;
	for (auto k : f.lines) {
		LineS l;
		l.type = n % 2;
		l.N = f.N + (n % 2);
		End h{ 'p', hub }, o{ 'p', an };
		V3 po = d.points[an].p;
		if (k == 2) {
			o.i = dr;
			po = d.points[dr].p;
		}
		if (k == 3) {
			if (rod < 0) {
				RodS r;
				r.att = ref::FIXED;
				r.body = -1;
				r.type = 0;
				r.a = V3(5, -9, -20);
				r.b = V3(5.5, -9, -18);
				r.N = 2;
				d.rods.push_back(r);
				rod = 0;
			}
			o = End{ 'b', rod };
			po = d.rods[0].b;
		}
		bool hubA = k == 0 || k == 2;
		l.a = hubA ? h : o;
		l.b = hubA ? o : h;
		l.L = (po - H).norm() * (n == 1 ? 1.1 : 0.995);
		d.lines.push_back(l);
		n++;
	}
	// a line away from the hub
	LineS l;
	l.type = 1;
	l.N = 2;
	l.a = { 'p', an };
	l.b = { 'p', dr };
	l.L = (d.points[an].p - d.points[dr].p).norm() * 1.01;
	d.lines.insert(d.lines.begin() + (n ? 1 : 0), l);
	d.extwaves = f.water;
	return d;
}

dv
motion(int k, size_t n)
{
	dv v(n, 0.0);
	static const double a[3][3] = { { 0, 0, 0 }, { 1.4, -0.5, 0.9 }, { -0.7, 1.2, -1.1 } };
	for (size_t i = 0; i < n; i++)
		v[i] = a[(k + (i / 3)) % 3][i % 3] * (k ? 1 : 0);
	return v;
}

void
run_case(Ctx& c, const Cfg& f)
{
	Desc d = describe(f);
	// long runs go to and fro
	auto mot = [&](int k, size_t n, int j) {
		dv v = motion(k, n);
		if (f.reps > 1 && (j / 40) % 2)
			for (auto& y : v)
				y = -y;
		return v;
	};
	const int steps = f.reps * (c.thorough() ? 6 : 3), depth = c.thorough() ? 3 : 2;
	int total = 1;
	for (int i = 0; i < depth; i++)
		total *= 3;
	for (int q = 0; q < total; q++) {
		if (!c.thorough() && (q == 0 || q == 4 || q == 8))
			continue; // uniform motions are prefixes of the others
		if (f.reps > 1 && q != 1 && q != 5)
			continue;
		Run r(c, d, "c08", f.plane);
		r.fast = f.fast;
		r.what.lines = r.what.rods = r.what.bodies = false;
		if (f.water == 2)
			r.waves();
		r.start(motion(q % 3, 64));
		for (int i = 0, z = q; i < depth; i++, z /= 3) {
			r.w.U0 = i % 2 ? V3(0.9, -0.4, 0.1) : V3(-0.3, 0.8, -0.2);
			r.w.A0 = i % 2 ? V3(-0.2, 0.5, 0.3) : V3(0.6, 0.1, -0.4);
			r.w.G(0, 2) = 0.05;
			r.w.H(1, 0) = 0.03;
			if (!f.water)
				r.w = Water(); // (the waves do not use the values above)
			for (int j = 0; j < steps; j++)
				r.step(mot(z % 3, r.x.size(), j),
				       sfmt("motion %d step %d.%d", q, i, j));
		}
		c.trace();
		c.outcome(dv{ r.maxrel });
	}
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	// every list of up to 3 attached lines
	vector<vector<int>> lists{ {} };
	for (size_t i = 0; i < lists.size(); i++)
		if (lists[i].size() < 3)
			for (int k = 0; k < 4; k++) {
				auto l = lists[i];
				l.push_back(k);
				lists.push_back(l);
			}
	// and some longer ones
	lists.push_back({ 0, 1, 2, 3, 1 });
	lists.push_back({ 3, 2, 1, 0, 0, 1, 2, 3, 3, 1, 0 });
	int n = 0;
	for (int kind = 0; kind < 6; kind++)
		for (size_t li = 0; li < lists.size(); li++)
			for (int p = 0; p < NPROPS; p++)
				for (int dp = 0; dp < 3; dp++)
					for (int N : { 1, 3 })
						for (int w = 0; w < 3; w++) {
							if (kind == 0 && lists[li].empty() &&
							    PROPS[p].m + PROPS[p].V * PROPS[p].Ca == 0)
								continue; // no mass at all
							n++;
							// quick: lists of 3 lines take one of the other
							// dimensions in turn
							if (!th && lists[li].size() >= 3 && n % 7)
								continue;
							if (!th && n % 5)
								continue;
							Cfg f{ kind, lists[li], p, N, dp, w };
							string s;
							for (auto k : lists[li])
								s += sfmt("%d", k);
							int nn = n / (th ? 1 : 5);
							f.reps = nn % (th ? 61 : 211) ? 1 : 80;
							string key = sfmt("k%d/l%s/p%d/d%d/N%d/w%d", kind, s.c_str(), p, dp, N, w);
								cases.push_back({ key, [f](Ctx& c) { run_case(c, f); } });
								// in a plane: in turn
								if (cases.size() % 8 == 5 && f.reps == 1) {
									Cfg h = f;
									h.fast = 7;
									cases.push_back({ key + "/fast", [h](Ctx& c) { run_case(c, h); } });
								}
								if (int pl = (int)cases.size() % 8; pl < 4 && f.reps == 1) {
									Cfg h = f;
									h.plane = pl + 1;
									cases.push_back({ key + sfmt("/plane%d", h.plane), [h](Ctx& c) { run_case(c, h); } });
								}
						}
}
