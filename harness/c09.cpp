// C09: each transition of the real rods against rigid rod dynamics
#define VF_MAIN
#include "ref.hpp"
using namespace vf;
using namespace ref;

namespace {

const Att KINDS[] = { ref::FREE,  ref::PINNED, ref::CPLDPIN, ref::COUPLED,
	                  ref::FIXED, ref::BODY,   ref::BODYPIN };
const char* KNAMES[] = { "free", "pinned", "cpldpin", "coupled", "fixed", "body", "bodypin" };

const V3 DIRS[] = {
	V3(0, 0, 1),      V3(0, 0, -1),     V3(1, 0, 0),      V3(0.3, -0.4, 0),
	V3(0.5, 0.2, 1),  V3(-0.3, 0.6, -1), V3(-1, 0.5, 0.3), V3(0.4, -1, -0.25),
	V3(-0.6, -0.3, 0.8), V3(0, 1, -1),
};
const int NDIRS = 10;

/// lines attached: bit 0 at end A, bit 1 at end B, bit 2 a second one at B by
/// the other end of the line
struct Cfg
{
	int kind, dir, N, depth, lines, type, water;
	int reps = 1; // longer runs
	int plane = 0; // everything in a vertical plane
	double fast = 1; // quicker motions
};

Desc
describe(const Cfg& f)
{
	Desc d;
	LineT t;
	t.EA = 2e5;
	t.EI = f.type == 2 ? 600 : 0;
	d.lt = { t };
	RodT r0;
	if (f.type == 1) { // light and thick
		r0.d = 0.6;
		r0.w = 60;
		r0.Cd = 0.6;
		r0.Ca = 1.0;
		r0.CdEnd = 1.1;
		r0.CaEnd = 0.9;
	} else if (f.type == 2) { // no hydrodynamic coefficients
		r0.Cd = r0.Ca = r0.CdEnd = r0.CaEnd = 0;
	}
	d.rt = { RodT(), r0 };
	if (f.type == 2)
		d.rt[0].d = 0.25;
	const double len = 3.0;
	V3 q = DIRS[f.dir].normalized();
	double z = 0;
	switch (f.depth) {
		case 0: // deep
			z = -15;
			break;
		case 1: // dry
			z = 4;
			break;
		case 2: // surface at 40 % of the rod
			z = -0.4 * len * q.z() + (f.dir == 2 || f.dir == 3 ? 0.02 : 0.0);
			break;
		case 3: // on the seabed
			z = -30 - std::min(0.0, len * q.z()) - (f.lines ? 0.0 : 0.03);
			break;
		case 4: // just under the surface
			z = -0.05 - std::max(0.0, len * q.z());
			break;
		case 5: // surface near end B
			z = -0.93 * len * q.z() + (f.dir == 2 || f.dir == 3 ? -0.07 : 0.0);
			break;
	}
	RodS other; // another rod first
	other.att = ref::FIXED;
	other.body = -1;
	other.type = 0;
	other.a = V3(12, 3, -20);
	other.b = V3(12, 3, -18);
	other.N = 1;
	d.rods.push_back(other);
	RodS r;
	r.att = KINDS[f.kind];
	r.body = -1;
	r.type = 1;
	r.N = f.N;
	r.a = V3(1, -2, z);
	r.b = r.a + len * q;
	if (r.att == ref::BODY || r.att == ref::BODYPIN) {
		BodyS b;
		b.att = f.lines % 2 ? ref::COUPLED : ref::FREE;
		b.p = V3(0.2, -1.2, z + 0.3);
		b.rpy = V3(20, -10, 35);
		b.m = 800;
		b.V = 0.7;
		b.I = V3(500, 600, 700);
		d.bodies.push_back(b);
		M3 R = euler(b.rpy * M_PI / 180).transpose();
		V3 ra = R * (r.a - b.p), rb = R * (r.b - b.p);
		r.a = ra;
		r.b = rb;
		r.body = 0;
	}
	d.rods.push_back(r);
	V3 wa(1, -2, z), wb = wa + len * q;
	PointS p;
	p.body = -1;
	p.att = ref::FIXED;
	p.p = V3(-7, 2, -30);
	d.points.push_back(p);
	p.att = ref::COUPLED;
	p.p = V3(6, 5, 2);
	d.points.push_back(p);
	auto line = [&](End a, End b, double L) {
		LineS l;
		l.type = 0;
		l.a = a;
		l.b = b;
		l.L = L;
		l.N = 2;
		d.lines.push_back(l);
	};
	if (f.lines & 1)
		line({ 'a', 1 }, { 'p', 0 }, 0.99 * (wa - d.points[0].p).norm());
	if (f.lines & 2)
		line({ 'b', 1 }, { 'p', 1 }, 0.98 * (wb - d.points[1].p).norm());
	if (f.lines & 4)
		line({ 'p', 0 }, { 'b', 1 }, 1.02 * (wb - d.points[0].p).norm());
	if (f.lines & 8)
		for (int i = 0; i < 7; i++) {
			char e = i % 3 ? 'a' : 'b';
			V3 we = i % 3 ? wa : wb;
			double L = (0.985 + 0.01 * i) * (we - d.points[i % 2].p).norm();
			if (i % 4 < 2)
				line({ e, 1 }, { 'p', i % 2 }, L);
			else
				line({ 'p', i % 2 }, { e, 1 }, L);
		}
	line({ 'b', 0 }, { 'p', 1 }, 1.01 * (other.b - d.points[1].p).norm());
	d.extwaves = f.water;
	d.dt = 0.004;
	d.env.kb = 2e5;
	d.env.cb = 4e3;
	d.env.mu = 0.3; // rods have no friction
	return d;
}

dv
motion(int k, size_t n)
{
	dv v(n, 0.0);
	static const double a[3][6] = { { 0, 0, 0, 0, 0, 0 },
		                            { 1.4, -0.5, 0.9, 0.3, -0.6, 0.5 },
		                            { -0.7, 1.2, -1.1, -0.8, 0.2, 0.4 } };
	for (size_t i = 0; i < n; i++)
		v[i] = a[k][i % 6];
	return v;
}

void
run_case(Ctx& c, const Cfg& f)
{
	Desc d = describe(f);
	// long runs go to and fro
	auto mot = [&](int k, size_t n, int j) {
		dv v = motion(k, n);
		if (f.reps > 1 && (j / 40) % 2)
			for (auto& y : v)
				y = -y;
		return v;
	};
	const int steps = f.reps * (c.thorough() ? 8 : 4), depth = 2;
	for (int q = 0; q < 9; q++) {
		if (!c.thorough() && (q == 0 || q == 4 || q == 8))
			continue; // uniform motions are prefixes of the others
		if (f.reps > 1 && q != 1 && q != 5)
			continue;
		Run r(c, d, "c09", f.plane);
		r.fast = f.fast;
		r.what.lines = r.what.points = r.what.bodies = false;
		// the heading of a rod within 1e-6 rad of vertical is not resolved
		if (f.dir < 2)
			r.rtol = 2e-6;
		if (f.water == 2)
			r.waves();
		r.start(motion(q % 3, 64));
		for (int i = 0, z = q; i < depth; i++, z /= 3) {
			r.w.U0 = i % 2 ? V3(0.9, -0.4, 0.1) : V3(-0.3, 0.8, -0.2);
			r.w.A0 = i % 2 ? V3(-0.2, 0.5, 0.3) : V3(0.6, 0.1, -0.4);
			r.w.G(0, 2) = 0.05;
			r.w.G(2, 0) = 0.15;
			r.w.H(1, 0) = 0.03;
			r.w.H(2, 2) = 0.04;
			if (!f.water)
				r.w = Water(); // (the waves do not use the values above)
			for (int j = 0; j < steps; j++)
				r.step(mot(z % 3, r.x.size(), j),
				       sfmt("motion %d step %d.%d", q, i, j));
		}
		c.trace();
		c.outcome(dv{ r.maxrel });
	}
}

// ------------------------------------------------- rods of no segments ----
/// A rod of no segments moves as a point: the same system, with a rod and with
/// a point. With bending stiffness, which a point does not hold, the ends of the
/// lines just follow the rod
void
zero_case(Ctx& c, const string& kind, int lines, const string& scheme, int stiff)
{
	const V3 at(1, -2, -12);
	auto model = [&](bool rod) {
		vf::Model m;
		m.name = "zero";
		base_options(m);
		m.scheme(scheme);
		m.linetypes = { stiff == 0   ? "rope 0.1 12 2e5 800 0 1.1 1 0.05 0"
			            : stiff == 1 ? "rope 0.1 12 2e5 800 900 1.1 1 0.05 0"
			                         : "rope 0.1 12 2e5 800 bend.txt 1.1 1 0.05 0" };
		if (stiff == 2)
			m.files["bend.txt"] = "--- curvature and moment ---\nK M\n(1/m) (Nm)\n0 0\n0.05 40\n0.3 200\n2 900\n";
		m.rodtypes = { "bar 0.25 60 0 0 0 0" };
		string pos = sfmt("%g %g %g", at[0], at[1], at[2]);
		m.points = { "1 Fixed -7 2 -30 0 0 0 0", "2 Fixed 6 5 -2 0 0 0 0", "3 Fixed 9 -6 -28 0 0 0 0" };
		string b = kind.substr(0, 4) == "Body" ? kind.substr(0, 5) : "";
		if (!b.empty()) {
			m.bodies = { "1 Free 0 0 -10 0 0 0 900 0 700 0.8 2 0.5", "2 Coupled 0 0 -10 0 0 0 900 0 700 0.8 2 0.5",
				         "3 Fixed 0 0 -10 0 0 0 900 0 700 0.8 2 0.5" };
			pos = "1 -2 -2";
			m.x0 = { 0, 0, -10, 0, 0, 0 };
		}
		bool cpl = kind == "Coupled" || kind == "CoupledPinned";
		if (cpl)
			m.x0 = { at[0], at[1], at[2] };
		if (rod) {
			if (kind == "Coupled")
				m.x0.insert(m.x0.end(), { 0.0, 0.0, 0.0 });
			m.rods = { "1 bar " + kind + " " + pos + " " + pos + " 0 -" };
		} else
			m.points.push_back("4 " + (!b.empty() ? b : kind == "Free" ? "Free" : cpl ? "Coupled" : "Fixed") + " " + pos +
			                   " 0 0 0 0");
		string A = rod ? "R1A" : "4", B = rod ? "R1B" : "4";
		int n = 0;
		if (lines & 1)
			m.lines.push_back(sfmt("%d rope 1 %s 20 3 -", ++n, A.c_str()));
		if (lines & 2)
			m.lines.push_back(sfmt("%d rope %s 2 13.2 2 -", ++n, B.c_str()));
		if (lines & 4)
			m.lines.push_back(sfmt("%d rope 3 %s 18.3 4 -", ++n, B.c_str()));
		if (lines & 8)
			m.lines.push_back(sfmt("%d rope %s 3 18.1 1 -", ++n, A.c_str()));
		return m;
	};
	vf::Model ma = model(true), mb = model(false);
	Sys a, b;
	c.req(a.create(ma, c.dir, "a"), "zero-create", "the system with a rod of no segments is refused");
	c.req(b.create(mb, c.dir, "b"), "zero-create", "the system with a point is refused");
	const double V[3] = { 0.4, -0.7, 0.5 };
	auto state = [&](Sys& s, double t) {
		s.x = s.m->x0;
		s.xd.assign(s.x.size(), 0.0);
		for (size_t i = 0; i < 3 && i < s.x.size(); i++) {
			s.xd[i] = V[i];
			s.x[i] += V[i] * t;
		}
		s.f.assign(s.x.size() + 6, 0.0);
	};
	for (auto s : { &a, &b }) {
		state(*s, 0);
		c.req(MoorDyn_Init_NoIC(s->md, s->x.data(), s->xd.data()) == 0, "zero-init", "the system cannot be initialised");
	}
	for (int i = 0; i < (c.thorough() ? 40 : 8); i++) {
		for (auto s : { &a, &b }) {
			state(*s, s->t);
			int e = s->raw_step(0.01);
			c.req(e == 0, "zero-step", sfmt("step %d of the system with a %s returned %d", i, s == &a ? "rod" : "point", e));
			c.trans();
		}
		double pr[3], vr[3], p[3], v[3], F[6];
		auto R = MoorDyn_GetRod(a.md, 1);
		c.req(!MoorDyn_GetRodNodePos(R, 0, pr) && !MoorDyn_GetRodNodeVel(R, 0, vr) && !MoorDyn_GetRodForce(R, F),
		      "getter", "rod");
		for (double y : { pr[0], vr[0], F[0], F[1], F[2], F[3], F[4], F[5] })
			c.req(std::isfinite(y), "zero-nan", sfmt("step %d: the rod of no segments is not a number", i));
		for (double y : a.f)
			c.req(std::isfinite(y), "zero-nan", sfmt("step %d: the force given to the driver is not a number", i));
		dv sa, sb;
		for (size_t l = 0; l < ma.lines.size(); l++) {
			auto la = MoorDyn_GetLine(a.md, l + 1), lb = MoorDyn_GetLine(b.md, l + 1);
			unsigned N = 0;
			MoorDyn_GetLineN(la, &N);
			for (unsigned k = 0; k <= N; k++)
				for (auto h : { la, lb }) {
					c.req(!MoorDyn_GetLineNodePos(h, k, p) && !MoorDyn_GetLineNodeVel(h, k, v), "getter", "line");
					auto& o = h == la ? sa : sb;
					o.insert(o.end(), p, p + 3);
					o.insert(o.end(), v, v + 3);
				}
			// the end follows the rod
			for (unsigned k : { 0u, N }) {
				string row = ma.lines[l];
				bool first = row.find(" R1") == row.find("rope") + 4;
				if (first != (k == 0))
					continue;
				MoorDyn_GetLineNodePos(la, k, p);
				MoorDyn_GetLineNodeVel(la, k, v);
				c.nearv(dv(p, p + 3), dv(pr, pr + 3), 1e-12, 1e-12, "zero-end", "the end of the line and the rod");
				c.nearv(dv(v, v + 3), dv(vr, vr + 3), 1e-12, 1e-12, "zero-end", "the end of the line and the rod, velocities");
			}
		}
		for (double y : sa)
			c.req(std::isfinite(y), "zero-nan", sfmt("step %d: a line is not a number", i));
		c.state(sa);
		// (free bodies feel the masses at a rod and at a point differently, and
		// the iterations of Anderson's stop at another point)
		if (stiff || kind.substr(0, 5) == "Body1" || scheme == "anderson5")
			continue;
		c.nearv(sa, sb, 1e-9, 1e-9, "zero", sfmt("step %d: lines at a rod of no segments and at a point", i));
		c.nearv(dv(a.f.begin(), a.f.begin() + std::min<size_t>(3, b.ndof)),
		        dv(b.f.begin(), b.f.begin() + std::min<size_t>(3, b.ndof)),
		        1e-8, 1e-6, "zero-force", sfmt("step %d: force of a rod of no segments and of a point", i));
	}
	c.trace();
	c.outcome(dv{ (double)lines });
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	for (string kind : { "Free", "Fixed", "Pinned", "Coupled", "CoupledPinned", "Body1", "Body1Pinned", "Body2",
	                     "Body2Pinned", "Body3" })
		for (int l = 1; l < 16; l++)
			for (auto& sc : all_schemes())
				for (int st = 0; st < 3; st++) {
					if (!th && sc != "rk2" && (l % 3 || st))
						continue;
					cases.push_back({ sfmt("zero/%s/%d/%s/%d", kind.c_str(), l, sc.c_str(), st),
					                  [=](Ctx& c) { zero_case(c, kind, l, sc, st); } });
				}
	int n = 0;
	for (int kind = 0; kind < 7; kind++)
		for (int dir = 0; dir < NDIRS; dir++)
			for (int dp = 0; dp < 6; dp++)
				for (int N : th ? vector<int>{ 1, 2, 3, 6, 22 } : vector<int>{ 1, 2, 5, 22 })
					for (int l = 0; l < 9; l++)
						for (int t = 0; t < 3; t++)
							for (int w = 0; w < 3; w++) {
								n++;
								if (!th && n % 11)
									continue;
								// many nodes or many lines: in turn
								if ((N > 10 || l > 7) && (kind + dir + dp + l + t + w) % 4)
									continue;
								Cfg f{ kind, dir, N, dp, l, t, w };
								f.reps = (n / 11) % (th ? 61 : 331) || f.depth == 3 ? 1 : 60;
								string key = sfmt("%s/d%d/z%d/N%d/l%d/t%d/w%d", KNAMES[kind], dir, dp, N, l, t, w);
								cases.push_back({ key, [f](Ctx& c) { run_case(c, f); } });
								// in a plane: in turn
								if (cases.size() % 8 == 5 && f.reps == 1) {
									Cfg h = f;
									h.fast = 7;
									cases.push_back({ key + "/fast", [h](Ctx& c) { run_case(c, h); } });
								}
								if (int pl = (int)cases.size() % 8; pl < 4 && f.reps == 1 && !(dp == 3 && kind > 4)) {
									Cfg h = f;
									h.plane = pl + 1;
									cases.push_back({ key + sfmt("/plane%d", h.plane), [h](Ctx& c) { run_case(c, h); } });
								}
							}
}
