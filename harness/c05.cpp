// C05: coupled degrees of freedom. Every ordered mix of coupled bodies, rods
// and points (up to 3) with and without free objects in between, driven by
// every sequence of velocity patterns up to a depth. Each object has its own
// mooring, so the loads must be those it has when it is alone.
#define VF_MAIN
#include "md.hpp"
#include "ref.hpp"
using namespace vf;

static const double DT = 0.02;

static void
must(int e, const char* what)
{
	if (e != MOORDYN_SUCCESS)
		throw Violation{ "api-error", sfmt("%s returned %d", what, e) };
}

// P point, B body, b pinned body, R rod, r pinned rod
static int
ndof(char k)
{
	return (k == 'B' || k == 'b' || k == 'R') ? 6 : 3;
}

struct Obj
{
	char kind;
	int slot;
	int id = 0; // number in its section
};

struct Built
{
	Model m;
	vector<Obj> order; // in the order of the coupled vector
	vector<double> ox; // offsets by slot
};

static double
off(int slot)
{
	return 60.0 * slot;
}

/// offset of each dof from its defined place
static void
place(char k, int slot, dv& x)
{
	double ox = off(slot);
	if (k == 'P')
		x = { ox + 3, 1, -6 };
	else if (k == 'B' || k == 'b')
		x = { ox + 1, 2, -5, 0, 0, 0 };
	else if (k == 'R')
		x = { ox + 0.5, -1, -6, 0, 0, 0 };
	else
		x = { ox + 0.5, -1, -6 };
}

static Built
make(const vector<std::pair<char, int>>& items, int decoy)
{
	Built b;
	Model& m = b.m;
	m.name = "c05";
	m.linetypes = { LT_CHAIN };
	m.rodtypes = { RT_BAR };
	base_options(m);
	m.opt("tScheme", "rk2");
	vector<Obj> bodies, rods, points;
	int nb = 0, nr = 0, np = 0, nl = 0;
	auto dec = [&](int i) {
		double ox = -80.0 - 40.0 * i;
		m.bodies.push_back(
		    sfmt("%d Free %g 0 -9 0 0 0 3000 0 3000 3.0 2 0.5", ++nb, ox));
		m.rods.push_back(sfmt(
		    "%d bar Free %g 8 -9 %g 8 -7 2 -", ++nr, ox, ox + 0.5));
		m.points.push_back(sfmt("%d Free %g 15 -9 50 0.04 0.1 0.5", ++np, ox));
		m.points.push_back(sfmt("%d Fixed %g 15 -30 0 0 0 0", ++np, ox + 3));
		m.lines.push_back(sfmt("%d chain %d %d 22 2 -", ++nl, np, np - 1));
	};
	if (decoy & 1)
		dec(0);
	for (size_t i = 0; i < items.size(); i++) {
		char k = items[i].first;
		int s = items[i].second;
		double ox = off(s);
		m.points.push_back(sfmt("%d Fixed %g 3 -30 0 0 0 0", ++np, ox - 9));
		int anc = np;
		if (k == 'P') {
			m.points.push_back(sfmt("%d Coupled %g 1 -6 10 0.02 0.3 0.5", ++np, ox + 3));
			points.push_back({ k, s, np });
			m.lines.push_back(sfmt("%d chain %d %d 29 3 -", ++nl, anc, np));
		} else if (k == 'B' || k == 'b') {
			m.bodies.push_back(
			    sfmt("%d %s %g 2 -5 0 0 0 3000 0.1|0.2|-0.3 3000|4000|2000 2.0 2 0.5",
			         ++nb, k == 'B' ? "Coupled" : "CoupledPinned", ox + 1));
			bodies.push_back({ k, s, nb });
			m.points.push_back(sfmt("%d Body%d 1 0.3 -1 0 0 0 0", ++np, nb));
			m.lines.push_back(sfmt("%d chain %d %d 29 3 -", ++nl, anc, np));
		} else {
			m.rods.push_back(
			    sfmt("%d bar %s %g -1 -6 %g -0.5 -3 2 -", ++nr,
			         k == 'R' ? "Coupled" : "CoupledPinned", ox + 0.5, ox + 1.5));
			rods.push_back({ k, s, nr });
			m.lines.push_back(sfmt("%d chain %d R%dB 31 3 -", ++nl, anc, nr));
		}
		if ((decoy & 2) && i == 0)
			dec(1);
	}
	b.order = bodies;
	b.order.insert(b.order.end(), rods.begin(), rods.end());
	b.order.insert(b.order.end(), points.begin(), points.end());
	for (auto& o : b.order) {
		dv x;
		place(o.kind, o.slot, x);
		m.x0.insert(m.x0.end(), x.begin(), x.end());
	}
	return b;
}

static void
rot(const double* a, const double* v, double* o)
{
	// R = X(a0) Y(a1) Z(a2)
	double c2 = cos(a[2]), s2 = sin(a[2]);
	double p[3] = { c2 * v[0] - s2 * v[1], s2 * v[0] + c2 * v[1], v[2] };
	double c1 = cos(a[1]), s1 = sin(a[1]);
	double q[3] = { c1 * p[0] + s1 * p[2], p[1], -s1 * p[0] + c1 * p[2] };
	double c0 = cos(a[0]), s0 = sin(a[0]);
	o[0] = q[0];
	o[1] = c0 * q[1] - s0 * q[2];
	o[2] = s0 * q[1] + c0 * q[2];
}

/// velocity of dof d of a slot under pattern p
static double
patt(int p, int slot, int d)
{
	if (p == 0)
		return 0.0;
	double a = d < 3 ? 0.4 : 0.15;
	return a * sin(1.3 * p + 2.1 * slot + 0.77 * d + 0.4);
}

struct Run
{
	vector<dv> f; // per step, per object concatenated
};

/// kinematics of object o must be r, v (its own dofs)
static void
check_kin(Ctx& c, Sys& s, const Obj& o, const double* r, const double* v, const string& what)
{
	double p[6], q[6];
	if (o.kind == 'P') {
		auto h = MoorDyn_GetPoint(s.md, o.id);
		must(MoorDyn_GetPointPos(h, p), "GetPointPos");
		must(MoorDyn_GetPointVel(h, q), "GetPointVel");
		c.near(dv(p, p + 3), dv(r, r + 3), 0, 1e-9, "kinematics", what + " point position");
		c.near(dv(q, q + 3), dv(v, v + 3), 0, 1e-9, "kinematics", what + " point velocity");
	} else if (o.kind == 'B' || o.kind == 'b') {
		auto h = MoorDyn_GetBody(s.md, o.id);
		must(MoorDyn_GetBodyState(h, p, q), "GetBodyState");
		int n = o.kind == 'B' ? 6 : 3;
		c.near(dv(p, p + 3), dv(r, r + 3), 0, 1e-9, "kinematics", what + " body position");
		// the same orientation, whatever the angles
		for (int k = 0; k < 3 && o.kind == 'B'; k++) {
			double e[3] = { 0, 0, 0 }, a[3], b[3];
			e[k] = 1;
			rot(p + 3, e, a);
			rot(r + 3, e, b);
			c.near(dv(a, a + 3), dv(b, b + 3), 0, 2e-8, "kinematics", what + " body orientation");
		}
		c.near(dv(q, q + n), dv(v, v + n), 0, 1e-9, "kinematics", what + " body velocity");
	} else {
		auto h = MoorDyn_GetRod(s.md, o.id);
		must(MoorDyn_GetRodNodePos(h, 0, p), "GetRodNodePos");
		must(MoorDyn_GetRodNodeVel(h, 0, q), "GetRodNodeVel");
		c.near(dv(p, p + 3), dv(r, r + 3), 0, 1e-9, "kinematics", what + " rod end A position");
		c.near(dv(q, q + 3), dv(v, v + 3), 0, 1e-9, "kinematics", what + " rod end A velocity");
		if (o.kind == 'R') {
			double e0[3] = { 1.0, 0.5, 3.0 }, e[3];
			rot(r + 3, e0, e);
			double pb[3] = { r[0] + e[0], r[1] + e[1], r[2] + e[2] };
			double vb[3] = { v[0] + v[4] * e[2] - v[5] * e[1],
				             v[1] + v[5] * e[0] - v[3] * e[2],
				             v[2] + v[3] * e[1] - v[4] * e[0] };
			must(MoorDyn_GetRodNodePos(h, 2, p), "GetRodNodePos");
			must(MoorDyn_GetRodNodeVel(h, 2, q), "GetRodNodeVel");
			c.near(dv(p, p + 3), dv(pb, pb + 3), 0, 1e-8, "kinematics", what + " rod end B position");
			c.near(dv(q, q + 3), dv(vb, vb + 3), 0, 1e-8, "kinematics", what + " rod end B velocity");
		}
	}
}

/// the point 2 of a single body, which goes with it
static void
check_rider(Ctx& c, Sys& s, const double* r, const double* v, const string& what)
{
	double e0[3] = { 1, 0.3, -1 }, e[3], p[3], q[3];
	rot(r + 3, e0, e);
	double pb[3] = { r[0] + e[0], r[1] + e[1], r[2] + e[2] };
	double vb[3] = { v[0] + v[4] * e[2] - v[5] * e[1],
		             v[1] + v[5] * e[0] - v[3] * e[2],
		             v[2] + v[3] * e[1] - v[4] * e[0] };
	auto h = MoorDyn_GetPoint(s.md, 2);
	must(MoorDyn_GetPointPos(h, p), "GetPointPos");
	must(MoorDyn_GetPointVel(h, q), "GetPointVel");
	c.near(dv(p, p + 3), dv(pb, pb + 3), 0, 1e-8, "kinematics", what + " position of the attached point");
	c.near(dv(q, q + 3), dv(vb, vb + 3), 0, 1e-8, "kinematics", what + " velocity of the attached point");
}

/// One object of kind k, at any place and orientation, with steps of any length
static void
excursion(Ctx& c, char k, int a0, double dt, const string& scheme)
{
	static const double ANG[] = { 0, M_PI / 2, -M_PI / 2, M_PI, -M_PI, 3.5, -4.2, 7.0, -11.0 };
	const int na = c.thorough() ? 9 : 5, off = c.thorough() ? 0 : a0 % 2;
	int nd = ndof(k);
	for (int i = 0; i < na; i++)
		for (int j = 0; j < na; j++) {
			Built b = make({ { k, 0 } }, 0);
			b.m.scheme(scheme);
			dv x = b.m.x0, v(nd);
			int q[3] = { a0, c.thorough() ? i : 2 * i - off * (i > 0), c.thorough() ? j : 2 * j - off * (j > 0) };
			for (int d = 0; d < 3; d++) {
				if (nd == 6)
					x[3 + d] += ANG[q[d]];
				// (the anchor lets it go some metres around)
				x[d] += 0.3 * sin(1.0 + q[(d + 1) % 3] + 2.0 * d);
			}
			for (int d = 0; d < nd; d++)
				v[d] = (d < 3 ? 0.3 : 1.1) * sin(0.3 + q[d % 3] * 1.9 + d);
			Sys s;
			if (!s.create(b.m, c.dir, "x"))
				c.fail("create", "Create failed");
			dv f(nd, 0.0);
			must(MoorDyn_Init_NoIC(s.md, x.data(), v.data()), "Init");
			const Obj o = b.order[0];
			string w = sfmt("orientation %d %d %d", q[0], q[1], q[2]);
			check_kin(c, s, o, x.data(), v.data(), w + " after Init,");
			if (k == 'B')
				check_rider(c, s, x.data(), v.data(), w + " after Init,");
			double t = 0, h = dt;
			for (int st = 0; st < 3; st++) {
				must(MoorDyn_Step(s.md, x.data(), v.data(), f.data(), &t, &h), "Step");
				c.trans();
				for (int d = 0; d < nd; d++) {
					if (!std::isfinite(f[d]))
						c.fail("force", "force not finite");
					x[d] += dt * v[d];
				}
				string n = w + sfmt(" step %d,", st);
				check_kin(c, s, o, x.data(), v.data(), n);
				if (k == 'B')
					check_rider(c, s, x.data(), v.data(), n);
				c.state(x);
				// on, and back
				for (int d = 0; d < nd; d++)
					v[d] = st ? -v[d] : 1.5 * v[d];
			}
			c.trace();
		}
}

static Run
drive(Ctx& c, const Built& b, const vector<int>& seq, const string& tag, bool check)
{
	Run out;
	Sys s;
	if (!s.create(b.m, c.dir, tag))
		c.fail("create", "Create failed");
	size_t n = 0;
	for (auto& o : b.order)
		n += ndof(o.kind);
	c.req(s.ndof == n, "ndof", sfmt("NCoupledDOF %u, expected %zu", s.ndof, n));
	// exactly sized buffers, so that the sanitizer sees any overrun
	std::unique_ptr<double[]> x(new double[n]), xd(new double[n]), f(new double[n]);
	auto fill = [&](int k, int p) {
		size_t ix = 0;
		for (auto& o : b.order) {
			for (int d = 0; d < ndof(o.kind); d++) {
				// the given positions jump slightly: they are to be obeyed
				x[ix] = b.m.x0[ix] + (d < 3 ? 0.01 : 0.004) *
				                          (1 + k) * sin(1.0 + o.slot + d);
				xd[ix] = patt(p, o.slot, d);
				ix++;
			}
		}
	};
	fill(0, seq[0]);
	must(MoorDyn_Init_NoIC(s.md, x.get(), xd.get()), "Init");
	double t = 0, dt = DT;
	{
		size_t ix = 0;
		for (auto& o : b.order) {
			if (check)
				check_kin(c, s, o, &x[ix], &xd[ix], "after Init,");
			ix += ndof(o.kind);
		}
	}
	for (size_t k = 0; k < seq.size(); k++) {
		fill(k, seq[k]);
		dv x_in(x.get(), x.get() + n), v_in(xd.get(), xd.get() + n);
		for (size_t i = 0; i < n; i++)
			f[i] = 1e33;
		must(MoorDyn_Step(s.md, x.get(), xd.get(), f.get(), &t, &dt), "Step");
		c.trans();
		c.same(dv(x.get(), x.get() + n), x_in, "inputs", "x argument modified");
		c.same(dv(xd.get(), xd.get() + n), v_in, "inputs", "xd argument modified");
		dv ff(f.get(), f.get() + n);
		for (size_t i = 0; i < n; i++)
			if (!std::isfinite(ff[i]) || std::fabs(ff[i]) > 1e30)
				c.fail("force", sfmt("force entry %zu not written: %g", i, ff[i]));
		out.f.push_back(ff);
		if (!check)
			continue;
		size_t ix = 0;
		for (auto& o : b.order) {
			int nd = ndof(o.kind);
			dv r(nd), v(nd);
			for (int d = 0; d < nd; d++) {
				v[d] = v_in[ix + d];
				r[d] = x_in[ix + d] + DT * v[d];
			}
			check_kin(c, s, o, r.data(), v.data(),
			          sfmt("step %zu, object %c%d,", k, o.kind, o.id));
			// the loads reported by the object itself
			double g[6];
			if (o.kind == 'P')
				must(MoorDyn_GetPointForce(MoorDyn_GetPoint(s.md, o.id), g), "force");
			else if (o.kind == 'B' || o.kind == 'b')
				must(MoorDyn_GetBodyForce(MoorDyn_GetBody(s.md, o.id), g), "force");
			else
				must(MoorDyn_GetRodForce(MoorDyn_GetRod(s.md, o.id), g), "force");
			int nf = o.kind == 'b' ? 3 : nd;
			c.nearv(dv(ff.begin() + ix, ff.begin() + ix + nf), dv(g, g + nf),
			       1e-12, 1e-9, "force-entry",
			       sfmt("step %zu, object %c%d: force entries against its getter", k, o.kind, o.id));
			if (o.kind == 'b')
				for (int d = 3; d < 6; d++)
					c.near(ff[ix + d], 0, 0, 1e-9, "force-entry", "moment of a pinned body");
			ix += nd;
		}
		c.state(s.obs(false));
	}
	return out;
}

/// the loads against those of the model, for steps of any length
static void
loads(Ctx& c, const string& mix, double dt, int water)
{
	using ref::V3;
	ref::Desc d;
	ref::LineT lt;
	lt.EA = 2e4;
	lt.w = 30;
	d.lt = { lt };
	d.rt = { ref::RodT() };
	d.dt = dt;
	d.extwaves = water;
	for (size_t i = 0; i < mix.size(); i++) {
		V3 o(25.0 * i, 3.0 * i, -1.5 * i);
		ref::LineS l;
		l.type = 0;
		l.N = 2;
		ref::PointS an;
		an.att = ref::FIXED;
		an.body = -1;
		an.p = V3(o.x() - 9, o.y() + 3, -30);
		d.points.push_back(an);
		l.a = { 'p', (int)d.points.size() - 1 };
		V3 e;
		if (mix[i] == 'P') {
			ref::PointS p;
			p.att = ref::COUPLED;
			p.body = -1;
			e = p.p = o + V3(3, 1, -6);
			p.m = 10;
			p.V = 0.02;
			p.CdA = 0.3;
			p.Ca = 0.5;
			d.points.push_back(p);
			l.b = { 'p', (int)d.points.size() - 1 };
		} else if (tolower(mix[i]) == 'b') {
			ref::BodyS b;
			b.att = mix[i] == 'B' ? ref::COUPLED : ref::CPLDPIN;
			b.p = o + V3(1, 2, -5);
			b.rpy = V3(10, -200, 170);
			b.m = mix[i] == 'B' ? 0 : 3000;
			b.I = V3(3000, 4000, 2000);
			b.V = mix[i] == 'B' ? 0 : 2;
			d.bodies.push_back(b);
			ref::PointS p;
			p.att = ref::BODY;
			p.body = d.bodies.size() - 1;
			p.p = V3(1, 0.3, -1);
			p.m = 50;
			p.V = 0.01;
			p.Ca = 0.5;
			e = b.p;
			d.points.push_back(p);
			l.b = { 'p', (int)d.points.size() - 1 };
		} else {
			ref::RodS r;
			r.att = mix[i] == 'R' ? ref::COUPLED : ref::CPLDPIN;
			r.body = -1;
			r.type = 0;
			r.N = 2;
			r.a = o + V3(0.5, -1, -6);
			e = r.b = o + V3(1.5, -0.5, -3);
			d.rods.push_back(r);
			l.b = { 'b', (int)d.rods.size() - 1 };
		}
		l.L = (e - an.p).norm() * (i % 2 ? 1.01 : 0.995);
		d.lines.push_back(l);
	}
	for (int q = 0; q < 27; q++) {
		int seq[3] = { q % 3, q / 3 % 3, q / 9 };
		ref::Run r(c, d, "c05l");
		r.what.lines = r.what.points = r.what.rods = r.what.bodies = false;
		auto vel = [&](int p) {
			dv v(96, 0.0);
			for (size_t i = 0; i < v.size() && p; i++)
				v[i] = (p == 1 ? 0.4 : 1.3) * sin(2.0 * p + 0.9 * i);
			return v;
		};
		r.start(vel(seq[0]));
		for (int k = 0; k < 3; k++) {
			r.w.U0 = water && k ? V3(0.5, -0.3 * k, 0.1) : V3(0, 0, 0);
			r.w.A0 = water && k ? V3(-0.2, 0.3 * k, 0.15) : V3(0, 0, 0);
			for (int j = 0; j < 2; j++)
				r.step(vel(seq[k]), sfmt("%s sequence %d%d%d step %d.%d", mix.c_str(),
				                         seq[0], seq[1], seq[2], k, j));
		}
		c.trace();
	}
}

static std::map<string, Run> cache;

void
vf::enumerate(Cases& cs, const string& tier)
{
	const string kinds = "PBbRr";
	int L = 3;
	int maxn = tier == "thorough" ? 4 : 3;
	vector<vector<int>> seqs;
	int npat = tier == "thorough" ? 4 : 3;
	for (int a = 0; a < npat; a++)
		for (int b = 0; b < npat; b++)
			for (int d = 0; d < npat; d++)
				seqs.push_back({ a, b, d });
	(void)L;
	auto add = [&](string mix) {
			for (int decoy = 0; decoy < 4; decoy++) {
				if ((int)mix.size() >= 4 && decoy && decoy != 3)
					continue;
				cs.push_back({ sfmt("%s:%d", mix.c_str(), decoy), [=](Ctx& c) {
					              vector<std::pair<char, int>> it;
					              for (size_t i = 0; i < mix.size(); i++)
						              it.push_back({ mix[i], (int)i });
					              Built b = make(it, decoy);
					              // few sequences for the big mixes
					              for (size_t q = 0; q < seqs.size(); q++) {
						              if (mix.size() >= 3 && q % (tier == "thorough" ? 1 : 5) != 2 % (tier == "thorough" ? 1 : 5))
							              continue;
						              string sk;
						              for (int p : seqs[q])
							              sk += sfmt("%d", p);
						              Run r = drive(c, b, seqs[q], "m", true);
						              size_t ix = 0;
						              for (auto& o : b.order) {
							              string key = sfmt("%c%d", o.kind, o.slot) + sk;
							              if (!cache.count(key)) {
								              Built one = make({ { o.kind, o.slot } }, 0);
								              cache[key] = drive(c, one, seqs[q], "o", false);
							              }
							              Run& ref = cache[key];
							              int nd = ndof(o.kind);
							              for (size_t k = 0; k < r.f.size(); k++)
								              c.nearv(dv(r.f[k].begin() + ix, r.f[k].begin() + ix + nd),
								                     ref.f[k], 1e-9, 1e-6, "force",
								                     sfmt("%s sequence %s step %zu: force of object %c in slot %d against the same object alone",
								                          mix.c_str(), sk.c_str(), k, o.kind, o.slot));
							              ix += nd;
						              }
						              c.trace();
					              }
				              } });
			}
	};
	std::function<void(string)> rec = [&](string mix) {
		if (!mix.empty())
			add(mix);
		if ((int)mix.size() < maxn)
			for (char k : kinds)
				rec(mix + k);
	};
	rec("");
	// loads
	{
		vector<string> ms;
		for (char a : kinds) {
			ms.push_back(string(1, a));
			for (char b : kinds)
				ms.push_back(string(1, a) + b);
		}
		for (auto& m : ms)
			for (double dt : { 0.0003, 0.002, 0.01 })
				for (int w = 0; w < 2; w++)
					cs.push_back({ sfmt("loads/%s/%g/%d", m.c_str(), dt, w),
						           [=](Ctx& c) { loads(c, m, dt, w); } });
	}
	// any place, orientation and step
	int n = 0;
	for (char k : kinds)
		for (int a = 0; a < 9; a++)
			for (double dt : { 0.0004, 0.0137, 0.3 })
				for (string sch : { "euler", "rk2", "rk4" }) {
					if (tier != "thorough" && n++ % 2)
						continue;
					cs.push_back({ sfmt("excursion/%c/%d/%g/%s", k, a, dt, sch.c_str()),
						           [=](Ctx& c) { excursion(c, k, a, dt, sch); } });
				}
	// many objects, of a kind and mixed
	for (auto m : { "PPPPPPPPPPPP", "BBBBBBBBBBB", "bbbbbbbbbbb", "RRRRRRRRRRR", "rrrrrrrrrrr", "PBbRrPBbRrPBbRr",
	                "rRbBPPBbRrrRbBP", "bBrRbBrRbBrRP" })
		add(m);
}
