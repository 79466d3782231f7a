// C07: each transition of the real lines against the lumped-mass line model
#define VF_MAIN
#include "ref.hpp"
using namespace vf;
using namespace ref;

namespace {

Tab
tab(dv x, dv y)
{
	Tab t;
	t.x = x;
	t.y = y;
	return t;
}

/// the line types
LineT
line_type(int k)
{
	LineT t;
	switch (k) {
		case 0:
			break;
		case 1:
			t.BA = 3.0e4;
			break;
		case 2:
			t.EI = 5.0e3;
			t.BA = -0.3;
			break;
		case 3: // concave stiffness from the origin
			t.ea = tab({ 0, 0.001, 0.005, 0.02, 0.6 }, { 0, 4e3, 1.1e4, 2e4, 9e4 });
			t.BA = 1.0e4;
			break;
		case 4: // damping of positive and negative rates
			t.ba = tab({ -50, -0.02, 0, 0.01, 50 }, { -4e5, -3e3, 0, 2e3, 3e5 });
			break;
		case 5: // odd damping
			t.ba = tab({ 0, 0.005, 0.05, 50 }, { 0, 5e2, 2e3, 3e5 });
			t.ea = tab({ 0, 0.01, 0.6 }, { 0, 1.2e4, 2e5 });
			break;
		case 6:
			t.ei = tab({ 0, 0.02, 0.1, 20 }, { 0, 300, 900, 4e4 });
			break;
		case 7: // light, floating
			t.w = 4;
			t.d = 0.15;
			t.Cd = 0.8;
			t.Ca = 0.3;
			t.CdAx = 0;
			t.CaAx = 0;
			t.EI = 800;
			t.BA = 0;
			break;
		case 8: // no hydrodynamics
			t.Cd = t.Ca = t.CdAx = t.CaAx = 0;
			t.EA = 2e5;
			break;
		case 9: { // long tables
			t.ea = t.ba = t.ei = Tab();
			for (int i = 0; i < 24; i++) {
				t.ea.x.push_back(i < 23 ? 0.015 * i * i / 529.0 : 0.6);
				t.ea.y.push_back(3e4 * sqrt(t.ea.x.back()) + 5e5 * t.ea.x.back());
				t.ei.x.push_back(20 * pow(i / 23.0, 4));
				t.ei.y.push_back(2e3 * pow(t.ei.x.back(), 0.8));
			}
			for (int i = -13; i <= 13; i++) {
				t.ba.x.push_back(copysign(50 * pow(fabs(i) / 13.0, 5), i));
				t.ba.y.push_back(2e3 * t.ba.x.back() + copysign(3e3 * pow(fabs(t.ba.x.back()), 0.6), i));
			}
			break;
		}
	}
	return t;
}
const int NTYPES = 10;

enum Geo { SLACK, TAUT, SURFACE, BED, BEDFRIC, CLIMB, NGEO };

struct Cfg
{
	int type, N, ends, geo, water;
	int reps = 1; // longer runs
	int plane = 0; // everything in a vertical plane
};

Desc
describe(const Cfg& f)
{
	Desc d;
	d.lt = { line_type(f.type), LineT() };
	d.rt = { RodT() };
	V3 A, B;
	double L = 0;
	switch (f.geo) {
		case SLACK:
			A = V3(0, 0, -25);
			B = V3(6, 3, -8);
			L = (B - A).norm() * 1.2;
			break;
		case TAUT:
			A = V3(1, 0, -28);
			B = V3(8, -4, -10);
			L = (B - A).norm() / 1.01;
			break;
		case SURFACE:
			A = V3(0, 0, -6);
			B = V3(5, 2, 5);
			L = (B - A).norm() / 1.002;
			break;
		case BED:
		case BEDFRIC:
			A = V3(0, 0, -30);
			B = V3(9, 2, -28.5);
			L = (B - A).norm() * 1.03;
			break;
		case CLIMB: // horizontal at the surface
			A = V3(0, 0, 0.02);
			B = V3(7, 1, -0.03);
			L = (B - A).norm() / 1.005;
			break;
	}
	d.env.kb = 2e4;
	d.env.cb = 1e3;
	if (f.geo == BEDFRIC) {
		d.env.mu = 0.4;
		d.env.fd = 150;
		d.env.sd = f.type % 2 ? 1.0 : 0.8;
	}
	// ends: 0 point-point, 1 rod A - point, 2 rod B - point, 3 point - rod A,
	// 4 point - rod B, 5 rod B - rod A, 6 reversed points
	auto rod = [&](Att a, V3 end, V3 dir, char which) {
		RodS r;
		r.att = a;
		r.body = -1;
		r.type = 0;
		r.N = 2;
		dir = 1.5 * dir.normalized();
		r.a = which == 'a' ? end : V3(end - dir);
		r.b = which == 'a' ? V3(end + dir) : end;
		d.rods.push_back(r);
		return End{ which, (int)d.rods.size() - 1 };
	};
	auto point = [&](Att a, V3 p) {
		PointS s;
		s.att = a;
		s.body = -1;
		s.p = p;
		d.points.push_back(s);
		return End{ 'p', (int)d.points.size() - 1 };
	};
	End a, b;
	V3 up(0.3, -0.2, 1);
	switch (f.ends) {
		case 1:
			a = rod(ref::FIXED, A, up, 'a');
			b = point(ref::COUPLED, B);
			break;
		case 2:
			a = rod(ref::FIXED, A, up, 'b');
			b = point(ref::COUPLED, B);
			break;
		case 3:
			a = point(ref::FIXED, A);
			b = rod(ref::COUPLED, B, up, 'a');
			break;
		case 4:
			a = point(ref::FIXED, A);
			b = rod(ref::COUPLED, B, up, 'b');
			break;
		case 5:
			a = rod(ref::FIXED, A, up, 'b');
			b = rod(ref::COUPLED, B, V3(1, 0.4, 0.2), 'a');
			break;
		case 6:
			a = point(ref::COUPLED, B);
			b = point(ref::FIXED, A);
			break;
		default:
			a = point(ref::FIXED, A);
			b = point(ref::COUPLED, B);
			break;
	}
	LineS l;
	l.type = 0;
	l.a = a;
	l.b = b;
	l.L = L;
	l.N = f.N;
	// a second line of another type between the same ends
	LineS l2 = l;
	l2.type = 1;
	l2.N = 3;
	l2.L = 1.02 * L;
	if (f.N % 2)
		d.lines = { l, l2 };
	else
		d.lines = { l2, l };
	d.dt = 0.002;
	d.extwaves = f.water != 0;
	return d;
}

Water
water(int k, int seg)
{
	Water w;
	if (k == 1) {
		w.U0 = seg % 2 ? V3(0.9, -0.4, 0.1) : V3(-0.3, 0.8, -0.2);
		w.A0 = seg % 2 ? V3(-0.2, 0.5, 0.3) : V3(0.6, 0.1, -0.4);
	} else if (k == 2) {
		w.U0 = V3(0.4, 0.2, 0.05);
		w.A0 = V3(0.1, -0.3, 0.2);
		w.G << 0.02, 0.01, 0.05, -0.03, 0.01, 0.02, 0.01, 0.0, -0.02;
		w.H << 0.03, 0.0, -0.02, 0.02, 0.04, 0.01, -0.01, 0.02, 0.03;
		if (seg % 2)
			w.U0 *= -2;
	}
	return w;
}

/// velocity of the driven end; rods also turn
dv
motion(int k, size_t n)
{
	static const dv alpha[] = { { 0, 0, 0 }, { 1.5, -0.6, 0.7 }, { -0.8, 1.1, -1.3 }, { 0.1, 0.2, 4.0 } };
	dv v(n, 0.0);
	for (size_t i = 0; i < n; i++)
		v[i] = i < 3 ? alpha[k][i] : 0.4 * alpha[k][(i + 1) % 3];
	return v;
}

double
fastest(Run& r)
{
	double m = 0, v[3];
	for (size_t i = 0; i < r.d.lines.size(); i++)
		for (int j = 0; j <= r.d.lines[i].N; j++)
			if (!MoorDyn_GetLineNodeVel(MoorDyn_GetLine(r.s.md, i + 1), j, v))
				m = std::max(m, std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]));
	return m;
}

void
run_case(Ctx& c, const Cfg& f)
{
	Desc d = describe(f);
	const int depth = c.thorough() ? 3 : 2, nm = c.thorough() ? 4 : 3,
	          steps = f.reps * (c.thorough() ? 5 : 3);
	// long runs go to and fro
	auto mot = [&](int k, size_t n, int j) {
		dv v = motion(k, n);
		if (f.reps > 1 && (j / 40) % 2)
			for (auto& y : v)
				y = -y;
		return v;
	};
	int total = 1;
	for (int i = 0; i < depth; i++)
		total *= nm;
	for (int q = 0; q < total; q++) {
		if (f.reps > 1 && q != 1 && q != 5)
			continue;
		Run r(c, d, "c07", f.plane);
		r.what.points = r.what.rods = r.what.bodies = r.what.forces = false;
		vector<int> seq;
		for (int i = 0, z = q; i < depth; i++, z /= nm)
			seq.push_back(z % nm);
		string nm0;
		for (auto z : seq)
			nm0 += sfmt("%d", z);
		if (f.water == 3)
			r.waves();
		r.start(motion(seq[0], 6));
		// pressure inside and outside of the line
		if (f.water == 3 || (f.water == 1 && (f.type + f.geo) % 2)) {
			for (size_t i = 0; i < r.d.lines.size(); i++) {
				auto& L = r.d.lines[i];
				auto h = MoorDyn_GetLine(r.s.md, i + 1);
				L.pb = true;
				L.pin.clear();
				for (int j = 0; j <= L.N; j++)
					L.pin.push_back(1e5 + 8e4 * ((j * 3 + q) % 4));
				c.req(MoorDyn_SetLinePressBend(h, 1) == 0 &&
				          MoorDyn_SetLinePressInt(h, L.pin.data()) == 0,
				      "pressure", "the pressure of a line cannot be set");
			}
		}
		for (int i = 0; i < depth; i++) {
			if (f.water != 3)
				r.w = water(f.water, i);
			for (int j = 0; j < steps; j++) {
				r.step(mot(seq[i], r.x.size(), j),
				       sfmt("motion %s step %d.%d", nm0.c_str(), i, j));
				// (the explicit Euler scheme does not hold every line for long)
				if (f.reps > 1 && fastest(r) > 40)
					i = j = steps;
			}
		}
		c.trace();
		c.outcome(dv{ r.maxrel });
	}
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	for (int N : th ? vector<int>{ 1, 2, 3, 4, 5, 8, 20, 60 } : vector<int>{ 1, 2, 3, 5, 24 })
		for (int t = 0; t < NTYPES; t++)
			for (int e = 0; e < 7; e++)
				for (int g = 0; g < NGEO; g++)
					for (int w = 0; w < 4; w++) {
						// quick: every pair of (ends, geometry) and of the
						// other dimensions with each
						if (!th && w < 3 && w != (t + e + g) % 3)
							continue;
						if (!th && w == 3 && (t + e + g + N) % 3)
							continue;
						// long lines: in turn
						if (N > 10 && (t + 2 * e + 3 * g + w) % (th ? 4 : 9))
							continue;
						Cfg f{ t, N, e, g, w };
						cases.push_back({ sfmt("N%d/t%d/e%d/g%d/w%d", N, t, e, g, w),
							              [f](Ctx& c) { run_case(c, f); } });
						// in a plane: in turn
						for (int pl = 1; pl < 5; pl++)
							if (w < 3 && N < 10 && (t + e + 2 * g + w + N) % (th ? 4 : 8) == pl - 1) {
								Cfg h = f;
								h.plane = pl;
								cases.push_back({ sfmt("N%d/t%d/e%d/g%d/w%d/plane%d", N, t, e, g, w, pl),
								                  [h](Ctx& c) { run_case(c, h); } });
							}
						// along the diagonals
						for (int pl = 6; pl < 8; pl++)
							if (w < 3 && N < 10 && e % 6 == 0 && (th || (t + g) % 2 == pl - 6)) {
								Cfg h = f;
								h.plane = pl;
								cases.push_back({ sfmt("N%d/t%d/e%d/g%d/w%d/plane%d", N, t, e, g, w, pl),
								                  [h](Ctx& c) { run_case(c, h); } });
							}
						// along one vertical line
						if (w < 3 && N < 10 && e % 6 == 0 && g != CLIMB && (th || (t + g) % 2)) {
							Cfg h = f;
							h.plane = 5;
							cases.push_back({ sfmt("N%d/t%d/e%d/g%d/w%d/vertical", N, t, e, g, w),
							                  [h](Ctx& c) { run_case(c, h); } });
						}
						// longer runs: in turn
						f.reps = 60;
						if (N < 10 && !((3 * t + 5 * e + 2 * g + w + N) % (th ? 7 : 61)))
							cases.push_back({ sfmt("N%d/t%d/e%d/g%d/w%d/long", N, t, e, g, w),
							                  [f](Ctx& c) { run_case(c, f); } });
					}
}
