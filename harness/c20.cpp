// C20: live changes of the lines
#define VF_MAIN
#include "ref.hpp"
using namespace vf;
using namespace ref;

namespace {

Desc
describe(int k)
{
	Desc d;
	LineT a, b;
	b.d = 0.08;
	b.w = 12;
	b.EA = 4e5;
	b.BA = 3e3;
	if (k == 1) { // bending stiffness
		a.EI = 2e3;
		b.EI = 500;
	} else if (k == 2) { // tabulated stiffness
		a.ea.x = { 0, 0.002, 0.01, 0.8 };
		a.ea.y = { 0, 3e3, 1e4, 2e5 };
	} else if (k == 3) {
		b.d = 0.2;
		b.w = 20;
	}
	d.lt = { a, b };
	d.rt = { RodT() };
	auto point = [&](Att at, V3 p) {
		PointS s;
		s.att = at;
		s.body = -1;
		s.p = p;
		d.points.push_back(s);
	};
	point(ref::FIXED, V3(0, 0, -30));
	point(ref::COUPLED, V3(7, 3, -9));
	point(ref::FREE, V3(3, -4, -17));
	d.points[2].m = 150;
	d.points[2].V = 0.05;
	LineS l;
	l.type = 0;
	l.a = { 'p', 0 };
	l.b = { 'p', 1 };
	l.L = (d.points[0].p - d.points[1].p).norm() * (k == 0 ? 0.995 : 1.08);
	l.N = 4;
	d.lines.push_back(l);
	l.type = 1;
	l.a = { 'p', 2 };
	l.b = { 'p', 1 };
	l.L = (d.points[2].p - d.points[1].p).norm() * 1.02;
	l.N = 3;
	if (k == 3) { // cantilevered ends across the surface
		RodS r;
		r.att = ref::FIXED;
		r.body = -1;
		r.type = 0;
		r.a = V3(3, -4, 1);
		r.b = V3(3.2, -4, 2.6);
		r.N = 2;
		d.rods.push_back(r);
		l.a = { 'a', 0 };
		l.L = (r.a - d.points[1].p).norm() * 1.05;
	}
	d.lines.push_back(l);
	if (k == 3)
		d.lt[1].EI = 700;
	if (k == 4) { // long lines, great changes
		d.lines[0].N = 23;
		d.lines[1].N = 19;
	}
	if (k == 5) // many lines
		for (int i = 0; i < 11; i++) {
			LineS q = d.lines[i % 2];
			q.N = 1 + i % 3;
			q.L *= 1.0 + 0.003 * i;
			d.lines.push_back(q);
		}
	return d;
}

const int NOPS = 11;
const char* ONAMES[NOPS] = { "longer", "shorter", "payout", "haul",  "hold", "stiffer",
	                         "softer", "press",   "nopress", "pin1", "same" };

struct Live
{
	double rate = 0, EA0 = 0, L0 = 0;
};

/// apply an operation to a line of the system and of the description
void
apply(Ctx& c, Run& r, vector<Live>& lv, int line, int op, bool great)
{
	auto h = MoorDyn_GetLine(r.s.md, line + 1);
	auto& L = r.d.lines[line];
	auto& v = lv[line];
	double now = 0, ea = 0;
	c.req(MoorDyn_GetLineUnstretchedLength(h, &now) == 0 &&
	          MoorDyn_GetLineConstantEA(h, &ea) == 0,
	      "getter",
	      "getters");
	int e = 0;
	switch (op) {
		case 0:
			L.L = now * (great ? 2.6 : 1.13);
			e = MoorDyn_SetLineUnstretchedLength(h, L.L);
			break;
		case 1:
			L.L = now * (great ? 0.55 : 0.94);
			e = MoorDyn_SetLineUnstretchedLength(h, L.L);
			break;
		case 2:
			v.rate = great ? 7 : 0.8;
			e = MoorDyn_SetLineUnstretchedLengthVel(h, v.rate);
			break;
		case 3:
			v.rate = great ? -9 : -1.1;
			e = MoorDyn_SetLineUnstretchedLengthVel(h, v.rate);
			break;
		case 4:
			v.rate = 0;
			e = MoorDyn_SetLineUnstretchedLengthVel(h, 0);
			break;
		case 5:
			L.EA = ea * (great ? 5 : 1.4);
			e = MoorDyn_SetLineConstantEA(h, L.EA);
			break;
		case 6:
			L.EA = ea * (great ? 0.02 : 0.6);
			e = MoorDyn_SetLineConstantEA(h, L.EA);
			break;
		case 7:
			L.pb = true;
			e = MoorDyn_SetLinePressBend(h, 1);
			break;
		case 8:
			L.pb = false;
			e = MoorDyn_SetLinePressBend(h, 0);
			break;
		case 9: {
			L.pin.clear();
			for (int i = 0; i <= L.N; i++)
				L.pin.push_back(2e5 + 3e5 * i);
			e = MoorDyn_SetLinePressInt(h, L.pin.data());
			break;
		}
		case 10:
			e = MoorDyn_SetLineUnstretchedLength(h, now) |
			    MoorDyn_SetLineConstantEA(h, ea);
			break;
	}
	c.req(e == 0, "set", sfmt("%s of line %d returns %d", ONAMES[op], line + 1, e));
}

void
read_back(Ctx& c, Run& r, const vector<Live>& lv, const string& where)
{
	for (size_t i = 0; i < r.d.lines.size(); i++) {
		auto h = MoorDyn_GetLine(r.s.md, i + 1);
		auto& L = r.d.lines[i];
		double v;
		int b;
		string n = where + sfmt(" line %zu ", i + 1);
		c.req(MoorDyn_GetLineUnstretchedLength(h, &v) == 0, "getter", n);
		c.near(v, L.L, 1e-12, 0, "length", n + "length");
		c.req(MoorDyn_GetLineConstantEA(h, &v) == 0, "getter", n);
		if (!r.d.lt[L.type].ea.on())
			c.near(v, L.EA >= 0 ? L.EA : r.d.lt[L.type].EA, 1e-12, 0, "EA", n + "stiffness");
		c.req(MoorDyn_IsLineConstantEA(h, &b) == 0, "getter", n);
		c.req((b != 0) == !r.d.lt[L.type].ea.on(), "isconst", n + "kind of stiffness");
		c.req(MoorDyn_IsLinePressBend(h, &b) == 0, "getter", n);
		c.req((b != 0) == L.pb, "pressbend", n + "pressure bending flag");
	}
}

/// every sequence of changes starting with (op0, line0)
void
seq_case(Ctx& c, int k, int first, int depth)
{
	Desc d = describe(k);
	for (auto& l : d.lines)
		l.L0 = l.L; // the damping is not changed
	int total = 1;
	for (int i = 1; i < depth; i++)
		total *= 2 * NOPS;
	for (int q = 0; q < total; q++) {
		Run r(c, d, "c20");
		r.start({ 0.5, -0.2, 0.4 });
		vector<Live> lv(d.lines.size());
		const int base = k == 5 ? 10 : 0;
		string where;
		int z = q;
		auto steps = [&](int n, double sg) {
			for (int j = 0; j < n; j++) {
				r.step({ 0.5 * sg, -0.2, 0.4 }, where + sfmt(" step %d", j));
				for (size_t i = 0; i < lv.size(); i++)
					r.d.lines[i].L += lv[i].rate * d.dt;
				read_back(c, r, lv, where + sfmt(" after step %d", j));
			}
		};
		steps(1, 1);
		for (int i = 0; i < depth; i++) {
			int o = i ? z % (2 * NOPS) : first;
			if (i)
				z /= 2 * NOPS;
			where += sfmt("%s%d.", ONAMES[o / 2], base + o % 2 + 1);
			apply(c, r, lv, base + o % 2, o / 2, k == 4);
			read_back(c, r, lv, where);
			steps(2, i % 2 ? 1 : -1);
		}
		c.trace();
		c.outcome(dv{ r.maxrel, r.d.lines[0].L, r.d.lines[1].L });
	}
}

/// with every integrator: pay out exactly rate * dt, and setting the present
/// values changes nothing
void
scheme_case(Ctx& c, const Model& m0)
{
	unsigned nl = m0.lines.size();
	for (int who = 0; who < (int)nl; who++)
		for (double dt : { 0.004, 0.01, 0.02 }) {
			Model m = m0;
			Sys a, b;
			c.req(a.create(m, c.dir, "a") && b.create(m, c.dir, "b"), "create", m.name);
			c.req(a.init() == 0 && b.init() == 0, "init", m.name);
			double L0 = 0, v = 0;
			vector<double> Ls;
			for (unsigned i = 0; i < nl; i++) {
				MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(a.md, i + 1), &L0);
				Ls.push_back(L0);
			}
			for (int s = 0; s < 3; s++) {
				c.req(a.step(dt) == 0 && b.step(dt) == 0, "step", m.name);
				c.same(b.obs(), a.obs(), "same", sfmt("present values set, step %d", s));
				for (unsigned i = 0; i < nl; i++) {
					auto h = MoorDyn_GetLine(b.md, i + 1);
					MoorDyn_GetLineUnstretchedLength(h, &v);
					c.req(MoorDyn_SetLineUnstretchedLength(h, v) == 0, "set", "length");
					c.req(MoorDyn_SetLineUnstretchedLengthVel(h, 0.0) == 0, "set", "rate");
				}
				c.trans(2);
			}
			// the rate
			auto h = MoorDyn_GetLine(b.md, who + 1);
			double want = Ls[who];
			const double rates[] = { 0.3, 0.3, -0.2, 0.0, 0.1 };
			for (int s = 0; s < 5; s++) {
				if (s != 1)
					c.req(MoorDyn_SetLineUnstretchedLengthVel(h, rates[s]) == 0, "set", "rate");
				c.req(b.step(dt) == 0, "step", m.name);
				want += rates[s] * dt;
				for (unsigned i = 0; i < nl; i++) {
					MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(b.md, i + 1), &v);
					c.near(v,
					       (int)i == who ? want : Ls[i],
					       1e-12,
					       0,
					       "rate",
					       sfmt("line %u length at step %d of %g s, line %d paying out", i + 1, s, dt, who + 1));
				}
				c.trans();
				c.state(b.obs());
			}
			c.trace();
			c.outcome(b.obs());
		}
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	for (int k = 0; k < 6; k++)
		for (int f = 0; f < 2 * NOPS; f++) {
			int depth = th ? (k == 0 ? 4 : 3) : k > 3 ? 2 : 3;
			cases.push_back({ sfmt("seq/%d/%s%d", k, ONAMES[f / 2], f % 2 + 1),
				              [k, f, depth](Ctx& c) { seq_case(c, k, f, depth); } });
		}
	for (auto& m : all_systems()) {
		if (m.lines.empty())
			continue;
		for (auto& sch : all_schemes()) {
			Model q = m;
			q.scheme(sch);
			cases.push_back({ "scheme/" + m.name + "/" + sch,
				              [q](Ctx& c) { scheme_case(c, q); } });
		}
	}
}
