// C12: the output files hold the requested channels at the requested instants.
// The values expected are those returned by the interface after the call which
// wrote the row, or are derived from them.
#define VF_MAIN
#include "md.hpp"
#include <array>
using namespace vf;

namespace {

typedef std::array<double, 3> V3;

struct ObjP
{
	V3 r, v, f;
};
struct ObjB
{
	double r[6], v[6], f[6];
};
struct ObjR
{
	vector<V3> r, v;
	double f[6];
	double ta, tb; // net force of the lines at the ends
};
struct ObjL
{
	vector<V3> r, v, f, ten, drag, fk, bed;
	dv curv;
	double ul, EA;
};
struct Snap
{
	double t = 0;
	vector<ObjP> p;
	vector<ObjB> b;
	vector<ObjR> r;
	vector<ObjL> l;
};

double
norm(const V3& v)
{
	return sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
}

struct LineInfo
{
	string a, b; // attachments
};

Snap
snap(Ctx& c, Sys& s, const vector<LineInfo>& li)
{
	Snap o;
	o.t = s.t;
	unsigned n = 0, nn = 0;
	c.req(MoorDyn_GetNumberLines(s.md, &n) == 0, "api", "lines");
	for (unsigned i = 1; i <= n; i++) {
		ObjL l;
		auto h = MoorDyn_GetLine(s.md, i);
		MoorDyn_GetLineN(h, &nn);
		MoorDyn_GetLineUnstretchedLength(h, &l.ul);
		if (MoorDyn_GetLineConstantEA(h, &l.EA))
			l.EA = 0;
		for (unsigned k = 0; k <= nn; k++) {
			V3 r, v, f, t, d, fk, sb;
			double cu = 0;
			int e = MoorDyn_GetLineNodePos(h, k, r.data());
			e |= MoorDyn_GetLineNodeVel(h, k, v.data());
			e |= MoorDyn_GetLineNodeForce(h, k, f.data());
			e |= MoorDyn_GetLineNodeTen(h, k, t.data());
			e |= MoorDyn_GetLineNodeDrag(h, k, d.data());
			e |= MoorDyn_GetLineNodeFroudeKrilov(h, k, fk.data());
			e |= MoorDyn_GetLineNodeSeabedForce(h, k, sb.data());
			e |= MoorDyn_GetLineNodeCurv(h, k, &cu);
			c.req(e == 0, "api", "line getters");
			l.r.push_back(r);
			l.v.push_back(v);
			l.f.push_back(f);
			l.ten.push_back(t);
			l.drag.push_back(d);
			l.fk.push_back(fk);
			l.bed.push_back(sb);
			l.curv.push_back(cu);
		}
		o.l.push_back(l);
	}
	c.req(MoorDyn_GetNumberPoints(s.md, &n) == 0, "api", "points");
	for (unsigned i = 1; i <= n; i++) {
		ObjP p;
		auto h = MoorDyn_GetPoint(s.md, i);
		int e = MoorDyn_GetPointPos(h, p.r.data());
		e |= MoorDyn_GetPointVel(h, p.v.data());
		e |= MoorDyn_GetPointForce(h, p.f.data());
		c.req(e == 0, "api", "point getters");
		o.p.push_back(p);
	}
	c.req(MoorDyn_GetNumberBodies(s.md, &n) == 0, "api", "bodies");
	for (unsigned i = 1; i <= n; i++) {
		ObjB b;
		auto h = MoorDyn_GetBody(s.md, i);
		int e = MoorDyn_GetBodyState(h, b.r, b.v);
		e |= MoorDyn_GetBodyForce(h, b.f);
		c.req(e == 0, "api", "body getters");
		o.b.push_back(b);
	}
	c.req(MoorDyn_GetNumberRods(s.md, &n) == 0, "api", "rods");
	for (unsigned i = 1; i <= n; i++) {
		ObjR r;
		auto h = MoorDyn_GetRod(s.md, i);
		MoorDyn_GetRodN(h, &nn);
		for (unsigned k = 0; k <= nn; k++) {
			V3 x, v;
			int e = MoorDyn_GetRodNodePos(h, k, x.data());
			e |= MoorDyn_GetRodNodeVel(h, k, v.data());
			c.req(e == 0, "api", "rod getters");
			r.r.push_back(x);
			r.v.push_back(v);
		}
		c.req(MoorDyn_GetRodForce(h, r.f) == 0, "api", "rod force");
		V3 fa{}, fb{};
		for (unsigned k = 0; k < li.size(); k++)
			for (int end = 0; end < 2; end++) {
				const string& at = end ? li[k].b : li[k].a;
				const V3& f = end ? o.l[k].f.back() : o.l[k].f.front();
				if (at == sfmt("R%uA", i))
					for (int j = 0; j < 3; j++)
						fa[j] += f[j];
				if (at == sfmt("R%uB", i))
					for (int j = 0; j < 3; j++)
						fb[j] += f[j];
			}
		r.ta = norm(fa);
		r.tb = norm(fb);
		o.r.push_back(r);
	}
	return o;
}

/// What is known about a run: the snapshots, k = 0 is the initialisation
typedef vector<Snap> Hist;

struct Chan
{
	string name; // in upper case, with the short object name
	string unit;
	/// the possible values at instant k (more than one where the library may
	/// report the ones of the last evaluation of the loads)
	std::function<dv(const Hist&, int)> val;
	bool accel = false;
	bool loads = false;
};

const double DEG = 180.0 / M_PI;
const char* XYZ = "XYZ";

bool
is(const string& row, const char* att)
{
	std::istringstream i(row);
	string a, b;
	i >> a >> b;
	return b == att;
}

/// every channel available for the system
vector<Chan>
channels(const Model& m, const Hist& h)
{
	vector<Chan> o;
	auto add = [&](const string& n,
	               const char* u,
	               std::function<dv(const Hist&, int)> f,
	               bool acc = false) {
		Chan c;
		c.name = n;
		c.unit = u;
		c.val = f;
		c.accel = acc;
		o.push_back(c);
	};
	for (size_t i = 0; i < h[0].l.size(); i++) {
		size_t N = h[0].l[i].r.size() - 1;
		string id = sfmt("L%zu", i + 1);
		for (size_t k = 0; k <= N; k++) {
			vector<string> pre = { id + sfmt("N%zu", k) };
			if (k == 0) {
				pre.push_back(id + "NA");
				pre.push_back(id);
			}
			if (k == N)
				pre.push_back(id + "NB");
			for (auto& s : pre) {
				for (int j = 0; j < 3; j++) {
					add(s + "P" + XYZ[j], "(m)", [=](const Hist& h, int q) {
						return dv{ h[q].l[i].r[k][j] };
					});
					add(s + "V" + XYZ[j], "(m/s)", [=](const Hist& h, int q) {
						return dv{ h[q].l[i].v[k][j] };
					});
					add(s + "F" + XYZ[j], "(N)", [=](const Hist& h, int q) {
						return dv{ h[q].l[i].f[k][j] };
					});
				}
				auto ten = [=](const Hist& h, int q) {
					return dv{ norm(k == 0 || k == N ? h[q].l[i].f[k]
						                             : h[q].l[i].ten[k]) };
				};
				add(s + "TEN", "(N)", ten);
				add(s + "T", "(N)", ten);
			}
		}
		auto ta = [=](const Hist& h, int q) { return dv{ norm(h[q].l[i].f[0]) }; };
		auto tb = [=](const Hist& h, int q) {
			return dv{ norm(h[q].l[i].f.back()) };
		};
		add(id + "TENA", "(N)", ta);
		add(id + "TENB", "(N)", tb);
		add(id + "TA", "(N)", ta);
		add(id + "TB", "(N)", tb);
		add(sfmt("FAIRTEN%zu", i + 1), "(N)", tb);
		add(sfmt("ANCHTEN%zu", i + 1), "(N)", ta);
	}
	for (size_t i = 0; i < h[0].p.size(); i++) {
		string s = sfmt("P%zu", i + 1);
		bool fr = is(m.points[i], "Free");
		bool att = m.points[i].find("Body") != string::npos;
		for (int j = 0; j < 3; j++) {
			add(s + "P" + XYZ[j], "(m)", [=](const Hist& h, int q) {
				return dv{ h[q].p[i].r[j] };
			});
			add(s + "V" + XYZ[j], "(m/s)", [=](const Hist& h, int q) {
				return dv{ h[q].p[i].v[j] };
			});
			add(s + "F" + XYZ[j], "(N)", [=](const Hist& h, int q) {
				return dv{ h[q].p[i].f[j] };
			});
			if (!att)
				add(
				    s + "A" + XYZ[j],
				    "(m/s2)",
				    [=](const Hist& h, int q) {
					    if (!fr)
						    return dv{ 0.0 };
					    return dv{ (h[q].p[i].v[j] - h[q - 1].p[i].v[j]) /
						           (h[q].t - h[q - 1].t) };
				    },
				    true);
		}
		auto ten = [=](const Hist& h, int q) { return dv{ norm(h[q].p[i].f) }; };
		add(s + "TEN", "(N)", ten);
		add(s + "T", "(N)", ten);
	}
	for (size_t i = 0; i < h[0].b.size(); i++) {
		string s = sfmt("B%zu", i + 1);
		bool fr = is(m.bodies[i], "Free");
		bool fx = is(m.bodies[i], "Fixed");
		for (int j = 0; j < 3; j++) {
			add(s + "P" + XYZ[j], "(m)", [=](const Hist& h, int q) {
				return dv{ h[q].b[i].r[j] };
			});
			add(s + "R" + XYZ[j], "(deg)", [=](const Hist& h, int q) {
				return dv{ h[q].b[i].r[j + 3] * DEG };
			});
			add(s + "V" + XYZ[j], "(m/s)", [=](const Hist& h, int q) {
				return dv{ h[q].b[i].v[j] };
			});
			add(s + "RV" + XYZ[j], "(deg/s)", [=](const Hist& h, int q) {
				return dv{ h[q].b[i].v[j + 3] * DEG };
			});
			if (fr || fx) {
				add(
				    s + "A" + XYZ[j],
				    "(m/s2)",
				    [=](const Hist& h, int q) {
					    if (!fr)
						    return dv{ 0.0 };
					    return dv{ (h[q].b[i].v[j] - h[q - 1].b[i].v[j]) /
						           (h[q].t - h[q - 1].t) };
				    },
				    true);
				add(
				    s + "RA" + XYZ[j],
				    "(deg/s2)",
				    [=](const Hist& h, int q) {
					    if (!fr)
						    return dv{ 0.0 };
					    return dv{ DEG *
						           (h[q].b[i].v[j + 3] - h[q - 1].b[i].v[j + 3]) /
						           (h[q].t - h[q - 1].t) };
				    },
				    true);
			}
			add(s + "F" + XYZ[j], "(N)", [=](const Hist& h, int q) {
				return dv{ h[q].b[i].f[j] };
			});
			add(s + "M" + XYZ[j], "(Nm)", [=](const Hist& h, int q) {
				return dv{ h[q].b[i].f[j + 3] };
			});
		}
		auto ten = [=](const Hist& h, int q) {
			auto& f = h[q].b[i].f;
			return dv{ norm({ f[0], f[1], f[2] }) };
		};
		if (fr || fx) { // without the inertia of the coupled ones
			add(s + "TEN", "(N)", ten);
			add(s + "T", "(N)", ten);
		}
	}
	for (size_t i = 0; i < h[0].r.size(); i++) {
		string s = sfmt("R%zu", i + 1);
		bool fr = is(m.rods[i], "Free");
		size_t N = h[0].r[i].r.size() - 1;
		for (int j = 0; j < 3; j++) {
			add(s + "P" + XYZ[j], "(m)", [=](const Hist& h, int q) {
				return dv{ h[q].r[i].r[0][j] };
			});
			add(s + "V" + XYZ[j], "(m/s)", [=](const Hist& h, int q) {
				return dv{ h[q].r[i].v[0][j] };
			});
			add(s + "F" + XYZ[j], "(N)", [=](const Hist& h, int q) {
				return dv{ h[q].r[i].f[j] };
			});
			add(s + "M" + XYZ[j], "(Nm)", [=](const Hist& h, int q) {
				return dv{ h[q].r[i].f[j + 3] };
			});
			if (fr)
				add(
				    s + "A" + XYZ[j],
				    "(m/s2)",
				    [=](const Hist& h, int q) {
					    return dv{ (h[q].r[i].v[0][j] - h[q - 1].r[i].v[0][j]) /
						           (h[q].t - h[q - 1].t) };
				    },
				    true);
			for (size_t k = 0; k <= N; k++) {
				vector<string> pre = { s + sfmt("N%zu", k) };
				if (k == 0)
					pre.push_back(s + "NA");
				if (k == N)
					pre.push_back(s + "NB");
				for (auto& u : pre) {
					add(u + "P" + XYZ[j], "(m)", [=](const Hist& h, int q) {
						return dv{ h[q].r[i].r[k][j] };
					});
					add(u + "V" + XYZ[j], "(m/s)", [=](const Hist& h, int q) {
						return dv{ h[q].r[i].v[k][j] };
					});
				}
			}
		}
		if (N > 0) {
			// inclination: rotation from the vertical about a horizontal axis
			for (int j = 0; j < 2; j++)
				add(s + "R" + XYZ[j], "(deg)", [=](const Hist& h, int q) {
					dv out;
					for (int b = 0; b < 2 && q - b >= 0; b++) {
						auto& n = h[q - b].r[i].r;
						V3 d;
						for (int a = 0; a < 3; a++)
							d[a] = n.back()[a] - n[0][a];
						double hz = hypot(d[0], d[1]);
						double phi = atan2(hz, d[2]);
						double sb = hz > 0 ? d[1] / hz : 0, cb = hz > 0 ? d[0] / hz : 1;
						out.push_back(DEG * (j == 0 ? -phi * sb : phi * cb));
					}
					return out;
				});
			// the length under the water, give or take one segment
			add(s + "SUB", "(frac)", [=](const Hist& h, int q) {
				auto& n = h[q].r[i].r;
				double z0 = n[0][2], z1 = n.back()[2];
				double lo = std::min(z0, z1), hi = std::max(z0, z1);
				double fr = hi < 0 ? 1 : lo > 0 ? 0 : -lo / (hi - lo);
				if (fr == 0 || fr == 1)
					return dv{ fr };
				return dv{ fr, 0.6 }; // see check()
			});
		}
		add(s + "TENA", "(N)", [=](const Hist& h, int q) {
			return dv{ h[q].r[i].ta };
		});
		add(s + "TENB", "(N)", [=](const Hist& h, int q) {
			return dv{ h[q].r[i].tb };
		});
	}
	return o;
}

// ------------------------------------------------------------------ files --
struct Table
{
	vector<string> head, units;
	vector<vector<string>> rows;
};

vector<string>
words(const string& l)
{
	std::istringstream i(l);
	vector<string> o;
	string w;
	while (i >> w)
		o.push_back(w);
	return o;
}

Table
table(Ctx& c, const string& path, bool units)
{
	Table t;
	string txt;
	c.req(read_file(path, txt), "missing", "output file " + path.substr(c.dir.size()));
	std::istringstream i(txt);
	string l;
	bool first = true, second = units;
	c.req(txt.empty() || txt.back() == '\n', "partial", "last line is not complete");
	while (std::getline(i, l)) {
		if (first) {
			t.head = words(l);
			first = false;
			c.req(!t.head.empty() && t.head[0] == "Time",
			      "header",
			      "no header in " + path.substr(c.dir.size()) + ": " + l.substr(0, 40));
		} else if (second) {
			t.units = words(l);
			second = false;
			c.req(t.units.size() == t.head.size() && t.units[0] == "(s)",
			      "units",
			      sfmt("%zu units for %zu columns in ", t.units.size(), t.head.size()) +
			          path.substr(c.dir.size()));
		} else {
			auto w = words(l);
			c.req(w.size() == t.head.size(),
			      "columns",
			      sfmt("%zu values for %zu columns in ", w.size(), t.head.size()) +
			          path.substr(c.dir.size()));
			t.rows.push_back(w);
		}
	}
	c.req(!first && !second, "header", "empty " + path.substr(c.dir.size()));
	return t;
}

bool
number(const string& s, double& v)
{
	char* e = nullptr;
	v = strtod(s.c_str(), &e);
	return e && *e == 0 && e != s.c_str();
}

/// the files have 6 significant digits
bool
eq(double a, double b, double atol)
{
	return std::fabs(a - b) <= 6e-6 * std::max(std::fabs(a), std::fabs(b)) + atol;
}

void
check(Ctx& c,
      const string& cell,
      const dv& v,
      const Chan& ch,
      int q,
      double scale = 1.0)
{
	double x;
	c.req(number(cell, x), "number", ch.name + " is written as " + cell);
	double tol = 1e-9;
	if (ch.accel)
		tol = 1e-6 * scale;
	bool ok = false;
	if (ch.unit == "(frac)" && v.size() == 2)
		ok = x >= 0 && x <= 1 && std::fabs(x - v[0]) <= v[1];
	else
		for (double e : v)
			ok |= eq(x, e, tol * (1 + std::fabs(e)));
	if (!ok)
		c.fail("value/" + ch.unit,
		       sfmt("%s at row %d is written as %s instead of %.9g",
		            ch.name.c_str(),
		            q,
		            cell.c_str(),
		            v[0]));
}

string
dirof(const string& p)
{
	return p.substr(0, p.rfind('/') + 1);
}

// -------------------------------------------------------------- systems ----
/// every kind of object
Model
zoo(int k = 0)
{
	Model m;
	m.name = sfmt("zoo%d", k);
	base_options(m);
	m.linetypes = { "rope 0.1 12 2e5 800 0 1.1 1 0.05 0",
		            "chain 0.12 30 5e5 2000 0 1.3 1 0.1 0" };
	m.rodtypes = { "bar 0.2 60 0.8 1 0.7 0.6", "buoy 0.6 90 0.8 1 0.7 0.6" };
	m.bodies = { "1 Free 2 3 -9 5 -10 15 3000 0.1|0.2|-0.3 4000 2.5 3|2|4 0.5",
		         "2 Coupled 20 1 -6 0 0 0 1000 0 2000 1 1 1",
		         "3 Fixed -20 4 -15 10 5 0 500 0 900 0.2 1 1",
		         "4 CoupledPinned -22 -20 -8 5 0 0 4000 0.3|0|-0.5 6000 2.0 3 0.5" };
	m.rods = { "1 bar Free 5 -8 -9 6 -9 -4 3 -",
		       "2 bar Pinned -8 -8 -12 -7 -7.5 -8 2 -",
		       "3 buoy Coupled 30 -4 -2.1 30.4 -4.2 1.1 4 -",
		       "4 bar Fixed -12 10 -14 -11 12 -13 2 -",
		       "5 bar Body1 0.5 0.5 1 1 1.5 2 1 -",
		       "6 bar Body2Pinned 1 1 -1 1.4 1.2 -4 2 -",
		       "7 bar CoupledPinned 38 3 -4 37 4 -9 2 -" };
	m.points = { "1 Fixed 0 0 -29 0 0 0 0",
		         "2 Coupled 10 4 -3 0 0 0 0",
		         "3 Free 5 1 -14 80 0.03 0.4 1",
		         "4 Body1 -1 0.5 0.7 0 0 0 0",
		         "5 Body2 -1 -1 0 10 0.01 0.1 1",
		         "6 Body3 1 1 0 0 0 0 0",
		         "7 Body4 1 0 -0.5 0 0 0 0" };
	m.lines = { "1 rope 1 3 16.5 3 -",  "2 rope 3 2 13 2 -",
		        "3 chain 1 4 21 1 -",   "4 rope R1B 2 12 4 -",
		        "5 rope 5 R2B 27 2 -",  "6 rope 6 R3A 50 3 -",
		        "7 rope R6B R4A 34 1 -", "8 rope 2 R7B 28.5 2 -",
		        "9 rope R1A 1 21.5 2 -", "10 chain 7 1 36 2 -",
		        "11 rope R1B R5B 14 1 -" };
	// coupled bodies, rods and points
	m.x0 = { 20, 1, -6, 0, 0, 0, -22, -20, -8, 0, 0, 0 };
	double a[3] = { 0.4, -0.2, 3.2 }, l = sqrt(0.16 + 0.04 + 3.2 * 3.2);
	for (double v : { 30.0, -4.0, -2.1 })
		m.x0.push_back(v);
	for (double v : a)
		m.x0.push_back(0 * v / l);
	for (double v : { 38.0, 3.0, -4.0, 10.0, 4.0, -3.0 })
		m.x0.push_back(v);
	m.amp = 0.05;
	return m;
}

vector<LineInfo>
lineinfo(const Model& m)
{
	vector<LineInfo> o;
	for (auto& r : m.lines) {
		auto w = words(r);
		o.push_back({ w[2], w[3] });
	}
	return o;
}

Hist
run(Ctx& c, Sys& s, const Model& m, const string& tag, const dv& dts)
{
	c.req(s.create(m, c.dir, tag), "create", "system refused");
	c.req(s.init() == 0, "init", "system refused");
	auto li = lineinfo(m);
	Hist h;
	h.push_back(snap(c, s, li));
	for (double dt : dts) {
		c.req(s.step(dt) == 0, "step", "failed");
		h.push_back(snap(c, s, li));
		c.trans();
		c.state(s.obs());
	}
	return h;
}

/// a dry run to know the sizes
Hist
probe(Ctx& c, const Model& m)
{
	Sys s;
	return run(c, s, m, "probe", {});
}

string
spell(const string& n, int k)
{
	// 0 as documented in short form, 1 long, 2 lower, 3 long lower, 4 mixed
	string o = n;
	if (k == 1 || k == 3 || k == 4) {
		static const std::pair<char, const char*> L[] = { { 'L', "LINE" },
			                                              { 'P', "POINT" },
			                                              { 'R', "ROD" },
			                                              { 'B', "BODY" } };
		if (isdigit((unsigned char)n[1]))
			for (auto& l : L)
				if (n[0] == l.first)
					o = l.second + n.substr(1);
	}
	if (k == 2 || k == 3)
		for (auto& ch : o)
			ch = tolower(ch);
	if (k == 4)
		for (size_t i = 1; i < o.size(); i += 2)
			o[i] = tolower(o[i]);
	return o;
}

/// the outputs requested against the main file
void
check_main(Ctx& c,
           const string& path,
           const vector<Chan>& chans,
           const vector<string>& names,
           const Hist& h,
           const vector<int>& rows,
           bool units,
           bool euler)
{
	Table t = table(c, path, units);
	vector<string> head = { "Time" };
	for (auto& n : names)
		head.push_back(n);
	if (t.head != head) {
		string a;
		for (auto& w : t.head)
			a += w + " ";
		c.fail("header", "main file has the columns " + a.substr(0, 200));
	}
	c.req(t.rows.size() == rows.size(),
	      "rows",
	      sfmt("%zu rows instead of %zu", t.rows.size(), rows.size()));
	if (units)
		for (size_t i = 0; i < chans.size(); i++)
			c.req(t.units[i + 1] == chans[i].unit,
			      "units",
			      chans[i].name + " in " + t.units[i + 1]);
	for (size_t k = 0; k < rows.size(); k++) {
		double tt;
		c.req(number(t.rows[k][0], tt) && eq(tt, h[rows[k]].t, 1e-9),
		      "instant",
		      sfmt("row %zu is written at %s instead of %g",
		           k,
		           t.rows[k][0].c_str(),
		           h[rows[k]].t));
		for (size_t i = 0; i < chans.size(); i++) {
			if (chans[i].accel && (!euler || rows[k] == 0))
				continue;
			check(c,
			      t.rows[k][i + 1],
			      chans[i].val(h, rows[k]),
			      chans[i],
			      rows[k],
			      10.0);
		}
	}
}

vector<int>
allrows(const Hist& h)
{
	vector<int> r;
	for (size_t i = 0; i < h.size(); i++)
		r.push_back((int)i);
	return r;
}

/// all the channels at once in some order, for an integrator
void
all_case(Ctx& c, const string& scheme, int order, bool units, int spelling, bool many = false)
{
	Model m = many ? sys_many() : zoo();
	m.scheme(scheme);
	bool euler = scheme == "Euler";
	m.opt("dtM", euler && !many ? 0.01 : 0.004);
	m.opt("WriteUnits", units ? "1" : "0");
	auto chans = channels(m, probe(c, m));
	if (order == 1)
		std::reverse(chans.begin(), chans.end());
	if (order == 2) { // interleave
		vector<Chan> o;
		for (size_t s = 0; s < 7; s++)
			for (size_t i = s; i < chans.size(); i += 7)
				o.push_back(chans[i]);
		chans = o;
	}
	vector<string> names;
	for (size_t i = 0; i < chans.size(); i++)
		names.push_back(spell(chans[i].name, spelling < 0 ? (int)i % 5 : spelling));
	// one or several per row of the input file
	string row;
	for (size_t i = 0; i < names.size(); i++) {
		row += (row.empty() ? "" : " ") + names[i];
		if (order != 2 || i % 3 == 2 || i + 1 == names.size()) {
			m.outputs.push_back(row);
			row.clear();
		}
	}
	Sys s;
	Hist h = run(c, s, m, "a", dv(6, 0.01));
	string d = dirof(s.path);
	c.req(s.close() == 0, "close", "failed");
	check_main(c, d + "m.out", chans, names, h, allrows(h), units, euler);
	c.outcome(dv{ (double)chans.size() });
	c.trace();
}

/// one channel alone, and several times with its spellings
void
single_case(Ctx& c, int part, int parts)
{
	Model m = zoo();
	m.scheme("Euler");
	m.opt("dtM", 0.01);
	auto chans = channels(m, probe(c, m));
	for (size_t i = part; i < chans.size(); i += parts) {
		for (int twice = 0; twice < 2; twice++) {
			Model a = m;
			vector<Chan> cs;
			vector<string> names;
			for (int k = 0; k < (twice ? 5 : 1); k++) {
				cs.push_back(chans[i]);
				names.push_back(spell(chans[i].name, k));
			}
			a.outputs = names;
			Sys s;
			Hist h = run(c, s, a, "s", dv(2, 0.01));
			string d = dirof(s.path);
			c.req(s.close() == 0, "close", "failed");
			check_main(c, d + "m.out", cs, names, h, allrows(h), true, true);
		}
		c.trace();
	}
	c.outcome(dv{ (double)part });
}

/// invalid channels among valid ones
const vector<string> BAD = {
	"FAIRTEN12", "FAIRTEN0",  "FAIRTEN",   "ANCHTEN12", "ANCHTEN0",   "ANCHTEN",
	"L12PX",     "L0PX",      "LPX",       "L12N0PX",   "L12NAPX",    "L12NBPX",
	"L0NBPX",    "L1N4PX",    "L1N99FX",   "L3N2TEN",   "L12TENB",    "L99TEN",
	"P8PX",      "P0PX",      "PPX",       "P99TEN",    "P8VX",       "P100FX",
	"R8PX",      "R0PX",      "R8NBPX",    "R0NBPX",    "R1N4PX",     "R5N2FZ",
	"R99SUB",    "R8TENA",    "R0FX",      "B5PX",      "B0PX",       "B99RX",
	"B0FX",      "B5TEN",     "C1PX",      "Q1PX",      "L1QX",       "P1QX",
	"R1QX",      "B1QX",      "L1",        "P1",        "R1",         "B1",
	"1PX",       "X",         "L1N1",      "L1N1Q",     "R1N1",       "R1N1QX",
	"LINE12PX",  "POINT8PX",  "ROD8PX",    "BODY5PX",   "L1RX",       "P1RX",
	"P1MX",      "L1MX",      "L1SUB",     "P1SUB",     "B1SUB",      "R1RZ",
	"R1RVZ",     "R1RAZ",     "L1AX",      "P1TENA",    "B1TENB",     "R1N1AX",
	"L9999999999PX", "R1N9999999999PX", "L1N9999999999PX", "FAIRTEN9999999999",
};

void
bad_case(Ctx& c, const string& bad, int where)
{
	Model m = zoo();
	m.scheme("Euler");
	m.opt("dtM", 0.01);
	auto all = channels(m, probe(c, m));
	vector<Chan> chans;
	for (auto& a : all)
		if (a.name == "L1PX" || a.name == "P2VY" || a.name == "R3NBPZ" ||
		    a.name == "B1RX" || a.name == "FAIRTEN11" || a.name == "L1N3FX" ||
		    a.name == "P7PX" || a.name == "B4FX" || a.name == "R7TENB")
			chans.push_back(a);
	c.req(chans.size() == 9, "harness", "channels of the case");
	Model b = m;
	for (size_t i = 0; i <= chans.size(); i++) {
		if (i == (where == 0 ? 0 : where == 1 ? 4 : chans.size()))
			b.outputs.push_back(bad);
		if (i < chans.size())
			b.outputs.push_back(chans[i].name);
	}
	Sys s;
	bool made = s.create(b, c.dir, "b");
	c.trans();
	c.trace();
	c.outcome(dv{ (double)made });
	if (!made) // refused: nothing written as something else
		return;
	c.req(s.init() == 0, "init", "failed with the output " + bad);
	auto li = lineinfo(b);
	Hist h = { snap(c, s, li) };
	for (int k = 0; k < 3; k++) {
		c.req(s.step(0.01) == 0, "step", "failed with the output " + bad);
		h.push_back(snap(c, s, li));
		c.state(s.obs());
	}
	string d = dirof(s.path);
	c.req(s.close() == 0, "close", "failed");
	Table t = table(c, d + "m.out", true);
	size_t k = 0;
	for (size_t i = 1; i < t.head.size(); i++) {
		if (k < chans.size() && t.head[i] == chans[k].name) {
			for (size_t r = 0; r < t.rows.size(); r++)
				check(c, t.rows[r][i], chans[k].val(h, (int)r), chans[k], (int)r);
			k++;
		} else
			// if there is a column for it, then it has no data
			for (auto& r : t.rows) {
				double v;
				c.req(!number(r[i], v) || v == 0.0 || std::isnan(v),
				      "invented",
				      "the output " + bad + " is written with the value " + r[i]);
			}
	}
	c.req(k == chans.size(), "header", "valid outputs are lost with " + bad);
	c.req(t.rows.size() == h.size(), "rows", "rows are lost with " + bad);
}

/// output instants
void
period_case(Ctx& c, double dtout, int pattern, int steps)
{
	Model m = zoo();
	m.opt("dtM", 0.02);
	m.opt("dtOut", dtout);
	auto all = channels(m, probe(c, m));
	vector<Chan> chans;
	vector<string> names;
	for (auto& a : all)
		if (a.name == "L1N1PX" || a.name == "P2VY" || a.name == "R3NBPZ" ||
		    a.name == "B1RX" || a.name == "FAIRTEN11") {
			chans.push_back(a);
			names.push_back(a.name);
		}
	m.outputs = names;
	m.lines[0] = "1 rope 1 3 16.5 3 p";
	m.rods[0] = "1 bar Free 5 -8 -9 6 -9 -4 3 v";
	static const vector<dv> PAT = { { 0.1 },        { 0.02 },       { 0.05, 0.1 },
		                            { 0.025 },      { 0.03, 0.01 }, { 0.3 },
		                            { 0.1, 0.2, 0.05 } };
	dv dts;
	for (int i = 0; i < steps; i++)
		dts.push_back(PAT[pattern][i % PAT[pattern].size()]);
	Sys s;
	Hist h = run(c, s, m, "p", dts);
	string d = dirof(s.path);
	c.req(s.close() == 0, "close", "failed");
	// the instants: the start, and the end of each step where a multiple of the
	// period is reached
	vector<int> rows = { 0 };
	auto mult = [&](double t) { return floor(t / dtout + 1e-7); };
	double t = 0;
	for (int i = 0; i < steps; i++) {
		double t1 = t + dts[i];
		if (dtout <= 0 || mult(t1) > mult(t))
			rows.push_back(i + 1);
		t = t1;
	}
	check_main(c, d + "m.out", chans, names, h, rows, true, false);
	auto file = [&](const string& f, std::function<dv(const Snap&)> val) {
		Table q = table(c, d + f, true);
		c.req(q.rows.size() == rows.size(),
		      "rows",
		      sfmt("%zu rows instead of %zu in ", q.rows.size(), rows.size()) + f);
		for (size_t k = 0; k < rows.size(); k++) {
			dv v = val(h[rows[k]]);
			c.req(v.size() == q.head.size(), "columns", f);
			for (size_t i = 0; i < v.size(); i++) {
				double x;
				c.req(number(q.rows[k][i], x) && eq(x, v[i], 1e-9),
				      "file",
				      sfmt("%s row %zu column %zu is %s instead of %g",
				           f.c_str(),
				           k,
				           i,
				           q.rows[k][i].c_str(),
				           v[i]));
			}
		}
	};
	file("m_Line1.out", [](const Snap& s) {
		dv v = { s.t };
		for (auto& r : s.l[0].r)
			v.insert(v.end(), r.begin(), r.end());
		return v;
	});
	file("m_Rod1.out", [](const Snap& s) {
		dv v = { s.t };
		for (auto& r : s.r[0].v)
			v.insert(v.end(), r.begin(), r.end());
		return v;
	});
	for (int b = 0; b < 4; b++)
		file(sfmt("m_Body%d.out", b + 1), [=](const Snap& s) {
			dv v = { s.t };
			for (int j = 0; j < 6; j++)
				v.push_back(s.b[b].r[j] * (j < 3 ? 1 : DEG));
			return v;
		});
	c.outcome(dv{ (double)rows.size() });
	c.trace();
}

/// Output instants of short steps and late in the run, for a system which is
/// steady under any inner step
void
late_case(Ctx& c, double start, double dt, double dtout, int steps)
{
	Model m;
	m.name = "steady";
	base_options(m);
	m.linetypes = { "rope 0.1 12 2e5 800 0 1.1 1 0.05 0" };
	m.points = { "1 Fixed 0 0 -20 0 0 0 0", "2 Coupled 12 0 -5 0 0 0 0" };
	m.lines = { "1 rope 1 2 19 1 p" };
	m.x0 = { 12, 0, -5 };
	m.opt("tScheme", "Euler").opt("dtM", 10).opt("dtOut", dtout);
	m.outputs = { "P2PX", "FAIRTEN1" };
	Sys s;
	c.req(s.create(m, c.dir, "l"), "create", "system refused");
	s.x = m.x0;
	s.xd.assign(3, 0.0);
	s.f.assign(3, 0.0);
	c.req(MoorDyn_Init_NoIC(s.md, s.x.data(), s.xd.data()) == 0, "init", "system refused");
	auto mult = [&](double t) { return floor(t / dtout + 1e-7); };
	dv rows = { 0 }, xs = { 12 };
	if (start > 0) {
		c.req(s.raw_step(start) == 0, "step", "failed");
		if (dtout <= 0 || mult(start) > 0) {
			rows.push_back(start);
			xs.push_back(12);
		}
	}
	s.xd = { 0.01, 0, 0 };
	for (int i = 1; i <= steps; i++) {
		c.req(s.raw_step(dt) == 0, "step", "failed");
		s.x[0] += 0.01 * dt;
		c.trans();
		if (dtout <= 0 || mult(start + i * dt) > mult(start + (i - 1) * dt)) {
			rows.push_back(start + i * dt);
			xs.push_back(s.x[0]);
		}
	}
	string d = dirof(s.path);
	c.req(s.close() == 0, "close", "failed");
	for (bool main : { true, false }) {
		Table q = table(c, d + (main ? "m.out" : "m_Line1.out"), true);
		c.req(q.rows.size() == rows.size(), "rows",
		      sfmt("%zu rows instead of %zu in the %s file", q.rows.size(), rows.size(),
		           main ? "main" : "line"));
		for (size_t k = 0; k < rows.size(); k++) {
			double t, x;
			size_t col = main ? 1 : 4; // (the second node of the line)
			c.req(number(q.rows[k][0], t) && eq(t, rows[k], 1e-9), "time",
			      sfmt("row %zu is at %s instead of %.9g", k, q.rows[k][0].c_str(), rows[k]));
			c.req(number(q.rows[k][col], x) && eq(x, xs[k], 1e-9), "value",
			      sfmt("row %zu has %s instead of %.9g", k, q.rows[k][col].c_str(), xs[k]));
		}
	}
	c.outcome(dv{ (double)rows.size() });
	c.trace();
}

/// The files of lines: every subset of the outputs
void
lines_case(Ctx& c, int first, bool units, int N0, bool water)
{
	const string F = "pKvUDtcsdb"; // in the order of the columns
	Model m;
	m.name = "lines";
	base_options(m);
	m.scheme("Euler");
	m.opt("dtM", 0.01);
	m.opt("WriteUnits", units ? "2" : "0");
	m.linetypes = { "rope 0.1 12 2e5 800 900 1.1 1 0.05 0" };
	if (water)
		m.opt("WaveKin", "1");
	vector<string> flags;
	for (int i = 0; i < 16; i++) {
		int mask = first * 16 + i;
		string fl;
		// any order in the input file
		for (int b = 0; b < 10; b++) {
			int k = (b * 3 + i) % 10;
			if (mask >> k & 1)
				fl += F[k];
		}
		flags.push_back(fl);
		double y = i * 3;
		m.points.push_back(sfmt("%d Fixed 0 %g -30 0 0 0 0", 2 * i + 1, y));
		m.points.push_back(sfmt("%d Coupled 9 %g -18 0 0 0 0", 2 * i + 2, y));
		m.lines.push_back(sfmt("%d rope %d %d %g %d %s",
		                       i + 1,
		                       2 * i + 1,
		                       2 * i + 2,
		                       i % 2 ? 14.9 : 17.5,
		                       N0 + i % 3,
		                       fl.empty() ? "-" : fl.c_str()));
		for (double v : { 9.0, y, -18.0 })
			m.x0.push_back(v);
	}
	m.amp = 0.2;
	Sys s;
	c.req(s.create(m, c.dir, "l"), "create", "refused");
	c.req(s.init() == 0, "init", "refused");
	dv x00 = s.x, xd0 = s.xd;
	unsigned nk = 0;
	dv u, ud;
	if (water) {
		c.req(MoorDyn_ExternalWaveKinInit(s.md, &nk) == 0, "api", "external waves");
		for (unsigned i = 0; i < nk; i++) {
			u.push_back(0.1 + 0.001 * i);
			u.push_back(-0.2 + 0.002 * i);
			u.push_back(0.05 - 0.001 * i);
		}
		ud.assign(3 * nk, 0.0);
	}
	auto li = lineinfo(m);
	Hist h = { snap(c, s, li) };
	for (int k = 0; k < 4; k++) {
		if (water)
			c.req(MoorDyn_ExternalWaveKinSet(s.md, u.data(), ud.data(), s.t) == 0,
			      "api",
			      "external waves");
		// straight motions, so that the ends are where the last step left them
		for (size_t i = 0; i < s.x.size(); i++) {
			s.xd[i] = xd0[i];
			s.x[i] = x00[i] + xd0[i] * s.t;
		}
		c.req(s.raw_step(0.01) == 0, "step", "failed");
		h.push_back(snap(c, s, li));
		c.trans();
		c.state(s.obs());
	}
	string d = dirof(s.path);
	c.req(s.close() == 0, "close", "failed");
	unsigned node0 = 0;
	for (int i = 0; i < 16; i++) {
		const string& fl = flags[i];
		string f = sfmt("m_Line%d.out", i + 1);
		unsigned N = (unsigned)h[0].l[i].r.size() - 1;
		unsigned n0 = node0;
		node0 += N + 1;
		if (fl.empty()) {
			string x;
			c.req(!read_file(d + f, x), "unasked", f + " has not been requested");
			continue;
		}
		Table t = table(c, d + f, units);
		vector<string> head = { "Time" }, un = { "(s)" };
		for (char o : F) {
			if (fl.find(o) == string::npos)
				continue;
			if (o == 't' || o == 's' || o == 'd')
				for (unsigned k = 1; k <= N; k++) {
					head.push_back(sfmt("Seg%u%s", k, o == 't' ? "Te" : o == 's' ? "St" : "dSt"));
					un.push_back(o == 't' ? "(N)" : o == 's' ? "(-)" : "(1/s)");
				}
			else if (o == 'K')
				for (unsigned k = 0; k <= N; k++) {
					head.push_back(sfmt("Node%uKu", k));
					un.push_back("(1/m)");
				}
			else if (o == 'c')
				for (unsigned k = 1; k <= N; k++)
					for (char j : string("xyz")) {
						head.push_back(sfmt("Seg%uc%c", k, j));
						un.push_back("(N)");
					}
			else
				for (unsigned k = 0; k <= N; k++)
					for (char j : string("xyz")) {
						head.push_back(sfmt("Node%u%c%c", k, o, j));
						un.push_back(o == 'p'   ? "(m)"
						             : o == 'v' ? "(m/s)"
						             : o == 'U' ? "(m/s)"
						                        : "(N)");
					}
		}
		if (t.head != head) {
			string a;
			for (auto& w : t.head)
				a += w + " ";
			c.fail("header", "outputs " + fl + ": " + a.substr(0, 300));
		}
		(void)un;
		c.req(t.rows.size() == h.size(), "rows", f);
		for (size_t k = 0; k < h.size(); k++) {
			// the last evaluation of the loads is the one at the start of the step
			vector<const Snap*> when = { &h[k] };
			if (k)
				when.push_back(&h[k - 1]);
			const ObjL& now = h[k].l[i];
			size_t col = 0;
			auto cell = [&](const dv& v, char o) {
				double x;
				const string& s = t.rows[k][col];
				bool ok = number(s, x), any = false;
				for (double e : v)
					any |= ok && eq(x, e, 2e-8 * (1 + std::fabs(e)));
				// the loads have not been evaluated yet at the initial row
				if (!any && !(k == 0 && ok && string("tscd").find(o) != string::npos))
					c.fail(string("file/") + o,
					       sfmt("outputs %s: %s at row %zu is %s instead of %.9g",
					            fl.c_str(),
					            head[col].c_str(),
					            k,
					            s.c_str(),
					            v[0]));
				col++;
			};
			cell({ h[k].t }, 'T');
			for (char o : F) {
				if (fl.find(o) == string::npos)
					continue;
				for (unsigned n = 0; n <= N; n++)
					switch (o) {
						case 'p':
							for (int j = 0; j < 3; j++)
								cell({ now.r[n][j] }, o);
							break;
						case 'v':
							for (int j = 0; j < 3; j++)
								cell({ now.v[n][j] }, o);
							break;
						case 'K':
							cell({ now.curv[n] }, o);
							break;
						case 'b':
							for (int j = 0; j < 3; j++)
								cell({ now.bed[n][j] }, o);
							break;
						case 'D':
							for (int j = 0; j < 3; j++)
								cell({ now.drag[n][j] + now.fk[n][j] }, o);
							break;
						case 'U':
							for (int j = 0; j < 3; j++)
								cell({ water && k ? u[3 * (n0 + n) + j] : 0.0 }, o);
							break;
						case 't':
						case 's':
						case 'd':
						case 'c': {
							if (n == N)
								break;
							dv v[3];
							for (auto* w : when) {
								auto& q = w->l[i];
								V3 dr, dvv;
								double L = 0, ld = 0, l0 = q.ul / N;
								for (int j = 0; j < 3; j++) {
									dr[j] = q.r[n + 1][j] - q.r[n][j];
									dvv[j] = q.v[n + 1][j] - q.v[n][j];
								}
								L = norm(dr);
								for (int j = 0; j < 3; j++)
									ld += dr[j] * dvv[j] / L;
								if (o == 't')
									v[0].push_back(std::max(0.0, q.EA * (L / l0 - 1)));
								if (o == 's')
									v[0].push_back(L / l0 - 1);
								if (o == 'd')
									v[0].push_back(ld / l0);
								if (o == 'c')
									for (int j = 0; j < 3; j++)
										v[j].push_back(800 * ld / l0 * dr[j] / L);
							}
							cell(v[0], o);
							if (o == 'c') {
								cell(v[1], o);
								cell(v[2], o);
							}
							break;
						}
					}
			}
		}
	}
	c.outcome(dv{ (double)first });
	c.trace();
}

/// The files of rods
void
rods_case(Ctx& c, int mask, bool units, bool rot)
{
	const string F = "pvf";
	string fl;
	for (int k = 0; k < 3; k++) {
		int q = rot ? 2 - k : k;
		if (mask >> q & 1)
			fl += F[q];
	}
	Model m = zoo();
	m.scheme("Euler");
	m.opt("dtM", 0.01);
	m.opt("WriteUnits", units ? "1" : "0");
	// the forces at the nodes are also available as channels
	auto h0 = probe(c, m);
	for (size_t i = 0; i < m.rods.size(); i++) {
		// every other rod writes nothing
		if ((int)(i % 2) == (int)rot)
			m.rods[i].back() = fl.empty() ? '-' : ' ', m.rods[i] += fl;
		for (size_t k = 0; k < h0[0].r[i].r.size(); k++)
			for (int j = 0; j < 3; j++)
				m.outputs.push_back(sfmt("R%zuN%zuF%c", i + 1, k, XYZ[j]));
	}
	Sys s;
	Hist h = run(c, s, m, "r", dv(4, 0.01));
	string d = dirof(s.path);
	c.req(s.close() == 0, "close", "failed");
	Table mt = table(c, d + "m.out", units);
	c.req(mt.rows.size() == h.size(), "rows", "main file");
	c.req(mt.head.size() == m.outputs.size() + 1, "header", "main file");
	size_t base = 1;
	for (size_t i = 0; i < m.rods.size(); i++) {
		size_t N = h[0].r[i].r.size() - 1;
		string f = sfmt("m_Rod%zu.out", i + 1);
		size_t b0 = base;
		base += 3 * (N + 1);
		if ((int)(i % 2) != (int)rot || fl.empty()) {
			string x;
			c.req(!read_file(d + f, x), "unasked", f + " has not been requested");
			continue;
		}
		Table t = table(c, d + f, units);
		vector<string> head = { "Time" };
		for (char o : F)
			if (fl.find(o) != string::npos)
				for (size_t k = 0; k <= N; k++)
					for (char j : string("xyz"))
						head.push_back(sfmt("Node%zu%c%c", k, o == 'f' ? 'F' : o, j));
		if (t.head != head) {
			string a;
			for (auto& w : t.head)
				a += w + " ";
			c.fail("header", "outputs " + fl + ": " + a.substr(0, 300));
		}
		c.req(t.rows.size() == h.size(), "rows", f);
		for (size_t k = 0; k < h.size(); k++) {
			dv v = { h[k].t };
			for (char o : F) {
				if (fl.find(o) == string::npos)
					continue;
				for (size_t n = 0; n <= N; n++)
					for (int j = 0; j < 3; j++) {
						double x = 0;
						if (o == 'f')
							c.req(number(mt.rows[k][b0 + 3 * n + j], x), "number", "force");
						v.push_back(o == 'p'   ? h[k].r[i].r[n][j]
						            : o == 'v' ? h[k].r[i].v[n][j]
						                       : x);
					}
			}
			for (size_t q = 0; q < v.size(); q++) {
				double x;
				c.req(number(t.rows[k][q], x) && eq(x, v[q], 1e-9),
				      "file",
				      sfmt("%s: %s at row %zu is %s instead of %.9g",
				           f.c_str(),
				           head[q].c_str(),
				           k,
				           t.rows[k][q].c_str(),
				           v[q]));
			}
		}
	}
	c.outcome(dv{ (double)mask });
	c.trace();
}

/// names of the files, and systems in the same folder
void
names_case(Ctx& c, const string& sub, const string& file, const string& base)
{
	Model m = zoo();
	m.outputs = { "L1PX", "FAIRTEN2" };
	m.lines[2] = "3 chain 1 4 21 1 pt";
	m.rods[1].back() = 'p';
	string d = c.dir + "/" + sub;
	for (size_t i = c.dir.size() + 1; (i = d.find('/', i)) != string::npos; i++)
		mkdir(d.substr(0, i).c_str(), 0700);
	mkdir(d.c_str(), 0700);
	if (d.back() != '/')
		d += '/';
	for (int again = 0; again < 2; again++) { // overwritten the second time
		write_file(d + file, m.text());
		Sys s;
		s.m = &m;
		s.md = MoorDyn_Create((d + file).c_str());
		c.req(s.md, "create", "refused");
		c.req(s.init() == 0, "init", "refused");
		auto li = lineinfo(m);
		Hist h = { snap(c, s, li) };
		for (int k = 0; k < 3 - again; k++) {
			c.req(s.step(0.01) == 0, "step", "failed");
			h.push_back(snap(c, s, li));
			c.trans();
			c.state(s.obs());
		}
		c.req(s.close() == 0, "close", "failed");
		for (auto& f : { string(""), string("_Line3"), string("_Rod2"), string("_Body1"),
			             string("_Body2"), string("_Body3"), string("_Body4") }) {
			Table t = table(c, d + base + f + ".out", true);
			c.req(t.rows.size() == h.size(), "rows", base + f);
			for (size_t k = 0; k < h.size(); k++) {
				double x;
				c.req(number(t.rows[k][0], x) && eq(x, h[k].t, 1e-9), "instant", base + f);
			}
		}
		string x;
		for (auto& f : { string("_Line1"), string("_Line2"), string("_Rod1") })
			c.req(!read_file(d + base + f + ".out", x), "unasked", f);
	}
	c.outcome(dv{ (double)file.size() });
	c.trace();
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool deep = tier == "thorough";
	vector<string> schemes = { "Euler", "RK2", "RK4" };
	if (deep)
		schemes = { "Euler", "Heun", "RK2", "RK4", "AB2", "AB4", "LEuler",
			        "BEuler5", "Midpoint5", "ACA5" };
	for (auto& sc : schemes)
		for (int o = 0; o < 3; o++)
			for (int u = 0; u < 2; u++)
				for (int sp = -1; sp < 5; sp++) {
					if (!deep && sc != "Euler" && (sp != (o + u) % 5))
						continue;
					cases.push_back({ sfmt("all/%s/%d/%d/%d", sc.c_str(), o, u, sp + 1),
					                  [=](Ctx& c) { all_case(c, sc, o, u, sp); } });
				}
	for (int o = 0; o < 3; o++)
		for (int sp = -1; sp < 5; sp++)
			cases.push_back({ sfmt("many/%d/%d", o, sp + 1),
			                  [=](Ctx& c) { all_case(c, "RK2", o, true, sp, true); } });
	for (int p = 0; p < 64; p++)
		cases.push_back({ sfmt("single/%02d", p), [=](Ctx& c) { single_case(c, p, 64); } });
	for (auto& b : BAD)
		for (int w = 0; w < 3; w++)
			cases.push_back({ sfmt("bad/%s/%d", b.c_str(), w), [=](Ctx& c) { bad_case(c, b, w); } });
	for (double d : { 0.0, 0.02, 0.03, 0.04, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.5, 1.0, 7.0 })
		for (int p = 0; p < 7; p++)
			cases.push_back({ sfmt("period/%g/%d", d, p),
			                  [=](Ctx& c) { period_case(c, d, p, deep ? 120 : 24); } });
	for (double t0 : { 0.0, 40.0, 1003.0, 54000.0 })
		for (double dt : { 0.0004, 0.01, 0.125, 0.7 })
			for (double d : { 0.0, 0.25, 0.5, 1.0, 7.0 }) {
				int n = dt < 0.001 ? (d > 0 && d < 0.9 ? 1400 : 20) : 150;
				cases.push_back({ sfmt("late/%g/%g/%g", t0, dt, d),
				                  [=](Ctx& c) { late_case(c, t0, dt, d, n); } });
			}
	for (int f = 0; f < 64; f++)
		for (int u = 0; u < 2; u++)
			for (int N = 1; N < 3; N++)
				for (int w = 0; w < 2; w++) {
					if (!deep && (f + u + N + w) % 4)
						continue;
					cases.push_back({ sfmt("lines/%02d/%d/%d/%d", f, u, N, w),
					                  [=](Ctx& c) { lines_case(c, f, u, N, w); } });
				}
	for (int k = 0; k < 8; k++)
		for (int u = 0; u < 2; u++)
			for (int r = 0; r < 2; r++)
				cases.push_back(
				    { sfmt("rods/%d/%d/%d", k, u, r), [=](Ctx& c) { rods_case(c, k, u, r); } });
	for (auto& n : vector<std::array<string, 3>>{ { "x", "lines.txt", "lines" },
	                                              { "x", "a.b.c.dat", "a.b.c" },
	                                              { "x/y/z", "m", "m" },
	                                              { "x.y/z", "m.inp", "m" },
	                                              { "x_Line1", "m_Line2.txt", "m_Line2" },
	                                              { "with space", "my model.txt", "my model" } })
		cases.push_back({ "names/" + n[0] + "/" + n[1],
		                  [=](Ctx& c) { names_case(c, n[0], n[1], n[2]); } });
}
