// C17: the seafloor is the bilinear surface of the given depths
#define VF_MAIN
#include "md.hpp"
#include "Seafloor.h"
using namespace vf;

namespace {

struct Grid
{
	dv px, py;
	vector<dv> z; // [ix][iy]
	string text(int order) const
	{
		string o = sfmt("%zu %zu\n", px.size(), py.size());
		for (auto v : px)
			o += sfmt("%g ", v);
		o += "\n";
		for (auto v : py)
			o += sfmt("%g ", v);
		o += "\n";
		vector<string> rows;
		for (size_t i = 0; i < px.size(); i++)
			for (size_t j = 0; j < py.size(); j++)
				rows.push_back(sfmt("%g %g %g\n", px[i], py[j], z[i][j]));
		if (order == 1)
			std::reverse(rows.begin(), rows.end());
		else if (order == 2) // y-major
		{
			rows.clear();
			for (size_t j = 0; j < py.size(); j++)
				for (size_t i = 0; i < px.size(); i++)
					rows.push_back(sfmt("%g %g %g\n", px[i], py[j], z[i][j]));
		}
		for (auto& r : rows)
			o += r;
		return o;
	}
	static void loc(const dv& p, double x, size_t& i, double& f)
	{
		f = 0;
		i = 0;
		if (p.size() == 1 || x <= p[0])
			return;
		if (x >= p.back()) {
			i = p.size() - 2;
			f = 1;
			return;
		}
		while (x > p[i + 1])
			i++;
		f = (x - p[i]) / (p[i + 1] - p[i]);
	}
	double depth(double x, double y) const
	{
		size_t i, j;
		double f, g;
		loc(px, x, i, f);
		loc(py, y, j, g);
		size_t i1 = std::min(i + 1, px.size() - 1),
		       j1 = std::min(j + 1, py.size() - 1);
		return (1 - f) * (1 - g) * z[i][j] + f * (1 - g) * z[i1][j] +
		       (1 - f) * g * z[i][j1] + f * g * z[i1][j1];
	}
};

/// relative paths are relative to the working directory
void
bathy(Ctx& c, Model& m, const string& txt)
{
	string p = c.dir + "/bathy.txt";
	write_file(p, txt);
	m.opt("SeafloorFile", p);
}

Model
shallow(Ctx& c, const Grid& g, int order)
{
	Model m;
	m.name = "bathy";
	m.linetypes = { LT_CHAIN };
	m.points = { "1 Fixed 0 0 -2 0 0 0 0", "2 Coupled 3 0 -3 0 0 0 0" };
	m.lines = { "1 chain 1 2 3.3 2 -" };
	m.x0 = { 3, 0, -3 };
	base_options(m);
	bathy(c, m, g.text(order));
	return m;
}

void
grid_case(Ctx& c, const Grid& g, int order)
{
	Model m = shallow(c, g, order);
	Sys s;
	c.req(s.create(m, c.dir), "create", "the bathymetry file is refused");
	auto sf = MoorDyn_GetSeafloor(s.md);
	c.req(sf != NULL, "seafloor", "no seafloor with a bathymetry file");
	auto sample = [&](const dv& p) {
		dv o = { p[0] - 1e3, p[0] - 1.0, p.back() + 1.0, p.back() + 1e3 };
		for (size_t i = 0; i < p.size(); i++) {
			o.push_back(p[i]);
			if (i + 1 < p.size())
				for (double f : { 0.125, 0.5, 0.8 })
					o.push_back(p[i] + f * (p[i + 1] - p[i]));
		}
		return o;
	};
	dv xs = sample(g.px), ys = sample(g.py);
	auto query = [&](const char* when) {
		double sum = 0, mx = -1e30;
		for (auto& r : g.z)
			for (auto v : r) {
				sum += v;
				mx = std::max(mx, v);
			}
		double v;
		c.req(MoorDyn_GetAverageDepth(sf, &v) == 0, "error", "average");
		c.near(v,
		       sum / (double)(g.px.size() * g.py.size()),
		       1e-6,
		       0,
		       "average",
		       string("average depth ") + when);
		c.req(MoorDyn_GetMinDepth(sf, &v) == 0, "error", "min");
		c.near(v, mx, 1e-6, 0, "min", string("minimum depth ") + when);
		for (auto x : xs)
			for (auto y : ys) {
				c.req(MoorDyn_GetDepthAt(sf, x, y, &v) == 0, "error", "depth");
				c.near(v,
				       g.depth(x, y),
				       1e-6,
				       0,
				       "depth",
				       sfmt("depth at (%g, %g) %s", x, y, when));
				c.state({ x, y, v });
			}
	};
	query("after creation");
	c.req(s.init() == 0, "init", "Init fails");
	query("after initialisation");
	c.req(s.step(0.02) == 0, "step", "Step fails");
	query("after a step");
	c.trans(3);
	c.trace();
}

/// Lines lying across a bathymetry: contact forces at the local depth
void
contact_case(Ctx& c, const Grid& g, double angle, double low)
{
	Model m;
	m.name = "contact";
	m.linetypes = { LT_CHAIN };
	double ca = cos(angle), sa = sin(angle), r = 9.0;
	double xa = -r * ca, ya = -r * sa, xb = r * ca, yb = r * sa;
	double za = g.depth(xa, ya) + low, zb = g.depth(xb, yb) + low;
	m.points = { sfmt("1 Coupled %.10g %.10g %.10g 0 0 0 0", xa, ya, za),
		         sfmt("2 Coupled %.10g %.10g %.10g 0 0 0 0", xb, yb, zb) };
	double len = 1.04 * sqrt(4 * r * r + (zb - za) * (zb - za));
	m.lines = { sfmt("1 chain 1 2 %.10g 6 -", len) };
	m.x0 = { xa, ya, za, xb, yb, zb };
	base_options(m);
	m.opt("tScheme", "euler").opt("dtM", 0.002);
	bathy(c, m, g.text(0));
	Sys s;
	c.req(s.create(m, c.dir), "create", "Create fails");
	c.req(s.init() == 0, "init", "Init fails");
	auto l = MoorDyn_GetLine(s.md, 1);
	const double kb = 3.0e4, cb = 3.0e3, d = 0.12, mu = 0.2;
	unsigned touching = 0;
	dv x = m.x0, xd = { 0.3, 0.1, -0.8, -0.2, 0.15, -0.7 };
	unsigned steps = c.thorough() ? 400 : 120;
	for (unsigned k = 0; k < steps; k++) {
		vector<dv> p(7, dv(3)), v(7, dv(3));
		for (unsigned i = 0; i <= 6; i++) {
			MoorDyn_GetLineNodePos(l, i, p[i].data());
			MoorDyn_GetLineNodeVel(l, i, v[i].data());
		}
		s.x = x;
		s.xd = xd;
		c.req(s.raw_step(0.002) == 0, "step", "Step fails");
		for (size_t i = 0; i < 6; i++)
			x[i] += 0.002 * xd[i];
		// The ends are moved to the new velocity before the loads are
		// evaluated, so just the internal nodes are compared
		for (unsigned i = 1; i < 6; i++) {
			double f[3];
			c.req(MoorDyn_GetLineNodeSeabedForce(l, i, f) == 0, "error", "B");
			double h = g.depth(p[i][0], p[i][1]) - p[i][2];
			double area = d * len / 6.0;
			double ez = h > 0 ? (h * kb - v[i][2] * cb) * area : 0.0;
			c.near(f[2],
			       ez,
			       1e-6,
			       1e-3,
			       "contact",
			       sfmt("seabed force at node %u step %u, penetration %g",
			            i,
			            k,
			            h));
			double vh = hypot(v[i][0], v[i][1]);
			double ff = vh * mu * 200.0, fm = fabs(ez) * mu;
			if (ff > fm)
				ff = fm;
			double ex = 0, ey = 0;
			if (vh > 0 && h > 0) {
				ex = -ff * v[i][0] / vh;
				ey = -ff * v[i][1] / vh;
			}
			c.near(f[0], ex, 1e-5, 1e-3, "friction", sfmt("node %u step %u", i, k));
			c.near(f[1], ey, 1e-5, 1e-3, "friction", sfmt("node %u step %u", i, k));
			if (h > 0)
				touching++;
		}
		c.trans();
		c.state(p[3]);
	}
	c.outcome(dv{ (double)touching });
	c.trace();
}

/// a flat bathymetry is the same as the option
void
flat_case(Ctx& c, const Model& m0, int kind)
{
	Model a = m0;
	// (without file, a point below the water depth makes it deeper)
	for (auto& p : a.points) {
		size_t k = p.find("-30.2");
		if (k != string::npos)
			p.replace(k, 5, "-30.0");
	}
	Model b = a;
	Grid g;
	if (kind == 0) {
		g.px = { -5 };
		g.py = { 3 };
	} else if (kind == 1) {
		g.px = { -100, 100 };
		g.py = { -100, 100 };
	} else {
		g.px = { -12, 1, 7 };
		g.py = { -3, 4 };
	}
	g.z.assign(g.px.size(), dv(g.py.size(), -30.0));
	bathy(c, b, g.text(kind));
	if (kind == 2)
		b.opt("WtrDpth", 200.0); // the file prevails
	Sys s, q;
	c.req(s.create(a, c.dir, "a"), "create", "Create fails");
	c.req(q.create(b, c.dir, "b"), "create", "Create fails with a flat file");
	c.req(MoorDyn_GetSeafloor(s.md) == NULL,
	      "seafloor",
	      "a seafloor without bathymetry file");
	c.req(s.init() == 0, "init", "Init fails");
	c.req(q.init() == 0, "init", "Init fails with a flat file");
	c.near(q.obs(), s.obs(), 1e-9, 1e-7, "flat", "initial state");
	for (unsigned i = 0; i < (c.thorough() ? 40u : 10u); i++) {
		c.req(s.step(0.02) == 0, "step", "Step fails");
		c.req(q.step(0.02) == 0, "step", "Step fails with a flat file");
		c.near(q.obs(), s.obs(), 1e-7, 1e-5, "flat", sfmt("step %u", i));
		c.near(
		    q.forces(), s.forces(), 1e-7, 1e-5, "flat", sfmt("forces %u", i));
		c.trans();
		c.state(q.obs());
	}
	c.trace();
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	// tick sets per size
	vector<vector<dv>> ticks(5);
	ticks[1] = { { 2 } };
	ticks[2] = { { -10, 10 }, { 1, 4 } };
	ticks[3] = { { -10, 0, 10 }, { -7, -5, 30 } };
	ticks[4] = { { -9, -8, 1, 20 } };
	dv alpha3 = { -20, -35.5, -50 };
	vector<std::pair<int, int>> sizes = { { 1, 1 }, { 1, 2 }, { 2, 1 },
		                                  { 2, 2 }, { 1, 3 }, { 3, 1 },
		                                  { 2, 3 }, { 3, 2 }, { 3, 3 } };
	if (th) {
		sizes.push_back({ 4, 2 });
		sizes.push_back({ 2, 4 });
		sizes.push_back({ 4, 3 });
	}
	for (auto& sz : sizes) {
		int n = sz.first * sz.second;
		int base = n <= 6 ? 3 : 2;
		long total = 1;
		for (int i = 0; i < n; i++)
			total *= base;
		for (size_t ti = 0; ti < ticks[sz.first].size(); ti++)
			for (size_t tj = 0; tj < ticks[sz.second].size(); tj++) {
				if (n > 6 && !th && ti != tj)
					continue;
				for (long k = 0; k < total; k++) {
					Grid g;
					g.px = ticks[sz.first][ti];
					g.py = ticks[sz.second][tj];
					g.z.assign(sz.first, dv(sz.second));
					long q = k;
					for (int i = 0; i < sz.first; i++)
						for (int j = 0; j < sz.second; j++) {
							g.z[i][j] = alpha3[(q % base) * (base == 2 ? 2 : 1)];
							q /= base;
						}
					int order = (int)(k % 3);
					cases.push_back({ sfmt("grid/%dx%d/t%zu%zu/%ld",
					                       sz.first,
					                       sz.second,
					                       ti,
					                       tj,
					                       k),
						              [g, order](Ctx& c) {
						                  grid_case(c, g, order);
						              } });
				}
			}
	}
	// large grids
	for (int k = 0; k < 24; k++) {
		static const int SZ[][2] = { { 14, 12 }, { 12, 1 }, { 1, 13 }, { 25, 2 }, { 3, 31 }, { 11, 40 } };
		auto& z = SZ[k % 6];
		Grid g;
		for (int i = 0; i < z[0]; i++)
			g.px.push_back(-40 + 5 * i + (i * k % 3));
		for (int j = 0; j < z[1]; j++)
			g.py.push_back(-60 + 7 * j - (j * k % 4));
		g.z.assign(z[0], dv(z[1]));
		for (int i = 0; i < z[0]; i++)
			for (int j = 0; j < z[1]; j++)
				g.z[i][j] = -20 - (7 * i + 13 * j + 5 * i * j * k) % 61 * 0.5;
		int order = k / 6 % 3;
		cases.push_back({ sfmt("large/%dx%d/%d", z[0], z[1], k),
			              [g, order](Ctx& c) { grid_case(c, g, order); } });
	}
	// contact over slopes
	Grid s1;
	s1.px = { -6, 0, 8 };
	s1.py = { -7, 1, 9 };
	for (int k = 0; k < 27; k++) {
		double a = (k % 3 - 1) * 1.5, b = (k / 3 % 3 - 1) * 1.0,
		       e = (k / 9 - 1) * 1.2;
		Grid g = s1;
		g.z.assign(3, dv(3));
		for (int i = 0; i < 3; i++)
			for (int j = 0; j < 3; j++)
				g.z[i][j] = -30 + a * (i - 1) + b * (j - 1) +
				            ((i == 1 && j == 1) ? e : 0.0);
		// depths are read in single precision
		for (auto& r : g.z)
			for (auto& v : r)
				v = (double)(float)v;
		for (int an = 0; an < 4; an++)
			for (double low : { 0.05, 0.6, 3.0 })
				cases.push_back({ sfmt("contact/%d/a%d/%g", k, an, low),
					              [g, an, low](Ctx& c) {
						              contact_case(c, g, an * M_PI / 5, low);
					              } });
	}
	for (auto& m : all_systems())
		for (auto sch : th ? all_schemes()
		                   : vector<string>{ "rk2", "euler", "aca4" })
			for (int k = 0; k < 3; k++) {
				Model q = m;
				q.scheme(sch);
				cases.push_back({ sfmt("flat/%s/%s/%d",
				                       m.name.c_str(),
				                       sch.c_str(),
				                       k),
					              [q, k](Ctx& c) { flat_case(c, q, k); } });
			}
}
