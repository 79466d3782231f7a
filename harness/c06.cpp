// C06: attachments. Invariants evaluated at every instant of every run: line
// ends on their points or rod ends, rigid motion of whatever is attached to a
// body, straight evenly spaced rods of constant length, immobile anchors, and
// the attachment queries.
#define VF_MAIN
#include "md.hpp"
using namespace vf;

static void
must(int e, const char* what)
{
	if (e != MOORDYN_SUCCESS)
		throw Violation{ "api-error", sfmt("%s returned %d", what, e) };
}

static vector<string>
tok(const string& s)
{
	std::istringstream i(s);
	vector<string> o;
	string t;
	while (i >> t)
		o.push_back(t);
	return o;
}
static string
up(string s)
{
	for (auto& c : s)
		c = toupper(c);
	return s;
}
/// body number of an attachment keyword, 0 if none
static int
body_of(const string& a)
{
	string u = up(a);
	if (u.compare(0, 4, "BODY") == 0)
		return atoi(u.c_str() + 4);
	return 0;
}
struct End
{
	bool rod = false;
	int id = 0;
	bool b = false; // rod end B
};
static End
end_of(const string& a)
{
	End e;
	string u = up(a);
	if (u[0] == 'R') {
		e.rod = true;
		e.id = atoi(u.c_str() + 1);
		e.b = u.back() == 'B';
	} else {
		e.id = atoi(u.c_str());
	}
	return e;
}

typedef double V3[3];
static void
rotm(const double* a, double R[3][3])
{
	double cx = cos(a[0]), sx = sin(a[0]), cy = cos(a[1]), sy = sin(a[1]),
	       cz = cos(a[2]), sz = sin(a[2]);
	// X(a0) Y(a1) Z(a2)
	double Y[3][3] = { { cy, 0, sy }, { 0, 1, 0 }, { -sy, 0, cy } };
	double Z[3][3] = { { cz, -sz, 0 }, { sz, cz, 0 }, { 0, 0, 1 } };
	double X[3][3] = { { 1, 0, 0 }, { 0, cx, -sx }, { 0, sx, cx } };
	double T[3][3];
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			T[i][j] = 0;
			for (int k = 0; k < 3; k++)
				T[i][j] += X[i][k] * Y[k][j];
		}
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			R[i][j] = 0;
			for (int k = 0; k < 3; k++)
				R[i][j] += T[i][k] * Z[k][j];
		}
}

struct Kin
{
	V3 p, v;
};

static Kin
rod_node(Sys& s, int id, unsigned j)
{
	Kin k;
	auto h = MoorDyn_GetRod(s.md, id);
	must(MoorDyn_GetRodNodePos(h, j, k.p), "GetRodNodePos");
	must(MoorDyn_GetRodNodeVel(h, j, k.v), "GetRodNodeVel");
	return k;
}
static unsigned
rod_n(Sys& s, int id)
{
	unsigned n;
	must(MoorDyn_GetRodNumberNodes(MoorDyn_GetRod(s.md, id), &n), "GetRodNumberNodes");
	return n;
}
static Kin
point(Sys& s, int id)
{
	Kin k;
	auto h = MoorDyn_GetPoint(s.md, id);
	must(MoorDyn_GetPointPos(h, k.p), "GetPointPos");
	must(MoorDyn_GetPointVel(h, k.v), "GetPointVel");
	return k;
}
static void
rigid(const double* r6, const double* v6, const double* rel, Kin& k)
{
	double R[3][3], e[3];
	rotm(r6 + 3, R);
	for (int i = 0; i < 3; i++) {
		e[i] = R[i][0] * rel[0] + R[i][1] * rel[1] + R[i][2] * rel[2];
		k.p[i] = r6[i] + e[i];
	}
	const double* w = v6 + 3;
	k.v[0] = v6[0] + w[1] * e[2] - w[2] * e[1];
	k.v[1] = v6[1] + w[2] * e[0] - w[0] * e[2];
	k.v[2] = v6[2] + w[0] * e[1] - w[1] * e[0];
}
static dv
P(const Kin& k)
{
	return dv(k.p, k.p + 3);
}
static dv
V(const Kin& k)
{
	return dv(k.v, k.v + 3);
}

static const double TP = 1e-8, TV = 1e-7;

static void
invariants(Ctx& c, Sys& s, const Model& m, const string& when)
{
	// lines
	for (size_t i = 0; i < m.lines.size(); i++) {
		auto t = tok(m.lines[i]);
		auto h = MoorDyn_GetLine(s.md, i + 1);
		unsigned n;
		must(MoorDyn_GetLineN(h, &n), "GetLineN");
		c.req((int)n == atoi(t[5].c_str()), "segments", sfmt("%s line %zu has %u segments", when.c_str(), i + 1, n));
		for (int e = 0; e < 2; e++) {
			End en = end_of(t[2 + e]);
			Kin a;
			if (en.rod)
				a = rod_node(s, en.id, en.b ? rod_n(s, en.id) - 1 : 0);
			else
				a = point(s, en.id);
			Kin b;
			must(MoorDyn_GetLineNodePos(h, e ? n : 0, b.p), "GetLineNodePos");
			must(MoorDyn_GetLineNodeVel(h, e ? n : 0, b.v), "GetLineNodeVel");
			string w = sfmt("%s line %zu end %c on %s", when.c_str(), i + 1, e ? 'B' : 'A', t[2 + e].c_str());
			c.near(P(b), P(a), 0, TP, "line-end", w + " position");
			c.near(V(b), V(a), 0, TV, "line-end", w + " velocity");
		}
	}
	// bodies
	vector<dv> br, bv;
	for (size_t i = 0; i < m.bodies.size(); i++) {
		double r[6], v[6];
		must(MoorDyn_GetBodyState(MoorDyn_GetBody(s.md, i + 1), r, v), "GetBodyState");
		br.push_back(dv(r, r + 6));
		bv.push_back(dv(v, v + 6));
		auto t = tok(m.bodies[i]);
		if (up(t[1]) == "FIXED") {
			Kin k{ { r[0], r[1], r[2] }, { v[0], v[1], v[2] } };
			dv x = { atof(t[2].c_str()), atof(t[3].c_str()), atof(t[4].c_str()) };
			c.near(P(k), x, 0, 1e-12, "fixed-body", when + " fixed body position");
			c.near(dv(v, v + 6), dv(6, 0.0), 0, 0, "fixed-body", when + " fixed body velocity");
			double want[3] = { atof(t[5].c_str()) * M_PI / 180, atof(t[6].c_str()) * M_PI / 180, atof(t[7].c_str()) * M_PI / 180 };
			double R1[3][3], R2[3][3];
			rotm(want, R1);
			rotm(r + 3, R2);
			for (int a = 0; a < 3; a++)
				c.near(dv(R2[a], R2[a] + 3), dv(R1[a], R1[a] + 3), 0, 1e-9, "fixed-body", when + " fixed body orientation");
		}
	}
	// points
	for (size_t i = 0; i < m.points.size(); i++) {
		auto t = tok(m.points[i]);
		double rel[3] = { atof(t[2].c_str()), atof(t[3].c_str()), atof(t[4].c_str()) };
		Kin k = point(s, i + 1);
		int b = body_of(t[1]);
		string w = sfmt("%s point %zu", when.c_str(), i + 1);
		if (b) {
			Kin x;
			rigid(br[b - 1].data(), bv[b - 1].data(), rel, x);
			c.near(P(k), P(x), 0, TP, "body-point", w + " position");
			c.near(V(k), V(x), 0, TV, "body-point", w + " velocity");
		} else if (up(t[1]) == "FIXED" || up(t[1]) == "ANCHOR") {
			c.near(P(k), dv(rel, rel + 3), 0, 1e-12, "anchor", w + " position");
			c.near(V(k), dv(3, 0.0), 0, 0, "anchor", w + " velocity");
		}
	}
	// rods
	for (size_t i = 0; i < m.rods.size(); i++) {
		auto t = tok(m.rods[i]);
		double A[3], B[3];
		for (int d = 0; d < 3; d++) {
			A[d] = atof(t[3 + d].c_str());
			B[d] = atof(t[6 + d].c_str());
		}
		double L = sqrt(pow(B[0] - A[0], 2) + pow(B[1] - A[1], 2) + pow(B[2] - A[2], 2));
		unsigned n = rod_n(s, i + 1);
		int N = atoi(t[9].c_str());
		c.req((int)n == N + 1, "segments", sfmt("%s rod %zu has %u nodes", when.c_str(), i + 1, n));
		string w = sfmt("%s rod %zu", when.c_str(), i + 1);
		Kin a = rod_node(s, i + 1, 0), z = rod_node(s, i + 1, n - 1);
		int b = body_of(t[2]);
		bool pin = up(t[2]).find("PIN") != string::npos;
		if (N > 0) {
			double l2 = 0, dvdr = 0;
			for (int d = 0; d < 3; d++) {
				l2 += pow(z.p[d] - a.p[d], 2);
				dvdr += (z.v[d] - a.v[d]) * (z.p[d] - a.p[d]);
			}
			c.near(sqrt(l2), L, 0, 1e-8 * (1 + L), "rod-length", w + " length");
			c.near(dvdr, 0, 0, 1e-7, "rod-length", w + " elongation rate");
			for (unsigned j = 1; j + 1 < n; j++) {
				Kin x = rod_node(s, i + 1, j), y;
				double f = (double)j / N;
				for (int d = 0; d < 3; d++) {
					y.p[d] = a.p[d] + f * (z.p[d] - a.p[d]);
					y.v[d] = a.v[d] + f * (z.v[d] - a.v[d]);
				}
				c.near(P(x), P(y), 0, TP, "rod-straight", w + sfmt(" node %u position", j));
				c.near(V(x), V(y), 0, TV, "rod-straight", w + sfmt(" node %u velocity", j));
			}
		}
		if (b) {
			Kin x;
			rigid(br[b - 1].data(), bv[b - 1].data(), A, x);
			c.near(P(a), P(x), 0, TP, "body-rod", w + " end A position");
			c.near(V(a), V(x), 0, TV, "body-rod", w + " end A velocity");
			if (!pin) {
				rigid(br[b - 1].data(), bv[b - 1].data(), B, x);
				c.near(P(z), P(x), 0, TP, "body-rod", w + " end B position");
				c.near(V(z), V(x), 0, TV, "body-rod", w + " end B velocity");
			}
		} else {
			string u = up(t[2]);
			if (u == "FIXED" || u == "PINNED") {
				c.near(P(a), dv(A, A + 3), 0, 1e-9, "fixed-rod", w + " end A position");
				c.near(V(a), dv(3, 0.0), 0, 1e-9, "fixed-rod", w + " end A velocity");
			}
			if (u == "FIXED" && N > 0) {
				c.near(P(z), dv(B, B + 3), 0, 1e-9, "fixed-rod", w + " end B position");
				c.near(V(z), dv(3, 0.0), 0, 1e-9, "fixed-rod", w + " end B velocity");
			}
		}
	}
}

static void
queries(Ctx& c, Sys& s, const Model& m)
{
	for (size_t i = 0; i < m.points.size(); i++) {
		std::set<std::pair<int, int>> want, got;
		for (size_t l = 0; l < m.lines.size(); l++) {
			auto t = tok(m.lines[l]);
			for (int e = 0; e < 2; e++) {
				End en = end_of(t[2 + e]);
				if (!en.rod && en.id == (int)i + 1)
					want.insert({ (int)l + 1, e });
			}
		}
		auto h = MoorDyn_GetPoint(s.md, i + 1);
		unsigned n;
		must(MoorDyn_GetPointNAttached(h, &n), "GetPointNAttached");
		for (unsigned k = 0; k < n; k++) {
			MoorDynLine l = nullptr;
			int e = -1, id = -1;
			must(MoorDyn_GetPointAttached(h, k, &l, &e), "GetPointAttached");
			must(MoorDyn_GetLineID(l, &id), "GetLineID");
			got.insert({ id, e });
		}
		c.req(n == want.size() && got == want, "query",
		      sfmt("point %zu reports %u attachments, %zu expected, or other ones", i + 1, n, want.size()));
	}
}

static void
run(Ctx& c, const Model& m, int nsteps, bool noic = true)
{
	Sys s;
	if (!s.create(m, c.dir))
		c.fail("create", "Create failed");
	queries(c, s, m);
	must(s.init(noic), "Init");
	invariants(c, s, m, "after Init,");
	for (int k = 0; k < nsteps; k++) {
		must(s.step(0.02), "Step");
		c.trans();
		for (double v : s.obs(false))
			if (!std::isfinite(v))
				c.fail("diverged", sfmt("not finite after step %d", k + 1));
		invariants(c, s, m, sfmt("step %d,", k + 1));
		c.state(s.obs(false));
	}
	queries(c, s, m);
	c.trace();
}

void
vf::enumerate(Cases& cs, const string& tier)
{
	int ns = tier == "thorough" ? 25 : 6;
	for (auto& m0 : all_systems())
		for (auto& sc : all_schemes()) {
			Model m = m0;
			m.scheme(sc);
			cs.push_back({ "run:" + m.name + ":" + sc, [m, ns](Ctx& c) { run(c, m, ns); } });
		}
	for (auto& m0 : all_systems()) {
		Model m = m0;
		m.scheme("rk2");
		m.opt("TmaxIC", 0.6).opt("dtIC", 0.2);
		cs.push_back({ "ic:" + m.name, [m, ns](Ctx& c) { run(c, m, ns, false); } });
		Model m2 = m;
		m2.opt("ICgenDynamic", "1");
		cs.push_back({ "icdyn:" + m.name, [m2, ns](Ctx& c) { run(c, m2, ns, false); } });
	}
	// bodies of every kind and orientation, with attachments at a lattice of
	// places, line direction both ways
	const char* kinds[] = { "Free", "Fixed", "Coupled", "CoupledPinned" };
	vector<double> ang = { 0, 35, -110 };
	for (auto kd : kinds)
		for (double r : ang)
			for (double p : { 0.0, 40.0, -75.0 })
				for (double y : ang)
					for (int dir = 0; dir < 2; dir++) {
						Model m;
						m.name = "lat";
						m.linetypes = { LT_CHAIN };
						m.rodtypes = { RT_BAR };
						m.bodies = { "1 Fixed 40 0 -20 10 20 30 100 0 100 0.1 0 0",
							         sfmt("2 %s 1 -2 -9 %g %g %g 3000 0.1|-0.2|0.1 3000|2500|3500 2.2 2 0.5", kd, r, p, y) };
						m.rods = { "1 bar Body2 0.5 0.2 -0.3 1.5 0.6 0.4 3 -",
							       "2 bar Body2Pinned -0.5 0.4 0.3 -1.0 1.6 -0.8 2 -",
							       "3 bar Body1 0.5 0.2 -0.3 1.5 0.6 0.4 2 -" };
						m.points = { "1 Fixed 12 3 -30 0 0 0 0", "2 Body2 1 0 0 0 0 0 0", "3 Body2 0 1 0 5 0.01 0.1 0.1",
							         "4 Body2 0 0 1 0 0 0 0", "5 Body1 1 2 3 0 0 0 0", "6 Coupled -12 0 -3 0 0 0 0" };
						m.lines = dir ? vector<string>{ "1 chain 1 2 27 3 -", "2 chain 6 3 17 3 -", "3 chain R1B 1 27 3 -", "4 chain 1 R2B 27 3 -", "5 chain 4 5 47 3 -", "6 chain R3A 2 45 3 -" }
						              : vector<string>{ "1 chain 2 1 27 3 -", "2 chain 3 6 17 3 -", "3 chain 1 R1B 27 3 -", "4 chain R2B 1 27 3 -", "5 chain 5 4 47 3 -", "6 chain 2 R3A 45 3 -" };
						if (string(kd).compare(0, 7, "Coupled") == 0)
							m.x0 = { 1, -2, -9, r * M_PI / 180, p * M_PI / 180, y * M_PI / 180 };
						m.x0.insert(m.x0.end(), { -12, 0, -3 });
						m.amp = 0.1;
						base_options(m);
						m.opt("tScheme", "rk2");
						m.opt("dtM", 0.002);
						cs.push_back({ sfmt("body:%s:%g:%g:%g:%d", kd, r, p, y, dir), [m, ns](Ctx& c) { run(c, m, ns); } });
					}
	// rods in every direction
	for (auto kd : { "Free", "Pinned", "Fixed", "Coupled", "CoupledPinned" })
		for (int dx = -1; dx <= 1; dx++)
			for (int dy = -1; dy <= 1; dy++)
				for (int dz = -1; dz <= 1; dz++) {
					if (!dx && !dy && !dz)
						continue;
					for (int N : { 1, 4 }) {
						Model m;
						m.name = "rodlat";
						m.linetypes = { LT_CHAIN };
						m.rodtypes = { RT_BAR };
						m.rods = { sfmt("1 bar %s 2 1 -12 %g %g %g %d -", kd, 2 + 1.5 * dx, 1 + 1.5 * dy, -12 + 1.5 * dz, N) };
						m.points = { "1 Fixed 12 3 -30 0 0 0 0", "2 Coupled -9 3 -3 0 0 0 0" };
						m.lines = { "1 chain R1A 1 23.5 3 -", "2 chain 2 R1B 16.5 3 -" };
						string k = kd;
						if (k == "Coupled")
							m.x0 = { 2, 1, -12, 0.05, 0.1, -0.1 };
						else if (k == "CoupledPinned")
							m.x0 = { 2, 1, -12 };
						m.x0.insert(m.x0.end(), { -9, 3, -3 });
						m.amp = 0.1;
						base_options(m);
						m.opt("tScheme", "rk2");
						m.opt("dtM", 0.002);
						cs.push_back({ sfmt("rod:%s:%d%d%d:%d", kd, dx, dy, dz, N), [m, ns](Ctx& c) { run(c, m, ns); } });
					}
				}
}
