// C22: the physics is independent of frame, labelling and line direction.
// Every transformation of a finite set is applied to every system, the two
// descriptions are run side by side and the mapped states compared.
#define VF_MAIN
#include "md.hpp"
#include <array>
using namespace vf;

namespace {

typedef std::array<double, 3> V3;
typedef std::array<std::array<double, 3>, 3> M3;

V3
mul(const M3& m, const V3& v)
{
	V3 o;
	for (int i = 0; i < 3; i++)
		o[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
	return o;
}
M3
mul(const M3& a, const M3& b)
{
	M3 o;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			o[i][j] =
			    a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
	return o;
}
/// XYZ Euler angles, R = X(a) Y(b) Z(c)
M3
euler(const V3& e)
{
	double ca = cos(e[0]), sa = sin(e[0]), cb = cos(e[1]), sb = sin(e[1]),
	       cc = cos(e[2]), sc = sin(e[2]);
	M3 X = { { { 1, 0, 0 }, { 0, ca, -sa }, { 0, sa, ca } } };
	M3 Y = { { { cb, 0, sb }, { 0, 1, 0 }, { -sb, 0, cb } } };
	M3 Z = { { { cc, -sc, 0 }, { sc, cc, 0 }, { 0, 0, 1 } } };
	return mul(mul(X, Y), Z);
}
V3
uneuler(const M3& R)
{
	return { atan2(-R[1][2], R[2][2]),
		     asin(std::max(-1.0, std::min(1.0, R[0][2]))),
		     atan2(-R[0][1], R[0][0]) };
}

struct Trafo
{
	string name;
	double dx = 0, dy = 0, th = 0;
	bool mirror = false; // y -> -y, before rotation
	bool swap = false;   // swap the ends of every line
	int perm = 0;        // 1: reverse every list; 2: rotate every list
	bool types = false;  // declare unused types, and reorder them
	bool split = false;  // one point per line end
	M3 Q() const
	{
		double c = cos(th), s = sin(th), m = mirror ? -1.0 : 1.0;
		// exact quarter turns
		if (fabs(c) < 1e-12)
			c = 0;
		if (fabs(s) < 1e-12)
			s = 0;
		// and exact diagonals
		if (fabs(fabs(c) - fabs(s)) < 1e-12)
			c = copysign(s, c);
		return { { { c, -s * m, 0 }, { s, c * m, 0 }, { 0, 0, 1 } } };
	}
};

vector<string>
toks(const string& s)
{
	std::istringstream i(s);
	vector<string> o;
	string t;
	while (i >> t)
		o.push_back(t);
	return o;
}
string
join(const vector<string>& v)
{
	string o;
	for (auto& s : v)
		o += (o.empty() ? "" : " ") + s;
	return o;
}
string
low(string s)
{
	for (auto& c : s)
		c = tolower(c);
	return s;
}
double
num(const string& s)
{
	return atof(s.c_str());
}

struct Mapped
{
	Model m;
	vector<unsigned> body, rod, point, line; // old index -> new number (1-based)
	vector<int> dof; // coupled objects: (kind, old index) of the new x vector
	struct Cpl
	{
		char kind; // 'b' body 6, 'B' pinned body 6, 'r' rod 6, 'R' pinned 3, 'p'
		unsigned old;
	};
	vector<Cpl> cold, cnew;
	vector<bool> flipped;
	bool ok = true;
};

bool
isbody(const string& a)
{
	string l = low(a);
	return l.compare(0, 4, "body") == 0 && l.size() > 4 && isdigit(l[4]);
}
unsigned
bodynum(const string& a)
{
	return (unsigned)atoi(a.c_str() + 4);
}
char
kind(const string& a, char base)
{
	string l = low(a);
	if (l == "coupled")
		return base;
	if (l == "coupledpinned")
		return toupper(base);
	return 0;
}

vector<unsigned>
permutation(size_t n, int k)
{
	// order[i]: old index placed at position i
	vector<unsigned> o(n);
	for (size_t i = 0; i < n; i++)
		o[i] = (unsigned)(k == 1   ? n - 1 - i
		                  : k == 2 ? (i + 1) % n
		                           : i);
	return o;
}

string
vecstr(const V3& v)
{
	return sfmt("%.17g %.17g %.17g", v[0], v[1], v[2]);
}

Mapped
apply(const Model& a, const Trafo& T)
{
	Mapped R;
	Model& m = R.m;
	m = a;
	M3 Q = T.Q();
	V3 D = { T.dx, T.dy, 0 };
	auto place = [&](vector<string>& t, size_t i, bool rel) {
		V3 v = { num(t[i]), num(t[i + 1]), num(t[i + 2]) };
		if (rel) {
			if (T.mirror)
				v[1] = -v[1];
		} else {
			v = mul(Q, v);
			for (int k = 0; k < 3; k++)
				v[k] += D[k];
		}
		for (int k = 0; k < 3; k++)
			t[i + k] = sfmt("%.17g", v[k]);
	};
	// coupled lists
	for (size_t i = 0; i < a.bodies.size(); i++)
		if (char k = kind(toks(a.bodies[i])[1], 'b'))
			R.cold.push_back({ k, (unsigned)i });
	for (size_t i = 0; i < a.rods.size(); i++)
		if (char k = kind(toks(a.rods[i])[2], 'r'))
			R.cold.push_back({ k, (unsigned)i });
	for (size_t i = 0; i < a.points.size(); i++)
		if (char k = kind(toks(a.points[i])[1], 'p'))
			R.cold.push_back({ k, (unsigned)i });

	auto ob = permutation(a.bodies.size(), T.perm);
	auto orr = permutation(a.rods.size(), T.perm);
	auto op = permutation(a.points.size(), T.perm);
	auto ol = permutation(a.lines.size(), T.perm);
	R.body.resize(ob.size());
	R.rod.resize(orr.size());
	R.point.resize(op.size());
	R.line.resize(ol.size());
	for (size_t i = 0; i < ob.size(); i++)
		R.body[ob[i]] = (unsigned)i + 1;
	for (size_t i = 0; i < orr.size(); i++)
		R.rod[orr[i]] = (unsigned)i + 1;
	for (size_t i = 0; i < op.size(); i++)
		R.point[op[i]] = (unsigned)i + 1;
	for (size_t i = 0; i < ol.size(); i++)
		R.line[ol[i]] = (unsigned)i + 1;
	auto reattach = [&](string& s) {
		if (isbody(s)) {
			unsigned n = bodynum(s);
			size_t k = 4;
			while (k < s.size() && isdigit(s[k]))
				k++;
			s = s.substr(0, 4) + sfmt("%u", R.body[n - 1]) + s.substr(k);
		}
	};
	m.bodies.clear();
	for (auto i : ob) {
		auto t = toks(a.bodies[i]);
		t[0] = sfmt("%u", R.body[i]);
		place(t, 2, false);
		const double d2r = M_PI / 180.0;
		M3 O = euler({ num(t[5]) * d2r, num(t[6]) * d2r, num(t[7]) * d2r });
		M3 S = { { { 1, 0, 0 }, { 0, T.mirror ? -1.0 : 1.0, 0 }, { 0, 0, 1 } } };
		V3 e = uneuler(mul(mul(Q, O), S));
		for (int k = 0; k < 3; k++)
			t[5 + k] = sfmt("%.17g", e[k] / d2r);
		if (T.mirror) {
			// centre of gravity x|y|z
			size_t p = t[9].find('|');
			if (p != string::npos)
				t[9].insert(p + 1, t[9][p + 1] == '-' ? "" : "-");
			if (t[9].find("--") != string::npos)
				R.ok = false;
		}
		m.bodies.push_back(join(t));
	}
	m.rods.clear();
	for (auto i : orr) {
		auto t = toks(a.rods[i]);
		t[0] = sfmt("%u", R.rod[i]);
		bool rel = isbody(t[2]);
		reattach(t[2]);
		place(t, 3, rel);
		place(t, 6, rel);
		m.rods.push_back(join(t));
	}
	m.points.clear();
	for (auto i : op) {
		auto t = toks(a.points[i]);
		t[0] = sfmt("%u", R.point[i]);
		bool rel = isbody(t[1]);
		reattach(t[1]);
		place(t, 2, rel);
		m.points.push_back(join(t));
	}
	m.lines.clear();
	unsigned npoints = (unsigned)a.points.size();
	R.flipped.assign(a.lines.size(), T.swap);
	std::map<unsigned, unsigned> used;
	vector<Mapped::Cpl> extra;
	for (auto i : ol) {
		auto t = toks(a.lines[i]);
		t[0] = sfmt("%u", R.line[i]);
		for (int k = 2; k < 4; k++) {
			if (isdigit(t[k][0])) {
				unsigned n = (unsigned)atoi(t[k].c_str()) - 1;
				unsigned nn = R.point[n];
				auto at = toks(a.points[n]);
				string w = low(at[1]);
				// massless attachments can be split
				if (T.split && used[n]++ &&
				    (w == "fixed" || isbody(at[1]) || w == "coupled")) {
					auto row = toks(m.points[nn - 1]);
					row[0] = sfmt("%u", ++npoints);
					for (int q = 5; q < 9; q++)
						row[q] = "0";
					m.points.push_back(join(row));
					nn = npoints;
					if (w == "coupled")
						extra.push_back({ 'p', n });
				}
				t[k] = sfmt("%u", nn);
			} else { // RnA
				size_t j = 1;
				while (isdigit(t[k][j]))
					j++;
				unsigned n = (unsigned)atoi(t[k].c_str() + 1);
				t[k] = sfmt("R%u", R.rod[n - 1]) + t[k].substr(j);
			}
		}
		if (T.swap)
			std::swap(t[2], t[3]);
		m.lines.push_back(join(t));
	}
	// coupled list of the new system
	for (auto i : ob)
		for (auto& q : R.cold)
			if (tolower(q.kind) == 'b' && q.old == i)
				R.cnew.push_back(q);
	for (auto i : orr)
		for (auto& q : R.cold)
			if (tolower(q.kind) == 'r' && q.old == i)
				R.cnew.push_back(q);
	for (auto i : op)
		for (auto& q : R.cold)
			if (q.kind == 'p' && q.old == i)
				R.cnew.push_back(q);
	for (auto& q : extra)
		R.cnew.push_back(q);
	if (T.types) {
		vector<string> l = { "unused1 0.5 500 1e9 -1 0 2 2 1 1" };
		for (size_t i = a.linetypes.size(); i-- > 0;)
			l.push_back(a.linetypes[i]);
		l.push_back("unused2 0.02 1 1e3 10 0 0 0 0 0");
		m.linetypes = l;
		vector<string> r = { "unused3 2.5 500 1 1 2 2" };
		for (size_t i = a.rodtypes.size(); i-- > 0;)
			r.push_back(a.rodtypes[i]);
		r.push_back("unused4 0.02 1 0 0 0 0");
		m.rodtypes = r;
	}
	// environment
	for (auto& f : m.files) {
		if (f.first == "current_profile.txt") {
			std::istringstream in(f.second);
			string ln, o;
			int n = 0;
			while (std::getline(in, ln)) {
				if (n++ >= 3) {
					auto t = toks(ln);
					V3 v = mul(Q, V3{ num(t[1]), num(t[2]), num(t[3]) });
					ln = t[0] + " " + vecstr(v);
				}
				o += ln + "\n";
			}
			f.second = o;
		}
		if (f.first == "wave_frequencies.txt") {
			std::istringstream in(f.second);
			string ln, o;
			while (std::getline(in, ln)) {
				auto t = toks(ln);
				double b = num(t[3]);
				if (T.mirror)
					b = -b;
				b += T.th;
				// translation: keep the same wave at the moved origin is
				// only attempted without translation
				b = remainder(b, 2 * M_PI);
				t[3] = sfmt("%.17g", b);
				o += join(t) + "\n";
			}
			f.second = o;
		}
	}
	return R;
}

size_t
ndof(char k)
{
	return (k == 'b' || k == 'B' || k == 'r') ? 6 : 3;
}

/// prescribed motion of a coupled object: translations only, the orientation
/// is kept (the rotations are covered by the yaw of the transformation)
void
pose(const Model& a,
     const Mapped::Cpl& q,
     const Trafo* T,
     double t,
     int pat,
     dv& x,
     dv& xd)
{
	V3 p, v;
	V3 e = { 0, 0, 0 };
	auto tk = toks(q.kind == 'p'                  ? a.points[q.old]
	               : tolower(q.kind) == 'r' ? a.rods[q.old]
	                                              : a.bodies[q.old]);
	size_t o = tolower(q.kind) == 'r' ? 3 : 2;
	double w = 2.2;
	for (int i = 0; i < 3; i++) {
		double ph = 0.7 * i + 1.3 * q.old + 0.4 * pat;
		double am = pat == 2 && i < 2 ? 0.0 : 0.12;
		if (i == 1 && a.name.substr(0, 6) == "planar")
			am = 0;
		p[i] = num(tk[o + i]) + am * (sin(w * t + ph) - sin(ph));
		v[i] = am * w * cos(w * t + ph);
	}
	M3 O = euler(e);
	if (tolower(q.kind) == 'b') {
		const double d2r = M_PI / 180.0;
		O = euler({ num(tk[5]) * d2r, num(tk[6]) * d2r, num(tk[7]) * d2r });
	}
	if (T) {
		M3 Q = T->Q();
		p = mul(Q, p);
		v = mul(Q, v);
		p[0] += T->dx;
		p[1] += T->dy;
		if (tolower(q.kind) == 'b') {
			M3 S = {
				{ { 1, 0, 0 }, { 0, T->mirror ? -1.0 : 1.0, 0 }, { 0, 0, 1 } }
			};
			O = mul(mul(Q, O), S);
		}
	}
	e = uneuler(O);
	x.insert(x.end(), p.begin(), p.end());
	xd.insert(xd.end(), v.begin(), v.end());
	if (ndof(q.kind) == 6) {
		x.insert(x.end(), e.begin(), e.end());
		xd.insert(xd.end(), 3, 0.0);
	}
}

struct Run
{
	Sys s;
	const Model* base;
	const Trafo* T;
	vector<Mapped::Cpl> list;
	void kin(double t, int pat)
	{
		s.x.clear();
		s.xd.clear();
		for (auto& q : list)
			pose(*base, q, T, t, pat, s.x, s.xd);
		if (s.f.size() != s.x.size() + 6)
			s.f.assign(s.x.size() + 6, 0.0);
	}
};

void
compare(Ctx& c, Run& A, Run& B, const Mapped& M, const Trafo& T, const string& w, bool forces)
{
	M3 Q = T.Q();
	double det = T.mirror ? -1.0 : 1.0;
	const double PT = 1e-6, VT = 1e-5, FR = 1e-5, FA = 0.5;
	auto pos = [&](const double* v) {
		V3 p = mul(Q, V3{ v[0], v[1], v[2] });
		return dv{ p[0] + T.dx, p[1] + T.dy, p[2] };
	};
	auto vec = [&](const double* v) {
		V3 p = mul(Q, V3{ v[0], v[1], v[2] });
		return dv{ p[0], p[1], p[2] };
	};
	auto axi = [&](const double* v) {
		V3 p = mul(Q, V3{ v[0], v[1], v[2] });
		return dv{ det * p[0], det * p[1], det * p[2] };
	};
	auto d3 = [](const double* v) { return dv(v, v + 3); };
	double a[6], b[6], ar[6], br[6];
	for (size_t i = 0; i < M.body.size(); i++) {
		auto x = MoorDyn_GetBody(A.s.md, (unsigned)i + 1),
		     y = MoorDyn_GetBody(B.s.md, M.body[i]);
		MoorDyn_GetBodyState(x, a, ar);
		MoorDyn_GetBodyState(y, b, br);
		string n = sfmt("%s body %zu ", w.c_str(), i + 1);
		c.near(d3(b), pos(a), 0, PT, "position", n + "position");
		M3 S = { { { 1, 0, 0 }, { 0, det, 0 }, { 0, 0, 1 } } };
		M3 Ra = mul(mul(Q, euler({ a[3], a[4], a[5] })), S),
		   Rb = euler({ b[3], b[4], b[5] });
		for (int k = 0; k < 3; k++)
			c.near(dv(Rb[k].begin(), Rb[k].end()),
			       dv(Ra[k].begin(), Ra[k].end()),
			       0,
			       PT,
			       "orientation",
			       n + "orientation");
		c.near(d3(br), vec(ar), 0, VT, "velocity", n + "velocity");
		c.near(d3(br + 3), axi(ar + 3), 0, VT, "velocity", n + "rotation");
		if (forces) {
			MoorDyn_GetBodyForce(x, a);
			MoorDyn_GetBodyForce(y, b);
			c.nearv(d3(b), vec(a), FR, FA, "force", n + "force");
			c.nearv(d3(b + 3), axi(a + 3), FR, FA, "force", n + "moment");
		}
	}
	for (size_t i = 0; i < M.rod.size(); i++) {
		auto x = MoorDyn_GetRod(A.s.md, (unsigned)i + 1),
		     y = MoorDyn_GetRod(B.s.md, M.rod[i]);
		unsigned n1;
		MoorDyn_GetRodNumberNodes(x, &n1);
		string n = sfmt("%s rod %zu ", w.c_str(), i + 1);
		for (unsigned j = 0; j < n1; j++) {
			MoorDyn_GetRodNodePos(x, j, a);
			MoorDyn_GetRodNodePos(y, j, b);
			c.near(d3(b), pos(a), 0, PT, "position", n + "node");
			MoorDyn_GetRodNodeVel(x, j, a);
			MoorDyn_GetRodNodeVel(y, j, b);
			c.near(d3(b), vec(a), 0, VT, "velocity", n + "node velocity");
		}
		if (forces) {
			MoorDyn_GetRodForce(x, a);
			MoorDyn_GetRodForce(y, b);
			c.nearv(d3(b), vec(a), FR, FA, "force", n + "force");
			c.nearv(d3(b + 3), axi(a + 3), FR, FA, "force", n + "moment");
		}
	}
	for (size_t i = 0; i < M.point.size(); i++) {
		auto x = MoorDyn_GetPoint(A.s.md, (unsigned)i + 1),
		     y = MoorDyn_GetPoint(B.s.md, M.point[i]);
		string n = sfmt("%s point %zu ", w.c_str(), i + 1);
		MoorDyn_GetPointPos(x, a);
		MoorDyn_GetPointPos(y, b);
		c.near(d3(b), pos(a), 0, PT, "position", n + "position");
		MoorDyn_GetPointVel(x, a);
		MoorDyn_GetPointVel(y, b);
		c.near(d3(b), vec(a), 0, VT, "velocity", n + "velocity");
		if (forces && !T.split) {
			MoorDyn_GetPointForce(x, a);
			MoorDyn_GetPointForce(y, b);
			c.nearv(d3(b), vec(a), FR, FA, "force", n + "force");
		}
	}
	for (size_t i = 0; i < M.line.size(); i++) {
		auto x = MoorDyn_GetLine(A.s.md, (unsigned)i + 1),
		     y = MoorDyn_GetLine(B.s.md, M.line[i]);
		unsigned n1;
		MoorDyn_GetLineNumberNodes(x, &n1);
		string n = sfmt("%s line %zu ", w.c_str(), i + 1);
		for (unsigned j = 0; j < n1; j++) {
			unsigned k = M.flipped[i] ? n1 - 1 - j : j;
			string nn = n + sfmt("node %u ", j);
			MoorDyn_GetLineNodePos(x, j, a);
			MoorDyn_GetLineNodePos(y, k, b);
			c.near(d3(b), pos(a), 0, PT, "position", nn + "position");
			MoorDyn_GetLineNodeVel(x, j, a);
			MoorDyn_GetLineNodeVel(y, k, b);
			c.near(d3(b), vec(a), 0, VT, "velocity", nn + "velocity");
			if (forces) {
				MoorDyn_GetLineNodeTen(x, j, a);
				MoorDyn_GetLineNodeTen(y, k, b);
				dv e = vec(a);
				if (M.flipped[i])
					for (auto& q : e)
						q = -q;
				c.nearv(d3(b), e, FR, FA, "tension", nn + "tension");
			}
		}
	}
	if (forces) {
		// coupling forces, summed per driven object of the original system
		vector<dv> fa(A.list.size()), fb(A.list.size());
		size_t o = 0;
		for (size_t i = 0; i < A.list.size(); i++) {
			size_t nd = ndof(A.list[i].kind);
			fa[i].assign(A.s.f.begin() + o, A.s.f.begin() + o + nd);
			fb[i].assign(nd, 0.0);
			o += nd;
		}
		o = 0;
		for (size_t j = 0; j < B.list.size(); j++) {
			size_t nd = ndof(B.list[j].kind);
			for (size_t i = 0; i < A.list.size(); i++)
				if (A.list[i].kind == B.list[j].kind &&
				    A.list[i].old == B.list[j].old)
					for (size_t k = 0; k < nd; k++)
						fb[i][k] += B.s.f[o + k];
			o += nd;
		}
		for (size_t i = 0; i < fa.size(); i++) {
			string n = sfmt("%s coupled object %zu ", w.c_str(), i);
			c.nearv(d3(fb[i].data()),
			        vec(fa[i].data()),
			        FR,
			        FA,
			        "coupling",
			        n + "force");
			if (fa[i].size() == 6)
				c.nearv(d3(fb[i].data() + 3),
				        axi(fa[i].data() + 3),
				        FR,
				        FA,
				        "coupling",
				        n + "moment");
		}
	}
}

void
run(Ctx& c, const Model& m0, const Trafo& T, int pat, unsigned steps)
{
	Model base = m0;
	Mapped M = apply(base, T);
	if (!M.ok)
		throw HarnessError{ "mirrored centre of gravity" };
	Run A, B;
	A.base = B.base = &base;
	A.T = nullptr;
	B.T = &T;
	A.list = M.cold;
	B.list = M.cnew;
	c.req(A.s.create(base, c.dir, "a"), "create", "Create fails");
	c.req(B.s.create(M.m, c.dir, "b"),
	      "create",
	      "Create fails for the equivalent description");
	A.kin(0, pat);
	B.kin(0, pat);
	c.req(A.s.ndof == A.s.x.size() && B.s.ndof == B.s.x.size(),
	      "dof",
	      "number of coupled DOFs");
	c.req(MoorDyn_Init_NoIC(A.s.md, A.s.x.data(), A.s.xd.data()) == 0,
	      "init",
	      "Init fails");
	c.req(MoorDyn_Init_NoIC(B.s.md, B.s.x.data(), B.s.xd.data()) == 0,
	      "init",
	      "Init fails for the equivalent description");
	compare(c, A, B, M, T, "initially", false);
	for (unsigned k = 0; k < steps; k++) {
		A.kin(A.s.t, pat);
		B.kin(B.s.t, pat);
		c.req(A.s.raw_step(0.02) == 0, "step", "Step fails");
		c.req(B.s.raw_step(0.02) == 0, "step", "Step fails");
		c.trans(2);
		compare(c, A, B, M, T, sfmt("step %u", k + 1), true);
		c.state(A.s.obs());
	}
	c.trace();
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	vector<Trafo> ts;
	auto add = [&](Trafo t) { ts.push_back(t); };
	for (int k = 1; k < 12; k++) {
		Trafo t;
		t.name = sfmt("rot%d", 30 * k);
		t.th = k * M_PI / 6;
		add(t);
	}
	for (int k = 1; k < 8; k += 2) {
		Trafo t;
		t.name = sfmt("rot%d", 45 * k);
		t.th = k * M_PI / 4;
		add(t);
	}
	for (auto d : vector<std::pair<double, double>>{
	         { 100, 0 }, { 0, -70 }, { -33.25, 1234.5 } }) {
		Trafo t;
		t.name = sfmt("move%g_%g", d.first, d.second);
		t.dx = d.first;
		t.dy = d.second;
		add(t);
	}
	for (int k = 0; k < 4; k++) {
		Trafo t;
		t.name = sfmt("mirror%d", k);
		t.mirror = true;
		t.th = k * M_PI / 5;
		t.dx = k == 3 ? 12 : 0;
		add(t);
	}
	{
		Trafo t;
		t.name = "swap";
		t.swap = true;
		add(t);
		t.name = "swaprot";
		t.th = 2.0;
		add(t);
	}
	for (int p = 1; p <= 2; p++) {
		Trafo t;
		t.name = sfmt("perm%d", p);
		t.perm = p;
		add(t);
		t.name += "swap";
		t.swap = true;
		add(t);
	}
	{
		Trafo t;
		t.name = "types";
		t.types = true;
		add(t);
		Trafo u;
		u.name = "split";
		u.split = true;
		add(u);
		u.name = "splitperm";
		u.perm = 1;
		u.th = 0.9;
		add(u);
	}
	vector<Model> ms = all_systems();
	{
		// two lines per anchor, fairlead and body point
		Model m;
		m.name = "shared";
		m.linetypes = { LT_CHAIN, LT_ROPE };
		m.bodies = { "1 Free 0 0 -4 3 -4 15 4000 0.1|0|-0.2 5000 3.8 4 0.6" };
		m.points = { "1 Fixed -16 2 -30 0 0 0 0",
			         "2 Coupled 12 1 -3 0 0 0 0",
			         "3 Body1 1 0.4 -1 0 0 0 0",
			         "4 Free -5 4 -15 60 0.03 0.4 0.8" };
		m.lines = { "1 chain 1 3 33 4 -",
			        "2 chain 4 1 19.5 4 -",
			        "3 rope 2 3 12.5 3 -",
			        "4 rope 4 2 22 4 -",
			        "5 rope 3 4 14 3 -" };
		m.x0 = { 12, 1, -3 };
		base_options(m);
		ms.push_back(m);
	}
	for (int k = 0; k < 3; k++) {
		// everything in a vertical plane, and some of it on the seabed
		Model m;
		m.name = sfmt("planar%d", k);
		m.linetypes = { LT_CHAIN, LT_ROPE };
		m.rodtypes = { "bar 0.3 300 1.0 0.8 0.7 0.6" };
		if (k != 1)
			m.bodies = { "1 Free 0 0 -4 0 -4 0 4000 0.1|0|-0.2 5000 3.8 4 0.6",
				         "2 Coupled 6 0 -3 0 10 0 4000 0 5000 3.8 4 0.6" };
		if (k != 2)
			m.rods = { "1 bar Free -8 0 -29.95 -3 0 -29.9 3 -",
				       "2 bar Pinned 20 0 -29 23 0 -27 3 -" };
		m.points = { "1 Fixed -16 0 -30 0 0 0 0",
			         "2 Coupled 12 0 -3 0 0 0 0",
			         "3 Free -5 0 -29.98 60 0.03 0.4 0.8",
			         "4 Free 4 0 -29.9 200 0.02 0.4 0.8" };
		m.lines = { "1 chain 1 3 11.5 4 -", "2 chain 3 4 9.2 4 -",
			        "3 chain 4 2 30 8 -" };
		if (k != 1) {
			m.points.push_back("5 Body1 1 0 -1 0 0 0 0");
			m.points.push_back("6 Body2 -1 0 -0.5 0 0 0 0");
			m.lines.push_back("4 rope 5 1 31 4 -");
			m.lines.push_back("5 rope 6 5 5 2 -");
		}
		m.x0 = k == 1 ? dv{ 12, 0, -3 } : dv{ 6, 0, -3, 0, 10 * M_PI / 180, 0, 12, 0, -3 };
		base_options(m);
		m.opt("FrictionCoefficient", 0.5);
		ms.push_back(m);
	}
	for (auto& m : ms) {
		// input kinematics start from the definition of each object
		for (auto& t : ts) {
			bool moves = t.dx != 0 || t.dy != 0;
			bool turns = t.th != 0 || t.mirror;
			if (m.name == "wavesnode" && moves)
				continue;
			if (m.name == "wavesgrid" && (moves || turns))
				continue;
			for (auto sch : th ? vector<string>{ "rk2", "rk4", "euler", "aca4",
			                                     "ab2",  "wilson6" }
			                   : vector<string>{ "rk2" })
				for (int pat = 0; pat < (th ? 3 : 2); pat++) {
					Model q = m;
					q.scheme(sch);
					unsigned n = th ? 30 : 10;
					cases.push_back({ sfmt("%s/%s/%s/p%d",
					                       m.name.c_str(),
					                       t.name.c_str(),
					                       sch.c_str(),
					                       pat),
						              [q, t, pat, n](Ctx& c) {
						                  run(c, q, t, pat, n);
						              } });
				}
		}
	}
}
