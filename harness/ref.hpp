// Independent reference of the physics (lumped-mass lines, points, rods and
// bodies) used as the oracle of one explicit Euler step of the real system.
//
// A `Desc` holds a system with plain numbers; it writes the input file, and
// `Eval` computes every load, mass and acceleration from a kinematic state.
#pragma once
#include "md.hpp"
#include <functional>
#include <Eigen/Dense>

namespace ref {

using vf::dv;
using vf::sfmt;
using std::string;
using std::vector;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;

struct Tab
{
	dv x, y;
	bool on() const { return !x.empty(); }
	double at(double v) const
	{
		if (v <= x.front())
			return y.front();
		if (v >= x.back())
			return y.back();
		size_t i = 1;
		while (v > x[i])
			i++;
		return y[i - 1] + (v - x[i - 1]) / (x[i] - x[i - 1]) * (y[i] - y[i - 1]);
	}
	string text() const
	{
		string o = "---- table ----\nX Y\n(-) (-)\n";
		for (size_t i = 0; i < x.size(); i++)
			o += sfmt("%.17g %.17g", x[i], y[i]) + (i + 1 < x.size() ? "\n" : "");
		return o;
	}
};

enum Att { FREE, FIXED, COUPLED, PINNED, CPLDPIN, BODY, BODYPIN };

struct Env
{
	double g = 9.80665, rho = 1025.0, depth = 30.0, kb = 3.0e4, cb = 3.0e3,
	       mu = 0.0, fd = 200.0, sd = 1.0;
};

struct LineT
{
	double d = 0.1, w = 20, EA = 1e6, BA = -0.5, EI = 0, Cd = 1.2, Ca = 1.0,
	       CdAx = 0.3, CaAx = 0.2;
	Tab ea, ba, ei;
};
struct RodT
{
	double d = 0.3, w = 300, Cd = 1.0, Ca = 0.8, CdEnd = 0.7, CaEnd = 0.6;
};
struct PointS
{
	Att att;
	int body;
	V3 p;
	double m = 0, V = 0, CdA = 0, Ca = 0;
};
struct RodS
{
	Att att;
	int body;
	int type;
	V3 a, b;
	int N;
};
struct BodyS
{
	Att att;
	V3 p, rpy; // degrees
	double m = 0, V = 0;
	V3 cg = V3::Zero(), I = V3::Zero();
	V6 CdA = V6::Zero(), Ca = V6::Zero();
};
struct End
{
	char kind; // 'p', 'a' (rod end A), 'b' (rod end B)
	int i;     // zero based index
};
struct LineS
{
	int type;
	End a, b;
	double L;
	int N;
	double EA = -1; // live stiffness override
	double L0 = -1; // length at initialisation, if it changed later
	bool pb = false;
	dv pin;
};

inline M3
euler(const V3& a) // radians
{
	return (Eigen::AngleAxisd(a.x(), V3::UnitX()) *
	        Eigen::AngleAxisd(a.y(), V3::UnitY()) *
	        Eigen::AngleAxisd(a.z(), V3::UnitZ()))
	    .toRotationMatrix();
}
inline M3
skew(const V3& r) // skew(r) v = r x v
{
	M3 s;
	s << 0, -r.z(), r.y(), r.z(), 0, -r.x(), -r.y(), r.x(), 0;
	return s;
}
/// rotation by one explicit Euler step of the normalised quaternion
inline M3
drot(const V3& w, double dt)
{
	Eigen::Quaterniond q(
	    1.0, 0.5 * dt * w.x(), 0.5 * dt * w.y(), 0.5 * dt * w.z());
	q.normalize();
	return q.toRotationMatrix();
}
/// Generalised mass of a translational mass matrix placed at r: the kinetic
/// energy of the velocity v + w x r
inline M6
mass_at(const V3& r, const M3& m)
{
	Eigen::Matrix<double, 3, 6> J;
	J.leftCols<3>() = M3::Identity();
	J.rightCols<3>() = -skew(r);
	return J.transpose() * m * J;
}
/// the same about another reference point at -r
inline M6
mass_shift(const V3& r, const M6& m)
{
	M6 J = M6::Identity();
	J.topRightCorner<3, 3>() = -skew(r);
	return J.transpose() * m * J;
}

struct Desc
{
	Env env;
	vector<LineT> lt;
	vector<RodT> rt;
	vector<BodyS> bodies;
	vector<RodS> rods;
	vector<PointS> points;
	vector<LineS> lines;
	double dt = 0.002;
	bool extwaves = false;
	vector<std::pair<string, string>> opts;

	static string v3(const V3& v)
	{
		return sfmt("%.17g %.17g %.17g", v.x(), v.y(), v.z());
	}
	vf::Model model(const string& name) const
	{
		vf::Model m;
		m.name = name;
		auto tab = [&](const Tab& t, double v, const string& f) {
			if (!t.on())
				return sfmt("%.17g", v);
			m.files[f] = t.text();
			return f;
		};
		for (size_t i = 0; i < lt.size(); i++) {
			auto& t = lt[i];
			m.linetypes.push_back(
			    sfmt("lt%zu %.17g %.17g ", i, t.d, t.w) +
			    tab(t.ea, t.EA, sfmt("ea%zu.txt", i)) + " " +
			    tab(t.ba, t.BA, sfmt("ba%zu.txt", i)) + " " +
			    tab(t.ei, t.EI, sfmt("ei%zu.txt", i)) +
			    sfmt(" %.17g %.17g %.17g %.17g", t.Cd, t.Ca, t.CdAx, t.CaAx));
		}
		for (size_t i = 0; i < rt.size(); i++) {
			auto& t = rt[i];
			m.rodtypes.push_back(sfmt("rt%zu %.17g %.17g %.17g %.17g %.17g %.17g",
			                          i,
			                          t.d,
			                          t.w,
			                          t.Cd,
			                          t.Ca,
			                          t.CdEnd,
			                          t.CaEnd));
		}
		static const char* names[] = { "Free",   "Fixed",         "Coupled",
			                           "Pinned", "CoupledPinned", "Body",
			                           "Body" };
		auto att = [&](Att a, int b) {
			string s = names[a];
			if (a == BODY || a == BODYPIN)
				s += sfmt("%d", b + 1);
			if (a == BODYPIN)
				s += "Pinned";
			return s;
		};
		auto bar = [&](const double* p, int n) {
			string s;
			for (int i = 0; i < n; i++)
				s += (i ? "|" : "") + sfmt("%.17g", p[i]);
			return s;
		};
		for (size_t i = 0; i < bodies.size(); i++) {
			auto& b = bodies[i];
			m.bodies.push_back(sfmt("%zu ", i + 1) + att(b.att, 0) + " " +
			                   v3(b.p) + " " + v3(b.rpy) +
			                   sfmt(" %.17g ", b.m) + bar(b.cg.data(), 3) +
			                   " " + bar(b.I.data(), 3) +
			                   sfmt(" %.17g ", b.V) + bar(b.CdA.data(), 6) +
			                   " " + bar(b.Ca.data(), 3));
			if (b.att == COUPLED || b.att == CPLDPIN)
				for (int k = 0; k < 6; k++)
					m.x0.push_back(k < 3 ? b.p[k] : b.rpy[k - 3] * M_PI / 180);
		}
		for (size_t i = 0; i < rods.size(); i++) {
			auto& r = rods[i];
			m.rods.push_back(sfmt("%zu rt%d ", i + 1, r.type) +
			                 att(r.att, r.body) + " " + v3(r.a) + " " +
			                 v3(r.b) + sfmt(" %d -", r.N));
			if (r.att == COUPLED || r.att == CPLDPIN)
				for (int k = 0; k < (r.att == COUPLED ? 6 : 3); k++)
					m.x0.push_back(k < 3 ? r.a[k] : 0.0);
		}
		for (size_t i = 0; i < points.size(); i++) {
			auto& p = points[i];
			m.points.push_back(sfmt("%zu ", i + 1) + att(p.att, p.body) + " " +
			                   v3(p.p) +
			                   sfmt(" %.17g %.17g %.17g %.17g",
			                        p.m,
			                        p.V,
			                        p.CdA,
			                        p.Ca));
			if (p.att == COUPLED)
				for (int k = 0; k < 3; k++)
					m.x0.push_back(p.p[k]);
		}
		auto end = [&](const End& e) {
			if (e.kind == 'p')
				return sfmt("%d", e.i + 1);
			return sfmt("R%d%c", e.i + 1, e.kind == 'a' ? 'A' : 'B');
		};
		for (size_t i = 0; i < lines.size(); i++) {
			auto& l = lines[i];
			m.lines.push_back(sfmt("%zu lt%d ", i + 1, l.type) + end(l.a) +
			                  " " + end(l.b) + sfmt(" %.17g %d -", l.L, l.N));
		}
		m.opt("dtM", dt)
		    .opt("WtrDpth", env.depth)
		    .opt("g", env.g)
		    .opt("rho", env.rho)
		    .opt("kBot", env.kb)
		    .opt("cBot", env.cb)
		    .opt("FrictionCoefficient", env.mu)
		    .opt("FricDamp", env.fd)
		    .opt("StatDynFricScale", env.sd)
		    .opt("dtIC", 0.1)
		    .opt("TmaxIC", 0.0)
		    .opt("tScheme", "euler")
		    .opt("writeLog", "0");
		if (extwaves)
			m.opt("WaveKin", "1");
		for (auto& o : opts)
			m.opt(o.first, o.second);
		return m;
	}
};

/// The water: an affine field of velocity and acceleration and a uniform level
/// Everything in one vertical plane, exactly: 1 x, 2 y, 3 -x, 4 -y, 5 vertical,
/// 6 and 7 the diagonals
inline V3
in_plane(const V3& p, int plane)
{
	if (!plane)
		return p;
	if (plane == 5)
		return V3(0, 0, p.z());
	if (plane > 5)
		return V3(0.75 * p.x(), plane == 6 ? 0.75 * p.x() : -0.75 * p.x(), p.z());
	double h = (p.x() + 0.375 * p.y()) * (plane > 2 ? -1 : 1);
	return plane % 2 ? V3(h, 0, p.z()) : V3(0, h, p.z());
}
/// rotations which keep the plane
inline V3
turn_plane(const V3& e, int plane)
{
	if (!plane)
		return e;
	if (plane == 5)
		return V3::Zero();
	if (plane > 5)
		return V3(0.75 * e.x(), plane == 7 ? 0.75 * e.x() : -0.75 * e.x(), 0);
	double h = e.y() + 0.375 * e.x();
	return plane % 2 ? V3(0, h, 0) : V3(h, 0, 0);
}

inline Desc
in_plane(Desc d, int plane)
{
	if (!plane)
		return d;
	auto place = [&](Att a, int b, const V3& p) {
		if (a != BODY && a != BODYPIN)
			return p;
		auto& B = d.bodies[b];
		return V3(B.p + euler(B.rpy * M_PI / 180) * p);
	};
	auto end = [&](const End& e) {
		if (e.kind == 'p')
			return place(d.points[e.i].att, d.points[e.i].body, d.points[e.i].p);
		auto& r = d.rods[e.i];
		return place(r.att, r.body, e.kind == 'a' ? r.a : r.b);
	};
	dv len;
	for (auto& l : d.lines)
		len.push_back((end(l.a) - end(l.b)).norm());
	for (auto& b : d.bodies) {
		b.p = in_plane(b.p, plane);
		b.rpy = turn_plane(b.rpy, plane);
		b.cg = in_plane(b.cg, plane);
	}
	for (auto& p : d.points)
		p.p = in_plane(p.p, plane);
	for (auto& r : d.rods) {
		r.a = in_plane(r.a, plane);
		r.b = in_plane(r.b, plane);
	}
	for (size_t i = 0; i < d.lines.size(); i++) {
		auto& l = d.lines[i];
		l.L *= std::max(0.5, (end(l.a) - end(l.b)).norm()) / len[i];
	}
	return d;
}

struct Water
{
	int plane = 0;
	double fast = 1; // everything quicker
	V3 U0 = V3::Zero(), A0 = V3::Zero();
	M3 G = M3::Zero(), H = M3::Zero();
	double zeta = 0.0;
	double tag = 0; // amplitude of a different value for each node
	V3 current = V3::Zero(); // added by the library itself
	/// Any other field: velocity, acceleration, level and dynamic pressure
	typedef std::function<void(const V3&, V3&, V3&, double&, double&)> Field;
	Field field;
	V3 off(char kind, int idx, int node) const
	{
		double h = 1.0 + 37.1 * kind + 7.3 * idx + 1.7 * node;
		return tag * V3(sin(h), sin(2.3 * h + 1), sin(4.1 * h + 2));
	}
	V3 U(const V3& p, char k, int i, int n) const
	{
		if (field) {
			V3 u, a;
			double z, P;
			field(p, u, a, z, P);
			return u;
		}
		return fast * in_plane(U0 + G * p + off(k, i, n), plane);
	}
	V3 A(const V3& p, char k, int i, int n) const
	{
		if (field) {
			V3 u, a;
			double z, P;
			field(p, u, a, z, P);
			return a;
		}
		return fast * in_plane(A0 + H * p + off(k, i + 50, n), plane);
	}
	/// level of the water over a node
	double Z(const V3& p) const
	{
		if (!field)
			return zeta;
		V3 u, a;
		double z, P;
		field(p, u, a, z, P);
		return z;
	}
	/// dynamic pressure
	double P(const V3& p) const
	{
		if (!field)
			return 0;
		V3 u, a;
		double z, P;
		field(p, u, a, z, P);
		return P;
	}
};

struct Frame
{
	V3 p = V3::Zero(), v = V3::Zero(), w = V3::Zero(), a = V3::Zero(),
	   al = V3::Zero(); // a: imposed linear and angular accelerations
	M3 R = M3::Identity();
};
struct RodK
{
	V3 p, v, w, q;
	V3 a = V3::Zero(), al = V3::Zero();
};
struct LineK
{
	vector<V3> r, v;
};
struct Kin
{
	vector<Frame> bodies;
	vector<RodK> rods;
	vector<V3> pr, pv;
	vector<LineK> lines;
};

struct Eval
{
	const Desc& d;
	const Kin& k;
	const Water& w;
	struct LineR
	{
		vector<V3> T, Td, Bs, Pb, W, D, A, B, F, acc;
		vector<M3> M;
		dv curv;
		vector<V3> ten;
	};
	vector<LineR> lines;
	vector<V3> pF, pacc;
	vector<M3> pM;
	vector<V6> rF, racc, rFout;
	vector<M6> rM;
	vector<V6> bF, bacc, bFout;
	vector<M6> bM;
	vector<vector<V3>> rodr;
	vector<vector<M3>> rodM;

	Eval(const Desc& D, const Kin& K, const Water& wt)
	  : d(D)
	  , k(K)
	  , w(wt)
	{
		for (size_t i = 0; i < d.lines.size(); i++)
			line(i);
		for (size_t i = 0; i < d.points.size(); i++)
			point(i);
		for (size_t i = 0; i < d.rods.size(); i++)
			rod(i);
		for (size_t i = 0; i < d.bodies.size(); i++)
			body(i);
	}

	/// fraction of a line segment under water
	static double submerged(V3 a, V3 b, double diam, double zeta)
	{
		a.z() -= zeta;
		b.z() -= zeta;
		if (a.z() > b.z())
			std::swap(a, b);
		if (b.z() < 0)
			return 1;
		if (a.z() > 0)
			return 0;
		if (a.z() == -b.z())
			return 0.5;
		V3 ax = b - a;
		double h = hypot(ax.x(), ax.y());
		// the corners of the segment in its vertical plane
		double dz = 0.5 * diam * h / ax.norm();
		double lo = dz - a.z(), up = b.z() + dz;
		return lo / (lo + up);
	}

	V3 contact(const V3& r, const V3& v, double area, bool fric) const
	{
		V3 f = V3::Zero();
		double h = -d.env.depth - r.z();
		if (h <= 0)
			return f;
		f.z() = (h * d.env.kb - v.z() * d.env.cb) * area;
		double vh = hypot(v.x(), v.y());
		if (fric && vh > 0) {
			double m = fabs(f.z()) * d.env.mu, ff = vh * d.env.mu * d.env.fd;
			if (ff > d.env.sd * m)
				ff = m;
			f.x() = -ff * v.x() / vh;
			f.y() = -ff * v.y() / vh;
		}
		return f;
	}

	void line(size_t li)
	{
		auto& L = d.lines[li];
		auto& t = d.lt[L.type];
		auto& r = k.lines[li].r;
		auto& v = k.lines[li].v;
		const int N = L.N;
		const double g = d.env.g, rw = d.env.rho;
		LineR o;
		const double l = L.L / N, A = M_PI / 4 * t.d * t.d;
		double EA = t.ea.on() ? t.ea.y.back() / t.ea.x.back() : t.EA;
		double BA = t.BA < 0 ? -t.BA * (L.L0 > 0 ? L.L0 : L.L) / N * sqrt(EA * t.w) : t.BA;
		if (L.EA >= 0)
			EA = L.EA;
		vector<V3> e(N);
		dv ls(N), F(N);
		vector<V3> P(N + 1, V3::Zero());
		o.T.assign(N, V3::Zero());
		o.Td = o.T;
		for (int s = 0; s < N; s++) {
			V3 dr = r[s + 1] - r[s];
			ls[s] = dr.norm();
			e[s] = dr / ls[s];
			double str = ls[s] / l - 1, rate = e[s].dot(v[s + 1] - v[s]) / l;
			if (str > 0)
				o.T[s] = (t.ea.on() ? t.ea.at(str) : EA * str) * e[s];
			double td = BA * rate;
			if (t.ba.on())
				td = t.ba.x[0] < 0 ? t.ba.at(rate)
				                   : (rate < 0 ? -t.ba.at(-rate) : t.ba.at(rate));
			o.Td[s] = td * e[s];
			F[s] = submerged(
			    r[s], r[s + 1], t.d, 0.5 * (w.Z(r[s]) + w.Z(r[s + 1])));
		}
		bool bend = t.EI > 0 || t.ei.on();
		bool canA = L.a.kind != 'p', canB = L.b.kind != 'p';
		vector<V3> q(N + 1);
		for (int i = 1; i < N; i++)
			q[i] = (r[i + 1] - r[i - 1]).normalized();
		q[0] = e[0];
		q[N] = e[N - 1];
		if (bend && canA)
			q[0] = L.a.kind == 'a' ? V3(-k.rods[L.a.i].q) : k.rods[L.a.i].q;
		if (bend && canB)
			q[N] = L.b.kind == 'a' ? k.rods[L.b.i].q : V3(-k.rods[L.b.i].q);
		o.curv.assign(N + 1, 0);
		o.Bs.assign(N + 1, V3::Zero());
		o.Pb = o.Bs;
		if (bend || L.pb)
			for (int i = 0; i <= N; i++) {
				V3 u1, u2;
				double len;
				if (i == 0) {
					if (!canA)
						continue;
					u1 = q[0];
					u2 = e[0];
					len = ls[0];
				} else if (i == N) {
					if (!canB)
						continue;
					u1 = e[N - 1];
					u2 = q[N];
					len = ls[N - 1];
				} else {
					u1 = e[i - 1];
					u2 = e[i];
					len = ls[i - 1] + ls[i];
				}
				double c = u1.dot(u2);
				double K = c >= 1 ? 0 : 4 / len * sqrt(0.5 * (1 - c));
				o.curv[i] = K;
				V3 n = u1.cross(u2);
				if (n.norm() < 1e-13 || K == 0)
					continue;
				n.normalize();
				if (bend) {
					double mom = t.ei.on() ? t.ei.at(K) : t.EI * K;
					V3 f1 = V3::Zero(), f2 = V3::Zero();
					if (i > 0) {
						f1 = e[i - 1].cross(n) * mom / ls[i - 1];
						o.Bs[i - 1] += f1;
					}
					if (i < N) {
						f2 = e[i].cross(n) * mom / ls[i];
						o.Bs[i + 1] += f2;
					}
					o.Bs[i] -= f1 + f2;
				}
				if (L.pb) {
					double h = std::max(0.0, w.Z(r[i]) - r[i].z());
					double p = (L.pin.empty() ? 0.0 : L.pin[i]) - rw * g * h -
					           w.P(r[i]);
					double len0 = (i == 0 || i == N) ? l : 2 * l;
					o.Pb[i] = 0.5 * A * len0 * p * K * q[i].cross(n);
				}
			}
		for (int i = 0; i <= N; i++) {
			// half lengths on each side of the node
			double s0 = i > 0 ? 0.5 * l : 0, s1 = i < N ? 0.5 * l : 0;
			double wet = (i > 0 ? s0 * F[i - 1] : 0) + (i < N ? s1 * F[i] : 0);
			double mass = t.w * (s0 + s1);
			M3 Q = q[i] * q[i].transpose(), Pn = M3::Identity() - Q;
			o.M.push_back(mass * M3::Identity() +
			              rw * A * wet * (t.Ca * Pn + t.CaAx * Q));
			o.W.push_back(V3(0, 0, -g * (mass - rw * A * wet)));
			V3 u = w.U(r[i], 'L', li, i) + w.current - v[i];
			V3 uq = Q * u, up = Pn * u;
			o.D.push_back(0.5 * rw * t.d * wet *
			              (t.Cd * up.norm() * up + t.CdAx * M_PI * uq.norm() * uq));
			V3 a = w.A(r[i], 'L', li, i);
			o.A.push_back(rw * A * wet *
			              ((1 + t.Ca) * (Pn * a) + (1 + t.CaAx) * (Q * a)));
			o.B.push_back(contact(r[i], v[i], t.d * (s0 + s1), true));
			V3 f = o.W[i] + o.D[i] + o.A[i] + o.B[i] + o.Bs[i] + o.Pb[i];
			if (i < N)
				f += o.T[i] + o.Td[i];
			if (i > 0)
				f -= o.T[i - 1] + o.Td[i - 1];
			o.F.push_back(f);
			o.acc.push_back(o.M[i].ldlt().solve(f));
			V3 tn = V3::Zero();
			if (i < N)
				tn += o.T[i] + o.Td[i];
			if (i > 0)
				tn += o.T[i - 1] + o.Td[i - 1];
			o.ten.push_back((i == 0 || i == N) ? tn : V3(0.5 * tn));
		}
		lines.push_back(o);
	}

	void point(size_t i)
	{
		auto& p = d.points[i];
		V3 f(0, 0, d.env.g * (p.V * d.env.rho - p.m));
		double m = p.m + p.V * d.env.rho * p.Ca;
		V3 u = w.U(k.pr[i], 'P', i, 0) + w.current - k.pv[i];
		f += 0.5 * d.env.rho * p.CdA * u.norm() * u;
		M3 M = m * M3::Identity();
		for (size_t j = 0; j < d.lines.size(); j++) {
			auto& L = d.lines[j];
			if (L.a.kind == 'p' && L.a.i == (int)i) {
				f += lines[j].F[0];
				M += lines[j].M[0];
			}
			if (L.b.kind == 'p' && L.b.i == (int)i) {
				f += lines[j].F[L.N];
				M += lines[j].M[L.N];
			}
		}
		pF.push_back(f);
		pM.push_back(M);
		pacc.push_back(p.att == FREE ? V3(M.ldlt().solve(f)) : V3::Zero());
	}

	void rod(size_t ri)
	{
		auto& R = d.rods[ri];
		auto& t = d.rt[R.type];
		auto& K = k.rods[ri];
		const double g = d.env.g, rw = d.env.rho;
		const int N = R.N;
		const double len = (R.b - R.a).norm();
		const double Ar = M_PI / 4 * t.d * t.d;
		const V3 q = K.q;
		const double ch = q.z(), sh = hypot(q.x(), q.y()); // cos, sin of tilt
		V3 hd(1, 0, 0); // heading of the axis
		if (sh > 1e-6)
			hd = V3(q.x() / sh, q.y() / sh, 0);
		vector<V3> r(N + 1), v(N + 1);
		for (int i = 0; i <= N; i++) {
			double s = len * i / N;
			r[i] = K.p + s * q;
			v[i] = K.v + s * K.w.cross(q);
		}
		// wet length of the axis, from the end under water
		const double level = w.Z(r[N]);
		const double zA = r[0].z() - level, zB = r[N].z() - level;
		double h0, h1; // submerged interval of the axis
		if (zA < 0 && zB < 0) {
			h0 = 0;
			h1 = len;
		} else if (zA < 0 && zB > 0) {
			h0 = 0;
			h1 = -zA / ch;
		} else if (zA > 0 && zB < 0) {
			h0 = -zA / ch;
			h1 = len;
		} else {
			h0 = h1 = 0;
		}
		V6 F = V6::Zero();
		M6 M = M6::Zero();
		V3 mom = V3::Zero();
		vector<M3> Ms;
		M3 Q = q * q.transpose(), Pn = M3::Identity() - Q;
		double Lsum = 0;
		V3 tilt(-hd.y(), hd.x(), 0); // axis of the tilt rotation
		for (int i = 0; i <= N; i++) {
			double dL = (i == 0 || i == N) ? 0.5 * len / N : len / N;
			double wet0 = std::max(
			    0.0, std::min(Lsum + dL, h1) - std::max(Lsum, h0));
			double f0 = wet0 / dL;
			Lsum += dL;
			double z = r[i].z() - level, rad = 0.5 * t.d * sh;
			double frac, zc; // wet part of the cross section and its centroid
			if (z - rad > 0) {
				frac = 0;
				zc = 0;
			} else if (z + rad < 0) {
				frac = 1;
				zc = r[i].z();
			} else {
				double al = acos(2 * z / sh / t.d);
				double s = 2 * al - sin(2 * al);
				frac = s / (2 * M_PI);
				zc = r[i].z() - 2.0 / 3.0 * t.d * pow(sin(al), 3) / s;
			}
			double vof = f0 * ch * ch + frac * sh * sh;
			double m = t.w * dL;
			M3 Mi = m * M3::Identity() + vof * rw * Ar * dL * t.Ca * Pn;
			V3 u = w.U(r[i], 'R', ri, i) + w.current - v[i], a = w.A(r[i], 'R', ri, i);
			V3 f(0, 0, -m * g);
			// radial buoyancy
			V3 nup = V3(0, 0, 1) - ch * q;
			f += vof * Ar * dL * rw * g * nup;
			V3 up = Pn * u;
			f += vof * 0.5 * rw * t.Cd * t.d * dL * up.norm() * up;
			f += vof * rw * (1 + t.Ca) * Ar * dL * (Pn * a);
			f += contact(r[i], v[i], t.d * dL, false);
			auto ends = [&](double sgn) {
				if (z - rad >= 0)
					return;
				// hydrostatic pressure on the cap
				f += sgn * vof * Ar * rw * g * zc * q;
				mom += -sgn * vof * M_PI / 64 * pow(t.d, 4) * rw * g * sh *
				       tilt;
				f -= sgn * vof * Ar * w.P(r[i]) * q;
				V3 uq = Q * u;
				f += 0.5 * vof * Ar * rw * t.CdEnd * uq.norm() * uq;
				double Ve = 2.0 / 3.0 * M_PI * pow(t.d / 2, 3);
				f += vof * rw * t.CaEnd * Ve * (Q * a);
				Mi += vof * rw * t.CaEnd * Ve * Q;
			};
			if (i == 0)
				ends(-1);
			if (i == N)
				ends(+1);
			for (size_t j = 0; j < d.lines.size(); j++) {
				auto& L = d.lines[j];
				for (int en = 0; en < 2; en++) {
					const End& E = en ? L.b : L.a;
					if (E.kind == 'p' || E.i != (int)ri)
						continue;
					if ((E.kind == 'a' && i == 0) || (E.kind == 'b' && i == N)) {
						f += lines[j].F[en ? L.N : 0];
						Mi += lines[j].M[en ? L.N : 0];
					}
				}
			}
			V3 rel = r[i] - r[0];
			F.head<3>() += f;
			F.tail<3>() += rel.cross(f);
			M += mass_at(rel, Mi);
			Ms.push_back(Mi);
		}
		if (zA < 0 && zB > 0) // waterplane
			mom += -M_PI / 16 * pow(t.d, 4) * rw * g * sh * ch * tilt;
		F.tail<3>() += mom;
		// rotational inertia of a homogeneous cylinder, less what the lumped
		// masses overestimate
		double mt = t.w * len, rr = t.d / 2;
		double Ir = mt * (rr * rr / 4 - len * len / (6.0 * N * N)),
		       Il = mt * rr * rr / 2;
		M.bottomRightCorner<3, 3>() += Ir * Pn + Il * Q;
		V6 acc = V6::Zero(), out = F;
		if (R.att == FREE)
			acc = M.ldlt().solve(F);
		else if (R.att == PINNED || R.att == CPLDPIN || R.att == BODYPIN) {
			V3 mt3 = F.tail<3>() - M.bottomLeftCorner<3, 3>() * K.a;
			acc.tail<3>() = M.bottomRightCorner<3, 3>().ldlt().solve(mt3);
		}
		if (R.att == COUPLED) {
			V6 a6;
			a6 << K.a, K.al;
			out = F - M * a6;
		} else if (R.att == CPLDPIN) {
			out.head<3>() = F.head<3>() - M.topLeftCorner<3, 3>() * K.a -
			                M.topRightCorner<3, 3>() * acc.tail<3>();
			out.tail<3>().setZero();
		}
		rF.push_back(F);
		rM.push_back(M);
		racc.push_back(acc);
		rFout.push_back(out);
		rodr.push_back(r);
		rodM.push_back(Ms);
	}

	void body(size_t bi)
	{
		auto B = d.bodies[bi];
		auto& K = k.bodies[bi];
		const double g = d.env.g, rw = d.env.rho;
		if (B.att == COUPLED || B.att == FIXED) {
			B.m = B.V = 0;
			B.cg.setZero();
			B.I.setZero();
			B.CdA.setZero();
			B.Ca.setZero();
		}
		// in the body frame
		M6 M0 = M6::Zero();
		M0.bottomRightCorner<3, 3>() = B.I.asDiagonal();
		M0 += mass_at(B.cg, B.m * M3::Identity());
		M0.diagonal() += B.V * rw * B.Ca;
		M6 RR = M6::Zero();
		RR.topLeftCorner<3, 3>() = K.R;
		RR.bottomRightCorner<3, 3>() = K.R;
		M6 M = RR * M0 * RR.transpose();
		V6 F = V6::Zero();
		V3 cg = K.R * B.cg, fg(0, 0, (B.V * rw - B.m) * g);
		F.head<3>() = fg - M.topLeftCorner<3, 3>() * K.w.cross(K.w.cross(cg));
		F.tail<3>() = cg.cross(fg);
		V3 u = w.U(K.p, 'B', bi, 0) + w.current - K.v, o = -K.w;
		F.head<3>() += 0.5 * rw * u.norm() *
		               (K.R * V3(B.CdA.head<3>().cwiseProduct(K.R.transpose() * u)));
		F.tail<3>() += 0.5 * rw * o.norm() *
		               (K.R * V3(B.CdA.tail<3>().cwiseProduct(K.R.transpose() * o)));
		for (size_t i = 0; i < d.points.size(); i++) {
			if (d.points[i].att != BODY || d.points[i].body != (int)bi)
				continue;
			V3 rel = k.pr[i] - K.p;
			F.head<3>() += pF[i] - pM[i] * K.w.cross(K.w.cross(rel));
			F.tail<3>() += rel.cross(pF[i]);
			M += mass_at(rel, pM[i]);
		}
		for (size_t i = 0; i < d.rods.size(); i++) {
			auto& R = d.rods[i];
			if ((R.att != BODY && R.att != BODYPIN) || R.body != (int)bi)
				continue;
			V3 rel = k.rods[i].p - K.p;
			V3 f = rF[i].head<3>();
			F.head<3>() += f;
			for (int j = 0; j <= R.N; j++)
				F.head<3>() -= rodM[i][j] * K.w.cross(K.w.cross(rodr[i][j] - K.p));
			F.tail<3>() += rel.cross(f) + V3(rF[i].tail<3>());
			M += mass_shift(rel, rM[i]);
		}
		V6 acc = V6::Zero(), out = F;
		if (B.att == FREE)
			acc = M.partialPivLu().solve(F);
		else if (B.att == CPLDPIN) {
			V3 mt = F.tail<3>() - M.bottomLeftCorner<3, 3>() * K.a;
			acc.tail<3>() = M.bottomRightCorner<3, 3>().ldlt().solve(mt);
			out.head<3>() = F.head<3>() - M.topLeftCorner<3, 3>() * K.a -
			                M.topRightCorner<3, 3>() * acc.tail<3>();
			out.tail<3>().setZero();
		} else if (B.att == COUPLED) {
			V6 a6;
			a6 << K.a, K.al;
			out = F - M * a6;
		}
		bF.push_back(F);
		bM.push_back(M);
		bacc.push_back(acc);
		bFout.push_back(out);
	}
};

// ------------------------------------------------------------------ runs --
using vf::Ctx;
using vf::Sys;

/// What each transition compares
struct What
{
	bool lines = true, points = true, rods = true, bodies = true,
	     forces = true;
	bool extras = true; // load components of the lines
};

/// Drives the real system with Euler steps of dtM, checking each one
struct Run
{
	Ctx& c;
	Desc d;
	vf::Model m;
	Sys s;
	Water w;
	What what;
	dv x, xd, xdprev;
	vector<V3> spin; // axial spin of the rods, not visible from outside
	double maxrel = 0;
	double rtol = 1e-8;
	unsigned nk = 0;
	bool hold = false; // the driver does not set new kinematics

	int plane = 0;     // the motion stays in a vertical plane
	double fast = 1;   // quicker motions, before start()

	Run(Ctx& ctx, const Desc& desc, const string& name, int pl = 0)
	  : c(ctx)
	  , d(in_plane(desc, pl))
	  , m(d.model(name))
	  , plane(pl)
	{
	}
	/// velocities of the coupled objects
	dv project(dv v) const
	{
		v.resize(m.x0.size(), 0.0);
		for (auto& y : v)
			y *= fast;
		if (!plane)
			return v;
		size_t ix = 0;
		auto put = [&](bool turn) {
			V3 q(v[ix], v[ix + 1], v[ix + 2]);
			q = turn ? turn_plane(q, plane) : in_plane(q, plane);
			for (int j = 0; j < 3; j++)
				v[ix++] = q[j];
		};
		for (auto& b : d.bodies)
			if (b.att == COUPLED || b.att == CPLDPIN) {
				put(false);
				put(true);
			}
		for (auto& r : d.rods)
			if (r.att == COUPLED || r.att == CPLDPIN) {
				put(false);
				if (r.att == COUPLED)
					put(true);
			}
		for (auto& p : d.points)
			if (p.att == COUPLED)
				put(false);
		return v;
	}

	V3 g3(int (*f)(MoorDynLine, unsigned int, double*), MoorDynLine l, unsigned i)
	{
		double v[3];
		c.req(f(l, i, v) == 0, "getter", "a line getter fails");
		return V3(v[0], v[1], v[2]);
	}
	static dv tod(const V3& v) { return { v.x(), v.y(), v.z() }; }
	static dv tod(const V6& v) { return dv(v.data(), v.data() + 6); }

	void start(const dv& xd0)
	{
		c.req(s.create(m, c.dir), "create", "Create fails");
		c.req(s.ndof == m.x0.size(), "dof", "number of coupled DOFs");
		x = m.x0;
		xd = project(xd0);
		s.x = x;
		s.xd = xd;
		s.f.assign(x.size() + 6, 0.0);
		c.req(MoorDyn_Init_NoIC(s.md, x.data(), xd.data()) == 0,
		      "init",
		      "Init fails");
		s.t = 0;
		xdprev = xd;
		spin.assign(d.rods.size(), V3::Zero());
		if (d.extwaves)
			c.req(MoorDyn_ExternalWaveKinInit(s.md, &nk) == 0,
			      "extwaves",
			      "ExternalWaveKinInit fails");
	}

	/// waves of a given elevation series over a grid: the field is the one the
	/// library tells at each place (which C16 decides), before start()
	void waves()
	{
		d.extwaves = false;
		string e;
		for (int i = 0; i <= 32; i++)
			e += sfmt("%g %g\n", 0.5 * i,
			          0.8 * sin(2 * M_PI * 2 * i / 32.0 + 0.7) +
			              0.3 * sin(2 * M_PI * 3 * i / 32.0 + 1));
		m.files["water_grid.txt"] = vf::water_grid();
		m.files["wave_elevation.txt"] = e;
		m.opt("WaveKin", 3).opt("dtWave", 0.5);
		w.field = [this](const V3& p, V3& U, V3& A, double& z, double& P) {
			double u[3], a[3];
			c.req(MoorDyn_GetWavesKin(MoorDyn_GetWaves(s.md), p.x(), p.y(),
			                          p.z(), u, a, &z, &P,
			                          MoorDyn_GetSeafloor(s.md)) == 0,
			      "getter", "GetWavesKin fails");
			U = V3(u);
			A = V3(a);
		};
	}

	void set_water()
	{
		if (!d.extwaves)
			return;
		dv p(3 * nk), u(3 * nk), a(3 * nk);
		c.req(MoorDyn_ExternalWaveKinGetCoordinates(s.md, p.data()) == 0,
		      "extwaves",
		      "coordinates");
		unsigned n = 0;
		auto put = [&](char kind, int idx, int node) {
			c.req(n < nk, "extcount", "fewer coordinates than nodes");
			V3 q(p[3 * n], p[3 * n + 1], p[3 * n + 2]);
			V3 U = w.U(q, kind, idx, node), A = w.A(q, kind, idx, node);
			for (int j = 0; j < 3; j++) {
				u[3 * n + j] = U[j];
				a[3 * n + j] = A[j];
			}
			n++;
			return q;
		};
		auto near3 = [&](const V3& q, const double* v, const string& what) {
			c.req((q - V3(v)).norm() < 1e-9, "extcoord", "coordinates of " + what);
		};
		double b[6], v[6];
		for (size_t i = 0; i < d.lines.size(); i++)
			for (int j = 0; j <= d.lines[i].N; j++) {
				V3 q = put('L', i, j);
				MoorDyn_GetLineNodePos(MoorDyn_GetLine(s.md, i + 1), j, b);
				near3(q, b, sfmt("line %zu node %d", i + 1, j));
			}
		for (size_t i = 0; i < d.rods.size(); i++)
			for (int j = 0; j <= d.rods[i].N; j++) {
				V3 q = put('R', i, j);
				MoorDyn_GetRodNodePos(MoorDyn_GetRod(s.md, i + 1), j, b);
				near3(q, b, sfmt("rod %zu node %d", i + 1, j));
			}
		for (size_t i = 0; i < d.points.size(); i++) {
			V3 q = put('P', i, 0);
			MoorDyn_GetPointPos(MoorDyn_GetPoint(s.md, i + 1), b);
			near3(q, b, sfmt("point %zu", i + 1));
		}
		put('G', 0, 0); // the ground
		for (size_t i = 0; i < d.bodies.size(); i++) {
			V3 q = put('B', i, 0);
			MoorDyn_GetBodyState(MoorDyn_GetBody(s.md, i + 1), b, v);
			near3(q, b, sfmt("body %zu", i + 1));
		}
		c.req(n == nk, "extcount", "more coordinates than nodes");
		if (hold)
			return; // the driver does not set anything any more
		c.req(MoorDyn_ExternalWaveKinSet(s.md, u.data(), a.data(), s.t) == 0,
		      "extwaves",
		      "set");
	}

	/// kinematics now, with the coupled objects at (x, xd)
	Kin read(const dv& xx, const dv& vv, const dv& aa)
	{
		Kin k;
		size_t ix = 0;
		double b6[6], v6[6];
		for (size_t i = 0; i < d.bodies.size(); i++) {
			auto& B = d.bodies[i];
			Frame f;
			auto h = MoorDyn_GetBody(s.md, i + 1);
			c.req(MoorDyn_GetBodyState(h, b6, v6) == 0, "getter", "body state");
			f.p = V3(b6[0], b6[1], b6[2]);
			f.R = euler(V3(b6[3], b6[4], b6[5]));
			f.v = V3(v6[0], v6[1], v6[2]);
			f.w = V3(v6[3], v6[4], v6[5]);
			if (B.att == COUPLED || B.att == CPLDPIN) {
				f.p = V3(xx[ix], xx[ix + 1], xx[ix + 2]);
				f.v = V3(vv[ix], vv[ix + 1], vv[ix + 2]);
				f.a = V3(aa[ix], aa[ix + 1], aa[ix + 2]);
				if (B.att == COUPLED) {
					f.R = euler(V3(xx[ix + 3], xx[ix + 4], xx[ix + 5]));
					f.w = V3(vv[ix + 3], vv[ix + 4], vv[ix + 5]);
					f.al = V3(aa[ix + 3], aa[ix + 4], aa[ix + 5]);
				}
				ix += 6;
			}
			k.bodies.push_back(f);
		}
		for (size_t i = 0; i < d.rods.size(); i++) {
			auto& R = d.rods[i];
			auto h = MoorDyn_GetRod(s.md, i + 1);
			double a[3], b[3], va[3], vb[3];
			unsigned n = R.N;
			c.req(MoorDyn_GetRodNodePos(h, 0, a) == 0 &&
			          MoorDyn_GetRodNodePos(h, n, b) == 0 &&
			          MoorDyn_GetRodNodeVel(h, 0, va) == 0 &&
			          MoorDyn_GetRodNodeVel(h, n, vb) == 0,
			      "getter",
			      "rod nodes");
			RodK r;
			V3 A(a), B(b), VA(va), VB(vb);
			double len = (R.b - R.a).norm();
			r.p = A;
			r.q = (B - A) / (B - A).norm();
			r.v = VA;
			r.w = r.q.cross(V3(VB - VA)) / len + r.q.dot(spin[i]) * r.q;
			if (R.att == COUPLED || R.att == CPLDPIN) {
				r.p = V3(xx[ix], xx[ix + 1], xx[ix + 2]);
				r.v = V3(vv[ix], vv[ix + 1], vv[ix + 2]);
				r.a = V3(aa[ix], aa[ix + 1], aa[ix + 2]);
				if (R.att == COUPLED) {
					r.q = euler(V3(xx[ix + 3], xx[ix + 4], xx[ix + 5])) *
					      (R.b - R.a).normalized();
					r.w = V3(vv[ix + 3], vv[ix + 4], vv[ix + 5]);
					r.al = V3(aa[ix + 3], aa[ix + 4], aa[ix + 5]);
					ix += 6;
				} else
					ix += 3;
			}
			if (R.att == BODY || R.att == BODYPIN) {
				auto& f = k.bodies[R.body];
				r.p = f.p + f.R * R.a;
				r.v = f.v + f.w.cross(f.R * R.a);
				if (R.att == BODY) {
					r.q = f.R * (R.b - R.a).normalized();
					r.w = f.w;
				}
			}
			if (R.att == FIXED) {
				r.p = R.a;
				r.q = (R.b - R.a).normalized();
				r.v = r.w = V3::Zero();
			}
			if (R.att == PINNED) {
				r.p = R.a;
				r.v = V3::Zero();
			}
			k.rods.push_back(r);
		}
		for (size_t i = 0; i < d.points.size(); i++) {
			auto& P = d.points[i];
			V3 p = P.p, v = V3::Zero();
			if (P.att == FREE) {
				auto h = MoorDyn_GetPoint(s.md, i + 1);
				double a[3], b[3];
				c.req(MoorDyn_GetPointPos(h, a) == 0 &&
				          MoorDyn_GetPointVel(h, b) == 0,
				      "getter",
				      "point");
				p = V3(a);
				v = V3(b);
			} else if (P.att == COUPLED) {
				p = V3(xx[ix], xx[ix + 1], xx[ix + 2]);
				v = V3(vv[ix], vv[ix + 1], vv[ix + 2]);
				ix += 3;
			} else if (P.att == BODY) {
				auto& f = k.bodies[P.body];
				p = f.p + f.R * P.p;
				v = f.v + f.w.cross(f.R * P.p);
			}
			k.pr.push_back(p);
			k.pv.push_back(v);
		}
		for (size_t i = 0; i < d.lines.size(); i++) {
			auto& L = d.lines[i];
			auto h = MoorDyn_GetLine(s.md, i + 1);
			LineK l;
			for (int j = 0; j <= L.N; j++) {
				V3 p, v;
				if (j == 0 || j == L.N) {
					const End& e = j ? L.b : L.a;
					if (e.kind == 'p') {
						p = k.pr[e.i];
						v = k.pv[e.i];
					} else {
						auto& r = k.rods[e.i];
						V3 rel = (e.kind == 'a' ? 0.0
						                        : (d.rods[e.i].b - d.rods[e.i].a)
						                              .norm()) *
						         r.q;
						p = r.p + rel;
						v = r.v + r.w.cross(rel);
					}
				} else {
					p = g3(MoorDyn_GetLineNodePos, h, j);
					v = g3(MoorDyn_GetLineNodeVel, h, j);
				}
				l.r.push_back(p);
				l.v.push_back(v);
			}
			k.lines.push_back(l);
		}
		return k;
	}

	void cmp(const V3& got,
	         const V3& want,
	         double scale,
	         const string& sig,
	         const string& msg)
	{
		c.checks++;
		double e = (got - want).norm();
		double tol = rtol * (scale + want.norm());
		if (!(e <= tol))
			c.fail(sig,
			       msg + sfmt(": got (%.12g %.12g %.12g) expected (%.12g %.12g "
			                  "%.12g)",
			                  got.x(),
			                  got.y(),
			                  got.z(),
			                  want.x(),
			                  want.y(),
			                  want.z()));
		maxrel = std::max(maxrel, e / (scale + want.norm()));
	}

	/// one step with the coupled objects moving at xd from x
	void step(const dv& newxd, const string& where)
	{
		const double dt = d.dt;
		xd = project(newxd);
		w.plane = plane;
		w.fast = 2 * fast - 1;
		// positions along the motion
		set_water();
		dv a(x.size());
		for (size_t i = 0; i < x.size(); i++)
			a[i] = (xd[i] - xdprev[i]) / dt;
		Kin k = read(x, xd, a);
		Eval e(d, k, w);
		s.x = x;
		s.xd = xd;
		int err = s.raw_step(dt);
		c.req(err == 0, "step", where + sfmt(": Step returns %d", err));
		xdprev = xd;
		// the loads reported are those of the evaluated state
		double S = 1; // force scale
		for (auto& l : e.lines)
			for (auto& f : l.F)
				S = std::max(S, f.norm());
		for (size_t i = 0; i < d.lines.size(); i++) {
			auto h = MoorDyn_GetLine(s.md, i + 1);
			auto& R = e.lines[i];
			auto& L = d.lines[i];
			double SL = 1;
			for (int j = 0; j < L.N; j++)
				SL = std::max(SL, R.T[j].norm() + R.Td[j].norm());
			for (int j = 0; j <= L.N && what.lines; j++) {
				string n = where + sfmt(" line %zu node %d ", i + 1, j);
				cmp(g3(MoorDyn_GetLineNodeTen, h, j), R.ten[j], SL, "tension", n + "tension");
				cmp(g3(MoorDyn_GetLineNodeForce, h, j), R.F[j], SL, "netforce", n + "net force");
				if (!what.extras)
					continue;
				cmp(g3(MoorDyn_GetLineNodeWeight, h, j), R.W[j], 1, "weight", n + "weight");
				cmp(g3(MoorDyn_GetLineNodeDrag, h, j), R.D[j], 1, "drag", n + "drag");
				cmp(g3(MoorDyn_GetLineNodeFroudeKrilov, h, j), R.A[j], 1, "froudekrylov", n + "Froude-Krylov");
				cmp(g3(MoorDyn_GetLineNodeSeabedForce, h, j), R.B[j], 1, "seabed", n + "seabed");
				cmp(g3(MoorDyn_GetLineNodeBendStiff, h, j), R.Bs[j], 1 + SL, "bending", n + "bending");
				double cv, mm[3][3];
				c.req(MoorDyn_GetLineNodeCurv(h, j, &cv) == 0, "getter", "curv");
				auto& ty = d.lt[L.type];
				// curvatures are just computed when they are needed
				if (ty.EI > 0 || ty.ei.on() || L.pb)
					c.near(cv, R.curv[j], 1e-6, 1e-6, "curvature", n + "curvature");
				c.req(MoorDyn_GetLineNodeM(h, j, mm) == 0, "getter", "M");
				for (int q = 0; q < 3; q++)
					cmp(V3(mm[q][0], mm[q][1], mm[q][2]), R.M[j].row(q).transpose(), R.M[j].norm(), "linemass", n + "mass");
			}
			// motion of the internal nodes
			for (int j = 1; j < L.N && what.lines; j++) {
				string n = where + sfmt(" line %zu node %d ", i + 1, j);
				V3 p = g3(MoorDyn_GetLineNodePos, h, j),
				   v = g3(MoorDyn_GetLineNodeVel, h, j);
				cmp(p, k.lines[i].r[j] + dt * k.lines[i].v[j], 1, "move", n + "position");
				double sa = R.M[j].inverse().norm() * (SL + 1) * dt;
				cmp(v, k.lines[i].v[j] + dt * R.acc[j], sa, "accel", n + "velocity");
			}
		}
		for (size_t i = 0; i < d.points.size() && what.points; i++) {
			auto h = MoorDyn_GetPoint(s.md, i + 1);
			double f[3], mm[3][3];
			string n = where + sfmt(" point %zu ", i + 1);
			c.req(MoorDyn_GetPointForce(h, f) == 0, "getter", "point force");
			cmp(V3(f), e.pF[i], S, "pointforce", n + "force");
			c.req(MoorDyn_GetPointM(h, mm) == 0, "getter", "point mass");
			for (int q = 0; q < 3; q++)
				cmp(V3(mm[q][0], mm[q][1], mm[q][2]), e.pM[i].row(q).transpose(), e.pM[i].norm(), "pointmass", n + "mass");
			if (d.points[i].att == FREE) {
				double p[3], v[3];
				MoorDyn_GetPointPos(h, p);
				MoorDyn_GetPointVel(h, v);
				cmp(V3(p), k.pr[i] + dt * k.pv[i], 1, "pointmove", n + "position");
				cmp(V3(v), k.pv[i] + dt * e.pacc[i], e.pM[i].inverse().norm() * S * dt, "pointaccel", n + "velocity");
			}
		}
		auto cmp6 = [&](const double* f, const V6& want, double sc, double arm, const string& sig, const string& n) {
			cmp(V3(f[0], f[1], f[2]), want.head<3>(), sc, sig, n + " (linear)");
			cmp(V3(f[3], f[4], f[5]), want.tail<3>(), sc * arm, sig, n + " (rotational)");
		};
		for (size_t i = 0; i < d.rods.size(); i++) {
			auto h = MoorDyn_GetRod(s.md, i + 1);
			auto& R = d.rods[i];
			string n = where + sfmt(" rod %zu ", i + 1);
			double len = (R.b - R.a).norm();
			double SR = S + fabs(e.rF[i].norm()) + d.rt[R.type].w * len * 10 +
			            1e4 * d.rt[R.type].d * d.rt[R.type].d * 40;
			if (what.rods) {
				double f[6], mm[6][6];
				c.req(MoorDyn_GetRodForce(h, f) == 0, "getter", "rod force");
				cmp6(f, e.rFout[i], SR, 1 + len, "rodforce", n + "force");
				c.req(MoorDyn_GetRodM(h, mm) == 0, "getter", "rod mass");
				for (int q = 0; q < 6; q++)
					cmp6(mm[q], e.rM[i].row(q).transpose(), e.rM[i].norm(), 1, "rodmass", n + sfmt("mass row %d", q));
			}
			bool pin = R.att == PINNED || R.att == CPLDPIN || R.att == BODYPIN;
			if (R.att != FREE && !pin)
				continue;
			auto& K = k.rods[i];
			V3 q1 = drot(K.w, dt) * K.q;
			V3 w1 = K.w + dt * V3(e.racc[i].tail<3>());
			spin[i] = w1;
			if (!what.rods)
				continue;
			double a[3], b[3], va[3], vb[3];
			MoorDyn_GetRodNodePos(h, 0, a);
			MoorDyn_GetRodNodePos(h, R.N, b);
			MoorDyn_GetRodNodeVel(h, 0, va);
			MoorDyn_GetRodNodeVel(h, R.N, vb);
			cmp(V3(b) - V3(a), len * q1, 1, "rodturn", n + "direction");
			double sa = e.rM[i].inverse().norm() * SR * (1 + len) * dt;
			cmp(V3(vb) - V3(va), w1.cross(len * q1), sa * len, "rodspin", n + "rotation rate");
			if (R.att == FREE) {
				cmp(V3(a), K.p + dt * K.v, 1, "rodmove", n + "position");
				cmp(V3(va), K.v + dt * V3(e.racc[i].head<3>()), sa, "rodaccel", n + "velocity");
			}
		}
		for (size_t i = 0; i < d.bodies.size() && what.bodies; i++) {
			auto h = MoorDyn_GetBody(s.md, i + 1);
			auto& B = d.bodies[i];
			string n = where + sfmt(" body %zu ", i + 1);
			double SB = S + e.bF[i].norm() + B.m * 10 + B.V * 1e4;
			double f[6], mm[6][6];
			c.req(MoorDyn_GetBodyForce(h, f) == 0, "getter", "body force");
			cmp6(f, e.bFout[i], SB, 3, "bodyforce", n + "force");
			c.req(MoorDyn_GetBodyM(h, mm) == 0, "getter", "body mass");
			for (int q = 0; q < 6; q++)
				cmp6(mm[q], e.bM[i].row(q).transpose(), e.bM[i].norm(), 1, "bodymass", n + sfmt("mass row %d", q));
			if (B.att != FREE && B.att != CPLDPIN)
				continue;
			double b6[6], v6[6];
			MoorDyn_GetBodyState(h, b6, v6);
			auto& K = k.bodies[i];
			M3 R1 = drot(K.w, dt) * K.R, Rg = euler(V3(b6[3], b6[4], b6[5]));
			for (int q = 0; q < 3; q++)
				cmp(Rg.col(q), R1.col(q), 1, "bodyturn", n + "orientation");
			double sa = e.bM[i].inverse().norm() * SB * 3 * dt;
			cmp(V3(v6[3], v6[4], v6[5]), K.w + dt * V3(e.bacc[i].tail<3>()), sa, "bodyspin", n + "rotation rate");
			if (B.att == FREE) {
				cmp(V3(b6[0], b6[1], b6[2]), K.p + dt * K.v, 1, "bodymove", n + "position");
				cmp(V3(v6[0], v6[1], v6[2]), K.v + dt * V3(e.bacc[i].head<3>()), sa, "bodyaccel", n + "velocity");
			}
		}
		// the loads given back to the driver
		size_t ix = 0;
		auto give = [&](const V6& want, int n, double sc, const string& nm) {
			for (int j = 0; j < n; j++)
				c.near(s.f[ix + j], want[j], 0, 10 * rtol * (sc + want.norm()), "coupling", where + " " + nm + sfmt(" entry %d", j));
			ix += n;
		};
		if (what.forces) {
			for (size_t i = 0; i < d.bodies.size(); i++)
				if (d.bodies[i].att == COUPLED || d.bodies[i].att == CPLDPIN)
					give(e.bFout[i], 6, S + e.bF[i].norm() * 4, "force of body");
			for (size_t i = 0; i < d.rods.size(); i++)
				if (d.rods[i].att == COUPLED || d.rods[i].att == CPLDPIN)
					give(e.rFout[i], d.rods[i].att == COUPLED ? 6 : 3, S + 4 * e.rF[i].norm() + 1e3, "force of rod");
			for (size_t i = 0; i < d.points.size(); i++)
				if (d.points[i].att == COUPLED) {
					V6 v = V6::Zero();
					v.head<3>() = e.pF[i];
					give(v, 3, S, "force of point");
				}
		}
		for (size_t i = 0; i < x.size(); i++)
			x[i] += dt * xd[i];
		c.trans();
		dv st;
		for (auto& l : k.lines)
			for (auto& p : l.r)
				for (int j = 0; j < 3; j++)
					st.push_back(p[j]);
		for (auto& r : k.rods)
			for (int j = 0; j < 3; j++) {
				st.push_back(r.p[j]);
				st.push_back(r.q[j]);
			}
		for (auto& b : k.bodies)
			for (int j = 0; j < 3; j++) {
				st.push_back(b.p[j]);
				st.push_back(b.R(0, j));
			}
		for (auto& p : k.pr)
			st.push_back(p[0] + 3 * p[1] + 7 * p[2]);
		st.push_back(w.U0.sum() + 1e3 * w.A0.sum());
		c.state(st);
	}
};

} // namespace ref
