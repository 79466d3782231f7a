// C16: the water kinematics, everywhere and at any time, against linear wave
// theory and the given currents
#define VF_MAIN
#include "ref.hpp"
#include <complex>
using namespace vf;
using namespace ref;

namespace {

typedef std::complex<double> cd;
const double TAU = 2 * M_PI;

/// k tanh(k h) = w^2 / g, by bisection
double
dispersion(double w, double g, double h)
{
	if (w == 0)
		return 0;
	double nu = w * w / g, lo = 0, hi = nu + 1.5 / h;
	while (hi * tanh(hi * h) < nu)
		hi *= 2;
	for (int i = 0; i < 200; i++) {
		double m = 0.5 * (lo + hi);
		(m * tanh(m * h) < nu ? lo : hi) = m;
	}
	return 0.5 * (lo + hi);
}

/// cosh(k(z+h))/sinh(kh) and the like, for any depth
double
ratio(char num, char den, double k, double z, double h)
{
	double e = exp(k * z), a = exp(-2 * k * (z + h)), b = exp(-2 * k * h);
	return e * (num == 'c' ? 1 + a : 1 - a) / (den == 'c' ? 1 + b : 1 - b);
}

struct Comp
{
	double w;
	cd A;
	double beta;
};

struct Kins
{
	double zeta = 0, p = 0;
	V3 u = V3::Zero(), a = V3::Zero();
};

typedef vector<double> ax;

/// piecewise linear weights, constant outside
void
weights(const ax& x, double v, size_t& i, size_t& j, double& f)
{
	i = j = 0;
	f = 0;
	if (v <= x.front() || x.size() == 1)
		return;
	if (v >= x.back()) {
		i = j = x.size() - 1;
		return;
	}
	while (x[i + 1] <= v)
		i++;
	j = i + 1;
	f = (v - x[i]) / (x[j] - x[i]);
}

struct Current
{
	ax x{ 0 }, y{ 0 }, z{ 0 }, t{ 0 };
	vector<V3> v; // [x][y][z][t]
	bool on = false;
	V3 at(const V3& p, double tt) const
	{
		if (!on)
			return V3::Zero();
		size_t I[4][2];
		double f[4];
		weights(x, p.x(), I[0][0], I[0][1], f[0]);
		weights(y, p.y(), I[1][0], I[1][1], f[1]);
		weights(z, p.z(), I[2][0], I[2][1], f[2]);
		weights(t, tt, I[3][0], I[3][1], f[3]);
		V3 s = V3::Zero();
		for (int m = 0; m < 16; m++) {
			double wt = 1;
			size_t q[4];
			for (int d = 0; d < 4; d++) {
				int b = (m >> d) & 1;
				wt *= b ? f[d] : 1 - f[d];
				q[d] = I[d][b];
			}
			s += wt * v[((q[0] * y.size() + q[1]) * z.size() + q[2]) * t.size() +
			            q[3]];
		}
		return s;
	}
};

struct Field
{
	int mode = 0; // WaveKin
	double h = 30, g = 9.80665, rho = 1025;
	vector<Comp> comps; // zeta = Re sum A exp(i(wt - k l))  (grid modes) or
	                    // |A| sin(wt - k l + arg A)
	vector<double> k;
	ax gx, gy, gz;
	double dt = 0, T = 0; // sampling and period of the grid
	size_t nt = 0;
	Current cur;
	bool unify = false;
	// bed: bottom(x,y) and its average, as positive depths
	std::function<double(double, double)> bed;
	double avg = 30;
	std::map<vector<size_t>, Kins> cache;

	void prepare()
	{
		k.clear();
		for (auto& c : comps)
			k.push_back(dispersion(c.w, g, h));
	}
	/// linear theory at still water coordinates
	Kins theory(double x, double y, double z, double t, double depth) const
	{
		Kins o;
		for (size_t i = 0; i < comps.size(); i++) {
			auto& c = comps[i];
			double cb = cos(c.beta), sb = sin(c.beta);
			double ph = c.w * t - k[i] * (x * cb + y * sb) + std::arg(c.A);
			if (mode == 7)
				ph -= M_PI / 2;
			double A = std::abs(c.A);
			double e = A * cos(ph), s = -A * sin(ph);
			o.zeta += e;
			if (c.w == 0) {
				o.p += rho * g * e;
				continue;
			}
			double C = ratio('c', 's', k[i], z, depth),
			       S = ratio('s', 's', k[i], z, depth);
			V3 dir(cb, sb, 0);
			o.u += c.w * e * C * dir + V3(0, 0, c.w * s * S);
			o.a += c.w * c.w * s * C * dir - V3(0, 0, c.w * c.w * e * S);
			o.p += rho * g * e * ratio('c', 'c', k[i], z, depth);
		}
		return o;
	}
	const Kins& node(size_t i, size_t j, size_t l, size_t n)
	{
		vector<size_t> q{ i, j, l, n };
		auto it = cache.find(q);
		if (it != cache.end())
			return it->second;
		Kins v = theory(gx[i], gy[j], gz[l], n * dt, h);
		if (unify)
			v.u += cur.at(V3(gx[i], gy[j], gz[l]), n * dt);
		return cache[q] = v;
	}
	Kins grid(double x, double y, double z, double t)
	{
		size_t I[4][2];
		double f[4];
		weights(gx, x, I[0][0], I[0][1], f[0]);
		weights(gy, y, I[1][0], I[1][1], f[1]);
		weights(gz, z, I[2][0], I[2][1], f[2]);
		double q = t / dt;
		if (fabs(q - round(q)) < 1e-9)
			q = round(q);
		f[3] = q - floor(q);
		I[3][0] = (size_t)floor(q) % nt;
		I[3][1] = (I[3][0] + 1) % nt;
		Kins o;
		for (int m = 0; m < 16; m++) {
			double wt = 1;
			for (int d = 0; d < 4; d++)
				wt *= ((m >> d) & 1) ? f[d] : 1 - f[d];
			if (wt == 0)
				continue;
			auto& v = node(I[0][m & 1],
			               I[1][(m >> 1) & 1],
			               I[2][(m >> 2) & 1],
			               I[3][(m >> 3) & 1]);
			o.zeta += wt * v.zeta;
			o.p += wt * v.p;
			o.u += wt * v.u;
			o.a += wt * v.a;
		}
		return o;
	}
	Kins at(const V3& p, double t)
	{
		Kins o;
		double bottom = -(bed ? bed(p.x(), p.y()) : h);
		double av = bed ? avg : h;
		if (mode == 7 || mode == 2 || mode == 3) {
			double z = (mode == 7) ? theory(p.x(), p.y(), 0, t, av).zeta
			                       : grid(p.x(), p.y(), 0, t).zeta;
			// the water column is mapped onto the still one
			double st = av * (p.z() - bottom) / (z - bottom) - av;
			if (st > 0)
				st = 0;
			o = mode == 7 ? theory(p.x(), p.y(), st, t, av)
			              : grid(p.x(), p.y(), st, t);
			if (mode == 7)
				o.p = 0; // not provided
		}
		if (!unify)
			o.u += cur.at(p, t);
		return o;
	}
};

/// Spectra: frequency, re, im, direction
const vector<vector<Comp>> SPECTRA = {
	{ { 0, 0, 0 }, { 0.875, cd(0.4, 0.0), 0.0 }, { 1.75, 0, 0 } },
	{ { 0, 0, 0 },
	  { 0.5, cd(0.0, 0.7), 0.4 },
	  { 1.0, cd(-0.3, 0.2), -0.9 },
	  { 1.5, cd(0.1, -0.25), 2.6 },
	  { 2.0, 0, 0 } },
	{ { 0, 0, 0 },
	  { 0.5, cd(-0.5, -0.4), M_PI / 2 },
	  { 1.0, cd(0.2, -0.1), M_PI },
	  { 1.25, cd(0.15, 0.1), -1.2 },
	  { 2.5, 0, 0.3 } },
	{ { 0, 0, 0 }, { 0.375, cd(1.1, 0.2), -0.5 }, { 0.75, cd(0.0, 0.3), 0.7 }, { 1.125, 0, 0 } },
	// many components
	{ { 0, 0, 0 },
	  { 0.1875, cd(0.1, 0.2), 0.3 },
	  { 0.375, cd(-0.1, 0.1), -0.5 },
	  { 0.5625, cd(0.05, -0.1), 0.8 },
	  { 0.75, cd(0.1, 0.0), 2.0 },
	  { 0.9375, cd(-0.05, 0.1), -2.4 },
	  { 1.125, cd(0.0, 0.1), 0.1 },
	  { 1.3125, cd(0.07, 0.02), 1.1 },
	  { 1.5, cd(-0.1, 0.03), -0.2 },
	  { 1.6875, cd(0.05, 0.05), 0.6 },
	  { 1.875, cd(0.1, -0.1), -1.0 },
	  { 2.0625, cd(0.15, 0.1), 0.9 },
	  { 2.25, cd(-0.1, 0.2), -0.7 },
	  { 2.4375, cd(0.12, -0.1), 2.9 },
	  { 2.625, cd(0.2, 0.1), 0.5 },
	  { 2.8125, 0, 0 } },
};

const vector<vector<ax>> GRIDS = {
	// x, y, z; a single entry stands for "single" (at zero)
	{ { 0 }, { 0 }, { -30, -20, -12, -6, -2, 0 } },
	{ { -10, -3, 5, 20 }, { 0 }, { -30, -15, -5, -1, 0 } },
	{ { -8, 8 }, { -5, 1, 6 }, { -25, -9, -3 } },
	{ { -9, -3, 3, 9 }, { -6, 0, 6 }, { -30, -20, -10, 0 } },
	{ { -40, -35, -30, -26, -22, -18, -15, -13, -10, -8, -5, -1, 3, 6, 33 },
	  { -30, -26, -22, -19, -17, -15, -14, -12, -11, -9, -8, -4, 1, 4 },
	  { -30, -27, -24, -21, -18, -16, -14, -12, -10, -8, -6, -4, -2.5, -1.5, -0.7, -0.2, 0 } },
};
/// how each axis is written: 0 single, 1 list, 2 first, last and number
const int GTYPES[5][3] = {
	{ 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 2, 2, 2 }, { 1, 1, 1 }
};

string
num(double v)
{
	return sfmt("%.17g", v);
}

struct Cfg
{
	int wk, cu, spec, grid, unify, depth, bed;
};
const double DEPTHS[] = { 30, 7, 900 };

string
cfgname(const Cfg& f)
{
	return sfmt("wk%d cu%d sp%d gr%d un%d d%d bed%d",
	            f.wk, f.cu, f.spec, f.grid, f.unify, f.depth, f.bed);
}

double
bedfun(const ax& X, const ax& Y, const dv& D, double x, double y)
{
	size_t i, j, k, l;
	double f, e;
	weights(X, x, i, j, f);
	weights(Y, y, k, l, e);
	size_t n = Y.size();
	return (1 - f) * ((1 - e) * D[i * n + k] + e * D[i * n + l]) +
	       f * ((1 - e) * D[j * n + k] + e * D[j * n + l]);
}

/// Fill the files and the expected field
void
setup(const Cfg& f, std::map<string, string>& files, Field& F, dv& times, double& dtw)
{
	F = Field();
	F.mode = f.wk;
	F.h = DEPTHS[f.depth];
	F.avg = F.h;
	dtw = 0.25;
	auto spec = SPECTRA[f.spec];
	if (f.depth == 1)
		for (auto& c : spec)
			c.A *= 0.3;
	if (f.depth == 2)
		for (auto& c : spec)
			c.w *= 1.25;
	auto gr = GRIDS[f.grid];
	if (f.depth == 2) // reach the bottom with an even and an uneven axis
		for (auto& z : gr[2])
			z *= f.grid == 3 ? 30 : 1;
	if (f.wk == 7 || f.wk == 2) {
		string s;
		for (size_t i = 0; i < spec.size(); i++) {
			auto& c = spec[i];
			s += num(c.w) + " " + num(c.A.real()) + " " + num(c.A.imag());
			if (c.beta != 0)
				s += " " + num(c.beta);
			s += "\n";
		}
		files["wave_frequencies.txt"] = s;
	}
	if (f.wk == 7)
		F.comps = spec;
	if (f.wk == 2) {
		double dw = 1e9;
		for (size_t i = 1; i < spec.size(); i++)
			dw = std::min(dw, spec[i].w - spec[i - 1].w);
		// evenly spaced
		size_t nw = (size_t)floor(spec.back().w / dw + 1e-9) + 1, j = 0;
		for (size_t i = 0; i < nw; i++) {
			double w = i * dw;
			while (j + 2 < spec.size() && spec[j + 1].w < w - 1e-9)
				j++;
			double e = (w - spec[j].w) / (spec[j + 1].w - spec[j].w);
			e = std::min(1.0, std::max(0.0, e));
			F.comps.push_back({ w,
			                    (1 - e) * spec[j].A + e * spec[j + 1].A,
			                    (1 - e) * spec[j].beta + e * spec[j + 1].beta });
		}
		F.nt = 2 * (nw - 1);
		F.dt = TAU / dw / F.nt;
	}
	if (f.wk == 3) {
		// a series of the elevation, with steps other than those of the grid
		dtw = f.spec % 2 ? 0.5 : 0.375;
		double Tend = 12.0;
		string s;
		ax T;
		dv E;
		double st = f.spec < 2 ? dtw : 0.3;
		for (int i = 0;; i++) {
			double t = i * st;
			double e = 0.1;
			for (auto& c : spec)
				if (c.w > 0)
					e += std::abs(c.A) * cos(c.w * t + std::arg(c.A));
			T.push_back(t);
			E.push_back(e);
			s += num(t) + " " + num(e) + "\n";
			if (t >= Tend - 1e-9)
				break;
		}
		files["wave_elevation.txt"] = s;
		size_t n = (size_t)floor(T.back() / dtw + 1e-9) + 1;
		if (n % 2)
			n--;
		dv x(n);
		for (size_t i = 0; i < n; i++) {
			size_t a, b;
			double q;
			weights(T, i * dtw, a, b, q);
			x[i] = (1 - q) * E[a] + q * E[b];
		}
		F.nt = n;
		F.dt = dtw;
		for (size_t I = 0; I <= n / 2; I++) {
			cd C = 0;
			for (size_t j = 0; j < n; j++)
				C += x[j] * std::polar(1.0, -TAU * (double)(I * j % n) / n);
			double w = TAU * I / (n * dtw);
			if (w > M_PI)
				continue; // waves shorter than 2 s are left out
			F.comps.push_back({ w, (I ? 2.0 : 1.0) * C / (double)n, 0.0 });
		}
	}
	F.T = F.dt * F.nt;
	if (f.wk == 2 || f.wk == 3) {
		string s = "--- grid ---\nheader\nheader\n";
		ax* A[3] = { &F.gx, &F.gy, &F.gz };
		for (int d = 0; d < 3; d++) {
			auto& a = gr[d];
			*A[d] = a;
			int ty = GTYPES[f.grid][d];
			s += sfmt("%d\n", ty);
			if (ty == 0)
				s += "0.0\n";
			else if (ty == 1) {
				for (auto v : a)
					s += num(v) + " ";
				s += "\n";
			} else
				s += num(a.front()) + " " + num(a.back()) +
				     sfmt(" %zu\n", a.size());
		}
		files["water_grid.txt"] = s;
	}
	// currents
	auto& C = F.cur;
	auto val = [&](double x, double y, double z, double t) {
		return V3(0.7 + 0.011 * z + 0.02 * x - 0.05 * t + 0.003 * t * t,
		          -0.3 - 0.02 * z + 0.03 * y + 0.04 * t * sin(z + x),
		          0.1 + 0.004 * z * cos(y + t));
	};
	if (f.cu == 1) {
		C.on = true;
		C.z = { -28, -17, -8, -3, 1 };
		if (f.spec == 4)
			C.z = { -29, -27, -25, -23, -21, -19, -17, -15, -12, -10, -7, -5, -2, -1, 1 };
		string s = "a\nb\nc\n";
		for (auto z : C.z) {
			V3 v = val(0, 0, z, 0);
			int nc = f.spec % 3; // number of columns
			for (int q = 2; q > nc; q--)
				v[q] = 0;
			C.v.push_back(v);
			s += num(z);
			for (int q = 0; q <= nc; q++)
				s += " " + num(v[q]);
			s += "\n";
		}
		files["current_profile.txt"] = s;
	}
	if (f.cu == 2) {
		C.on = true;
		C.z = { -26, -11, -4, 0 };
		const vector<ax> TT = { { 0, 1, 2, 4, 7 }, { 0, 2.5, 5, 7.5 }, { 2, 3, 6 }, { 0 } };
		C.t = TT[(f.spec + f.grid) % 4];
		if (f.spec == 4) {
			C.z = { -29, -27, -25, -23, -21, -19, -17, -15, -12, -10, -7, -5, -2, -1, 1 };
			C.t = { 0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1, 1.5, 2, 2.25, 3, 3.5, 5, 7 };
		}
		int nc = (f.spec + f.unify) % 3;
		string s = "a\nb\nc\nd\n";
		for (auto z : C.z)
			s += num(z) + " ";
		s += "\ne\n";
		for (auto t : C.t) {
			s += num(t);
			for (int q = 0; q <= nc; q++)
				for (auto z : C.z)
					s += " " + num(val(0, 0, z, t)[q]);
			s += "\n";
		}
		for (auto z : C.z)
			for (auto t : C.t) {
				V3 v = val(0, 0, z, t);
				for (int q = 2; q > nc; q--)
					v[q] = 0;
				C.v.push_back(v);
			}
		files["current_profile_dynamic.txt"] = s;
	}
	if (f.cu == 5) {
		C.on = true;
		C.x = f.grid == 1 ? ax{ 2 } : ax{ -6, 1, 9 };
		C.y = { -4, 5 };
		C.z = { -24, -10, 0 };
		const vector<ax> TT = { { 0, 1, 2, 4 }, { 0, 2.5, 5 }, { 1, 2 }, { 0 } };
		C.t = TT[(f.spec + f.grid) % 4];
		if (f.spec == 4) {
			C.x = { -30, -28, -26, -24, -22, -20, -19, -18, -17, -15, -12, -9, -3, 2, 6, 33 };
			C.y = { -30, -28, -26, -24, -22, -20, -18, -16, -14, -11, -8, -4, 1, 4 };
			C.z = { -29, -27, -25, -23, -21, -19, -17, -15, -12, -10, -7, -5, -1 };
			C.t = { 0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1, 1.5, 2, 2.25, 3, 3.5, 5, 7 };
		}
		string s = sfmt("%zu %zu %zu %zu\n", C.x.size(), C.y.size(), C.z.size(), C.t.size());
		for (auto a : { &C.x, &C.y, &C.z, &C.t }) {
			for (auto v : *a)
				s += num(v) + " ";
			s += "\n";
		}
		for (auto x : C.x)
			for (auto y : C.y)
				for (auto z : C.z)
					for (auto t : C.t) {
						V3 v = val(x, y, z, t);
						C.v.push_back(v);
						s += num(x) + " " + num(y) + " " + num(z) + " " + num(t) +
						     " " + num(v.x()) + " " + num(v.y()) + " " + num(v.z()) + "\n";
					}
		files["current_profile_4d.txt"] = s;
	}
	F.unify = f.unify && C.on && (f.wk == 2 || f.wk == 3);
	F.prepare();
	// instants
	times = { 0, 0.13, 0.75, 1.0, 2.5, 3.3, 6.1 };
	if (F.T > 0) {
		times.push_back(F.T - 1.6 * F.dt);
		times.push_back(F.T - F.dt);
		times.push_back(F.T - 0.4 * F.dt);
		if (!(F.unify && f.cu != 1)) { // the grid repeats itself
			times.push_back(F.T);
			times.push_back(F.T + 0.3 * F.dt);
			times.push_back(2 * F.T - 0.5 * F.dt);
			times.push_back(3 * F.T + 4.5 * F.dt);
			times.push_back(57 * F.T + 2.3 * F.dt);
		}
	} else {
		times.push_back(7.0);
		times.push_back(9.7);
		times.push_back(31.3);
		times.push_back(3600.7);
	}
	std::sort(times.begin(), times.end());
	if (F.unify && f.cu != 1)
		while (times.size() && times.back() > F.T)
			times.pop_back();
}

void
compare(Ctx& c, const Kins& w, const Kins& g, const string& where)
{
	// the wave numbers have about seven digits
	const double tol = 2e-5;
	auto v3 = [&](const V3& a, const V3& b, const char* sig) {
		c.checks++;
		if (!((a - b).norm() <= tol * (1 + b.norm())))
			c.fail(sig,
			       where + sfmt(": %s is (%.9g %.9g %.9g), expected (%.9g %.9g %.9g)",
			                    sig, a.x(), a.y(), a.z(), b.x(), b.y(), b.z()));
	};
	c.near(g.zeta, w.zeta, tol, tol, "elevation", where + ": elevation");
	v3(g.u, w.u, "velocity");
	v3(g.a, w.a, "acceleration");
	c.near(g.p, w.p, tol, 0.3, "pressure", where + ": pressure");
}

void
lattice_case(Ctx& c, const Cfg& f)
{
	Model m;
	m.name = cfgname(f);
	m.points = { "1 Fixed 0 0 -5 0 0 0 0", "2 Fixed 3 0 -4 0 0 0 0" };
	Field F;
	dv times;
	double dtw;
	setup(f, m.files, F, times, dtw);
	m.opt("dtM", 5).opt("tScheme", "euler").opt("WtrDpth", F.h);
	m.opt("g", F.g).opt("rho", F.rho);
	m.opt("WaveKin", f.wk).opt("Currents", f.cu).opt("dtWave", dtw);
	if (!f.unify)
		m.opt("UnifyCurrentGrid", 0);
	ax BX{ -20, 0, 25 }, BY{ -12, 10 };
	dv BD{ 20, 26, 30, 35, 24, 32 };
	if (f.bed) {
		for (auto& v : BD)
			v *= F.h / 30;
		string s = sfmt("%zu %zu\n", BX.size(), BY.size());
		string t;
		for (auto x : BX)
			t += num(x) + " ";
		s += t + "\n";
		t = "";
		for (auto y : BY)
			t += num(y) + " ";
		s += t + "\n";
		double sum = 0;
		for (size_t i = 0; i < BX.size(); i++)
			for (size_t j = 0; j < BY.size(); j++) {
				s += num(BX[i]) + " " + num(BY[j]) + " " + num(-BD[i * 2 + j]) + "\n";
				sum += BD[i * 2 + j];
			}
		m.files["bed.txt"] = s;
		string path = c.dir + "/s/bed.txt";
		m.opt("SeafloorFile", path);
		F.bed = [=](double x, double y) { return bedfun(BX, BY, BD, x, y); };
		// the depth of the waves is the average one
		F.avg = F.h = sum / 6;
		F.prepare();
	}
	Sys s;
	c.req(s.create(m, c.dir), "create", "Create fails");
	c.req(s.init() == 0, "init", "Init fails");
	auto W = MoorDyn_GetWaves(s.md);
	c.req(W != nullptr, "waves", "no waves handle");
	auto SF = f.bed ? MoorDyn_GetSeafloor(s.md) : nullptr;
	if (f.bed)
		c.req(SF != nullptr, "bed", "no seafloor handle");
	for (auto t : times) {
		if (s.t < t - 1e-12) {
			int e = s.raw_step(t - s.t);
			c.req(e == 0, "step", sfmt("Step returns %d", e));
		}
		for (double x : { -11.0, -2.3, 0.0, 4.7, 31.0 })
			for (double y : { -7.0, 0.0, 3.1 })
				for (double z : { 3.0, 0.4, 0.0, -0.3, -1.7, -4.4, -13.0, -F.h + 0.5, -F.h, -F.h - 3 }) {
					double U[3], A[3], zt, P;
					int e = MoorDyn_GetWavesKin(W, x, y, z, U, A, &zt, &P, SF);
					c.req(e == 0, "getkin", sfmt("GetWavesKin returns %d", e));
					Kins g;
					g.u = V3(U);
					g.a = V3(A);
					g.zeta = zt;
					g.p = P;
					compare(c, F.at(V3(x, y, z), s.t), g,
					        sfmt("at (%g %g %g) t=%g", x, y, z, s.t));
				}
	}
}

/// A system with all kind of objects: the water reaches every node
void
loads_case(Ctx& c, const Cfg& f, int sys)
{
	Desc d;
	LineT t1;
	t1.EA = 2e5;
	d.lt = { t1 };
	RodT rt;
	d.rt = { rt };
	auto point = [&](Att a, V3 p, int body = -1) {
		PointS s;
		s.att = a;
		s.body = body;
		s.p = p;
		s.m = 60;
		s.V = 0.05;
		s.CdA = 0.4;
		s.Ca = 0.8;
		d.points.push_back(s);
		return (int)d.points.size() - 1;
	};
	// submerged or through the surface
	double z0 = sys == 0 ? -5.0 : 0.0;
	int a = point(ref::FIXED, V3(-6, 2, z0 - 6));
	int b = point(ref::COUPLED, V3(4, -1, z0 + (sys ? 1.2 : -0.5)));
	int e = point(ref::FREE, V3(-1, 3, z0 - 4));
	RodS r;
	r.att = ref::FREE;
	r.type = 0;
	r.a = V3(6, 2, z0 - 3);
	r.b = sys ? V3(6.4, 2.3, z0 + 0.7) : V3(7.1, 3.2, z0 - 1.1);
	r.N = 3;
	d.rods.push_back(r);
	BodyS B;
	B.att = ref::FREE;
	B.p = V3(2, 6, z0 - 4);
	B.rpy = V3(5, 12, -20);
	B.m = 900;
	B.I = V3(500, 600, 700);
	B.V = 0.5;
	B.CdA << 1.2, 0.8, 0.5, 0.1, 0.2, 0.3;
	B.Ca << 0.5, 0.6, 0.7, 0, 0, 0;
	d.bodies.push_back(B);
	auto line = [&](End A, End Bn, double len, int N) {
		LineS l;
		l.type = 0;
		l.a = A;
		l.b = Bn;
		l.L = len;
		l.N = N;
		d.lines.push_back(l);
	};
	auto P = [&](int i) { return d.points[i].p; };
	line({ 'p', a }, { 'p', b }, (P(a) - P(b)).norm() * 1.02, 5);
	line({ 'p', e }, { 'b', 0 }, (P(e) - r.b).norm() * 1.01, 3);
	line({ 'p', a }, { 'p', e }, (P(a) - P(e)).norm() * 1.03, 2);
	Field F;
	dv times;
	double dtw;
	std::map<string, string> files;
	setup(f, files, F, times, dtw);
	d.env.depth = F.h;
	d.env.g = F.g;
	d.env.rho = F.rho;
	Run R(c, d, cfgname(f));
	for (auto& x : files)
		R.m.files.insert(x);
	R.m.opt("WaveKin", f.wk).opt("Currents", f.cu).opt("dtWave", dtw);
	if (!f.unify)
		R.m.opt("UnifyCurrentGrid", 0);
	R.what = What{};
	R.rtol = 2e-4;
	R.w.field = [&](const V3& p, V3& U, V3& A, double& z, double& pd) {
		Kins q = F.at(p, R.s.t);
		U = q.u;
		A = q.a;
		z = q.zeta;
		pd = q.p;
	};
	R.start(dv());
	for (int i = 0; i < (c.thorough() ? 40 : 14); i++)
		R.step(dv{ 0.5, -0.3, 0.2 }, sfmt("step %d", i));
}

}

void
vf::enumerate(Cases& cs, const string& tier)
{
	const bool th = tier == "thorough";
	const vector<double> GS = { 9.80665, 1.62, 30.0 };
	const vector<double> HS = { 0.1, 0.5, 1, 2, 5, 7, 10, 30, 80, 200, 900, 5000 };
	for (auto h : HS)
		for (auto g : GS)
			cs.push_back({ sfmt("dispersion h%g g%g", h, g), [=](Ctx& c) {
				int n = c.thorough() ? 4000 : 600;
				double prev = 0;
				for (int i = 0; i <= n; i++) {
					double w = i ? 0.01 * pow(1000.0, (double)(i - 1) / (n - 1)) : 0;
					double k = WaveNumber(w, g, h), r = dispersion(w, g, h);
					c.near(k, r, 3e-6, 1e-14, "wavenumber", sfmt("k(%.9g)", w));
					c.near(WaveNumber(-w, g, h), -r, 3e-6, 1e-14, "wavenumber", sfmt("k(-%.9g)", w));
					if (k < prev)
						c.fail("monotone", sfmt("k decreases at %g", w));
					prev = k;
				}
			} });
	auto add = [&](const Cfg& f) {
		cs.push_back({ "lattice " + cfgname(f), [=](Ctx& c) { lattice_case(c, f); } });
	};
	for (int de = 0; de < 3; de++)
		for (int bed = 0; bed < (de == 0 ? 2 : 1); bed++) {
			for (int cu : { 0, 1, 2, 5 }) {
				// no waves
				for (int sp = 0; sp < 4; sp++)
					for (int gr = 0; gr < (cu == 5 ? 2 : 1); gr++)
						add({ 0, cu, sp, gr, 1, de, bed });
				for (int sp = 0; sp < 4; sp++)
					if (!bed)
						for (int un = 0; un < (cu ? 2 : 1); un++)
							add({ 7, cu, sp, 0, un, de, bed });
				for (int wk : { 2, 3 })
					for (int sp = 0; sp < 4; sp++)
						for (int gr = 0; gr < 4; gr++)
							for (int un = 0; un < (cu ? 2 : 1); un++) {
								if (!th && (de || bed) && (sp + gr) % 2)
									continue;
								add({ wk, cu, sp, gr, un, de, bed });
							}
			}
		}
	// large tables: more entries along every axis than anything above has
	for (int wk : { 0, 2, 3, 7 })
		for (int cu : { 0, 1, 2, 5 })
			for (int un = 0; un < (cu ? 2 : 1); un++)
				add({ wk, cu, 4, 4, un, 0, 0 });
	for (int sys = 0; sys < 2; sys++)
		for (int de = 0; de < 3; de++)
			for (int wk : { 0, 2, 3, 7 })
				for (int cu : { 0, 1, 2, 5 })
					for (int sp = 0; sp < 4; sp++)
						for (int un = 0; un < ((wk == 2 || wk == 3) && cu ? 2 : 1); un++) {
							if (!wk && !cu && sp)
								continue;
							if (de == 1)
								continue; // shallower than the system
							Cfg f{ wk, cu, sp, sp, un, de, 0 };
							cs.push_back({ sfmt("loads s%d ", sys) + cfgname(f),
							       [=](Ctx& c) { loads_case(c, f, sys); } });
						}
}
