// Models (input-file builder), system wrapper over the public C API, and the
// library of small systems the harnesses explore.
#pragma once
#include "vf.hpp"
#include "MoorDynAPI.h"
#include "MoorDyn2.h"

namespace vf {

struct Model
{
	string name;
	vector<string> linetypes, rodtypes, bodies, rods, points, lines, outputs,
	    failure;
	vector<std::pair<string, string>> options; // name, value
	std::map<string, string> files;            // auxiliary files
	dv x0;                                     // coupled DOFs at rest
	double amp = 0.15;                         // prescribed motion amplitude
	double wfreq = 2.2;

	Model& opt(const string& n, const string& v)
	{
		for (auto& o : options)
			if (o.first == n) {
				o.second = v;
				return *this;
			}
		options.push_back({ n, v });
		return *this;
	}
	Model& opt(const string& n, double v) { return opt(n, sfmt("%.17g", v)); }
	Model& del(const string& n)
	{
		for (size_t i = 0; i < options.size(); i++)
			if (options[i].first == n) {
				options.erase(options.begin() + i);
				break;
			}
		return *this;
	}
	/// Select the integrator. The multistep ones have a much smaller stability
	/// region, so they get a shorter inner time step
	Model& scheme(const string& s)
	{
		opt("tScheme", s);
		if (s.compare(0, 2, "ab") == 0 || s.compare(0, 3, "lab") == 0)
			opt("dtM", 0.001);
		return *this;
	}
	string text() const
	{
		std::ostringstream o;
		o << "--------------------- MoorDyn Input File ----------\n"
		  << name << "\n";
		auto sec = [&](const string& t,
		               const string& h1,
		               const string& h2,
		               const vector<string>& rows) {
			if (rows.empty())
				return;
			o << "----------------------- " << t << " ---------------------\n"
			  << h1 << "\n"
			  << h2 << "\n";
			for (auto& r : rows)
				o << r << "\n";
		};
		sec("LINE TYPES",
		    "Name Diam Mass/m EA BA/-zeta EI Cd Ca CdAx CaAx",
		    "(name) (m) (kg/m) (N) (N-s/-) (N-m^2) (-) (-) (-) (-)",
		    linetypes);
		sec("ROD TYPES",
		    "Name Diam Mass/m Cd Ca CdEnd CaEnd",
		    "(name) (m) (kg/m) (-) (-) (-) (-)",
		    rodtypes);
		sec("BODIES",
		    "ID Attachment X0 Y0 Z0 r0 p0 y0 Mass CG* I* Volume CdA* Ca*",
		    "(#) (-) (m) (m) (m) (deg) (deg) (deg) (kg) (m) (kg-m^2) (m^3) "
		    "(m^2) (-)",
		    bodies);
		sec("RODS",
		    "ID RodType Attachment Xa Ya Za Xb Yb Zb NumSegs RodOutputs",
		    "(#) (name) (#/key) (m) (m) (m) (m) (m) (m) (-) (-)",
		    rods);
		sec("POINTS",
		    "ID Attachment X Y Z Mass Volume CdA Ca",
		    "(#) (-) (m) (m) (m) (kg) (m^3) (m^2) (-)",
		    points);
		sec("LINES",
		    "ID LineType AttachA AttachB UnstrLen NumSegs LineOutputs",
		    "(#) (name) (#) (#) (m) (-) (-)",
		    lines);
		sec("FAILURE",
		    "Id Point Lines FailTime FailTen",
		    "() () (,) (s) (N)",
		    failure);
		o << "---------------------- OPTIONS ----------------------\n";
		for (auto& op : options)
			o << op.second << " " << op.first << "\n";
		if (!outputs.empty()) {
			o << "---------------------- OUTPUTS ----------------------\n";
			for (auto& r : outputs)
				o << r << "\n";
		}
		o << "------------------------- need this line -------------\n";
		return o.str();
	}
	/// Prescribed kinematics of coupled DOF i at time t
	void motion(double t, dv& x, dv& xd) const
	{
		x = x0;
		xd.assign(x0.size(), 0.0);
		for (size_t i = 0; i < x0.size(); i++) {
			double ph = 0.7 * (double)i;
			x[i] += amp * (sin(wfreq * t + ph) - sin(ph));
			xd[i] = amp * wfreq * cos(wfreq * t + ph);
		}
	}
};

inline const char*
errname(int e)
{
	static char b[32];
	snprintf(b, sizeof b, "%d", e);
	return b;
}

struct Sys
{
	MoorDyn md = nullptr;
	double t = 0.0;
	dv x, xd, f;
	string path;
	unsigned int ndof = 0;
	const Model* m = nullptr;

	Sys() {}
	Sys(const Sys&) = delete;
	Sys(Sys&& o) { *this = std::move(o); }
	Sys& operator=(Sys&& o)
	{
		if (md && md != o.md)
			MoorDyn_Close(md);
		md = o.md;
		o.md = nullptr;
		t = o.t;
		x = o.x;
		xd = o.xd;
		f = o.f;
		path = o.path;
		ndof = o.ndof;
		m = o.m;
		return *this;
	}
	~Sys() { close(); }
	int close()
	{
		int e = 0;
		if (md)
			e = MoorDyn_Close(md);
		md = nullptr;
		return e;
	}

	/// write the files and create. `tag` isolates several instances
	bool create(const Model& model, const string& dir, const string& tag = "s")
	{
		m = &model;
		string d = dir + "/" + tag;
		mkdir(d.c_str(), 0700);
		path = d + "/m.txt";
		write_file(path, model.text());
		for (auto& f : model.files)
			write_file(d + "/" + f.first, f.second);
		md = MoorDyn_Create(path.c_str());
		if (!md)
			return false;
		MoorDyn_NCoupledDOF(md, &ndof);
		return true;
	}
	int init(bool noic = true)
	{
		m->motion(0.0, x, xd);
		// Init reads the velocities of the coupled DOFs
		f.assign(x.size() + 6, 0.0);
		int e = noic ? MoorDyn_Init_NoIC(md, x.data(), xd.data())
		             : MoorDyn_Init(md, x.data(), xd.data());
		t = 0.0;
		return e;
	}
	/// one coupling step following the prescribed motion
	int step(double dt)
	{
		m->motion(t, x, xd);
		return raw_step(dt);
	}
	int raw_step(double dt)
	{
		return MoorDyn_Step(md, x.data(), xd.data(), f.data(), &t, &dt);
	}
	dv forces() const { return dv(f.begin(), f.begin() + m->x0.size()); }

	/// Everything the API lets a user observe about the current state
	dv obs(bool with_aux = true) const
	{
		dv o;
		auto ck = [&](int e, const char* what) {
			if (e != MOORDYN_SUCCESS)
				throw Violation{ string("getter-error"),
					             sfmt("%s returned %d", what, e) };
		};
		unsigned int n = 0;
		double v[6], w[6];
		ck(MoorDyn_GetNumberBodies(md, &n), "GetNumberBodies");
		for (unsigned i = 1; i <= n; i++) {
			auto b = MoorDyn_GetBody(md, i);
			ck(MoorDyn_GetBodyState(b, v, w), "GetBodyState");
			o.insert(o.end(), v, v + 6);
			o.insert(o.end(), w, w + 6);
			if (with_aux) {
				ck(MoorDyn_GetBodyForce(b, v), "GetBodyForce");
				o.insert(o.end(), v, v + 6);
			}
		}
		ck(MoorDyn_GetNumberRods(md, &n), "GetNumberRods");
		for (unsigned i = 1; i <= n; i++) {
			auto b = MoorDyn_GetRod(md, i);
			unsigned nn;
			ck(MoorDyn_GetRodNumberNodes(b, &nn), "GetRodNumberNodes");
			for (unsigned j = 0; j < nn; j++) {
				ck(MoorDyn_GetRodNodePos(b, j, v), "GetRodNodePos");
				o.insert(o.end(), v, v + 3);
				ck(MoorDyn_GetRodNodeVel(b, j, v), "GetRodNodeVel");
				o.insert(o.end(), v, v + 3);
			}
			if (with_aux) {
				ck(MoorDyn_GetRodForce(b, v), "GetRodForce");
				o.insert(o.end(), v, v + 6);
			}
		}
		ck(MoorDyn_GetNumberPoints(md, &n), "GetNumberPoints");
		for (unsigned i = 1; i <= n; i++) {
			auto b = MoorDyn_GetPoint(md, i);
			ck(MoorDyn_GetPointPos(b, v), "GetPointPos");
			o.insert(o.end(), v, v + 3);
			ck(MoorDyn_GetPointVel(b, v), "GetPointVel");
			o.insert(o.end(), v, v + 3);
			if (with_aux) {
				ck(MoorDyn_GetPointForce(b, v), "GetPointForce");
				o.insert(o.end(), v, v + 3);
			}
		}
		ck(MoorDyn_GetNumberLines(md, &n), "GetNumberLines");
		for (unsigned i = 1; i <= n; i++) {
			auto b = MoorDyn_GetLine(md, i);
			unsigned nn;
			ck(MoorDyn_GetLineNumberNodes(b, &nn), "GetLineNumberNodes");
			for (unsigned j = 0; j < nn; j++) {
				ck(MoorDyn_GetLineNodePos(b, j, v), "GetLineNodePos");
				o.insert(o.end(), v, v + 3);
				ck(MoorDyn_GetLineNodeVel(b, j, v), "GetLineNodeVel");
				o.insert(o.end(), v, v + 3);
				if (with_aux) {
					ck(MoorDyn_GetLineNodeTen(b, j, v), "GetLineNodeTen");
					o.insert(o.end(), v, v + 3);
				}
			}
		}
		return o;
	}
};

// ------------------------------------------------------------- systems -----
// Scale: depth 30 m, lines about 20-30 m in 4 or 5 segments, chosen so that
// every integrator is stable for the few tenths of a second explored.

inline void
base_options(Model& m)
{
	m.opt("dtM", 0.004)
	    .opt("WtrDpth", 30.0)
	    .opt("kBot", 3.0e4)
	    .opt("cBot", 3.0e3)
	    .opt("dtIC", 0.1)
	    .opt("TmaxIC", 0.0)
	    .opt("CdScaleIC", 4.0)
	    .opt("threshIC", 0.01)
	    .opt("FrictionCoefficient", 0.2)
	    .opt("writeLog", "0");
}

static const char* LT_CHAIN = "chain 0.12 45.0 2.0e6 -0.6 0 1.3 0.9 0.3 0.2";
static const char* LT_ROPE = "rope 0.10 9.0 6.0e5 6.0e3 0 1.1 1.0 0.2 0.1";
static const char* LT_CABLE = "cable 0.15 30.0 3.0e6 -0.5 2.0e4 1.0 1.0 0.1 0.1";
static const char* RT_BUOY = "buoy 0.8 180.0 0.7 0.9 0.6 0.5";
static const char* RT_BAR = "bar 0.3 400.0 1.1 1.0 0.8 0.4";

inline Model
sys_chain()
{
	Model m;
	m.name = "chain";
	m.linetypes = { LT_CHAIN };
	m.points = { "1 Fixed 0 0 -30 0 0 0 0", "2 Coupled 22 4 -8 0 0 0 0" };
	m.lines = { "1 chain 1 2 38 5 -" };
	m.x0 = { 22, 4, -8 };
	base_options(m);
	return m;
}

inline Model
sys_bridle()
{
	Model m;
	m.name = "bridle";
	m.linetypes = { LT_CHAIN, LT_ROPE };
	m.points = { "1 Fixed -20 0 -30 0 0 0 0",
		         "2 Free 0 1 -16 60 0.03 0.4 0.8",
		         "3 Coupled 14 8 -3 0 0 0 0",
		         "4 Coupled 14 -7 -3 0 0 0 0" };
	m.lines = { "1 chain 1 2 26 4 -", "2 rope 2 3 20 3 -", "3 rope 4 2 20 4 -" };
	m.x0 = { 14, 8, -3, 14, -7, -3 };
	base_options(m);
	return m;
}

inline Model
sys_freerod()
{
	Model m;
	m.name = "freerod";
	m.linetypes = { LT_ROPE };
	m.rodtypes = { RT_BAR, RT_BUOY };
	m.rods = { "1 bar Free -2 0.5 -14 2.5 -0.3 -15 3 -",
		       "2 buoy Free 12 0 -3.5 12.5 0.2 1.0 3 -" };
	m.points = { "1 Coupled -4 1 -4 0 0 0 0",
		         "2 Coupled 5 -1 -4 0 0 0 0",
		         "3 Fixed 12 0 -30 0 0 0 0" };
	m.lines = { "1 rope 1 R1A 10.5 3 -",
		        "2 rope R1B 2 11.5 4 -",
		        "3 rope 3 R2A 26.0 4 -" };
	m.x0 = { -4, 1, -4, 5, -1, -4 };
	base_options(m);
	return m;
}

inline Model
sys_pinnedrod()
{
	Model m;
	m.name = "pinnedrod";
	m.linetypes = { LT_ROPE };
	m.rodtypes = { RT_BAR };
	m.rods = { "1 bar Pinned 0 0 -29 2.0 1.0 -24 3 -",
		       "2 bar Fixed 10 0 -28 12 0 -27 2 -" };
	m.points = { "1 Coupled 5 3 -10 0 0 0 0" };
	m.lines = { "1 rope R1B 1 14.5 4 -", "2 rope R2A 1 19.5 3 -" };
	m.x0 = { 5, 3, -10 };
	base_options(m);
	return m;
}

inline Model
sys_cpldrod()
{
	Model m;
	m.name = "cpldrod";
	m.linetypes = { LT_ROPE };
	m.rodtypes = { RT_BAR };
	m.rods = { "1 bar Coupled 0 0 -6 1.0 0.5 -3 2 -" };
	m.points = { "1 Fixed -10 0 -30 0 0 0 0", "2 Fixed 9 5 -30 0 0 0 0" };
	m.lines = { "1 rope 1 R1A 26.5 4 -", "2 rope 2 R1B 29.0 4 -" };
	double l = sqrt(1.0 + 0.25 + 9.0);
	m.x0 = { 0, 0, -6, 1.0 / l, 0.5 / l, 3.0 / l };
	m.amp = 0.1;
	base_options(m);
	return m;
}

inline Model
sys_cpldpinrod()
{
	Model m;
	m.name = "cpldpinrod";
	m.linetypes = { LT_ROPE };
	m.rodtypes = { RT_BAR };
	m.rods = { "1 bar CoupledPinned 0 0 -3 1.0 0.5 -7 3 -" };
	m.points = { "1 Fixed -10 0 -30 0 0 0 0", "2 Coupled 9 5 -2 0 0 0 0" };
	m.lines = { "1 rope 1 R1B 26.5 4 -", "2 rope R1B 2 11.0 3 -" };
	m.x0 = { 0, 0, -3, 9, 5, -2 };
	base_options(m);
	return m;
}

inline Model
sys_freebody()
{
	Model m;
	m.name = "freebody";
	m.linetypes = { LT_CHAIN };
	m.rodtypes = { RT_BUOY };
	m.bodies = { "1 Free 0 0 -2 4 -3 20 7000 0.2|0.1|-0.5 9000|8000|12000 7.0 "
		         "5|6 0.6|0.7|0.8" };
	m.rods = { "1 buoy Body1 1.5 1 -1.5 1.5 1 2.5 2 -" };
	m.points = { "1 Body1 2 0 -1 0 0 0 0",
		         "2 Body1 -1 1.7 -1 0 0 0 0",
		         "3 Body1 -1 -1.7 -1 20 0.01 0.2 0.5",
		         "4 Fixed 22 0 -30 0 0 0 0",
		         "5 Fixed -13 21 -30 0 0 0 0",
		         "6 Fixed -13 -21 -30 0 0 0 0" };
	m.lines = { "1 chain 4 1 34 4 -",
		        "2 chain 5 2 36 4 -",
		        "3 chain 3 6 36 5 -" };
	base_options(m);
	return m;
}

inline Model
sys_bodypinrod()
{
	Model m;
	m.name = "bodypinrod";
	m.linetypes = { LT_ROPE };
	m.rodtypes = { RT_BAR };
	m.bodies = { "1 Free 0 0 -8 0 10 0 3000 0 4000 2.5 3|2|4 0.5" };
	m.rods = { "1 bar Body1Pinned 1 0 -1 2.5 0.5 -3 2 -" };
	m.points = { "1 Body1 0 0 1 0 0 0 0",
		         "2 Coupled 0.5 1 3 0 0 0 0",
		         "3 Fixed 12 2 -30 0 0 0 0" };
	m.lines = { "1 rope 1 2 9.5 3 -", "2 rope 3 R1B 21 4 -" };
	m.x0 = { 0.5, 1, 3 };
	base_options(m);
	return m;
}

inline Model
sys_cpldbody()
{
	Model m;
	m.name = "cpldbody";
	m.linetypes = { LT_CHAIN };
	m.rodtypes = { RT_BAR };
	m.bodies = {
		"1 Coupled 1 2 -3 0 0 0 5000 0 6000 4.0 3 0.5",
		"2 Fixed -9 0 -25 0 0 30 1000 0 100 0.3 0 0"
	};
	m.rods = { "1 bar Body1 0 1 -1 0.5 1 -3 2 -",
		       "2 bar Body1Pinned 1 -1 -1 1.5 -2 -3.5 2 -" };
	m.points = { "1 Body1 1 0.5 -1 0 0 0 0",
		         "2 Body2 1 0 1 0 0 0 0",
		         "3 Fixed 18 6 -30 0 0 0 0" };
	m.lines = { "1 chain 2 1 25 4 -",
		        "2 chain 3 R1B 30 4 -",
		        "3 chain R2B 3 31 3 -" };
	m.x0 = { 1, 2, -3, 0, 0, 0 };
	m.amp = 0.08;
	base_options(m);
	return m;
}

inline Model
sys_cpldpinbody()
{
	Model m;
	m.name = "cpldpinbody";
	m.linetypes = { LT_CHAIN };
	m.bodies = { "1 CoupledPinned 0 0 -5 5 0 0 4000 0.3|0|-1 6000 2.0 3 0.5" };
	m.points = { "1 Body1 1 0.5 -2 0 0 0 0",
		         "2 Fixed -14 0 -30 0 0 0 0",
		         "3 Body1 -1 0 -2 0 0 0 0",
		         "4 Fixed 13 5 -30 0 0 0 0" };
	m.lines = { "1 chain 4 1 27 4 -", "2 chain 2 3 27 4 -" };
	m.x0 = { 0, 0, -5, 0, 0, 0 };
	base_options(m);
	return m;
}

inline Model
sys_cable()
{
	Model m;
	m.name = "cable";
	m.linetypes = { LT_CABLE };
	m.rodtypes = { "conn 0.15 0 0 0 0 0" };
	m.rods = { "1 conn Fixed 0 0 -12 1 0.2 -12 0 -" };
	m.points = { "1 Coupled 15 3 -14 0 0 0 0" };
	m.lines = { "1 cable R1A 1 16.2 5 -" };
	m.x0 = { 15, 3, -14 };
	base_options(m);
	return m;
}

inline Model
sys_mixed()
{
	Model m;
	m.name = "mixed";
	m.linetypes = { LT_CHAIN, LT_ROPE };
	m.rodtypes = { RT_BAR, RT_BUOY };
	m.bodies = { "1 Free 0 0 -6 0 5 10 4000 0.1|0|-0.2 5000 3.8 4 0.6",
		         "2 Coupled 20 0 -2 0 0 0 1000 0 100 0.5 0 0" };
	m.rods = { "1 bar Free 8 2 -12 10 2 -13 2 -",
		       "2 bar Coupled -12 0 -4 -12 0 -2 2 -",
		       "3 bar Pinned -5 -6 -29 -4 -6 -26 2 -" };
	m.points = { "1 Body1 1 0 0 0 0 0 0",
		         "2 Body1 -1 0 0 0 0 0 0",
		         "3 Body2 0 0 -1 0 0 0 0",
		         "4 Coupled -3 8 -2 0 0 0 0",
		         "5 Fixed 9 5 -30 0 0 0 0",
		         "6 Free -4 -5 -18 80 0.05 0.3 1" };
	m.lines = { "1 chain 1 R1A 10.5 3 -",
		        "2 chain R1B 3 14.5 3 -",
		        "3 rope R2A 2 12 3 -",
		        "4 rope 2 4 9.5 3 -",
		        "5 chain 5 R1B 18.5 4 -",
		        "6 rope R3B 6 8.6 3 -",
		        "7 rope 6 2 14 3 -" };
	double q = 1.0;
	m.x0 = { 20, 0, -2, 0, 0, 0, -12, 0, -4, 0, 0, q, -3, 8, -2 };
	m.amp = 0.08;
	base_options(m);
	return m;
}

inline string
current_profile()
{
	return "--- MoorDyn steady currents File ---\n"
	       "Tabulated file with the water currents components\n"
	       "z (m), ux (m/s), uy (m/s), uz (m/s)\n"
	       "-30.0 0.1 0.0 0.0\n"
	       "-12.0 0.5 -0.1 0.02\n"
	       "0.0 1.1 0.2 0.0\n";
}

inline Model
sys_current()
{
	Model m = sys_bridle();
	m.name = "current";
	m.opt("Currents", "1");
	m.files["current_profile.txt"] = current_profile();
	return m;
}

inline string
wave_freqs()
{
	return "0.0 0.0 0.0 0.0\n"
	       "0.7 0.8 0.3 0.4\n"
	       "1.2 0.4 -0.2 2.0\n"
	       "2.0 0.0 0.1 0.0\n";
}

inline string
water_grid()
{
	return "--- MoorDyn Waves grid File ---\n"
	       "List of grid points, in 3 blocks (x, y, z)\n"
	       "Each block starts with the type\n"
	       "2\n"
	       "-30 30 7\n"
	       "1\n"
	       "-12 -3 4 12\n"
	       "2\n"
	       "-30 2 9\n";
}

inline Model
sys_wavesnode()
{
	Model m = sys_freerod();
	m.name = "wavesnode";
	m.opt("WaveKin", "7");
	m.files["wave_frequencies.txt"] = wave_freqs();
	m.files["water_grid.txt"] = water_grid();
	return m;
}

inline Model
sys_wavesgrid()
{
	Model m = sys_mixed();
	m.name = "wavesgrid";
	m.opt("WaveKin", "3").opt("dtWave", 0.5);
	m.files["water_grid.txt"] = water_grid();
	string e;
	for (int i = 0; i <= 32; i++)
		e += sfmt("%g %g\n",
		          0.5 * i,
		          0.8 * sin(2 * M_PI * 2 * i / 32.0) +
		              0.3 * sin(2 * M_PI * 3 * i / 32.0 + 1));
	m.files["wave_elevation.txt"] = e;
	m.opt("Currents", "1");
	m.files["current_profile.txt"] = current_profile();
	return m;
}

inline Model
sys_slackseabed()
{
	// a line mostly lying on the seabed, moving sideways: friction branches
	Model m;
	m.name = "slackseabed";
	m.linetypes = { LT_CHAIN };
	m.points = { "1 Fixed 0 0 -30 0 0 0 0",
		         "2 Coupled 24 0 -27 0 0 0 0",
		         "3 Free 10 6 -30.2 200 0.02 0.5 0.5" };
	m.lines = { "1 chain 1 2 26 5 -", "2 chain 3 2 17 4 -" };
	m.x0 = { 24, 0, -27 };
	m.amp = 0.4;
	base_options(m);
	return m;
}

inline Model
sys_nonlin()
{
	Model m;
	m.name = "nonlin";
	m.linetypes = { "poly 0.12 12.0 stiff.txt 6.0e3 0 1.1 1.0 0.1 0.1" };
	m.files["stiff.txt"] = "---- poly ----\nStrain Tension\n(-) (N)\n0.0 0.0\n"
	                       "0.01 8.0e3\n0.03 5.0e4\n0.1 3.0e5";
	m.points = { "1 Fixed -12 2 -30 0 0 0 0", "2 Coupled 14 0 -2 0 0 0 0" };
	m.lines = { "1 poly 1 2 37 4 -" };
	m.x0 = { 14, 0, -2 };
	base_options(m);
	return m;
}

/// more than nine objects of each kind, and a long line
inline Model
sys_many()
{
	Model m;
	m.name = "many";
	m.linetypes = { LT_CHAIN, LT_ROPE, "soft 0.10 20.0 5.0e4 -0.3 0 1.2 1.0 0.2 0.1" };
	m.rodtypes = { RT_BAR, RT_BUOY };
	dv xr, xp;
	for (int i = 1; i <= 11; i++) {
		double X = 9.0 * i, Y = i % 2 ? 1.5 : -2.0;
		// bodies 2 and 11 are coupled, 5 is fixed
		const char* kind = i == 2 || i == 11 ? "Coupled" : i == 5 ? "Fixed" : "Free";
		m.bodies.push_back(sfmt("%d %s %g %g %g %d %d %d %d 0.1|0|-0.1 %d %g 2 0.5",
		                        i, kind, X, Y, -6.0 - 0.3 * i,
		                        i == 2 || i == 11 ? 0 : 2 * i, 0, i == 2 || i == 11 ? 0 : 7 * i,
		                        1500 + 60 * i, 900 + 50 * i, 1.9 + 0.02 * i));
		if (i == 2 || i == 11)
			for (double v : { X, Y, -6.0 - 0.3 * i, 0.0, 0.0, 0.0 })
				m.x0.push_back(v);
		static const char* K[] = { "Free", "Pinned", "Coupled", "CoupledPinned", "Fixed", "Body", "BodyPinned" };
		string k = K[i % 7];
		double a[3] = { X + 1.0, Y + 8.0, -14.0 - 0.2 * i }, b[3] = { X + (i % 7 == 2 ? 1.0 : 1.4), Y + 8.0, -12.0 - 0.2 * i };
		if (i % 7 >= 5) {
			k = sfmt(i % 7 == 5 ? "Body%d" : "Body%dPinned", i);
			a[0] = 0.3, a[1] = 0.4, a[2] = -0.5;
			b[0] = 0.9, b[1] = 1.4, b[2] = -1.2;
		}
		m.rods.push_back(sfmt("%d %s %s %g %g %g %g %g %g %d -",
		                      i, i % 3 ? "bar" : "buoy", k.c_str(), a[0], a[1], a[2], b[0], b[1], b[2], 1 + i % 3));
		if (i % 7 == 2)
			for (double v : { a[0], a[1], a[2], 0.0, 0.0, 1.0 })
				xr.push_back(v);
		if (i % 7 == 3)
			for (double v : { a[0], a[1], a[2] })
				xr.push_back(v);
		m.points.push_back(sfmt("%d Body%d 0.5 0.2 -0.4 %d 0 0 0", i, i, i % 3 * 10));
	}
	for (int i = 1; i <= 11; i++) {
		double X = 9.0 * i, Y = i % 2 ? 1.5 : -2.0;
		m.points.push_back(sfmt("%d Fixed %g %g -30 0 0 0 0", 11 + i, X + 2.0, Y + 3.0));
		double d = std::sqrt(4.0 + 9.0 + (24 - 0.3 * i) * (24 - 0.3 * i));
		m.lines.push_back(i % 2 ? sfmt("%d chain %d %d %g %d -", i, i, 11 + i, d, 2 + i % 3)
		                        : sfmt("%d rope %d R%dB %g %d -", i, 11 + i, i,
		                               i % 7 >= 5 ? d + 1.0 : std::sqrt(1.0 + 25.0 + (18 - 0.2 * i) * (18 - 0.2 * i)), 2 + i % 3));
	}
	m.points.push_back("23 Coupled 50 -12 -3 0 0 0 0");
	xp.insert(xp.end(), { 50.0, -12.0, -3.0 });
	m.points.push_back("24 Free 40 -14 -16 60 0.03 0.4 0.8");
	m.points.push_back("25 Fixed 30 -14 -30 0 0 0 0");
	m.lines.push_back("12 soft 23 24 16.6 36 -");
	m.lines.push_back("13 rope 24 25 17.3 3 -");
	m.x0.insert(m.x0.end(), xr.begin(), xr.end());
	m.x0.insert(m.x0.end(), xp.begin(), xp.end());
	m.amp = 0.08;
	base_options(m);
	return m;
}

inline vector<Model>
all_systems()
{
	return { sys_chain(),       sys_bridle(),      sys_freerod(),
		     sys_pinnedrod(),   sys_cpldrod(),     sys_cpldpinrod(),
		     sys_freebody(),    sys_bodypinrod(),  sys_cpldbody(),
		     sys_cpldpinbody(), sys_cable(),       sys_mixed(),
		     sys_current(),     sys_wavesnode(),   sys_wavesgrid(),
		     sys_slackseabed(), sys_nonlin(),      sys_many() };
}

inline vector<string>
all_schemes()
{
	return { "euler", "leuler", "heun",    "rk2",       "rk4",
		     "ab2",   "ab3",    "ab4",     "lab2",      "lab3",
		     "lab4",  "beuler4", "midpoint4", "anderson5", "aca4",
		     "wilson6" };
}

} // namespace vf
