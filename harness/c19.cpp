// C19: the legacy interface, in lockstep with a mirror system driven through the
// current one. Every sequence of calls up to a depth is run; the model of the
// singleton is just which system is alive, and every answer is compared.
#define VF_MAIN
#include "md.hpp"
#include "MoorDyn.h"
#include <dirent.h>
#include <memory>

using namespace vf;

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t
__sanitizer_get_current_allocated_bytes();
#else
static size_t
__sanitizer_get_current_allocated_bytes()
{
	return 0;
}
#endif

namespace {

int
nfds()
{
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	if (!d)
		return -1;
	while (readdir(d))
		n++;
	closedir(d);
	return n;
}

Model
model_a()
{
	Model m = sys_bridle();
	m.name = "legacyA";
	m.opt("TmaxIC", 0.2);
	return m;
}
Model
model_b()
{
	Model m = sys_chain();
	m.name = "legacyB";
	m.points.push_back("3 Free 2 20 -12 60 0.03 0.4 0.8");
	m.opt("WaveKin", 1);
	return m;
}
/// refused at Init: a line end below the seabed
Model
model_bad()
{
	Model m = sys_chain();
	m.name = "legacyX";
	m.opt("WtrDpth", 30);
	m.opt("dtIC", 0);
	m.opt("TmaxIC", 5);
	return m;
}

enum Op
{
	INIT_A,
	INIT_B,
	INIT_DEF,
	INIT_EMPTY,
	INIT_MISSING,
	INIT_REFUSED,
	INIT_NULLX,
	STEP,
	STEP_NULL,
	WAVES,
	CLOSE,
	NOP
};
const char* NAMES[] = { "initA",   "initB",   "initdefault", "initempty",
	                    "missing", "refused", "nullx",       "step",
	                    "stepnull", "waves",  "close" };

const vector<int> CORE = { INIT_A, INIT_B, INIT_REFUSED, STEP, WAVES, CLOSE };

/// both sides
struct Pair
{
	MoorDyn md = nullptr; // mirror
	const Model* m = nullptr;
	double t = 0.0;
	int nw = 0;
	int phase = 0;
	string dir;

	void clear()
	{
		if (md)
			MoorDyn_Close(md);
		md = nullptr;
		for (int i = 0; i < 4 && !MoorDynClose(); i++)
			;
	}
	~Pair() { clear(); }
};

/// Everything the old interface lets see, compared
dv
probe(Ctx& c, Pair& p, const string& where, bool full = true)
{
	auto bad = [&](const string& sig, const string& what) {
		c.fail(sig, where + ": " + what);
	};
	dv o;
	const double MARK = -12345.5;
	const bool on = p.md != nullptr;
	unsigned nl = 0, np = 0;
	if (on) {
		MoorDyn_GetNumberLines(p.md, &nl);
		MoorDyn_GetNumberPoints(p.md, &np);
	}
	for (int i : { -1, 0, 1, 2, 3, 4, 5, 100 }) {
		if (!full && on && (i < 1 || i > (int)std::max(nl, np)))
			continue;
		bool ok = i >= 1 && i <= (int)nl;
		double t = GetFairTen(i);
		if (ok) {
			double r = MARK;
			MoorDyn_GetLineFairTen(MoorDyn_GetLine(p.md, i), &r);
			c.same(dv{ t }, dv{ r }, "fairten", where + sfmt(": GetFairTen(%d)", i));
			o.push_back(t);
		} else if (!(t < 0))
			bad("fairten-err", sfmt("GetFairTen(%d) = %g", i, t));
		unsigned nn = 0;
		if (ok)
			MoorDyn_GetLineNumberNodes(MoorDyn_GetLine(p.md, i), &nn);
		for (int j : { -1, 0, 1, 2, 3, 4, 5, 6, 100 }) {
			double a[3] = { MARK, MARK, MARK }, b[3] = { MARK, MARK, MARK };
			bool nok = ok && j >= 0 && j < (int)nn;
			if (!full && !nok)
				continue;
			int e = GetNodePos(i, j, a);
			if (nok) {
				MoorDyn_GetLineNodePos(MoorDyn_GetLine(p.md, i), j, b);
				if (e)
					bad("nodepos", sfmt("GetNodePos(%d, %d) returned %d", i, j, e));
			} else if (!e)
				bad("nodepos-err", sfmt("GetNodePos(%d, %d) returned no error", i, j));
			c.same(dv(a, a + 3), dv(b, b + 3), "nodepos", where + sfmt(": GetNodePos(%d, %d)", i, j));
			if (nok)
				o.insert(o.end(), a, a + 3);
		}
		for (int k = 0; k < 2; k++) {
			double a[3] = { MARK, MARK, MARK }, b[3] = { MARK, MARK, MARK };
			int e = k ? GetPointForce(i, a) : GetPointPos(i, a);
			const char* nm = k ? "GetPointForce" : "GetPointPos";
			bool pok = i >= 1 && i <= (int)np;
			if (pok) {
				auto pt = MoorDyn_GetPoint(p.md, i);
				k ? MoorDyn_GetPointForce(pt, b) : MoorDyn_GetPointPos(pt, b);
				if (e)
					bad("point", sfmt("%s(%d) returned %d", nm, i, e));
			} else if (!e)
				bad("point-err", sfmt("%s(%d) returned no error", nm, i));
			c.same(dv(a, a + 3), dv(b, b + 3), "point", where + sfmt(": %s(%d)", nm, i));
			if (pok)
				o.insert(o.end(), a, a + 3);
		}
	}
	for (int n = 0; n <= 5; n++) {
		vector<float> a(24, -7.f), b(24, -7.f);
		int m = n;
		int e = GetFASTtens(&m, &a[0], &a[6], &a[12], &a[18]);
		bool ok = on && n <= (int)nl;
		if (ok) {
			// straight from the tensions of the end nodes
			for (int i = 0; i < n; i++) {
				m = n;
				MoorDyn_GetFASTtens(p.md, &m, &b[0], &b[6], &b[12], &b[18]);
			}
		}
		if (ok && e)
			bad("fasttens", sfmt("GetFASTtens(%d) returned %d", n, e));
		if (!ok && !e)
			bad("fasttens-err", sfmt("GetFASTtens(%d) returned no error", n));
		c.same(dv(a.begin(), a.end()), dv(b.begin(), b.end()), "fasttens", where + sfmt(": GetFASTtens(%d)", n));
		if (ok)
			o.insert(o.end(), a.begin(), a.begin() + n);
	}
	return o;
}

const Model&
mod(int k)
{
	static const Model A = model_a(), B = model_b(), X = model_bad();
	return k == 0 ? A : k == 1 ? B : X;
}

void
mirror_init(Pair& p, const Model& m, const string& path, const double* x, const double* xd, int& err)
{
	MoorDyn n = MoorDyn_Create(path.c_str());
	if (!n) {
		err = MOORDYN_UNHANDLED_ERROR;
		return;
	}
	err = MoorDyn_Init(n, x, xd);
	if (err) {
		MoorDyn_Close(n);
		return;
	}
	if (p.md)
		MoorDyn_Close(p.md);
	p.md = n;
	p.m = &m;
	p.t = 0;
	p.nw = 0;
}

void
apply(Ctx& c, Pair& p, int op, const string& where)
{
	auto bad = [&](const string& sig, const string& what) {
		c.fail(sig, where + ": " + what);
	};
	const string& d = p.dir;
	if (op <= INIT_NULLX) {
		const Model& m = op == INIT_B ? mod(1) : op == INIT_REFUSED ? mod(2) : mod(0);
		string path = op == INIT_A      ? d + "/a/m.txt"
		              : op == INIT_B    ? d + "/b/m.txt"
		              : op == INIT_DEF  ? ""
		              : op == INIT_EMPTY   ? ""
		              : op == INIT_MISSING ? d + "/none/m.txt"
		              : op == INIT_REFUSED ? d + "/x/m.txt"
		                                   : d + "/a/m.txt";
		string mpath = op == INIT_A || op == INIT_DEF || op == INIT_EMPTY || op == INIT_NULLX
		                   ? d + "/a2/m.txt"
		               : op == INIT_B       ? d + "/b2/m.txt"
		               : op == INIT_REFUSED ? d + "/x2/m.txt"
		                                    : path;
		dv x, xd;
		m.motion(0.0, x, xd);
		x.resize(64);
		xd.resize(64);
		const double *px = x.data(), *pv = xd.data();
		if (op == INIT_NULLX)
			px = nullptr;
		int e = MoorDynInit(px, pv, op == INIT_DEF ? nullptr : path.c_str());
		int r = 0;
		mirror_init(p, m, mpath, px, pv, r);
		bool must = op <= INIT_EMPTY;
		if (must && e)
			bad("init", sfmt("a valid initialisation returned %d", e));
		if (!must && !e)
			bad("init-err", "an invalid initialisation was accepted");
		if ((e == 0) != (r == 0))
			bad("init", sfmt("MoorDynInit returned %d, the current interface %d", e, r));
	} else if (op == STEP || op == STEP_NULL) {
		static const Model none = mod(0);
		const Model& m = p.md ? *p.m : none;
		dv x, xd;
		m.motion(p.t + 0.002, x, xd);
		x.resize(64);
		xd.resize(64);
		dv fa(64, -3.0), fb(64, -3.0);
		double ta = p.t, tb = p.t, da = 0.01, db = 0.01;
		const double* px = op == STEP_NULL ? nullptr : x.data();
		int e = MoorDynStep(px, xd.data(), fa.data(), &ta, &da);
		if (!p.md) {
			if (!e)
				bad("step-err", "MoorDynStep returned no error without a system");
		} else {
			int r = MoorDyn_Step(p.md, px, xd.data(), fb.data(), &tb, &db);
			if (op == STEP && (e || r))
				bad("step", sfmt("MoorDynStep returned %d (the current interface %d)", e, r));
			if (e != r)
				bad("step", sfmt("MoorDynStep returned %d, MoorDyn_Step %d", e, r));
			p.t = tb;
		}
		c.same(fa, fb, "forces", where + ": forces");
		c.same(dv{ ta, da }, dv{ tb, db }, "time", where + ": time and time step");
	} else if (op == WAVES) {
		int n = externalWaveKinInit();
		unsigned r = 0;
		if (p.md && MoorDyn_ExternalWaveKinInit(p.md, &r))
			r = 0;
		if (n != (int)r)
			bad("waves", sfmt("externalWaveKinInit() = %d instead of %u", n, r));
		dv a(3 * 24, -9.0), b(3 * 24, -9.0);
		getWaveKinCoordinates(a.data());
		if (p.md)
			MoorDyn_ExternalWaveKinGetCoordinates(p.md, b.data());
		c.same(a, b, "wavecoords", where + ": getWaveKinCoordinates");
		dv U(3 * 24), Ud(3 * 24);
		for (size_t i = 0; i < U.size(); i++) {
			U[i] = 0.4 * sin(0.3 * i + p.phase);
			Ud[i] = 0.2 * cos(0.5 * i + p.phase);
		}
		p.phase++;
		setWaveKin(U.data(), Ud.data(), p.t);
		if (p.md)
			MoorDyn_ExternalWaveKinSet(p.md, U.data(), Ud.data(), p.t);
	} else if (op == CLOSE) {
		int e = MoorDynClose();
		if (p.md && e)
			bad("close", sfmt("MoorDynClose returned %d", e));
		if (!p.md && !e)
			bad("close-err", "MoorDynClose returned no error without a system");
		if (p.md)
			MoorDyn_Close(p.md);
		p.md = nullptr;
	}
}

void
setup(const string& dir)
{
	auto put = [&](const Model& m, const string& sub, const string& name) {
		string d = dir + "/" + sub;
		mkdir(d.c_str(), 0700);
		write_file(d + "/" + name, m.text());
		for (auto& f : m.files)
			write_file(d + "/" + f.first, f.second);
	};
	put(mod(0), "a", "m.txt");
	put(mod(0), "a2", "m.txt");
	put(mod(1), "b", "m.txt");
	put(mod(1), "b2", "m.txt");
	put(mod(2), "x", "m.txt");
	put(mod(2), "x2", "m.txt");
	put(mod(0), "Mooring", "lines.txt");
}

string
title(const vector<int>& q, size_t n)
{
	string s;
	for (size_t i = 0; i < n; i++)
		s += string(i ? " " : "") + NAMES[q[i]];
	return s;
}

/// probes: after every call, or just at the end
void
run_seq(Ctx& c, Pair& p, const vector<int>& q, bool each, bool quiet)
{
	for (size_t i = 0; i < q.size(); i++) {
		string w = title(q, i + 1);
		apply(c, p, q[i], w);
		if (!quiet)
			c.trans();
		if (each || i + 1 == q.size()) {
			dv o = probe(c, p, w, i + 1 == q.size());
			if (!quiet)
				c.state(o);
		}
	}
}

void
seq_case(Ctx& c, int a, int b, bool core)
{
	string old = c.dir;
	setup(c.dir);
	if (chdir(c.dir.c_str()))
		throw HarnessError{ "chdir" };
	// the whole set of calls, or the most different ones to a higher depth
	const int depth = (c.thorough() ? 4 : 3) + (core ? 2 : 0);
	const vector<int> all = { INIT_A, INIT_B, INIT_DEF, INIT_EMPTY, INIT_MISSING, INIT_REFUSED, INIT_NULLX, STEP, STEP_NULL, WAVES, CLOSE };
	const vector<int> ops = core ? CORE : all;
	vector<int> q = { a, b };
	int n = 0;
	std::function<void()> rec = [&]() {
		if ((int)q.size() == depth) {
			Pair p;
			p.dir = c.dir;
			n++;
			run_seq(c, p, q, n % 2, false);
			p.clear();
			// nothing is left behind
			if (n % 3 == 0) {
				auto again = [&](size_t& m, int& f) {
					{
						Pair s;
						s.dir = c.dir;
						run_seq(c, s, q, true, true);
					}
					m = __sanitizer_get_current_allocated_bytes();
					f = nfds();
				};
				size_t m0 = __sanitizer_get_current_allocated_bytes(), m1;
				int f0 = nfds(), f1;
				again(m1, f1);
				if (m1 > m0) { // a first use may allocate buffers
					m0 = m1;
					f0 = f1;
					again(m1, f1);
				}
				c.req(m1 <= m0, "leak", title(q, q.size()) + sfmt(": %zu bytes are left behind", m1 - m0));
				c.req(f1 == f0, "files", title(q, q.size()) + sfmt(": %d files are left open", f1 - f0));
			}
			c.trace();
			return;
		}
		for (int k : ops) {
			q.push_back(k);
			rec();
			q.pop_back();
		}
	};
	rec();
	c.outcome(dv{ (double)n });
}

/// the same run through both interfaces
void
run_case(Ctx& c, const Model& m)
{
	Pair p;
	for (auto s : { "l", "m" }) {
		string d = c.dir + "/" + s;
		mkdir(d.c_str(), 0700);
		write_file(d + "/m.txt", m.text());
		for (auto& f : m.files)
			write_file(d + "/" + f.first, f.second);
	}
	for (int life = 0; life < 2; life++) {
		dv x, xd;
		m.motion(0.0, x, xd);
		int e = MoorDynInit(x.data(), xd.data(), (c.dir + "/l/m.txt").c_str());
		int r = 0;
		mirror_init(p, m, c.dir + "/m/m.txt", x.data(), xd.data(), r);
		c.req(e == 0 && r == 0, "init", sfmt("MoorDynInit returned %d, the current interface %d", e, r));
		for (int i = 0; i < (c.thorough() ? 60 : 15); i++) {
			apply(c, p, STEP, sfmt("life %d, step %d", life, i));
			c.trans();
			c.state(probe(c, p, sfmt("life %d, after step %d", life, i)));
		}
		if (life)
			apply(c, p, CLOSE, "close");
	}
	c.outcome(dv{ (double)m.x0.size() });
	c.trace();
}

} // namespace

void
vf::enumerate(Cases& cs, const string& tier)
{
	(void)tier;
	for (int a = 0; a < NOP; a++)
		for (int b = 0; b < NOP; b++)
			cs.push_back({ sfmt("seq/%s/%s", NAMES[a], NAMES[b]), [=](Ctx& c) { seq_case(c, a, b, false); } });
	for (int a : CORE)
		for (int b : CORE)
			cs.push_back({ sfmt("core/%s/%s", NAMES[a], NAMES[b]), [=](Ctx& c) { seq_case(c, a, b, true); } });
	for (auto& m : all_systems()) {
		Model k = m;
		cs.push_back({ "run/" + k.name, [=](Ctx& c) { run_case(c, k); } });
	}
}
