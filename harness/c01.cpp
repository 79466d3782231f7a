// C01: checkpoint / resume. Every (system x scheme x save point x transport x
// continuation) execution is compared with the uninterrupted run.
#define VF_MAIN
#include "md.hpp"
using namespace vf;

static const double DT = 0.02;

struct Trace
{
	vector<dv> obs, f;
	dv t;
};

static void
must(int e, const char* what)
{
	if (e != MOORDYN_SUCCESS)
		throw Violation{ "api-error", sfmt("%s returned %d", what, e) };
}

static void
cmp(Ctx& c, const Sys& s, const Trace& tr, size_t k, const string& what)
{
	c.near(s.t, tr.t[k], 0, 1e-10, "clock", what + " time");
	c.near(s.obs(), tr.obs[k], 1e-9, 1e-10, "state", what + " state");
	c.near(s.forces(), tr.f[k], 1e-9, 1e-8, "force", what + " coupling force");
}

/// the operation a driver performs between steps (a small live alphabet)
static void
action(Sys& s, int act, size_t k)
{
	if (act == 1 && k == 1) {
		// pay in some line
		auto l = MoorDyn_GetLine(s.md, 1);
		double ul;
		must(MoorDyn_GetLineUnstretchedLength(l, &ul), "GetUL");
		must(MoorDyn_SetLineUnstretchedLength(l, ul * 0.995), "SetUL");
	}
}

static void
scenario(Ctx& c,
         const Model& m,
         const string& mode,
         size_t k,
         size_t n,
         int act = 0)
{
	// uninterrupted twin
	Trace tr;
	{
		Sys s;
		if (!s.create(m, c.dir, "twin"))
			c.fail("create", "Create failed");
		must(s.init(), "Init");
		tr.obs.push_back(s.obs());
		tr.f.push_back(s.forces());
		tr.t.push_back(s.t);
		for (size_t i = 0; i < n; i++) {
			action(s, act, i);
			must(s.step(DT), "Step");
			c.trans();
			tr.obs.push_back(s.obs());
			tr.f.push_back(s.forces());
			tr.t.push_back(s.t);
			c.state(tr.obs.back());
		}
		for (auto v : tr.obs.back())
			if (!std::isfinite(v))
				c.fail("diverged", "the uninterrupted run fails: " + m.name);
		c.outcome(tr.obs.back());
	}
	Sys a;
	if (!a.create(m, c.dir, "a"))
		c.fail("create", "Create failed");
	must(a.init(), "Init");
	for (size_t i = 0; i < k; i++) {
		action(a, act, i);
		must(a.step(DT), "Step");
		c.trans();
	}
	string ck = c.dir + "/ck.bin";
	auto cont = [&](Sys& s, size_t from, size_t to) {
		for (size_t i = from; i < to; i++) {
			action(s, act, i);
			must(s.step(DT), "Step");
			c.trans();
			cmp(c, s, tr, i + 1, sfmt("after resume at %zu, step %zu", from, i + 1));
		}
		c.trace();
	};
	auto fresh = [&](Sys& s, const string& tag) {
		if (!s.create(m, c.dir, tag))
			c.fail("create", "Create failed");
		must(s.init(), "Init");
	};
	auto buf = [&](Sys& s) {
		size_t sz = 0;
		must(MoorDyn_Serialize(s.md, &sz, nullptr), "Serialize(size)");
		if (sz % 8)
			c.fail("size", "odd serialization size");
		vector<uint64_t> d(sz / 8 + 1, 0x5a5a5a5a5a5a5a5aull);
		must(MoorDyn_Serialize(s.md, nullptr, d.data()), "Serialize(data)");
		c.req(d.back() == 0x5a5a5a5a5a5a5a5aull,
		      "size",
		      "Serialize wrote beyond the size it announced");
		return d;
	};
	if (mode == "file") {
		must(MoorDyn_Save(a.md, ck.c_str()), "Save");
		Sys b;
		fresh(b, "b");
		must(MoorDyn_Load(b.md, ck.c_str()), "Load");
		b.t = a.t;
		b.f = a.f;
		c.near(b.obs(), tr.obs[k], 1e-12, 1e-12, "state-at-load", "loaded state");
		cont(b, k, n);
	} else if (mode == "saver") {
		// saving must not disturb the run that is saved
		must(MoorDyn_Save(a.md, ck.c_str()), "Save");
		cont(a, k, n);
	} else if (mode == "buffer") {
		auto d = buf(a);
		Sys b;
		fresh(b, "b");
		must(MoorDyn_Deserialize(b.md, d.data()), "Deserialize");
		b.t = a.t;
		cont(b, k, n);
	} else if (mode == "rollback") {
		// try one future, come back, take the real one
		must(MoorDyn_Save(a.md, ck.c_str()), "Save");
		double t0 = a.t;
		for (int i = 0; i < 2; i++) {
			m.motion(a.t, a.x, a.xd);
			for (auto& v : a.xd)
				v = -0.4 * v + 0.05;
			must(a.raw_step(DT), "Step");
			c.trans();
		}
		must(MoorDyn_Load(a.md, ck.c_str()), "Load");
		a.t = t0;
		cont(a, k, n);
	} else if (mode == "other") {
		// load into an instance which already followed another history
		must(MoorDyn_Save(a.md, ck.c_str()), "Save");
		Sys b;
		fresh(b, "b");
		for (int i = 0; i < 3; i++) {
			m.motion(b.t, b.x, b.xd);
			for (auto& v : b.xd)
				v = 0.3 * v - 0.07;
			must(b.raw_step(DT * 0.75), "Step");
			c.trans();
		}
		must(MoorDyn_Load(b.md, ck.c_str()), "Load");
		b.t = a.t;
		cont(b, k, n);
	} else if (mode == "chain") {
		// save, resume, step, save over the same file, resume elsewhere
		must(MoorDyn_Save(a.md, ck.c_str()), "Save");
		Sys b;
		fresh(b, "b");
		must(MoorDyn_Load(b.md, ck.c_str()), "Load");
		b.t = a.t;
		a.close();
		if (k < n) {
			action(b, act, k);
			must(b.step(DT), "Step");
			cmp(c, b, tr, k + 1, "first resume");
			must(MoorDyn_Save(b.md, ck.c_str()), "Save");
			auto d = buf(b);
			Sys e;
			fresh(e, "e");
			must(MoorDyn_Load(e.md, ck.c_str()), "Load");
			e.t = b.t;
			b.close();
			// what was loaded serialises to what was saved
			auto d2 = buf(e);
			c.req(d == d2, "reserialize", "Serialize(Load(x)) != x");
			cont(e, k + 1, n);
		}
	} else
		throw HarnessError{ "mode" };
}

void
vf::enumerate(Cases& cs, const string& tier)
{
	bool th = tier == "thorough";
	auto add = [&](const Model& m,
	               const string& sch,
	               const string& mode,
	               size_t k,
	               size_t n,
	               int act) {
		Model mm = m;
		mm.scheme(sch);
		cs.push_back({ m.name + "/" + sch + "/" + mode + sfmt("/k%zu/a%d", k, act),
		               [=](Ctx& c) { scenario(c, mm, mode, k, n, act); } });
	};
	vector<string> modes = { "file", "saver", "buffer", "rollback", "other", "chain" };
	for (auto& m : all_systems())
		for (auto& s : all_schemes())
			for (auto& mode : modes)
				for (size_t k : th ? vector<size_t>{ 0, 1, 2, 3, 4, 5, 6, 8, 11 }
				                   : vector<size_t>{ 0, 1, 5 })
					add(m, s, mode, k, k + (th ? 6 : 4), 0);
	for (auto& m : all_systems())
		for (string s : { "rk2", "ab3", "beuler4" })
			for (auto& mode : modes)
				add(m, s, mode, 3, 6, 1);
	// late in a run
	int q = 0;
	for (auto& m : all_systems())
		for (string s : { "rk2", "ab3" })
			for (auto& mode : modes)
				if (th || q++ % 5 == 0)
					add(m, s, mode, 1700, 1703, 0);
}
