// C04: the clock, the division of a request in inner steps, and the settings.
// All the sequences of operations (steps of several lengths, null and negative
// steps, changes of inner step / CFL / integrator) up to a depth.
#define VF_MAIN
#include "md.hpp"
using namespace vf;

static const double H = 1.0 / 256;

static void
must(int e, const char* what)
{
	if (e != MOORDYN_SUCCESS)
		throw Violation{ "api-error", sfmt("%s returned %d", what, e) };
}

static string
scheme_name(const Sys& s)
{
	size_t n = 0;
	must(MoorDyn_GetTimeScheme(s.md, nullptr, &n), "GetTimeScheme");
	string o(n + 8, '\0');
	must(MoorDyn_GetTimeScheme(s.md, &o[0], nullptr), "GetTimeScheme");
	return o.c_str();
}

static const char* OPS[] = { "s4", "s1.5", "s.25", "s.3", "s0", "s-1", "dt/2",
	                         "dt=",  "cfl=",  "cfl*.7", "sch=", "sch+" };
static const int NOPS = 12;

static bool
is_local(const string& s)
{
	return s == "leuler" || s.compare(0, 3, "lab") == 0;
}
static bool
multi(const string& s)
{
	return s.compare(0, 2, "ab") == 0 || s.compare(0, 3, "lab") == 0;
}

static void
sequence(Ctx& c, const Model& m, const string& scheme, const vector<int>& ops)
{
	Sys a, b; // b: the twin that requests every inner step separately
	if (!a.create(m, c.dir, "a") || !b.create(m, c.dir, "b"))
		c.fail("create", "Create failed");
	must(a.init(), "Init");
	must(b.init(), "Init");
	string seq;
	double clock = 0, cur_dt = 0, cur_cfl = 0;
	string cur = scheme;
	must(MoorDyn_GetDt(a.md, &cur_dt), "GetDt");
	must(MoorDyn_GetCFL(a.md, &cur_cfl), "GetCFL");
	string cur_name = scheme_name(a);
	dv pos = m.x0, vel(m.x0.size(), 0.0);
	bool dtcheck = true, changed = false;
	auto chk = [&](const string& what) {
		double d, k;
		must(MoorDyn_GetDt(a.md, &d), "GetDt");
		must(MoorDyn_GetCFL(a.md, &k), "GetCFL");
		c.near(d, cur_dt, 1e-12, 0, "getdt", what + ": inner time step read back");
		c.near(k, cur_cfl, 1e-12, 0, "getcfl", what + ": CFL read back");
		c.req(scheme_name(a) == cur_name,
		      "getscheme",
		      what + ": integrator is " + scheme_name(a) + " expected " +
		          cur_name);
	};
	auto do_step = [&](double dt, int nmove) {
		// constant velocity during the request, ramped between them
		for (size_t i = 0; i < vel.size(); i++)
			vel[i] = 0.3 * sin(1.0 + 0.9 * nmove + 0.7 * i);
		a.x = pos;
		a.xd = vel;
		a.t = (nmove % 2) ? -17.0 : clock; // the caller's value is just output
		must(a.raw_step(dt), "Step");
		c.trans();
		clock += dt;
		c.near(a.t, clock, 1e-13, 1e-12, "clock", seq + ": returned time");
		// twin
		double left = dt;
		int guard = 0;
		while (left > 1e-12 && guard++ < 1000) {
			double d = std::min(left, cur_dt);
			b.x = pos;
			for (size_t i = 0; i < pos.size(); i++)
				b.x[i] += vel[i] * (dt - left);
			b.xd = vel;
			b.t = 0;
			must(b.raw_step(d), "Step");
			c.trans();
			left -= d;
		}
		for (size_t i = 0; i < pos.size(); i++)
			pos[i] += vel[i] * dt;
		dv oa = a.obs(), ob = b.obs();
		for (double v : oa)
			if (!std::isfinite(v))
				c.fail("diverged", seq + ": the run diverged");
		c.near(b.t, clock, 1e-13, 1e-10, "clock", seq + ": returned time of the twin");
		if (dtcheck) {
			c.nearv(oa, ob, 1e-10, 1e-10, "inner-steps",
			       seq + ": one request against its inner steps");
			c.nearv(a.forces(), b.forces(), 1e-10, 1e-7, "inner-steps",
			       seq + ": forces of one request against its inner steps");
		}
		c.state(oa);
	};
	int nmove = 0;
	for (int op : ops) {
		seq += string(seq.empty() ? "" : ",") + OPS[op];
		string o = OPS[op];
		if (o == "s4")
			do_step(4 * H, ++nmove);
		else if (o == "s1.5")
			do_step(1.5 * H, ++nmove);
		else if (o == "s.25")
			do_step(0.25 * H, ++nmove);
		else if (o == "s.3") {
			// not exactly representable: the remainder is up to rounding
			do_step(1.3 * H, ++nmove);
		} else if (o == "s0" || o == "s-1") {
			dv before = a.obs(), f0 = a.forces();
			double dt = o == "s0" ? 0.0 : -H;
			a.x = pos;
			a.xd = dv(pos.size(), 55.0);
			a.t = 123.0;
			a.f.assign(a.f.size(), 7.0);
			must(a.raw_step(dt), "Step");
			c.near(a.t, 123.0, 0, 0, "clock", seq + ": time argument of a null step");
			c.same(a.obs(), before, "null-step", seq + ": state after a null step");
			if (nmove) {
				c.nearv(a.forces(), f0, 1e-12, 1e-9, "null-step",
				       seq + ": forces of a null step");
				dt = 0.0;
				must(MoorDyn_Step(a.md, nullptr, nullptr, a.f.data(), &a.t, &dt),
				     "Step");
			}
			a.x = pos;
			a.xd = vel;
		} else {
			dv before = a.obs();
			if (o == "dt/2" || o == "dt=") {
				if (o == "dt/2")
					cur_dt *= 0.5;
				must(MoorDyn_SetDt(a.md, cur_dt), "SetDt");
				must(MoorDyn_SetDt(b.md, cur_dt), "SetDt");
				double k = cur_cfl;
				must(MoorDyn_GetCFL(a.md, &cur_cfl), "GetCFL");
				if (o == "dt=")
					c.near(cur_cfl, k, 1e-9, 0, "getcfl",
					       seq + ": CFL after setting the same time step");
				else
					c.near(cur_cfl, 0.5 * k, 1e-9, 0, "getcfl",
					       seq + ": CFL after halving the time step");
			} else if (o == "cfl=" || o == "cfl*.7") {
				if (o != "cfl=")
					cur_cfl *= 0.7;
				// the time step is not exactly representable any more
				dtcheck = false;
				must(MoorDyn_SetCFL(a.md, cur_cfl), "SetCFL");
				must(MoorDyn_SetCFL(b.md, cur_cfl), "SetCFL");
				double d = cur_dt;
				must(MoorDyn_GetDt(a.md, &cur_dt), "GetDt");
				c.near(cur_dt, o == "cfl=" ? d : 0.7 * d, 1e-9, 0, "getdt",
				       seq + ": time step after setting the CFL");
			} else {
				auto all = all_schemes();
				if (o == "sch+") {
					size_t i = std::find(all.begin(), all.end(), cur) - all.begin();
					// jump over a coprime stride: every pair of kinds is met
					cur = all[(i + 5) % all.size()];
				}
				must(MoorDyn_SetTimeScheme(a.md, cur.c_str()), "SetTimeScheme");
				must(MoorDyn_SetTimeScheme(b.md, cur.c_str()), "SetTimeScheme");
				changed = true;
				string nn = scheme_name(a);
				c.req(o != "sch=" || nn == cur_name, "getscheme",
				      seq + ": name changed from " + cur_name + " to " + nn);
				cur_name = nn;
			}
			c.same(a.obs(), before, "settings",
			       seq + ": state after changing the settings");
		}
		chk(seq);
	}
	// A system created with the final settings, given this state, goes on the
	// same way
	Model m2 = m;
	m2.opt("tScheme", cur);
	m2.opt("dtM", cur_dt);
	if (!is_local(cur)) {
		Sys d;
		if (!d.create(m2, c.dir, "d"))
			c.fail("create", "Create failed");
		must(d.init(), "Init");
		c.req(scheme_name(d) == cur_name, "getscheme",
		      "created with " + cur + " is " + scheme_name(d) + " expected " +
		          cur_name);
		size_t sz = 0;
		must(MoorDyn_Serialize(a.md, &sz, nullptr), "Serialize");
		vector<uint64_t> buf(sz / 8 + 1);
		must(MoorDyn_Serialize(a.md, nullptr, buf.data()), "Serialize");
		must(MoorDyn_Deserialize(d.md, buf.data()), "Deserialize");
		for (int k = 0; k < 2; k++) {
			for (size_t i = 0; i < vel.size(); i++)
				vel[i] = 0.2 * cos(0.4 * k + i);
			a.x = d.x = pos;
			a.xd = d.xd = vel;
			must(a.raw_step(2 * H), "Step");
			must(d.raw_step(2 * H), "Step");
			c.trans(2);
			clock += 2 * H;
			c.near(a.t, clock, 1e-13, 1e-12, "clock", seq + ": returned time");
			c.near(d.t, clock, 1e-13, 1e-12, "clock", seq + ": loaded time");
			for (size_t i = 0; i < vel.size(); i++)
				pos[i] += vel[i] * 2 * H;
			c.nearv(a.obs(), d.obs(), 1e-9, 1e-9, "final-settings",
			       seq + ": against a system created with the final settings");
		}
	}
	// With no change at all of the scheme, setting it is a no operation
	(void)changed;
	(void)multi;
	c.trace();
}

void
vf::enumerate(Cases& cs, const string& tier)
{
	int depth = tier == "thorough" ? 4 : 3;
	vector<Model> ms = { sys_chain(), sys_bridle(), sys_pinnedrod() };
	Model w = sys_wavesnode();
	w.opt("WaveKin", "0");
	ms.push_back(w);
	Model wv = sys_chain();
	wv.name = "chainwaves";
	wv.opt("WaveKin", "7");
	wv.files["wave_frequencies.txt"] = wave_freqs();
	wv.files["water_grid.txt"] = water_grid();
	ms.push_back(wv);
	for (size_t im = 0; im < ms.size(); im++) {
		int d = im == 0 ? depth : depth - 1;
		for (auto& sc : all_schemes()) {
			for (int o1 = 0; o1 < NOPS; o1++) {
				Model m = ms[im];
				m.opt("dtM", H).opt("tScheme", sc);
				// shorter steps for the multistep schemes
				if (multi(sc) || sc == "sch+")
					m.opt("dtM", H / 4);
				cs.push_back({ m.name + ":" + sc + ":" + OPS[o1],
				               [m, sc, o1, d](Ctx& c) {
					               std::function<void(vector<int>&)> rec =
					                   [&](vector<int>& v) {
						                   if ((int)v.size() == d) {
							                   sequence(c, m, sc, v);
							                   return;
						                   }
						                   for (int o = 0; o < NOPS; o++) {
							                   v.push_back(o);
							                   rec(v);
							                   v.pop_back();
						                   }
					                   };
					               vector<int> v = { o1 };
					               rec(v);
				               } });
			}
		}
	}
	// plain clock over many requests, every scheme and awkward ratios
	for (auto& sc : all_schemes())
		for (double dtm : { 0.0037, 0.01, 0.004 })
			for (double dt : { 0.01, 0.0123, 0.1 / 3, 0.0009 }) {
				cs.push_back({ sfmt("clock:%s:%g:%g", sc.c_str(), dtm, dt),
				               [sc, dtm, dt](Ctx& c) {
					               Model m = sys_chain();
					               m.opt("tScheme", sc);
					               m.opt("dtM", multi(sc) ? dtm / 4 : dtm);
					               m.amp = 0.02;
					               Sys s;
					               if (!s.create(m, c.dir))
						               c.fail("create", "Create failed");
					               must(s.init(), "Init");
					               for (int i = 1; i <= 12; i++) {
						               double before = s.t;
						               must(s.step(dt), "Step");
						               c.trans();
						               c.near(s.t - before, dt, 0, 1e-12, "clock",
						                      "advance of one step");
						               c.near(s.t, i * dt, 0, 1e-11, "clock",
						                      "time after all the steps");
						               c.state(s.obs());
					               }
				               } });
			}
	// late in the run: a system which is steady under any inner step
	for (auto& sc : all_schemes())
		for (double T0 : { 40.0, 1e3, 1e5 })
			for (double dt : { 0.01, 1.0 / 3, 0.7, 7.3 }) {
				cs.push_back({ sfmt("late:%s:%g:%g", sc.c_str(), T0, dt),
				               [sc, T0, dt](Ctx& c) {
					               Model m;
					               m.name = "steady";
					               m.linetypes = { LT_CHAIN };
					               m.points = { "1 Fixed 0 0 -20 0 0 0 0",
						                        "2 Coupled 12 0 -5 0 0 0 0",
						                        "3 Free 5 5 -5 1025 1 0 0" };
					               m.lines = { "1 chain 1 2 19 1 -" };
					               m.x0 = { 12, 0, -5 };
					               base_options(m);
					               m.opt("tScheme", sc).opt("dtM", 1.0);
					               Sys s;
					               if (!s.create(m, c.dir))
						               c.fail("create", "Create failed");
					               s.x = m.x0;
					               s.xd.assign(3, 0.0);
					               s.f.assign(3, 0.0);
					               must(MoorDyn_Init_NoIC(s.md, s.x.data(), s.xd.data()), "Init");
					               must(s.raw_step(T0), "Step");
					               const double ulp = 4e-15 * T0, n = 2 * dt + 2;
					               c.near(s.t, T0, 1e-12, 0, "clock", "time after a long step");
					               double start = s.t;
					               for (int i = 1; i <= 20; i++) {
						               double before = s.t;
						               must(s.raw_step(dt), "Step");
						               c.trans();
						               c.near(s.t - before, dt, 0, 1e-12 + n * ulp, "clock",
						                      "advance of one step");
						               c.near(s.t, start + i * dt, 0, 1e-11 + i * n * ulp, "clock",
						                      "time after all the steps");
						               c.state(dv{ s.t });
					               }
					               c.trace();
				               } });
			}
}
