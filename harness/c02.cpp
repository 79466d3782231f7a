// C02: damaged checkpoints. Every truncation point and every single-byte
// header corruption (plus extensions, foreign files, missing files) of the
// checkpoint of every system; the load must be refused and the run must go on
// as if it had not been attempted.
#define VF_MAIN
#include "md.hpp"
using namespace vf;

static const double DT = 0.02;

struct Base
{
	Sys s;      // the victim: an initialised system, somewhere in its run
	string img; // intact checkpoint, taken elsewhere in the run
	dv before;
	vector<uint64_t> data;
};

static vector<uint64_t>
ser(Sys& s)
{
	size_t sz = 0;
	if (MoorDyn_Serialize(s.md, &sz, nullptr))
		throw Violation{ "api-error", "Serialize" };
	vector<uint64_t> d(sz / 8);
	if (MoorDyn_Serialize(s.md, nullptr, d.data()))
		throw Violation{ "api-error", "Serialize" };
	return d;
}

static void
prep(Ctx& c, const Model& m, Base& b)
{
	Sys a;
	if (!a.create(m, c.dir, "a") || a.init())
		c.fail("create", "cannot create");
	for (int i = 0; i < 3; i++)
		if (a.step(DT))
			c.fail("step", "step");
	string ck = c.dir + "/ck.bin";
	if (MoorDyn_Save(a.md, ck.c_str()))
		c.fail("save", "Save failed");
	if (!read_file(ck, b.img))
		c.fail("save", "no checkpoint written");
	if (!b.s.create(m, c.dir, "v") || b.s.init())
		c.fail("create", "cannot create");
	if (b.s.step(DT))
		c.fail("step", "step");
	b.before = b.s.obs();
	b.data = ser(b.s);
}

/// the file must be refused without any effect
static void
refuse(Ctx& c, Base& b, const string& content, const string& what)
{
	string p = c.dir + "/bad.bin";
	write_file(p, content);
	int e = MoorDyn_Load(b.s.md, p.c_str());
	c.trans();
	c.outcome(sfmt("%d", e));
	c.req(e != MOORDYN_SUCCESS, "accepted", what + ": the load succeeded");
	c.req(ser(b.s) == b.data,
	      "modified",
	      what + ": the refused load modified the system");
}

static void
finish(Ctx& c, const Model& m, Base& b)
{
	c.same(b.s.obs(), b.before, "modified", "state after the refused loads");
	// and the run goes on as a twin which never tried
	Sys w;
	if (!w.create(m, c.dir, "w") || w.init())
		c.fail("create", "cannot create");
	if (w.step(DT))
		c.fail("step", "step");
	for (int i = 0; i < 2; i++) {
		if (w.step(DT) || b.s.step(DT))
			c.fail("step", "step after a refused load");
		c.near(b.s.obs(), w.obs(), 1e-10, 1e-11, "continuation", "continuation");
		c.state(b.s.obs());
	}
	// the intact one is accepted
	string p = c.dir + "/good.bin";
	write_file(p, b.img);
	c.req(MoorDyn_Load(b.s.md, p.c_str()) == MOORDYN_SUCCESS,
	      "refused",
	      "an intact checkpoint was refused");
	c.trace();
}

void
vf::enumerate(Cases& cs, const string& tier)
{
	bool th = tier == "thorough";
	auto sys = all_systems();
	vector<string> schemes = { "rk2", "ab3", "leuler", "beuler4" };
	if (th)
		schemes = all_schemes();
	for (size_t q = 0; q < sys.size(); q++)
		for (auto& sch : schemes) {
			if (!th && sch != "rk2" && q % 5 != 1)
				continue;
			Model m = sys[q];
			m.scheme(sch);
			string nm = m.name + "/" + sch;
			// ---- truncations: every byte of the file
			const int parts = 8;
			for (int part = 0; part < parts; part++)
				cs.push_back({ nm + sfmt("/trunc/%d", part), [=](Ctx& c) {
					              Base b;
					              prep(c, m, b);
					              // quick: all of the first 64 and last 32
					              // bytes, then every 13th
					              for (size_t n = part; n < b.img.size();
					                   n += parts) {
						              if (!th && sch != "rk2" && n > 64 &&
						                  n + 32 < b.img.size() && n % 13)
							              continue;
						              if (!th && n > 600 &&
						                  n + 64 < b.img.size() && n % 13)
							              continue;
						              refuse(c,
						                     b,
						                     b.img.substr(0, n),
						                     sfmt("truncated at %zu of %zu",
						                          n,
						                          b.img.size()));
					              }
					              finish(c, m, b);
				              } });
			// ---- header bytes: every value of every byte of the signature
			// and of the length; versions older than the current one
			for (size_t part = 0; part < 6; part++)
			cs.push_back({ nm + sfmt("/header/%zu", part), [=](Ctx& c) {
				              Base b;
				              prep(c, m, b);
				              for (size_t i = part; i < 17; i += 6)
					              for (int v = 0; v < 256; v++) {
						              string s = b.img;
						              if ((unsigned char)s[i] == v)
							              continue;
						              if ((i == 7 || i == 8) &&
						                  v > (unsigned char)s[i])
							              continue; // a newer version
						              s[i] = (char)v;
						              refuse(c, b, s, sfmt("byte %zu = %d", i, v));
					              }
				              finish(c, m, b);
			              } });
			// ---- extensions, and garbage around
			cs.push_back(
			    { nm + "/extend", [=](Ctx& c) {
				     Base b;
				     prep(c, m, b);
				     for (size_t n = 1; n <= 40; n++)
					     refuse(c,
					            b,
					            b.img + string(n, '\0'),
					            sfmt("extended by %zu", n));
				     refuse(c, b, b.img + b.img, "doubled");
				     refuse(c, b, b.img.substr(1), "first byte lost");
				     refuse(c, b, "\n" + b.img, "one byte before");
				     refuse(c, b, string(b.img.size(), '\0'), "zeroed");
				     refuse(c, b, "", "empty");
				     // declared length in agreement with a shorter payload
				     for (size_t lost = 1; lost < 30; lost++) {
					     string s = b.img.substr(0, b.img.size() - 8 * lost);
					     uint64_t n = (s.size() - 17) / 8;
					     memcpy(&s[9], &n, 8);
					     refuse(c, b, s, sfmt("%zu values lost", lost));
					     s = b.img + string(8 * lost, '\x3f');
					     n = (s.size() - 17) / 8;
					     memcpy(&s[9], &n, 8);
					     refuse(c, b, s, sfmt("%zu values added", lost));
				     }
				     int e = MoorDyn_Load(b.s.md,
				                          (c.dir + "/does_not_exist").c_str());
				     c.req(e != 0, "accepted", "missing file loaded");
				     e = MoorDyn_Load(b.s.md, c.dir.c_str());
				     c.req(e != 0, "accepted", "directory loaded");
				     // a checkpoint that cannot be written says so
				     e = MoorDyn_Save(b.s.md, (c.dir + "/no/such/dir/f").c_str());
				     c.req(e != 0, "save-error", "unwritable checkpoint");
				     finish(c, m, b);
			     } });
			// ---- checkpoints of the other systems
			if (sch == "rk2" || th)
				cs.push_back({ nm + "/foreign", [=](Ctx& c) {
					              Base b;
					              prep(c, m, b);
					              for (size_t o = 0; o < sys.size(); o++) {
						              if (o == q)
							              continue;
						              Model mo = sys[o];
						              mo.scheme(sch);
						              Sys so;
						              if (!so.create(mo, c.dir, sfmt("o%zu", o)) ||
						                  so.init())
							              c.fail("create", "cannot create");
						              if (so.step(DT))
							              c.fail("step", "step");
						              string ck = c.dir + "/o.bin", img;
						              if (MoorDyn_Save(so.md, ck.c_str()))
							              c.fail("save", "Save failed");
						              read_file(ck, img);
						              if (img.size() == b.img.size())
							              continue; // same layout
						              refuse(c, b, img, "checkpoint of " + mo.name);
					              }
					              finish(c, m, b);
				              } });
		}
}
