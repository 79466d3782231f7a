// C14: malformed input files are refused without crashing.
// Every truncation, and every deletion, duplication, swap or replacement of a
// line or field of the input and auxiliary files of a set of systems.
#define VF_MAIN
#include "md.hpp"
#include <dirent.h>
using namespace vf;

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t
__sanitizer_get_current_allocated_bytes();
#else
static size_t
__sanitizer_get_current_allocated_bytes()
{
	return 0;
}
#endif

// Memory exhaustion is reported as it would be without the sanitizers
void*
operator new(size_t n)
{
	void* p = n > (size_t)300 << 20 ? nullptr : malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void
operator delete(void* p) noexcept
{
	free(p);
}
void
operator delete(void* p, size_t) noexcept
{
	free(p);
}

namespace {

int
nfds()
{
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	if (!d)
		return -1;
	while (readdir(d))
		n++;
	closedir(d);
	return n;
}

/// A compact system with every section and every notation
Model
every()
{
	Model m;
	m.name = "every";
	m.linetypes = { "rope 0.1 12 2e5 800 0 1.1 1 0.05 0",
		            "chain 0.12 30 5e5|1e5 -0.6 1e3 1.3 1 0.1 0" };
	m.rodtypes = { "bar 0.2 60 0.8 1 0.7 0.6" };
	m.bodies = { "1 Free 2 3 -9 5 -10 15 3000 0.1|0.2|-0.3 4e3|5e3|6e3 2.5 3|2|4 0.5|1|0.2",
		         "2 Coupled 20 1 -6 0 0 0 1000 0 2000 1 1 1",
		         "3 CoupledPinned -22 -20 -8 5 0 0 4000 0.3|0|-0.5 6000 2.0 1|2|3|4|5|6 0.5" };
	m.rods = { "1 bar Free 5 -8 -9 6 -9 -4 2 pv",
		       "2 bar Body1 0.5 0.5 1 1 1.5 2 1 -",
		       "3 bar Body2Pinned 1 1 -1 1.4 1.2 -4 0 -",
		       "4 bar CoupledPinned 38 3 -4 37 4 -9 1 p",
		       "5 bar Coupled 30 -4 -8 30 -4 -5 1 -" };
	m.points = { "1 Fixed 0 0 -29 0 0 0 0",
		         "2 Coupled 10 4 -3 0 0 0 0",
		         "3 Free 5 1 -14 80 0.03 0.4 1",
		         "4 Body1 -1 0.5 0.7 0 0 0 0" };
	m.lines = { "1 rope 1 3 16.5 2 pt", "2 rope 3 2 13 1 -", "3 chain 1 4 21 2 K",
		        "4 rope R1B 2 12 1 -",  "5 rope R4B R5A 20 2 -" };
	m.failure = { "1 3 1,2 0.01 1e9", "2 R1B 4 5 0" };
	m.outputs = { "FAIRTEN1 ANCHTEN2", "L1N1PX", "R1RX", "B1PX", "P3AX", "R1NBVZ" };
	m.x0 = dv(64, 0.0);
	base_options(m);
	m.opt("dtIC", 0.008).opt("TmaxIC", 0.016);
	m.opt("tScheme", "rk2");
	m.opt("WriteUnits", "1");
	m.opt("dtOut", "0.02");
	m.opt("WaveKin", "0");
	m.opt("Currents", "0");
	m.opt("FricDamp", "200");
	m.opt("StatDynFricScale", "1");
	m.opt("g", "9.81");
	m.opt("Rho", "1025");
	return m;
}

Model
tables()
{
	Model m;
	m.name = "tables";
	m.linetypes = { "poly 0.12 12.0 stiff.txt damp.txt bend.txt 1.1 1.0 0.1 0.1" };
	m.files["stiff.txt"] = "---- poly ----\nStrain Tension\n(-) (N)\n0.0 0.0\n"
	                       "0.01 8.0e3\n0.03 5.0e4\n0.1 3.0e5\n";
	m.files["damp.txt"] = "---- damp ----\nRate Tension\n(1/s) (N)\n-1 -5e3\n0 0\n1 5e3\n";
	m.files["bend.txt"] = "---- bend ----\nCurv Moment\n(1/m) (N-m)\n0 0\n0.1 1e3\n1 8e3\n";
	m.points = { "1 Fixed -12 2 -30 0 0 0 0", "2 Coupled 14 0 -2 0 0 0 0" };
	m.lines = { "1 poly 1 2 37 3 -" };
	m.x0 = dv(64, 0.0);
	base_options(m);
	return m;
}

Model
bed()
{
	Model m = sys_chain();
	m.name = "bed";
	m.files["bed.txt"] = "3 2\n-50 0 50\n-40 40\n-50 -40 -31\n0 -40 -30.5\n50 -40 -33\n"
	                     "-50 40 -32\n0 40 -31\n50 40 -34\n";
	m.opt("SeafloorFile", "@/bed.txt"); // the folder is filled in later
	return m;
}

Model
water(int wk, int cu, bool unify = false)
{
	Model m = sys_chain();
	m.name = sfmt("water%d%d%d", wk, cu, (int)unify);
	m.opt("WaveKin", sfmt("%d", wk));
	m.opt("Currents", sfmt("%d", cu));
	m.opt("dtWave", 0.5);
	if (unify)
		m.opt("UnifyCurrentGrid", "1");
	else
		m.opt("UnifyCurrentGrid", "0");
	if (wk == 2 || wk == 7)
		m.files["wave_frequencies.txt"] = wave_freqs();
	if (wk == 3) {
		string e;
		for (int i = 0; i <= 8; i++)
			e += sfmt("%g %g\n", 0.5 * i, 0.8 * sin(2 * M_PI * i / 8.0));
		m.files["wave_elevation.txt"] = e;
	}
	if (wk == 2 || wk == 3)
		m.files["water_grid.txt"] = "--- MoorDyn Waves grid File ---\n"
		                            "List of grid points\n"
		                            "Each block starts with the type\n"
		                            "2\n-30 30 3\n1\n-12 -3 12\n2\n-30 2 3\n";
	if (cu == 1)
		m.files["current_profile.txt"] =
		    "--- currents ---\nTable\nz ux uy uz\n-30 0.1 0.2 0\n-5 0.4 -0.1 0\n0 0.5 0 0\n";
	if (cu == 2)
		m.files["current_profile_dynamic.txt"] =
		    "a\nb\nc\nd\n-20 -5 0\ne\n0 0.1 0.2 0.3\n1 0.2 0.2 0.2\n3 0.1 0.1 0.5\n";
	if (cu == 5) {
		string s = "2 1 2 2\n-5 5\n0\n-10 0\n0 2\n";
		for (int x = 0; x < 2; x++)
			for (int z = 0; z < 2; z++)
				for (int t = 0; t < 2; t++)
					s += sfmt("%d 0 %d %d 0.%d 0.1 0\n", x ? 5 : -5, z ? 0 : -10, 2 * t, x + z + t);
		m.files["current_profile_4d.txt"] = s;
	}
	return m;
}

vector<Model>
systems()
{
	return { every(),     tables(),         bed(),           water(7, 1),     water(2, 0),
		     water(3, 0), water(2, 1, true), water(3, 2),     water(3, 2, true), water(0, 1),
		     water(0, 2), water(0, 5),      water(2, 5, true) };
}

vector<string>
lines_of(const string& s)
{
	vector<string> o;
	std::istringstream i(s);
	string l;
	while (std::getline(i, l))
		o.push_back(l);
	return o;
}
string
text_of(const vector<string>& v)
{
	string o;
	for (auto& l : v)
		o += l + "\n";
	return o;
}
vector<string>
toks(const string& s)
{
	std::istringstream i(s);
	vector<string> o;
	string t;
	while (i >> t)
		o.push_back(t);
	return o;
}
string
join(const vector<string>& v)
{
	string o;
	for (auto& s : v)
		o += (o.empty() ? "" : " ") + s;
	return o;
}

/// create, initialise, step and close the files of a folder
/// @return 0 refused, 1 not initialised, 2 step failed, 3 works
int
attempt(Ctx& c, const string& path, bool ic)
{
	MoorDyn md = MoorDyn_Create(path.c_str());
	if (!md)
		return 0;
	unsigned n = 0;
	c.req(MoorDyn_NCoupledDOF(md, &n) == 0, "ndof", "cannot be read");
	c.req(n < 100000, "ndof", "out of range");
	dv x(n + 6, 0.0), xd(n + 6, 0.0), f(n + 6, 0.0);
	for (size_t i = 0; i < x.size(); i++)
		x[i] = (i % 3) == 2 ? -5.0 : 1.0 + i;
	int r = 1;
	int e = ic ? MoorDyn_Init(md, x.data(), xd.data())
	           : MoorDyn_Init_NoIC(md, x.data(), xd.data());
	if (e == 0) {
		r = 2;
		// at most some substeps: the time step might come from the stiffness of
		// a replaced value
		double t = 0, dt = 0.012, dtm = 0.0;
		MoorDyn_GetDt(md, &dtm);
		if (dtm > 0.0 && dtm * 20 < dt)
			dt = dtm * 20;
		e = MoorDyn_Step(md, x.data(), xd.data(), f.data(), &t, &dt);
		if (e == 0)
			r = 3;
		c.trans(2);
	}
	c.req(MoorDyn_Close(md) == 0, "close", "cannot be closed");
	c.trans(2);
	return r;
}

struct Mut
{
	int sys;
	string file; // "" is the input file
	string kind;
	int line = 0, tok = 0, alt = 0;
};

const vector<string> ALT = { "0",    "-1",   "99",    "x",          "1e30", "-1e30", "nan",
	                         "|",    "1|2",  "1|2|3|4|5|6|7", "-", "99999999999",
	                         "Body9", "R9A", "R1C",   "Body",       "R",    "P1",    "1,2,9",
	                         "---",   "stiff.txt",
	                         "R0A",  "Body0", "Body0Pinned", "P0", "-0.5", "1,0" };

void
run_mut(Ctx& c, const Mut& u)
{
	Model m = systems()[u.sys];
	std::map<string, string> files = m.files;
	string d = c.dir + "/w";
	mkdir(d.c_str(), 0700);
	files[""] = m.text();
	string& T = files[u.file];
	auto L = lines_of(T);
	auto field = [&](std::function<void(vector<string>&)> f) {
		auto t = toks(L[u.line]);
		f(t);
		L[u.line] = join(t);
		T = text_of(L);
	};
	bool missing = false;
	if (u.kind == "missing")
		missing = true;
	else if (u.kind == "empty")
		T = u.line == 0 ? "" : u.line == 1 ? "\n" : u.line == 2 ? " \t \n\n" : string("\0\0", 2);
	else if (u.kind == "cut") { // truncated after some lines
		L.resize(u.line);
		T = text_of(L);
	} else if (u.kind == "cutnl") { // the same without the end of line
		L.resize(u.line);
		T = text_of(L);
		if (!T.empty())
			T.pop_back();
	} else if (u.kind == "byte")
		T.resize(u.line);
	else if (u.kind == "del") {
		L.erase(L.begin() + u.line);
		T = text_of(L);
	} else if (u.kind == "dup") {
		L.insert(L.begin() + u.line, L[u.line]);
		T = text_of(L);
	} else if (u.kind == "swap") {
		std::swap(L[u.line], L[u.line + 1]);
		T = text_of(L);
	} else if (u.kind == "blank") {
		L.insert(L.begin() + u.line, u.tok ? string("   ") : string());
		T = text_of(L);
	} else if (u.kind == "garbage") {
		static const vector<string> G = { "x", "1 2 3", "- - -", "# comment", "\xff\xfe\x80",
			                              string(5000, 'a'), "%s%n%d", "1 " + string(400, '9') };
		L[u.line] = G[u.tok];
		T = text_of(L);
	} else if (u.kind == "fdel")
		field([&](vector<string>& t) { t.erase(t.begin() + u.tok); });
	else if (u.kind == "fdup")
		field([&](vector<string>& t) { t.insert(t.begin() + u.tok, t[u.tok]); });
	else if (u.kind == "fcut")
		field([&](vector<string>& t) { t.resize(u.tok); });
	else if (u.kind == "frep")
		field([&](vector<string>& t) { t[u.tok] = ALT[u.alt]; });
	else if (u.kind == "crlf") {
		T.clear();
		for (auto& l : L)
			T += l + "\r\n";
	} else if (u.kind == "tabs") {
		for (auto& ch : T)
			if (ch == ' ')
				ch = '\t';
	} else if (u.kind == "dir")
		missing = true;
	for (auto& f : files) {
		string p = d + "/" + (f.first.empty() ? "m.txt" : f.first);
		unlink(p.c_str());
		rmdir(p.c_str());
		if (f.first == u.file && missing) {
			if (u.kind == "dir")
				mkdir(p.c_str(), 0700);
			continue;
		}
		string t = f.second;
		for (size_t q; (q = t.find("@/")) != string::npos;)
			t.replace(q, 1, d);
		write_file(p, t);
	}
	string path = d + "/m.txt";
	// the second attempt must leave nothing new behind
	int r1 = attempt(c, path, u.sys == 0);
	size_t a0 = __sanitizer_get_current_allocated_bytes();
	int f0 = nfds();
	int r2 = attempt(c, path, u.sys == 0);
	size_t a1 = __sanitizer_get_current_allocated_bytes();
	int f1 = nfds();
	c.req(r1 == r2, "repeat", sfmt("first attempt %d, second one %d", r1, r2));
	c.req(a1 <= a0, "leak", sfmt("%zu bytes are left behind (result %d)", a1 - a0, r2));
	c.req(f1 == f0, "files", sfmt("%d files are left open (result %d)", f1 - f0, r2));
	c.state(dv{ (double)r1 });
	c.outcome(dv{ (double)r1 });
	c.trace();
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool deep = tier == "thorough";
	auto sys = systems();
	auto add = [&](Mut u) {
		string f = u.file.empty() ? "input" : u.file;
		cases.push_back({ sfmt("%s/%s/%s/%d/%d/%d",
		                       sys[u.sys].name.c_str(),
		                       f.c_str(),
		                       u.kind.c_str(),
		                       u.line,
		                       u.tok,
		                       u.alt),
		                  [=](Ctx& c) { run_mut(c, u); } });
	};
	std::set<string> seen;
	for (int s = 0; s < (int)sys.size(); s++) {
		std::map<string, string> files = sys[s].files;
		files[""] = sys[s].text();
		for (auto& f : files) {
			Mut u;
			u.sys = s;
			u.file = f.first;
			bool main = f.first.empty();
			u.kind = "none";
			if (main)
				add(u);
			for (auto k : { "missing", "dir", "crlf", "tabs" }) {
				u.kind = k;
				add(u);
			}
			u.kind = "empty";
			for (int i = 0; i < 4; i++) {
				u.line = i;
				add(u);
			}
			auto L = lines_of(f.second);
			// the input files are alike (the first system has every section), and
			// so are the auxiliary files of the same name
			bool full = (main ? s == 0 : seen.insert(f.first).second) || deep;
			if (deep) {
				u.kind = "byte";
				for (size_t i = 0; i < f.second.size(); i++) {
					u.line = (int)i;
					add(u);
				}
			}
			for (int l = 0; l < (int)L.size(); l++) {
				u.line = l;
				u.tok = u.alt = 0;
				u.kind = "cut";
				add(u);
				u.kind = "cutnl";
				add(u);
				u.kind = "del";
				add(u);
				u.kind = "dup";
				add(u);
				if (l + 1 < (int)L.size()) {
					u.kind = "swap";
					add(u);
				}
				u.kind = "blank";
				for (u.tok = 0; u.tok < 2; u.tok++)
					add(u);
				u.kind = "garbage";
				for (u.tok = 0; u.tok < 8; u.tok++)
					if (full || u.tok < 2)
						add(u);
				u.tok = 0;
				if (!full && !main)
					continue;
				if (!full && L[l].find("SeafloorFile") == string::npos &&
				    L[l].find("WaveKin") == string::npos && L[l].find("Current") == string::npos &&
				    L[l].find("dtWave") == string::npos && l > 6)
					continue;
				int nt = (int)toks(L[l]).size();
				for (u.tok = 0; u.tok < nt; u.tok++) {
					u.alt = 0;
					u.kind = "fdel";
					add(u);
					u.kind = "fdup";
					add(u);
					u.kind = "fcut";
					add(u);
					u.kind = "frep";
					for (u.alt = 0; u.alt < (int)ALT.size(); u.alt++)
						// a huge initial condition phase is a request, not a hang
						if ((full || u.alt < 8) &&
						    !(L[l].find("IC") != string::npos &&
						      atof(ALT[u.alt].c_str()) > 50.0))
							add(u);
				}
			}
		}
	}
}
