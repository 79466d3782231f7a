// C13: input notations, defaults and values.
//
// A system with an object of each kind is described with plain numbers (Desc),
// and its input file is written in every documented notation. Each file is run
// on the library, and every step compared with the independent reference, that
// never sees the input file. The options that the reference does not know about
// are compared between the omitted, default and other values.
#define VF_MAIN
#include "ref.hpp"
#include <set>

using namespace vf;
using namespace ref;

namespace {

typedef std::function<void(vf::Model&)> Edit;
typedef std::function<void(Desc&)> Change;

vector<string>
toks(const string& s)
{
	std::istringstream i(s);
	vector<string> o;
	string t;
	while (i >> t)
		o.push_back(t);
	return o;
}
string
join(const vector<string>& v, const string& sep = " ")
{
	string o;
	for (auto& s : v)
		o += (o.empty() ? "" : sep) + s;
	return o;
}

/// a system with every kind of object
Desc
full()
{
	Desc d;
	d.env.mu = 0.3;
	d.env.sd = 1.4;
	d.env.fd = 150;
	d.env.kb = 2.5e4;
	d.env.cb = 2.0e3;
	d.env.depth = 24;
	d.env.g = 9.7;
	d.env.rho = 1010;
	LineT t;
	t.d = 0.09;
	t.w = 18;
	t.EA = 2e5;
	t.BA = -0.4;
	t.EI = 300;
	t.Cd = 1.3;
	t.Ca = 0.9;
	t.CdAx = 0.25;
	t.CaAx = 0.15;
	d.lt.push_back(t);
	t.BA = 4000;
	t.EI = 0;
	t.w = 25;
	t.EA = 3e5;
	d.lt.push_back(t);
	RodT r;
	d.rt.push_back(r);
	r.d = 0.4;
	r.w = 250;
	r.CdEnd = 0.9;
	d.rt.push_back(r);
	auto body = [&](Att a, V3 p, V3 rpy) {
		BodyS b;
		b.att = a;
		b.p = p;
		b.rpy = rpy;
		b.m = 900 + 50 * d.bodies.size();
		b.V = 0.5;
		b.cg = V3(0.1, -0.2, 0.15);
		b.I = V3(700, 800, 900);
		b.CdA << 1.1, 1.2, 1.3, 5, 6, 7;
		b.Ca << 0.7, 0.8, 0.9, 0, 0, 0;
		d.bodies.push_back(b);
	};
	body(ref::FREE, V3(2, -3, -6), V3(5, -8, 20));
	body(ref::FIXED, V3(-9, 4, -7), V3(0, 10, 30));
	body(ref::COUPLED, V3(12, 6, -5), V3(4, 0, -15));
	body(ref::CPLDPIN, V3(14, -7, -6), V3(-6, 3, 10));
	auto rod = [&](Att a, int b, V3 pa, V3 pb, int n, int ty) {
		RodS q;
		q.att = a;
		q.body = b;
		q.type = ty;
		q.a = pa;
		q.b = pb;
		q.N = n;
		d.rods.push_back(q);
	};
	rod(ref::FREE, -1, V3(-4, 8, -9), V3(-2.5, 9, -7), 2, 0);
	rod(ref::FIXED, -1, V3(-6, -9, -12), V3(-6, -8, -10), 1, 1);
	rod(ref::PINNED, -1, V3(5, 11, -10), V3(5.5, 11.5, -7.5), 2, 0);
	rod(ref::COUPLED, -1, V3(9, -9, -7), V3(9.5, -8, -5), 1, 1);
	rod(ref::CPLDPIN, -1, V3(-8, -4, -5), V3(-8.5, -3, -7), 2, 0);
	rod(ref::BODY, 0, V3(0.3, 0.2, -0.5), V3(0.6, 0.8, -2.0), 2, 1);
	rod(ref::BODYPIN, 0, V3(-0.4, 0.3, 0.6), V3(-1.5, -0.5, 1.4), 1, 0);
	rod(ref::FREE, -1, V3(-2, -6, -24.08), V3(-0.5, -5, -23.9), 2, 0); // on the seabed
	auto point = [&](Att a, int b, V3 p, double m, double V, double CdA, double Ca) {
		PointS q;
		q.att = a;
		q.body = b;
		q.p = p;
		q.m = m;
		q.V = V;
		q.CdA = CdA;
		q.Ca = Ca;
		d.points.push_back(q);
	};
	point(ref::FIXED, -1, V3(-7, 2, -24), 0, 0, 0, 0);
	point(ref::COUPLED, -1, V3(8, 3, -3), 0, 0, 0, 0);
	point(ref::FREE, -1, V3(0, 2.5, -14), 90, 0.03, 0.5, 0.8);
	point(ref::BODY, 2, V3(-0.6, 0.4, 0.7), 30, 0.01, 0.2, 0.4);
	point(ref::FREE, -1, V3(4, -6, -24.0), 120, 0.01, 0.4, 0.6); // on the seabed
	auto line = [&](int ty, End a, End b, double L, int n) {
		LineS l;
		l.type = ty;
		l.a = a;
		l.b = b;
		l.L = L;
		l.N = n;
		d.lines.push_back(l);
	};
	line(0, { 'p', 0 }, { 'p', 2 }, 12.1, 3);
	line(1, { 'p', 2 }, { 'p', 1 }, 13.5, 2);
	line(0, { 'b', 0 }, { 'p', 3 }, 14.2, 2);
	line(1, { 'p', 4 }, { 'a', 3 }, 18.0, 2);
	line(1, { 'b', 2 }, { 'b', 5 }, 13.5, 1);
	return d;
}

const int STEPS = 3;

/// the observations of the run; every step is compared with the reference
dv
conform(Ctx& c, const Desc& d, const Edit& edit, const string& name = "c13")
{
	Run r(c, d, name);
	if (edit)
		edit(r.m);
	dv v;
	for (size_t i = 0; i < r.m.x0.size(); i++)
		v.push_back(0.3 * sin(1.0 + 1.7 * i));
	r.start(v);
	dv o;
	for (int i = 0; i < STEPS; i++) {
		for (auto& z : v)
			z *= i == 1 ? -0.5 : 1.0;
		r.step(v, sfmt("step %d", i));
		c.trans();
	}
	o = r.s.obs();
	c.state(o);
	c.trace();
	return o;
}

vector<string>
cases_of(const string& w)
{
	string u = w, l = w, m = w;
	for (size_t i = 0; i < w.size(); i++) {
		u[i] = toupper(w[i]);
		l[i] = tolower(w[i]);
		m[i] = i % 2 ? toupper(w[i]) : tolower(w[i]);
	}
	return { w, u, l, m };
}

/// replace a field of a row
void
field(vector<string>& rows, int row, int col, const string& v)
{
	auto t = toks(rows[row]);
	t[col] = v;
	rows[row] = join(t);
}

/// the text written verbatim, instead of that of the model
string
raw_text(const vf::Model& m)
{
	return m.text();
}

/// create, initialise and run a text, with an arbitrary scheme
struct Free
{
	dv obs;
	double dt = 0, cfl = 0;
	std::map<string, string> files;
};

/// runs an arbitrary model (not compared with the reference)
Free
play(Ctx& c, const vf::Model& m, const string& tag, bool ic, int steps = 6, double dt = 0.02)
{
	Free f;
	Sys s;
	c.req(s.create(m, c.dir, tag), "create", "Create fails: " + tag);
	c.req(s.ndof == m.x0.size(), "dof", "number of coupled DOFs");
	c.req(s.init(!ic) == 0, "init", "Init fails: " + tag);
	f.obs = s.obs();
	MoorDyn_GetDt(s.md, &f.dt);
	MoorDyn_GetCFL(s.md, &f.cfl);
	for (int i = 0; i < steps; i++) {
		c.req(s.step(dt) == 0, "step", "Step fails: " + tag);
		dv o = s.obs();
		f.obs.insert(f.obs.end(), o.begin(), o.end());
		o = s.forces();
		f.obs.insert(f.obs.end(), o.begin(), o.end());
		c.trans();
	}
	c.state(f.obs);
	s.close();
	string d = c.dir + "/" + tag;
	for (auto n : { "m.out", "m_Line1.out", "m_Rod1.out", "m.log" }) {
		string t;
		if (read_file(d + "/" + n, t))
			f.files[n] = t;
	}
	return f;
}

void
equal(Ctx& c, const dv& a, const dv& b, const string& sig, const string& msg)
{
	c.req(a.size() == b.size(), sig, msg + ": different sizes");
	for (size_t i = 0; i < a.size(); i++) {
		c.checks++;
		if (!(fabs(a[i] - b[i]) <= 1e-9 * (1.0 + fabs(a[i]))))
			c.fail(sig, msg + sfmt(": observation %zu is %.12g instead of %.12g", i, b[i], a[i]));
	}
}
void
scalar(Ctx& c, double want, double got, double tol, const string& sig, const string& msg)
{
	c.checks++;
	if (!(fabs(want - got) <= tol))
		c.fail(sig, msg + sfmt(": %.12g instead of %.12g", got, want));
}
bool
differ(const dv& a, const dv& b)
{
	if (a.size() != b.size())
		return true;
	for (size_t i = 0; i < a.size(); i++)
		if (!(fabs(a[i] - b[i]) <= 1e-7 * (1e-3 + fabs(a[i]))))
			return true;
	return false;
}

const vector<std::pair<string, vector<string>>> TITLES = {
	{ "LINE TYPES", { "LINE DICTIONARY", "Line Types", "line dictionary" } },
	{ "ROD TYPES", { "ROD DICTIONARY", "Rod Types", "rOd dIctionary" } },
	{ "BODIES", { "BODY LIST", "BODY PROPERTIES", "Bodies", "body list" } },
	{ "RODS", { "ROD LIST", "ROD PROPERTIES", "Rods", "rod list" } },
	{ "POINTS",
	  { "POINT LIST",
	    "POINT PROPERTIES",
	    "CONNECTION PROPERTIES",
	    "NODE PROPERTIES",
	    "Points",
	    "connection properties" } },
	{ "LINES", { "LINE LIST", "LINE PROPERTIES", "Lines", "line properties" } },
	{ "OPTIONS", { "Options", "options", "SOLVER OPTIONS" } },
};

const vector<vector<string>> SYN = { { "dtM", "DT" },
	                                 { "g", "gravity" },
	                                 { "rho", "Rho", "WtrDnsty" },
	                                 { "kBot", "kbot", "kb" },
	                                 { "cBot", "cbot", "cb" } };

struct Dec
{
	string kind;
	string words;
};
vector<string>
words(Att a, char cls)
{
	switch (a) {
		case ref::FIXED:
			return { "Anchor", "Fixed", "Fix" };
		case ref::COUPLED:
			if (cls == 'p')
				return { "Fairlead", "Vessel", "Ves", "Coupled", "Cpld" };
			return { "Vessel", "Ves", "Coupled", "Cpld" };
		case ref::FREE:
			if (cls == 'p')
				return { "Point", "Connect", "Con", "Free" };
			if (cls == 'r')
				return { "Point", "Con", "Free" };
			return { "Free" };
		case ref::PINNED:
			return { "Pinned", "Pin" };
		case ref::CPLDPIN:
			return { "VesselPinned", "VesPin", "CpldPin", "CoupledPinned" };
		default:
			return {};
	}
}

/// a text instead of the model's one. Model::text is not virtual: the text is
/// written in the front matter free model
struct TextCase
{
	string key;
	std::function<string(string)> f;
};

/// run a text on the library comparing with the reference
void
conform_text(Ctx& c, const Desc& d, const std::function<string(const string&)>& tr)
{
	Run r(c, d, "c13");
	dv v;
	for (size_t i = 0; i < r.m.x0.size(); i++)
		v.push_back(0.3 * sin(1.0 + 1.7 * i));
	// the model is created by hand, the remaining is the same
	string dir = c.dir + "/s";
	mkdir(dir.c_str(), 0700);
	r.s.m = &r.m;
	r.s.path = dir + "/m.txt";
	write_file(r.s.path, tr(r.m.text()));
	r.s.md = MoorDyn_Create(r.s.path.c_str());
	c.req(r.s.md != nullptr, "create", "Create fails");
	MoorDyn_NCoupledDOF(r.s.md, &r.s.ndof);
	c.req(r.s.ndof == r.m.x0.size(), "dof", "number of coupled DOFs");
	r.x = r.m.x0;
	r.xd = v;
	r.s.x = r.x;
	r.s.xd = r.xd;
	r.s.f.assign(r.x.size() + 6, 0.0);
	c.req(MoorDyn_Init_NoIC(r.s.md, r.x.data(), r.xd.data()) == 0, "init", "Init fails");
	r.s.t = 0;
	r.xdprev = r.xd;
	r.spin.assign(d.rods.size(), V3::Zero());
	for (int i = 0; i < STEPS; i++) {
		for (auto& z : v)
			z *= i == 1 ? -0.5 : 1.0;
		r.step(v, sfmt("step %d", i));
		c.trans();
	}
	c.state(r.s.obs());
	c.trace();
}

vector<string>
lines_of(const string& s)
{
	vector<string> o;
	std::istringstream i(s);
	string l;
	while (std::getline(i, l))
		o.push_back(l);
	return o;
}
string
unlines(const vector<string>& v)
{
	string o;
	for (auto& l : v)
		o += l + "\n";
	return o;
}
/// apply f to the rows of every table, and g to the options
string
rows_text(const string& t,
          const std::function<string(const string&)>& f,
          const std::function<string(const string&)>& g)
{
	auto L = lines_of(t);
	bool inopt = false;
	int k = -1;
	for (size_t i = 0; i < L.size(); i++) {
		if (L[i].find("---") != string::npos) {
			inopt = L[i].find("OPTIONS") != string::npos;
			k = i == 0 ? -100 : 0;
			continue;
		}
		k++;
		if (k < 0)
			continue;
		if (inopt)
			L[i] = g(L[i]);
		else if (k > 2)
			L[i] = f(L[i]);
	}
	return unlines(L);
}

} // namespace

void
vf::enumerate(Cases& cs, const string& tier)
{
	const bool th = tier == "thorough";
	const Desc D = full();
	auto ed = [&](const string& key, const Edit& e) {
		cs.push_back({ key, [D, e](Ctx& c) { conform(c, D, e); } });
	};
	auto tx = [&](const string& key, const std::function<string(const string&)>& f) {
		cs.push_back({ key, [D, f](Ctx& c) { conform_text(c, D, f); } });
	};
	ed("base", nullptr);

	// ---- attachments
	auto attach = [&](const string& what, int n, std::function<Att(int)> att, std::function<int(int)> body, char cls, int col) {
		for (int i = 0; i < n; i++) {
			vector<string> w;
			Att a = att(i);
			if (a == ref::BODY || a == ref::BODYPIN) {
				for (auto& s : cases_of("Body")) {
					string z = s + sfmt("%d", body(i) + 1);
					if (a == ref::BODY)
						w.push_back(z);
					else
						for (auto p : { "Pinned", "Pin" })
							for (auto& q : cases_of(p))
								w.push_back(z + q);
				}
			} else
				for (auto& s : words(a, cls))
					for (auto& q : cases_of(s))
						w.push_back(q);
			std::set<string> seen;
			for (auto& s : w)
				if (seen.insert(s).second)
					ed(sfmt("attach/%s%d/%s", what.c_str(), i + 1, s.c_str()), [=](vf::Model& m) {
						field(cls == 'b' ? m.bodies : cls == 'r' ? m.rods : m.points, i, col, s);
					});
		}
	};
	attach("body", D.bodies.size(), [&](int i) { return D.bodies[i].att; }, [](int) { return 0; }, 'b', 1);
	attach("rod", D.rods.size(), [&](int i) { return D.rods[i].att; }, [&](int i) { return D.rods[i].body; }, 'r', 2);
	attach("point", D.points.size(), [&](int i) { return D.points[i].att; }, [&](int i) { return D.points[i].body; }, 'p', 1);

	// ---- line ends
	for (size_t i = 0; i < D.lines.size(); i++)
		for (int e = 0; e < 2; e++) {
			End q = e ? D.lines[i].b : D.lines[i].a;
			vector<string> w;
			if (q.kind == 'p')
				for (auto p : { "", "P", "p", "Point", "POINT", "C", "c", "Con", "CON" })
					w.push_back(string(p) + sfmt("%d", q.i + 1));
			else
				for (auto p : { "R", "r", "Rod", "ROD", "rod" })
					for (char z : { 'A', 'a', 'B', 'b' })
						if (tolower(z) == q.kind)
							w.push_back(string(p) + sfmt("%d%c", q.i + 1, z));
			for (auto& s : w)
				ed(sfmt("end/line%zu/%d/%s", i + 1, e, s.c_str()), [=](vf::Model& m) { field(m.lines, i, 2 + e, s); });
		}

	// ---- section titles, decorated in several ways
	for (auto& t : TITLES) {
		auto alt = t.second;
		alt.push_back(t.first);
		for (auto& a : alt)
			for (int deco = 0; deco < 4; deco++) {
				static const char* L[] = { "--- ", "-------- ", "  ------- (1) ", "---" };
				static const char* R[] = { " ---", "", " ------ comment", "---" };
				string from = " " + t.first + " ", to = L[deco] + a + R[deco];
				tx("title/" + a + sfmt("/%d", deco), [=](const string& s) {
					auto v = lines_of(s);
					int n = 0;
					for (auto& l : v)
						if (l.find("---") != string::npos && l.find(from) != string::npos) {
							l = to;
							n++;
						}
					if (n != 1)
						throw HarnessError{ "title not found" };
					return unlines(v);
				});
			}
	}
	// ---- several titles at once: every section in the old notation
	tx("title/all-old", [](const string& s) {
		auto v = lines_of(s);
		for (auto& l : v)
			for (auto& t : TITLES)
				if (l.find("---") != string::npos && l.find(" " + t.first + " ") != string::npos)
					l = "---------- " + t.second[0] + " ----------";
		return unlines(v);
	});

	// ---- options: other names, positions, comments
	for (auto& g : SYN)
		for (auto& a : g) {
			ed("option/name/" + a, [=](vf::Model& m) {
				for (auto& o : m.options)
					if (o.first == g[0])
						o.first = a;
			});
			for (auto& h : SYN)
				for (auto& b : h)
					if (&g < &h && (th || (&a != &g[0] && &b != &h[0])))
						ed("option/name2/" + a + "/" + b, [=](vf::Model& m) {
							for (auto& o : m.options) {
								if (o.first == g[0])
									o.first = a;
								else if (o.first == h[0])
									o.first = b;
							}
						});
		}
	{
		vf::Model m = D.model("x");
		int n = (int)m.options.size();
		for (int k = 1; k < n; k++)
			ed(sfmt("option/rotate/%d", k), [=](vf::Model& q) {
				std::rotate(q.options.begin(), q.options.begin() + k, q.options.end());
			});
		ed("option/reverse", [](vf::Model& q) { std::reverse(q.options.begin(), q.options.end()); });
		for (int i = 0; i < n; i++)
			for (int j = i + 1; j < n; j++)
				if (th || j == i + 1 || i == 0)
					ed(sfmt("option/swap/%d/%d", i, j), [=](vf::Model& q) { std::swap(q.options[i], q.options[j]); });
	}
	// all the orders of the options that interact
	{
		vector<string> w = { "dtM", "WtrDpth", "tScheme", "g" };
		std::sort(w.begin(), w.end());
		do {
			auto p = w;
			ed("option/order/" + join(p, ","), [=](vf::Model& q) {
				vector<std::pair<string, string>> front;
				for (auto& n : p)
					for (auto& o : q.options)
						if (o.first == n)
							front.push_back(o);
				for (auto& n : p)
					q.del(n);
				q.options.insert(q.options.begin(), front.begin(), front.end());
			});
		} while (std::next_permutation(w.begin(), w.end()));
	}

	// ---- spacing, comments, numbers
	typedef std::function<string(const string&)> S;
	S id = [](const string& l) { return l; };
	vector<std::pair<string, S>> sp = {
		{ "leading", [](const string& l) { return "     " + l; } },
		{ "trailing", [](const string& l) { return l + "    "; } },
		{ "trailtab", [](const string& l) { return l + " \t"; } },
		{ "cr", [](const string& l) { return l + "\r"; } },
		{ "wide", [](const string& l) { return join(toks(l), "        "); } },
		{ "both", [](const string& l) { return "  " + join(toks(l), "   ") + "  "; } },
	};
	for (auto& s : sp) {
		auto f = s.second;
		tx("space/rows/" + s.first, [=](const string& t) { return rows_text(t, f, id); });
		tx("space/options/" + s.first, [=](const string& t) { return rows_text(t, id, f); });
		tx("space/all/" + s.first, [=](const string& t) { return rows_text(t, f, f); });
	}
	tx("space/options/comment", [=](const string& t) {
		return rows_text(t, id, [](const string& l) { return l + "   some dtM g description (m/s^2)"; });
	});
	tx("space/options/blank", [=](const string& t) {
		return rows_text(t, id, [](const string& l) { return l + "\n"; });
	});
	for (const char* fmt : { "%.17e", "%.17E", "%+.17g", "%.20f" })
		for (int part = 0; part < 3; part++) {
			string F = fmt;
			S num = [F](const string& l) {
				auto t = toks(l);
				for (auto& w : t) {
					string o;
					std::istringstream i(w);
					string q;
					bool ok = true;
					while (std::getline(i, q, '|')) {
						char* e;
						double v = strtod(q.c_str(), &e);
						if (*e || q.find_first_of(".eE") == string::npos)
							ok = false;
						o += (o.empty() ? "" : "|") + sfmt(F.c_str(), v);
					}
					if (ok)
						w = o;
				}
				return join(t);
			};
			tx(sfmt("number/%s/%d", fmt, part), [=](const string& t) {
				return rows_text(t, part != 1 ? num : id, part != 0 ? num : id);
			});
		}
	// ---- front matter and headers
	for (int n : { 0, 1, 3, 7 })
		for (int k = 0; k < 3; k++)
			tx(sfmt("front/%d/%d", n, k), [=](const string& t) {
				auto v = lines_of(t);
				v.erase(v.begin(), v.begin() + 2);
				static const char* w[] = { "free text", "LINES and OPTIONS 3 4 5", "1 lt0 1 2 4 4 -" };
				v.insert(v.begin(), n, w[k]);
				return unlines(v);
			});
	tx("headers", [=](const string& t) {
		auto v = lines_of(t);
		int k = 9;
		for (auto& l : v) {
			if (l.find("---") != string::npos)
				k = l.find("OPTIONS") != string::npos ? 9 : 0;
			else if (++k <= 2)
				l = k == 1 ? "" : "1 2 3 whatever";
		}
		return unlines(v);
	});
	tx("last-line", [=](const string& t) {
		auto v = lines_of(t);
		v.pop_back();
		return unlines(v);
	});

	// ---- short forms of the body properties
	for (int mask = 0; mask < 48; mask++) {
		int cda = mask % 6, rest = mask / 6;
		Desc d = D;
		auto bar = [](vector<double> v) {
			string s;
			for (auto z : v)
				s += (s.empty() ? "" : "|") + sfmt("%.17g", z);
			return s;
		};
		string CG, I, CdA, Ca;
		for (auto& b : d.bodies) {
			if (rest & 1)
				b.cg = V3(0, 0, 0.35);
			CG = rest & 1 ? bar({ 0.35 }) : bar({ 0.1, -0.2, 0.15 });
			if (rest & 2)
				b.I = V3(750, 750, 750);
			I = rest & 2 ? bar({ 750 }) : bar({ 700, 800, 900 });
			if (rest & 4)
				b.Ca << 0.65, 0.65, 0.65, 0, 0, 0;
			Ca = rest & 4 ? bar({ 0.65 }) : bar({ 0.7, 0.8, 0.9 });
			if (cda == 0) {
				b.CdA << 2, 2, 2, 2, 2, 2;
				CdA = "2";
			} else if (cda == 1) {
				b.CdA << 2, 2, 2, 9, 9, 9;
				CdA = "2|9";
			} else if (cda == 2) {
				b.CdA << 2, 3, 4, 2, 3, 4;
				CdA = "2|3|4";
			} else if (cda == 3) {
				b.CdA << 2, 3, 4, 5, 6, 7;
				CdA = "2|3|4|5|6|7";
			} else if (cda == 4) {
				b.CdA << 0, 0, 0, 0, 0, 0;
				CdA = "0";
			} else {
				b.CdA << 0, 0, 0, 8, 8, 8;
				CdA = "0|8";
			}
		}
		cs.push_back({ sfmt("short/%s/%s/%s/%s", CG.c_str(), I.c_str(), CdA.c_str(), Ca.c_str()),
		               [=](Ctx& c) {
			               conform(c, d, [=](vf::Model& m) {
				               for (size_t i = 0; i < m.bodies.size(); i++) {
					               field(m.bodies, i, 9, CG);
					               field(m.bodies, i, 10, I);
					               field(m.bodies, i, 12, CdA);
					               field(m.bodies, i, 13, Ca);
				               }
			               });
		               } });
	}

	// ---- defaults known by the reference
	{
		ref::Env def;
		def.kb = 3.0e6;
		def.cb = 3.0e5;
		struct O
		{
			const char* n;
			double ref::Env::*p;
		};
		vector<O> o = { { "g", &ref::Env::g },
			            { "rho", &ref::Env::rho },
			            { "kBot", &ref::Env::kb },
			            { "cBot", &ref::Env::cb },
			            { "FrictionCoefficient", &ref::Env::mu },
			            { "FricDamp", &ref::Env::fd },
			            { "StatDynFricScale", &ref::Env::sd } };
		for (unsigned mask = 1; mask < (1u << o.size()); mask++) {
			if (!th && __builtin_popcount(mask) > 2 && __builtin_popcount(mask) < (int)o.size() - 1)
				continue;
			Desc d = D;
			vector<string> del;
			for (size_t i = 0; i < o.size(); i++)
				if (mask & (1u << i)) {
					d.env.*o[i].p = def.*o[i].p;
					del.push_back(o[i].n);
				}
			d.dt = 0.0005;
			cs.push_back({ "default/" + join(del, ","), [=](Ctx& c) {
				              conform(c, d, [=](vf::Model& m) {
					              for (auto& n : del)
						              m.del(n);
				              });
			              } });
		}
	}

	// ---- every number of the input file takes effect
	{
		vector<std::pair<string, Change>> ch;
		auto num = [&](const string& k, std::function<double&(Desc&)> at, bool zero = true) {
			ch.push_back({ k + "*1.4", [=](Desc& d) { at(d) *= 1.4; } });
			ch.push_back({ k + "*0.6", [=](Desc& d) { at(d) *= 0.6; } });
			if (zero)
				ch.push_back({ k + "=0", [=](Desc& d) { at(d) = 0.0; } });
			ch.push_back({ k + "+0.01", [=](Desc& d) { at(d) += 0.01; } });
		};
		num("g", [](Desc& d) -> double& { return d.env.g; });
		num("rho", [](Desc& d) -> double& { return d.env.rho; });
		num("kBot", [](Desc& d) -> double& { return d.env.kb; });
		num("cBot", [](Desc& d) -> double& { return d.env.cb; });
		num("FrictionCoefficient", [](Desc& d) -> double& { return d.env.mu; });
		num("FricDamp", [](Desc& d) -> double& { return d.env.fd; });
		num("StatDynFricScale", [](Desc& d) -> double& { return d.env.sd; });
		num("dtM", [](Desc& d) -> double& { return d.dt; }, false);
		ch.push_back({ "WtrDpth+0.1", [](Desc& d) { d.env.depth += 0.1; } });
		ch.push_back({ "WtrDpth+1", [](Desc& d) { d.env.depth += 1; } });
		ch.push_back({ "WtrDpth+40", [](Desc& d) { d.env.depth += 40; } });
		for (int t = 0; t < 2; t++) {
			auto lt = [&](const string& n, double LineT::*p, bool z = true) {
				num(sfmt("linetype%d/", t + 1) + n, [=](Desc& d) -> double& { return d.lt[t].*p; }, z);
			};
			lt("d", &LineT::d, false);
			lt("w", &LineT::w, false);
			lt("EA", &LineT::EA, false);
			lt("BA", &LineT::BA);
			lt("EI", &LineT::EI);
			lt("Cd", &LineT::Cd);
			lt("Ca", &LineT::Ca);
			lt("CdAx", &LineT::CdAx);
			lt("CaAx", &LineT::CaAx);
			auto rt = [&](const string& n, double RodT::*p, bool z = true) {
				num(sfmt("rodtype%d/", t + 1) + n, [=](Desc& d) -> double& { return d.rt[t].*p; }, z);
			};
			rt("d", &RodT::d, false);
			rt("w", &RodT::w, false);
			rt("Cd", &RodT::Cd);
			rt("Ca", &RodT::Ca);
			rt("CdEnd", &RodT::CdEnd);
			rt("CaEnd", &RodT::CaEnd);
		}
		for (size_t i = 0; i < D.bodies.size(); i++) {
			string k = sfmt("body%zu/", i + 1);
			num(k + "m", [=](Desc& d) -> double& { return d.bodies[i].m; }, false);
			num(k + "V", [=](Desc& d) -> double& { return d.bodies[i].V; });
			for (int j = 0; j < 6; j++) {
				num(k + sfmt("CdA%d", j), [=](Desc& d) -> double& { return d.bodies[i].CdA[j]; });
				if (j < 3) {
					num(k + sfmt("cg%d", j), [=](Desc& d) -> double& { return d.bodies[i].cg[j]; });
					num(k + sfmt("I%d", j), [=](Desc& d) -> double& { return d.bodies[i].I[j]; }, false);
					num(k + sfmt("Ca%d", j), [=](Desc& d) -> double& { return d.bodies[i].Ca[j]; });
					ch.push_back({ k + sfmt("p%d", j), [=](Desc& d) { d.bodies[i].p[j] += 0.1; } });
					ch.push_back({ k + sfmt("a%d", j), [=](Desc& d) { d.bodies[i].rpy[j] += 7; } });
				}
			}
		}
		for (size_t i = 0; i < D.rods.size(); i++)
			for (int j = 0; j < 3; j++) {
				ch.push_back({ sfmt("rod%zu/a%d", i + 1, j), [=](Desc& d) { d.rods[i].a[j] += 0.1; } });
				ch.push_back({ sfmt("rod%zu/b%d", i + 1, j), [=](Desc& d) { d.rods[i].b[j] -= 0.1; } });
				ch.push_back({ sfmt("rod%zu/N%d", i + 1, j), [=](Desc& d) { d.rods[i].N = 1 + j; } });
				ch.push_back({ sfmt("rod%zu/type%d", i + 1, j), [=](Desc& d) { d.rods[i].type = j % 2; } });
			}
		for (size_t i = 0; i < D.points.size(); i++) {
			string k = sfmt("point%zu/", i + 1);
			for (int j = 0; j < 3; j++)
				if (D.points[i].p[2] > -20 || j != 2)
					ch.push_back({ k + sfmt("p%d", j), [=](Desc& d) { d.points[i].p[j] += 0.1; } });
			num(k + "m", [=](Desc& d) -> double& { return d.points[i].m; }, false);
			num(k + "V", [=](Desc& d) -> double& { return d.points[i].V; });
			num(k + "CdA", [=](Desc& d) -> double& { return d.points[i].CdA; });
			num(k + "Ca", [=](Desc& d) -> double& { return d.points[i].Ca; });
		}
		for (size_t i = 0; i < D.lines.size(); i++) {
			string k = sfmt("line%zu/", i + 1);
			for (double f : { 0.97, 0.995, 1.005, 1.03 })
				ch.push_back({ k + sfmt("L%g", f), [=](Desc& d) { d.lines[i].L *= f; } });
			for (int n : { 1, 2, 3, 4, 6 })
				ch.push_back({ k + sfmt("N%d", n), [=](Desc& d) { d.lines[i].N = n; } });
			for (int n : { 0, 1 })
				ch.push_back({ k + sfmt("type%d", n), [=](Desc& d) { d.lines[i].type = n; } });
			for (int e = 0; e < 2; e++)
				for (int n = 0; n < (int)D.points.size(); n++)
					if (D.lines[i].b.kind != 'p' || D.lines[i].b.i != n)
						if (D.lines[i].a.kind != 'p' || D.lines[i].a.i != n)
							ch.push_back({ k + sfmt("end%d=%d", e, n + 1), [=](Desc& d) {
								              (e ? d.lines[i].b : d.lines[i].a) = { 'p', n };
								              d.lines[i].L = 30;
							              } });
		}
		for (size_t i = 0; i < ch.size(); i++) {
			Desc d = D;
			ch[i].second(d);
			cs.push_back({ "value/" + ch[i].first, [=](Ctx& c) { conform(c, d, nullptr); } });
			if (th)
				for (size_t j = i + 1; j < ch.size(); j++) {
					if ((i * 7 + j) % 9)
						continue;
					Desc e = d;
					ch[j].second(e);
					cs.push_back({ "value/" + ch[i].first + "," + ch[j].first, [=](Ctx& c) { conform(c, e, nullptr); } });
				}
		}
	}

	// ---- unstretched length as a multiple of the distance between the ends
	for (double f : { 0.99, 1.0, 1.02 })
		for (size_t i = 0; i < 2; i++) {
			Desc d = D;
			auto at = [&](const End& e) { return d.points[e.i].p; };
			d.lines[i].L = f * (at(d.lines[i].a) - at(d.lines[i].b)).norm();
			cs.push_back({ sfmt("scale/line%zu/%g", i + 1, f), [=](Ctx& c) {
				              conform(c, d, [=](vf::Model& m) { field(m.lines, i, 4, sfmt("%.17g", -f)); });
			              } });
		}

	// ---- options that the reference does not know
	struct Opt
	{
		string name, def;
		vector<string> other; // different values, with an effect
		bool ic;
		int sys; // 0 chain, 1 waves in a grid
		bool effect = true;
	};
	vector<Opt> opts = {
		{ "tScheme", "RK2", { "Euler", "Heun", "RK4", "AB2", "ACA5", "Wilson5" }, false, 0 },
		{ "CFL", "0.5", { "0.25", "0.7" }, false, 2 },
		{ "TmaxIC", "120", { "3", "10" }, true, 10 },
		{ "threshIC", "0.001", { "0.3", "0.05" }, true, 3 },
		{ "dtIC", "1.0", { "0.2", "0.5" }, true, 3 },
		{ "CdScaleIC", "5.0", { "2", "9" }, true, 4 },
		{ "ICgenDynamic", "0", { "1" }, true, 3 },
		{ "WaveKin", "0", { "3" }, false, 5 },
		{ "Currents", "0", { "1" }, false, 6 },
		{ "dtWave", "0.25", { "0.5", "1" }, false, 7 },
		{ "UnifyCurrentGrid", "1", { "0" }, false, 8 },
		{ "WriteUnits", "1", { "0" }, false, 9 },
		{ "dtOut", "0.0", { "0.05", "0.1" }, false, 9 },
		{ "writeLog", "0", { "1", "2", "3" }, false, 9 },
	};
	auto base_of = [](int k) {
		vf::Model m = k == 0 || k == 9 ? sys_mixed() : sys_chain();
		if (k == 0) // within the stability limits of every scheme
			m.del("dtM").opt("dtM", 0.001);
		if ((k >= 2 && k <= 4) || k == 10) {
			m.del("TmaxIC").del("dtIC").del("threshIC").del("CdScaleIC");
			m.opt("dtM", 0.01);
			if (k == 2)
				m.del("dtM");
			if (k == 4)
				m.opt("ICgenDynamic", "1").opt("TmaxIC", "4").opt("threshIC", "1e-9");
			if (k == 10)
				m.opt("threshIC", "1e-9");
			if (k == 3)
				m.opt("CdScaleIC", "4");
		}
		string e;
		for (int i = 0; i <= 16; i++)
			e += sfmt("%g %g\n", 0.25 * i, 0.8 * sin(2 * M_PI * i / 16.0) + 0.1 * cos(2 * M_PI * i * 3 / 16.0));
		m.files["wave_elevation.txt"] = e;
		m.files["water_grid.txt"] = water_grid();
		m.files["current_profile.txt"] = current_profile();
		if (k == 7)
			m.opt("WaveKin", "3");
		if (k == 8)
			m.opt("WaveKin", "3").opt("Currents", "1");
		if (k == 9) {
			m.outputs = { "FAIRTEN1", "L1N1PX" };
			auto t = toks(m.lines[0]);
			t.back() = "p";
			m.lines[0] = join(t);
		}
		return m;
	};
	for (auto& o : opts) {
		auto base = base_of(o.sys);
		cs.push_back({ "option/default/" + o.name, [=](Ctx& c) {
			              vf::Model a = base, b = base;
			              a.del(o.name);
			              b.del(o.name).opt(o.name, o.def);
			              Free x = play(c, a, "a", o.ic), y = play(c, b, "b", o.ic);
			              equal(c, x.obs, y.obs, "default", o.name + " omitted");
			              scalar(c, x.dt, y.dt, 1e-12, "default", o.name + " omitted: time step");
			              c.req(x.files == y.files, "default", o.name + " omitted: the files differ");
			              c.trace();
		              } });
		cs.push_back({ "option/effect/" + o.name, [=](Ctx& c) {
			              vector<Free> r;
			              vector<string> vals = { o.def };
			              vals.insert(vals.end(), o.other.begin(), o.other.end());
			              for (auto& v : vals) {
				              vf::Model b = base;
				              b.del(o.name).opt(o.name, v);
				              r.push_back(play(c, b, sfmt("v%zu", r.size()), o.ic, 25));
			              }
			              for (size_t i = 0; i < r.size(); i++)
				              for (size_t j = i + 1; j < r.size(); j++)
					              c.req(differ(r[i].obs, r[j].obs) || r[i].dt != r[j].dt || r[i].files != r[j].files,
					                    "effect",
					                    o.name + " has no effect: " + vals[i] + " is like " + vals[j]);
			              c.trace();
		              } });
	}
	// names
	vector<vector<string>> names = { { "TmaxIC", "ICTmax" }, { "dtIC", "ICdt" }, { "CdScaleIC", "ICDfac" }, { "threshIC", "ICthresh" } };
	for (auto& g : names)
		cs.push_back({ "option/name/" + g[1], [=](Ctx& c) {
			              bool dyn = g[0] == "CdScaleIC";
			              vf::Model a = base_of(dyn ? 4 : 3), b;
			              a.del(g[0]);
			              b = a;
			              string v = g[0] == "TmaxIC" ? "0.4" : g[0] == "dtIC" ? "0.3" : g[0] == "threshIC" ? "0.2" : "3";
			              a.opt(g[0], v);
			              b.opt(g[1], v);
			              Free x = play(c, a, "a", true), y = play(c, b, "b", true);
			              equal(c, x.obs, y.obs, "name", g[1]);
			              c.trace();
		              } });
	cs.push_back({ "option/name/cfl", [=](Ctx& c) {
		              vf::Model a = base_of(2), b = a;
		              a.opt("CFL", "0.3");
		              b.opt("cfl", "0.3");
		              Free x = play(c, a, "a", false), y = play(c, b, "b", false);
		              equal(c, x.obs, y.obs, "name", "cfl");
		              scalar(c, x.dt, y.dt, 1e-12, "name", "cfl: time step");
		              c.trace();
	              } });
	// ---- the time step: the smallest of dtM and that of CFL
	for (int k = 0; k < 2; k++)
		for (double cfl : { 0.05, 0.2, 0.5, 1.0 })
			for (double f : { 0.3, 0.999, 1.001, 4.0 })
				for (int first = 0; first < 2; first++)
					cs.push_back({ sfmt("timestep/%d/%g/%g/%d", k, cfl, f, first), [=](Ctx& c) {
						              vf::Model a = k ? sys_mixed() : sys_chain();
						              a.del("dtM");
						              vf::Model b = a;
						              a.opt("CFL", cfl);
						              Free x = play(c, a, "a", false, 0);
						              scalar(c, cfl, x.cfl, 1e-6 * cfl, "cfl", "the CFL is the given one");
						              c.req(x.dt > 0 && x.dt < 1, "cfl", "time step");
						              double dt = x.dt * f;
						              if (first)
							              b.opt("dtM", dt).opt("CFL", cfl);
						              else
							              b.opt("CFL", cfl).opt("dtM", dt);
						              Free y = play(c, b, "b", false, 0);
						              scalar(c, f < 1 ? dt : x.dt, y.dt, 1e-9 * dt, "timestep", "the smallest of dtM and that of CFL");
						              vf::Model q = a;
						              q.del("CFL").opt("dtM", dt);
						              Free z = play(c, q, "q", false, 0);
						              scalar(c, dt, z.dt, 1e-12 * dt, "timestep", "without CFL the given time step is used");
						              scalar(c, cfl * f, z.cfl, 1e-6 * cfl * f, "timestep", "the CFL is that of the time step");
						              c.trace();
					              } });
}
