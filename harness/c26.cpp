// C26: the Python generator of input files. Every combination of the objects
// it can describe is built twice: through the generator and from an input file
// written here; both systems have to be the same one.
#define VF_MAIN
#include "py.hpp"

using namespace vf;

namespace {

const char* BODY[] = { "none", "FIXED", "FREE", "COUPLED" };
const char* ROD[] = { "none",    "FIXED",   "PINNED", "FREE",
	                  "COUPLED", "CPLDPIN", "BODY",   "BODYPINNED" };
const char* END[] = { "coupled", "free", "body", "rodA", "rodB" };
const char* FAIL[] = { "none", "time", "tension", "two" };

struct Cfg
{
	int body, rod, end, order, setters, fail;
	bool ok() const
	{
		if (!body && (rod >= 6 || end == 2))
			return false;
		if (!rod && end >= 3)
			return false;
		return true;
	}
	string key() const
	{
		return sfmt("%s/%s/%s/%s/%s/%s", BODY[body], ROD[rod], END[end],
		            order ? "later" : "natural", setters ? "set" : "built",
		            FAIL[fail]);
	}
};

/// a constructor call, either direct or with other values changed afterwards
/// through the properties
string
make(bool setters, const string& var, const string& cls,
     const vector<std::array<string, 4>>& args)
{
	// name of the argument, value, other value, property ("" if none)
	string s = var + " = G." + cls + "(";
	for (auto& a : args)
		s += a[0] + "=" + (setters && !a[3].empty() ? a[2] : a[1]) + ", ";
	s += ")\n";
	if (setters)
		for (auto& a : args)
			if (!a[3].empty())
				s += var + "." + a[3] + " = " + a[1] + "\n";
	return s;
}

void
describe(const Cfg& f, string& py, Model& m)
{
	bool st = f.setters;
	string mk, add[8];
	m.name = "generated";
	m.linetypes = { "chain 0.12 45.0 2000000.0 -0.6 0 1.3 0.9 0.3 0.2",
		            "rope 0.1 9.0 600000.0 6000.0 1000.0 1.1 1.0 0.2 0.1" };
	mk += make(st, "lm1", "LineMaterial",
	           { { "name", "'chain'", "'decoy'", "name" },
	             { "d", "0.12", "0.5", "d" },
	             { "w", "45.0", "1.0", "w" },
	             { "ea", "2.0e6", "1.0", "ea" },
	             { "ba", "-0.6", "3", "ba" },
	             { "ei", "0", "7", "ei" },
	             { "cdn", "1.3", "2.1", "cdn" },
	             { "can", "0.9", "2.2", "can" },
	             { "cdt", "0.3", "2.3", "cdt" },
	             { "cat", "0.2", "2.4", "cat" } });
	mk += make(false, "lm2", "LineMaterial",
	           { { "name", "'rope'", "", "" },
	             { "d", "0.1", "", "" },
	             { "w", "9.0", "", "" },
	             { "ea", "6.0e5", "", "" },
	             { "ba", "6.0e3", "", "" },
	             { "ei", "1000.0", "", "" },
	             { "cdn", "1.1", "", "" },
	             { "can", "1.0", "", "" },
	             { "cdt", "0.2", "", "" },
	             { "cat", "0.1", "", "" } });
	add[0] = "s.AddLineMaterial(lm1)\ns.AddLineMaterial(lm2)\n";
	if (f.rod) {
		m.rodtypes = { "buoy 0.8 180.0 0.7 0.9 0.6 0.5" };
		mk += make(st, "rm", "RodMaterial",
		           { { "name", "'buoy'", "'decoy'", "name" },
		             { "d", "0.8", "0.5", "d" },
		             { "w", "180.0", "1.0", "w" },
		             { "cdn", "0.7", "2.1", "cdn" },
		             { "can", "0.9", "2.2", "can" },
		             { "cdt", "0.6", "2.3", "cdt" },
		             { "cat", "0.5", "2.4", "cat" } });
		add[1] = "s.AddRodMaterial(rm)\n";
	}
	if (f.body) {
		// with one body before it, so that the numbers matter
		m.bodies = { "1 FIXED 40 40 -20 0 0 0 100 0 100 1 0 0",
			         sfmt("2 %s 0.5 1.5 -8.0 5.0 -4.0 12.0 2500.0 0.1|0.2|-0.3 "
			              "1000.0|1200.0|900.0 1.25 2.0|3.0|4.0 0.5|0.6|0.7",
			              BODY[f.body]) };
		mk += "bf = G.BodyPoint()\n";
		mk += "b0 = G.Body(t=bf, p=[40, 40, -20], r=[0, 0, 0], m=100, cog=0, "
		      "inertia=100, cda=0, v=1, ca=0)\n";
		mk += "bp = G.BodyPoint()\n";
		if (f.body == 2)
			mk += "bp.fixed = False\n";
		if (f.body == 3)
			mk += "bp.coupled = True\n";
		mk += make(st, "b1", "Body",
		           { { "t", "bp", "bf", "type" },
		             { "p", "[0.5, 1.5, -8.0]", "[9, 9, -9]", "p" },
		             { "r", "[5.0, -4.0, 12.0]", "[0, 0, 1]", "r" },
		             { "m", "2500.0", "1.0", "mass" },
		             { "cog", "[0.1, 0.2, -0.3]", "2", "cog" },
		             { "inertia", "(1000.0, 1200.0, 900.0)", "5", "I" },
		             { "cda", "[2.0, 3.0, 4.0]", "0", "cda" },
		             { "v", "1.25", "8.0", "vol" },
		             { "ca", "[0.5, 0.6, 0.7]", "0", "ca" } });
		add[2] = "s.AddBody(b0)\ns.AddBody(b1)\n";
	}
	if (f.rod) {
		bool onbody = f.rod >= 6;
		string at = f.rod == 6 ? "BODY2" : f.rod == 7 ? "BODY2PINNED"
		                                               : ROD[f.rod];
		string a = onbody ? "0.3 0.2 -1.0" : "4.0 -3.0 -12.0",
		       b = onbody ? "0.6 1.2 -4.0" : "5.0 -2.0 -9.0";
		m.rods = { "1 buoy FIXED -40 -40 -20 -40 -40 -18 2 -",
			       sfmt("2 buoy %s %s %s 3 -", at.c_str(), a.c_str(),
			            b.c_str()) };
		mk += "rf = G.RodPoint()\n";
		mk += "r0 = G.Rod(rm, rf, [-40, -40, -20], [-40, -40, -18], 2)\n";
		mk += "rp = G.RodPoint()\n";
		if (f.rod == 2)
			mk += "rp.pinned = True\n";
		if (f.rod == 3)
			mk += "rp.fixed = False\n";
		if (f.rod == 4)
			mk += "rp.coupled = True\n";
		if (f.rod == 5)
			mk += "rp.coupled = True\nrp.pinned = True\n";
		if (onbody)
			mk += "rp.body = b1\n";
		if (f.rod == 7)
			mk += "rp.pinned = True\n";
		if (st)
			mk += "rx = G.RodMaterial('other', 1, 2, 3, 4, 5, 6)\n";
		mk += make(st, "r1", "Rod",
		           { { "material", "rm", "rx", "material" },
		             { "point", "rp", "rf", "point" },
		             { "p0", onbody ? "[0.3, 0.2, -1.0]" : "[4.0, -3.0, -12.0]",
		               "[0, 0, 0]", "p0" },
		             { "p1", onbody ? "[0.6, 1.2, -4.0]" : "[5.0, -2.0, -9.0]",
		               "[0, 0, 1]", "p1" },
		             { "n", "3", "1", "n" } });
		add[3] = "s.AddRod(r0)\ns.AddRod(r1)\n";
	}
	m.points = { "1 FIXED 20.0 5.0 -30.0 0 0 0 0",
		         "2 COUPLED 1.0 2.0 -3.0 50.0 0.02 0.3 0.4",
		         "3 FREE 8.0 3.0 -15.0 400.0 0.1 0.5 0.6" };
	mk += "p1 = G.Point('FIXED', [20.0, 5.0, -30.0], 0, 0, 0, 0)\n";
	mk += make(st, "p2", "Point",
	           { { "t", "'COUPLED'", "'FREE'", "type" },
	             { "p", "[1.0, 2.0, -3.0]", "[0, 0, 0]", "p" },
	             { "m", "50.0", "1", "mass" },
	             { "v", "0.02", "2", "vol" },
	             { "cda", "0.3", "3", "cda" },
	             { "ca", "0.4", "4", "ca" } });
	mk += make(st, "p3", "Point",
	           { { "t", "'FREE'", "'FIXED'", "type" },
	             { "p", "(8.0, 3.0, -15.0)", "[0, 0, 0]", "p" },
	             { "m", "400.0", "1", "mass" },
	             { "v", "0.1", "2", "vol" },
	             { "cda", "0.5", "3", "cda" },
	             { "ca", "0.6", "4", "ca" } });
	add[4] = "s.AddPoint(p1)\ns.AddPoint(p2)\ns.AddPoint(p3)\n";
	if (f.body) {
		m.points.push_back("4 BODY2 0.5 -0.5 -1.0 0 0 0 0");
		mk += make(st, "p4", "Point",
		           { { "t", "b1", "'FREE'", "type" },
		             { "p", "[0.5, -0.5, -1.0]", "[0, 0, 0]", "p" },
		             { "m", "0", "1", "mass" },
		             { "v", "0", "2", "vol" },
		             { "cda", "0", "3", "cda" },
		             { "ca", "0", "4", "ca" } });
		add[4] += "s.AddPoint(p4)\n";
	}
	const char* endrow[] = { "2", "3", "4", "R2A", "R2B" };
	m.lines = { "1 chain 1 3 20.5 4 -",
		        sfmt("2 rope 3 %s 15.5 5 -", f.end == 1 ? "2" : endrow[f.end]) };
	mk += make(st, "l1", "Line",
	           { { "material", "lm1", "lm2", "material" },
	             { "point0", "G.LinePoint(p1)", "G.LinePoint(p2)", "point0" },
	             { "point1", "G.LinePoint(p3)", "G.LinePoint(p1)", "point1" },
	             { "l", "20.5", "1.0", "l" },
	             { "n", "4", "1", "n" } });
	if (f.end == 1 && st) {
		mk += "lp = G.LinePoint(p3)\nlp.obj = p2\n";
	} else if (f.end == 4 && st) {
		mk += "lp = G.LinePoint(r1)\nlp.end_point = 'B'\n";
	} else {
		const char* obj[] = { "p2", "p2", "p4", "r1", "r1, 'B'" };
		mk += string("lp = G.LinePoint(") + obj[f.end] + ")\n";
	}
	mk += "l2 = G.Line(lm2, G.LinePoint(p3), lp, 15.5, 5)\n";
	add[5] = "s.AddLine(l1)\ns.AddLine(l2)\n";
	if (f.end == 1) {
		// the free point hangs between two lines: a third one
		m.lines.push_back("3 rope 2 3 16.0 3 -");
		mk += "l3 = G.Line(lm2, G.LinePoint(p2), G.LinePoint(p3), 16.0, 3)\n";
		add[5] += "s.AddLine(l3)\n";
	}
	if (f.fail == 1) {
		m.failure.push_back("1 3 2 0.03 0");
		mk += make(st, "fl", "Failure",
		           { { "point", "G.LinePoint(p3)", "G.LinePoint(p1)", "point" },
		             { "lines", "[l2]", "[l1]", "lines" },
		             { "time", "0.03", "9", "time" },
		             { "ten", "0", "8", "ten" } });
	} else if (f.fail == 2) {
		m.failure.push_back("1 3 1 0 100.0");
		mk += make(st, "fl", "Failure",
		           { { "point", "G.LinePoint(p3)", "G.LinePoint(p1)", "point" },
		             { "lines", "[l1]", "[l2]", "lines" },
		             { "time", "0", "9", "time" },
		             { "ten", "100.0", "8", "ten" } });
	} else if (f.fail == 3) {
		m.failure.push_back("1 3 2,1 0.05 0");
		m.failure.push_back("2 1 1 0.03 0");
		mk += "fl = G.Failure(G.LinePoint(p3), [l2, l1], 0.05, 0)\n";
		mk += "f2 = G.Failure(G.LinePoint(p1), [l1], 0.03, 0)\n";
	}
	if (f.fail)
		add[6] = "s.AddFailure(fl)\n";
	if (f.fail == 3)
		add[6] += "s.AddFailure(f2)\n";
	m.opt("dtM", "0.004")
	    .opt("tScheme", "RK2")
	    .opt("WtrDpth", "30.0")
	    .opt("WtrDnsty", "1025.0")
	    .opt("kBot", "3000000.0")
	    .opt("cBot", "300000.0")
	    .opt("TmaxIC", "0.5")
	    .opt("dtIC", "0.25")
	    .opt("writeLog", "0");
	const char* o = "o = G.Option('dtM', 9)\no.value = 0.004\n"
	                "o2 = G.Option('XX', 'RK2')\no2.name = 'tScheme'\n";
	add[7] = "s.AddOption(o)\ns.AddOption(o2)\n";
	add[7] += "for k, v in (('WtrDpth', 30.0), ('WtrDnsty', 1025.0), ('kBot', "
	          "3.0e6), ('cBot', 3.0e5), ('TmaxIC', 0.5), ('dtIC', 0.25), "
	          "('writeLog', 0)):\n    s.AddOption(G.Option(k, v))\n";
	py = "import moordyn\nG = moordyn.Generator\ns = G.Mooring()\n" + mk + o;
	if (f.order == 0)
		for (int i = 0; i < 8; i++)
			py += add[i];
	else
		for (int i = 7; i >= 0; i--)
			py += add[i];
	py += "result = s.Create()\n";
	// coupled degrees of freedom: bodies, rods, points
	const double d2r = M_PI / 180.0;
	m.x0.clear();
	if (f.body == 3)
		m.x0 = { 0.5, 1.5, -8.0, 5.0 * d2r, -4.0 * d2r, 12.0 * d2r };
	if (f.rod == 4)
		m.x0.insert(m.x0.end(), { 4.0, -3.0, -12.0, 0.0, 0.0, 0.0 });
	if (f.rod == 5)
		m.x0.insert(m.x0.end(), { 4.0, -3.0, -12.0 });
	m.x0.insert(m.x0.end(), { 1.0, 2.0, -3.0 });
	m.amp = 0.05;
}

} // namespace

namespace vf {
void
enumerate(Cases& cases, const string& tier)
{
	bool deep = tier == "thorough";
	for (int b = 0; b < 4; b++)
		for (int r = 0; r < 8; r++)
			for (int e = 0; e < 5; e++)
				for (int o = 0; o < 2; o++)
					for (int s = 0; s < 2; s++)
						for (int fl = 0; fl < 4; fl++) {
							Cfg f{ b, r, e, o, s, fl };
							if (!f.ok())
								continue;
							cases.push_back({ f.key(), [=](Ctx& c) {
								string py;
								Model m;
								describe(f, py, m);
								py_start();
								string pre =
								    "import tempfile\ntempfile.tempdir = '" +
								    c.dir + "'\n";
								Ref g(PyDict_New());
								PyDict_SetItemString(g, "__builtins__",
								                     PyEval_GetBuiltins());
								Ref r0(PyRun_String((pre + py).c_str(),
								                    Py_file_input, g, g));
								if (!r0.o) {
									PyObject *ty, *va, *tb;
									PyErr_Fetch(&ty, &va, &tb);
									Ref txt(va ? PyObject_Str(va) : nullptr);
									string w =
									    ty ? ((PyTypeObject*)ty)->tp_name : "?";
									if (txt.o && PyUnicode_AsUTF8(txt))
										w += string(": ") +
										     PyUnicode_AsUTF8(txt);
									Py_XDECREF(ty);
									Py_XDECREF(va);
									Py_XDECREF(tb);
									PyErr_Clear();
									c.fail("generator-raises", w);
								}
								PyObject* cap = PyDict_GetItemString(g, "result");
								MoorDyn pm =
								    cap && PyCapsule_CheckExact(cap)
								        ? (MoorDyn)PyCapsule_GetPointer(
								              cap, "MoorDyn")
								        : nullptr;
								PyErr_Clear();
								c.req(pm != nullptr, "generator-Create", "");
								Sys G, S;
								G.md = pm;
								G.m = &m;
								c.req(S.create(m, c.dir, "c"), "create", "C");
								MoorDyn_NCoupledDOF(G.md, &G.ndof);
								c.req(G.ndof == S.ndof && S.ndof == m.x0.size(),
								      "generator-dofs",
								      sfmt("%u, %u", G.ndof, S.ndof));
								bool noic = (f.body + f.rod) % 2;
								int eg = G.init(noic), es = S.init(noic);
								c.req(es == MOORDYN_SUCCESS, "init",
								      sfmt("%d", es));
								c.req(eg == es, "generator-init",
								      sfmt("%d instead of %d", eg, es));
								auto all = [&](const Sys& q) {
									dv o = q.obs();
									unsigned n;
									double M[36];
									MoorDyn_GetNumberBodies(q.md, &n);
									for (unsigned i = 1; i <= n; i++) {
										MoorDyn_GetBodyM(
										    MoorDyn_GetBody(q.md, i),
										    (double(*)[6])M);
										o.insert(o.end(), M, M + 36);
									}
									dv ff = q.forces();
									o.insert(o.end(), ff.begin(), ff.end());
									return o;
								};
								for (int k = 0; k <= (c.thorough() ? 12 : 5);
								     k++) {
									if (k) {
										c.req(S.step(0.02) == MOORDYN_SUCCESS,
										      "step", "");
										c.req(G.step(0.02) == MOORDYN_SUCCESS,
										      "generator-step", "");
									}
									dv a = all(G), d = all(S);
									c.req(identical(a, d), "generator-system",
									      sfmt("the generated system differs "
									           "after %d steps",
									           k));
									c.state(d);
									c.trans(1);
								}
								c.outcome(S.obs());
								c.trace();
							} });
						}
	(void)deep;
}
} // namespace vf
