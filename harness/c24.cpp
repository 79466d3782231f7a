// C24: the Python module against the C interface. Every sequence of calls up
// to a depth is made on two sibling systems, one driven through the Python
// module and the other one through the C interface; every answer and every
// getter is compared after every call.
#define VF_MAIN
#include "py.hpp"
#include <memory>

using namespace vf;

namespace {

/// Both siblings
struct Pair
{
	Ctx& c;
	const Model& m;
	Ref py;      // capsule
	MoorDyn pmd; // the system inside
	Sys cs;
	double t = 0.0;
	bool wave_ext = false;
	int nsave = 0;
	string dir;

	Pair(Ctx& ctx, const Model& model)
	  : c(ctx)
	  , m(model)
	{
		py_start();
		dir = c.dir;
		c.req(cs.create(m, c.dir, "c"), "create", "C");
		string d = c.dir + "/p";
		mkdir(d.c_str(), 0700);
		write_file(d + "/m.txt", m.text());
		for (auto& f : m.files)
			write_file(d + "/" + f.first, f.second);
		py = goodref("Create", { text(d + "/m.txt") });
		pmd = (MoorDyn)PyCapsule_GetPointer(py, "MoorDyn");
		if (!pmd) {
			PyErr_Clear();
			c.fail("python-capsule", "Create() does not give a system");
		}
		for (auto& o : m.options)
			if (o.first == "WaveKin" && atoi(o.second.c_str()) == 1)
				wave_ext = true;
	}
	~Pair()
	{
		if (pmd)
			MoorDyn_Close(pmd);
	}

	void cmp(const char* fn, const vector<Ref>& args, const dv& want,
	         const string& what)
	{
		dv got = good(fn, args);
		c.req(identical(got, want), sfmt("python-%s", fn),
		      sfmt("moordyn.%s(%s) = %s, C: %s", fn, what.c_str(),
		           show(got).c_str(), show(want).c_str()));
	}
	/// something to be done: it gives nothing or the C answer, and an error
	/// may be either raised or returned
	void cmd(const char* fn, const vector<Ref>& args, int want)
	{
		Ans a = call(fn, args);
		bool ok = a.ok() && (a.val.o == Py_None ? want == MOORDYN_SUCCESS
		                                        : identical(flat(a.val),
		                                                    { (double)want }));
		bool refused = !a.ok() && want != MOORDYN_SUCCESS &&
		               a.exc != "SystemError" && a.exc != "AttributeError" &&
		               a.exc != "NameError" && a.exc != "nothing";
		c.req(ok || refused, sfmt("python-%s", fn),
		      sfmt("moordyn.%s: C %d, Python %s %s", fn, want, a.exc.c_str(),
		           a.ok() ? show(flat(a.val)).c_str() : ""));
	}
	Ref handle(const char* fn, int i, const char* cap, void* want)
	{
		Ref r = goodref(fn, { py, integer(i) });
		void* p = PyCapsule_CheckExact(r.o) ? PyCapsule_GetPointer(r, cap)
		                                    : nullptr;
		if (!p)
			PyErr_Clear();
		c.req(p && p == want, sfmt("python-%s", fn),
		      sfmt("moordyn.%s(%d) is another object", fn, i));
		return r;
	}

	/// every getter, Python on its system against C on the sibling
	dv compare()
	{
		MoorDyn md = cs.md;
		unsigned nb, nr, np, nl, nd;
		MoorDyn_GetNumberBodies(md, &nb);
		MoorDyn_GetNumberRods(md, &nr);
		MoorDyn_GetNumberPoints(md, &np);
		MoorDyn_GetNumberLines(md, &nl);
		MoorDyn_NCoupledDOF(md, &nd);
		cmp("GetNumberBodies", { py }, { (double)nb }, "");
		cmp("GetNumberRods", { py }, { (double)nr }, "");
		cmp("GetNumberPoints", { py }, { (double)np }, "");
		cmp("GetNumberLines", { py }, { (double)nl }, "");
		cmp("NCoupledDOF", { py }, { (double)nd }, "");
		double v[36], w[36];
		int id;
		unsigned n;
		dv all;
		auto V = [&](const double* p, int k) {
			all.insert(all.end(), p, p + k);
			return dv(p, p + k);
		};
		for (unsigned i = 1; i <= nb; i++) {
			auto b = MoorDyn_GetBody(md, i);
			Ref h = handle("GetBody", (int)i, "MoorDynBody",
			               MoorDyn_GetBody(pmd, i));
			string k = sfmt("body %u", i);
			MoorDyn_GetBodyID(b, &id);
			cmp("GetBodyID", { h }, { (double)id }, k);
			MoorDyn_GetBodyType(b, &id);
			cmp("GetBodyType", { h }, { (double)id }, k);
			MoorDyn_GetBodyState(b, v, w);
			dv st = V(v, 6), sd = V(w, 6);
			st.insert(st.end(), sd.begin(), sd.end());
			cmp("GetBodyState", { h }, st, k);
			MoorDyn_GetBodyPos(b, v);
			cmp("GetBodyPos", { h }, V(v, 3), k);
			MoorDyn_GetBodyAngle(b, v);
			cmp("GetBodyAngle", { h }, V(v, 3), k);
			MoorDyn_GetBodyVel(b, v);
			cmp("GetBodyVel", { h }, V(v, 3), k);
			MoorDyn_GetBodyAngVel(b, v);
			cmp("GetBodyAngVel", { h }, V(v, 3), k);
			MoorDyn_GetBodyForce(b, v);
			cmp("GetBodyForce", { h }, V(v, 6), k);
			MoorDyn_GetBodyM(b, (double(*)[6])v);
			cmp("GetBodyM", { h }, V(v, 36), k);
		}
		for (unsigned i = 1; i <= nr; i++) {
			auto b = MoorDyn_GetRod(md, i);
			Ref h =
			    handle("GetRod", (int)i, "MoorDynRod", MoorDyn_GetRod(pmd, i));
			string k = sfmt("rod %u", i);
			MoorDyn_GetRodID(b, &id);
			cmp("GetRodID", { h }, { (double)id }, k);
			MoorDyn_GetRodType(b, &id);
			cmp("GetRodType", { h }, { (double)id }, k);
			MoorDyn_GetRodForce(b, v);
			cmp("GetRodForce", { h }, V(v, 6), k);
			MoorDyn_GetRodM(b, (double(*)[6])v);
			cmp("GetRodM", { h }, V(v, 36), k);
			MoorDyn_GetRodN(b, &n);
			cmp("GetRodN", { h }, { (double)n }, k);
			MoorDyn_GetRodNumberNodes(b, &n);
			for (unsigned j = 0; j < n; j++) {
				string kj = k + sfmt(" node %u", j);
				MoorDyn_GetRodNodePos(b, j, v);
				cmp("GetRodNodePos", { h, integer(j) }, V(v, 3), kj);
				MoorDyn_GetRodNodeVel(b, j, v);
				cmp("GetRodNodeVel", { h, integer(j) }, V(v, 3), kj);
			}
		}
		for (unsigned i = 1; i <= np; i++) {
			auto b = MoorDyn_GetPoint(md, i);
			Ref h = handle("GetPoint", (int)i, "MoorDynPoint",
			               MoorDyn_GetPoint(pmd, i));
			string k = sfmt("point %u", i);
			MoorDyn_GetPointID(b, &id);
			cmp("GetPointID", { h }, { (double)id }, k);
			MoorDyn_GetPointType(b, &id);
			cmp("GetPointType", { h }, { (double)id }, k);
			MoorDyn_GetPointPos(b, v);
			cmp("GetPointPos", { h }, V(v, 3), k);
			MoorDyn_GetPointVel(b, v);
			cmp("GetPointVel", { h }, V(v, 3), k);
			MoorDyn_GetPointForce(b, v);
			cmp("GetPointForce", { h }, V(v, 3), k);
			MoorDyn_GetPointM(b, (double(*)[3])v);
			cmp("GetPointM", { h }, V(v, 9), k);
			MoorDyn_GetPointNAttached(b, &n);
			cmp("GetPointNAttached", { h }, { (double)n }, k);
			auto pb = MoorDyn_GetPoint(pmd, i);
			for (unsigned j = 0; j < n; j++) {
				MoorDynLine l = nullptr;
				int e = -1;
				MoorDyn_GetPointAttached(pb, j, &l, &e);
				Ref r = goodref("GetPointAttached", { h, integer(j) });
				bool ok = PySequence_Check(r.o) && PySequence_Size(r) == 2;
				void* lp = nullptr;
				long le = -7;
				if (ok) {
					Ref a(PySequence_GetItem(r, 0)), bb(PySequence_GetItem(r, 1));
					lp = PyCapsule_CheckExact(a.o)
					         ? PyCapsule_GetPointer(a, "MoorDynLine")
					         : nullptr;
					le = PyLong_Check(bb.o) ? PyLong_AsLong(bb) : -7;
				}
				PyErr_Clear();
				c.req(ok && lp && lp == (void*)l && le == e,
				      "python-GetPointAttached", k + sfmt(" line %u", j));
			}
		}
		for (unsigned i = 1; i <= nl; i++) {
			auto b = MoorDyn_GetLine(md, i);
			Ref h = handle("GetLine", (int)i, "MoorDynLine",
			               MoorDyn_GetLine(pmd, i));
			string k = sfmt("line %u", i);
			MoorDyn_GetLineID(b, &id);
			cmp("GetLineID", { h }, { (double)id }, k);
			MoorDyn_GetLineN(b, &n);
			cmp("GetLineN", { h }, { (double)n }, k);
			MoorDyn_GetLineUnstretchedLength(b, v);
			cmp("GetLineUnstretchedLength", { h }, V(v, 1), k);
			MoorDyn_IsLineConstantEA(b, &id);
			cmp("IsLineConstantEA", { h }, { id ? 1.0 : 0.0 }, k);
			if (MoorDyn_GetLineConstantEA(b, v) == MOORDYN_SUCCESS)
				cmp("GetLineConstantEA", { h }, V(v, 1), k);
			else
				bad(c, "GetLineConstantEA", { h }, "a nonlinear line");
			MoorDyn_IsLinePressBend(b, &id);
			cmp("IsLinePressBend", { h }, { (double)id }, k);
			MoorDyn_GetLineFairTen(b, v);
			cmp("GetLineFairTen", { h }, V(v, 1), k);
			MoorDyn_GetLineMaxTen(b, v);
			cmp("GetLineMaxTen", { h }, V(v, 1), k);
			MoorDyn_GetLineNumberNodes(b, &n);
			for (unsigned j = 0; j < n; j++) {
				string kj = k + sfmt(" node %u", j);
				Ref jj = integer(j);
#define NODE(NAME)                                                             \
	MoorDyn_##NAME(b, j, v);                                                   \
	cmp(#NAME, { h, jj }, V(v, 3), kj)
				NODE(GetLineNodePos);
				NODE(GetLineNodeVel);
				NODE(GetLineNodeForce);
				NODE(GetLineNodeTen);
				NODE(GetLineNodeBendStiff);
				NODE(GetLineNodeWeight);
				NODE(GetLineNodeDrag);
				NODE(GetLineNodeFroudeKrilov);
				NODE(GetLineNodeSeabedForce);
				MoorDyn_GetLineNodeCurv(b, j, v);
				cmp("GetLineNodeCurv", { h, jj }, V(v, 1), kj);
				MoorDyn_GetLineNodeM(b, j, (double(*)[3])v);
				cmp("GetLineNodeM", { h, jj }, V(v, 9), kj);
			}
		}
		for (int k = 0; k <= (int)nl; k++) {
			vector<float> a(k + 1), b(k + 1), d(k + 1), e(k + 1);
			if (MoorDyn_GetFASTtens(md, &k, a.data(), b.data(), d.data(),
			                        e.data()) != MOORDYN_SUCCESS)
				continue;
			dv want;
			for (auto* q : { &a, &b, &d, &e })
				want.insert(want.end(), q->begin(), q->begin() + k);
			cmp("GetFASTtens", { py, integer(k) }, want, sfmt("%d", k));
		}
		// water and seabed
		auto wv = MoorDyn_GetWaves(md);
		Ref hw = goodref("GetWaves", { py });
		void* pw = PyCapsule_CheckExact(hw.o)
		               ? PyCapsule_GetPointer(hw, "MoorDynWaves")
		               : nullptr;
		PyErr_Clear();
		c.req(pw && pw == (void*)MoorDyn_GetWaves(pmd), "python-GetWaves", "");
		auto sf = MoorDyn_GetSeafloor(md);
		Ref hs = goodref("GetSeafloor", { py });
		c.req((hs.o != Py_None) == (sf != nullptr), "python-GetSeafloor", "");
		for (double x : { -7.5, 12.25 })
			for (double z : { -19.0, -3.5 }) {
				double u[3], ud[3], zeta, pd;
				int e = MoorDyn_GetWavesKin(wv, x, 2.5, z, u, ud, &zeta, &pd,
				                            nullptr);
				vector<Ref> a = { hw, num(x), num(2.5), num(z) };
				if (e != MOORDYN_SUCCESS) {
					bad(c, "GetWavesKin", a, "a refused place");
					continue;
				}
				dv want;
				want.insert(want.end(), u, u + 3);
				want.insert(want.end(), ud, ud + 3);
				want.push_back(zeta);
				want.push_back(pd);
				all.insert(all.end(), want.begin(), want.end());
				cmp("GetWavesKin", a, want, sfmt("%g %g", x, z));
				a.push_back(none());
				cmp("GetWavesKin", a, want, sfmt("%g %g None", x, z));
				if (sf) {
					a.back() = hs;
					if (MoorDyn_GetWavesKin(wv, x, 2.5, z, u, ud, &zeta, &pd,
					                        sf) == MOORDYN_SUCCESS) {
						want = { u[0],  u[1],  u[2],  ud[0],
							     ud[1], ud[2], zeta, pd };
						cmp("GetWavesKin", a, want, "seafloor");
					}
				}
			}
		if (sf) {
			MoorDyn_GetAverageDepth(sf, v);
			cmp("GetAverageDepth", { hs }, V(v, 1), "");
			MoorDyn_GetMinDepth(sf, v);
			cmp("GetMinDepth", { hs }, V(v, 1), "");
			for (double x : { -7.5, 12.25 }) {
				MoorDyn_GetDepthAt(sf, x, 3.5, v);
				cmp("GetDepthAt", { hs, num(x), num(3.5) }, V(v, 1), "");
			}
		}
		if (wave_ext) {
			if (MoorDyn_ExternalWaveKinGetN(md, &n) == MOORDYN_SUCCESS) {
				cmp("ExternalWaveKinGetN", { py }, { (double)n }, "");
				dv co(3 * n + 1);
				MoorDyn_ExternalWaveKinGetCoordinates(md, co.data());
				co.resize(3 * n);
				cmp("GetWaveKinCoordinates", { py }, co, "");
			}
		}
		return all;
	}

	void init(bool noic)
	{
		cs.f.assign(cs.ndof + 6, 0.0);
		m.motion(0.0, cs.x, cs.xd);
		int e = noic ? MoorDyn_Init_NoIC(cs.md, cs.x.data(), cs.xd.data())
		             : MoorDyn_Init(cs.md, cs.x.data(), cs.xd.data());
		dv got = good(noic ? "Init_NoIC" : "Init",
		              { py, list(cs.x), list(cs.xd) });
		c.req(identical(got, { (double)e }), "python-Init", show(got));
		if (e == MOORDYN_SUCCESS && wave_ext) {
			unsigned n;
			int ew = MoorDyn_ExternalWaveKinInit(cs.md, &n);
			cmd("ExternalWaveKinInit", { py }, ew);
		}
	}
	void step(double dt)
	{
		m.motion(t, cs.x, cs.xd);
		Ref lx = list(cs.x), lv = list(cs.xd);
		double tc = t;
		double dtc = dt;
		int e = MoorDyn_Step(cs.md, cs.x.data(), cs.xd.data(), cs.f.data(), &tc,
		                     &dtc);
		Ans a = call("Step", { py, lx, lv, num(t), num(dt) });
		c.req(a.ok() == (e == MOORDYN_SUCCESS), "python-Step",
		      sfmt("C: %d, Python: %s", e, a.exc.c_str()));
		if (e != MOORDYN_SUCCESS)
			return;
		dv want(cs.f.begin(), cs.f.begin() + cs.ndof), got = flat(a.val);
		c.req(identical(got, want), "python-Step",
		      sfmt("forces %s, C: %s", show(got).c_str(), show(want).c_str()));
		c.req(identical(flat(lx), cs.x) && identical(flat(lv), cs.xd),
		      "python-Step", "changed the given positions");
		t = tc;
	}
	unsigned nlines() const
	{
		unsigned n;
		MoorDyn_GetNumberLines(cs.md, &n);
		return n;
	}
	Ref pline(unsigned i) { return goodref("GetLine", { py, integer(i) }); }

	/// every misuse of the functions; none may have an effect
	void misuse()
	{
		dv x, xd;
		m.motion(t, x, xd);
		unsigned nd = cs.ndof;
		Ref X = list(x), V = list(xd), T = num(t), D = num(0.01);
		dv more = x;
		more.push_back(0.0);
		dv moreless = x;
		if (nd)
			moreless.pop_back();
		bad(c, "Step", { py, list(more), V, T, D }, "too many positions");
		bad(c, "Step", { py, X, list(more), T, D }, "too many velocities");
		if (nd) {
			bad(c, "Step", { py, list(moreless), V, T, D }, "too few positions");
			bad(c, "Step", { py, X, list(moreless), T, D },
			    "too few velocities");
			Ref s = list(x);
			PyList_SetItem(s.o, (Py_ssize_t)nd - 1,
			               PyUnicode_FromString("one"));
			bad(c, "Step", { py, s, V, T, D }, "a text as position");
			Ref s2 = list(xd);
			PyList_SetItem(s2.o, 0, PyList_New(0));
			bad(c, "Step", { py, X, s2, T, D }, "a list as velocity");
		}
		bad(c, "Step", { py, none(), V, T, D }, "no positions");
		bad(c, "Step", { py, X, none(), T, D }, "no velocities");
		bad(c, "Step", { py, X, V, text("now"), D }, "a text as time");
		bad(c, "Step", { py, X, V, T, none() }, "no time step");
		bad(c, "Step", { none(), X, V, T, D }, "no system");
		bad(c, "Step", { integer(3), X, V, T, D }, "a number as system");
		bad(c, "Step", { py, X, V, T }, "an argument less");
		bad(c, "NCoupledDOF", { none() }, "no system");
		for (const char* fn : { "GetNumberBodies", "GetNumberRods",
		                        "GetNumberPoints", "GetNumberLines", "GetWaves",
		                        "Serialize", "ExternalWaveKinInit",
		                        "ExternalWaveKinGetN", "GetWaveKinCoordinates",
		                        "GetAverageDepth", "GetMinDepth" })
			bad(c, fn, { none() }, "no system");
		auto wrong = [&](const char* get, const char* count,
		                 const vector<const char*>& fns) {
			int n = (int)good(count, { py })[0];
			bad(c, get, { py, integer(n + 1) }, "an index too large");
			bad(c, get, { py, integer(-1) }, "a negative index");
			bad(c, get, { py, num(1.5) }, "a fractional index");
			bad(c, get, { none(), integer(1) }, "no system");
			for (auto f : fns) {
				bad(c, f, { py }, "the system");
				bad(c, f, { none() }, "nothing");
			}
		};
		wrong("GetBody", "GetNumberBodies",
		      { "GetBodyID", "GetBodyType", "GetBodyState", "GetBodyPos",
		        "GetBodyAngle", "GetBodyVel", "GetBodyAngVel", "GetBodyForce",
		        "GetBodyM" });
		wrong("GetRod", "GetNumberRods",
		      { "GetRodID", "GetRodType", "GetRodForce", "GetRodM", "GetRodN" });
		wrong("GetPoint", "GetNumberPoints",
		      { "GetPointID", "GetPointType", "GetPointPos", "GetPointVel",
		        "GetPointForce", "GetPointM", "GetPointNAttached" });
		wrong("GetLine", "GetNumberLines",
		      { "GetLineID", "GetLineN", "GetLineUnstretchedLength",
		        "IsLineConstantEA", "GetLineConstantEA", "IsLinePressBend",
		        "GetLineFairTen", "GetLineMaxTen" });
		unsigned nl = nlines(), n;
		if (nl) {
			Ref h = pline(1);
			MoorDyn_GetLineNumberNodes(MoorDyn_GetLine(cs.md, 1), &n);
			for (const char* fn :
			     { "GetLineNodePos", "GetLineNodeVel", "GetLineNodeForce",
			       "GetLineNodeTen", "GetLineNodeBendStiff",
			       "GetLineNodeWeight", "GetLineNodeDrag",
			       "GetLineNodeFroudeKrilov", "GetLineNodeSeabedForce",
			       "GetLineNodeCurv", "GetLineNodeM" }) {
				bad(c, fn, { h, integer(n) }, "a node too many");
				bad(c, fn, { h, integer(-1) }, "a negative node");
				bad(c, fn, { py, integer(0) }, "the system");
				bad(c, fn, { h }, "no node");
			}
			bad(c, "SetLineUnstretchedLength", { h, none() }, "no length");
			bad(c, "SetLineUnstretchedLength", { py, num(1) }, "the system");
			bad(c, "SetLineUnstretchedLengthVel", { h, none() }, "no rate");
			bad(c, "SetLineConstantEA", { h, text("stiff") }, "a text");
			bad(c, "SetLinePressInt", { h, list(dv(n + 1, 1.0)) },
			    "a pressure too many");
			bad(c, "SetLinePressInt", { h, list(dv(n - 1, 1.0)) },
			    "a pressure less");
			bad(c, "SetLinePressInt", { h, none() }, "no pressures");
			bad(c, "GetBodyPos", { h }, "a line");
			bad(c, "GetRodN", { h }, "a line");
			bad(c, "GetPointPos", { h }, "a line");
			bad(c, "NCoupledDOF", { h }, "a line");
		}
		unsigned nr;
		MoorDyn_GetNumberRods(cs.md, &nr);
		if (nr) {
			Ref h = goodref("GetRod", { py, integer(1) });
			MoorDyn_GetRodNumberNodes(MoorDyn_GetRod(cs.md, 1), &n);
			for (const char* fn : { "GetRodNodePos", "GetRodNodeVel" }) {
				bad(c, fn, { h, integer(n) }, "a node too many");
				bad(c, fn, { h, integer(-1) }, "a negative node");
			}
			bad(c, "GetLineN", { h }, "a rod");
		}
		unsigned np;
		MoorDyn_GetNumberPoints(cs.md, &np);
		if (np) {
			Ref h = goodref("GetPoint", { py, integer(1) });
			MoorDyn_GetPointNAttached(MoorDyn_GetPoint(cs.md, 1), &n);
			bad(c, "GetPointAttached", { h, integer(n) }, "a line too many");
			bad(c, "GetPointAttached", { h, integer(-1) }, "a negative index");
		}
		bad(c, "GetFASTtens", { py, integer((long)nl + 1) }, "a line too many");
		bad(c, "GetFASTtens", { py, integer(-1) }, "a negative number");
		bad(c, "GetWavesKin", { py, num(0), num(0), num(-1) }, "the system");
		bad(c, "Save", { py, text(dir + "/none/f") }, "a missing folder");
		bad(c, "Save", { py, integer(1) }, "a number as path");
		bad(c, "Load", { py, text(dir + "/none/f") }, "a missing file");
		bad(c, "Load", { py, text(dir + "/p/m.txt") }, "another file");
		bad(c, "Create", { text(dir + "/none/f") }, "a missing file");
		// without VTK these give an error; in any case the same as in C
		cmd("SaveVTK", { py, text(dir + "/p.vtm") },
		    MoorDyn_SaveVTK(cs.md, (dir + "/c.vtm").c_str()));
		unsigned nk;
		MoorDyn_GetNumberBodies(cs.md, &nk);
		if (nk) {
			auto b = MoorDyn_GetBody(cs.md, 1);
			Ref h = goodref("GetBody", { py, integer(1) });
			cmd("SaveBodyVTK", { h, text(dir + "/pb.vtp") },
			    MoorDyn_SaveBodyVTK(b, (dir + "/cb.vtp").c_str()));
			cmd("UseBodyVTK", { h, text(dir + "/none.vtp") },
			    MoorDyn_UseBodyVTK(b, (dir + "/none.vtp").c_str()));
		}
		MoorDyn_GetNumberRods(cs.md, &nk);
		if (nk)
			cmd("SaveRodVTK",
			    { goodref("GetRod", { py, integer(1) }),
			      text(dir + "/pr.vtp") },
			    MoorDyn_SaveRodVTK(MoorDyn_GetRod(cs.md, 1),
			                       (dir + "/cr.vtp").c_str()));
		MoorDyn_GetNumberPoints(cs.md, &nk);
		if (nk)
			cmd("SavePointVTK",
			    { goodref("GetPoint", { py, integer(1) }),
			      text(dir + "/pp.vtp") },
			    MoorDyn_SavePointVTK(MoorDyn_GetPoint(cs.md, 1),
			                         (dir + "/cp.vtp").c_str()));
		if (nl)
			cmd("SaveLineVTK", { pline(1), text(dir + "/pl.vtp") },
			    MoorDyn_SaveLineVTK(MoorDyn_GetLine(cs.md, 1),
			                        (dir + "/cl.vtp").c_str()));
		bad(c, "Deserialize", { py, text("state") }, "a text");
		bad(c, "Deserialize", { py, none() }, "nothing");
		Ref s = goodref("Serialize", { py });
		Py_ssize_t len = PyBytes_GET_SIZE(s.o);
		const char* raw = PyBytes_AS_STRING(s.o);
		for (Py_ssize_t k : { (Py_ssize_t)0, (Py_ssize_t)5, (Py_ssize_t)8,
		                      len / 16 * 8, len - 8, len - 1 })
			bad(c, "Deserialize",
			    { py, Ref(PyBytes_FromStringAndSize(raw, k)) },
			    sfmt("%d of %d bytes", (int)k, (int)len).c_str());
		string longer(raw, (size_t)len);
		longer += string(16, '\0');
		bad(c, "Deserialize",
		    { py, Ref(PyBytes_FromStringAndSize(longer.data(),
		                                        (Py_ssize_t)longer.size())) },
		    "more bytes");
		if (wave_ext &&
		    MoorDyn_ExternalWaveKinGetN(cs.md, &n) == MOORDYN_SUCCESS) {
			dv u(3 * n, 0.4), u2(3 * n + 3, 0.4);
			bad(c, "SetWaveKin", { py, list3(u2), list3(u2), T }, "a node more");
			bad(c, "SetWaveKin", { py, list3(u), list3(u2), T },
			    "different lengths");
			bad(c, "SetWaveKin", { py, none(), list3(u), T }, "nothing");
		}
	}
};

struct Op
{
	const char* name;
	std::function<void(Pair&)> run;
};

/// the state saved by either sibling, for the later restore
vector<Op>
ops()
{
	vector<Op> o;
	o.push_back({ "step", [](Pair& p) { p.step(0.02); } });
	o.push_back({ "misuse", [](Pair& p) { p.misuse(); } });
	o.push_back({ "length", [](Pair& p) {
		             unsigned n = p.nlines();
		             if (!n)
			             return;
		             double l;
		             auto b = MoorDyn_GetLine(p.cs.md, n);
		             MoorDyn_GetLineUnstretchedLength(b, &l);
		             int e = MoorDyn_SetLineUnstretchedLength(b, l * 0.99);
		             p.cmd("SetLineUnstretchedLength",
		                   { p.pline(n), num(l * 0.99) }, e);
		             b = MoorDyn_GetLine(p.cs.md, 1);
		             e = MoorDyn_SetLineUnstretchedLengthVel(b, 0.125);
		             p.cmd("SetLineUnstretchedLengthVel",
		                   { p.pline(1), num(0.125) }, e);
	             } });
	o.push_back({ "stiffness", [](Pair& p) {
		             unsigned n = p.nlines();
		             for (unsigned i = 1; i <= n; i++) {
			             auto b = MoorDyn_GetLine(p.cs.md, i);
			             double ea = 0.0;
			             MoorDyn_GetLineConstantEA(b, &ea);
			             ea = ea * 1.0625 + i;
			             int e = MoorDyn_SetLineConstantEA(b, ea);
			             p.cmd("SetLineConstantEA", { p.pline(i), num(ea) }, e);
		             }
	             } });
	o.push_back({ "pressure", [](Pair& p) {
		             unsigned n = p.nlines(), k;
		             for (unsigned i = 1; i <= n; i++) {
			             auto b = MoorDyn_GetLine(p.cs.md, i);
			             int on = 0;
			             MoorDyn_IsLinePressBend(b, &on);
			             int e = MoorDyn_SetLinePressBend(b, !on);
			             p.cmd("SetLinePressBend",
			                   { p.pline(i), integer(!on) }, e);
			             MoorDyn_GetLineNumberNodes(b, &k);
			             dv pr(k);
			             for (unsigned j = 0; j < k; j++)
				             pr[j] = 1.0e4 * (j + 1) + i;
			             e = MoorDyn_SetLinePressInt(b, pr.data());
			             p.cmd("SetLinePressInt", { p.pline(i), list(pr) }, e);
		             }
	             } });
	o.push_back({ "waves", [](Pair& p) {
		             unsigned n;
		             if (!p.wave_ext || MoorDyn_ExternalWaveKinGetN(
		                                    p.cs.md, &n) != MOORDYN_SUCCESS)
			             return;
		             dv u(3 * n), a(3 * n);
		             for (unsigned i = 0; i < 3 * n; i++) {
			             u[i] = 0.3 + 0.01 * i + 0.1 * p.t;
			             a[i] = -0.2 + 0.02 * i;
		             }
		             int e = MoorDyn_ExternalWaveKinSet(p.cs.md, u.data(),
		                                                a.data(), p.t);
		             p.cmd("SetWaveKin",
		                   { p.py, list3(u), list3(a), num(p.t) }, e);
	             } });
	// a state written by either interface is read by both
	o.push_back({ "resume-file", [](Pair& p) {
		             string f = p.dir + sfmt("/st%d", p.nsave++);
		             good("Save", { p.py, text(f) });
		             p.step(0.01);
		             p.c.req(MoorDyn_Load(p.cs.md, f.c_str()) == MOORDYN_SUCCESS,
		                     "python-Save", "refused by C");
		             good("Load", { p.py, text(f) });
		             p.t -= 0.01;
	             } });
	o.push_back({ "resume-bytes", [](Pair& p) {
		             Ref s = goodref("Serialize", { p.py });
		             p.c.req(PyBytes_Check(s.o), "python-Serialize", "type");
		             size_t size = 0;
		             MoorDyn_Serialize(p.cs.md, &size, nullptr);
		             vector<uint64_t> d(size / 8 + 1);
		             MoorDyn_Serialize(p.cs.md, nullptr, d.data());
		             p.c.req((size_t)PyBytes_GET_SIZE(s.o) == size,
		                     "python-Serialize", "size");
		             p.step(0.01);
		             vector<uint64_t> e(size / 8 + 1);
		             memcpy(e.data(), PyBytes_AS_STRING(s.o), size);
		             p.c.req(MoorDyn_Deserialize(p.cs.md, e.data()) ==
		                         MOORDYN_SUCCESS,
		                     "python-Serialize", "refused by C");
		             good("Deserialize",
		                  { p.py, Ref(PyBytes_FromStringAndSize(
		                              (char*)d.data(), (Py_ssize_t)size)) });
		             p.t -= 0.01;
	             } });
	return o;
}

} // namespace

namespace vf {
void
enumerate(Cases& cases, const string& tier)
{
	bool deep = tier == "thorough";
	vector<Model> sys = all_systems();
	{
		Model m = sys_mixed();
		m.name = "extwaves";
		m.opt("WaveKin", 1);
		sys.push_back(m);
		m = sys_mixed();
		m.name = "bathymetry";
		m.files["sf.txt"] = "3 3\n-200 0 200\n-200 0 200\n"
		                    "-200 -200 -34\n0 -200 -36\n200 -200 -38\n"
		                    "-200 0 -33\n0 0 -35\n200 0 -37\n"
		                    "-200 200 -32\n0 200 -34\n200 200 -36\n";
		sys.push_back(m);
		m = sys_cable();
		m.name = "extcable";
		m.opt("WaveKin", 1);
		sys.push_back(m);
	}
	const vector<Op> OPS = ops();
	int nop = (int)OPS.size();
	for (size_t s = 0; s < sys.size(); s++) {
		bool rich = s > 17 || sys[s].name == "mixed";
		int depth = deep ? (rich ? 4 : 3) : (rich ? 3 : 2);
		int total = 1;
		for (int i = 0; i < depth; i++)
			total *= nop;
		for (int code = 0; code < total; code++) {
			string key = sys[s].name;
			vector<int> seq;
			for (int i = 0, k = code; i < depth; i++, k /= nop) {
				seq.push_back(k % nop);
				key += string("/") + OPS[k % nop].name;
			}
			Model m = sys[s];
			// a short initial condition phase, so that it is noticed
			m.opt("dtIC", 0.02).opt("TmaxIC", 0.06);
			cases.push_back({ key, [=](Ctx& c) mutable {
				// the bathymetry is found through an absolute path
				if (m.files.count("sf.txt")) {
					write_file(c.dir + "/sf.txt", m.files["sf.txt"]);
					m.files.erase("sf.txt");
					m.opt("SeafloorFile", c.dir + "/sf.txt");
				}
				const vector<Op> O = ops();
				Pair p(c, m);
				// a refused initialisation has no effect
				dv x, xd;
				m.motion(0.0, x, xd);
				dv more = x;
				more.push_back(1.0);
				bad(c, "Init", { p.py, list(more), list(xd) }, "too many");
				bad(c, "Init_NoIC", { p.py, list(x), list(more) }, "too many");
				bad(c, "Init_NoIC", { p.py, none(), list(more) }, "nothing");
				p.init(code % 2 == 0);
				c.state(p.compare());
				for (int k : seq) {
					O[k].run(p);
					c.state(p.compare());
					c.trans(1);
				}
				p.step(0.02);
				c.outcome(p.compare());
				dv r = good("Close", { p.py });
				p.pmd = nullptr;
				c.req(identical(r, { 0.0 }), "python-Close", show(r));
				c.trace();
			} });
		}
	}
	// log: levels of the file and of the messages
	for (int lev = -1; lev <= 4; lev++)
		for (int msg = 0; msg <= 3; msg++)
			cases.push_back({ sfmt("log/%d/%d", lev, msg), [=](Ctx& c) {
				Model m = sys_chain();
				Pair p(c, m);
				auto path = [&](const char* w) { return c.dir + "/" + w; };
				int e1 = MoorDyn_SetVerbosity(p.cs.md, 4);
				p.cmd("SetVerbosity", { p.py, integer(4) }, e1);
				int e2 = MoorDyn_SetLogFile(p.cs.md, path("c.log").c_str());
				p.cmd("SetLogFile", { p.py, text(path("p.log")) }, e2);
				int e3 = MoorDyn_SetLogLevel(p.cs.md, lev);
				p.cmd("SetLogLevel", { p.py, integer(lev) }, e3);
				int e4 = MoorDyn_Log(p.cs.md, msg, "remarkable message\n");
				// Log() reports where it is called from, so that it needs a
				// Python caller
				Ref code(Py_CompileString(
				    "def f(m, *a):\n    return m.Log(*a)\n", "caller.py",
				    Py_file_input));
				Ref g(PyDict_New());
				PyDict_SetItemString(g, "__builtins__", PyEval_GetBuiltins());
				Ref r0(PyEval_EvalCode(code, g, g));
				PyObject* f = PyDict_GetItemString(g, "f");
				Ref txt = text("remarkable message");
				Ref r(PyObject_CallFunction(f, "OOiO", MOD, p.py.o, msg, txt.o));
				if (!r.o) {
					PyErr_Print();
					c.fail("python-Log", "raised");
				}
				c.req(identical(flat(r), { (double)e4 }), "python-Log",
				      show(flat(r)));
				p.cs.close();
				good("Close", { p.py });
				p.pmd = nullptr;
				auto has = [&](const char* w) {
					string s;
					read_file(path(w), s);
					return s.find("remarkable message") !=
					       string::npos;
				};
				c.req(has("c.log") == has("p.log"), "python-Log",
				      sfmt("level %d in a file of level %d: %d", msg, lev,
				           (int)has("p.log")));
				c.outcome(dv{ (double)has("c.log") });
				c.trans(1);
				c.trace();
			} });
}
} // namespace vf
