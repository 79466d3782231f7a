// C27: the MATLAB functions against the C interface. The sources of the mex
// functions are compiled against a stand-in of the MATLAB interfaces, and every
// sequence of calls up to a depth is made on two sibling systems, one driven
// through the mex functions and the other one through the C interface; every
// answer and every getter is compared after every call.
#define VF_MAIN
#include "md.hpp"
#include "c27_m.cpp"
#include <sys/stat.h>

using namespace vf;

namespace {

namespace mx = matlab::data;
typedef vector<mx::Array> Args;

mx::ArrayFactory F;

mx::Array
num(double v)
{
	return F.createScalar<double>(v);
}
/// the encoded pointers
mx::Array
ptr(uint64_t v)
{
	return F.createScalar<uint64_t>(v);
}
mx::Array
row(const dv& v)
{
	return F.createArray<double>({ 1, v.size() }, v.data(), v.data() + v.size());
}
mx::Array
col(const dv& v)
{
	return F.createArray<double>({ v.size(), 1 }, v.data(), v.data() + v.size());
}
mx::Array
text(const string& s)
{
	return F.createCharArray(s);
}

struct Ans
{
	bool ok = true;
	string err;
	Args out;
};

/// a call with a number of outputs
Ans
call(const string& fn, size_t nout, const Args& in)
{
	static const auto table = mex_functions();
	auto it = table.find(fn);
	if (it == table.end())
		throw HarnessError{ "no function " + fn };
	Ans a;
	a.out.resize(nout);
	Args i = in;
	try {
		it->second(matlab::mex::ArgumentList(&a.out),
		           matlab::mex::ArgumentList(&i));
	} catch (matlab::engine::EngineException& e) {
		a.ok = false;
		a.err = string("error: ") + e.what();
	} catch (mx::Exception& e) {
		a.ok = false;
		a.err = string("exception: ") + e.what();
	} catch (std::bad_variant_access& e) {
		a.ok = false;
		a.err = "exception: type";
	}
	return a;
}

dv
flat(const mx::Array& a)
{
	dv r;
	for (size_t i = 0; i < a.getNumberOfElements(); i++)
		r.push_back((double)a[i]);
	return r;
}

string
show(const dv& v)
{
	string s = "[";
	for (size_t i = 0; i < v.size() && i < 8; i++)
		s += sfmt(i ? " %.17g" : "%.17g", v[i]);
	return s + "]";
}

bool
identical(const dv& a, const dv& b)
{
	if (a.size() != b.size())
		return false;
	for (size_t i = 0; i < a.size(); i++)
		if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))))
			return false;
	return true;
}

const char*
code_name(int e)
{
	switch (e) {
		case MOORDYN_INVALID_INPUT_FILE:
			return "MOORDYN_INVALID_INPUT_FILE";
		case MOORDYN_INVALID_OUTPUT_FILE:
			return "MOORDYN_INVALID_OUTPUT_FILE";
		case MOORDYN_INVALID_INPUT:
			return "MOORDYN_INVALID_INPUT";
		case MOORDYN_NAN_ERROR:
			return "MOORDYN_NAN_ERROR";
		case MOORDYN_MEM_ERROR:
			return "MOORDYN_MEM_ERROR";
		case MOORDYN_INVALID_VALUE:
			return "MOORDYN_INVALID_VALUE";
		case MOORDYN_NON_IMPLEMENTED:
			return "MOORDYN_NON_IMPLEMENTED";
		case MOORDYN_UNHANDLED_ERROR:
			return "MOORDYN_UNHANDLED_ERROR";
	}
	return "?";
}

struct Pair
{
	Ctx& c;
	const Model& m;
	mx::Array h;  // the encoded system
	MoorDyn mmd;  // and itself
	Sys cs;
	double t = 0.0;
	bool wave_ext = false;
	int nsave = 0;
	string dir;

	Args good(const string& fn, size_t nout, const Args& in)
	{
		Ans a = call(fn, nout, in);
		c.req(a.ok, "matlab-" + fn, fn + " fails: " + a.err);
		return a.out;
	}
	void bad(const string& fn, size_t nout, const Args& in, const string& what)
	{
		Ans a = call(fn, nout, in);
		c.req(!a.ok, "matlab-" + fn, fn + " accepts " + what);
	}
	/// the C answer: done, or the error which tells the code
	void cmd(const string& fn, const Args& in, int want)
	{
		Ans a = call(fn, 0, in);
		if (want == MOORDYN_SUCCESS)
			c.req(a.ok, "matlab-" + fn, fn + " fails: " + a.err);
		else
			c.req(!a.ok && a.err.find(code_name(want)) != string::npos,
			      "matlab-" + fn,
			      sfmt("%s: C %d, MATLAB '%s'", fn.c_str(), want, a.err.c_str()));
	}
	void cmp(const string& fn, const Args& in, const dv& want, const string& what,
	         mx::ArrayDimensions dims = {})
	{
		mx::Array o = good(fn, 1, in)[0];
		dv got = flat(o);
		c.req(identical(got, want), "matlab-" + fn,
		      sfmt("%s(%s) = %s, C: %s", fn.c_str(), what.c_str(),
		           show(got).c_str(), show(want).c_str()));
		if (dims.empty())
			dims = { 1, want.size() };
		c.req(o.getDimensions() == dims, "matlab-" + fn, fn + ": dimensions");
	}
	/// matrices are stored by columns there and by rows here, where they may
	/// just be symmetric
	void matrix(const string& fn, const Args& in, const double* w, int n,
	            const string& what)
	{
		dv rows(w, w + n * n), cols(n * n);
		for (int i = 0; i < n; i++)
			for (int j = 0; j < n; j++)
				cols[j * n + i] = rows[i * n + j];
		mx::Array o = good(fn, 1, in)[0];
		dv got = flat(o);
		double big = 0.0;
		for (double v : rows)
			big = std::max(big, fabs(v));
		bool near = got.size() == cols.size();
		for (size_t i = 0; near && i < got.size(); i++)
			near = fabs(got[i] - cols[i]) <= 1e-10 * big;
		c.req(near, "matlab-" + fn,
		      sfmt("%s(%s) = %s, C: %s", fn.c_str(), what.c_str(),
		           show(got).c_str(), show(cols).c_str()));
		mx::ArrayDimensions d = { (size_t)n, (size_t)n };
		c.req(o.getDimensions() == d, "matlab-" + fn, fn + ": dimensions");
	}
	mx::Array handle(const string& fn, unsigned i, void* want)
	{
		mx::Array o = good(fn, 1, { h, num(i) })[0];
		c.req(o.getType() == mx::ArrayType::UINT64 &&
		          (uint64_t)o[0] == (uint64_t)(uintptr_t)want,
		      "matlab-" + fn, sfmt("%s(%u) is another object", fn.c_str(), i));
		return o;
	}

	Pair(Ctx& ctx, const Model& model)
	  : c(ctx)
	  , m(model)
	  , mmd(nullptr)
	{
		dir = c.dir;
		c.req(cs.create(m, c.dir, "c"), "create", "C");
		string d = c.dir + "/p";
		mkdir(d.c_str(), 0700);
		write_file(d + "/m.txt", m.text());
		for (auto& f : m.files)
			write_file(d + "/" + f.first, f.second);
		h = good("Create", 1, { text(d + "/m.txt") })[0];
		c.req(h.getType() == mx::ArrayType::UINT64, "matlab-Create", "type");
		mmd = (MoorDyn)(uintptr_t)(uint64_t)h[0];
		c.req(mmd != nullptr, "matlab-Create", "null");
		for (auto& o : m.options)
			if (o.first == "WaveKin" && atoi(o.second.c_str()) == 1)
				wave_ext = true;
	}
	~Pair()
	{
		if (mmd)
			MoorDyn_Close(mmd);
	}

	dv compare()
	{
		MoorDyn md = cs.md;
		unsigned nb, nr, np, nl, nd, n;
		MoorDyn_GetNumberBodies(md, &nb);
		MoorDyn_GetNumberRods(md, &nr);
		MoorDyn_GetNumberPoints(md, &np);
		MoorDyn_GetNumberLines(md, &nl);
		MoorDyn_NCoupledDOF(md, &nd);
		cmp("GetNumberBodies", { h }, { (double)nb }, "");
		cmp("GetNumberRods", { h }, { (double)nr }, "");
		cmp("GetNumberPoints", { h }, { (double)np }, "");
		cmp("GetNumberLines", { h }, { (double)nl }, "");
		cmp("NCoupledDOF", { h }, { (double)nd }, "");
		double v[36], w[36];
		int id;
		dv all;
		auto V = [&](const double* p, int k) {
			all.insert(all.end(), p, p + k);
			return dv(p, p + k);
		};
		for (unsigned i = 1; i <= nb; i++) {
			auto b = MoorDyn_GetBody(md, i);
			mx::Array o = handle("GetBody", i, MoorDyn_GetBody(mmd, i));
			string k = sfmt("body %u", i);
			MoorDyn_GetBodyID(b, &id);
			cmp("GetBodyID", { o }, { (double)id }, k);
			MoorDyn_GetBodyType(b, &id);
			cmp("GetBodyType", { o }, { (double)id }, k);
			MoorDyn_GetBodyState(b, v, w);
			Args st = good("GetBodyState", 2, { o });
			c.req(identical(flat(st[0]), V(v, 6)) &&
			          identical(flat(st[1]), V(w, 6)),
			      "matlab-GetBodyState", k);
			MoorDyn_GetBodyPos(b, v);
			cmp("GetBodyPos", { o }, V(v, 3), k);
			MoorDyn_GetBodyAngle(b, v);
			cmp("GetBodyAngle", { o }, V(v, 3), k);
			MoorDyn_GetBodyVel(b, v);
			cmp("GetBodyVel", { o }, V(v, 3), k);
			MoorDyn_GetBodyAngVel(b, v);
			cmp("GetBodyAngVel", { o }, V(v, 3), k);
			MoorDyn_GetBodyForce(b, v);
			cmp("GetBodyForce", { o }, V(v, 6), k);
			MoorDyn_GetBodyM(b, (double(*)[6])v);
			matrix("GetBodyM", { o }, v, 6, k);
		}
		for (unsigned i = 1; i <= nr; i++) {
			auto b = MoorDyn_GetRod(md, i);
			mx::Array o = handle("GetRod", i, MoorDyn_GetRod(mmd, i));
			string k = sfmt("rod %u", i);
			MoorDyn_GetRodID(b, &id);
			cmp("GetRodID", { o }, { (double)id }, k);
			MoorDyn_GetRodType(b, &id);
			cmp("GetRodType", { o }, { (double)id }, k);
			MoorDyn_GetRodForce(b, v);
			cmp("GetRodForce", { o }, V(v, 6), k);
			MoorDyn_GetRodM(b, (double(*)[6])v);
			matrix("GetRodM", { o }, v, 6, k);
			MoorDyn_GetRodN(b, &n);
			cmp("GetRodN", { o }, { (double)n }, k);
			MoorDyn_GetRodNumberNodes(b, &n);
			cmp("GetRodNumberNodes", { o }, { (double)n }, k);
			for (unsigned j = 0; j < n; j++) {
				string kj = k + sfmt(" node %u", j);
				MoorDyn_GetRodNodePos(b, j, v);
				cmp("GetRodNodePos", { o, num(j) }, V(v, 3), kj);
				MoorDyn_GetRodNodeVel(b, j, v);
				cmp("GetRodNodeVel", { o, num(j) }, V(v, 3), kj);
			}
		}
		for (unsigned i = 1; i <= np; i++) {
			auto b = MoorDyn_GetPoint(md, i);
			auto pb = MoorDyn_GetPoint(mmd, i);
			mx::Array o = handle("GetPoint", i, pb);
			string k = sfmt("point %u", i);
			MoorDyn_GetPointID(b, &id);
			cmp("GetPointID", { o }, { (double)id }, k);
			MoorDyn_GetPointType(b, &id);
			cmp("GetPointType", { o }, { (double)id }, k);
			MoorDyn_GetPointPos(b, v);
			cmp("GetPointPos", { o }, V(v, 3), k);
			MoorDyn_GetPointVel(b, v);
			cmp("GetPointVel", { o }, V(v, 3), k);
			MoorDyn_GetPointForce(b, v);
			cmp("GetPointForce", { o }, V(v, 3), k);
			MoorDyn_GetPointM(b, (double(*)[3])v);
			matrix("GetPointM", { o }, v, 3, k);
			MoorDyn_GetPointNAttached(b, &n);
			cmp("GetPointNAttached", { o }, { (double)n }, k);
			for (unsigned j = 0; j < n; j++) {
				MoorDynLine l = nullptr;
				int e = -1;
				MoorDyn_GetPointAttached(pb, j, &l, &e);
				Args r = good("GetPointAttached", 2, { o, num(j) });
				c.req((uint64_t)r[0][0] == (uint64_t)(uintptr_t)l &&
				          (int)r[1][0] == e,
				      "matlab-GetPointAttached", k + sfmt(" line %u", j));
			}
		}
		for (unsigned i = 1; i <= nl; i++) {
			auto b = MoorDyn_GetLine(md, i);
			mx::Array o = handle("GetLine", i, MoorDyn_GetLine(mmd, i));
			string k = sfmt("line %u", i);
			MoorDyn_GetLineID(b, &id);
			cmp("GetLineID", { o }, { (double)id }, k);
			MoorDyn_GetLineN(b, &n);
			cmp("GetLineN", { o }, { (double)n }, k);
			MoorDyn_GetLineUnstretchedLength(b, v);
			cmp("GetLineUnstrechedLength", { o }, V(v, 1), k);
			MoorDyn_IsLineConstantEA(b, &id);
			cmp("IsLineConstantEA", { o }, { (double)id }, k);
			if (MoorDyn_GetLineConstantEA(b, v) == MOORDYN_SUCCESS)
				cmp("GetLineConstantEA", { o }, V(v, 1), k);
			else
				bad("GetLineConstantEA", 1, { o }, "a nonlinear line");
			MoorDyn_IsLinePressBend(b, &id);
			cmp("IsLinePressBend", { o }, { (double)id }, k);
			MoorDyn_GetLineFairTen(b, v);
			cmp("GetLineFairTen", { o }, V(v, 1), k);
			MoorDyn_GetLineMaxTen(b, v);
			cmp("GetLineMaxTen", { o }, V(v, 1), k);
			MoorDyn_GetLineNumberNodes(b, &n);
			cmp("GetLineNumberNodes", { o }, { (double)n }, k);
			for (unsigned j = 0; j < n; j++) {
				string kj = k + sfmt(" node %u", j);
				mx::Array jj = num(j);
#define NODE(NAME)                                                             \
	MoorDyn_##NAME(b, j, v);                                                   \
	cmp(#NAME, { o, jj }, V(v, 3), kj)
				NODE(GetLineNodePos);
				NODE(GetLineNodeVel);
				NODE(GetLineNodeForce);
				NODE(GetLineNodeTen);
				NODE(GetLineNodeBendStiff);
				NODE(GetLineNodeWeight);
				NODE(GetLineNodeDrag);
				NODE(GetLineNodeFroudeKrilov);
				NODE(GetLineNodeSeabedForce);
				MoorDyn_GetLineNodeCurv(b, j, v);
				cmp("GetLineNodeCurv", { o, jj }, V(v, 1), kj);
				MoorDyn_GetLineNodeM(b, j, (double(*)[3])v);
				matrix("GetLineNodeM", { o, jj }, v, 3, kj);
			}
		}
		auto wv = MoorDyn_GetWaves(md);
		mx::Array hw = good("GetWaves", 1, { h })[0];
		c.req((uint64_t)hw[0] == (uint64_t)(uintptr_t)MoorDyn_GetWaves(mmd),
		      "matlab-GetWaves", "");
		auto sf = MoorDyn_GetSeafloor(md);
		mx::Array hs = good("GetSeafloor", 1, { h })[0];
		c.req((uint64_t)hs[0] == (uint64_t)(uintptr_t)MoorDyn_GetSeafloor(mmd),
		      "matlab-GetSeafloor", "");
		for (double x : { -7.5, 12.25 })
			for (double z : { -19.0, -3.5 })
				for (int fl = 0; fl < (sf ? 2 : 1); fl++) {
					double u[3], ud[3], zeta, pd;
					int e = MoorDyn_GetWavesKin(wv, x, 2.5, z, u, ud, &zeta, &pd,
					                            fl ? sf : nullptr);
					Ans a = call("GetWavesKin", 4,
					             { hw, num(x), num(2.5), num(z),
					               fl ? hs : ptr(0) });
					c.req(a.ok == (e == MOORDYN_SUCCESS), "matlab-GetWavesKin",
					      sfmt("C %d, MATLAB %s", e, a.err.c_str()));
					if (!a.ok)
						continue;
					c.req(identical(flat(a.out[0]), V(u, 3)) &&
					          identical(flat(a.out[1]), V(ud, 3)) &&
					          identical(flat(a.out[2]), V(&zeta, 1)) &&
					          identical(flat(a.out[3]), V(&pd, 1)),
					      "matlab-GetWavesKin", sfmt("%g %g", x, z));
				}
		if (sf) {
			MoorDyn_GetAverageDepth(sf, v);
			cmp("GetAverageDepth", { hs }, V(v, 1), "");
			MoorDyn_GetMinDepth(sf, v);
			cmp("GetMinDepth", { hs }, V(v, 1), "");
			for (double x : { -7.5, 12.25 }) {
				MoorDyn_GetDepthAt(sf, x, 3.5, v);
				cmp("GetDepthAt", { hs, num(x), num(3.5) }, V(v, 1), "");
			}
		}
		if (wave_ext &&
		    MoorDyn_ExternalWaveKinGetN(md, &n) == MOORDYN_SUCCESS) {
			cmp("ExternalWaveKinGetN", { h }, { (double)n }, "");
			dv co(3 * n + 1);
			MoorDyn_ExternalWaveKinGetCoordinates(md, co.data());
			co.resize(3 * n);
			cmp("ExternalWaveKinGetCoordinates", { h }, co, "");
		}
		return all;
	}

	void init(bool noic)
	{
		cs.f.assign(cs.ndof + 6, 0.0);
		m.motion(0.0, cs.x, cs.xd);
		int e = noic ? MoorDyn_Init_NoIC(cs.md, cs.x.data(), cs.xd.data())
		             : MoorDyn_Init(cs.md, cs.x.data(), cs.xd.data());
		cmd(noic ? "Init_NoIC" : "Init", { h, row(cs.x), col(cs.xd) }, e);
		if (e == MOORDYN_SUCCESS && wave_ext) {
			unsigned n;
			int ew = MoorDyn_ExternalWaveKinInit(cs.md, &n);
			Ans a = call("ExternalWaveKinInit", 1, { h });
			c.req(a.ok == (ew == MOORDYN_SUCCESS) &&
			          (!a.ok || (unsigned)a.out[0][0] == n),
			      "matlab-ExternalWaveKinInit", a.err);
		}
	}
	void step(double dt)
	{
		m.motion(t, cs.x, cs.xd);
		double tc = t, dtc = dt;
		int e = MoorDyn_Step(cs.md, cs.x.data(), cs.xd.data(), cs.f.data(), &tc,
		                     &dtc);
		mx::Array X = row(cs.x), V = row(cs.xd), T = num(t);
		Ans a = call("Step", 2, { h, X, V, T, num(dt) });
		c.req(a.ok == (e == MOORDYN_SUCCESS), "matlab-Step",
		      sfmt("C: %d, MATLAB: %s", e, a.err.c_str()));
		if (e != MOORDYN_SUCCESS)
			return;
		dv want(cs.f.begin(), cs.f.begin() + cs.ndof);
		c.req(identical(flat(a.out[0]), { tc }), "matlab-Step", "time");
		c.req(identical(flat(a.out[1]), want), "matlab-Step",
		      sfmt("forces %s, C: %s", show(flat(a.out[1])).c_str(),
		           show(want).c_str()));
		c.req(identical(flat(X), cs.x) && identical(flat(V), cs.xd) &&
		          identical(flat(T), { t }),
		      "matlab-Step", "changed its arguments");
		t = tc;
	}
	unsigned nlines() const
	{
		unsigned n;
		MoorDyn_GetNumberLines(cs.md, &n);
		return n;
	}
	mx::Array mline(unsigned i) { return good("GetLine", 1, { h, num(i) })[0]; }

	/// every misuse of the functions; none may have an effect
	void misuse()
	{
		dv x, xd;
		m.motion(t, x, xd);
		mx::Array X = row(x), V = row(xd), T = num(t), D = num(0.01);
		// the number of arguments
		bad("Step", 2, { h, X, V, T }, "an argument less");
		bad("Step", 2, { h, X, V, T, D, D }, "an argument more");
		bad("Step", 1, { h, X, V, T, D }, "an output less");
		bad("Step", 3, { h, X, V, T, D }, "an output more");
		bad("Step", 2, { h, text("x"), V, T, D }, "a text as position");
		bad("Step", 2, { ptr(0), X, V, T, D }, "no system");
		bad("Create", 1, { num(1) }, "a number as file");
		bad("Create", 1, { text(dir + "/none/f") }, "a missing file");
		bad("Create", 0, { text(dir + "/none/f") }, "no outputs");
		bad("Init", 0, { h, X }, "an argument less");
		bad("Save", 0, { h, text(dir + "/none/f") }, "a missing folder");
		bad("Save", 0, { h, num(1) }, "a number as path");
		bad("Load", 0, { h, text(dir + "/none/f") }, "a missing file");
		bad("Load", 0, { h, text(dir + "/p/m.txt") }, "another file");
		bad("SetLogFile", 0, { h, text(dir + "/none/f") }, "a missing folder");
		auto nothing = [&](const vector<string>& fns) {
			for (auto& f : fns) {
				bad(f, 1, { ptr(0) }, "nothing");
				bad(f, 1, {}, "no arguments");
				bad(f, 2, { ptr(0) }, "too many outputs");
			}
		};
		nothing({ "NCoupledDOF",     "GetNumberBodies",  "GetNumberRods",
		          "GetNumberPoints", "GetNumberLines",   "GetWaves",
		          "GetBodyID",       "GetBodyType",      "GetBodyPos",
		          "GetBodyAngle",    "GetBodyVel",       "GetBodyAngVel",
		          "GetBodyForce",    "GetBodyM",         "GetRodID",
		          "GetRodType",      "GetRodForce",      "GetRodM",
		          "GetRodN",         "GetPointID",       "GetPointType",
		          "GetPointPos",     "GetPointVel",      "GetPointForce",
		          "GetPointM",       "GetPointNAttached", "GetLineID",
		          "GetLineN",        "GetLineUnstrechedLength",
		          "IsLineConstantEA", "GetLineConstantEA",
		          "IsLinePressBend", "GetLineFairTen",   "GetLineMaxTen",
		          "GetAverageDepth", "GetMinDepth" });
		for (string o : { "Body", "Rod", "Point", "Line" }) {
			unsigned n = (unsigned)good("GetNumber" +
			                                (o == "Body" ? string("Bodies")
			                                             : o + "s"),
			                            1, { h })[0][0];
			bad("Get" + o, 1, { h, num(n + 1) }, "an index too large");
			bad("Get" + o, 1, { ptr(0), num(1) }, "no system");
		}
		unsigned nl = nlines(), n;
		if (nl) {
			mx::Array l = mline(1);
			MoorDyn_GetLineNumberNodes(MoorDyn_GetLine(cs.md, 1), &n);
			for (const char* fn :
			     { "GetLineNodePos", "GetLineNodeVel", "GetLineNodeForce",
			       "GetLineNodeTen", "GetLineNodeBendStiff",
			       "GetLineNodeWeight", "GetLineNodeDrag",
			       "GetLineNodeFroudeKrilov", "GetLineNodeSeabedForce",
			       "GetLineNodeCurv", "GetLineNodeM" }) {
				bad(fn, 1, { l, num(n) }, "a node too many");
				bad(fn, 1, { l }, "no node");
			}
			bad("SetLineConstantEA", 0, { l }, "no stiffness");
			bad("SetLinePressInt", 0, { l }, "no pressures");
		}
		unsigned nk;
		MoorDyn_GetNumberRods(cs.md, &nk);
		if (nk) {
			mx::Array r = good("GetRod", 1, { h, num(1) })[0];
			MoorDyn_GetRodNumberNodes(MoorDyn_GetRod(cs.md, 1), &n);
			bad("GetRodNodePos", 1, { r, num(n) }, "a node too many");
			bad("GetRodNodeVel", 1, { r, num(n) }, "a node too many");
			cmd("SaveRodVTK", { r, text(dir + "/pr.vtp") },
			    MoorDyn_SaveRodVTK(MoorDyn_GetRod(cs.md, 1),
			                       (dir + "/cr.vtp").c_str()));
		}
		MoorDyn_GetNumberPoints(cs.md, &nk);
		if (nk) {
			mx::Array r = good("GetPoint", 1, { h, num(1) })[0];
			MoorDyn_GetPointNAttached(MoorDyn_GetPoint(cs.md, 1), &n);
			bad("GetPointAttached", 2, { r, num(n) }, "a line too many");
			cmd("SaveConnectVTK", { r, text(dir + "/pp.vtp") },
			    MoorDyn_SavePointVTK(MoorDyn_GetPoint(cs.md, 1),
			                         (dir + "/cp.vtp").c_str()));
		}
		cmd("SaveVTK", { h, text(dir + "/p.vtm") },
		    MoorDyn_SaveVTK(cs.md, (dir + "/c.vtm").c_str()));
		MoorDyn_GetNumberBodies(cs.md, &nk);
		if (nk) {
			auto b = MoorDyn_GetBody(cs.md, 1);
			mx::Array r = good("GetBody", 1, { h, num(1) })[0];
			cmd("SaveBodyVTK", { r, text(dir + "/pb.vtp") },
			    MoorDyn_SaveBodyVTK(b, (dir + "/cb.vtp").c_str()));
			cmd("UseBodyVTK", { r, text(dir + "/none.vtp") },
			    MoorDyn_UseBodyVTK(b, (dir + "/none.vtp").c_str()));
		}
		if (nl)
			cmd("SaveLineVTK", { mline(1), text(dir + "/pl.vtp") },
			    MoorDyn_SaveLineVTK(MoorDyn_GetLine(cs.md, 1),
			                        (dir + "/cl.vtp").c_str()));
	}
};

struct Op
{
	const char* name;
	std::function<void(Pair&)> run;
};

vector<Op>
ops()
{
	vector<Op> o;
	o.push_back({ "step", [](Pair& p) { p.step(0.02); } });
	o.push_back({ "misuse", [](Pair& p) { p.misuse(); } });
	o.push_back({ "null", [](Pair& p) { p.step(0.0); } });
	o.push_back({ "stiffness", [](Pair& p) {
		             unsigned n = p.nlines();
		             for (unsigned i = 1; i <= n; i++) {
			             auto b = MoorDyn_GetLine(p.cs.md, i);
			             double ea = 0.0;
			             MoorDyn_GetLineConstantEA(b, &ea);
			             ea = ea * 1.0625 + i;
			             int e = MoorDyn_SetLineConstantEA(b, ea);
			             p.cmd("SetLineConstantEA", { p.mline(i), num(ea) }, e);
		             }
	             } });
	o.push_back({ "pressure", [](Pair& p) {
		             unsigned n = p.nlines(), k;
		             for (unsigned i = 1; i <= n; i++) {
			             auto b = MoorDyn_GetLine(p.cs.md, i);
			             int on = 0;
			             MoorDyn_IsLinePressBend(b, &on);
			             int e = MoorDyn_SetLinePressBend(b, !on);
			             p.cmd("SetLinePressBend", { p.mline(i), num(!on) }, e);
			             MoorDyn_GetLineNumberNodes(b, &k);
			             dv pr(k);
			             for (unsigned j = 0; j < k; j++)
				             pr[j] = 1.0e4 * (j + 1) + i;
			             e = MoorDyn_SetLinePressInt(b, pr.data());
			             p.cmd("SetLinePressInt", { p.mline(i), row(pr) }, e);
		             }
	             } });
	o.push_back({ "waves", [](Pair& p) {
		             unsigned n;
		             if (!p.wave_ext || MoorDyn_ExternalWaveKinGetN(
		                                    p.cs.md, &n) != MOORDYN_SUCCESS)
			             return;
		             dv u(3 * n), a(3 * n);
		             for (unsigned i = 0; i < 3 * n; i++) {
			             u[i] = 0.3 + 0.01 * i + 0.1 * p.t;
			             a[i] = -0.2 + 0.02 * i;
		             }
		             int e = MoorDyn_ExternalWaveKinSet(p.cs.md, u.data(),
		                                                a.data(), p.t);
		             p.cmd("ExternalWaveKinSet",
		                   { p.h, row(u), row(a), num(p.t) }, e);
	             } });
	// a state written by either interface is read by both
	o.push_back({ "resume", [](Pair& p) {
		             string f = p.dir + sfmt("/st%d", p.nsave++);
		             string g = p.dir + sfmt("/st%d", p.nsave++);
		             p.good("Save", 0, { p.h, text(f) });
		             p.c.req(MoorDyn_Save(p.cs.md, g.c_str()) == 0, "save", "C");
		             p.step(0.01);
		             p.c.req(MoorDyn_Load(p.cs.md, f.c_str()) == MOORDYN_SUCCESS,
		                     "matlab-Save", "refused by C");
		             p.good("Load", 0, { p.h, text(g) });
		             p.t -= 0.01;
	             } });
	return o;
}

} // namespace

namespace vf {
void
enumerate(Cases& cases, const string& tier)
{
	bool deep = tier == "thorough";
	vector<Model> sys = all_systems();
	{
		Model m = sys_mixed();
		m.name = "extwaves";
		m.opt("WaveKin", 1);
		sys.push_back(m);
		m = sys_mixed();
		m.name = "bathymetry";
		m.files["sf.txt"] = "3 3\n-200 0 200\n-200 0 200\n"
		                    "-200 -200 -34\n0 -200 -36\n200 -200 -38\n"
		                    "-200 0 -33\n0 0 -35\n200 0 -37\n"
		                    "-200 200 -32\n0 200 -34\n200 200 -36\n";
		sys.push_back(m);
		m = sys_cable();
		m.name = "extcable";
		m.opt("WaveKin", 1);
		sys.push_back(m);
	}
	const vector<Op> OPS = ops();
	int nop = (int)OPS.size();
	for (size_t s = 0; s < sys.size(); s++) {
		bool rich = s > 17 || sys[s].name == "mixed";
		int depth = deep ? (rich ? 4 : 3) : (rich ? 3 : 2);
		int total = 1;
		for (int i = 0; i < depth; i++)
			total *= nop;
		for (int code = 0; code < total; code++) {
			string key = sys[s].name;
			vector<int> seq;
			for (int i = 0, k = code; i < depth; i++, k /= nop) {
				seq.push_back(k % nop);
				key += string("/") + OPS[k % nop].name;
			}
			Model m = sys[s];
			// a short initial condition phase, so that it is noticed
			m.opt("dtIC", 0.02).opt("TmaxIC", 0.06);
			cases.push_back({ key, [=](Ctx& c) mutable {
				if (m.files.count("sf.txt")) {
					write_file(c.dir + "/sf.txt", m.files["sf.txt"]);
					m.files.erase("sf.txt");
					m.opt("SeafloorFile", c.dir + "/sf.txt");
				}
				const vector<Op> O = ops();
				Pair p(c, m);
				p.init(code % 2 == 0);
				c.state(p.compare());
				for (int k : seq) {
					O[k].run(p);
					c.state(p.compare());
					c.trans(1);
				}
				p.step(0.02);
				c.outcome(p.compare());
				p.good("Close", 0, { p.h });
				p.mmd = nullptr;
				c.trace();
			} });
		}
	}
	// log: levels of the file and of the messages
	for (int lev = -1; lev <= 4; lev++)
		for (int msg = 0; msg <= 3; msg++)
			cases.push_back({ sfmt("log/%d/%d", lev, msg), [=](Ctx& c) {
				Model m = sys_chain();
				Pair p(c, m);
				auto path = [&](const char* w) { return c.dir + "/" + w; };
				p.cmd("SetVerbosity", { p.h, num(4) },
				      MoorDyn_SetVerbosity(p.cs.md, 4));
				p.cmd("SetLogFile", { p.h, text(path("p.log")) },
				      MoorDyn_SetLogFile(p.cs.md, path("c.log").c_str()));
				p.cmd("SetLogLevel", { p.h, num(lev) },
				      MoorDyn_SetLogLevel(p.cs.md, lev));
				p.cmd("Log", { p.h, num(msg), text("remarkable message\n") },
				      MoorDyn_Log(p.cs.md, msg, "remarkable message\n"));
				p.cs.close();
				p.good("Close", 0, { p.h });
				p.mmd = nullptr;
				auto has = [&](const char* w) {
					string s;
					read_file(path(w), s);
					return s.find("remarkable message") != string::npos;
				};
				c.req(has("c.log") == has("p.log"), "matlab-Log",
				      sfmt("level %d in a file of level %d: %d", msg, lev,
				           (int)has("p.log")));
				c.outcome(dv{ (double)has("c.log") });
				c.trans(1);
				c.trace();
			} });
}
} // namespace vf
