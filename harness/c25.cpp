// C25: the Fortran module against the C interface. Every sequence of calls up
// to a depth is made on two sibling systems, one driven through the Fortran
// module (c25_f.f90 gives it C entry points) and the other one through the C
// interface; every answer and every getter is compared after every call.
#define VF_MAIN
#include "md.hpp"

using namespace vf;

extern "C" {
void* f_Create(int n, const char* p);
int f_Close(void*);
int f_Init(void*, int, double*, double*, int noic);
int f_Step(void*, int, double*, double*, double*, double*, double*);
int f_Log(void*, int, int, const char*);
int f_ExternalWaveKinSet(void*, int, double*, double*, double);
int f_GetFASTtens(void*, int, double*, double*, double*, double*);
int f_GetWavesKin(void*, double, double, double, double*, double*, double*,
                  double*, void*);
int f_GetDepthAt(void*, double, double, double*);
int f_GetBodyState(void*, double*, double*);
int f_GetPointAttached(void*, int, void**, int*);
#define INTGET(N) int f_##N(void*, int*);
INTGET(NCoupledDOF)
INTGET(ExternalWaveKinInit)
INTGET(ExternalWaveKinGetN)
INTGET(GetNumberBodies)
INTGET(GetNumberRods)
INTGET(GetNumberPoints)
INTGET(GetNumberLines)
INTGET(GetBodyID)
INTGET(GetBodyType)
INTGET(GetRodID)
INTGET(GetRodType)
INTGET(GetRodN)
INTGET(GetRodNumberNodes)
INTGET(GetPointID)
INTGET(GetPointType)
INTGET(GetPointNAttached)
INTGET(GetLineID)
INTGET(GetLineN)
INTGET(GetLineNumberNodes)
INTGET(IsLineConstantEA)
INTGET(IsLinePressBend)
#define DBLGET(N) int f_##N(void*, double*);
DBLGET(GetAverageDepth)
DBLGET(GetMinDepth)
DBLGET(GetLineConstantEA)
DBLGET(GetLineUnstretchedLength)
DBLGET(GetLineFairTen)
DBLGET(GetLineMaxTen)
DBLGET(GetBodyPos)
DBLGET(GetBodyAngle)
DBLGET(GetBodyVel)
DBLGET(GetBodyAngVel)
DBLGET(GetBodyForce)
DBLGET(GetBodyM)
DBLGET(GetRodForce)
DBLGET(GetRodM)
DBLGET(GetPointPos)
DBLGET(GetPointVel)
DBLGET(GetPointForce)
DBLGET(GetPointM)
// by reference, so that the value is not left in a register
#define DBLSET(N) int f_##N(void*, double*);
DBLSET(SetLineConstantEA)
DBLSET(SetLineUnstretchedLength)
DBLSET(SetLineUnstretchedLengthVel)
#define INTSET(N) int f_##N(void*, int*);
INTSET(SetVerbosity)
INTSET(SetLogLevel)
INTSET(SetLinePressBend)
#define ARR(N) int f_##N(void*, int, double*);
ARR(ExternalWaveKinGetCoordinates)
ARR(SetLinePressInt)
ARR(GetRodNodePos)
ARR(GetRodNodeVel)
ARR(GetLineNodePos)
ARR(GetLineNodeVel)
ARR(GetLineNodeForce)
ARR(GetLineNodeTen)
ARR(GetLineNodeBendStiff)
ARR(GetLineNodeWeight)
ARR(GetLineNodeDrag)
ARR(GetLineNodeFroudeKrilov)
ARR(GetLineNodeSeabedForce)
ARR(GetLineNodeM)
ARR(GetLineNodeCurv)
void* f_GetWaves(void*);
void* f_GetSeafloor(void*);
void* f_GetBody(void*, int);
void* f_GetRod(void*, int);
void* f_GetPoint(void*, int);
void* f_GetLine(void*, int);
#define PATH(N) int f_##N(void*, int, const char*);
PATH(SetLogFile)
PATH(Save)
PATH(Load)
PATH(SaveVTK)
PATH(SaveBodyVTK)
PATH(UseBodyVTK)
PATH(SaveRodVTK)
PATH(SavePointVTK)
PATH(SaveLineVTK)
}

namespace {

typedef double (*M6)[6];
typedef double (*M3)[3];

struct Pair
{
	Ctx& c;
	const Model& m;
	MoorDyn fm = nullptr;
	Sys cs;
	double t = 0.0;
	bool wave_ext = false;
	int nsave = 0;
	dv all;

	Pair(Ctx& ctx, const Model& model)
	  : c(ctx)
	  , m(model)
	{
		c.req(cs.create(m, c.dir, "c"), "create", "C");
		string d = c.dir + "/f";
		mkdir(d.c_str(), 0700);
		write_file(d + "/m.txt", m.text());
		for (auto& f : m.files)
			write_file(d + "/" + f.first, f.second);
		string p = d + "/m.txt";
		fm = (MoorDyn)f_Create((int)p.size(), p.c_str());
		c.req(fm != nullptr, "fortran-Create", "failed");
		for (auto& o : m.options)
			if (o.first == "WaveKin" && atoi(o.second.c_str()) == 1)
				wave_ext = true;
	}
	~Pair()
	{
		if (fm)
			MoorDyn_Close(fm);
	}
	void code(const char* fn, int got, int want)
	{
		c.req(got == want, string("fortran-") + fn,
		      sfmt("MD_%s returns %d, C: %d", fn, got, want));
	}
	void vals(const char* fn, int eg, int ew, const double* got,
	          const double* want, int n, const string& what)
	{
		code(fn, eg, ew);
		if (ew != MOORDYN_SUCCESS)
			return;
		for (int i = 0; i < n; i++) {
			c.req(got[i] == want[i] ||
			          (std::isnan(got[i]) && std::isnan(want[i])),
			      string("fortran-") + fn,
			      sfmt("MD_%s of %s gives %.17g in component %d, C: %.17g", fn,
			           what.c_str(), got[i], i, want[i]));
			all.push_back(want[i]);
		}
	}
	void ints(const char* fn, int eg, int ew, int got, int want,
	          const string& what)
	{
		double a = got, b = want;
		vals(fn, eg, ew, &a, &b, 1, what);
	}
	void ptr(const char* fn, void* got, void* want)
	{
		c.req(got == want, string("fortran-") + fn,
		      sfmt("MD_%s gives another object", fn));
	}

	dv compare()
	{
		all.clear();
		MoorDyn md = cs.md;
		unsigned nb, nr, np, nl, n;
		int i1, i2;
		double v[36], w[36], v2[36], w2[36];
		auto clean = [&]() {
			for (int i = 0; i < 36; i++)
				v[i] = w[i] = -1.5, v2[i] = w2[i] = -2.5;
			i1 = -1;
			i2 = -2;
		};
#define I(N, HF, HC, W)                                                        \
	{                                                                          \
		clean();                                                               \
		int ew = MoorDyn_##N(HC, (decltype(&n))&i1);                           \
		int eg = f_##N(HF, &i2);                                               \
		ints(#N, eg, ew, i2, i1, W);                                           \
	}
#define J(N, HF, HC, W)                                                        \
	{                                                                          \
		clean();                                                               \
		int ew = MoorDyn_##N(HC, &i1);                                         \
		int eg = f_##N(HF, &i2);                                               \
		ints(#N, eg, ew, i2, i1, W);                                           \
	}
#define D(N, HF, HC, K, W, CAST)                                               \
	{                                                                          \
		clean();                                                               \
		int ew = MoorDyn_##N(HC, (CAST)v);                                     \
		int eg = f_##N(HF, v2);                                                \
		vals(#N, eg, ew, v2, v, K, W);                                         \
	}
#define ND(N, HF, HC, IDX, K, W, CAST)                                         \
	{                                                                          \
		clean();                                                               \
		int ew = MoorDyn_##N(HC, (unsigned)(IDX), (CAST)v);                    \
		int eg = f_##N(HF, (int)(IDX), v2);                                    \
		vals(#N, eg, ew, v2, v, K, W);                                         \
	}
		MoorDyn_GetNumberBodies(md, &nb);
		MoorDyn_GetNumberRods(md, &nr);
		MoorDyn_GetNumberPoints(md, &np);
		MoorDyn_GetNumberLines(md, &nl);
		I(NCoupledDOF, fm, md, "system");
		I(GetNumberBodies, fm, md, "system");
		I(GetNumberRods, fm, md, "system");
		I(GetNumberPoints, fm, md, "system");
		I(GetNumberLines, fm, md, "system");
		for (unsigned i = 1; i <= nb; i++) {
			string k = sfmt("body %u", i);
			auto b = MoorDyn_GetBody(md, i);
			void* h = f_GetBody(fm, (int)i);
			ptr("GetBody", h, MoorDyn_GetBody(fm, i));
			J(GetBodyID, h, b, k);
			J(GetBodyType, h, b, k);
			clean();
			int ew = MoorDyn_GetBodyState(b, v, w);
			int eg = f_GetBodyState(h, v2, w2);
			vals("GetBodyState", eg, ew, v2, v, 6, k);
			vals("GetBodyState", eg, ew, w2, w, 6, k + " rates");
			D(GetBodyPos, h, b, 3, k, double*);
			D(GetBodyAngle, h, b, 3, k, double*);
			D(GetBodyVel, h, b, 3, k, double*);
			D(GetBodyAngVel, h, b, 3, k, double*);
			D(GetBodyForce, h, b, 6, k, double*);
			D(GetBodyM, h, b, 36, k, M6);
		}
		for (unsigned i = 1; i <= nr; i++) {
			string k = sfmt("rod %u", i);
			auto b = MoorDyn_GetRod(md, i);
			void* h = f_GetRod(fm, (int)i);
			ptr("GetRod", h, MoorDyn_GetRod(fm, i));
			J(GetRodID, h, b, k);
			J(GetRodType, h, b, k);
			D(GetRodForce, h, b, 6, k, double*);
			D(GetRodM, h, b, 36, k, M6);
			I(GetRodN, h, b, k);
			I(GetRodNumberNodes, h, b, k);
			MoorDyn_GetRodNumberNodes(b, &n);
			for (unsigned j = 0; j <= n; j++) {
				string kj = k + sfmt(" node %u", j);
				ND(GetRodNodePos, h, b, j, 3, kj, double*);
				ND(GetRodNodeVel, h, b, j, 3, kj, double*);
			}
		}
		for (unsigned i = 1; i <= np; i++) {
			string k = sfmt("point %u", i);
			auto b = MoorDyn_GetPoint(md, i);
			void* h = f_GetPoint(fm, (int)i);
			ptr("GetPoint", h, MoorDyn_GetPoint(fm, i));
			J(GetPointID, h, b, k);
			J(GetPointType, h, b, k);
			D(GetPointPos, h, b, 3, k, double*);
			D(GetPointVel, h, b, 3, k, double*);
			D(GetPointForce, h, b, 3, k, double*);
			D(GetPointM, h, b, 9, k, M3);
			I(GetPointNAttached, h, b, k);
			MoorDyn_GetPointNAttached(b, &n);
			auto pb = MoorDyn_GetPoint(fm, i);
			for (unsigned j = 0; j <= n; j++) {
				MoorDynLine l = nullptr;
				void* lf = nullptr;
				int e = -1, ef = -1;
				int ew = MoorDyn_GetPointAttached(pb, j, &l, &e);
				int eg = f_GetPointAttached(h, (int)j, &lf, &ef);
				code("GetPointAttached", eg, ew);
				if (ew == MOORDYN_SUCCESS)
					c.req((void*)l == lf && e == ef, "fortran-GetPointAttached",
					      k);
			}
		}
		for (unsigned i = 1; i <= nl; i++) {
			string k = sfmt("line %u", i);
			auto b = MoorDyn_GetLine(md, i);
			void* h = f_GetLine(fm, (int)i);
			ptr("GetLine", h, MoorDyn_GetLine(fm, i));
			J(GetLineID, h, b, k);
			I(GetLineN, h, b, k);
			I(GetLineNumberNodes, h, b, k);
			J(IsLineConstantEA, h, b, k);
			J(IsLinePressBend, h, b, k);
			D(GetLineConstantEA, h, b, 1, k, double*);
			D(GetLineUnstretchedLength, h, b, 1, k, double*);
			D(GetLineFairTen, h, b, 1, k, double*);
			D(GetLineMaxTen, h, b, 1, k, double*);
			MoorDyn_GetLineNumberNodes(b, &n);
			for (unsigned j = 0; j <= n; j++) {
				string kj = k + sfmt(" node %u", j);
				ND(GetLineNodePos, h, b, j, 3, kj, double*);
				ND(GetLineNodeVel, h, b, j, 3, kj, double*);
				ND(GetLineNodeForce, h, b, j, 3, kj, double*);
				ND(GetLineNodeTen, h, b, j, 3, kj, double*);
				ND(GetLineNodeBendStiff, h, b, j, 3, kj, double*);
				ND(GetLineNodeWeight, h, b, j, 3, kj, double*);
				ND(GetLineNodeDrag, h, b, j, 3, kj, double*);
				ND(GetLineNodeFroudeKrilov, h, b, j, 3, kj, double*);
				ND(GetLineNodeSeabedForce, h, b, j, 3, kj, double*);
				ND(GetLineNodeCurv, h, b, j, 1, kj, double*);
				ND(GetLineNodeM, h, b, j, 9, kj, M3);
			}
		}
		for (int k = 0; k <= (int)nl + 1; k++) {
			vector<float> a[4];
			dv d[4];
			for (int q = 0; q < 4; q++)
				a[q].assign(k + 2, -1.0f), d[q].assign(k, -2.0);
			int ew = MoorDyn_GetFASTtens(md, &k, a[0].data(), a[1].data(),
			                             a[2].data(), a[3].data());
			int eg = f_GetFASTtens(fm, k, d[0].data(), d[1].data(), d[2].data(),
			                       d[3].data());
			for (int q = 0; q < 4; q++) {
				dv want(a[q].begin(), a[q].begin() + k);
				vals("GetFASTtens", eg, ew, d[q].data(), want.data(), k,
				     sfmt("%d lines, answer %d", k, q));
			}
		}
		auto wv = MoorDyn_GetWaves(md);
		ptr("GetWaves", f_GetWaves(fm), MoorDyn_GetWaves(fm));
		auto sf = MoorDyn_GetSeafloor(md);
		ptr("GetSeafloor", f_GetSeafloor(fm), MoorDyn_GetSeafloor(fm));
		for (double x : { -7.5, 12.25 })
			for (double z : { -19.0, -3.5 })
				for (int s = 0; s <= (sf ? 1 : 0); s++) {
					clean();
					int ew = MoorDyn_GetWavesKin(wv, x, 2.5, z, v, v + 3, v + 6,
					                             v + 7, s ? sf : nullptr);
					int eg = f_GetWavesKin(f_GetWaves(fm), x, 2.5, z, v2, v2 + 3,
					                       v2 + 6, v2 + 7,
					                       s ? f_GetSeafloor(fm) : nullptr);
					vals("GetWavesKin", eg, ew, v2, v, 8,
					     sfmt("%g %g %d", x, z, s));
				}
		if (sf) {
			void* h = f_GetSeafloor(fm);
			D(GetAverageDepth, h, sf, 1, "seafloor", double*);
			D(GetMinDepth, h, sf, 1, "seafloor", double*);
			for (double x : { -7.5, 12.25 }) {
				clean();
				int ew = MoorDyn_GetDepthAt(sf, x, 3.5, v);
				int eg = f_GetDepthAt(h, x, 3.5, v2);
				vals("GetDepthAt", eg, ew, v2, v, 1, sfmt("%g", x));
			}
		}
		I(ExternalWaveKinGetN, fm, md, "system");
		if (wave_ext &&
		    MoorDyn_ExternalWaveKinGetN(md, &n) == MOORDYN_SUCCESS) {
			dv a(3 * n, -1.0), b(3 * n, -2.0);
			int ew = MoorDyn_ExternalWaveKinGetCoordinates(md, a.data());
			int eg =
			    f_ExternalWaveKinGetCoordinates(fm, (int)(3 * n), b.data());
			vals("ExternalWaveKinGetCoordinates", eg, ew, b.data(), a.data(),
			     (int)(3 * n), "nodes");
		}
		return all;
	}

	void init(bool noic)
	{
		cs.f.assign(cs.ndof + 6, 0.0);
		m.motion(0.0, cs.x, cs.xd);
		dv x = cs.x, xd = cs.xd;
		int ew = noic ? MoorDyn_Init_NoIC(cs.md, cs.x.data(), cs.xd.data())
		              : MoorDyn_Init(cs.md, cs.x.data(), cs.xd.data());
		int eg = f_Init(fm, (int)cs.ndof, x.data(), xd.data(), noic);
		code("Init", eg, ew);
		if (ew == MOORDYN_SUCCESS && wave_ext) {
			unsigned n = 77;
			int nf = 78;
			ew = MoorDyn_ExternalWaveKinInit(cs.md, &n);
			eg = f_ExternalWaveKinInit(fm, &nf);
			ints("ExternalWaveKinInit", eg, ew, nf, (int)n, "system");
		}
	}
	void step(double dt)
	{
		m.motion(t, cs.x, cs.xd);
		dv x = cs.x, xd = cs.xd, f(cs.ndof, -3.0);
		double tw = t, dw = dt, tg = t, dg = dt;
		int ew = MoorDyn_Step(cs.md, cs.x.data(), cs.xd.data(), cs.f.data(), &tw,
		                      &dw);
		int eg = f_Step(fm, (int)cs.ndof, x.data(), xd.data(), f.data(), &tg,
		                &dg);
		vals("Step", eg, ew, f.data(), cs.f.data(), (int)cs.ndof, "forces");
		vals("Step", eg, ew, &tg, &tw, 1, "time");
		t = tw;
	}
	unsigned nlines() const
	{
		unsigned n;
		MoorDyn_GetNumberLines(cs.md, &n);
		return n;
	}
};

struct Op
{
	const char* name;
	std::function<void(Pair&)> run;
};

vector<Op>
ops()
{
	vector<Op> o;
	o.push_back({ "step", [](Pair& p) { p.step(0.02); } });
	o.push_back({ "refused", [](Pair& p) {
		             // a time step in the past, missing files, no VTK
		             string f = p.c.dir + "/none/f";
		             int n = (int)f.size();
		             p.code("Save", f_Save(p.fm, n, f.c_str()),
		                    MoorDyn_Save(p.cs.md, f.c_str()));
		             p.code("Load", f_Load(p.fm, n, f.c_str()),
		                    MoorDyn_Load(p.cs.md, f.c_str()));
		             p.code("SaveVTK", f_SaveVTK(p.fm, n, f.c_str()),
		                    MoorDyn_SaveVTK(p.cs.md, f.c_str()));
		             p.c.req(f_Create(n, f.c_str()) == nullptr,
		                     "fortran-Create", "a missing file");
		             unsigned k;
		             MoorDyn_GetNumberBodies(p.cs.md, &k);
		             if (k) {
			             auto b = MoorDyn_GetBody(p.cs.md, 1);
			             void* h = f_GetBody(p.fm, 1);
			             p.code("SaveBodyVTK", f_SaveBodyVTK(h, n, f.c_str()),
			                    MoorDyn_SaveBodyVTK(b, f.c_str()));
			             p.code("UseBodyVTK", f_UseBodyVTK(h, n, f.c_str()),
			                    MoorDyn_UseBodyVTK(b, f.c_str()));
		             }
		             MoorDyn_GetNumberRods(p.cs.md, &k);
		             if (k)
			             p.code("SaveRodVTK",
			                    f_SaveRodVTK(f_GetRod(p.fm, 1), n, f.c_str()),
			                    MoorDyn_SaveRodVTK(MoorDyn_GetRod(p.cs.md, 1),
			                                       f.c_str()));
		             MoorDyn_GetNumberPoints(p.cs.md, &k);
		             if (k)
			             p.code(
			                 "SavePointVTK",
			                 f_SavePointVTK(f_GetPoint(p.fm, 1), n, f.c_str()),
			                 MoorDyn_SavePointVTK(MoorDyn_GetPoint(p.cs.md, 1),
			                                      f.c_str()));
		             MoorDyn_GetNumberLines(p.cs.md, &k);
		             if (k)
			             p.code("SaveLineVTK",
			                    f_SaveLineVTK(f_GetLine(p.fm, 1), n, f.c_str()),
			                    MoorDyn_SaveLineVTK(MoorDyn_GetLine(p.cs.md, 1),
			                                        f.c_str()));
		             p.ptr("GetLine", f_GetLine(p.fm, (int)k + 1), nullptr);
		             p.ptr("GetLine", f_GetLine(p.fm, -1), nullptr);
	             } });
	o.push_back({ "length", [](Pair& p) {
		             unsigned n = p.nlines();
		             if (!n)
			             return;
		             double l;
		             auto b = MoorDyn_GetLine(p.cs.md, n);
		             MoorDyn_GetLineUnstretchedLength(b, &l);
		             l *= 0.99;
		             p.code("SetLineUnstretchedLength",
		                    f_SetLineUnstretchedLength(
		                        f_GetLine(p.fm, (int)n), &l),
		                    MoorDyn_SetLineUnstretchedLength(b, l));
		             b = MoorDyn_GetLine(p.cs.md, 1);
		             double rate = 0.125;
		             p.code("SetLineUnstretchedLengthVel",
		                    f_SetLineUnstretchedLengthVel(f_GetLine(p.fm, 1),
		                                                  &rate),
		                    MoorDyn_SetLineUnstretchedLengthVel(b, 0.125));
	             } });
	o.push_back({ "stiffness", [](Pair& p) {
		             for (unsigned i = 1; i <= p.nlines(); i++) {
			             auto b = MoorDyn_GetLine(p.cs.md, i);
			             double ea = 0.0;
			             MoorDyn_GetLineConstantEA(b, &ea);
			             ea = ea * 1.0625 + i;
			             p.code("SetLineConstantEA",
			                    f_SetLineConstantEA(f_GetLine(p.fm, (int)i), &ea),
			                    MoorDyn_SetLineConstantEA(b, ea));
		             }
	             } });
	o.push_back({ "pressure", [](Pair& p) {
		             unsigned k;
		             for (unsigned i = 1; i <= p.nlines(); i++) {
			             auto b = MoorDyn_GetLine(p.cs.md, i);
			             void* h = f_GetLine(p.fm, (int)i);
			             int on = 0;
			             MoorDyn_IsLinePressBend(b, &on);
			             int want = !on;
			             p.code("SetLinePressBend", f_SetLinePressBend(h, &want),
			                    MoorDyn_SetLinePressBend(b, !on));
			             MoorDyn_GetLineNumberNodes(b, &k);
			             dv pr(k);
			             for (unsigned j = 0; j < k; j++)
				             pr[j] = 1.0e4 * (j + 1) + i;
			             p.code("SetLinePressInt",
			                    f_SetLinePressInt(h, (int)k, pr.data()),
			                    MoorDyn_SetLinePressInt(b, pr.data()));
		             }
	             } });
	o.push_back({ "waves", [](Pair& p) {
		             unsigned n;
		             if (!p.wave_ext || MoorDyn_ExternalWaveKinGetN(
		                                    p.cs.md, &n) != MOORDYN_SUCCESS)
			             return;
		             dv u(3 * n), a(3 * n);
		             for (unsigned i = 0; i < 3 * n; i++) {
			             u[i] = 0.3 + 0.01 * i + 0.1 * p.t;
			             a[i] = -0.2 + 0.02 * i;
		             }
		             p.code("ExternalWaveKinSet",
		                    f_ExternalWaveKinSet(p.fm, (int)(3 * n), u.data(),
		                                         a.data(), p.t),
		                    MoorDyn_ExternalWaveKinSet(p.cs.md, u.data(),
		                                               a.data(), p.t));
	             } });
	o.push_back({ "resume", [](Pair& p) {
		             string f = p.c.dir + sfmt("/st%d", p.nsave++);
		             p.code("Save", f_Save(p.fm, (int)f.size(), f.c_str()),
		                    MOORDYN_SUCCESS);
		             p.step(0.01);
		             p.code("Save (read by C)", MoorDyn_Load(p.cs.md, f.c_str()),
		                    MOORDYN_SUCCESS);
		             p.code("Load", f_Load(p.fm, (int)f.size(), f.c_str()),
		                    MOORDYN_SUCCESS);
		             p.t -= 0.01;
	             } });
	return o;
}

} // namespace

namespace vf {
void
enumerate(Cases& cases, const string& tier)
{
	bool deep = tier == "thorough";
	vector<Model> sys = all_systems();
	{
		Model m = sys_mixed();
		m.name = "extwaves";
		m.opt("WaveKin", 1);
		sys.push_back(m);
		m = sys_mixed();
		m.name = "bathymetry";
		m.files["sf.txt"] = "3 3\n-200 0 200\n-200 0 200\n"
		                    "-200 -200 -34\n0 -200 -36\n200 -200 -38\n"
		                    "-200 0 -33\n0 0 -35\n200 0 -37\n"
		                    "-200 200 -32\n0 200 -34\n200 200 -36\n";
		sys.push_back(m);
		m = sys_cable();
		m.name = "extcable";
		m.opt("WaveKin", 1);
		sys.push_back(m);
	}
	const vector<Op> OPS = ops();
	int nop = (int)OPS.size();
	for (size_t s = 0; s < sys.size(); s++) {
		bool rich = s > 17 || sys[s].name == "mixed";
		int depth = deep ? (rich ? 4 : 3) : (rich ? 3 : 2);
		int total = 1;
		for (int i = 0; i < depth; i++)
			total *= nop;
		for (int code = 0; code < total; code++) {
			string key = sys[s].name;
			vector<int> seq;
			for (int i = 0, k = code; i < depth; i++, k /= nop) {
				seq.push_back(k % nop);
				key += string("/") + OPS[k % nop].name;
			}
			Model m = sys[s];
			// a short initial condition phase, so that it is noticed
			m.opt("dtIC", 0.02).opt("TmaxIC", 0.06);
			cases.push_back({ key, [=](Ctx& c) mutable {
				if (m.files.count("sf.txt")) {
					write_file(c.dir + "/sf.txt", m.files["sf.txt"]);
					m.files.erase("sf.txt");
					m.opt("SeafloorFile", c.dir + "/sf.txt");
				}
				const vector<Op> O = ops();
				Pair p(c, m);
				p.init(code % 2 == 0);
				c.state(p.compare());
				for (int k : seq) {
					O[k].run(p);
					c.state(p.compare());
					c.trans(1);
				}
				p.step(0.02);
				c.outcome(p.compare());
				int e = f_Close(p.fm);
				p.fm = nullptr;
				p.code("Close", e, MOORDYN_SUCCESS);
				c.trace();
			} });
		}
	}
	for (int lev = -1; lev <= 4; lev++)
		for (int msg = 0; msg <= 3; msg++)
			cases.push_back({ sfmt("log/%d/%d", lev, msg), [=](Ctx& c) {
				Model m = sys_chain();
				Pair p(c, m);
				auto path = [&](const char* w) { return c.dir + "/" + w; };
				string pc = path("c.log"), pf = path("f.log"),
				       tx = "remarkable message";
				int four = 4, lv = lev;
				p.code("SetVerbosity", f_SetVerbosity(p.fm, &four),
				       MoorDyn_SetVerbosity(p.cs.md, 4));
				p.code("SetLogFile",
				       f_SetLogFile(p.fm, (int)pf.size(), pf.c_str()),
				       MoorDyn_SetLogFile(p.cs.md, pc.c_str()));
				p.code("SetLogLevel", f_SetLogLevel(p.fm, &lv),
				       MoorDyn_SetLogLevel(p.cs.md, lev));
				p.code("Log", f_Log(p.fm, msg, (int)tx.size(), tx.c_str()),
				       MoorDyn_Log(p.cs.md, msg, tx.c_str()));
				p.cs.close();
				p.code("Close", f_Close(p.fm), MOORDYN_SUCCESS);
				p.fm = nullptr;
				auto has = [&](const string& w) {
					string s;
					read_file(w, s);
					return s.find(tx) != string::npos;
				};
				c.req(has(pc) == has(pf), "fortran-Log",
				      sfmt("level %d in a file of level %d: %d", msg, lev,
				           (int)has(pf)));
				c.outcome(dv{ (double)has(pc) });
				c.trans(1);
				c.trace();
			} });
}
} // namespace vf
