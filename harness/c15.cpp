// C15: misuse of the interface. Every function x every kind of invalid
// argument x life-cycle stage x system: the documented error is returned, and
// the run goes on as its undisturbed twin.
#define VF_MAIN
#include "md.hpp"
#include <climits>
using namespace vf;

static void
must(int e, const char* what)
{
	if (e != MOORDYN_SUCCESS)
		throw Violation{ "api-error", sfmt("%s returned %d", what, e) };
}

struct Misuse
{
	string name;
	// returns true if it was reported as an error
	std::function<bool(Sys&)> call;
};

static const double SENT = 4.5e77;

static vector<Misuse>
table()
{
	vector<Misuse> t;
	static double d[64], m3[3][3], m6[6][6];
	static float fl[16];
	static int i;
	static unsigned u;
	static size_t z;
	static char nm[256];
	static MoorDynLine L;
#define IV(expr) ((expr) == MOORDYN_INVALID_VALUE)
#define ER(expr) ((expr) != MOORDYN_SUCCESS)
#define ADD(n, e) t.push_back({ n, [](Sys& s) -> bool { (void)s; return e; } })
	// null systems
	ADD("null:NCoupledDOF", IV(MoorDyn_NCoupledDOF(nullptr, &u)));
	ADD("null:SetVerbosity", IV(MoorDyn_SetVerbosity(nullptr, 0)));
	ADD("null:SetLogFile", IV(MoorDyn_SetLogFile(nullptr, "/dev/null")));
	ADD("null:SetLogLevel", IV(MoorDyn_SetLogLevel(nullptr, 0)));
	ADD("null:Log", IV(MoorDyn_Log(nullptr, 0, "x")));
	ADD("null:Init", IV(MoorDyn_Init(nullptr, d, d)));
	ADD("null:Init_NoIC", IV(MoorDyn_Init_NoIC(nullptr, d, d)));
	ADD("null:Step", IV(MoorDyn_Step(nullptr, d, d, d, d, d + 1)));
	ADD("null:Close", IV(MoorDyn_Close(nullptr)));
	ADD("null:GetWaves", MoorDyn_GetWaves(nullptr) == nullptr);
	ADD("null:GetSeafloor", MoorDyn_GetSeafloor(nullptr) == nullptr);
	ADD("null:ExternalWaveKinInit", IV(MoorDyn_ExternalWaveKinInit(nullptr, &u)));
	ADD("null:ExternalWaveKinGetN", IV(MoorDyn_ExternalWaveKinGetN(nullptr, &u)));
	ADD("null:ExternalWaveKinGetCoordinates", IV(MoorDyn_ExternalWaveKinGetCoordinates(nullptr, d)));
	ADD("null:ExternalWaveKinSet", IV(MoorDyn_ExternalWaveKinSet(nullptr, d, d, 0)));
	ADD("null:GetNumberBodies", IV(MoorDyn_GetNumberBodies(nullptr, &u)));
	ADD("null:GetNumberRods", IV(MoorDyn_GetNumberRods(nullptr, &u)));
	ADD("null:GetNumberPoints", IV(MoorDyn_GetNumberPoints(nullptr, &u)));
	ADD("null:GetNumberLines", IV(MoorDyn_GetNumberLines(nullptr, &u)));
	ADD("null:GetBody", MoorDyn_GetBody(nullptr, 1) == nullptr);
	ADD("null:GetRod", MoorDyn_GetRod(nullptr, 1) == nullptr);
	ADD("null:GetPoint", MoorDyn_GetPoint(nullptr, 1) == nullptr);
	ADD("null:GetLine", MoorDyn_GetLine(nullptr, 1) == nullptr);
	ADD("null:GetFASTtens", IV(MoorDyn_GetFASTtens(nullptr, &i, fl, fl, fl, fl)));
	ADD("null:GetDt", IV(MoorDyn_GetDt(nullptr, d)));
	ADD("null:SetDt", IV(MoorDyn_SetDt(nullptr, 1)));
	ADD("null:GetCFL", IV(MoorDyn_GetCFL(nullptr, d)));
	ADD("null:SetCFL", IV(MoorDyn_SetCFL(nullptr, 1)));
	ADD("null:GetTimeScheme", IV(MoorDyn_GetTimeScheme(nullptr, nm, &z)));
	ADD("null:SetTimeScheme", IV(MoorDyn_SetTimeScheme(nullptr, "rk2")));
	ADD("null:Serialize", IV(MoorDyn_Serialize(nullptr, &z, nullptr)));
	ADD("null:Deserialize", IV(MoorDyn_Deserialize(nullptr, (uint64_t*)d)));
	ADD("null:Save", IV(MoorDyn_Save(nullptr, "x")));
	ADD("null:Load", IV(MoorDyn_Load(nullptr, "x")));
	ADD("null:SaveVTK", ER(MoorDyn_SaveVTK(nullptr, "x")));
	// null lines
	ADD("null:GetLineID", IV(MoorDyn_GetLineID(nullptr, &i)));
	ADD("null:GetLineN", IV(MoorDyn_GetLineN(nullptr, &u)));
	ADD("null:GetLineNumberNodes", IV(MoorDyn_GetLineNumberNodes(nullptr, &u)));
	ADD("null:GetLineUnstretchedLength", IV(MoorDyn_GetLineUnstretchedLength(nullptr, d)));
	ADD("null:SetLineUnstretchedLength", IV(MoorDyn_SetLineUnstretchedLength(nullptr, 1)));
	ADD("null:SetLineUnstretchedLengthVel", IV(MoorDyn_SetLineUnstretchedLengthVel(nullptr, 1)));
	ADD("null:IsLineConstantEA", IV(MoorDyn_IsLineConstantEA(nullptr, &i)));
	ADD("null:GetLineConstantEA", IV(MoorDyn_GetLineConstantEA(nullptr, d)));
	ADD("null:SetLineConstantEA", IV(MoorDyn_SetLineConstantEA(nullptr, 1)));
	ADD("null:IsLinePressBend", IV(MoorDyn_IsLinePressBend(nullptr, &i)));
	ADD("null:SetLinePressBend", IV(MoorDyn_SetLinePressBend(nullptr, 1)));
	ADD("null:SetLinePressInt", IV(MoorDyn_SetLinePressInt(nullptr, d)));
	ADD("null:GetLineNodePos", IV(MoorDyn_GetLineNodePos(nullptr, 0, d)));
	ADD("null:GetLineNodeVel", IV(MoorDyn_GetLineNodeVel(nullptr, 0, d)));
	ADD("null:GetLineNodeForce", IV(MoorDyn_GetLineNodeForce(nullptr, 0, d)));
	ADD("null:GetLineNodeTen", IV(MoorDyn_GetLineNodeTen(nullptr, 0, d)));
	ADD("null:GetLineNodeBendStiff", IV(MoorDyn_GetLineNodeBendStiff(nullptr, 0, d)));
	ADD("null:GetLineNodeWeight", IV(MoorDyn_GetLineNodeWeight(nullptr, 0, d)));
	ADD("null:GetLineNodeDrag", IV(MoorDyn_GetLineNodeDrag(nullptr, 0, d)));
	ADD("null:GetLineNodeFroudeKrilov", IV(MoorDyn_GetLineNodeFroudeKrilov(nullptr, 0, d)));
	ADD("null:GetLineNodeSeabedForce", IV(MoorDyn_GetLineNodeSeabedForce(nullptr, 0, d)));
	ADD("null:GetLineNodeCurv", IV(MoorDyn_GetLineNodeCurv(nullptr, 0, d)));
	ADD("null:GetLineNodeM", IV(MoorDyn_GetLineNodeM(nullptr, 0, m3)));
	ADD("null:GetLineFairTen", IV(MoorDyn_GetLineFairTen(nullptr, d)));
	ADD("null:GetLineMaxTen", IV(MoorDyn_GetLineMaxTen(nullptr, d)));
	ADD("null:SaveLineVTK", ER(MoorDyn_SaveLineVTK(nullptr, "x")));
	// null points, rods, bodies, waves, seafloor
	ADD("null:GetPointID", IV(MoorDyn_GetPointID(nullptr, &i)));
	ADD("null:GetPointType", IV(MoorDyn_GetPointType(nullptr, &i)));
	ADD("null:GetPointPos", IV(MoorDyn_GetPointPos(nullptr, d)));
	ADD("null:GetPointVel", IV(MoorDyn_GetPointVel(nullptr, d)));
	ADD("null:GetPointForce", IV(MoorDyn_GetPointForce(nullptr, d)));
	ADD("null:GetPointM", IV(MoorDyn_GetPointM(nullptr, m3)));
	ADD("null:GetPointNAttached", IV(MoorDyn_GetPointNAttached(nullptr, &u)));
	ADD("null:GetPointAttached", IV(MoorDyn_GetPointAttached(nullptr, 0, &L, &i)));
	ADD("null:SavePointVTK", ER(MoorDyn_SavePointVTK(nullptr, "x")));
	ADD("null:GetRodID", IV(MoorDyn_GetRodID(nullptr, &i)));
	ADD("null:GetRodType", IV(MoorDyn_GetRodType(nullptr, &i)));
	ADD("null:GetRodForce", IV(MoorDyn_GetRodForce(nullptr, d)));
	ADD("null:GetRodM", IV(MoorDyn_GetRodM(nullptr, m6)));
	ADD("null:GetRodN", IV(MoorDyn_GetRodN(nullptr, &u)));
	ADD("null:GetRodNumberNodes", IV(MoorDyn_GetRodNumberNodes(nullptr, &u)));
	ADD("null:GetRodNodePos", IV(MoorDyn_GetRodNodePos(nullptr, 0, d)));
	ADD("null:GetRodNodeVel", IV(MoorDyn_GetRodNodeVel(nullptr, 0, d)));
	ADD("null:SaveRodVTK", ER(MoorDyn_SaveRodVTK(nullptr, "x")));
	ADD("null:GetBodyID", IV(MoorDyn_GetBodyID(nullptr, &i)));
	ADD("null:GetBodyType", IV(MoorDyn_GetBodyType(nullptr, &i)));
	ADD("null:GetBodyState", IV(MoorDyn_GetBodyState(nullptr, d, d)));
	ADD("null:GetBodyPos", IV(MoorDyn_GetBodyPos(nullptr, d)));
	ADD("null:GetBodyAngle", IV(MoorDyn_GetBodyAngle(nullptr, d)));
	ADD("null:GetBodyVel", IV(MoorDyn_GetBodyVel(nullptr, d)));
	ADD("null:GetBodyAngVel", IV(MoorDyn_GetBodyAngVel(nullptr, d)));
	ADD("null:GetBodyForce", IV(MoorDyn_GetBodyForce(nullptr, d)));
	ADD("null:GetBodyM", IV(MoorDyn_GetBodyM(nullptr, m6)));
	ADD("null:SaveBodyVTK", ER(MoorDyn_SaveBodyVTK(nullptr, "x")));
	ADD("null:UseBodyVTK", ER(MoorDyn_UseBodyVTK(nullptr, "x")));
	ADD("null:GetWavesKin", IV(MoorDyn_GetWavesKin(nullptr, 0, 0, 0, d, d + 3, d + 6, d + 7, nullptr)));
	ADD("null:GetDepthAt", IV(MoorDyn_GetDepthAt(nullptr, 0, 0, d)));
	ADD("null:GetAverageDepth", IV(MoorDyn_GetAverageDepth(nullptr, d)));
	ADD("null:GetMinDepth", IV(MoorDyn_GetMinDepth(nullptr, d)));
	// object numbers out of range
	for (unsigned off : { 0u, 1u, 2u, 1000u, 0xffffffffu }) {
		string o = off == 0 ? "0" : off == 0xffffffffu ? "max" : sfmt("n+%u", off);
		auto num = [off](unsigned n) { return off == 0 || off == 0xffffffffu ? off : n + off; };
		t.push_back({ "range:GetBody:" + o, [num](Sys& s) { unsigned n; must(MoorDyn_GetNumberBodies(s.md, &n), "n"); return MoorDyn_GetBody(s.md, num(n)) == nullptr; } });
		t.push_back({ "range:GetRod:" + o, [num](Sys& s) { unsigned n; must(MoorDyn_GetNumberRods(s.md, &n), "n"); return MoorDyn_GetRod(s.md, num(n)) == nullptr; } });
		t.push_back({ "range:GetPoint:" + o, [num](Sys& s) { unsigned n; must(MoorDyn_GetNumberPoints(s.md, &n), "n"); return MoorDyn_GetPoint(s.md, num(n)) == nullptr; } });
		t.push_back({ "range:GetLine:" + o, [num](Sys& s) { unsigned n; must(MoorDyn_GetNumberLines(s.md, &n), "n"); return MoorDyn_GetLine(s.md, num(n)) == nullptr; } });
	}
	// node indices out of range, for every object
	typedef int (*LN)(MoorDynLine, unsigned, double*);
	struct { const char* n; LN f; } lf[] = {
		{ "GetLineNodePos", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodePos(l, i, o); } },
		{ "GetLineNodeVel", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeVel(l, i, o); } },
		{ "GetLineNodeForce", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeForce(l, i, o); } },
		{ "GetLineNodeTen", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeTen(l, i, o); } },
		{ "GetLineNodeBendStiff", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeBendStiff(l, i, o); } },
		{ "GetLineNodeWeight", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeWeight(l, i, o); } },
		{ "GetLineNodeDrag", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeDrag(l, i, o); } },
		{ "GetLineNodeFroudeKrilov", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeFroudeKrilov(l, i, o); } },
		{ "GetLineNodeSeabedForce", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeSeabedForce(l, i, o); } },
		{ "GetLineNodeCurv", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeCurv(l, i, o); } },
		{ "GetLineNodeM", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetLineNodeM(l, i, (double(*)[3])o); } },
	};
	for (auto& f : lf)
		for (unsigned off : { 1u, 2u, 7u, 0xffffffffu }) {
			string o = off == 0xffffffffu ? "max" : sfmt("N+%u", off);
			LN fn = f.f;
			t.push_back({ string("node:") + f.n + ":" + o, [fn, off](Sys& s) {
				             unsigned n, N;
				             must(MoorDyn_GetNumberLines(s.md, &n), "n");
				             for (unsigned l = 1; l <= n; l++) {
					             auto h = MoorDyn_GetLine(s.md, l);
					             must(MoorDyn_GetLineN(h, &N), "N");
					             if (fn(h, off == 0xffffffffu ? off : N + off, d) != MOORDYN_INVALID_VALUE)
						             return false;
					             // all the valid ones work
					             for (unsigned k = 0; k <= N; k++)
						             if (fn(h, k, d) != MOORDYN_SUCCESS)
							             return false;
				             }
				             return true;
			             } });
		}
	struct { const char* n; LN f; } rf[] = {
		{ "GetRodNodePos", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetRodNodePos((MoorDynRod)l, i, o); } },
		{ "GetRodNodeVel", [](MoorDynLine l, unsigned i, double* o) { return MoorDyn_GetRodNodeVel((MoorDynRod)l, i, o); } },
	};
	for (auto& f : rf)
		for (unsigned off : { 1u, 2u, 7u, 0xffffffffu }) {
			string o = off == 0xffffffffu ? "max" : sfmt("N+%u", off);
			LN fn = f.f;
			t.push_back({ string("node:") + f.n + ":" + o, [fn, off](Sys& s) {
				             unsigned n, N;
				             must(MoorDyn_GetNumberRods(s.md, &n), "n");
				             for (unsigned l = 1; l <= n; l++) {
					             auto h = MoorDyn_GetRod(s.md, l);
					             must(MoorDyn_GetRodN(h, &N), "N");
					             if (fn((MoorDynLine)h, off == 0xffffffffu ? off : N + off, d) != MOORDYN_INVALID_VALUE)
						             return false;
					             for (unsigned k = 0; k <= N; k++)
						             if (fn((MoorDynLine)h, k, d) != MOORDYN_SUCCESS)
							             return false;
				             }
				             return true;
			             } });
		}
	for (unsigned off : { 0u, 1u, 100u, 0xffffffffu })
		t.push_back({ sfmt("node:GetPointAttached:n+%u", off), [off](Sys& s) {
			             unsigned n, N;
			             must(MoorDyn_GetNumberPoints(s.md, &n), "n");
			             for (unsigned l = 1; l <= n; l++) {
				             auto h = MoorDyn_GetPoint(s.md, l);
				             must(MoorDyn_GetPointNAttached(h, &N), "N");
				             MoorDynLine ln = nullptr;
				             int e;
				             if (MoorDyn_GetPointAttached(h, off == 0xffffffffu ? off : N + off, &ln, &e) != MOORDYN_INVALID_VALUE)
					             return false;
			             }
			             return true;
		             } });
	t.push_back({ "range:GetFASTtens", [](Sys& s) {
		             unsigned n;
		             must(MoorDyn_GetNumberLines(s.md, &n), "n");
		             int k = n + 1;
		             vector<float> b(4 * (n + 1));
		             if (MoorDyn_GetFASTtens(s.md, &k, &b[0], &b[0], &b[0], &b[0]) != MOORDYN_INVALID_VALUE)
			             return false;
		             k = -1;
		             if (MoorDyn_GetFASTtens(s.md, &k, &b[0], &b[0], &b[0], &b[0]) == MOORDYN_SUCCESS)
			             return false;
		             return true;
	             } });
	// bad values
	for (auto n : { "", "rk3", "foo", "eulerr", "ab9", "beuler", "beulerx", "wilson-3", "midpoint0", "aca-1", "anderson0" })
		t.push_back({ string("scheme:") + (*n ? n : "(empty)"), [n](Sys& s) { return MoorDyn_SetTimeScheme(s.md, n) != MOORDYN_SUCCESS; } });
	t.push_back({ "file:Load-missing", [](Sys& s) { return MoorDyn_Load(s.md, (s.path + ".none").c_str()) != MOORDYN_SUCCESS; } });
	t.push_back({ "file:Load-dir", [](Sys& s) { return MoorDyn_Load(s.md, s.path.substr(0, s.path.rfind('/')).c_str()) != MOORDYN_SUCCESS; } });
	t.push_back({ "file:Load-input", [](Sys& s) { return MoorDyn_Load(s.md, s.path.c_str()) != MOORDYN_SUCCESS; } });
	t.push_back({ "file:Save-nodir", [](Sys& s) { return MoorDyn_Save(s.md, (s.path + ".none/x").c_str()) != MOORDYN_SUCCESS; } });
	t.push_back({ "file:SetLogFile-nodir", [](Sys& s) { return MoorDyn_SetLogFile(s.md, (s.path + ".none/x").c_str()) != MOORDYN_SUCCESS; } });
	t.push_back({ "file:Create-missing", [](Sys& s) { return MoorDyn_Create((s.path + ".none").c_str()) == nullptr; } });
	// null vectors
	t.push_back({ "vec:Step-null-x", [](Sys& s) { if (!s.ndof) return true; double tt = 0, dt = 0.02; return MoorDyn_Step(s.md, nullptr, s.xd.data(), s.f.data(), &tt, &dt) == MOORDYN_INVALID_VALUE; } });
	t.push_back({ "vec:Step-null-xd", [](Sys& s) { if (!s.ndof) return true; double tt = 0, dt = 0.02; return MoorDyn_Step(s.md, s.x.data(), nullptr, s.f.data(), &tt, &dt) == MOORDYN_INVALID_VALUE; } });
	t.push_back({ "vec:Step-null-f", [](Sys& s) { if (!s.ndof) return true; double tt = 0, dt = 0.02; return MoorDyn_Step(s.md, s.x.data(), s.xd.data(), nullptr, &tt, &dt) == MOORDYN_INVALID_VALUE; } });
	t.push_back({ "vec:Step-null-t", [](Sys& s) { double dt = 0.02; return MoorDyn_Step(s.md, s.x.data(), s.xd.data(), s.f.data(), nullptr, &dt) == MOORDYN_INVALID_VALUE; } });
	t.push_back({ "vec:Step-null-dt", [](Sys& s) { double tt = 0; return MoorDyn_Step(s.md, s.x.data(), s.xd.data(), s.f.data(), &tt, nullptr) == MOORDYN_INVALID_VALUE; } });
	t.push_back({ "vec:GetForces-null", [](Sys& s) { if (!s.ndof) return true; double tt = 0, dt = 0; return MoorDyn_Step(s.md, s.x.data(), s.xd.data(), nullptr, &tt, &dt) == MOORDYN_INVALID_VALUE; } });
	return t;
}

/// valid numbers give the object with that number
static void
valid(Ctx& c, Sys& s, const Model& m)
{
	unsigned n;
	int id;
	must(MoorDyn_GetNumberBodies(s.md, &n), "n");
	c.req(n == m.bodies.size(), "count", sfmt("%u bodies", n));
	for (unsigned k = 1; k <= n; k++) {
		auto h = MoorDyn_GetBody(s.md, k);
		c.req(h && MoorDyn_GetBodyID(h, &id) == 0 && id == (int)k, "id", sfmt("body %u has ID %d", k, id));
	}
	must(MoorDyn_GetNumberRods(s.md, &n), "n");
	c.req(n == m.rods.size(), "count", sfmt("%u rods", n));
	for (unsigned k = 1; k <= n; k++) {
		auto h = MoorDyn_GetRod(s.md, k);
		c.req(h && MoorDyn_GetRodID(h, &id) == 0 && id == (int)k, "id", sfmt("rod %u has ID %d", k, id));
	}
	must(MoorDyn_GetNumberPoints(s.md, &n), "n");
	c.req(n == m.points.size(), "count", sfmt("%u points", n));
	for (unsigned k = 1; k <= n; k++) {
		auto h = MoorDyn_GetPoint(s.md, k);
		c.req(h && MoorDyn_GetPointID(h, &id) == 0 && id == (int)k, "id", sfmt("point %u has ID %d", k, id));
	}
	must(MoorDyn_GetNumberLines(s.md, &n), "n");
	c.req(n == m.lines.size(), "count", sfmt("%u lines", n));
	for (unsigned k = 1; k <= n; k++) {
		auto h = MoorDyn_GetLine(s.md, k);
		c.req(h && MoorDyn_GetLineID(h, &id) == 0 && id == (int)k, "id", sfmt("line %u has ID %d", k, id));
	}
}

static std::map<string, vector<dv>> twins;

static vector<dv>
run(Ctx& c, const Model& m, const string& tag, int stage, const vector<Misuse>& mis)
{
	vector<dv> tr;
	Sys s;
	if (!s.create(m, c.dir, tag))
		c.fail("create", "Create failed");
	m.motion(0, s.x, s.xd);
	s.f.assign(s.x.size() + 6, 0.0);
	auto hit = [&](const char* when) {
		for (auto& u : mis) {
			c.trans();
			c.req(u.call(s), "not-reported", u.name + " " + when + ": no error was returned");
		}
	};
	if (stage == 0)
		hit("before Init");
	must(s.init(), "Init");
	if (stage == 1)
		hit("after Init");
	for (int k = 0; k < 3; k++) {
		must(s.step(0.02), "Step");
		c.trans();
		if (stage == 2 && k == 0)
			hit("after a step");
		if (stage == 3)
			hit("at every step");
		tr.push_back(s.obs());
		tr.push_back(s.forces());
		tr.push_back({ s.t });
		c.state(tr[tr.size() - 3]);
	}
	valid(c, s, m);
	return tr;
}

void
vf::enumerate(Cases& cs, const string& tier)
{
	auto T = table();
	auto compare = [](Ctx& c, const Model& m, int stage, const vector<Misuse>& mis) {
		if (!twins.count(m.name))
			twins[m.name] = run(c, m, "twin", 9, {});
		auto tr = run(c, m, "m", stage, mis);
		auto& tw = twins[m.name];
		for (size_t i = 0; i < tr.size(); i++)
			c.nearv(tr[i], tw[i], 1e-12, 1e-12, "effect", sfmt("observation %zu differs from the undisturbed run", i));
		c.trace();
	};
	for (auto& m0 : all_systems()) {
		Model m = m0;
		m.scheme("rk2");
		bool main = m.name == "mixed" || m.name == "chain" || tier == "thorough";
		// one by one for some systems, all of them at once for every system
		if (main)
			for (auto& u : T)
				for (int st = 0; st < 3; st++) {
					// a vector call before Init is a Step before Init
					if (st == 0 && u.name.compare(0, 4, "vec:") == 0)
						continue;
					vector<Misuse> one = { u };
					cs.push_back({ m.name + ":" + sfmt("%d", st) + ":" + u.name, [=](Ctx& c) { compare(c, m, st, one); } });
				}
		for (int st = 0; st < 4; st++) {
			vector<Misuse> all;
			for (auto& u : T)
				if (st || u.name.compare(0, 4, "vec:"))
					all.push_back(u);
			cs.push_back({ m.name + sfmt(":%d:all", st), [=](Ctx& c) { compare(c, m, st, all); } });
		}
	}
	// Life cycle: calls out of order
	for (auto& m0 : all_systems()) {
		Model m = m0;
		m.scheme("rk2");
		cs.push_back({ "order:getters:" + m.name, [=](Ctx& c) {
			              Sys s;
			              if (!s.create(m, c.dir))
				              c.fail("create", "Create failed");
			              s.obs(true);
			              valid(c, s, m);
			              c.trans();
		              } });
		cs.push_back({ "order:null-init:" + m.name, [=](Ctx& c) {
			              Sys s;
			              if (!s.create(m, c.dir))
				              c.fail("create", "Create failed");
			              if (!s.ndof)
				              return;
			              dv x = m.x0, v(m.x0.size(), 0.0);
			              c.trans(4);
			              c.req(MoorDyn_Init(s.md, nullptr, v.data()) == MOORDYN_INVALID_VALUE, "not-reported", "Init with null x");
			              c.req(MoorDyn_Init(s.md, x.data(), nullptr) == MOORDYN_INVALID_VALUE, "not-reported", "Init with null xd");
			              c.req(MoorDyn_Init_NoIC(s.md, nullptr, v.data()) == MOORDYN_INVALID_VALUE, "not-reported", "Init_NoIC with null x");
			              c.req(MoorDyn_Init_NoIC(s.md, x.data(), nullptr) == MOORDYN_INVALID_VALUE, "not-reported", "Init_NoIC with null xd");
			              must(s.init(), "Init");
			              must(s.step(0.02), "Step");
			              if (!twins.count(m.name))
				              twins[m.name] = run(c, m, "twin", 9, {});
			              c.nearv(s.obs(), twins[m.name][0], 1e-12, 1e-12, "effect", "first step after refused initialisations");
		              } });
	}
}
