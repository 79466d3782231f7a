// C28: the VTK files hold the state of the objects. The library is built with
// VTK; every file it writes is read back and compared with the C getters.
#define VF_MAIN
#include "ref.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <vtkCellArray.h>
#include <vtkCellData.h>
#include <vtkDataArray.h>
#include <vtkMultiBlockDataSet.h>
#include <vtkObject.h>
#include <vtkPointData.h>
#include <vtkPoints.h>
#include <vtkPolyData.h>
#include <vtkSmartPointer.h>
#include <vtkXMLMultiBlockDataReader.h>
#include <vtkXMLPolyDataReader.h>

using namespace vf;
using namespace ref;

namespace {

const char* TRI = "solid s\nfacet normal 0 0 1\nouter loop\nvertex 1.5 0.5 0.25\n"
                  "vertex 0 2 0.75\nvertex -1 -0.5 1\nendloop\nendfacet\n"
                  "facet normal 0 1 0\nouter loop\nvertex 1.5 0.5 0.25\n"
                  "vertex 0 2 0.75\nvertex 0.5 0.5 -3\nendloop\nendfacet\n"
                  "endsolid s\n";
const char* POLY =
    "<?xml version=\"1.0\"?>\n<VTKFile type=\"PolyData\" version=\"0.1\" "
    "byte_order=\"LittleEndian\">\n<PolyData>\n<Piece NumberOfPoints=\"3\" "
    "NumberOfVerts=\"0\" NumberOfLines=\"0\" NumberOfStrips=\"0\" "
    "NumberOfPolys=\"1\">\n<Points>\n<DataArray type=\"Float32\" "
    "NumberOfComponents=\"3\" format=\"ascii\">\n2 0 0 0 3 0 0 0 "
    "-4\n</DataArray>\n</Points>\n<Polys>\n<DataArray type=\"Int64\" "
    "Name=\"connectivity\" format=\"ascii\">0 1 2</DataArray>\n<DataArray "
    "type=\"Int64\" Name=\"offsets\" "
    "format=\"ascii\">3</DataArray>\n</Polys>\n</Piece>\n</PolyData>\n</VTKFile>\n";

/// vertices of the meshes (in the order of the files; STL merges equal ones)
const vector<V3> M_AXES = { V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1) };
const vector<V3> M_TRI = { V3(1.5, 0.5, 0.25),
	                       V3(0, 2, 0.75),
	                       V3(-1, -0.5, 1),
	                       V3(0.5, 0.5, -3) };
const vector<V3> M_POLY = { V3(2, 0, 0), V3(0, 3, 0), V3(0, 0, -4) };
/// the cells of each mesh, as vertices
const vector<vector<int>> C_AXES = { { 0, 1 }, { 0, 2 }, { 0, 3 } };
const vector<vector<int>> C_TRI = { { 0, 1, 2 }, { 0, 1, 3 } };
const vector<vector<int>> C_POLY = { { 0, 1, 2 } };

bool
exists(const string& p)
{
	struct stat st;
	return stat(p.c_str(), &st) == 0;
}

struct Vtk
{
	Ctx& c;
	Model m;
	Sys s;
	int k = 0;
	bool linear;          // lines of linear elasticity
	bool moved = false;
	bool still;           // no waves or currents
	vector<int> mesh;     // per body: 0 axes, 1 stl, 2 vtp
	dv ext;               // external water velocities, line nodes first
	Vtk(Ctx& c_, const Model& m_)
	  : c(c_)
	  , m(m_)
	{
		c.req(s.create(m, c.dir), "create", "cannot create the system");
		linear = m.name != "nonlin";
		still = m.name.find("wave") == string::npos &&
		        m.name.find("current") == string::npos && m.name != "mixed";
	}
	void ok(int e, const char* what)
	{
		c.req(e == MOORDYN_SUCCESS, "vtk-error", sfmt("%s returned %d", what, e));
	}
	/// the calls which fail with objects and files which do not exist
	void wrong(int e, const string& what)
	{
		c.req(e != MOORDYN_SUCCESS, "vtk-no-error", what + " returned no error");
	}
	void nr(double a, double b, double tol, const string& sig, const string& what)
	{
		c.near(a, b, 0.0, tol, sig, what);
	}
	double tol(double v) const { return 2e-6 * (1.0 + fabs(v)); }
	void field(vtkFieldData* fd,
	           const char* name,
	           const string& who,
	           unsigned dim,
	           unsigned n,
	           std::function<void(unsigned, double*)> get,
	           double rel = 2e-6)
	{
		vtkDataArray* a =
		    fd ? vtkDataArray::SafeDownCast(fd->GetAbstractArray(name)) : nullptr;
		c.req(a != nullptr, "vtk-field", who + ": no field " + name);
		c.req((unsigned)a->GetNumberOfComponents() == dim &&
		          (unsigned)a->GetNumberOfTuples() == n,
		      "vtk-field",
		      sfmt("%s: field %s is %d x %d", who.c_str(), name,
		           (int)a->GetNumberOfTuples(), (int)a->GetNumberOfComponents()));
		double v[16], scale = 0.0;
		dv all;
		for (unsigned i = 0; i < n; i++) {
			for (auto& x : v)
				x = 0;
			get(i, v);
			for (unsigned j = 0; j < dim; j++) {
				all.push_back(v[j]);
				scale = std::max(scale, fabs(v[j]));
			}
		}
		for (unsigned i = 0; i < n; i++)
			for (unsigned j = 0; j < dim; j++) {
				double e = all[i * dim + j], g = a->GetComponent(i, j);
				nr(g, e, rel * (1e-3 + scale), string("vtk-") + name,
				        sfmt("%s: %s of %u, component %u", who.c_str(), name, i, j));
			}
	}
	void places(vtkPolyData* d, const string& who, const vector<V3>& r)
	{
		c.req(d && (size_t)d->GetNumberOfPoints() == r.size(), "vtk-points",
		      sfmt("%s: %d points, expected %d", who.c_str(),
		           d ? (int)d->GetNumberOfPoints() : -1, (int)r.size()));
		for (size_t i = 0; i < r.size(); i++) {
			double p[3];
			d->GetPoint(i, p);
			for (int j = 0; j < 3; j++)
				nr(p[j], r[i][j], tol(r[i][j]) + 1e-6 * r[i].norm(),
				        "vtk-points",
				        sfmt("%s: point %d, component %d", who.c_str(), (int)i, j));
		}
	}
	void cells(vtkPolyData* d, const string& who, const vector<vector<int>>& cs)
	{
		c.req((size_t)d->GetNumberOfCells() == cs.size(), "vtk-cells",
		      sfmt("%s: %d cells", who.c_str(), (int)d->GetNumberOfCells()));
		for (size_t i = 0; i < cs.size(); i++) {
			vtkCell* ce = d->GetCell(i);
			c.req((size_t)ce->GetNumberOfPoints() == cs[i].size(), "vtk-cells",
			      sfmt("%s: cell %d of %d points", who.c_str(), (int)i,
			           (int)ce->GetNumberOfPoints()));
			for (size_t j = 0; j < cs[i].size(); j++)
				c.req(ce->GetPointId(j) == cs[i][j], "vtk-cells",
				      sfmt("%s: cell %d joins %d", who.c_str(), (int)i,
				           (int)ce->GetPointId(j)));
		}
	}
	unsigned num(int (*f)(MoorDyn, unsigned*))
	{
		unsigned n;
		ok(f(s.md, &n), "GetNumber");
		return n;
	}
	void point(vtkPolyData* d, unsigned i)
	{
		auto p = MoorDyn_GetPoint(s.md, i);
		string who = sfmt("point %u", i);
		double v[9];
		MoorDyn_GetPointPos(p, v);
		places(d, who, { V3(v[0], v[1], v[2]) });
		cells(d, who, { { 0 } });
		auto* pd = d->GetPointData();
		field(pd, "rd", who, 3, 1,
		      [&](unsigned, double* o) { MoorDyn_GetPointVel(p, o); });
		field(pd, "Fnet", who, 3, 1, [&](unsigned, double* o) {
			MoorDyn_GetPointForce(p, o);
		});
		field(pd, "M", who, 9, 1, [&](unsigned, double* o) {
			MoorDyn_GetPointM(p, (double(*)[3])o);
		});
	}
	void rod(vtkPolyData* d, unsigned i)
	{
		auto p = MoorDyn_GetRod(s.md, i);
		string who = sfmt("rod %u", i);
		unsigned n;
		MoorDyn_GetRodNumberNodes(p, &n);
		vector<V3> r;
		double v[6];
		for (unsigned j = 0; j < n; j++) {
			MoorDyn_GetRodNodePos(p, j, v);
			r.push_back(V3(v[0], v[1], v[2]));
		}
		places(d, who, r);
		vector<int> ids;
		for (unsigned j = 0; j < n; j++)
			ids.push_back((int)j);
		cells(d, who, { ids });
		auto* pd = d->GetPointData();
		field(pd, "rd", who, 3, n,
		      [&](unsigned j, double* o) { MoorDyn_GetRodNodeVel(p, j, o); });
		// the net forces of the nodes add up to the net force of the rod
		vtkDataArray* a =
		    vtkDataArray::SafeDownCast(pd->GetAbstractArray("Fnet"));
		c.req(a && a->GetNumberOfComponents() == 3 &&
		          (unsigned)a->GetNumberOfTuples() == n,
		      "vtk-Fnet", who + ": no net forces");
		int type;
		MoorDyn_GetRodType(p, &type);
		MoorDyn_GetRodForce(p, v);
		V3 F = V3::Zero(), Mo = V3::Zero();
		double size = 1e-3;
		for (unsigned j = 0; j < n; j++) {
			double* t = a->GetTuple(j);
			V3 f(t[0], t[1], t[2]);
			F = F + f;
			Mo = Mo + (r[j] - r[0]).cross(f);
			size += f.norm();
		}
		// (the coupled rods' one holds their inertia as well)
		if (type != -1 && type != -2)
			for (int j = 0; j < 3; j++)
				nr(F[j], v[j], 1e-5 * size, "vtk-Fnet",
				        sfmt("%s: sum of the nodes' forces, component %d",
				             who.c_str(), j));
	}
	void line(vtkPolyData* d, unsigned i)
	{
		auto p = MoorDyn_GetLine(s.md, i);
		string who = sfmt("line %u", i);
		unsigned n;
		MoorDyn_GetLineNumberNodes(p, &n);
		vector<V3> r, rd;
		vector<vector<int>> cs;
		double v[9], L, EA;
		for (unsigned j = 0; j < n; j++) {
			MoorDyn_GetLineNodePos(p, j, v);
			r.push_back(V3(v[0], v[1], v[2]));
			MoorDyn_GetLineNodeVel(p, j, v);
			rd.push_back(V3(v[0], v[1], v[2]));
			if (j)
				cs.push_back({ (int)j - 1, (int)j });
		}
		places(d, who, r);
		cells(d, who, cs);
		auto* pd = d->GetPointData();
		auto* cd = d->GetCellData();
		field(pd, "rd", who, 3, n,
		      [&](unsigned j, double* o) { MoorDyn_GetLineNodeVel(p, j, o); });
		field(pd, "Fnet", who, 3, n,
		      [&](unsigned j, double* o) { MoorDyn_GetLineNodeForce(p, j, o); });
		field(pd, "Drag", who, 3, n,
		      [&](unsigned j, double* o) { MoorDyn_GetLineNodeDrag(p, j, o); });
		field(pd, "Kurv", who, 1, n,
		      [&](unsigned j, double* o) { MoorDyn_GetLineNodeCurv(p, j, o); });
		field(pd, "M", who, 9, n, [&](unsigned j, double* o) {
			MoorDyn_GetLineNodeM(p, j, (double(*)[3])o);
		});
		unsigned base = 0, nn;
		for (unsigned q = 1; q < i; q++) {
			MoorDyn_GetLineNumberNodes(MoorDyn_GetLine(s.md, q), &nn);
			base += nn;
		}
		if (still && ext.empty() && !moved)
			field(pd, "U", who, 3, n, [&](unsigned, double*) {});
		else if (ext.size())
			field(pd, "U", who, 3, n, [&](unsigned j, double* o) {
				for (int q = 0; q < 3; q++)
					o[q] = ext[3 * (base + j) + q];
			});
		// the segments, as they are after a very short step
		if (k == 1)
			return;
		MoorDyn_GetLineUnstretchedLength(p, &L);
		MoorDyn_GetLineConstantEA(p, &EA);
		double l = L / (n - 1);
		field(cd, "lstr", who, 1, n - 1, [&](unsigned j, double* o) {
			*o = (r[j + 1] - r[j]).norm();
		}, 1e-5);
		double vs = 1e-3;
		for (auto& x : rd)
			vs = std::max(vs, x.norm());
		vtkDataArray* ld = vtkDataArray::SafeDownCast(cd->GetAbstractArray("ldstr"));
		vtkDataArray* T = vtkDataArray::SafeDownCast(cd->GetAbstractArray("T"));
		vtkDataArray* F = vtkDataArray::SafeDownCast(cd->GetAbstractArray("F"));
		vtkDataArray* V = vtkDataArray::SafeDownCast(cd->GetAbstractArray("V"));
		c.req(ld && T && F && V && ld->GetNumberOfTuples() == n - 1 &&
		          T->GetNumberOfTuples() == n - 1 &&
		          F->GetNumberOfTuples() == n - 1 &&
		          V->GetNumberOfTuples() == n - 1 &&
		          T->GetNumberOfComponents() == 3,
		      "vtk-field", who + ": fields of the segments");
		for (unsigned j = 0; j + 1 < n; j++) {
			V3 dr = r[j + 1] - r[j];
			double ls = dr.norm();
			V3 q = dr * (1.0 / ls);
			nr(ld->GetComponent(j, 0), q.dot(rd[j + 1] - rd[j]), 2e-4 * vs + 1e-5,
			        "vtk-ldstr", sfmt("%s: ldstr of %u", who.c_str(), j));
			double f = F->GetComponent(j, 0);
			if (std::max(r[j].z(), r[j + 1].z()) < -1.0)
				nr(f, 1.0, 1e-6, "vtk-F",
				        sfmt("%s: submergence of %u", who.c_str(), j));
			c.req(f >= -1e-6 && f <= 1.0 + 1e-6, "vtk-F", who + ": submergence");
			nr(V->GetComponent(j, 0) * (n - 1),
			        V->GetComponent(0, 0) * (n - 1),
			        1e-6 * V->GetComponent(0, 0) * n, "vtk-V",
			        sfmt("%s: volume of %u", who.c_str(), j));
			if (linear) {
				double t = ls > l ? EA * (ls / l - 1.0) : 0.0;
				for (int a = 0; a < 3; a++)
					nr(T->GetComponent(j, a), t * q[a], 1e-5 * EA * ls / l,
					        "vtk-T",
					        sfmt("%s: tension of %u, component %d", who.c_str(), j, a));
			}
		}
	}
	void body(vtkPolyData* d, unsigned i)
	{
		auto p = MoorDyn_GetBody(s.md, i);
		string who = sfmt("body %u", i);
		double r[6], rd[6];
		MoorDyn_GetBodyState(p, r, rd);
		M3 R = euler(V3(r[3], r[4], r[5]));
		int k = mesh[i - 1];
		vector<V3> w;
		for (auto& a : k == 0 ? M_AXES : k == 1 ? M_TRI : M_POLY)
			w.push_back(R * a + V3(r[0], r[1], r[2]));
		places(d, who, w);
		cells(d, who, k == 0 ? C_AXES : k == 1 ? C_TRI : C_POLY);
	}
	vtkSmartPointer<vtkPolyData> load(const string& path)
	{
		c.req(exists(path), "vtk-file", "there is no file " + path.substr(c.dir.size()));
		auto rd = vtkSmartPointer<vtkXMLPolyDataReader>::New();
		rd->SetFileName(path.c_str());
		rd->Update();
		c.req(rd->GetErrorCode() == 0 && rd->GetOutput(), "vtk-file",
		      "the file cannot be read");
		return rd->GetOutput();
	}
	/// writes everything and compares it
	void check()
	{
		// a very short step, which makes forces those of the positions (the
		// one before takes the change of the coupled velocities)
		if (k++) {
			ok(s.step(1e-9), "Step");
			ok(s.raw_step(1e-9), "Step");
		}
		auto path = [&](const char* w, unsigned i, const char* x) {
			return c.dir + sfmt("/%s%d_%u.%s", w, k, i, x);
		};
		dv before = s.obs();
		unsigned nb = num(MoorDyn_GetNumberBodies), nrod = num(MoorDyn_GetNumberRods),
		         np = num(MoorDyn_GetNumberPoints), nl = num(MoorDyn_GetNumberLines);
		mesh.resize(nb, 0);
		for (unsigned i = 1; i <= nb; i++) {
			ok(MoorDyn_SaveBodyVTK(MoorDyn_GetBody(s.md, i),
			                       path("b", i, "vtp").c_str()),
			   "SaveBodyVTK");
			body(load(path("b", i, "vtp")), i);
		}
		for (unsigned i = 1; i <= np; i++) {
			ok(MoorDyn_SavePointVTK(MoorDyn_GetPoint(s.md, i),
			                        path("p", i, "vtp").c_str()),
			   "SavePointVTK");
			point(load(path("p", i, "vtp")), i);
		}
		for (unsigned i = 1; i <= nrod; i++) {
			ok(MoorDyn_SaveRodVTK(MoorDyn_GetRod(s.md, i),
			                      path("r", i, "vtp").c_str()),
			   "SaveRodVTK");
			rod(load(path("r", i, "vtp")), i);
		}
		for (unsigned i = 1; i <= nl; i++) {
			ok(MoorDyn_SaveLineVTK(MoorDyn_GetLine(s.md, i),
			                       path("l", i, "vtp").c_str()),
			   "SaveLineVTK");
			line(load(path("l", i, "vtp")), i);
		}
		// the whole system
		string f = path("s", 0, "vtm");
		ok(MoorDyn_SaveVTK(s.md, f.c_str()), "SaveVTK");
		c.req(exists(f), "vtk-file", "there is no file of the system");
		auto rd = vtkSmartPointer<vtkXMLMultiBlockDataReader>::New();
		rd->SetFileName(f.c_str());
		rd->Update();
		auto* mb = vtkMultiBlockDataSet::SafeDownCast(rd->GetOutput());
		c.req(mb && mb->GetNumberOfBlocks() == nb + np + nrod + nl, "vtk-blocks",
		      sfmt("%d blocks", mb ? (int)mb->GetNumberOfBlocks() : -1));
		for (unsigned i = 0; i < nb + np + nrod + nl; i++) {
			auto* d = vtkPolyData::SafeDownCast(mb->GetBlock(i));
			c.req(d != nullptr, "vtk-blocks", sfmt("no block %u", i));
			if (i < nb)
				body(d, i + 1);
			else if (i < nb + np)
				point(d, i - nb + 1);
			else if (i < nb + np + nrod)
				rod(d, i - nb - np + 1);
			else
				line(d, i - nb - np - nrod + 1);
		}
		c.same(s.obs(), before, "vtk-state", "the state before and after saving");
		c.state(before);
	}
	void misuse()
	{
		string no = c.dir + "/none/f.vtp", f = c.dir + "/x.vtp";
		unsigned nb = num(MoorDyn_GetNumberBodies), nrod = num(MoorDyn_GetNumberRods);
		wrong(MoorDyn_SaveVTK(nullptr, f.c_str()), "no system");
		wrong(MoorDyn_SaveBodyVTK(nullptr, f.c_str()), "no body");
		wrong(MoorDyn_SaveRodVTK(nullptr, f.c_str()), "no rod");
		wrong(MoorDyn_SavePointVTK(nullptr, f.c_str()), "no point");
		wrong(MoorDyn_SaveLineVTK(nullptr, f.c_str()), "no line");
		wrong(MoorDyn_UseBodyVTK(nullptr, f.c_str()), "no body");
		c.req(!exists(f), "vtk-no-error", "a file is written from nothing");
		write_file(c.dir + "/file", "x");
		wrong(MoorDyn_SaveVTK(s.md, (c.dir + "/file/f.vtm").c_str()),
		      "system, no folder");
		wrong(MoorDyn_SavePointVTK(MoorDyn_GetPoint(s.md, 1), no.c_str()),
		      "point, no folder");
		if (num(MoorDyn_GetNumberLines))
			wrong(MoorDyn_SaveLineVTK(MoorDyn_GetLine(s.md, 1), no.c_str()),
			      "line, no folder");
		if (nrod)
			wrong(MoorDyn_SaveRodVTK(MoorDyn_GetRod(s.md, 1), no.c_str()),
			      "rod, no folder");
		if (nb) {
			auto b = MoorDyn_GetBody(s.md, 1);
			wrong(MoorDyn_SaveBodyVTK(b, no.c_str()), "body, no folder");
			wrong(MoorDyn_UseBodyVTK(b, no.c_str()), "body, no vtp file");
			wrong(MoorDyn_UseBodyVTK(b, (c.dir + "/none.stl").c_str()),
			      "body, no stl file");
			for (const char* f : { "/g.vtp" })
				for (const char* w : { "", "x", "<?xml version=\"1.0\"?>\n<VTKFile/>\n" }) {
					write_file(c.dir + f, w);
					wrong(MoorDyn_UseBodyVTK(b, (c.dir + f).c_str()),
					      string("body, no mesh in ") + f);
				}
			write_file(c.dir + "/m.obj", POLY);
			wrong(MoorDyn_UseBodyVTK(b, (c.dir + "/m.obj").c_str()),
			      "body, other format");
			wrong(MoorDyn_UseBodyVTK(b, (c.dir + "/m").c_str()),
			      "body, no extension");
		}
	}
	void use(int k)
	{
		unsigned nb = num(MoorDyn_GetNumberBodies);
		string f = c.dir + (k == 1 ? "/mesh.STL" : "/me.sh.vtp");
		write_file(f, k == 1 ? TRI : POLY);
		for (unsigned i = 1; i <= nb; i += 2) {
			ok(MoorDyn_UseBodyVTK(MoorDyn_GetBody(s.md, i), f.c_str()), "UseBodyVTK");
			mesh[i - 1] = k;
		}
		unlink(f.c_str());
	}
	void water()
	{
		unsigned n = 0;
		ok(MoorDyn_ExternalWaveKinInit(s.md, &n), "ExternalWaveKinInit");
		if (!n)
			return;
		dv U(3 * n), A(3 * n, 0.0);
		for (unsigned i = 0; i < 3 * n; i++)
			U[i] = 0.01 * (double)((i * 7 + k) % 23) - 0.1;
		ok(MoorDyn_ExternalWaveKinSet(s.md, U.data(), A.data(), s.t),
		   "ExternalWaveKinSet");
		if (!m.name.compare(0, 3, "ext"))
			ext = U;
		else
			moved = true;
	}
	void length()
	{
		unsigned nl = num(MoorDyn_GetNumberLines);
		for (unsigned i = 1; i <= nl; i++) {
			auto l = MoorDyn_GetLine(s.md, i);
			double L;
			ok(MoorDyn_GetLineUnstretchedLength(l, &L), "GetLineUnstretchedLength");
			ok(MoorDyn_SetLineUnstretchedLength(l, L * (1.0 - 0.002 * i)),
			   "SetLineUnstretchedLength");
		}
	}
};

struct Op
{
	const char* name;
	std::function<void(Vtk&)> run;
};

vector<Op>
ops()
{
	return { { "step", [](Vtk& v) { v.ok(v.s.step(0.02), "Step"); } },
		     { "length", [](Vtk& v) { v.length(); } },
		     { "water", [](Vtk& v) { v.water(); } },
		     { "stl", [](Vtk& v) { v.use(1); } },
		     { "vtp", [](Vtk& v) { v.use(2); } },
		     { "misuse", [](Vtk& v) { v.misuse(); } } };
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	vtkObject::GlobalWarningDisplayOff();
	bool deep = tier == "thorough";
	vector<Model> sys = all_systems();
	{
		Model m = sys_mixed();
		m.name = "extmixed";
		m.opt("WaveKin", 1);
		sys.push_back(m);
		m = sys_cable();
		m.name = "extcable";
		m.opt("WaveKin", 1);
		sys.push_back(m);
	}
	for (auto& m : sys) {
		bool rich = m.name == "mixed" || m.name == "extmixed";
		int nop = (int)ops().size();
		int depth = deep ? (rich ? 4 : 3) : (rich ? 3 : 2), total = 1;
		for (int i = 0; i < depth; i++)
			total *= nop;
		for (int code = 0; code < total; code++) {
			string key = m.name;
			vector<int> seq;
			for (int i = 0, q = code; i < depth; i++, q /= nop) {
				seq.push_back(q % nop);
				key += string("/") + ops()[q % nop].name;
			}
			cases.push_back({ key, [=](Ctx& c) {
				Vtk v(c, m);
				v.ok(v.s.init(true), "Init");
				v.check();
				for (int q : seq) {
					ops()[q].run(v);
					v.check();
					c.trans(1);
				}
				c.outcome(v.s.obs());
				c.trace();
			} });
		}
	}
}
