// Python embedded in the harness: the extension module is linked in and the
// Python sources are those of the repository.
#pragma once
#include <Python.h>
#include "md.hpp"

extern "C" PyObject*
PyInit_cmoordyn(void);

namespace {
using namespace vf;

PyObject* MOD = nullptr;

void
py_start()
{
	if (MOD)
		return;
	PyImport_AppendInittab("cmoordyn", PyInit_cmoordyn);
	PyConfig cfg;
	PyConfig_InitPythonConfig(&cfg);
	cfg.write_bytecode = 0;
	cfg.site_import = 0;
	cfg.install_signal_handlers = 0;
	PyStatus st = Py_InitializeFromConfig(&cfg);
	PyConfig_Clear(&cfg);
	if (PyStatus_Exception(st))
		throw HarnessError{ "cannot start Python" };
	const char* repo = getenv("VF_REPO");
	string p = string(repo ? repo : "/repo") + "/wrappers/python";
	PyObject* path = PySys_GetObject("path");
	PyObject* s = PyUnicode_FromString(p.c_str());
	PyList_Insert(path, 0, s);
	Py_DECREF(s);
	MOD = PyImport_ImportModule("moordyn");
	if (!MOD) {
		PyErr_Print();
		throw Violation{ "python-import", "the module cannot be imported" };
	}
}

/// owning reference
struct Ref
{
	PyObject* o = nullptr;
	Ref(PyObject* p = nullptr)
	  : o(p)
	{
	}
	Ref(const Ref& r)
	  : o(r.o)
	{
		Py_XINCREF(o);
	}
	Ref& operator=(const Ref& r)
	{
		Py_XINCREF(r.o);
		Py_XDECREF(o);
		o = r.o;
		return *this;
	}
	~Ref() { Py_XDECREF(o); }
	operator PyObject*() const { return o; }
};

Ref
num(double v)
{
	return Ref(PyFloat_FromDouble(v));
}
Ref
integer(long v)
{
	return Ref(PyLong_FromLong(v));
}
Ref
text(const string& s)
{
	return Ref(PyUnicode_FromString(s.c_str()));
}
Ref
none()
{
	Py_INCREF(Py_None);
	return Ref(Py_None);
}
Ref
list(const dv& v)
{
	PyObject* l = PyList_New((Py_ssize_t)v.size());
	for (size_t i = 0; i < v.size(); i++)
		PyList_SET_ITEM(l, (Py_ssize_t)i, PyFloat_FromDouble(v[i]));
	return Ref(l);
}
/// (n, 3) list of lists
Ref
list3(const dv& v)
{
	size_t n = v.size() / 3;
	PyObject* l = PyList_New((Py_ssize_t)n);
	for (size_t i = 0; i < n; i++) {
		Ref r = list(dv(v.begin() + 3 * i, v.begin() + 3 * i + 3));
		Py_INCREF(r.o);
		PyList_SET_ITEM(l, (Py_ssize_t)i, r.o);
	}
	return Ref(l);
}

struct Ans
{
	Ref val;
	string exc; // name of the exception, empty if none
	bool ok() const { return exc.empty(); }
};

Ans
call(const char* fn, const vector<Ref>& args)
{
	Ans a;
	Ref f(PyObject_GetAttrString(MOD, fn));
	if (!f.o) {
		PyErr_Clear();
		throw Violation{ "python-name", sfmt("moordyn.%s does not exist", fn) };
	}
	vector<Py_ssize_t> before;
	for (auto& r : args)
		before.push_back(Py_REFCNT(r.o));
	{
		Ref t(PyTuple_New((Py_ssize_t)args.size()));
		for (size_t i = 0; i < args.size(); i++) {
			Py_INCREF(args[i].o);
			PyTuple_SET_ITEM(t.o, (Py_ssize_t)i, args[i].o);
		}
		a.val = Ref(PyObject_CallObject(f, t));
	}
	if (!a.val.o) {
		PyObject *ty, *va, *tb;
		PyErr_Fetch(&ty, &va, &tb);
		a.exc = ty ? ((PyTypeObject*)ty)->tp_name : "nothing";
		Py_XDECREF(ty);
		Py_XDECREF(va);
		Py_XDECREF(tb);
	} else if (PyErr_Occurred()) {
		PyErr_Clear();
		throw Violation{ "python-stray-exception",
			             sfmt("moordyn.%s returned a value with an exception set",
			                  fn) };
	}
	for (size_t i = 0; i < args.size(); i++)
		if (Py_REFCNT(args[i].o) < before[i])
			throw Violation{ "python-refcount",
				             sfmt("moordyn.%s released its argument %d", fn,
				                  (int)i) };
	return a;
}

/// all the numbers in an answer, in order
void
flat(PyObject* o, dv& out)
{
	if (o == Py_None)
		return;
	if (PyFloat_Check(o) || PyLong_Check(o)) {
		out.push_back(PyFloat_Check(o) ? PyFloat_AS_DOUBLE(o)
		                               : (double)PyLong_AsLongLong(o));
		return;
	}
	if (PyTuple_Check(o) || PyList_Check(o)) {
		Ref s(PySequence_Fast(o, ""));
		for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(s.o); i++)
			flat(PySequence_Fast_GET_ITEM(s.o, i), out);
		return;
	}
	if (PyBytes_Check(o)) {
		for (Py_ssize_t i = 0; i < PyBytes_GET_SIZE(o); i++)
			out.push_back((unsigned char)PyBytes_AS_STRING(o)[i]);
		return;
	}
	throw Violation{ "python-type",
		             sfmt("unexpected answer of type %s", Py_TYPE(o)->tp_name) };
}
dv
flat(const Ref& r)
{
	dv o;
	flat(r.o, o);
	return o;
}

/// a call which has to succeed
dv
good(const char* fn, const vector<Ref>& args)
{
	Ans a = call(fn, args);
	if (!a.ok())
		throw Violation{ "python-raises",
			             sfmt("moordyn.%s raised %s", fn, a.exc.c_str()) };
	return flat(a.val);
}
Ref
goodref(const char* fn, const vector<Ref>& args)
{
	Ans a = call(fn, args);
	if (!a.ok())
		throw Violation{ "python-raises",
			             sfmt("moordyn.%s raised %s", fn, a.exc.c_str()) };
	return a.val;
}
/// a call which has to be refused with an exception of its own
void
bad(Ctx& c, const char* fn, const vector<Ref>& args, const char* what)
{
	Ans a = call(fn, args);
	c.req(!a.ok(), "python-accepts", sfmt("moordyn.%s with %s", fn, what));
	c.req(a.exc != "SystemError" && a.exc != "AttributeError" &&
	          a.exc != "NameError" && a.exc != "nothing",
	      "python-internal",
	      sfmt("moordyn.%s with %s raised %s", fn, what, a.exc.c_str()));
}

string
show(const dv& a)
{
	string s = "(";
	for (size_t i = 0; i < a.size() && i < 9; i++)
		s += sfmt("%s%.17g", i ? ", " : "", a[i]);
	return s + (a.size() > 9 ? ", ...)" : ")");
}

bool
identical(const dv& a, const dv& b)
{
	if (a.size() != b.size())
		return false;
	for (size_t i = 0; i < a.size(); i++)
		if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))))
			return false;
	return true;
}

} // namespace
