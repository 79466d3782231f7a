// C23: logging. Every sequence of logging calls up to a depth against a model of
// the two thresholds and the log file; the inner messages are compared between
// the terminal and the log file for every threshold.
#define VF_MAIN
#include "md.hpp"
#include <fcntl.h>
#include <iostream>
#include <map>
#include <memory>
#include <regex>

using namespace vf;

namespace {

const int LEVELS[] = { MOORDYN_DBG_LEVEL, MOORDYN_MSG_LEVEL, MOORDYN_WRN_LEVEL, MOORDYN_ERR_LEVEL };
const int THRESH[] = { MOORDYN_DBG_LEVEL,
	                   MOORDYN_MSG_LEVEL,
	                   MOORDYN_WRN_LEVEL,
	                   MOORDYN_ERR_LEVEL,
	                   MOORDYN_NO_OUTPUT };
const char* TNAME[] = { "dbg", "msg", "wrn", "err", "none" };

string
slurp(const string& p)
{
	string o;
	int f = open(p.c_str(), O_RDONLY);
	if (f < 0)
		return o;
	char b[65536];
	ssize_t n;
	while ((n = read(f, b, sizeof b)) > 0)
		o.append(b, n);
	close(f);
	return o;
}

/// The terminal, whoever writes on it
struct Terminal
{
	int out, err, fd;
	string path;
	Terminal(const string& dir)
	  : path(dir + "/terminal")
	{
		flush();
		out = dup(1);
		err = dup(2);
		fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND | O_CLOEXEC, 0600);
		if (out < 0 || err < 0 || fd < 0)
			throw HarnessError{ "cannot capture the terminal" };
		dup2(fd, 1);
		dup2(fd, 2);
	}
	~Terminal()
	{
		flush();
		dup2(out, 1);
		dup2(err, 2);
		close(out);
		close(err);
		close(fd);
	}
	void flush()
	{
		std::cout.flush();
		std::cerr.flush();
		fflush(stdout);
		fflush(stderr);
	}
	/// which of the two streams is caught (1, 2, or both with 0)
	void watch(int which)
	{
		flush();
		int nul = open("/dev/null", O_WRONLY | O_CLOEXEC);
		dup2(which == 2 ? nul : fd, 1);
		dup2(which == 1 ? nul : fd, 2);
		close(nul);
	}
	/// what has been printed since the last call
	string take()
	{
		flush();
		string s = slurp(path);
		if (ftruncate(fd, 0))
			throw HarnessError{ "truncate" };
		return s;
	}
};

/// just the messages of the harness
string
ours(const string& s)
{
	string o;
	size_t i = 0;
	while ((i = s.find("@<", i)) != string::npos) {
		size_t j = s.find(">@", i);
		if (j == string::npos)
			return o + s.substr(i);
		o += s.substr(i, j + 2 - i);
		i = j + 2;
	}
	return o;
}

enum
{
	FILE1 = 10,
	FILE2,
	FILEBAD,
	NOP
};

string
opname(int k)
{
	if (k < 5)
		return string("verbosity-") + TNAME[k];
	if (k < 10)
		return string("level-") + TNAME[k - 5];
	return k == FILE1 ? "file1" : k == FILE2 ? "file2" : "badfile";
}

/// The model of a logger
struct Logger
{
	MoorDyn md = nullptr;
	string dir;
	int v = MOORDYN_MSG_LEVEL, l = MOORDYN_DBG_LEVEL;
	string file; // currently open
	std::map<string, string> text;
	int id = 0, n = 0;

	void apply(Ctx& c, int k, const string& w)
	{
		int e = 0;
		if (k < 5) {
			e = MoorDyn_SetVerbosity(md, THRESH[k]);
			v = THRESH[k];
		} else if (k < 10) {
			e = MoorDyn_SetLogLevel(md, THRESH[k - 5]);
			l = THRESH[k - 5];
		} else if (k == FILEBAD) {
			e = MoorDyn_SetLogFile(md, (dir + "/no/such/folder.log").c_str());
			c.req(e != 0, "badfile", w + ": an unusable log file is accepted");
			e = 0;
		} else {
			file = dir + (k == FILE1 ? "/one.log" : "/two.log");
			text[file] = "";
			e = MoorDyn_SetLogFile(md, file.c_str());
		}
		c.req(e == 0, "error", w + sfmt(": returned %d", e));
	}
	/// a message of each level
	void messages(Ctx& c, Terminal& t, const string& w)
	{
		t.take();
		for (int lev : LEVELS) {
			string m = sfmt("@<%d-%d-%d>@", id, n++, lev);
			int e = MoorDyn_Log(md, lev, (m + "\n").c_str());
			c.req(e == 0, "error", w + sfmt(": MoorDyn_Log returned %d", e));
			string got = ours(t.take());
			string want = lev >= v ? m : "";
			// all on the standard output but the errors, that go to the standard error
			const bool iserr = lev >= MOORDYN_ERR_LEVEL;
			string m2 = sfmt("@<%d-%d-%d>@", id, n++, lev);
			t.watch(1);
			MoorDyn_Log(md, lev, (m2 + "\n").c_str());
			string one = ours(t.take());
			t.watch(0);
			string want1 = lev >= v && !iserr ? m2 : "";
			if (one != want1)
				c.fail("stream",
				       w + sfmt(": a message of level %d with verbosity %d gives '%s' on the standard output",
				                lev, v, one.c_str()));
			if (got != want)
				c.fail("terminal",
				       w + sfmt(": a message of level %d with verbosity %d gives '%s' on the terminal", lev, v, got.c_str()));
			if (!file.empty() && lev >= l)
				text[file] += m + m2;
			c.trans(2);
		}
	}
	void files(Ctx& c, const string& w)
	{
		for (auto& f : text) {
			string got = ours(slurp(f.first));
			if (got != f.second)
				c.fail("file",
				       w + sfmt(": the log file %s has '%s' instead of '%s'",
				                f.first.substr(f.first.rfind('/') + 1).c_str(),
				                got.c_str(),
				                f.second.c_str()));
		}
	}
};

Model
small(int writelog)
{
	Model m = sys_chain();
	m.name = "log";
	m.del("writeLog");
	if (writelog >= 0)
		m.opt("writeLog", sfmt("%d", writelog));
	return m;
}

void
start(Ctx& c, Logger& g, const string& tag, int writelog)
{
	Model m = small(writelog);
	g.dir = c.dir + "/" + tag;
	mkdir(g.dir.c_str(), 0700);
	for (auto f : { "/one.log", "/two.log", "/m.log" })
		unlink((g.dir + f).c_str());
	write_file(g.dir + "/m.txt", m.text());
	g.md = MoorDyn_Create((g.dir + "/m.txt").c_str());
	c.req(g.md, "create", "the system cannot be created");
	// 0 no log file, 1 warnings, 2 messages, 3 everything
	if (writelog >= 0)
		g.l = writelog == 0   ? MOORDYN_NO_OUTPUT
		      : writelog == 1 ? MOORDYN_WRN_LEVEL
		      : writelog == 2 ? MOORDYN_MSG_LEVEL
		                      : MOORDYN_DBG_LEVEL;
	if (writelog > 0) {
		g.file = g.dir + "/m.log";
		g.text[g.file] = "";
	}
}

void
seq_case(Ctx& c, int writelog, int first)
{
	const int depth = (writelog < 0 ? 4 : 3) + (c.thorough() ? 1 : 0);
	Terminal t(c.dir);
	vector<int> q = { first };
	int n = 0;
	std::function<void()> rec = [&]() {
		if ((int)q.size() < depth) {
			for (int k = 0; k < NOP; k++) {
				q.push_back(k);
				rec();
				q.pop_back();
			}
			return;
		}
		Logger g;
		start(c, g, "s", writelog);
		string w = writelog >= 0 ? sfmt("writeLog %d", writelog) : "no writeLog";
		struct Closer
		{
			Logger& g;
			~Closer()
			{
				if (g.md)
					MoorDyn_Close(g.md);
			}
		} closer{ g };
		g.messages(c, t, w);
		for (int k : q) {
			w += " " + opname(k);
			g.apply(c, k, w);
			g.messages(c, t, w);
			c.state(dv{ (double)g.v, (double)g.l, (double)g.file.size() });
		}
		int e = MoorDyn_Close(g.md);
		g.md = nullptr;
		c.req(e == 0, "close", w + sfmt(": MoorDyn_Close returned %d", e));
		g.files(c, w);
		c.trace();
		n++;
	};
	rec();
	c.outcome(dv{ (double)n });
}

/// two systems: neither affects the other
void
pair_case(Ctx& c, int a)
{
	Terminal t(c.dir);
	for (int b = 0; b < NOP; b++)
		for (int order = 0; order < 2; order++) {
			Logger g[2];
			start(c, g[0], "a", 3);
			start(c, g[1], "b", 2);
			g[1].id = 1;
			string w = opname(a) + " on one, " + opname(b) + " on the other";
			g[order].apply(c, a, w);
			for (int i = 0; i < 2; i++)
				g[i].messages(c, t, w);
			g[1 - order].apply(c, b, w);
			for (int i = 0; i < 2; i++) {
				g[i].messages(c, t, w);
				c.state(dv{ (double)i, (double)g[i].v, (double)g[i].l, (double)g[i].file.size() });
			}
			MoorDyn_Close(g[order].md);
			g[1 - order].messages(c, t, w);
			MoorDyn_Close(g[1 - order].md);
			for (int i = 0; i < 2; i++)
				g[i].files(c, w);
			c.trace();
		}
	c.outcome(dv{ 2.0 });
}

// ------------------------------------------------------ inner messages -----

vector<string>
lines(string s)
{
	// the clock of the terminal, and the echo of the C interface
	s = std::regex_replace(s, std::regex("\rt = [-+.0-9e]+ "), "");
	for (auto& ch : s)
		if (ch == '\r')
			ch = '\n';
	vector<string> o;
	std::istringstream i(s);
	string l;
	while (std::getline(i, l)) {
		if (l.compare(0, 7, "Error (") == 0) {
			// the explanation might be on the next line
			if (l.back() == ':')
				std::getline(i, l);
			continue;
		}
		if (l.find_first_not_of(" \t\r") == string::npos)
			continue;
		o.push_back(l);
	}
	return o;
}

struct Script
{
	string name;
	Model m;
	int kind; // 0 regular, 1 the initialisation fails, 2 misuse while running
};

/// run the script, giving back the observables
dv
run_script(Ctx& c, const Script& s, const string& tag, int v, int l, string& log, string& term, Terminal& t)
{
	string d = c.dir + "/run";
	mkdir(d.c_str(), 0700);
	Sys y;
	(void)tag;
	if (!y.create(s.m, c.dir, "run"))
		c.fail("create", "the system cannot be created");
	string lf = c.dir + "/inner.log";
	unlink(lf.c_str());
	if (v >= 0)
		MoorDyn_SetVerbosity(y.md, v);
	MoorDyn_SetLogFile(y.md, lf.c_str());
	MoorDyn_SetLogLevel(y.md, l);
	t.take();
	dv o;
	int e = y.init(false);
	c.trans();
	o.push_back(e);
	c.req((e != 0) == (s.kind == 1), "init", sfmt("MoorDyn_Init returned %d", e));
	if (!e) {
		for (int i = 0; i < 6; i++) {
			e = y.step(0.02);
			c.trans();
			o.push_back(e);
			dv f = y.forces();
			o.insert(o.end(), f.begin(), f.end());
			if (s.kind == 2 && i == 3) {
				dv x = y.x, f0(64);
				double tt = y.t, dt = 0.02;
				o.push_back(MoorDyn_Step(y.md, nullptr, y.xd.data(), f0.data(), &tt, &dt));
				o.push_back(MoorDyn_Load(y.md, (c.dir + "/nothing").c_str()));
				o.push_back(MoorDyn_SetTimeScheme(y.md, "nonsense"));
			}
		}
		dv b = y.obs();
		o.insert(o.end(), b.begin(), b.end());
	}
	t.flush();
	term = t.take();
	y.close();
	t.take();
	log = slurp(lf);
	c.state(o);
	return o;
}

bool
submultiset(vector<string> a, vector<string> b, string& extra)
{
	std::sort(a.begin(), a.end());
	std::sort(b.begin(), b.end());
	vector<string> d;
	std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d));
	if (d.empty())
		return true;
	extra = d[0];
	return false;
}

/// some messages have no line end, and get the next one on the same line
bool
contained(const vector<string>& a, const vector<string>& b, string& extra)
{
	for (auto& l : a) {
		bool in = false;
		for (auto& k : b)
			in = in || k.find(l) != string::npos;
		if (!in) {
			extra = l;
			return false;
		}
	}
	return true;
}

vector<Script>
scripts()
{
	vector<Script> o;
	for (auto& m : all_systems()) {
		Script s{ m.name, m, 0 };
		s.m.del("writeLog");
		o.push_back(s);
	}
	Script s{ "misuse", sys_bridle(), 2 };
	s.m.del("writeLog");
	s.m.opt("TmaxIC", 0.3);
	o.push_back(s);
	s.name = "legacyic";
	s.kind = 0;
	s.m.opt("ICgenDynamic", 1);
	s.m.failure = { "1 2 1,2 0.05 1e9" };
	o.push_back(s);
	s.name = "refused";
	s.kind = 1;
	s.m.failure.clear();
	s.m.opt("ICgenDynamic", 0);
	s.m.opt("dtIC", 0.0);
	o.push_back(s);
	return o;
}

void
inner_case(Ctx& c, const Script& s)
{
	Terminal t(c.dir);
	vector<vector<string>> T, F;
	dv ref;
	string log, term;
	for (int i = 0; i < 5; i++) {
		dv o = run_script(c, s, "t", THRESH[i], MOORDYN_NO_OUTPUT, log, term, t);
		T.push_back(lines(term));
		if (!log.empty())
			c.fail("file-none", "the log file is written with the output disabled: " + log.substr(0, 80));
		if (i == 0)
			ref = o;
		else
			c.same(o, ref, "results", sfmt("results with verbosity %s", TNAME[i]));
		o = run_script(c, s, "f", MOORDYN_NO_OUTPUT, THRESH[i], log, term, t);
		F.push_back(lines(log));
		c.same(o, ref, "results", sfmt("results with log level %s", TNAME[i]));
		vector<string> rest = lines(term);
		if (!rest.empty() || term.find("t = ") != string::npos)
			c.fail("terminal-none",
			       sfmt("with no output asked for, and log level %s, the terminal gets '%s'",
			            TNAME[i],
			            rest.empty() ? "the time" : rest[0].c_str()));
		c.trace();
	}
	for (int i = 0; i < 5; i++) {
		string x;
		if (!submultiset(T[i], F[i], x))
			c.fail("terminal-file", sfmt("level %s: '%s' is printed on the terminal but not in the log", TNAME[i], x.c_str()));
		if (!submultiset(F[i], T[i], x))
			c.fail("terminal-file", sfmt("level %s: '%s' is in the log but not on the terminal", TNAME[i], x.c_str()));
		if (i && !contained(T[i], T[i - 1], x))
			c.fail("subset", sfmt("'%s' is printed with level %s but not %s", x.c_str(), TNAME[i], TNAME[i - 1]));
	}
	for (auto& l : T[0]) {
		bool w = l.compare(0, 4, "WRN ") == 0, e = l.compare(0, 4, "ERR ") == 0;
		for (int i = 0; i < 4; i++) {
			string x;
			bool in = contained({ l }, T[i], x);
			if ((w || e) && in != (i <= (w ? 2 : 3)))
				c.fail("level", sfmt("'%s' with verbosity %s", l.c_str(), TNAME[i]));
		}
	}
	if (!T[4].empty() || !F[4].empty())
		c.fail("none", "messages with the output disabled");
	if (s.kind)
		c.req(!T[3].empty(), "error-message", "an error is not reported");
	c.outcome(dv{ (double)T[0].size(), (double)T[1].size(), (double)T[2].size(), (double)T[3].size() });
}

/// writeLog: the log named after the input file, as verbose as asked for, and
/// the same results
void
writelog_case(Ctx& c, const Script& s)
{
	Terminal t(c.dir);
	dv ref;
	vector<vector<string>> W;
	for (int n = -1; n <= 5; n++) {
		Model m = s.m;
		if (n >= 0)
			m.opt("writeLog", sfmt("%d", n));
		Sys y;
		string lf = c.dir + "/w/m.log";
		unlink(lf.c_str());
		c.req(y.create(m, c.dir, "w"), "create", sfmt("writeLog %d: not created", n));
		int e = y.init(false);
		dv o{ (double)e };
		for (int i = 0; i < 4 && !e; i++) {
			o.push_back(y.step(0.02));
			dv f = y.forces();
			o.insert(o.end(), f.begin(), f.end());
			c.trans();
		}
		dv b = e ? dv() : y.obs();
		o.insert(o.end(), b.begin(), b.end());
		y.close();
		t.take();
		if (n < 0)
			ref = o;
		c.same(o, ref, "results", sfmt("results with writeLog %d", n));
		struct stat st;
		bool has = stat(lf.c_str(), &st) == 0;
		c.req(has == (n > 0), "writelog", sfmt("writeLog %d: the log file %s", n, has ? "exists" : "does not exist"));
		vector<string> l;
		for (auto& k : lines(slurp(lf)))
			if (k.find("v2 log file with output level") == string::npos)
				l.push_back(k);
		W.push_back(l);
		c.state(o);
		c.trace();
	}
	for (int i = 1; i < (int)W.size(); i++) {
		string x;
		if (!contained(W[i - 1], W[i], x))
			c.fail("writelog", sfmt("'%s' is logged with writeLog %d but not %d", x.c_str(), i - 2, i - 1));
	}
	// regular messages from 2, debugging ones from 3
	c.req(W[3].size() > W[2].size(), "writelog", "writeLog 2 adds nothing to writeLog 1");
	c.req(W[4].size() > W[3].size(), "writelog", "writeLog 3 adds nothing to writeLog 2");
	c.outcome(dv{ (double)W[2].size(), (double)W[3].size(), (double)W[4].size() });
}

} // namespace

void
vf::enumerate(Cases& cs, const string& tier)
{
	(void)tier;
	for (int w = -1; w <= 4; w++)
		for (int k = 0; k < NOP; k++)
			cs.push_back({ sfmt("seq/%d/%s", w, opname(k).c_str()), [=](Ctx& c) { seq_case(c, w, k); } });
	for (int k = 0; k < NOP; k++)
		cs.push_back({ "pair/" + opname(k), [=](Ctx& c) { pair_case(c, k); } });
	for (auto& s : scripts()) {
		Script z = s;
		cs.push_back({ "inner/" + z.name, [=](Ctx& c) { inner_case(c, z); } });
		cs.push_back({ "writelog/" + z.name, [=](Ctx& c) { writelog_case(c, z); } });
	}
}
