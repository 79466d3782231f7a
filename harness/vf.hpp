// Core of the bounded-exhaustive explorer: every harness enumerates a finite,
// deterministic list of cases (executions); the driver (run.py) spreads the
// list over shards, attributes crashes and hangs to cases, and replays every
// failing case in a fresh process before reporting it.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

using std::string;
using std::vector;
typedef vector<double> dv;

inline string
sfmt(const char* fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}

inline uint64_t
fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) {
		h ^= c[i];
		h *= 1099511628211ull;
	}
	return h;
}

/// Thrown by a case when the property is violated
struct Violation
{
	string sig; // stable signature (what kind of failure), for known findings
	string msg;
};

/// Thrown when the harness itself cannot proceed (an error of the check)
struct HarnessError
{
	string msg;
};

struct Ctx
{
	string tier = "quick";
	string dir; // private scratch directory of this case (exists, empty)
	uint64_t transitions = 0;
	uint64_t checks = 0;
	uint64_t traces = 0;
	std::unordered_set<uint64_t> states;
	std::unordered_set<uint64_t> outcomes;
	bool thorough() const { return tier == "thorough"; }

	void state(const dv& v) { states.insert(fnv(v.data(), v.size() * 8)); }
	void outcome(const dv& v) { outcomes.insert(fnv(v.data(), v.size() * 8)); }
	void outcome(const string& s) { outcomes.insert(fnv(s.data(), s.size())); }
	void trans(uint64_t n = 1) { transitions += n; }
	void trace() { traces++; }

	[[noreturn]] void fail(const string& sig, const string& msg)
	{
		throw Violation{ sig, msg };
	}
	void req(bool ok, const string& sig, const string& msg)
	{
		checks++;
		if (!ok)
			throw Violation{ sig, msg };
	}
	/// |a-b| <= atol + rtol*max(|a|,|b|), NaN never matches
	void near(double a,
	          double b,
	          double rtol,
	          double atol,
	          const string& sig,
	          const string& what)
	{
		checks++;
		if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b) ||
		    std::fabs(a - b) >
		        atol + rtol * std::max(std::fabs(a), std::fabs(b)))
			throw Violation{ sig,
				             sfmt("%s: got %.17g expected %.17g (diff %.3g)",
				                  what.c_str(),
				                  a,
				                  b,
				                  a - b) };
	}
	void near(const dv& a,
	          const dv& b,
	          double rtol,
	          double atol,
	          const string& sig,
	          const string& what)
	{
		if (a.size() != b.size())
			throw Violation{ sig,
				             sfmt("%s: sizes differ %zu vs %zu",
				                  what.c_str(),
				                  a.size(),
				                  b.size()) };
		for (size_t i = 0; i < a.size(); i++)
			near(a[i], b[i], rtol, atol, sig, what + sfmt("[%zu]", i));
	}
	/// Compare vectors relative to the largest component of the reference
	void nearv(const dv& a,
	           const dv& b,
	           double rtol,
	           double atol,
	           const string& sig,
	           const string& what)
	{
		double m = 0;
		for (auto v : b)
			m = std::max(m, std::fabs(v));
		near(a, b, 0.0, atol + rtol * m, sig, what);
	}
	/// bit-exact comparison (0 == -0 accepted)
	void same(const dv& a, const dv& b, const string& sig, const string& what)
	{
		near(a, b, 0.0, 0.0, sig, what);
	}
};

struct Case
{
	string key;
	std::function<void(Ctx&)> run;
};
typedef vector<Case> Cases;

/// Provided by each harness: the complete list of cases for a tier
void
enumerate(Cases& cases, const string& tier);

inline void
rmtree(const string& d)
{
	// only ever called on directories created by this process
	string cmd = "rm -rf -- '" + d + "'";
	if (system(cmd.c_str())) {
	}
}

inline void
write_file(const string& path, const string& txt)
{
	std::ofstream f(path, std::ios::binary);
	f.write(txt.data(), txt.size());
	if (!f.good())
		throw HarnessError{ "cannot write " + path };
}

inline bool
read_file(const string& path, string& out)
{
	std::ifstream f(path, std::ios::binary);
	if (!f.is_open())
		return false;
	std::stringstream ss;
	ss << f.rdbuf();
	out = ss.str();
	return true;
}

inline string
jstr(const string& s)
{
	string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 0x20 || c >= 0x7f)
			o += sfmt("\\u%04x", c);
		else
			o += c;
	}
	return o + "\"";
}

} // namespace vf

// ---------------------------------------------------------------- main -----
#ifdef VF_MAIN
#include <dirent.h>

namespace vf {
inline void
clean_dir(const string& d)
{
	DIR* dp = opendir(d.c_str());
	if (!dp)
		return;
	vector<string> names;
	while (struct dirent* e = readdir(dp)) {
		string n = e->d_name;
		if (n != "." && n != "..")
			names.push_back(n);
	}
	closedir(dp);
	for (auto& n : names) {
		string p = d + "/" + n;
		struct stat st;
		if (lstat(p.c_str(), &st))
			continue;
		if (S_ISDIR(st.st_mode)) {
			clean_dir(p);
			rmdir(p.c_str());
		} else
			unlink(p.c_str());
	}
}
}

int
main(int argc, char** argv)
{
	using namespace vf;
	string tier = "quick", dir, out, replay, journal;
	bool list = false;
	long shard = 0, nshards = 1, from = 0, to = -1;
	long maxfail = 6;
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		auto nxt = [&]() -> string {
			if (i + 1 >= argc) {
				fprintf(stderr, "missing value for %s\n", a.c_str());
				exit(64);
			}
			return argv[++i];
		};
		if (a == "--tier")
			tier = nxt();
		else if (a == "--dir")
			dir = nxt();
		else if (a == "--out")
			out = nxt();
		else if (a == "--journal")
			journal = nxt();
		else if (a == "--replay")
			replay = nxt();
		else if (a == "--list")
			list = true;
		else if (a == "--shard") {
			shard = atol(nxt().c_str());
			nshards = atol(nxt().c_str());
		} else if (a == "--from")
			from = atol(nxt().c_str());
		else if (a == "--to")
			to = atol(nxt().c_str());
		else if (a == "--maxfail")
			maxfail = atol(nxt().c_str());
		else {
			fprintf(stderr, "bad argument %s\n", a.c_str());
			return 64;
		}
	}
	Cases cases;
	enumerate(cases, tier);
	{
		std::set<string> ks;
		for (auto& c : cases)
			if (!ks.insert(c.key).second) {
				fprintf(stderr, "duplicate case key %s\n", c.key.c_str());
				return 65;
			}
	}
	if (list) {
		for (size_t i = 0; i < cases.size(); i++)
			printf("%zu %s\n", i, cases[i].key.c_str());
		return 0;
	}
	// The library writes progress to the standard streams
	int real_out = dup(1);
	int devnull = open("/dev/null", O_WRONLY);
	dup2(devnull, 1);
	if (!getenv("VF_STDERR") && replay.empty())
		dup2(devnull, 2);
	FILE* rep = fdopen(real_out, "w");

	mkdir(dir.c_str(), 0700);
	Ctx total;
	total.tier = tier;
	if (!replay.empty()) {
		for (auto& c : cases) {
			if (c.key != replay)
				continue;
			Ctx ctx;
			ctx.tier = tier;
			ctx.dir = dir + "/c";
			mkdir(ctx.dir.c_str(), 0700);
			try {
				c.run(ctx);
			} catch (const Violation& v) {
				fprintf(rep, "FAIL %s\n%s\n", v.sig.c_str(), v.msg.c_str());
				fflush(rep);
				_exit(3);
			} catch (const HarnessError& v) {
				fprintf(rep, "HARNESS-ERROR %s\n", v.msg.c_str());
				fflush(rep);
				_exit(4);
			}
			fprintf(rep, "PASS\n");
			fflush(rep);
			_exit(0);
		}
		fprintf(rep, "NO-SUCH-CASE\n");
		fflush(rep);
		_exit(66);
	}
	int jfd = journal.empty()
	              ? -1
	              : open(journal.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	uint64_t ran = 0, nontrivial = 0;
	long nfail = 0;
	long last = from - 1;
	vector<string> samples;
	if (to < 0)
		to = (long)cases.size();
	string cdir = dir + "/c";
	mkdir(cdir.c_str(), 0700);
	for (long i = 0; i < (long)cases.size() && i < to; i++) {
		if (i % nshards != shard || i < from)
			continue;
		if (jfd >= 0) {
			char b[32];
			int n = snprintf(b, sizeof b, "%020ld\n", i);
			if (pwrite(jfd, b, n, 0) != n)
				return 67;
		}
		Ctx ctx;
		ctx.tier = tier;
		ctx.dir = cdir;
		try {
			cases[i].run(ctx);
		} catch (const Violation& v) {
			string one = sfmt("{\"i\":%ld,\"key\":", i) + jstr(cases[i].key) +
			             ",\"sig\":" + jstr(v.sig) + ",\"msg\":" +
			             jstr(v.msg) + "}\n";
			FILE* ff = fopen((out + ".fails").c_str(), "a");
			if (ff) {
				fputs(one.c_str(), ff);
				fclose(ff);
			}
			nfail++;
		} catch (const HarnessError& v) {
			fprintf(rep,
			        "HARNESS-ERROR case %s: %s\n",
			        cases[i].key.c_str(),
			        v.msg.c_str());
			fflush(rep);
			_exit(4);
		}
		clean_dir(cdir);
		last = i;
		ran++;
		if (ctx.checks > 0)
			nontrivial++;
		total.transitions += ctx.transitions;
		total.checks += ctx.checks;
		total.traces += ctx.traces;
		for (auto s : ctx.states)
			total.states.insert(s);
		for (auto s : ctx.outcomes)
			total.outcomes.insert(s);
		if (samples.size() < 3)
			samples.push_back(cases[i].key);
		if (nfail >= maxfail)
			break;
	}
	FILE* f = fopen(out.c_str(), "w");
	if (!f)
		return 68;
	fprintf(f,
	        "{\"cases_total\":%zu,\"ran\":%llu,\"nontrivial\":%llu,\"last\":%ld,"
	        "\"transitions\":%llu,\"checks\":%llu,\"traces\":%llu,",
	        cases.size(),
	        (unsigned long long)ran,
	        (unsigned long long)nontrivial,
	        last,
	        (unsigned long long)total.transitions,
	        (unsigned long long)total.checks,
	        (unsigned long long)total.traces);
	fprintf(f, "\"states\":[");
	bool first = true;
	for (auto s : total.states) {
		fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s);
		first = false;
	}
	fprintf(f, "],\"outcomes\":[");
	first = true;
	for (auto s : total.outcomes) {
		fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s);
		first = false;
	}
	fprintf(f, "],\"samples\":[");
	for (size_t i = 0; i < samples.size(); i++)
		fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
	fprintf(f, "]}\n");
	fclose(f);
	_exit(0);
}
#endif
