// C03: determinism and independence of the systems
#define VF_MAIN
#include "md.hpp"
#include <alloca.h>
#include <new>
using namespace vf;

// Every heap block handed out is filled with a pattern, so that reading memory
// that was never written gives different results for different patterns
static int g_fill = -1;
static void*
filled(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	if (g_fill >= 0)
		memset(p, g_fill, n);
	return p;
}
static void*
filled(size_t n, size_t al)
{
	void* p = nullptr;
	if (posix_memalign(&p, std::max(al, sizeof(void*)), n ? n : 1))
		throw std::bad_alloc();
	if (g_fill >= 0)
		memset(p, g_fill, n);
	return p;
}
void* operator new(size_t n) { return filled(n); }
void* operator new[](size_t n) { return filled(n); }
void* operator new(size_t n, std::align_val_t a) { return filled(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return filled(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

static void __attribute__((noinline))
dirty_stack(int v)
{
	const size_t n = 192 * 1024;
	volatile char* p = (volatile char*)alloca(n);
	memset((void*)p, v, n);
	__asm__ volatile("" ::"r"(p) : "memory");
}

namespace {

/// One actor: a system and the list of operations it performs. What each
/// operation lets the caller see is appended to `seen`.
struct Actor
{
	const Model* m;
	string ops, tag, dir;
	Sys s;
	size_t pc = 0;
	vector<dv> seen;
	uint64_t* buf = nullptr;
	size_t nbuf = 0;
	Actor(const Model& mm, const string& o, const string& d, const string& t)
	  : m(&mm)
	  , ops(o)
	  , tag(t)
	  , dir(d)
	{
	}
	~Actor()
	{
		if (buf)
			free(buf);
	}
	bool done() const { return pc >= ops.size(); }
	void next(Ctx& c)
	{
		char o = ops[pc++];
		dv see{ (double)o };
		switch (o) {
			case 'C':
				see.push_back(s.create(*m, dir, tag));
				see.push_back(s.ndof);
				break;
			case 'I':
				see.push_back(s.init());
				break;
			case 'J':
				see.push_back(s.init(false));
				break;
			case 'S':
				see.push_back(s.step(0.02));
				break;
			case 'V': { // write the state in memory
				size_t n = 0;
				see.push_back(MoorDyn_Serialize(s.md, &n, nullptr));
				if (buf)
					free(buf);
				buf = (uint64_t*)malloc(n);
				nbuf = n;
				see.push_back(MoorDyn_Serialize(s.md, nullptr, buf));
				see.push_back((double)n);
				for (size_t i = 0; i + 8 <= n; i += 8)
					see.push_back((double)(buf[i / 8] >> 11) +
					              0.5 * (double)(buf[i / 8] & 2047));
				break;
			}
			case 'R': // and back
				see.push_back(MoorDyn_Deserialize(s.md, buf));
				break;
			case 'D': { // files
				string f = dir + "/" + tag + "/state.bin";
				see.push_back(MoorDyn_Save(s.md, f.c_str()));
				see.push_back(MoorDyn_Load(s.md, f.c_str()));
				break;
			}
			case 'X':
				see.push_back(s.close());
				break;
			case 'F': { // failures
				see.push_back(
				    MoorDyn_Create((dir + "/nothing.txt").c_str()) != nullptr);
				Model b = *m;
				b.points.push_back("9 Nonsense");
				b.lines.push_back("9 nothing 77 78 1 1 -");
				Sys q;
				see.push_back(q.create(b, dir, tag + "f"));
				break;
			}
		}
		if (s.md && o != 'C') {
			dv ob = s.obs();
			see.insert(see.end(), ob.begin(), ob.end());
			see.insert(see.end(), s.f.begin(), s.f.end());
			see.push_back(s.t);
		}
		seen.push_back(see);
		c.trans();
		c.state(see);
	}
};

vector<dv>
solo(Ctx& c, const Model& m, const string& ops, const string& tag)
{
	Actor a(m, ops, c.dir, tag);
	while (!a.done())
		a.next(c);
	return a.seen;
}

void
same_seen(Ctx& c,
          const vector<dv>& a,
          const vector<dv>& b,
          const string& sig,
          const string& what)
{
	for (size_t i = 0; i < b.size(); i++) {
		c.req(a[i].size() == b[i].size(), sig, what + sfmt(": operation %zu", i));
		for (size_t j = 0; j < a[i].size(); j++) {
			c.checks++;
			// identical bits, NaNs included
			if (memcmp(&a[i][j], &b[i][j], 8) && a[i][j] != b[i][j])
				c.fail(sig,
				       what + sfmt(": operation %zu '%c' entry %zu: %.17g "
				                   "instead of %.17g",
				                   i,
				                   (char)a[i][0],
				                   j,
				                   a[i][j],
				                   b[i][j]));
		}
	}
}

/// every interleaving of the operations of several actors
void
interleave(Ctx& c,
           const vector<Model>& ms,
           const vector<string>& ops,
           bool share)
{
	vector<vector<dv>> ref;
	for (size_t i = 0; i < ms.size(); i++)
		ref.push_back(solo(c, ms[i], ops[i], sfmt("ref%zu", share ? 0 : i)));
	string word; // actor of each turn, as the sorted first permutation
	for (size_t i = 0; i < ms.size(); i++)
		word += string(ops[i].size(), '0' + i);
	do {
		vector<std::unique_ptr<Actor>> as;
		for (size_t i = 0; i < ms.size(); i++)
			as.emplace_back(
			    new Actor(ms[i], ops[i], c.dir, sfmt("a%zu", share ? 0 : i)));
		for (char w : word)
			as[w - '0']->next(c);
		for (size_t i = 0; i < as.size(); i++)
			same_seen(c,
			          as[i]->seen,
			          ref[i],
			          "interference",
			          sfmt("schedule %s, system %zu (%s)",
			               word.c_str(),
			               i,
			               ms[i].name.c_str()));
		c.trace();
	} while (std::next_permutation(word.begin(), word.end()));
	c.outcome(ref[0].back());
}

/// repeated runs, with different garbage in the memory
void
repeat(Ctx& c, const Model& m, const string& ops)
{
	g_fill = -1;
	auto ref = solo(c, m, ops, "r");
	for (int f : { 0x00, 0x3f, 0x40, 0x7f, 0xaa, 0xff }) {
		g_fill = f;
		Actor a(m, ops, c.dir, "r");
		while (!a.done()) {
			dirty_stack(f);
			a.next(c);
		}
		g_fill = -1;
		same_seen(c, a.seen, ref, "determinism", sfmt("memory garbage 0x%02x", f));
		c.trace();
	}
	c.outcome(ref.back());
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	auto all = all_systems();
	for (auto& m : all)
		for (auto& sch : all_schemes()) {
			Model q = m;
			q.scheme(sch);
			cases.push_back({ "repeat/" + m.name + "/" + sch, [q](Ctx& c) {
				                 repeat(c, q, "CISSVSRSX");
			                 } });
		}
	for (auto& m : all) {
		Model q = m;
		q.opt("TmaxIC", 0.6);
		cases.push_back({ "repeatic/" + m.name,
			              [q](Ctx& c) { repeat(c, q, "CJSSVSRSX"); } });
	}
	const char* sch[] = { "rk2", "rk4", "euler", "aca4", "heun", "midpoint3" };
	for (size_t i = 0; i < all.size(); i++)
		for (size_t j = i; j < all.size(); j++)
			for (int k = 0; k < (th ? 3 : 1); k++) {
				Model a = all[i], b = all[j];
				a.scheme(sch[(i + k) % 6]);
				b.scheme(sch[(i == j ? i + k : j + 2 + k) % 6]);
				if (i == j)
					b = a;
				bool share = i == j;
				string nm = a.name + "+" + b.name + sfmt("/%d", k);
				cases.push_back({ "pair/" + nm, [a, b, share, th](Ctx& c) {
					                 interleave(c,
					                            { a, b },
					                            { "CISSX", th ? "CISVSRX" : "CISSX" },
					                            share);
				                 } });
				if (th || j == i || j == i + 1) {
					cases.push_back({ "state/" + nm, [a, b, share](Ctx& c) {
						                 interleave(c,
						                            { a, b },
						                            { "CISVSRX", "CISDX" },
						                            false);
					                 } });
					cases.push_back({ "fail/" + nm, [a, b, share](Ctx& c) {
						                 interleave(c,
						                            { a, b },
						                            { "CISSX", "FFCFX" },
						                            false);
					                 } });
				}
			}
	for (size_t i = 0; i < all.size(); i++) {
		Model a = all[i], b = all[(i + 1) % all.size()],
		      d = all[(i + 5) % all.size()];
		a.scheme(sch[i % 6]);
		b.scheme(sch[(i + 1) % 6]);
		d.scheme(sch[(i + 4) % 6]);
		cases.push_back({ "triple/" + a.name + "+" + b.name + "+" + d.name,
			              [a, b, d, th](Ctx& c) {
				              interleave(c,
				                         { a, b, d },
				                         { th ? "CISS" : "CIS", "CIS", "CIX" },
				                         false);
			              } });
	}
}
