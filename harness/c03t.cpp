// C03: systems driven from different threads at once (run under TSan)
#define VF_MAIN
#include "md.hpp"
#include <atomic>
#include <thread>
using namespace vf;

namespace {

vector<dv>
drive(const Model& m, const string& dir, const string& tag, int k)
{
	vector<dv> seen;
	Sys s;
	if (!s.create(m, dir, tag)) {
		seen.push_back({ -1 });
		return seen;
	}
	seen.push_back({ (double)s.init(k % 2 == 0) });
	for (int i = 0; i < 3; i++) {
		seen.push_back({ (double)s.step(0.02) });
		seen.push_back(s.obs());
		seen.push_back(s.forces());
	}
	size_t n = 0;
	MoorDyn_Serialize(s.md, &n, nullptr);
	vector<uint64_t> b(n / 8 + 1);
	MoorDyn_Serialize(s.md, nullptr, b.data());
	seen.push_back({ (double)s.step(0.02) });
	seen.push_back({ (double)MoorDyn_Deserialize(s.md, b.data()) });
	seen.push_back({ (double)s.step(0.02) });
	seen.push_back(s.obs());
	MoorDyn bad = MoorDyn_Create((dir + "/" + tag + "/nothing").c_str());
	seen.push_back({ (double)(bad != nullptr) });
	seen.push_back({ (double)s.close() });
	return seen;
}

void
threads_case(Ctx& c, const vector<Model>& ms)
{
	vector<vector<dv>> ref, got(ms.size());
	for (size_t i = 0; i < ms.size(); i++)
		ref.push_back(drive(ms[i], c.dir, sfmt("r%zu", i), i));
	std::atomic<int> ready(0);
	vector<std::thread> th;
	for (size_t i = 0; i < ms.size(); i++)
		th.emplace_back([&, i]() {
			ready.fetch_add(1, std::memory_order_relaxed);
			while (ready.load(std::memory_order_relaxed) < (int)ms.size())
				std::this_thread::yield();
			try {
				got[i] = drive(ms[i], c.dir, sfmt("t%zu", i), i);
			} catch (const Violation& v) {
				got[i] = { { -77 } };
			}
		});
	for (auto& t : th)
		t.join();
	for (size_t i = 0; i < ms.size(); i++) {
		c.req(got[i].size() == ref[i].size(), "threads", ms[i].name);
		for (size_t j = 0; j < ref[i].size(); j++) {
			c.same(got[i][j], ref[i][j], "threads", ms[i].name + sfmt(" observation %zu", j));
			c.trans();
			c.state(ref[i][j]);
		}
	}
	c.outcome(ref[0].back());
	c.trace();
}

} // namespace

void
vf::enumerate(Cases& cases, const string& tier)
{
	bool th = tier == "thorough";
	auto all = all_systems();
	const char* sch[] = { "rk2", "rk4", "euler", "aca4", "heun", "midpoint3" };
	for (size_t i = 0; i < all.size(); i++)
		for (size_t j = i; j < all.size(); j++) {
			if (!th && j > i + 3)
				continue;
			Model a = all[i], b = all[j];
			a.scheme(sch[i % 6]);
			b.scheme(sch[(j + 1) % 6]);
			a.opt("TmaxIC", 0.2);
			b.opt("TmaxIC", 0.2);
			cases.push_back({ "threads/" + a.name + "+" + b.name,
				              [a, b](Ctx& c) { threads_case(c, { a, b }); } });
			if (j == i + 1 || th)
				cases.push_back({ "threads4/" + a.name + "+" + b.name,
					              [a, b](Ctx& c) {
						              threads_case(c, { a, b, b, a });
					              } });
		}
}
