// Monitoring harness for FCollada: case loop, deterministic randomness, event recording.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
	int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo + 1)); }      // inclusive
	bool chance(int pct) { return (int) below(100) < pct; }
	double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
	float flt(float lo, float hi) { return lo + (float) (unit() * (hi - lo)); }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

namespace mon
{
	extern bool thorough;
	extern bool verbose;
	extern std::string tmpDir;
	extern uint64_t caseIndex;
	extern uint64_t seed;

	// A violation of the property under check, observed in the current case. The key identifies the
	// failing clause (and, if need be, the specific input class); the detail is the witness.
	void viol(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void hit(const std::string& name, uint64_t n = 1);       // counts an observed event
	void sig(uint64_t h);                                     // mixes into the case signature
	void sig(const std::string& s);
	void nontrivial();                                        // the case exercised what the rule asks for
	void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
	uint64_t violations();                                    // so far, in the current case
	uint64_t asserts();                                       // library assertions seen in the current case
	// While alive, library assertions are recorded but are not violations (hostile inputs).
	struct AllowAsserts { AllowAsserts(); ~AllowAsserts(); };
	std::string esc(const std::string& s);

	struct Prop { const char* id; void (*fn)(Rng&); const char* rule; uint64_t cpuLimitSec; };
	std::vector<Prop>& props();
	struct Reg { Reg(const char* id, void (*fn)(Rng&), const char* rule, uint64_t cpu = 60) { props().push_back(Prop{ id, fn, rule, cpu }); } };
}

#define PROP(id, rule) \
	static void prop_##id(Rng& r); \
	static mon::Reg reg_##id(#id, prop_##id, rule); \
	static void prop_##id(Rng& r)

// Reports at most the first few of the same key per case.
#define CHECK(cond, key, ...) do { if (!(cond)) mon::viol(key, __VA_ARGS__); } while (0)
