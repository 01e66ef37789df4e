// Choice-sequence property-based testing engine (see DESIGN.md, "Engine").
//
// A property is a function that draws every random choice from a `Src` and
// checks an oracle. A case is the finite sequence of values it drew: that
// sequence is what gets mutated (coverage guided), shrunk and saved.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP
#include <array>
#include <cstdint>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt
{

struct Failure
{
	std::string what;
};

// Deterministic generator: splitmix64.
struct Rng
{
	uint64_t s;
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
};

// Constants compared against by the code under test (filled by the coverage
// callbacks).
auto dict_size() -> size_t;
auto dict_at(size_t i) -> uint64_t;

class Src
{
public:
	// Uniform in [0, n), n >= 1. Simplest value: 0.
	uint64_t draw(uint64_t n);

	uint32_t below(uint32_t n) { return static_cast<uint32_t>(draw(n)); }
	// Inclusive range. Simplest value: lo.
	int64_t range(int64_t lo, int64_t hi)
	{
		return lo + static_cast<int64_t>(
						draw(static_cast<uint64_t>(hi - lo) + 1U));
	}
	// True with probability num / den. Simplest value: false.
	bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
	bool coin() { return draw(2) != 0; }
	// Collection size in [0, max], biased towards small ones.
	uint32_t size(uint32_t max);
	// Length of a history: as size(), seldom several times longer, and once
	// in thousands of cases a hundred times.
	uint32_t steps(uint32_t max)
	{
		if(!chance(1, 100))
			return size(max);
		return below(max * (chance(1, 30) ? 150U : 6U) + 1U);
	}
	// Edge-biased integers.
	uint64_t bits(unsigned width);
	uint64_t u64() { return bits(64); }
	uint32_t u32() { return static_cast<uint32_t>(bits(32)); }
	uint16_t u16() { return static_cast<uint16_t>(bits(16)); }
	uint8_t u8() { return static_cast<uint8_t>(bits(8)); }
	int32_t i32() { return static_cast<int32_t>(u32()); }
	// Index picked with the given weights.
	size_t weighted(std::initializer_list<unsigned> w);
	size_t weighted(std::vector<unsigned> const& w);
	template<typename C>
	auto const& pick(C const& c)
	{
		return c[draw(c.size())];
	}

	// Implementation state.
	enum Mode
	{
		GEN,
		REPLAY,
		MUTATE, // Replay, then generate once the choices run out.
	} mode = GEN;
	Rng rng{0};
	uint64_t const* in = nullptr;
	size_t in_size = 0;
	size_t pos = 0;
	// Recorded choices (usually in memory shared with the parent).
	uint64_t* out = nullptr;
	size_t out_cap = 0;
	size_t out_size = 0;
	size_t* live = nullptr; // Follows out_size.
};

class Case
{
public:
	// Marks this case as non-trivial.
	void nontrivial() { nontrivial_ = true; }
	// Counts this case under a label (at most once per case and label).
	void label(char const* name) { labels_[name] = 1; }
	void count(char const* name, uint64_t n = 1) { counters_[name] += n; }
	// Feeds the semantic identity of the case.
	void mix(uint64_t v)
	{
		hash_ = (hash_ ^ v) * 0x9E3779B97F4A7C15ULL;
		hash_ ^= hash_ >> 29;
		mixed_ = true;
	}
	void mix(std::string const& s)
	{
		for(unsigned char ch : s)
			mix(ch);
		mix(s.size());
	}

	bool tracing = false;
	int trace_fd = -1; // Written at once, so that crashes leave a trace.
	template<typename... Args>
	void log(Args const&... args)
	{
		if(!tracing)
			return;
		std::ostringstream os;
		(os << ... << args);
		os << '\n';
		emit(os.str());
	}
	void emit(std::string const& line);

	bool nontrivial_ = false;
	bool mixed_ = false;
	uint64_t hash_ = 0xCBF29CE484222325ULL;
	std::map<std::string, uint64_t> labels_;
	std::map<std::string, uint64_t> counters_;
};

[[noreturn]] void fail(std::string what);

template<typename... Args>
[[noreturn]] void failf(Args const&... args)
{
	std::ostringstream os;
	(os << ... << args);
	fail(os.str());
}

// The arguments are only made when somebody wants to see them: no choices may
// be drawn in them.
#define LOG(c, ...)              \
	do                           \
	{                            \
		if((c).tracing)          \
			(c).log(__VA_ARGS__); \
	} while(0)

#define CHECK(cond, ...)                                              \
	do                                                                \
	{                                                                 \
		if(!(cond))                                                   \
			::pbt::failf("check failed: ", #cond, " ", ##__VA_ARGS__); \
	} while(0)

// clang-format off
#define CHECK_EQ(a, b, ...)                                                  \
	do                                                                       \
	{                                                                        \
		auto const& va_ = (a);                                               \
		auto const& vb_ = (b);                                               \
		if(!(va_ == vb_))                                                    \
			::pbt::failf("expected ", #a, " == ", #b, ", got ", va_,         \
			             " and ", vb_, " ", ##__VA_ARGS__);                  \
	} while(0)
// clang-format on

struct Property
{
	char const* id;
	// How cases are made, and what makes one non-trivial.
	char const* rule;
	// Cases per worker.
	uint64_t quick;
	uint64_t thorough;
	std::function<void(Src&, Case&)> run;
	// Rate of mutated (rather than freshly generated) cases, in percent.
	unsigned mutate_pct = 40;
	// Failures may depend on the timing of threads.
	bool races = false;
};

// Defined by each harness (under another name in those made of several).
#ifndef PBT_PROPERTIES
#define PBT_PROPERTIES properties
#endif
auto PBT_PROPERTIES() -> std::vector<Property>;

} // namespace pbt

#endif // VERIF_ENGINE_HPP
