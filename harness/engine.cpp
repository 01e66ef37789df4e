#include "engine.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{

// ---------------------------------------------------------------- coverage

namespace
{

constexpr size_t MAX_REGIONS = 256;
struct Region
{
	uint8_t* b;
	uint8_t* e;
};
Region regions[MAX_REGIONS];
size_t region_count = 0;

constexpr size_t DICT_CAP = 4096;
uint64_t dict_[DICT_CAP];
size_t dict_size_ = 0;
constexpr size_t DICT_HASH = 16384;
uint64_t dict_hash_[DICT_HASH];
bool dict_used_[DICT_HASH];
bool in_case = false;

void dict_add(uint64_t v)
{
	if(!in_case || v < 3)
		return;
	size_t h = (v * 0x9E3779B97F4A7C15ULL) >> 50;
	for(size_t i = 0; i < 8; i++)
	{
		size_t k = (h + i) % DICT_HASH;
		if(!dict_used_[k])
		{
			if(dict_size_ == DICT_CAP)
				return;
			dict_used_[k] = true;
			dict_hash_[k] = v;
			dict_[dict_size_++] = v;
			return;
		}
		if(dict_hash_[k] == v)
			return;
	}
}

} // namespace

void Case::emit(std::string const& line)
{
	if(trace_fd >= 0 && write(trace_fd, line.data(), line.size()) < 0)
		trace_fd = -1;
}

auto dict_size() -> size_t
{
	return dict_size_;
}
auto dict_at(size_t i) -> uint64_t
{
	return dict_[i];
}

} // namespace pbt

extern "C"
{
	void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e)
	{
		using namespace pbt;
		if(b == e)
			return;
		for(size_t i = 0; i < region_count; i++)
			if(regions[i].b == b)
				return;
		if(region_count < MAX_REGIONS)
			regions[region_count++] = {b, e};
	}
	void __sanitizer_cov_pcs_init(uintptr_t const*, uintptr_t const*) {}
	void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
	void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
	void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
	void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
	void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t)
	{
		pbt::dict_add(a);
	}
	void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t)
	{
		pbt::dict_add(a);
	}
	void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t)
	{
		pbt::dict_add(a);
	}
	void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t)
	{
		pbt::dict_add(a);
	}
	void __sanitizer_cov_trace_switch(uint64_t, uint64_t*) {}
	void __sanitizer_cov_trace_div4(uint32_t) {}
	void __sanitizer_cov_trace_div8(uint64_t) {}
	void __sanitizer_cov_trace_gep(uintptr_t) {}
}

namespace pbt
{

// ------------------------------------------------------------------ choices

uint64_t Src::draw(uint64_t n)
{
	if(n == 0)
		std::abort();
	uint64_t v;
	if(mode == GEN || (mode == MUTATE && pos >= in_size))
	{
		v = rng.next() % n;
	}
	else if(pos < in_size)
	{
		v = in[pos];
		if(v >= n)
			v %= n;
	}
	else
	{
		v = 0;
	}
	pos++;
	if(out_size < out_cap)
	{
		out[out_size++] = v;
		if(live != nullptr)
			*live = out_size;
	}
	return v;
}

uint32_t Src::size(uint32_t max)
{
	if(max == 0)
		return 0;
	switch(draw(4))
	{
	case 0:
		return static_cast<uint32_t>(draw(std::min<uint32_t>(max, 2) + 1U));
	case 1:
	case 2:
		return static_cast<uint32_t>(draw(std::min<uint32_t>(max, 6) + 1U));
	default:
		return static_cast<uint32_t>(draw(max + 1ULL));
	}
}

uint64_t Src::bits(unsigned width)
{
	uint64_t const mask = width == 64 ? ~0ULL : ((1ULL << width) - 1U);
	switch(draw(12))
	{
	case 0:
	case 1:
	case 2:
		return draw(10) & mask;
	case 3:
	case 4:
		return draw(200) & mask;
	case 5:
	{
		uint64_t const v = 1ULL << draw(width);
		uint64_t const d = draw(3);
		return (d == 0 ? v : d == 1 ? v - 1U : v + 1U) & mask;
	}
	case 6:
		return (mask - draw(3)) & mask;
	case 7:
	{
		uint64_t const v = dict_size_ != 0 ? dict_[draw(dict_size_)] : draw(1);
		uint64_t const d = draw(4);
		return (d <= 1 ? v : d == 2 ? v - 1U : v + 1U) & mask;
	}
	case 8:
	{ // Few bits set.
		uint64_t v = 0;
		for(uint64_t i = draw(5); i != 0; i--)
			v |= 1ULL << draw(width);
		return v & mask;
	}
	case 9:
		return draw(1ULL << (width < 17 ? width : 17)) & mask;
	default:
	{
		if(width <= 32)
			return draw(1ULL << width);
		uint64_t const hi = draw(1ULL << 32);
		return ((hi << 32) | draw(1ULL << 32)) & mask;
	}
	}
}

size_t Src::weighted(std::vector<unsigned> const& w)
{
	uint64_t total = 0;
	for(auto x : w)
		total += x;
	uint64_t r = draw(total);
	for(size_t i = 0; i < w.size(); i++)
	{
		if(r < w[i])
			return i;
		r -= w[i];
	}
	return w.size() - 1;
}

size_t Src::weighted(std::initializer_list<unsigned> w)
{
	return weighted(std::vector<unsigned>(w));
}

[[noreturn]] void fail(std::string what)
{
	throw Failure{std::move(what)};
}

namespace
{

// ------------------------------------------------------------------ running

constexpr size_t CHOICES_CAP = 1U << 20;
constexpr unsigned WORKERS = 8;
constexpr int EXIT_FAILURE_FOUND = 3;

struct Shared // One per worker.
{
	volatile uint64_t index;    // Case being executed.
	volatile uint64_t executed; // Cases finished.
	volatile uint32_t in_case;
	volatile uint32_t failed;
	char what[4096];
	size_t choices_size;
	uint64_t choices[CHOICES_CAP];
};

Shared* new_shared(size_t n)
{
	void* p = mmap(nullptr, sizeof(Shared) * n, PROT_READ | PROT_WRITE,
	               MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED)
	{
		std::perror("mmap");
		std::exit(2);
	}
	return static_cast<Shared*>(p);
}

double now()
{
	timespec ts{};
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return static_cast<double>(ts.tv_sec) + 1e-9 * ts.tv_nsec;
}

// CPU time and memory guard: a case that uses 30 s of CPU or 3 GB of memory
// (a normal one needs milliseconds and megabytes) does not terminate properly.
constexpr unsigned GUARD_TICKS = 300;
volatile sig_atomic_t ticks_in_case = 0;

void on_tick(int)
{
	int const e = errno;
	ticks_in_case = ticks_in_case + 1;
	if(ticks_in_case > static_cast<sig_atomic_t>(GUARD_TICKS))
	{
		static char const m[] = "GUARD: case ran for over 30 s of CPU time\n";
		if(write(2, m, sizeof(m) - 1) < 0) {}
		_exit(97);
	}
	int fd = open("/proc/self/statm", O_RDONLY);
	if(fd >= 0)
	{
		char b[128];
		ssize_t n = read(fd, b, sizeof(b) - 1);
		close(fd);
		if(n > 0)
		{
			b[n] = 0;
			char const* p = b;
			while(*p != 0 && *p != ' ')
				p++;
			long rss = 0;
			while(*p == ' ')
				p++;
			while(*p >= '0' && *p <= '9')
				rss = rss * 10 + (*p++ - '0');
			if(rss > 3L * 1024 * 256)
			{
				static char const m[] = "GUARD: case used over 3 GB\n";
				if(write(2, m, sizeof(m) - 1) < 0) {}
				_exit(98);
			}
		}
	}
	errno = e;
}

void start_guard()
{
	struct sigaction sa{};
	sa.sa_handler = on_tick;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGPROF, &sa, nullptr);
	itimerval tv{};
	tv.it_interval.tv_usec = 100000;
	tv.it_value.tv_usec = 100000;
	setitimer(ITIMER_PROF, &tv, nullptr);
}

// Runs one case; true if it passed.
bool execute(Property const& p, Src& src, Case& c, Shared& sh)
{
	sh.failed = 0;
	sh.in_case = 1;
	ticks_in_case = 0;
	bool ok = true;
	in_case = true;
	try
	{
		p.run(src, c);
	}
	catch(Failure const& f)
	{
		ok = false;
		std::snprintf(sh.what, sizeof(sh.what), "%s", f.what.c_str());
		sh.failed = 1;
	}
	catch(std::exception const& e)
	{
		ok = false;
		std::snprintf(sh.what, sizeof(sh.what), "unexpected exception: %s",
		              e.what());
		sh.failed = 1;
	}
	in_case = false;
	if(ok)
		sh.in_case = 0;
	return ok;
}

struct Coverage
{
	std::vector<uint8_t> seen;
	size_t features = 0;
	Coverage()
	{
		size_t n = 0;
		for(size_t i = 0; i < region_count; i++)
			n += static_cast<size_t>(regions[i].e - regions[i].b);
		seen.assign(n, 0);
	}
	static void clear()
	{
		for(size_t i = 0; i < region_count; i++)
			std::memset(regions[i].b, 0,
			            static_cast<size_t>(regions[i].e - regions[i].b));
	}
	bool absorb()
	{
		bool fresh = false;
		size_t k = 0;
		for(size_t i = 0; i < region_count; i++)
			for(uint8_t* q = regions[i].b; q != regions[i].e; q++, k++)
			{
				uint8_t const v = *q;
				if(v == 0)
					continue;
				uint8_t const bucket = v >= 128  ? 128
				                       : v >= 32 ? 64
				                       : v >= 16 ? 32
				                       : v >= 8  ? 16
				                       : v >= 4  ? 8
				                       : v >= 3  ? 4
				                       : v >= 2  ? 2
				                                 : 1;
				if((seen[k] & bucket) == 0)
				{
					seen[k] |= bucket;
					features++;
					fresh = true;
				}
			}
		return fresh;
	}
};

using Choices = std::vector<uint64_t>;

Choices mutate(Choices base, std::vector<Choices> const& corpus, Rng& r)
{
	auto rnd = [&](uint64_t n) { return r.next() % n; };
	for(uint64_t n = 1 + rnd(4); n != 0; n--)
	{
		if(base.empty())
			base.push_back(rnd(256));
		switch(rnd(8))
		{
		case 0:
		case 1:
			base[rnd(base.size())] = rnd(1ULL << rnd(33));
			break;
		case 2:
			base[rnd(base.size())] += 1;
			break;
		case 3:
		{
			auto& v = base[rnd(base.size())];
			v -= v != 0;
			break;
		}
		case 4:
		{
			size_t b = rnd(base.size());
			size_t l = std::min<size_t>(1 + rnd(12), base.size() - b);
			base.erase(base.begin() + b, base.begin() + b + l);
			break;
		}
		case 5:
		{
			size_t b = rnd(base.size());
			size_t l = std::min<size_t>(1 + rnd(24), base.size() - b);
			Choices chunk(base.begin() + b, base.begin() + b + l);
			size_t at = rnd(base.size() + 1);
			base.insert(base.begin() + at, chunk.begin(), chunk.end());
			break;
		}
		case 6:
		{
			auto const& o = corpus[rnd(corpus.size())];
			if(o.empty())
				break;
			size_t b = rnd(o.size());
			size_t l = std::min<size_t>(1 + rnd(64), o.size() - b);
			size_t at = rnd(base.size() + 1);
			if(rnd(2) != 0)
				base.resize(at);
			base.insert(base.begin() + std::min(at, base.size()),
			            o.begin() + b, o.begin() + b + l);
			break;
		}
		default:
			base.resize(1 + rnd(base.size()));
			break;
		}
		if(base.size() > CHOICES_CAP)
			base.resize(CHOICES_CAP);
	}
	return base;
}

struct Options
{
	std::string prop;
	bool thorough = false;
	uint64_t seed = 1;
	double scale = 1.0;
	double time_cap = 420;
	std::string out;    // Result file.
	std::string tmp;    // Scratch directory.
	std::string replay; // Replay file to write.
	std::string replay_in;
};

uint64_t case_seed(uint64_t seed, unsigned worker, uint64_t index)
{
	Rng r{seed * 0x2545F4914F6CDD1DULL + worker * 0x9E3779B97F4A7C15ULL +
	      index * 0xD1342543DE82EF95ULL + 12345};
	r.next();
	return r.next();
}

struct WorkerState
{
	std::map<std::string, uint64_t> labels;
	std::map<std::string, uint64_t> counters;
	std::unordered_set<uint64_t> distinct;
	std::vector<Choices> samples;
	uint64_t nontrivial = 0;
	uint64_t corpus = 0;
	uint64_t features = 0;
};

// Executes cases [0, limit); stops after the first failure. `sh` tells the
// parent where we are at all times.
bool run_worker(Property const& p, Options const& o, unsigned w,
                uint64_t limit, double deadline, Shared& sh, WorkerState& st)
{
	Coverage cov;
	std::vector<Choices> corpus;
	uint64_t generated = 0;
	uint64_t generated_size = 0;
	for(uint64_t i = 0; i < limit; i++)
	{
		if(deadline > 0 && (i & 15U) == 0 && now() > deadline)
			break;
		Src src;
		src.rng.s = case_seed(o.seed, w, i);
		src.out = sh.choices;
		src.out_cap = CHOICES_CAP;
		src.live = &sh.choices_size;
		Choices base;
		if(!corpus.empty() && src.rng.next() % 100 < p.mutate_pct)
		{
			// Recent finds first, half of the time.
			size_t const n = corpus.size();
			size_t k = src.rng.next() % n;
			if(src.rng.next() % 2 == 0 && n > 16)
				k = n - 1 - src.rng.next() % 16;
			base = mutate(corpus[k], corpus, src.rng);
			src.mode = Src::MUTATE;
			src.in = base.data();
			src.in_size = base.size();
		}
		sh.index = i;
		sh.choices_size = 0;
		Case c;
		Coverage::clear();
		bool const ok = execute(p, src, c, sh);
		if(!ok)
			return false;
		sh.executed = i + 1;
		if(src.mode == Src::GEN)
		{
			generated++;
			generated_size += sh.choices_size;
		}
		// Not the seldom cases that are much longer than most: cases mutated
		// from them would take most of the time.
		if(cov.absorb() && corpus.size() < 4096 &&
		   sh.choices_size * generated <= 4 * generated_size)
			corpus.emplace_back(sh.choices, sh.choices + sh.choices_size);
		for(auto const& l : c.labels_)
			st.labels[l.first] += 1;
		for(auto const& l : c.counters_)
			st.counters[l.first] += l.second;
		if(c.nontrivial_)
		{
			st.nontrivial++;
			uint64_t h = c.hash_;
			if(!c.mixed_)
				for(size_t k = 0; k < sh.choices_size; k++)
					h = (h ^ sh.choices[k]) * 0x100000001B3ULL + 1;
			bool const fresh =
				st.distinct.size() < 1000000 ? st.distinct.insert(h).second
											 : false;
			if(fresh && st.samples.size() < 3 && i >= st.samples.size() * 20)
				st.samples.emplace_back(sh.choices,
				                        sh.choices + sh.choices_size);
		}
	}
	st.corpus = corpus.size();
	st.features = cov.features;
	return true;
}

std::string json_str(std::string const& s)
{
	std::string r = "\"";
	for(unsigned char ch : s)
	{
		char b[8];
		if(ch == '"' || ch == '\\')
		{
			r += '\\';
			r += static_cast<char>(ch);
		}
		else if(ch == '\n')
			r += "\\n";
		else if(ch == '\t')
			r += "\\t";
		else if(ch < 32 || ch > 126)
		{
			std::snprintf(b, sizeof(b), "\\u%04x", ch);
			r += b;
		}
		else
			r += static_cast<char>(ch);
	}
	return r + "\"";
}

std::string read_file(std::string const& path, size_t max)
{
	std::ifstream f(path, std::ios::binary);
	std::string s(max, '\0');
	f.read(s.data(), static_cast<std::streamsize>(max));
	s.resize(static_cast<size_t>(f.gcount()));
	return s;
}

void redirect_output(std::string const& path)
{
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if(fd >= 0)
	{
		dup2(fd, 1);
		dup2(fd, 2);
		close(fd);
	}
}

std::string describe_status(int status, Shared const& sh,
                            std::string const& log)
{
	if(WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAILURE_FOUND &&
	   sh.failed != 0)
		return sh.what;
	std::string s;
	if(WIFSIGNALED(status))
		s = "crash: signal " + std::to_string(WTERMSIG(status));
	else if(WIFEXITED(status) && WEXITSTATUS(status) == 97)
		s = "does not terminate: over 30 s of CPU time in one case";
	else if(WIFEXITED(status) && WEXITSTATUS(status) == 98)
		s = "over 3 GB of memory in one case";
	else
		s = "crash: exit status " + std::to_string(WEXITSTATUS(status));
	// First telling line of the sanitizer / assertion output.
	std::istringstream is(log);
	std::string line;
	while(std::getline(is, line))
		if(line.find("ERROR: AddressSanitizer") != std::string::npos ||
		   line.find("runtime error") != std::string::npos ||
		   line.find("Assertion") != std::string::npos ||
		   line.find("terminate called") != std::string::npos ||
		   line.find("FATAL") != std::string::npos)
		{
			s += ": " + line;
			break;
		}
	return s;
}

struct Outcome
{
	bool failed = false;
	std::string what;
	std::string log;
	std::string trace;
	Choices used;
};

// Runs one case in a child process.
Outcome run_child(Property const& p, Choices const& choices, bool tracing,
                  Options const& o, Shared& sh)
{
	Outcome r;
	std::string const log = o.tmp + "/child.log";
	std::string const tr = o.tmp + "/child.trace";
	std::remove(tr.c_str());
	sh.failed = 0;
	sh.choices_size = 0;
	pid_t pid = fork();
	if(pid == 0)
	{
		redirect_output(log);
		start_guard();
		Src src;
		src.mode = Src::REPLAY;
		src.in = choices.data();
		src.in_size = choices.size();
		src.out = sh.choices;
		src.out_cap = CHOICES_CAP;
		src.live = &sh.choices_size;
		Case c;
		c.tracing = tracing;
		if(tracing)
			c.trace_fd =
				open(tr.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		bool const ok = execute(p, src, c, sh);
		_exit(ok ? 0 : EXIT_FAILURE_FOUND);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	r.log = read_file(log, 6000);
	if(tracing)
		r.trace = read_file(tr, 20000);
	r.failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
	if(r.failed)
		r.what = describe_status(status, sh, r.log);
	r.used.assign(sh.choices, sh.choices + sh.choices_size);
	return r;
}

Choices shrink(Property const& p, Choices best, Options const& o, Shared& sh)
{
	double const deadline = now() + 25;
	size_t budget = 3000;
	auto fails = [&](Choices const& c) -> bool
	{
		if(budget == 0 || now() > deadline)
			return false;
		budget--;
		return run_child(p, c, false, o, sh).failed;
	};
	bool progress = true;
	while(progress && budget != 0 && now() < deadline)
	{
		progress = false;
		// Truncate.
		for(size_t cut = best.size() / 2; cut >= 1; cut /= 2)
			while(best.size() > cut)
			{
				Choices c(best.begin(), best.end() - cut);
				if(!fails(c))
					break;
				best = c;
				progress = true;
			}
		// Delete chunks.
		for(size_t len : {64U, 32U, 16U, 8U, 6U, 5U, 4U, 3U, 2U, 1U})
			for(size_t at = best.size(); at-- > 0;)
			{
				if(at + len > best.size())
					continue;
				Choices c = best;
				c.erase(c.begin() + at, c.begin() + at + len);
				if(fails(c))
				{
					best = c;
					progress = true;
				}
				if(budget == 0 || now() > deadline)
					break;
			}
		// Lower values.
		for(size_t i = 0; i < best.size(); i++)
		{
			if(best[i] == 0)
				continue;
			Choices c = best;
			c[i] = 0;
			if(fails(c))
			{
				best = c;
				progress = true;
				continue;
			}
			uint64_t lo = 0;
			uint64_t hi = best[i];
			while(hi - lo > 1)
			{
				uint64_t const mid = lo + (hi - lo) / 2;
				c = best;
				c[i] = mid;
				if(fails(c))
				{
					best = c;
					hi = mid;
					progress = true;
				}
				else
					lo = mid;
				if(budget == 0 || now() > deadline)
					break;
			}
			if(budget == 0 || now() > deadline)
				break;
		}
	}
	return best;
}

void write_worker_result(std::string const& path, WorkerState const& st)
{
	std::ofstream f(path, std::ios::binary);
	f << st.nontrivial << ' ' << st.corpus << ' ' << st.features << '\n';
	f << st.labels.size() << '\n';
	for(auto const& l : st.labels)
		f << l.second << ' ' << l.first << '\n';
	f << st.counters.size() << '\n';
	for(auto const& l : st.counters)
		f << l.second << ' ' << l.first << '\n';
	f << st.samples.size() << '\n';
	for(auto const& s : st.samples)
	{
		f << s.size();
		for(auto v : s)
			f << ' ' << v;
		f << '\n';
	}
	f << st.distinct.size() << '\n';
	for(auto h : st.distinct)
		f.write(reinterpret_cast<char const*>(&h), 8);
}

void merge_worker_result(std::string const& path, WorkerState& st)
{
	std::ifstream f(path, std::ios::binary);
	if(!f)
		return;
	uint64_t a = 0;
	uint64_t b = 0;
	uint64_t c = 0;
	f >> a >> b >> c;
	st.nontrivial += a;
	st.corpus += b;
	st.features = std::max(st.features, c);
	auto read_map = [&](std::map<std::string, uint64_t>& m)
	{
		size_t n = 0;
		f >> n;
		for(size_t i = 0; i < n; i++)
		{
			uint64_t v = 0;
			std::string k;
			f >> v;
			f.get();
			std::getline(f, k);
			m[k] += v;
		}
	};
	read_map(st.labels);
	read_map(st.counters);
	size_t n = 0;
	f >> n;
	for(size_t i = 0; i < n; i++)
	{
		size_t k = 0;
		f >> k;
		Choices s(k);
		for(auto& v : s)
			f >> v;
		if(st.samples.size() < 4)
			st.samples.push_back(s);
	}
	f >> n;
	f.get();
	for(size_t i = 0; i < n; i++)
	{
		uint64_t h = 0;
		f.read(reinterpret_cast<char*>(&h), 8);
		st.distinct.insert(h);
	}
}

void write_replay(Options const& o, Property const& p, char const* kind,
                  Choices const& choices, unsigned worker, uint64_t index,
                  Outcome const& out)
{
	std::ofstream f(o.replay);
	f << "property " << p.id << "\n";
	f << "kind " << kind << "\n";
	f << "seed " << o.seed << " worker " << worker << " index " << index
	  << "\n";
	f << "choices " << choices.size();
	for(auto v : choices)
		f << ' ' << v;
	f << "\n\n# what failed\n" << out.what << "\n\n# the case\n" << out.trace;
	f << "\n# output of the run\n" << out.log << "\n";
}

int replay_file(Property const& p, Options const& o)
{
	std::ifstream f(o.replay_in);
	std::string word;
	std::string id;
	std::string kind;
	Options o2 = o;
	unsigned worker = 0;
	uint64_t index = 0;
	size_t n = 0;
	f >> word >> id >> word >> kind >> word >> o2.seed >> word >> worker >>
		word >> index >> word >> n;
	Choices c(n);
	for(auto& v : c)
		f >> v;
	if(!f || id != p.id)
	{
		std::fprintf(stderr, "not a replay file of %s\n", p.id);
		return 2;
	}
	Shared* sh = new_shared(1);
	if(kind == "case")
	{
		auto r = run_child(p, c, true, o, *sh);
		std::printf("%s\n%s\n%s\n", r.trace.c_str(), r.log.c_str(),
		            r.failed ? ("FAILED: " + r.what).c_str() : "passed");
		return r.failed ? 1 : 0;
	}
	pid_t pid = fork();
	if(pid == 0)
	{
		start_guard();
		WorkerState st;
		_exit(run_worker(p, o2, worker, index + 1, 0, *sh, st)
		          ? 0
		          : EXIT_FAILURE_FOUND);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	bool const failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
	std::printf("%s\n", failed
	                        ? ("FAILED: " + describe_status(status, *sh, ""))
	                              .c_str()
	                        : "passed");
	return failed ? 1 : 0;
}

int campaign(Property const& p, Options const& o)
{
	double const start = now();
	double const deadline = start + o.time_cap;
	auto const limit = std::max<uint64_t>(
		1, static_cast<uint64_t>(
			   static_cast<double>(o.thorough ? p.thorough : p.quick) *
			   o.scale));
	Shared* sh = new_shared(WORKERS + 1);
	std::array<pid_t, WORKERS> pids{};
	auto log_of = [&](unsigned w)
	{ return o.tmp + "/worker" + std::to_string(w) + ".log"; };
	auto res_of = [&](unsigned w)
	{ return o.tmp + "/worker" + std::to_string(w) + ".res"; };
	auto spawn = [&](unsigned w, uint64_t lim, double dl) -> pid_t
	{
		pid_t pid = fork();
		if(pid != 0)
			return pid;
		redirect_output(log_of(w));
		start_guard();
		WorkerState st;
		bool const ok = run_worker(p, o, w, lim, dl, sh[w], st);
		if(!ok)
			_exit(EXIT_FAILURE_FOUND);
		write_worker_result(res_of(w), st);
		_exit(0);
	};
	for(unsigned w = 0; w < WORKERS; w++)
		pids[w] = spawn(w, limit, deadline);
	// Wait for all; the first failure (lowest worker among those that failed
	// by then) wins and the rest get stopped.
	int failed_worker = -1;
	int failed_status = 0;
	unsigned left = WORKERS;
	while(left != 0)
	{
		int status = 0;
		pid_t pid = wait(&status);
		if(pid < 0)
		{
			if(errno == EINTR)
				continue;
			break;
		}
		for(unsigned w = 0; w < WORKERS; w++)
			if(pids[w] == pid)
			{
				pids[w] = 0;
				left--;
				bool const ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
				if(!ok && failed_worker < 0)
				{
					// Ended from outside (e.g. out of memory)?
					if(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
					{
						std::fprintf(stderr, "worker %u was killed\n", w);
						for(auto q : pids)
							if(q > 0)
								kill(q, SIGKILL);
						return 2;
					}
					failed_worker = static_cast<int>(w);
					failed_status = status;
					for(auto q : pids)
						if(q > 0)
							kill(q, SIGKILL);
				}
			}
	}
	uint64_t executed = 0;
	for(unsigned w = 0; w < WORKERS; w++)
		executed += sh[w].executed;
	WorkerState st;
	int code = 0;
	std::string what;
	std::string shrunk;
	if(failed_worker >= 0)
	{
		auto const w = static_cast<unsigned>(failed_worker);
		Shared& fs = sh[w];
		executed++;
		Choices c(fs.choices, fs.choices + fs.choices_size);
		uint64_t const index = fs.index;
		Outcome first;
		first.what =
			describe_status(failed_status, fs, read_file(log_of(w), 6000));
		first.log = read_file(log_of(w), 6000);
		Shared& scratch = sh[WORKERS];
		auto confirm = [&](Choices const& x, Outcome& r) -> bool
		{
			if(p.races)
			{
				for(int i = 0; i < 5; i++)
				{
					r = run_child(p, x, true, o, scratch);
					if(r.failed)
						return true;
				}
				return false;
			}
			for(int i = 0; i < 3; i++)
			{
				r = run_child(p, x, i == 2, o, scratch);
				if(!r.failed)
					return false;
			}
			return true;
		};
		Outcome r;
		if(confirm(c, r))
		{
			Choices best = shrink(p, c, o, scratch);
			if(!confirm(best, r) && !confirm(best = c, r))
				r = first;
			write_replay(o, p, "case", best, w, index, r);
			what = r.what;
			code = 1;
		}
		else
		{
			// Depends on the cases before it (state that outlives a case).
			bool again = true;
			for(int i = 0; i < 3 && again; i++)
			{
				Shared& s2 = sh[w];
				s2.failed = 0;
				pid_t pid = spawn(w, index + 1, 0);
				int status = 0;
				waitpid(pid, &status, 0);
				again = !(WIFEXITED(status) && WEXITSTATUS(status) == 0) &&
				        s2.index == index;
			}
			if(again)
			{
				write_replay(o, p, "sequence", c, w, index, first);
				what = "(only after the preceding cases) " + first.what;
				code = 1;
			}
			else
			{
				std::fprintf(stderr, "failure did not reproduce: %s\n",
				             first.what.c_str());
				what = first.what;
				code = 2;
			}
		}
	}
	for(unsigned w = 0; w < WORKERS; w++)
		merge_worker_result(res_of(w), st);
	std::ofstream f(o.out);
	f << "{\"evaluations\": " << executed
	  << ", \"nontrivial\": " << st.nontrivial
	  << ", \"distinct_nontrivial\": " << st.distinct.size()
	  << ", \"cases_planned\": " << limit * WORKERS
	  << ", \"corpus\": " << st.corpus
	  << ", \"coverage_features\": " << st.features
	  << ", \"wall_s\": " << (now() - start)
	  << ", \"rule\": " << json_str(p.rule) << ", \"what\": " << json_str(what)
	  << ", \"labels\": {";
	bool sep = false;
	for(auto const& l : st.labels)
	{
		f << (sep ? ", " : "") << json_str(l.first) << ": " << l.second;
		sep = true;
	}
	f << "}, \"counters\": {";
	sep = false;
	for(auto const& l : st.counters)
	{
		f << (sep ? ", " : "") << json_str(l.first) << ": " << l.second;
		sep = true;
	}
	f << "}, \"samples\": [";
	sep = false;
	if(code == 0)
		for(auto const& s : st.samples)
		{
			auto r = run_child(p, s, true, o, sh[WORKERS]);
			if(r.trace.size() > 3000)
				r.trace = r.trace.substr(0, 3000) + "...";
			f << (sep ? ", " : "") << json_str(r.trace);
			sep = true;
		}
	f << "]}\n";
	f.close();
	if(code == 1)
		std::printf("FAILED: %s\n", what.c_str());
	return code;
}

} // namespace

} // namespace pbt

int main(int argc, char** argv)
{
	using namespace pbt;
	Options o;
	for(int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		auto val = [&]() -> std::string
		{ return i + 1 < argc ? argv[++i] : ""; };
		if(a == "--property")
			o.prop = val();
		else if(a == "--thorough")
			o.thorough = true;
		else if(a == "--seed")
			o.seed = std::stoull(val());
		else if(a == "--scale")
			o.scale = std::stod(val());
		else if(a == "--time-cap")
			o.time_cap = std::stod(val());
		else if(a == "--out")
			o.out = val();
		else if(a == "--tmp")
			o.tmp = val();
		else if(a == "--replay-out")
			o.replay = val();
		else if(a == "--replay")
			o.replay_in = val();
		else
		{
			std::fprintf(stderr, "unknown option %s\n", a.c_str());
			return 2;
		}
	}
	for(auto const& p : properties())
		if(o.prop == p.id)
			return o.replay_in.empty() ? campaign(p, o) : replay_file(p, o);
	std::fprintf(stderr, "no such property: %s\n", o.prop.c_str());
	return 2;
}
