// C24: what other checks do, done in several threads at the same time.
#include "threads.hpp"

#include <cstdio>
#include <cstring>
#include <iterator>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

auto board_properties() -> std::vector<Property>;
auto codec_properties() -> std::vector<Property>;
auto core_properties() -> std::vector<Property>;
auto frame_properties() -> std::vector<Property>;
auto many_properties() -> std::vector<Property>;
auto misc_properties() -> std::vector<Property>;
auto query_properties() -> std::vector<Property>;
auto room_properties() -> std::vector<Property>;

} // namespace pbt

namespace
{

using pbt::Case;
using pbt::Property;
using pbt::Src;

struct Job
{
	Property const* what;
	uint64_t seed;
};

struct Plan
{
	// What each thread does; or a scenario that starts threads itself.
	std::vector<std::vector<Job>> threads;
	Job shared{nullptr, 0};
};

struct All
{
	std::vector<Property> alone;
	std::vector<Property> shared;

	All()
	{
		for(auto&& list :
		    {pbt::board_properties(), pbt::codec_properties(),
		     pbt::core_properties(), pbt::frame_properties(),
		     pbt::many_properties(), pbt::misc_properties(),
		     pbt::query_properties(), pbt::room_properties()})
			for(auto const& p : list)
				(std::strncmp(p.id, "shared", 6) == 0 ? shared : alone)
					.push_back(p);
	}
};

All const& all()
{
	static All const a;
	return a;
}

void run_job(Job const& j)
{
	Src s;
	s.rng.s = j.seed;
	Case c;
	try
	{
		j.what->run(s, c);
	}
	catch(pbt::Failure const& e)
	{
		throw pbt::Failure{std::string(j.what->id) + ": " + e.what};
	}
}

void run_plan(Plan const& p)
{
	if(p.shared.what != nullptr)
		return run_job(p.shared);
	pbt::in_threads(p.threads.size(),
	                [&](size_t i)
	                {
						for(auto const& j : p.threads[i])
							run_job(j);
					});
}

// Runs it in a process of its own, so that nothing is left of earlier cases.
// Returns what failed, or nothing.
std::string in_child(Plan const& p, bool one_by_one)
{
	int fds[2];
	if(pipe(fds) != 0)
		std::abort();
	pid_t const pid = fork();
	if(pid < 0)
		std::abort();
	if(pid == 0)
	{
		close(fds[0]);
		alarm(100);
		pbt::one_by_one = one_by_one;
		try
		{
			run_plan(p);
		}
		catch(pbt::Failure const& e)
		{
			if(write(fds[1], e.what.data(), e.what.size()) < 0) {}
			_exit(3);
		}
		_exit(0);
	}
	close(fds[1]);
	std::string what;
	char b[512];
	ssize_t n;
	while((n = read(fds[0], b, sizeof(b))) > 0)
		what.append(b, static_cast<size_t>(n));
	close(fds[0]);
	int status = 0;
	waitpid(pid, &status, 0);
	if(WIFEXITED(status) && WEXITSTATUS(status) == 0)
		return "";
	if(WIFEXITED(status) && WEXITSTATUS(status) == 3)
		return what + " (goes well without other threads)";
	if(WIFEXITED(status) && WEXITSTATUS(status) == 66)
		return "data race (see the log)";
	return "crash: status " + std::to_string(status) +
	       " (goes well without other threads)";
}

void run_c24(Src& s, Case& c)
{
	Plan p;
	auto describe = [&](Job const& j)
	{
		LOG(c, "  ", j.what->id, " seed ", j.seed);
		c.label(j.what->id);
		c.mix(j.what->id);
		c.mix(j.seed);
	};
	if(s.chance(1, 3))
	{
		p.shared.what = &s.pick(all().shared);
		p.shared.seed = s.draw(1ULL << 40U);
		describe(p.shared);
	}
	else
	{
		size_t const n = 2 + s.weighted({5, 1, 1});
		bool const same = s.coin();
		Property const* what = &s.pick(all().alone);
		bool const repeat = s.chance(1, 4);
		for(size_t i = 0; i < n; i++)
		{
			LOG(c, "thread ", i);
			p.threads.emplace_back();
			if(repeat && i != 0)
			{
				p.threads[i] = p.threads[0];
				LOG(c, "  as the first");
				continue;
			}
			for(uint32_t k = 1 + s.below(3); k > 0; k--)
			{
				p.threads[i].push_back(
					{same ? what : &s.pick(all().alone),
				     s.draw(1ULL << 40U)});
				describe(p.threads[i].back());
			}
		}
		if(same)
			c.label("the same in each thread");
	}
	c.nontrivial();
	auto const what = in_child(p, false);
	if(what.empty())
		return;
	if(!in_child(p, true).empty())
	{
		// It's wrong by itself: other properties tell.
		c.label("fails without threads as well");
		return;
	}
	pbt::fail(what);
}

} // namespace

auto pbt::properties() -> std::vector<Property>
{
	Property p{
		"C24",
		"Two to four threads, each playing out one to three random cases of "
		"the other checks on instances of its own, or all "
		"reading a message, cards, events, a context or a board made before. Built "
		"with ThreadSanitizer; each case in a new process. Non-trivial: all.",
		2500, 100000, run_c24, 0};
	p.races = true;
	return {p};
}
