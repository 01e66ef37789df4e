// Several threads, each catching its own failures.
#ifndef VERIF_THREADS_HPP
#define VERIF_THREADS_HPP
#include "engine.hpp"

#include <atomic>
#include <cstdlib>
#include <exception>
#include <optional>
#include <thread>

namespace pbt
{

// Whether in_threads() does everything in the calling thread, one by one.
inline bool one_by_one = false;

// Runs f(0)..f(n - 1) at the same time, and throws the first one's failure.
template<typename F>
void in_threads(size_t n, F const& f)
{
	std::vector<std::optional<Failure>> failed(n);
	std::atomic<size_t> ready{0};
	auto body = [&](size_t i)
	{
		if(!one_by_one)
		{
			// (Relaxed, so that nothing orders what they do next.)
			ready.fetch_add(1, std::memory_order_relaxed);
			while(ready.load(std::memory_order_relaxed) != n)
				std::this_thread::yield();
		}
		try
		{
			f(i);
		}
		catch(Failure const& e)
		{
			failed[i] = e;
		}
		catch(std::exception const& e)
		{
			failed[i] = Failure{std::string("unexpected exception: ") +
			                    e.what()};
		}
	};
	if(one_by_one)
	{
		for(size_t i = 0; i < n; i++)
			body(i);
	}
	else
	{
		std::vector<std::thread> threads;
		for(size_t i = 0; i < n; i++)
			threads.emplace_back(body, i);
		for(auto& t : threads)
			t.join();
	}
	for(size_t i = 0; i < n; i++)
		if(failed[i])
			throw Failure{"thread " + std::to_string(i) + ": " +
			              failed[i]->what};
}

} // namespace pbt

#endif // VERIF_THREADS_HPP
