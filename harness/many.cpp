// C23: duels and rooms that go on at the same time don't notice one another.
#include "core_sim.hpp"
#include "room_sim.hpp"

namespace
{

using pbt::Case;
using pbt::Src;

// Something that goes on, compared with a model of its own at every step.
struct Instance
{
	virtual ~Instance() = default;
	virtual void step() = 0;
	virtual bool is_room() const = 0;
	bool busy = false;
};

struct All
{
	Src& s;
	Case& c;
	std::vector<std::unique_ptr<Instance>> v;
	Instance* last = nullptr;
	uint32_t alternated = 0;
	uint32_t depth = 0;

	void step(size_t k)
	{
		Instance& i = *v[k];
		if(last != nullptr && last != &i && last->is_room() == i.is_room())
			alternated++;
		last = &i;
		LOG(c, "[", k, "]");
		i.busy = true;
		i.step();
		i.busy = false;
		last = &i;
	}

	// Something else happens in the middle of a step.
	void pause()
	{
		if(depth >= 2 || v.empty() || !s.chance(1, 5))
			return;
		size_t const k = s.draw(v.size());
		if(v[k] == nullptr || v[k]->busy)
			return;
		depth++;
		LOG(c, "meanwhile {");
		step(k);
		LOG(c, "} meanwhile");
		depth--;
		c.label("a step in the middle of another");
	}
};

template<template<typename...> class Frame>
struct DuelInstance final : Instance
{
	core_sim::Duel<Frame> duel;

	DuelInstance(All& all, bool materials) : duel(all.s, all.c, materials)
	{
		duel.begin();
		duel.pause = [&all] { all.pause(); };
	}
	void step() override { duel.step(); }
	bool is_room() const override { return false; }
};

struct RoomInstance final : Instance
{
	room_sim::Driver driver;

	static auto options(Src& s)
	{
		auto o = room_sim::gen_options(s);
		o.set_ftdm(s.chance(1, 3) ? room_sim::PR::FTDM_RPS
		                          : room_sim::PR::FTDM_HOST_CHOOSES);
		return o;
	}
	RoomInstance(Src& s, Case& c)
		: driver(s, c, options(s), room_sim::gen_rnd(s),
	             room_sim::SEATS | room_sim::READY | room_sim::VIEWS)
	{}
	void step() override { driver.step(); }
	bool is_room() const override { return true; }
};

void at_once(Src& s, Case& c)
{
	All all{s, c};
	auto make = [&]() -> std::unique_ptr<Instance>
	{
		switch(s.draw(6))
		{
		case 0:
		case 1:
			return std::make_unique<DuelInstance<core_sim::Basic>>(all,
			                                                       s.coin());
		case 2:
		case 3:
			return std::make_unique<DuelInstance<core_sim::Limbo>>(all,
			                                                       s.coin());
		default:
			return std::make_unique<RoomInstance>(s, c);
		}
	};
	auto& v = all.v;
	for(uint32_t n = 2 + s.below(2); n > 0; n--)
		v.push_back(make());
	uint32_t const n = 4 + s.steps(40);
	for(uint32_t i = 0; i < n; i++)
	{
		size_t const k = s.draw(v.size());
		if(s.chance(1, 20))
		{
			// One ends and another begins.
			LOG(c, "[", k, "] is another");
			all.last = nullptr;
			if(s.coin())
				v[k].reset();
			v[k] = make();
			c.label("one ends while others go on");
			continue;
		}
		all.step(k);
	}
	size_t rooms = 0;
	for(auto const& p : v)
		rooms += p->is_room();
	if(rooms >= 2)
		c.label("several rooms");
	if(v.size() - rooms >= 2)
		c.label("several duels");
	if(all.alternated >= 3)
		c.nontrivial();
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C23",
	     "Two or three duels (simulated core, encoder context and board) and "
	     "rooms that go on at the same time, with 4 to 44 steps of any of them "
	     "in any order, also in the middle of one another, and some that end "
	     "while others begin; each is "
	     "compared with a model of its own at each of its steps. Non-trivial: "
	     "steps of two of the same kind alternate at least three times.",
	     17500, 500000, at_once},
	};
}
