// C05 events on the board, C06 undoing them, C22 the encoder's context.
#include "event_gen.hpp"
#include "threads.hpp"

#include <array>
#include <memory>
#include <optional>
#include <set>
#include <ygopen/client/board.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/server/basic_encode_context.hpp>

namespace
{

using namespace ref;
using YGOpen::Duel::Controller;

struct PlainCard
{
	int tag = 0;
};

template<template<typename...> class FrameTemplate>
struct PlainTraits
{
	using BlockedZonesType = std::vector<ProtoPlace>;
	using ChainStackType = std::vector<ProtoChain>;
	using FrameType = FrameTemplate<PlainCard>;
	using LPType = uint32_t;
	using PhaseType = YGOpen::Duel::Phase;
	using TurnControllerType = Controller;
	using TurnType = uint32_t;
};

template<typename Card>
using Basic = YGOpen::Client::BasicFrame<Card>;
template<typename Card>
using Limbo = YGOpen::Client::LimboFrame<Card>;

template<typename T>
using Und = YGOpen::Client::BasicUndoable<T>;

struct UndoTraits
{
	using BlockedZonesType = Und<std::vector<ProtoPlace>>;
	using ChainStackType = UndoableChain;
	using FrameType = YGOpen::Client::LimboFrame<PlainCard>;
	using LPType = Und<uint32_t>;
	using PhaseType = Und<YGOpen::Duel::Phase>;
	using TurnControllerType = Und<Controller>;
	using TurnType = Und<uint32_t>;
};

std::vector<ProtoChain> const& chain_of(std::vector<ProtoChain> const& v)
{
	return v;
}

std::vector<ProtoChain> const& chain_of(UndoableChain const& v)
{
	return v.now();
}

template<typename M>
void same_seq(std::vector<M> const& want, std::vector<M> const& got,
              char const* what, char const* when)
{
	if(want.size() != got.size())
		pbt::failf(when, ": ", what, " should have ", want.size(), ", has ",
		           got.size());
	for(size_t i = 0; i < want.size(); i++)
		if(!same_msg(want[i], got[i]))
			pbt::failf(when, ": ", what, " ", i, " should be ",
			           want[i].ShortDebugString(), ", is ",
			           got[i].ShortDebugString());
}

template<typename Board>
void same_board(BoardModel const& m, Board const& b, Binding& bind,
                char const* when)
{
	same_state(m.field, b.frame(), bind, when);
	for(int con = 0; con < 2; con++)
	{
		uint32_t const v = b.lp(static_cast<Controller>(con));
		CHECK_EQ(v, m.lp[con], when, ": LP of ", con);
	}
	uint32_t const turn = b.turn();
	CHECK_EQ(turn, m.turn, when);
	YGOpen::Duel::Phase const phase = b.phase();
	CHECK_EQ(static_cast<uint32_t>(phase), m.phase, when);
	Controller const tc = b.turn_controller();
	CHECK_EQ(static_cast<int>(tc), m.turn_con, when);
	same_seq(m.chain, chain_of(b.chain_stack()), "chain", when);
	std::vector<ProtoPlace> const& blocked = b.blocked_zones();
	same_seq(m.blocked, blocked, "blocked zone", when);
}

uint64_t digest(BoardModel const& m)
{
	uint64_t h = std::hash<std::string>{}(show(m.field));
	for(uint64_t v : {static_cast<uint64_t>(m.lp[0]),
	                  static_cast<uint64_t>(m.lp[1]),
	                  static_cast<uint64_t>(m.turn),
	                  static_cast<uint64_t>(m.phase),
	                  static_cast<uint64_t>(m.chain.size()),
	                  static_cast<uint64_t>(m.blocked.size())})
		h = (h ^ v) * 0x9E3779B97F4A7C15ULL;
	return h;
}

// What is received: serialized and parsed.
ProtoEvent wire(Src& s, ProtoEvent const& e)
{
	ProtoEvent r;
	if(s.coin())
		r = e;
	else
		CHECK(r.ParseFromString(e.SerializeAsString()));
	return r;
}

// --------------------------------------------------------------------- C05

template<typename Traits>
void events(Src& s, Case& c, bool reuse_addresses)
{
	using Board = YGOpen::Client::BasicBoard<Traits>;
	auto b = std::make_unique<Board>();
	BoardModel m;
	Binding bind;
	EventGen gen(s, c);
	same_board(m, *b, bind, "initially");
	size_t kinds = 0;
	std::set<std::string> seen;
	uint32_t const n = 3 + s.steps(40);
	for(uint32_t i = 0; i < n; i++)
	{
		ProtoEvent e;
		char const* name = gen.next(m, e);
		if(name == nullptr)
			continue;
		LOG(c, name, ": ", e.ShortDebugString());
		YGOpen::Client::parse_event(*b, wire(s, e));
		if(reuse_addresses)
			for(int id : gen.gone)
				bind.unbind(id);
		gen.gone.clear();
		same_board(m, *b, bind, name);
		c.count(name);
		if(seen.insert(name).second)
			kinds++;
		c.mix(digest(m));
	}
	if(kinds >= 4)
		c.nontrivial();
}

void c05(Src& s, Case& c)
{
	if(s.chance(1, 3))
		events<PlainTraits<Limbo>>(s, c, false);
	else
		events<PlainTraits<Basic>>(s, c, true);
}

// --------------------------------------------------------------------- C06

void c06(Src& s, Case& c)
{
	using Board = YGOpen::Client::BasicBoard<UndoTraits>;
	auto b = std::make_unique<Board>();
	Binding bind;
	EventOptions opt;
	opt.shuffle = false;
	opt.max_cards = 60;
	EventGen gen(s, c, opt);
	struct Entry
	{
		ProtoEvent event;
		char const* name;
		BoardModel before;
	};
	std::vector<Entry> hist;
	BoardModel last; // After all of the history.
	size_t at = 0;
	size_t undone = 0;
	size_t redone = 0;
	std::set<std::string> undone_kinds;
	auto current = [&]() -> BoardModel const&
	{ return at == hist.size() ? last : hist[at].before; };
	auto undo = [&]
	{
		Entry const& e = hist[--at];
		LOG(c, "undo ", e.name);
		YGOpen::Client::undo_parse_event(*b, wire(s, e.event));
		undone++;
		undone_kinds.insert(e.name);
		c.count("undo");
		same_board(current(), *b, bind, (std::string("undo ") + e.name).c_str());
	};
	auto redo = [&]
	{
		Entry const& e = hist[at++];
		LOG(c, "redo ", e.name);
		YGOpen::Client::parse_event(*b, wire(s, e.event));
		redone++;
		c.count("redo");
		same_board(current(), *b, bind, (std::string("redo ") + e.name).c_str());
	};
	// (Very long histories would take too long.)
	auto far = [&](size_t max)
	{ return max > 100 && !s.chance(1, 30) ? size_t{12} : max; };
	same_board(last, *b, bind, "initially");
	uint32_t const n = 3 + s.steps(40);
	for(uint32_t i = 0; i < n; i++)
	{
		switch(s.weighted({6, 2, 2, 1, 1}))
		{
		case 0:
		{
			// New events only come at the end.
			while(at < hist.size())
				redo();
			Entry e;
			e.before = last;
			BoardModel next = last;
			e.name = gen.next(next, e.event);
			if(e.name == nullptr)
				break;
			LOG(c, e.name, ": ", e.event.ShortDebugString());
			YGOpen::Client::parse_event(*b, wire(s, e.event));
			last = next;
			c.count(e.name);
			hist.push_back(std::move(e));
			at++;
			same_board(last, *b, bind, "new event");
			c.mix(digest(last));
			break;
		}
		case 1:
			if(at > 0)
				undo();
			break;
		case 2:
			if(at < hist.size())
				redo();
			break;
		case 3:
			for(size_t k = s.draw(far(at) + 1); k != 0; k--)
				undo();
			break;
		default:
			for(size_t k = s.draw(far(hist.size() - at) + 1); k != 0;
			    k--)
				redo();
			break;
		}
	}
	while(at > 0)
		undo();
	CHECK_EQ(b->frame().has_card(P{0, DECK, 0, -1}.proto()), false);
	while(at < hist.size())
		redo();
	if(undone_kinds.size() >= 4 && redone >= 3)
		c.nontrivial();
}

// --------------------------------------------------------------------- C22

void context(Src& s, Case& c, bool shared)
{
	auto x = std::make_unique<YGOpen::Server::BasicEncodeContext>();
	YGOpen::Codec::IEncodeContext& i = *x;
	YGOpen::Codec::IEncodeContext const& ask = *x;
	BoardModel m;
	EventGen gen(s, c);
	uint32_t reason = 0;
	std::vector<ProtoPlace> deferred;
	std::vector<std::pair<ProtoPlace, ProtoPlace>> left;
	size_t told = 0;
	std::atomic<bool> mats{false};
	auto small_place = [&]
	{
		// Few different ones, so that they meet.
		P p{static_cast<int>(s.draw(2)), s.coin() ? GRAVE : BANISHED,
		    static_cast<uint32_t>(s.draw(3)),
		    static_cast<int>(s.draw(3)) - 1};
		return p.proto();
	};
	auto check = [&]
	{
		for(int con = 0; con < 2; con++)
		{
			for(int k = 0; k < 5; k++)
				CHECK_EQ(ask.pile_size(static_cast<Controller>(con),
				                     static_cast<YGOpen::Duel::Location>(
										 PILES[k])),
				         m.field.piles[con][k].size(), "size of ",
				         P{con, PILES[k], 0, -1});
			for(int k = 0; k < 5; k++)
				for(uint32_t q = 0; q < ZONE_LIMIT[k]; q++)
				{
					bool const want = !m.field.zones[con][k][q].mats.empty();
					if(want)
						mats.store(true, std::memory_order_relaxed);
					CHECK_EQ(ask.has_xyz_mat(P{con, ZONES[k], q, -1}.proto()),
					         want, "materials in ", P{con, ZONES[k], q, -1});
				}
		}
		CHECK_EQ(ask.get_match_win_reason(), reason);
		for(auto const& l : left)
		{
			ProtoPlace const got = ask.get_xyz_left(l.first);
			CHECK(same_msg(got, l.second), "card at ",
			      l.first.ShortDebugString(), " left ",
			      l.second.ShortDebugString(), ", got ",
			      got.ShortDebugString());
		}
	};
	check();
	uint32_t const n = 3 + s.steps(40);
	for(uint32_t k = 0; k < n; k++)
	{
		switch(s.weighted({6, 1, 4, 2, 3, 1}))
		{
		case 0:
		{
			ProtoMsg msg;
			char const* name = gen.next(m, *msg.mutable_event());
			if(name == nullptr)
				break;
			LOG(c, name, ": ", msg.ShortDebugString());
			// Queries about cards on the field may come along.
			if(s.chance(1, 3))
				for(auto const& p : m.field.cards())
					if(s.chance(1, 6))
					{
						auto& q = *msg.add_queries();
						*q.mutable_place() = p.proto();
						q.mutable_data()->mutable_code()->set_value(s.u32());
					}
			x->parse(msg);
			c.count(name);
			told++;
			c.mix(digest(m));
			break;
		}
		case 1:
			reason = s.u32();
			LOG(c, "match win reason ", reason);
			i.match_win_reason(reason);
			break;
		case 2:
			deferred.push_back(small_place());
			LOG(c, "defer ", deferred.back().ShortDebugString());
			i.xyz_mat_defer(deferred.back());
			break;
		case 3:
		{
			auto const got = i.take_deferred_xyz_mat();
			LOG(c, "take deferred");
			same_seq(deferred, got, "deferred material", "take");
			if(deferred.size() >= 2)
				c.label("took several");
			deferred.clear();
			break;
		}
		case 4:
		{
			auto const to = small_place();
			auto const from = gen_zone(s).proto();
			LOG(c, "left ", from.ShortDebugString(), " -> ",
			      to.ShortDebugString());
			i.xyz_left(to, from);
			bool found = false;
			for(auto& l : left)
				if(same_msg(l.first, to))
				{
					l.second = from;
					found = true;
				}
			if(!found)
				left.emplace_back(to, from);
			break;
		}
		default:
		{
			// Requests don't change anything.
			ProtoMsg msg;
			msg.mutable_request()->mutable_select_yes_no()->set_code(s.u32());
			x->parse(msg);
			break;
		}
		}
		check();
	}
	if(shared)
		pbt::in_threads(2 + s.below(2), [&](size_t) { check(); });
	if(mats)
		c.label("materials");
	if(told >= 2 && !left.empty())
		c.nontrivial();
}

// Several threads parse the same events into boards of their own, and read the
// same board (for threads.cpp).
template<typename Traits>
void shared_events(Src& s, Case& c)
{
	using Board = YGOpen::Client::BasicBoard<Traits>;
	auto const b = std::make_unique<Board>();
	BoardModel m;
	Binding bind;
	EventGen gen(s, c);
	std::vector<ProtoEvent> events;
	for(uint32_t k = 3 + s.steps(30); k > 0; k--)
	{
		ProtoEvent e;
		if(gen.next(m, e) == nullptr)
			continue;
		YGOpen::Client::parse_event(*b, e);
		for(int id : gen.gone)
			bind.unbind(id);
		gen.gone.clear();
		events.push_back(std::move(e));
	}
	same_board(m, *b, bind, "at the end");
	std::vector<P> free;
	for(int con = 0; con < 2; con++)
		for(int k = 0; k < 5; k++)
			for(uint32_t q = 0; q < ZONE_LIMIT[k]; q++)
				if(m.field.zones[con][k][q].card < 0)
					free.push_back({con, ZONES[k], q, -1});
	size_t const n = 2 + s.below(2);
	std::vector<Binding> bindings(n, bind);
	pbt::in_threads(n,
	                [&](size_t i)
	                {
						Board own;
						for(auto const& e : events)
							YGOpen::Client::parse_event(own, e);
						Binding fresh;
						same_board(m, own, fresh, "of its own");
						Board const& all = *b;
						same_board(m, all, bindings[i], "of all");
						auto const& f = all.frame();
						for(auto const& p : m.field.cards())
							CHECK(f.has_card(p.proto()) &&
			                          bindings[i].same(
										  m.field.at(p),
										  &f.card(p.proto())),
			                      "card at ", p);
						for(auto const& p : free)
							CHECK(!f.has_card(p.proto()), "no card at ", p);
					});
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C05",
	     "a random sequence of 3 to 43 duel events of every kind, with up to "
	     "several operations each, on a board with a basic or limbo frame, "
	     "compared with a reference board after each one; non-trivial: at "
	     "least 4 kinds of events; distinct by the sequence of boards",
	     30000, 900000, c05},
		{"C06",
	     "a random history of events, undos and redos (and everything undone "
	     "and redone at the end) with the board compared with a reference "
	     "one after each step; non-trivial: at least 4 kinds of events undone "
	     "and 3 redone; distinct by the sequence of boards",
	     24500, 600000, c06},
		{"C22",
	     "a random sequence of messages, records and questions on a context, "
	     "with every question asked after each step; non-trivial: at least 2 "
	     "messages and a card that left; distinct by the sequence of boards",
	     70000, 1500000, [](Src& s, Case& c) { context(s, c, false); }},
		{"shared context", "", 0, 0,
	     [](Src& s, Case& c) { context(s, c, true); }},
		{"shared events", "", 0, 0, shared_events<PlainTraits<Limbo>>},
		{"shared events, basic", "", 0, 0, shared_events<PlainTraits<Basic>>},
		{"shared events, undoable", "", 0, 0, shared_events<UndoTraits>},
	};
}
