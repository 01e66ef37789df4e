// C26: what comes back to where it was holds no more memory than before.
#include "core_sim.hpp"
#include "event_gen.hpp"
#include "room_sim.hpp"

#include <sanitizer/allocator_interface.h>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>

namespace
{

using pbt::Case;
using pbt::Src;
using namespace core_sim;

uint64_t in_use() { return __sanitizer_get_current_allocated_bytes(); }

struct Growth
{
	bool always;
	std::string text;
};

// Rounds are repeated until memory stops growing. Anything that is kept of each
// round makes it grow whenever the number of rounds doubles.
template<typename Round, typename Measure>
Growth grow(Round round, Measure measure)
{
	std::array<int64_t, 6> seen{};
	uint32_t done = 0;
	for(size_t i = 0; i < seen.size(); i++)
	{
		for(; done < (8U << i); done++)
			round();
		seen[i] = measure();
		if(i >= 2 && seen[i] <= seen[i - 1] && seen[i - 1] <= seen[i - 2])
			return {false, {}};
	}
	std::ostringstream os;
	bool always = true;
	for(size_t i = 0; i < seen.size(); i++)
	{
		os << (i == 0 ? "" : ", ") << seen[i] << " after " << (8U << i);
		always = always && (i == 0 || seen[i] > seen[i - 1]);
	}
	return {always, os.str()};
}

template<typename Round>
void steady(char const* what, Round round)
{
	auto const g = grow(round, [] { return static_cast<int64_t>(in_use()); });
	if(g.always)
		pbt::failf(what, " takes more and more memory as the same is "
		                 "repeated: bytes in use are ",
		           g.text, " rounds");
}

// ------------------------------------------------------ Duels, by messages

// What is written when there's nothing at all on the field.
Writer nothing_left()
{
	Writer w;
	w.u8(RELOAD_FIELD);
	w.u32(0);
	for(int con = 0; con < 2; con++)
	{
		w.u32(8000);
		for(int z = 0; z < 15; z++)
			w.u8(0);
		for(int i = 0; i < 6; i++)
			w.u32(0);
	}
	w.u32(0);
	return w;
}

void duels(Src& s, Case& c)
{
	std::vector<std::vector<uint8_t>> stream;
	{
		Duel<Basic> d(s, c, s.coin());
		d.sent = [&](Writer const& w) { stream.push_back(w.b); };
		d.begin();
		for(uint32_t n = 1 + s.below(30); n > 0; n--)
			d.step();
	}
	stream.push_back(nothing_left().b);
	bool const client = s.coin();
	auto ctx = std::make_unique<YGOpen::Server::BasicEncodeContext>();
	auto board = std::make_unique<
		YGOpen::Client::BasicBoard<core_sim::BoardTraits<Basic>>>();
	Arena arena;
	steady(client ? "a board fed with a duel" : "the context of the encoder",
	       [&]
	       {
			   for(auto const& bytes : stream)
			   {
				   auto const r = YGOpen::Codec::Edo9300::OCGCore::encode_one(
					   arena, *ctx, bytes.data());
				   if(r.msg != nullptr)
				   {
					   ctx->parse(*r.msg);
					   if(client && r.msg->has_event())
						   parse_event(*board, r.msg->event());
					   if(client)
						   for(auto const& q : r.msg->queries())
							   static_cast<void>(YGOpen::Client::parse_query(
								   board->frame(), q));
				   }
				   arena.Reset();
			   }
		   });
	c.label(client ? "board fed with a duel" : "context of the encoder");
	if(stream.size() >= 8)
		c.nontrivial();
}

// -------------------------------------------------------- Boards, by events

template<typename T>
using Und = YGOpen::Client::BasicUndoable<T>;

struct UndoTraits
{
	using BlockedZonesType = Und<std::vector<ProtoPlace>>;
	using ChainStackType = ref::UndoableChain;
	using FrameType = Limbo<Card>;
	using LPType = Und<uint32_t>;
	using PhaseType = Und<YGOpen::Duel::Phase>;
	using TurnControllerType = Und<Controller>;
	using TurnType = Und<uint32_t>;
};

struct PlainTraits : core_sim::BoardTraits<Basic>
{};

std::vector<ProtoEvent> gen_events(Src& s, Case& c, bool undoable)
{
	EventOptions opt;
	opt.max_cards = 60;
	if(undoable)
		opt.shuffle = false;
	EventGen gen(s, c, opt);
	BoardModel m;
	std::vector<ProtoEvent> r;
	for(uint32_t n = 3 + s.below(30); n > 0; n--)
	{
		ProtoEvent e;
		char const* const name = gen.next(m, e);
		if(name == nullptr)
			continue;
		gen.gone.clear();
		LOG(c, name, ": ", e.ShortDebugString());
		c.count(name);
		c.mix(e.SerializeAsString());
		r.push_back(std::move(e));
	}
	if(r.size() >= 4)
		c.nontrivial();
	return r;
}

void boards(Src& s, Case& c)
{
	auto const events = gen_events(s, c, false);
	ProtoEvent empty;
	empty.mutable_board()->mutable_state()->add_lps(8000);
	empty.mutable_board()->mutable_state()->add_lps(8000);
	auto b =
		std::make_unique<YGOpen::Client::BasicBoard<PlainTraits>>();
	steady("a board",
	       [&]
	       {
			   for(auto const& e : events)
				   parse_event(*b, e);
			   parse_event(*b, empty);
		   });
	c.label("board");
}

void histories(Src& s, Case& c)
{
	auto const events = gen_events(s, c, true);
	auto b = std::make_unique<YGOpen::Client::BasicBoard<UndoTraits>>();
	size_t const from = s.draw(events.size() + 1);
	for(size_t i = 0; i < from; i++)
		parse_event(*b, events[i]);
	steady("a board going back and forth in its history",
	       [&]
	       {
			   for(size_t i = from; i < events.size(); i++)
				   parse_event(*b, events[i]);
			   for(size_t i = events.size(); i > 0; i--)
				   undo_parse_event(*b, events[i - 1]);
			   for(size_t i = 0; i < from; i++)
				   parse_event(*b, events[i]);
		   });
	c.label("board with history");
}

// ------------------------------------------------------------------- Rooms

struct Guest
{
	YGOpen::Proto::User user;
	google::protobuf::Arena* of = nullptr;

	void send(room_sim::Ev const& e) { of = e.GetArena(); }
	void fill_user(YGOpen::Proto::User& u) const { u = user; }
};

struct Dice
{
	using result_type = uint32_t;
	pbt::Rng rng{1};
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFFFFFFU; }
	result_type operator()() { return static_cast<result_type>(rng.next()); }
};

struct RoomTraits
{
	using ClientType = Guest;
	using DeckValidatorType = room_sim::Validator;
	using CoreDuelFactoryType = room_sim::Factory;
	using RNGType = Dice;
};

void rooms(Src& s, Case& c)
{
	using namespace room_sim;
	using R = YGOpen::Server::BasicRoom<RoomTraits>;
	Validator validator;
	Factory factory;
	std::deque<Guest> guests;
	auto guest = [&]() -> Guest&
	{
		guests.emplace_back();
		guests.back().user.set_id("id" + std::to_string(guests.size()));
		guests.back().user.set_name(gen_text(s));
		return guests.back();
	};
	auto options = gen_options(s);
	options.set_ftdm(s.pick(std::array{PR::FTDM_HOST_CHOOSES, PR::FTDM_RPS,
	                                   PR::FTDM_DICE, PR::FTDM_COIN}));
	LOG(c, "room ", text(options));
	c.mix(options.SerializeAsString());
	R room(validator, factory, Dice{}, guest(), options);
	for(uint32_t n = s.size(8); n > 0; n--)
		room.enter(guest());
	auto deck = [&](bool good)
	{
		Sig sig;
		auto& d = *sig.mutable_configuring()->mutable_update_deck();
		d.set_title(good ? "+" : "-");
		gen_codes(s, *d.mutable_data()->mutable_main_cards());
		gen_codes(s, *d.mutable_data()->mutable_side_cards());
		return sig;
	};
	auto ready = [](bool on)
	{
		Sig sig;
		sig.mutable_configuring()->set_ready_status(on);
		return sig;
	};
	Sig start;
	start.mutable_configuring()->set_start_dueling(true);
	if(s.coin())
	{
		LOG(c, "the first turn is decided");
		for(auto& g : guests)
		{
			room.visit(g, deck(true));
			room.visit(g, ready(true));
		}
		room.visit(guests.front(), start);
		c.label("room, first turn");
	}
	else
		c.label("room, configuring");
	std::vector<std::pair<Guest*, Sig>> signals;
	for(uint32_t n = 1 + s.size(12); n > 0; n--)
	{
		Guest& g = guests[s.draw(guests.size())];
		Sig sig;
		switch(s.below(5))
		{
		case 0:
			sig = deck(s.coin());
			break;
		case 1:
			sig = ready(s.coin());
			break;
		case 2:
			sig = start;
			break;
		case 3:
			sig.mutable_deciding_first_turn()->set_team_going_first(s.below(3));
			break;
		default:
			break;
		}
		LOG(c, "user ", g.user.id(), ": ", text(sig));
		c.mix(sig.SerializeAsString());
		signals.emplace_back(&g, std::move(sig));
	}
	if(signals.size() >= 3)
		c.nontrivial();
	// (Starting the duel happens in the first rounds, if at all.)
	steady("a room",
	       [&]
	       {
			   for(auto const& p : signals)
			   {
				   room.visit(*p.first, p.second);
				   validator.calls.clear();
			   }
		   });
}

void all(Src& s, Case& c)
{
	switch(s.draw(4))
	{
	case 0:
		return duels(s, c);
	case 1:
		return boards(s, c);
	case 2:
		return histories(s, c);
	default:
		return rooms(s, c);
	}
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C26",
	     "A stream of core messages of 1 to 30 steps of a simulated duel that "
	     "ends with an empty field (through the encoder and its context, or on "
	     "to a client's board), 3 to 32 events and a clean board, 3 to 32 "
	     "events done and undone on a board with history, or 1 to 13 signals to "
	     "a room; repeated 32 to 256 times, while memory in use is measured. "
	     "Non-trivial: at least 8 messages, 4 events or 3 signals.",
	     2500, 60000, all},
	};
}
