// C25 named constants.
#include "wire.hpp"

#include <memory>
#include <ygopen/client/board.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/reason.hpp>
#include <ygopen/duel/constants/rock_paper_scissors.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>
#include <ygopen/proto/duel/answer.hpp>

namespace
{

using namespace wire;
namespace D = YGOpen::Duel;
using YGOpen::Proto::Duel::Answer;

struct Name
{
	char const* name;
	uint64_t core; // The core's bit, as its documentation has it.
	uint64_t ours; // The library's constant.
};
using Names = std::vector<Name>;

// The core numbers the bits of each kind in this order; 0 is for bits that
// the library has no name for.
Names kind(std::vector<std::pair<char const*, uint64_t>> const& in_order)
{
	Names r;
	for(size_t i = 0; i < in_order.size(); i++)
		if(in_order[i].first != nullptr)
			r.push_back({in_order[i].first, 1ULL << i, in_order[i].second});
	return r;
}
#define N(name) {#name, static_cast<uint64_t>(D::name)}
#define SKIP {nullptr, 0}

Names const& attributes()
{
	static Names const r = kind(
		{N(ATTRIBUTE_EARTH), N(ATTRIBUTE_WATER), N(ATTRIBUTE_FIRE),
	     N(ATTRIBUTE_WIND), N(ATTRIBUTE_LIGHT), N(ATTRIBUTE_DARK),
	     N(ATTRIBUTE_DIVINE)});
	return r;
}
Names const& arrows()
{
	static Names const r = kind(
		{N(LINK_ARROW_BOTTOM_LEFT), N(LINK_ARROW_BOTTOM),
	     N(LINK_ARROW_BOTTOM_RIGHT), N(LINK_ARROW_LEFT), SKIP,
	     N(LINK_ARROW_RIGHT), N(LINK_ARROW_TOP_LEFT), N(LINK_ARROW_TOP),
	     N(LINK_ARROW_TOP_RIGHT)});
	return r;
}
Names const& locations()
{
	static Names const r = kind(
		{N(LOCATION_MAIN_DECK), N(LOCATION_HAND), N(LOCATION_MONSTER_ZONE),
	     N(LOCATION_SPELL_ZONE), N(LOCATION_GRAVEYARD), N(LOCATION_BANISHED),
	     N(LOCATION_EXTRA_DECK), SKIP, N(LOCATION_FIELD_ZONE),
	     N(LOCATION_PENDULUM_ZONE)});
	return r;
}
Names const& phases()
{
	static Names const r = kind(
		{N(PHASE_DRAW), N(PHASE_STAND_BY), N(PHASE_MAIN_1),
	     N(PHASE_BATTLE_START), N(PHASE_BATTLE_BATTLE_STEP),
	     N(PHASE_BATTLE_DAMAGE), N(PHASE_BATTLE_DAMAGE_CALC), N(PHASE_BATTLE),
	     N(PHASE_MAIN_2), N(PHASE_END)});
	return r;
}
Names const& positions()
{
	static Names const r = kind(
		{N(POSITION_FACE_UP_ATTACK), N(POSITION_FACE_DOWN_ATTACK),
	     N(POSITION_FACE_UP_DEFENSE), N(POSITION_FACE_DOWN_DEFENSE)});
	return r;
}
Names const& races()
{
	static Names const r = kind(
		{N(RACE_WARRIOR), N(RACE_SPELLCASTER), N(RACE_FAIRY), N(RACE_FIEND),
	     N(RACE_ZOMBIE), N(RACE_MACHINE), N(RACE_AQUA), N(RACE_PYRO),
	     N(RACE_ROCK), N(RACE_WINGEDBEAST), N(RACE_PLANT), N(RACE_INSECT),
	     N(RACE_THUNDER), N(RACE_DRAGON), N(RACE_BEAST), N(RACE_BEASTWARRIOR),
	     N(RACE_DINOSAUR), N(RACE_FISH), N(RACE_SEASERPENT), N(RACE_REPTILE),
	     N(RACE_PSYCHIC), N(RACE_DIVINE), N(RACE_CREATORGOD), N(RACE_WYRM),
	     N(RACE_CYBERSE), N(RACE_ILLUSIONIST), N(RACE_CYBORG),
	     N(RACE_MAGICALKNIGHT), N(RACE_HIGHDRAGON), N(RACE_OMEGAPSYCHIC),
	     N(RACE_CELESTIALWARRIOR), N(RACE_GALAXY)});
	return r;
}
Names const& reasons()
{
	static Names const r = kind(
		{N(REASON_DESTROY), N(REASON_RELEASE), N(REASON_TEMPORARY),
	     N(REASON_MATERIAL), N(REASON_SUMMON), N(REASON_BATTLE),
	     N(REASON_EFFECT), N(REASON_COST), N(REASON_ADJUST),
	     N(REASON_LOST_TARGET), N(REASON_RULE), N(REASON_SPSUMMON), SKIP,
	     N(REASON_FLIP), N(REASON_DISCARD), N(REASON_REV_DAMAGE),
	     N(REASON_REV_RECOVER), N(REASON_RETURN), N(REASON_FUSION),
	     N(REASON_SYNCHRO), N(REASON_RITUAL), N(REASON_XYZ), SKIP, SKIP,
	     N(REASON_REPLACE), N(REASON_DRAW), N(REASON_REDIRECT),
	     N(REASON_REVEAL), N(REASON_LINK)});
	return r;
}
Names const& statuses()
{
	static Names const r = kind(
		{N(STATUS_DISABLED), N(STATUS_TO_ENABLE), N(STATUS_TO_DISABLE),
	     N(STATUS_PROC_COMPLETE), N(STATUS_SET_TURN), N(STATUS_NO_LEVEL),
	     N(STATUS_BATTLE_RESULT), N(STATUS_SPSUMMON_STEP),
	     N(STATUS_FORM_CHANGED), N(STATUS_SUMMONING), N(STATUS_EFFECT_ENABLED),
	     N(STATUS_SUMMON_TURN), N(STATUS_DESTROY_CONFIRMED),
	     N(STATUS_LEAVE_CONFIRMED), N(STATUS_BATTLE_DESTROYED),
	     N(STATUS_COPYING_EFFECT), N(STATUS_CHAINING),
	     N(STATUS_SUMMON_DISABLED), N(STATUS_ACTIVATE_DISABLED),
	     N(STATUS_EFFECT_REPLACED), N(STATUS_FUTURE_FUSION),
	     N(STATUS_ATTACK_CANCELED), N(STATUS_INITIALIZING), SKIP,
	     N(STATUS_JUST_POS), N(STATUS_CONTINUOUS_POS), N(STATUS_FORBIDDEN),
	     N(STATUS_ACT_FROM_HAND), N(STATUS_OPPO_BATTLE),
	     N(STATUS_FLIP_SUMMON_TURN), N(STATUS_SPSUMMON_TURN)});
	return r;
}
Names const& types()
{
	static Names const r = kind(
		{N(TYPE_MONSTER), N(TYPE_SPELL), N(TYPE_TRAP), SKIP, N(TYPE_NORMAL),
	     N(TYPE_EFFECT), N(TYPE_FUSION), N(TYPE_RITUAL), N(TYPE_TRAPMONSTER),
	     N(TYPE_SPIRIT), N(TYPE_UNION), N(TYPE_GEMINI), N(TYPE_TUNER),
	     N(TYPE_SYNCHRO), N(TYPE_TOKEN), N(TYPE_MAXIMUM), N(TYPE_QUICKPLAY),
	     N(TYPE_CONTINUOUS), N(TYPE_EQUIP), N(TYPE_FIELD), N(TYPE_COUNTER),
	     N(TYPE_FLIP), N(TYPE_TOON), N(TYPE_XYZ), N(TYPE_PENDULUM),
	     N(TYPE_SPSUMMON), N(TYPE_LINK)});
	return r;
}
#undef SKIP
#undef N

// Names that something has, per the core.
struct Chosen
{
	Names const* all;
	std::vector<bool> has;
	uint64_t bits = 0;
	size_t count = 0;
};

Chosen choose(Src& s, Case& c, Names const& all)
{
	Chosen r{&all, std::vector<bool>(all.size()), 0, 0};
	uint32_t const density = s.below(4);
	auto add = [&](size_t i)
	{
		if(r.has[i])
			return;
		r.has[i] = true;
		r.bits |= all[i].core;
		r.count++;
		c.log(all[i].name);
	};
	if(density == 0)
		add(s.draw(all.size()));
	else
		for(size_t i = 0; i < all.size(); i++)
			if(s.chance(density, 4))
				add(i);
	c.mix(r.bits);
	return r;
}

// Exactly one.
Chosen choose_one(Src& s, Case& c, Names const& all)
{
	Chosen r{&all, std::vector<bool>(all.size()), 0, 1};
	size_t const i = s.draw(all.size());
	r.has[i] = true;
	r.bits = all[i].core;
	c.log(all[i].name);
	c.mix(r.bits);
	return r;
}

// Asks the way users do: is the named one among `value`?
void same_names(Chosen const& want, uint64_t value, char const* what)
{
	for(size_t i = 0; i < want.has.size(); i++)
	{
		auto const& n = (*want.all)[i];
		bool const any = (value & n.ours) != 0;
		bool const all = any && (value & n.ours) == n.ours;
		if(any != want.has[i] || all != want.has[i])
			pbt::failf(what, want.has[i] ? " should be " : " shouldn't be ",
			           n.name);
		// A single one is compared for equality too.
		if(want.count == 1 && (value == n.ours) != want.has[i])
			pbt::failf(what, " and nothing else should be ", n.name);
	}
}

ProtoMsg encode(YGOpen::Codec::IEncodeContext& ctx, Bytes const& b,
                google::protobuf::Arena& arena)
{
	std::unique_ptr<uint8_t[]> const buffer(new uint8_t[b.size()]);
	std::memcpy(buffer.get(), b.data(), b.size());
	auto const r = YGOpen::Codec::Edo9300::OCGCore::encode_one(arena, ctx,
	                                                           buffer.get());
	CHECK(r.state == EncodeState::OK && r.msg != nullptr, "not encoded");
	CHECK_EQ(r.bytes_read, b.size());
	return *r.msg;
}

// A card described by the core, as the client has it.
void card(Src& s, Case& c)
{
	using Card = YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>;
	c.label("card");
	auto const position = choose_one(s, c, positions());
	auto const type = choose(s, c, types());
	auto const attribute = choose(s, c, attributes());
	auto const race = choose(s, c, races());
	auto const status = choose(s, c, statuses());
	auto const arrow = choose(s, c, arrows());
	uint32_t const owner = s.below(2);
	Writer w;
	auto field = [&](uint32_t flag, size_t size)
	{
		w.u16(4 + size);
		w.u32(flag);
	};
	field(0x2, 4);
	w.u32(position.bits);
	field(0x8, 4);
	w.u32(type.bits);
	field(0x40, 4);
	w.u32(attribute.bits);
	field(0x80, 8);
	w.u64(race.bits);
	field(0x40000, 1);
	w.u8(owner);
	field(0x80000, 4);
	w.u32(status.bits);
	field(0x800000, 8);
	w.u32(arrow.count);
	w.u32(arrow.bits);
	field(0x80000000U, 0);
	std::unique_ptr<uint8_t[]> const buffer(new uint8_t[w.b.size()]);
	std::memcpy(buffer.get(), w.b.data(), w.b.size());
	ProtoQuery q;
	auto const r = YGOpen::Codec::Edo9300::OCGCore::encode_one_query(
		buffer.get(), *q.mutable_data());
	CHECK_EQ(r.bytes_read, w.b.size());
	YGOpen::Client::BasicFrame<Card> frame;
	P const p{static_cast<int>(owner), MZONE, s.below(5), -1};
	frame.card_add(p.proto());
	*q.mutable_place() = p.proto();
	static_cast<void>(YGOpen::Client::parse_query(frame, q));
	auto const& got = frame.card(p.proto());
	same_names(position, got.position(), "the card's position");
	same_names(type, got.type(), "the card's type");
	same_names(attribute, got.attribute(), "the card's attribute");
	same_names(race, got.race(), "the card's race");
	same_names(status, got.status(), "the card's status");
	same_names(arrow, got.link_arrow(), "the card's link arrow");
	CHECK_EQ(got.owner() == D::CONTROLLER_0, owner == 0);
	CHECK_EQ(got.owner() == D::CONTROLLER_1, owner == 1);
	if(type.count > 1 && race.count > 1)
		c.nontrivial();
}

// A card moves from one place to another, for some reasons.
void move(Src& s, Case& c)
{
	c.label("move");
	auto const reason = choose(s, c, reasons());
	struct Spot
	{
		uint8_t con;
		uint8_t loc; // As the core has it.
		uint32_t seq;
		D::Location ours;
	};
	auto spot = [&]() -> Spot
	{
		auto const con = gen_con(s);
		uint32_t const pile = s.below(6);
		uint32_t const seq = s.below(5);
		static constexpr Spot ALL[] = {
			{0, 0x01, 0, D::LOCATION_MAIN_DECK},
			{0, 0x02, 0, D::LOCATION_HAND},
			{0, 0x04, 0, D::LOCATION_MONSTER_ZONE},
			{0, 0x08, 0, D::LOCATION_SPELL_ZONE},
			{0, 0x10, 0, D::LOCATION_GRAVEYARD},
			{0, 0x20, 0, D::LOCATION_BANISHED},
			{0, 0x40, 0, D::LOCATION_EXTRA_DECK},
			{0, 0x08, 5, D::LOCATION_FIELD_ZONE},
			{0, 0x08, 6, D::LOCATION_PENDULUM_ZONE},
		};
		Spot r = ALL[s.draw(std::size(ALL))];
		r.con = con;
		if((r.loc & (0x4 | 0x8)) == 0)
			r.seq = pile;
		else if(r.seq == 0)
			r.seq = seq;
		else if(r.seq == 6)
			r.seq += seq % 2;
		return r;
	};
	auto const from = spot();
	auto const to = spot();
	auto const position = choose_one(s, c, positions());
	LOG(c, "from ", int{from.con}, ":", int{from.loc}, "[", from.seq, "] to ",
	    int{to.con}, ":", int{to.loc}, "[", to.seq, "]");
	MockContext ctx;
	for(auto& side : ctx.sizes)
		side.fill(10);
	google::protobuf::Arena arena;
	Writer w;
	w.u8(MOVE);
	w.u32(s.u32());
	for(auto const& p : {from, to})
	{
		w.u8(p.con);
		w.u8(p.loc);
		w.u32(p.seq);
		w.u32(position.bits);
	}
	w.u32(reason.bits);
	auto const msg = encode(ctx, w.b, arena);
	auto const& e = msg.event();
	same_names(reason, e.card().reason(), "the move's reason");
	CHECK(e.card().has_move(), "not a move");
	CHECK_EQ(e.card().move().ops_size(), 1);
	auto const& m = e.card().move().ops(0);
	auto same = [&](Spot const& want, ProtoPlace const& got)
	{
		for(auto const& n : locations())
			CHECK_EQ(static_cast<uint64_t>(got.loc()) == n.ours,
			         static_cast<uint64_t>(want.ours) == n.ours, n.name);
		CHECK_EQ(got.con() == D::CONTROLLER_0, want.con == 0);
		CHECK_EQ(got.con() == D::CONTROLLER_1, want.con == 1);
	};
	same(from, m.old_place());
	same(to, m.new_place());
	if(reason.count > 1)
		c.nontrivial();
}

struct Traits
{
	using BlockedZonesType = std::vector<ProtoPlace>;
	using ChainStackType = std::vector<YGOpen::Proto::Duel::Chain>;
	using FrameType = YGOpen::Client::BasicFrame<
		YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>>;
	using LPType = uint32_t;
	using PhaseType = D::Phase;
	using TurnControllerType = D::Controller;
	using TurnType = uint32_t;
};

// A new phase of a player's turn, as a board shows it.
void phase(Src& s, Case& c)
{
	c.label("phase");
	auto const con = gen_con(s);
	auto const now = choose_one(s, c, phases());
	MockContext ctx;
	google::protobuf::Arena arena;
	Writer turn;
	turn.u8(NEW_TURN);
	turn.u8(con);
	Writer w;
	w.u8(NEW_PHASE);
	w.u16(now.bits);
	YGOpen::Client::BasicBoard<Traits> board;
	YGOpen::Client::parse_event(board, encode(ctx, turn.b, arena).event());
	YGOpen::Client::parse_event(board, encode(ctx, w.b, arena).event());
	same_names(now, board.phase(), "the phase");
	CHECK_EQ(board.turn_controller() == D::CONTROLLER_0, con == 0);
	CHECK_EQ(board.turn_controller() == D::CONTROLLER_1, con == 1);
	c.nontrivial();
}

// What can be announced or chosen, by name, reaches the core.
void request(Src& s, Case& c)
{
	MockContext ctx;
	google::protobuf::Arena arena;
	Answer a;
	Bytes out;
	Writer w;
	auto const con = gen_con(s);
	auto pick = [&](Chosen const& from) -> Chosen
	{
		Chosen r = from;
		for(size_t i = 0; i < r.has.size(); i++)
			if(r.has[i] && s.coin())
			{
				r.has[i] = false;
				r.bits &= ~(*r.all)[i].core;
				r.count--;
			}
		if(r.count > 1)
			c.nontrivial();
		return r;
	};
	// Said with our names.
	auto said = [](Chosen const& what)
	{
		uint64_t r = 0;
		for(size_t i = 0; i < what.has.size(); i++)
			if(what.has[i])
				r |= (*what.all)[i].ours;
		return r;
	};
	auto heard = [&](ProtoRequest const& req) -> uint64_t
	{
		YGOpen::Codec::Edo9300::OCGCore::decode_one_answer(req, a, out);
		uint64_t v = 0;
		for(size_t i = 0; i < out.size() && i < 8; i++)
			v |= static_cast<uint64_t>(out[i]) << (8U * i);
		return v;
	};
	switch(s.draw(4))
	{
	case 0:
	{
		c.label("races");
		auto const have = choose(s, c, races());
		w.u8(ANNOUNCE_RACE);
		w.u8(con);
		w.u8(1);
		w.u64(have.bits);
		auto const msg = encode(ctx, w.b, arena);
		same_names(have, msg.request().select_race().race(), "the race");
		auto const mine = pick(have);
		a.set_select_race(said(mine));
		CHECK_EQ(heard(msg.request()), mine.bits);
		break;
	}
	case 1:
	{
		c.label("attributes");
		auto const have = choose(s, c, attributes());
		w.u8(ANNOUNCE_ATTRIB);
		w.u8(con);
		w.u8(1);
		w.u32(have.bits);
		auto const msg = encode(ctx, w.b, arena);
		same_names(have, msg.request().select_attribute().attribute(),
		           "the attribute");
		auto const mine = pick(have);
		a.set_select_attribute(static_cast<uint32_t>(said(mine)));
		CHECK_EQ(heard(msg.request()), mine.bits);
		break;
	}
	case 2:
	{
		c.label("positions");
		auto const have = choose(s, c, positions());
		w.u8(SELECT_POSITION);
		w.u8(con);
		w.u32(s.u32());
		w.u8(have.bits);
		auto const msg = encode(ctx, w.b, arena);
		same_names(have, msg.request().select_position().position(),
		           "the position");
		auto const mine = pick(have);
		a.set_select_position(static_cast<uint32_t>(said(mine)));
		CHECK_EQ(heard(msg.request()), mine.bits);
		c.nontrivial();
		break;
	}
	default:
	{
		c.label("rock, paper, scissors");
		w.u8(ROCK_PAPER_SCISSORS);
		w.u8(con);
		auto const msg = encode(ctx, w.b, arena);
		// The core's numbers: each beats the one before, the first beats the
		// last.
		using enum_type = D::RockPaperScissors;
		static constexpr enum_type HANDS[] = {D::ROCK_PAPER_SCISSORS_ROCK,
		                                      D::ROCK_PAPER_SCISSORS_PAPER,
		                                      D::ROCK_PAPER_SCISSORS_SCISSOR};
		size_t const x = s.draw(3);
		size_t const y = s.draw(3);
		LOG(c, "hands ", x, " and ", y);
		c.mix(x * 3 + y);
		a.set_select_rock_paper_scissors(HANDS[x]);
		auto const first = heard(msg.request());
		a.set_select_rock_paper_scissors(HANDS[y]);
		auto const second = heard(msg.request());
		auto core_says = [](uint64_t p, uint64_t q)
		{
			CHECK(p >= 1 && p <= 3 && q >= 1 && q <= 3, "not a hand");
			if(p == q)
				return 2;
			bool const beaten = (p == 1 && q == 2) || (p == 2 && q == 3) ||
			                    (p == 3 && q == 1);
			return beaten ? 1 : 0;
		};
		// Paper beats rock, scissors beat paper, rock beats scissors.
		int const rules = x == y ? 2 : (x + 1) % 3 == y ? 1 : 0;
		CHECK_EQ(core_says(first, second), rules);
		c.nontrivial();
		break;
	}
	}
}

void c25(Src& s, Case& c)
{
	auto cons = YGOpen::Duel::all_controllers();
	CHECK(cons.size() == 2 && *cons.begin() == D::CONTROLLER_0 &&
	          *(cons.begin() + 1) == D::CONTROLLER_1,
	      "the controllers are both players, in order");
	switch(s.draw(4))
	{
	case 0:
		card(s, c);
		break;
	case 1:
		move(s, c);
		break;
	case 2:
		phase(s, c);
		break;
	default:
		request(s, c);
		break;
	}
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C25",
	     "something that the core says (a card's traits, a move, a phase, a "
	     "request and its answer) made of a random set of named bits, asked "
	     "for by each of the library's names after encoding, or answered with "
	     "them; non-trivial: several names at once, or a choice that the core "
	     "has to understand; distinct by bits",
	     200000, 4000000, c25},
	};
}
