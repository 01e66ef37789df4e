// The wire format of the core, written from its documentation and not from
// the encoder: every generator makes the bytes of one core message together
// with the message that it must be translated to.
#ifndef VERIF_WIRE_HPP
#define VERIF_WIRE_HPP
#include "event_gen.hpp"

#include <cstring>
#include <functional>
#include <set>
#include <ygopen/codec/encode_common.hpp>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace wire
{

using namespace ref;
using ProtoRequest = ProtoMsg::Request;
using ProtoQuery = ProtoMsg::Query;
using Bytes = std::vector<uint8_t>;
using EncodeState = YGOpen::Codec::EncodeOneResult::State;

// Message types of the core.
enum : uint8_t
{
	RETRY = 1,
	HINT = 2,
	START = 4,
	WIN = 5,
	UPDATE_DATA = 6,
	UPDATE_CARD = 7,
	SELECT_BATTLECMD = 10,
	SELECT_IDLECMD = 11,
	SELECT_EFFECTYN = 12,
	SELECT_YESNO = 13,
	SELECT_OPTION = 14,
	SELECT_CARD = 15,
	SELECT_CHAIN = 16,
	SELECT_PLACE = 18,
	SELECT_POSITION = 19,
	SELECT_TRIBUTE = 20,
	SORT_CHAIN = 21,
	SELECT_COUNTER = 22,
	SELECT_SUM = 23,
	SELECT_DISFIELD = 24,
	SORT_CARD = 25,
	SELECT_UNSELECT_CARD = 26,
	CONFIRM_DECKTOP = 30,
	CONFIRM_CARDS = 31,
	SHUFFLE_DECK = 32,
	SHUFFLE_HAND = 33,
	SWAP_GRAVE_DECK = 35,
	SHUFFLE_SET_CARD = 36,
	REVERSE_DECK = 37,
	DECK_TOP = 38,
	SHUFFLE_EXTRA = 39,
	NEW_TURN = 40,
	NEW_PHASE = 41,
	CONFIRM_EXTRATOP = 42,
	MOVE = 50,
	POS_CHANGE = 53,
	SET = 54,
	SWAP = 55,
	FIELD_DISABLED = 56,
	SUMMONING = 60,
	SUMMONED = 61,
	SPSUMMONING = 62,
	SPSUMMONED = 63,
	FLIPSUMMONING = 64,
	FLIPSUMMONED = 65,
	CHAINING = 70,
	CHAINED = 71,
	CHAIN_SOLVING = 72,
	CHAIN_SOLVED = 73,
	CHAIN_END = 74,
	CHAIN_NEGATED = 75,
	CHAIN_DISABLED = 76,
	CARD_SELECTED = 80,
	RANDOM_SELECTED = 81,
	BECOME_TARGET = 83,
	DRAW = 90,
	DAMAGE = 91,
	RECOVER = 92,
	EQUIP = 93,
	LPUPDATE = 94,
	CARD_TARGET = 96,
	CANCEL_TARGET = 97,
	PAY_LPCOST = 100,
	ADD_COUNTER = 101,
	REMOVE_COUNTER = 102,
	ATTACK = 110,
	BATTLE = 111,
	ATTACK_DISABLED = 112,
	DAMAGE_STEP_START = 113,
	DAMAGE_STEP_END = 114,
	MISSED_EFFECT = 120,
	TOSS_COIN = 130,
	TOSS_DICE = 131,
	ROCK_PAPER_SCISSORS = 132,
	HAND_RES = 133,
	ANNOUNCE_RACE = 140,
	ANNOUNCE_ATTRIB = 141,
	ANNOUNCE_CARD = 142,
	ANNOUNCE_NUMBER = 143,
	ANNOUNCE_CARD_FILTER = 144,
	CARD_HINT = 160,
	TAG_SWAP = 161,
	RELOAD_FIELD = 162,
	AI_NAME = 163,
	PLAYER_HINT = 165,
	MATCH_KILL = 170,
};

constexpr uint32_t OVERLAY = 0x80;
constexpr int NO_OSEQ = -1;

class Writer
{
public:
	Bytes b;
	template<typename T>
	void put(std::common_type_t<T> v)
	{
		for(size_t i = 0; i < sizeof(T); i++)
			b.push_back(static_cast<uint8_t>(static_cast<uint64_t>(v) >>
			                                 (8U * i)));
	}
	void u8(uint64_t v) { put<uint8_t>(static_cast<uint8_t>(v)); }
	void u16(uint64_t v) { put<uint16_t>(static_cast<uint16_t>(v)); }
	void u32(uint64_t v) { put<uint32_t>(static_cast<uint32_t>(v)); }
	void u64(uint64_t v) { put<uint64_t>(v); }
	void append(Bytes const& o) { b.insert(b.end(), o.begin(), o.end()); }
};

// A place as the core writes it.
struct CorePlace
{
	uint8_t con = 0;
	uint32_t loc = 0; // With OVERLAY for materials.
	uint32_t seq = 0;
	uint32_t pos = 0; // Position, or the material's sequence.

	// What it means for us.
	P meaning() const
	{
		P p{con, loc & ~OVERLAY, seq,
		    (loc & OVERLAY) != 0 ? static_cast<int>(pos) : NO_OSEQ};
		if(p.loc == SZONE && seq == 5)
			p.loc = FZONE, p.seq = 0;
		else if(p.loc == SZONE && seq >= 6)
			p.loc = PZONE, p.seq = seq - 6;
		return p;
	}
	P spot() const
	{
		P p = meaning();
		p.oseq = NO_OSEQ;
		return p;
	}
	void info(Writer& w) const // loc_info
	{
		w.u8(con);
		w.u8(loc);
		w.u32(seq);
		w.u32(pos);
	}
	void brief32(Writer& w) const
	{
		w.u8(con);
		w.u8(loc);
		w.u32(seq);
	}
	void brief8(Writer& w) const
	{
		w.u8(con);
		w.u8(loc);
		w.u8(seq);
	}
};

// The core's name of one of our places.
inline CorePlace core_place(P const& p, uint32_t pos = 0)
{
	CorePlace c{static_cast<uint8_t>(p.con), p.loc, p.seq, pos};
	if(p.loc == FZONE)
		c.loc = SZONE, c.seq = 5 + p.seq;
	else if(p.loc == PZONE)
		c.loc = SZONE, c.seq = 6 + p.seq;
	if(p.oseq >= 0)
		c.loc |= OVERLAY, c.pos = static_cast<uint32_t>(p.oseq);
	return c;
}

inline uint8_t gen_con(Src& s) { return static_cast<uint8_t>(s.draw(2)); }

inline uint32_t gen_small(Src& s)
{
	return s.chance(1, 4) ? s.u32() : static_cast<uint32_t>(s.draw(60));
}

inline CorePlace gen_zone_place(Src& s)
{
	CorePlace c;
	c.con = gen_con(s);
	c.loc = s.coin() ? SZONE : MZONE;
	c.seq = c.loc == MZONE ? s.below(7) : s.below(8);
	c.pos = s.chance(1, 3) ? s.u32() : 1U << s.below(4);
	return c;
}

inline CorePlace gen_pile_place(Src& s)
{
	CorePlace c;
	c.con = gen_con(s);
	c.loc = PILES[s.below(5)];
	c.seq = gen_small(s);
	c.pos = s.chance(1, 3) ? s.u32() : 1U << s.below(4);
	return c;
}

// A place of a card, not of a material.
inline CorePlace gen_card_place(Src& s)
{
	return s.coin() ? gen_pile_place(s) : gen_zone_place(s);
}

inline CorePlace as_material(Src& s, CorePlace c)
{
	c.loc |= OVERLAY;
	c.pos = s.chance(1, 5) ? s.u32() & 0x7FFFFFFFU : s.below(6);
	return c;
}

// Any place of a card or of a material.
inline CorePlace gen_place(Src& s)
{
	CorePlace c = gen_card_place(s);
	return s.chance(1, 4) ? as_material(s, c) : c;
}

inline CorePlace gen_place_or_none(Src& s)
{
	return s.chance(1, 5) ? CorePlace{} : gen_place(s);
}

inline CorePlace gen_place8(Src& s)
{
	CorePlace c = gen_card_place(s);
	c.seq &= 0xFFU;
	return c;
}

inline void set(ProtoPlace* to, P const& p)
{
	to->set_con(p.con);
	to->set_loc(p.loc);
	to->set_seq(p.seq);
	to->set_oseq(p.oseq);
}

// Effect descriptions: code << 20 | index.
struct Desc
{
	uint32_t code;
	uint32_t index;
	uint64_t value() const
	{
		return (static_cast<uint64_t>(code) << 20U) | index;
	}
};

inline Desc gen_desc(Src& s)
{
	return {s.u32(), s.u32() & 0xFFFFFU};
}

inline void set(YGOpen::Proto::Duel::Effect* to, Desc const& d)
{
	to->set_code(d.code);
	to->set_index(d.index);
}

// State of a context as the encoder sees it through the interface.
class MockContext final : public YGOpen::Codec::IEncodeContext
{
public:
	std::array<std::array<uint32_t, 5>, 2> sizes{};
	std::set<std::tuple<int, uint32_t, uint32_t>> mats;
	uint32_t win = 0;
	std::vector<P> deferred;
	std::map<std::tuple<int, uint32_t, uint32_t>, P> left;

	bool operator==(MockContext const& o) const
	{
		return sizes == o.sizes && mats == o.mats && win == o.win &&
		       deferred == o.deferred && left == o.left;
	}

	static auto key(P const& p) { return std::make_tuple(p.con, p.loc, p.seq); }

	auto pile_size(Con con, Loc loc) const noexcept -> size_t override
	{
		int const i = pile_index(loc);
		return i < 0 ? 0 : sizes[con & 1][i];
	}
	auto get_match_win_reason() const noexcept -> uint32_t override
	{
		return win;
	}
	auto has_xyz_mat(Place const& p) const noexcept -> bool override
	{
		return mats.count(key(P::of(p))) != 0;
	}
	auto get_xyz_left(Place const& p) const noexcept -> Place override
	{
		auto it = left.find(key(P::of(p)));
		return it != left.end() ? it->second.proto() : Place{};
	}
	auto match_win_reason(uint32_t r) noexcept -> void override { win = r; }
	auto xyz_mat_defer(Place const& p) noexcept -> void override
	{
		deferred.push_back(P::of(p));
	}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override
	{
		std::vector<Place> r;
		for(auto const& p : deferred)
			r.push_back(p.proto());
		deferred.clear();
		return r;
	}
	auto xyz_left(Place const& to, Place const& from) noexcept -> void override
	{
		// Only asked for cards in piles.
		if(pile_index(to.loc()) >= 0)
			left[key(P::of(to))] = P::of(from);
	}
};

struct CoreMsg
{
	char const* name = "";
	Bytes bytes;
	EncodeState state = EncodeState::OK;
	ProtoMsg want;
	// Context after the message (only what matters of it).
	std::function<void(MockContext&)> effect;
	// Replaces the comparison with `want`, for messages that can be told in
	// several ways.
	std::function<void(ProtoMsg const&)> judge;
	// The origin of cards that come to here doesn't matter.
	P no_origin{0, 0, 0, NO_OSEQ};
	bool variable = false; // Has content of variable length.
};

using Gen = void (*)(Src&, MockContext const&, CoreMsg&, Writer&);
struct NamedGen
{
	char const* name;
	Gen gen;
};

inline CoreMsg make(Src& s, MockContext const& ctx, NamedGen const& g)
{
	CoreMsg m;
	m.name = g.name;
	Writer w;
	g.gen(s, ctx, m, w);
	m.bytes = std::move(w.b);
	return m;
}

// Sizes of lists: mostly small, at times near the limit of the count's type.
// Whether lists with counts of 32 bits may, seldom, have that many entries.
inline thread_local bool huge = false;
struct Huge
{
	Huge() { huge = true; }
	~Huge() { huge = false; }
};

inline uint32_t gen_count(Src& s, CoreMsg& m, uint32_t big = 70)
{
	uint32_t n = s.size(6);
	if(s.chance(1, 40))
	{
		n = s.below(big + 1);
		if(huge && big == 300 && s.chance(1, 2000))
			n = 65500 + s.below(300);
	}
	if(n != 0)
		m.variable = true;
	return n;
}

inline auto* meta(CoreMsg& m) { return m.want.mutable_event()->mutable_meta(); }

/*
 * Events.
 */

template<uint8_t Type>
void gen_confirm(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto* confirm = meta(m)->mutable_confirm();
	w.u8(Type);
	w.u8(gen_con(s));
	uint32_t const n = gen_count(s, m, 300);
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		auto const p = gen_card_place(s);
		w.u32(s.u32());
		p.brief32(w);
		set(confirm->add_places(), p.spot());
	}
}

template<uint8_t Type, uint32_t Loc>
void gen_shuffle_pile(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	w.u8(Type);
	w.u8(con);
	if constexpr(Type != SHUFFLE_DECK)
	{
		uint32_t const n = gen_count(s, m, 100);
		w.u32(n);
		for(uint32_t i = 0; i < n; i++)
			w.u32(s.u32());
	}
	set(meta(m)->mutable_shuffle_pile()->add_places(), P{con, Loc, 0, NO_OSEQ});
}

inline void gen_shuffle_set_card(Src& s, MockContext const&, CoreMsg& m,
                                 Writer& w)
{
	auto* shuffle = m.want.mutable_event()->mutable_card()->mutable_shuffle();
	w.u8(SHUFFLE_SET_CARD);
	uint32_t const loc = s.coin() ? SZONE : MZONE;
	w.u8(loc);
	uint32_t const n = s.size(7);
	m.variable = n != 0;
	w.u8(n);
	for(uint32_t i = 0; i < n; i++)
	{
		auto const p = gen_zone_place(s);
		p.info(w);
		set(shuffle->add_previous_places(), p.meaning());
	}
	for(uint32_t i = 0; i < n; i++)
	{
		auto const p = s.coin() ? CorePlace{} : gen_zone_place(s);
		p.info(w);
		set(shuffle->add_current_places(), p.meaning());
	}
}

inline void gen_new_turn(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	w.u8(NEW_TURN);
	w.u8(con);
	m.want.mutable_event()->set_next_turn(con);
}

inline void gen_new_phase(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	uint32_t const phase = s.coin() ? 1U << s.below(10) : s.u16();
	w.u8(NEW_PHASE);
	w.u16(phase);
	m.want.mutable_event()->set_next_phase(phase);
}

inline void gen_pos_change(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const p = gen_place8(s);
	w.u8(POS_CHANGE);
	w.u32(s.u32());
	p.brief8(w);
	w.u8(s.u8());
	w.u8(s.u8());
	set(meta(m)->mutable_update()->add_places(), p.spot());
}

inline void gen_set(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const p = gen_card_place(s);
	w.u8(SET);
	w.u32(s.u32());
	p.info(w);
	set(meta(m)->mutable_update()->add_places(), p.spot());
}

inline void gen_swap_cards(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const a = gen_place(s);
	auto const b = gen_place(s);
	w.u8(SWAP);
	w.u32(s.u32());
	a.info(w);
	w.u32(s.u32());
	b.info(w);
	auto* op = m.want.mutable_event()
	               ->mutable_card()
	               ->mutable_exchange()
	               ->add_ops();
	set(op->mutable_place_a(), a.meaning());
	set(op->mutable_place_b(), b.meaning());
}

// Zones as the core numbers them, those of one player first.
inline std::vector<P> zone_bits(int first)
{
	std::vector<P> r;
	for(int half = 0; half < 2; half++)
	{
		int const con = half == 0 ? first : 1 - first;
		for(uint32_t i = 0; i < 16; i++)
		{
			P p{con, 0, 0, NO_OSEQ}; // Bit 7 is no zone.
			if(i < 7)
				p.loc = MZONE, p.seq = i;
			else if(i >= 8 && i < 13)
				p.loc = SZONE, p.seq = i - 8;
			else if(i == 13)
				p.loc = FZONE;
			else if(i >= 14)
				p.loc = PZONE, p.seq = i - 14;
			r.push_back(p);
		}
	}
	return r;
}

inline void gen_field_disabled(Src& s, MockContext const&, CoreMsg& m,
                               Writer& w)
{
	uint32_t bits = s.u32();
	if(s.coin())
		bits &= s.u32() & s.u32();
	w.u8(FIELD_DISABLED);
	w.u32(bits);
	auto* block = m.want.mutable_event()->mutable_zone_block();
	auto const zones = zone_bits(0);
	for(uint32_t i = 0; i < 32; i++)
		if((bits >> i & 1U) != 0 && zones[i].loc != 0)
			set(block->add_zones(), zones[i]);
}

template<uint8_t Type, uint32_t Reason>
void gen_summoning(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const p = gen_card_place(s);
	w.u8(Type);
	w.u32(s.u32());
	p.info(w);
	auto* update = meta(m)->mutable_update();
	set(update->add_places(), p.meaning());
	update->set_reason(Reason);
}

inline void gen_chaining(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const p = gen_place(s);
	auto const t = gen_card_place(s);
	auto const d = gen_desc(s);
	w.u8(CHAINING);
	w.u32(s.u32());
	p.info(w);
	t.brief32(w);
	w.u64(d.value());
	w.u32(s.u32());
	auto* push = m.want.mutable_event()->mutable_chain_stack()->mutable_push();
	set(push->mutable_card_place(), p.meaning());
	set(push->mutable_place(), t.spot());
	set(push->mutable_effect(), d);
}

template<uint8_t Type, int Status>
void gen_chain_status(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	w.u8(Type);
	w.u8(s.u8());
	meta(m)->set_chain_status(
		static_cast<YGOpen::Proto::Duel::ChainStatus>(Status));
}

inline void gen_chain_solved(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	w.u8(CHAIN_SOLVED);
	w.u8(s.u8());
	m.want.mutable_event()->mutable_chain_stack()->set_pop(true);
}

template<uint8_t Type>
void gen_lp(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = s.u32();
	w.u8(Type);
	w.u8(con);
	w.u32(n);
	auto* lp = m.want.mutable_event()->mutable_lp();
	lp->set_controller(con);
	if constexpr(Type == DAMAGE)
		lp->set_damage(n);
	else if constexpr(Type == RECOVER)
		lp->set_recover(n);
	else if constexpr(Type == LPUPDATE)
		lp->set_become(n);
	else
		lp->set_pay(n);
}

template<uint8_t Type>
void gen_selected(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	w.u8(Type);
	if constexpr(Type == RANDOM_SELECTED)
		w.u8(gen_con(s));
	uint32_t const n = gen_count(s, m, 300);
	w.u32(n);
	auto* selection = meta(m)->mutable_selection();
	for(uint32_t i = 0; i < n; i++)
	{
		auto const p = gen_place(s);
		p.info(w);
		set(selection->add_selected_places(), p.meaning());
	}
}

template<uint8_t Type>
void gen_card_target(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const a = gen_place(s);
	auto const b = gen_place(s);
	w.u8(Type);
	a.info(w);
	b.info(w);
	auto* selection = meta(m)->mutable_selection();
	set(selection->mutable_selector(), a.meaning());
	set(selection->add_selected_places(), b.meaning());
}

template<uint8_t Type>
void gen_counter(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const p = gen_place8(s);
	w.u8(Type);
	w.u16(s.u16());
	p.brief8(w);
	w.u16(s.u16());
	set(meta(m)->mutable_update()->add_places(), p.spot());
}

inline void gen_attack(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const a = gen_card_place(s);
	bool const direct = s.chance(1, 3);
	auto const t = direct ? CorePlace{} : gen_card_place(s);
	w.u8(ATTACK);
	a.info(w);
	t.info(w);
	auto* attack = meta(m)->mutable_attack();
	set(attack->mutable_attacker(), a.meaning());
	if(!direct)
		set(attack->mutable_attack_target(), t.meaning());
}

inline void gen_toss_coin(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = gen_count(s, m, 255);
	w.u8(TOSS_COIN);
	w.u8(con);
	w.u8(n);
	auto* coin = m.want.mutable_event()->mutable_result()->mutable_coin();
	coin->set_actor(con);
	for(uint32_t i = 0; i < n; i++)
	{
		bool const v = s.coin();
		w.u8(v ? 1 : 0);
		coin->add_values(v);
	}
}

inline void gen_toss_dice(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = gen_count(s, m, 255);
	w.u8(TOSS_DICE);
	w.u8(con);
	w.u8(n);
	auto* dice = m.want.mutable_event()->mutable_result()->mutable_dice();
	dice->set_actor(con);
	for(uint32_t i = 0; i < n; i++)
	{
		uint32_t const v = s.chance(1, 8) ? s.u8() : 1 + s.below(6);
		w.u8(v);
		dice->add_values(v);
	}
}

inline void gen_hand_res(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	uint32_t const a = 1 + s.below(3);
	uint32_t const b = 1 + s.below(3);
	w.u8(HAND_RES);
	w.u8(a | b << 2U);
	auto* rps = m.want.mutable_event()->mutable_result()->mutable_rps();
	rps->add_values(static_cast<int>(a));
	rps->add_values(static_cast<int>(b));
}

inline void add_resize(ProtoEvent::Pile::Resize* r, int con, uint32_t loc,
                       uint32_t n)
{
	auto* op = r->add_ops();
	set(op->mutable_place(), P{con, loc, 0, NO_OSEQ});
	op->set_count(n);
}

inline void gen_start(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto* state = m.want.mutable_event()->mutable_board()->mutable_state();
	w.u8(START);
	w.u8(s.u8());
	for(int i = 0; i < 2; i++)
	{
		uint32_t const lp = s.u32();
		w.u32(lp);
		state->add_lps(lp);
	}
	for(int i = 0; i < 2; i++)
	{
		uint32_t const md = s.u16();
		uint32_t const ed = s.u16();
		w.u16(md);
		w.u16(ed);
		add_resize(state->mutable_resize(), i, DECK, md);
		add_resize(state->mutable_resize(), i, EXTRA, ed);
	}
}

inline void gen_tag_swap(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const main = gen_small(s);
	uint32_t const extra = gen_count(s, m);
	uint32_t const extra_p = s.below(extra + 1);
	uint32_t const hand = gen_count(s, m);
	w.u8(TAG_SWAP);
	w.u8(con);
	w.u32(main);
	w.u32(extra);
	w.u32(extra_p);
	w.u32(hand);
	w.u32(s.u32());
	for(uint32_t i = 0; i < extra + hand; i++)
	{
		w.u32(s.u32());
		w.u32(s.u32());
	}
	auto* x = m.want.mutable_event()->mutable_board()->mutable_exchange();
	x->set_con(con);
	add_resize(x->mutable_resize(), con, DECK, main);
	add_resize(x->mutable_resize(), con, EXTRA, extra);
	add_resize(x->mutable_resize(), con, HAND, hand);
}

inline void gen_reload_field(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto* state = m.want.mutable_event()->mutable_board()->mutable_state();
	auto* shape = state->mutable_shape();
	state->set_turn_counter(-1);
	state->mutable_add();
	w.u8(RELOAD_FIELD);
	uint32_t const flags = s.u32();
	w.u32(flags);
	shape->set_has_pzones((flags >> 11U & 1U) != 0);
	shape->set_has_separate_pzones((flags >> 12U & 1U) != 0);
	shape->set_has_emzones((flags >> 13U & 1U) != 0);
	shape->set_three_columns((flags >> 22U & 1U) != 0);
	uint32_t const density = s.below(4);
	for(int con = 0; con < 2; con++)
	{
		uint32_t const lp = s.u32();
		w.u32(lp);
		state->add_lps(lp);
		for(uint32_t z = 0; z < 15; z++)
		{
			CorePlace c{static_cast<uint8_t>(con), z < 7 ? MZONE : SZONE,
			            z < 7 ? z : z - 7, 0};
			if(!s.chance(density, 4))
			{
				w.u8(0);
				continue;
			}
			m.variable = true;
			w.u8(1);
			w.u8(1U << s.below(4));
			set(state->mutable_add()->add_places(), c.meaning());
			uint32_t const mats = s.size(4);
			w.u32(mats);
			c.loc |= OVERLAY;
			for(c.pos = 0; c.pos < mats; c.pos++)
				set(state->mutable_add()->add_places(), c.meaning());
		}
		uint32_t const order[] = {DECK, HAND, GRAVE, BANISHED, EXTRA};
		for(auto const loc : order)
		{
			uint32_t const n = gen_small(s);
			w.u32(n);
			add_resize(state->mutable_resize(), con, loc, n);
		}
		w.u32(gen_small(s));
	}
	uint32_t const n = gen_count(s, m);
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		auto const p = gen_place(s);
		auto const t = gen_card_place(s);
		auto const d = gen_desc(s);
		w.u32(s.u32());
		p.info(w);
		t.brief32(w);
		w.u64(d.value());
		auto* c = state->add_chains();
		set(c->mutable_card_place(), p.meaning());
		set(c->mutable_place(), t.spot());
		set(c->mutable_effect(), d);
	}
}

inline void gen_player_hint(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	bool const add = s.coin();
	auto const d = gen_desc(s);
	w.u8(PLAYER_HINT);
	w.u8(con);
	w.u8(add ? 1 : 2);
	w.u64(d.value());
	auto* desc = meta(m)->mutable_description();
	desc->set_con(con);
	set(add ? desc->mutable_add() : desc->mutable_remove(), d);
}

inline void gen_win(Src& s, MockContext const& ctx, CoreMsg& m, Writer& w)
{
	uint32_t const who = s.below(3);
	uint32_t const why = s.u8();
	w.u8(WIN);
	w.u8(who);
	w.u8(why);
	auto* finish = m.want.mutable_event()->mutable_finish();
	finish->set_win_reason(why);
	finish->set_match_win_reason(ctx.win);
	if(who == 2)
		finish->set_draw(true);
	else
		finish->set_winner(static_cast<int>(who));
}

inline void gen_deck_top(Src& s, MockContext const& ctx, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const size = ctx.sizes[con][0];
	uint32_t const n = size == 0 ? 0 : s.below(size);
	w.u8(DECK_TOP);
	w.u8(con);
	w.u32(n);
	w.u32(s.u32());
	w.u32(s.u32());
	set(meta(m)->mutable_update()->add_places(),
	    P{con, DECK, size - 1 - n, NO_OSEQ});
}

// Piles as the context knows them, with distinct cards.
inline Model piles_of(MockContext const& ctx)
{
	Model r;
	int id = 0;
	for(int con = 0; con < 2; con++)
		for(int i = 0; i < 5; i++)
			for(uint32_t n = 0; n < ctx.sizes[con][i]; n++)
				r.piles[con][i].push_back(id++);
	return r;
}

// The message must be a course of valid splices leading to `want`.
inline void judge_splices(ProtoMsg const& msg, Model field, Model const& want,
                          uint64_t reason)
{
	CHECK(msg.event().pile().has_splice(), "not a splice of piles");
	CHECK_EQ(msg.event().pile().reason(), reason);
	for(auto const& op : msg.event().pile().splice().ops())
	{
		P const from = P::of(op.from());
		P const to = P::of(op.to());
		CHECK(from.pile() && to.pile() && (from.con | to.con) <= 1 &&
		      from.con >= 0 && to.con >= 0, "not a pile ", from, " ", to);
		CHECK(!from.mat() && !to.mat(), "a material ", from, " ", to);
		size_t const n = op.count();
		CHECK(from.seq + n <= field.pile(from).size(), "splice of ", n,
		      " cards from ", from, " of ", field.pile(from).size());
		size_t dest = field.pile(to).size();
		if(from.con == to.con && from.loc == to.loc)
			dest -= n;
		CHECK(to.seq <= dest, "splice to ", to, " of ", dest);
		field.splice(from, n, to, op.reverse());
	}
	CHECK(field == want, "piles after the splices\n", show(field), "expected\n",
	      show(want));
}

inline void gen_draw(Src& s, MockContext const& ctx, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = std::min(ctx.sizes[con][0], gen_count(s, m, 100));
	w.u8(DRAW);
	w.u8(con);
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		w.u32(s.u32());
		w.u32(s.u32());
	}
	m.want.mutable_event()->mutable_pile();
	m.judge = [=](ProtoMsg const& msg)
	{
		Model const field = piles_of(ctx);
		Model want = field;
		auto& deck = want.piles[con][0];
		auto& hand = want.piles[con][1];
		for(uint32_t i = 0; i < n; i++)
		{
			hand.push_back(deck.back());
			deck.pop_back();
		}
		judge_splices(msg, field, want, 0x2000000U);
	};
}

inline void gen_reverse_deck(Src&, MockContext const& ctx, CoreMsg& m,
                             Writer& w)
{
	w.u8(REVERSE_DECK);
	m.want.mutable_event()->mutable_pile();
	m.judge = [=](ProtoMsg const& msg)
	{
		Model const field = piles_of(ctx);
		Model want = field;
		for(auto& p : want.piles)
			std::reverse(p[0].begin(), p[0].end());
		judge_splices(msg, field, want, 0x40U);
	};
}

inline void gen_swap_grave_deck(Src& s, MockContext const& ctx, CoreMsg& m,
                                Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const gy = ctx.sizes[con][2];
	uint32_t const at = s.below(ctx.sizes[con][4] + 1);
	std::vector<bool> extra(gy);
	uint32_t const rate = s.below(5);
	bool any = false;
	for(uint32_t i = 0; i < gy; i++)
	{
		extra[i] = s.chance(rate, 4);
		any = any || extra[i];
	}
	// The buffer reaches at least the last card that goes to the extra deck.
	uint32_t last = 0;
	for(uint32_t i = 0; i < gy; i++)
		if(extra[i])
			last = i / 8 + 1;
	uint32_t const size = std::max(last, s.coin() ? (gy + 7) / 8 : last);
	m.variable = any;
	w.u8(SWAP_GRAVE_DECK);
	w.u8(con);
	w.u32(at);
	w.u32(size);
	for(uint32_t i = 0; i < size; i++)
	{
		uint32_t v = 0;
		for(uint32_t k = 0; k < 8; k++)
			if(i * 8 + k < gy && extra[i * 8 + k])
				v |= 1U << k;
		w.u8(v);
	}
	m.want.mutable_event()->mutable_pile();
	m.judge = [=](ProtoMsg const& msg)
	{
		Model const field = piles_of(ctx);
		Model want = field;
		auto& p = want.piles[con];
		Pile const grave = p[2];
		p[2] = p[0];
		p[0].clear();
		Pile to_extra;
		for(uint32_t i = 0; i < gy; i++)
			(extra[i] ? to_extra : p[0]).push_back(grave[i]);
		p[4].insert(p[4].begin() + at, to_extra.begin(), to_extra.end());
		judge_splices(msg, field, want, 0);
	};
}

inline void gen_match_kill(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	uint32_t const why = s.u32();
	w.u8(MATCH_KILL);
	w.u32(why);
	m.state = EncodeState::SWALLOWED;
	m.effect = [=](MockContext& c) { c.win = why; };
}

inline void set_move(CoreMsg& m, uint64_t reason, P const& from, P const& to)
{
	auto* card = m.want.mutable_event()->mutable_card();
	card->set_reason(reason);
	auto* op = card->mutable_move()->add_ops();
	set(op->mutable_old_place(), from);
	set(op->mutable_new_place(), to);
}

inline void gen_move(Src& s, MockContext const& ctx, CoreMsg& m, Writer& w)
{
	uint32_t const reason = s.u32();
	CorePlace from;
	CorePlace to;
	auto write = [&]
	{
		w.u8(MOVE);
		w.u32(s.u32());
		from.info(w);
		to.info(w);
		w.u32(reason);
	};
	auto has_mats = [&](P const& p)
	{ return ctx.mats.count(MockContext::key(p)) != 0; };
	switch(s.below(9))
	{
	case 0: // Corrupted move of old replays.
		write();
		m.state = EncodeState::SWALLOWED;
		return;
	case 1: // A new card.
	{
		to = gen_place(s);
		write();
		auto* card = m.want.mutable_event()->mutable_card();
		card->set_reason(reason);
		set(card->mutable_add()->add_places(), to.meaning());
		return;
	}
	case 2: // A card that ceases to exist.
	{
		from = gen_place(s);
		write();
		auto* card = m.want.mutable_event()->mutable_card();
		card->set_reason(reason);
		set(card->mutable_remove()->add_places(), from.meaning());
		return;
	}
	case 3: // Attached to a card which is still to come to the field.
	{
		from = gen_place(s);
		to = as_material(s, gen_pile_place(s));
		write();
		m.state = EncodeState::SWALLOWED;
		P const p = from.meaning();
		m.effect = [=](MockContext& c) { c.deferred.push_back(p); };
		return;
	}
	case 4: // To a zone, with the materials that wait for it.
	{
		from = s.chance(1, 4) ? as_material(s, gen_zone_place(s))
		                      : gen_card_place(s);
		to = gen_zone_place(s);
		P const t = to.meaning();
		// Materials that come from this very zone have more to them: C14.
		for(auto const& d : ctx.deferred)
			if(d.same_spot(t))
				to = gen_pile_place(s);
		write();
		if(to.loc != MZONE && to.loc != SZONE)
			break;
		int i = 0;
		for(auto const& d : ctx.deferred)
			set_move(m, reason, d, t.with_oseq(i++));
		set_move(m, reason, from.meaning(), t);
		m.variable = i != 0;
		m.effect = [](MockContext& c) { c.deferred.clear(); };
		return;
	}
	case 5: // A material of a card that left the field, left with it.
	{
		if(ctx.left.empty())
			break;
		auto it = ctx.left.begin();
		std::advance(it, s.below(static_cast<uint32_t>(ctx.left.size())));
		P x{std::get<0>(it->first), std::get<1>(it->first),
		    std::get<2>(it->first), static_cast<int>(s.below(5))};
		from = core_place(x);
		to = s.chance(1, 3) ? as_material(s, gen_zone_place(s))
		                    : gen_pile_place(s);
		write();
		m.variable = true;
		set_move(m, reason, it->second.with_oseq(x.oseq), to.meaning());
		return;
	}
	case 6: // From a zone with materials to a pile.
	{
		if(ctx.mats.empty())
			break;
		auto it = ctx.mats.begin();
		std::advance(it, s.below(static_cast<uint32_t>(ctx.mats.size())));
		P const f{std::get<0>(*it), std::get<1>(*it), std::get<2>(*it), -1};
		from = core_place(f, 1U << s.below(4));
		to = gen_pile_place(s);
		write();
		P const t = to.meaning();
		m.variable = true;
		set_move(m, reason, f, t);
		m.effect = [=](MockContext& c) { c.left[MockContext::key(t)] = f; };
		return;
	}
	case 7: // To be the material of a card on the field.
		from = gen_place(s);
		if((from.loc & OVERLAY) != 0 && from.meaning().pile())
			from.loc &= ~OVERLAY;
		to = as_material(s, gen_zone_place(s));
		write();
		set_move(m, reason, from.meaning(), to.meaning());
		return;
	default: // To a pile.
		from = s.chance(1, 4) ? as_material(s, gen_zone_place(s))
		                      : gen_card_place(s);
		to = gen_pile_place(s);
		write();
		set_move(m, reason, from.meaning(), to.meaning());
		if(P const f = from.meaning(), t = to.meaning();
		   !f.pile() && has_mats(f))
		{
			m.effect = [=](MockContext& c) { c.left[MockContext::key(t)] = f; };
			if(f.mat())
				m.no_origin = t;
		}
		return;
	}
	// Nothing to do it with: a plain move between piles.
	w.b.clear();
	m.variable = false;
	from = gen_pile_place(s);
	to = gen_pile_place(s);
	write();
	set_move(m, reason, from.meaning(), to.meaning());
}

constexpr NamedGen EVENTS[] = {
	{"MOVE", gen_move},
	{"DRAW", gen_draw},
	{"SWAP_GRAVE_DECK", gen_swap_grave_deck},
	{"REVERSE_DECK", gen_reverse_deck},
	{"START", gen_start},
	{"RELOAD_FIELD", gen_reload_field},
	{"TAG_SWAP", gen_tag_swap},
	{"CONFIRM_DECKTOP", gen_confirm<CONFIRM_DECKTOP>},
	{"CONFIRM_EXTRATOP", gen_confirm<CONFIRM_EXTRATOP>},
	{"CONFIRM_CARDS", gen_confirm<CONFIRM_CARDS>},
	{"SHUFFLE_DECK", gen_shuffle_pile<SHUFFLE_DECK, DECK>},
	{"SHUFFLE_HAND", gen_shuffle_pile<SHUFFLE_HAND, HAND>},
	{"SHUFFLE_EXTRA", gen_shuffle_pile<SHUFFLE_EXTRA, EXTRA>},
	{"SHUFFLE_SET_CARD", gen_shuffle_set_card},
	{"NEW_TURN", gen_new_turn},
	{"NEW_PHASE", gen_new_phase},
	{"POS_CHANGE", gen_pos_change},
	{"SET", gen_set},
	{"SWAP", gen_swap_cards},
	{"FIELD_DISABLED", gen_field_disabled},
	{"SUMMONING", gen_summoning<SUMMONING, 0x10>},
	{"SPSUMMONING", gen_summoning<SPSUMMONING, 0x800>},
	{"FLIPSUMMONING", gen_summoning<FLIPSUMMONING, 0x2000>},
	{"CHAINING", gen_chaining},
	{"CHAINED", gen_chain_status<CHAINED, 1>},
	{"CHAIN_SOLVING", gen_chain_status<CHAIN_SOLVING, 2>},
	{"CHAIN_NEGATED", gen_chain_status<CHAIN_NEGATED, 3>},
	{"CHAIN_DISABLED", gen_chain_status<CHAIN_DISABLED, 4>},
	{"CHAIN_SOLVED", gen_chain_solved},
	{"DAMAGE", gen_lp<DAMAGE>},
	{"RECOVER", gen_lp<RECOVER>},
	{"LPUPDATE", gen_lp<LPUPDATE>},
	{"PAY_LPCOST", gen_lp<PAY_LPCOST>},
	{"RANDOM_SELECTED", gen_selected<RANDOM_SELECTED>},
	{"CARD_SELECTED", gen_selected<CARD_SELECTED>},
	{"BECOME_TARGET", gen_selected<BECOME_TARGET>},
	{"CARD_TARGET", gen_card_target<CARD_TARGET>},
	{"CANCEL_TARGET", gen_card_target<CANCEL_TARGET>},
	{"ADD_COUNTER", gen_counter<ADD_COUNTER>},
	{"REMOVE_COUNTER", gen_counter<REMOVE_COUNTER>},
	{"ATTACK", gen_attack},
	{"TOSS_COIN", gen_toss_coin},
	{"TOSS_DICE", gen_toss_dice},
	{"HAND_RES", gen_hand_res},
	{"PLAYER_HINT", gen_player_hint},
	{"WIN", gen_win},
	{"DECK_TOP", gen_deck_top},
	{"MATCH_KILL", gen_match_kill},
};

/*
 * Messages that are swallowed, and unknown ones.
 */

template<uint8_t Type, unsigned Size>
void gen_swallowed(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	w.u8(Type);
	for(unsigned i = 0; i < Size; i++)
		w.u8(s.u8());
	m.state = EncodeState::SWALLOWED;
}

inline void gen_ai_name(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	uint32_t const n = s.chance(1, 8) ? s.below(400) : s.size(20);
	w.u8(AI_NAME);
	w.u16(n);
	for(uint32_t i = 0; i < n; i++)
		w.u8(1 + s.below(255));
	w.u8(0);
	m.variable = n != 0;
	m.state = EncodeState::SWALLOWED;
}

constexpr NamedGen SWALLOWED[] = {
	{"RETRY", gen_swallowed<RETRY, 0>},
	{"HINT", gen_swallowed<HINT, 10>},
	{"SUMMONED", gen_swallowed<SUMMONED, 0>},
	{"SPSUMMONED", gen_swallowed<SPSUMMONED, 0>},
	{"FLIPSUMMONED", gen_swallowed<FLIPSUMMONED, 0>},
	{"CHAIN_END", gen_swallowed<CHAIN_END, 0>},
	{"BATTLE", gen_swallowed<BATTLE, 38>},
	{"EQUIP", gen_swallowed<EQUIP, 20>},
	{"ATTACK_DISABLED", gen_swallowed<ATTACK_DISABLED, 0>},
	{"DAMAGE_STEP_START", gen_swallowed<DAMAGE_STEP_START, 0>},
	{"DAMAGE_STEP_END", gen_swallowed<DAMAGE_STEP_END, 0>},
	{"MISSED_EFFECT", gen_swallowed<MISSED_EFFECT, 14>},
	{"CARD_HINT", gen_swallowed<CARD_HINT, 19>},
	{"AI_NAME", gen_ai_name},
};

inline void gen_unknown(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	// Neither types of the core, nor those not supported (yet).
	constexpr uint8_t KNOWN[] = {
		1,   2,   4,   5,   6,   7,   10,  11,  12,  13,  14,  15,  16,  18,
		19,  20,  21,  22,  23,  24,  25,  26,  30,  31,  32,  33,  35,  36,
		37,  38,  39,  40,  41,  42,  50,  53,  54,  55,  56,  60,  61,  62,
		63,  64,  65,  70,  71,  72,  73,  74,  75,  76,  80,  81,  83,  90,
		91,  92,  93,  94,  96,  97,  100, 101, 102, 110, 111, 112, 113, 114,
		120, 130, 131, 132, 133, 140, 141, 142, 143, 144, 160, 161, 162, 163,
		165, 170};
	std::vector<uint8_t> unknown;
	for(unsigned i = 0; i < 256; i++)
		if(std::find(std::begin(KNOWN), std::end(KNOWN), i) == std::end(KNOWN))
			unknown.push_back(static_cast<uint8_t>(i));
	w.u8(s.pick(unknown));
	m.state = EncodeState::UNKNOWN;
}

constexpr NamedGen UNKNOWN[] = {{"UNKNOWN", gen_unknown}};

/*
 * Requests.
 */

inline auto* request(CoreMsg& m, uint32_t con)
{
	auto* r = m.want.mutable_request();
	r->set_replier(static_cast<int>(con));
	return r;
}

inline void gen_announce_attrib(Src& s, MockContext const&, CoreMsg& m,
                                Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = s.u8();
	uint32_t const what = s.u32();
	w.u8(ANNOUNCE_ATTRIB);
	w.u8(con);
	w.u8(n);
	w.u32(what);
	auto* r = request(m, con)->mutable_select_attribute();
	r->set_count(n);
	r->set_attribute(what);
}

inline void gen_announce_race(Src& s, MockContext const&, CoreMsg& m,
                              Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = s.u8();
	uint64_t const what = s.u64();
	w.u8(ANNOUNCE_RACE);
	w.u8(con);
	w.u8(n);
	w.u64(what);
	auto* r = request(m, con)->mutable_select_race();
	r->set_count(n);
	r->set_race(what);
}

inline void gen_select_card(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	bool const cancel = s.coin();
	uint32_t const min = gen_small(s);
	uint32_t const max = gen_small(s);
	bool const limbo = s.chance(1, 3);
	uint32_t const n = 1 + gen_count(s, m, 300);
	w.u8(SELECT_CARD);
	w.u8(con);
	w.u8(cancel ? 1 : 0);
	w.u32(min);
	w.u32(max);
	w.u32(n);
	m.variable = true;
	auto* select = request(m, con)->mutable_select_card();
	auto common = [&](auto* r)
	{
		r->set_can_cancel(cancel);
		r->set_min(min);
		r->set_max(max);
	};
	if(limbo)
		common(select->mutable_limbo());
	else
		common(select->mutable_unique_range());
	for(uint32_t i = 0; i < n; i++)
	{
		uint32_t const code = s.u32();
		auto const p = limbo ? CorePlace{} : gen_place(s);
		w.u32(code);
		p.info(w);
		if(limbo)
		{
			select->mutable_limbo()->add_card_codes(code);
			continue;
		}
		auto* card = select->mutable_unique_range()->add_cards();
		card->set_code(code);
		set(card->mutable_place(), p.meaning());
	}
}

inline void gen_select_unselect(Src& s, MockContext const&, CoreMsg& m,
                                Writer& w)
{
	auto const con = gen_con(s);
	bool const finish = s.coin();
	bool const accept = s.coin();
	uint32_t const min = gen_small(s);
	uint32_t const max = gen_small(s);
	auto* r = request(m, con)->mutable_select_card()->mutable_recursive();
	r->set_can_finish(finish);
	r->set_accept(accept);
	r->set_min(min);
	r->set_max(max);
	w.u8(SELECT_UNSELECT_CARD);
	w.u8(con);
	w.u8(finish ? 1 : 0);
	w.u8(accept ? 1 : 0);
	w.u32(min);
	w.u32(max);
	for(int list = 0; list < 2; list++)
	{
		uint32_t const n = gen_count(s, m, 300);
		w.u32(n);
		for(uint32_t i = 0; i < n; i++)
		{
			uint32_t const code = s.u32();
			auto const p = gen_place(s);
			w.u32(code);
			p.info(w);
			auto* card = list == 0 ? r->add_selectable_cards()
			                       : r->add_deselectable_cards();
			card->set_code(code);
			set(card->mutable_place(), p.meaning());
		}
	}
}

inline void gen_select_tribute(Src& s, MockContext const&, CoreMsg& m,
                               Writer& w)
{
	auto const con = gen_con(s);
	bool const cancel = s.coin();
	uint32_t const min = gen_small(s);
	uint32_t const max = gen_small(s);
	uint32_t const n = gen_count(s, m, 300);
	w.u8(SELECT_TRIBUTE);
	w.u8(con);
	w.u8(cancel ? 1 : 0);
	w.u32(min);
	w.u32(max);
	w.u32(n);
	auto* r = request(m, con)->mutable_select_card()->mutable_unique_tributes();
	r->set_can_cancel(cancel);
	r->set_tribute_min(min);
	r->set_tribute_max(max);
	for(uint32_t i = 0; i < n; i++)
	{
		uint32_t const code = s.u32();
		auto const p = gen_card_place(s);
		uint32_t const worth = s.u8();
		w.u32(code);
		p.brief32(w);
		w.u8(worth);
		auto* card = r->add_cards();
		card->set_code(code);
		set(card->mutable_place(), p.spot());
		card->set_count_as(worth);
	}
}

inline void gen_select_option(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = gen_count(s, m, 255);
	w.u8(SELECT_OPTION);
	w.u8(con);
	w.u8(n);
	auto* r = request(m, con)->mutable_select_effect();
	r->set_count(1);
	for(uint32_t i = 0; i < n; i++)
	{
		auto const d = gen_desc(s);
		w.u64(d.value());
		set(r->add_effects(), d);
	}
}

template<typename Add>
void gen_activable(Src& s, CoreMsg& m, Writer& w, bool full, Add add)
{
	uint32_t const n = gen_count(s, m, 300);
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		auto const p = full ? gen_place(s) : gen_card_place(s);
		auto const d = gen_desc(s);
		w.u32(s.u32());
		if(full)
			p.info(w);
		else
			p.brief32(w);
		w.u64(d.value());
		w.u8(s.u8());
		auto* card = add();
		set(card->mutable_place(), full ? p.meaning() : p.spot());
		set(card->mutable_effect(), d);
	}
}

inline void gen_select_battlecmd(Src& s, MockContext const&, CoreMsg& m,
                                 Writer& w)
{
	auto const con = gen_con(s);
	w.u8(SELECT_BATTLECMD);
	w.u8(con);
	auto* r = request(m, con)->mutable_select_idle();
	r->set_is_battle_cmd(true);
	gen_activable(s, m, w, false, [&] { return r->add_activable_cards(); });
	uint32_t const n = gen_count(s, m, 300);
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		auto const p = gen_place8(s);
		bool const direct = s.coin();
		w.u32(s.u32());
		p.brief8(w);
		w.u8(direct ? 1 : 0);
		auto* card = r->add_can_attack_cards();
		set(card->mutable_place(), p.spot());
		card->set_can_attack_directly(direct);
	}
	bool const mp2 = s.coin();
	bool const ep = s.coin();
	w.u8(mp2 ? 1 : 0);
	w.u8(ep ? 1 : 0);
	r->set_available_phase((mp2 ? 0x100U : 0U) | (ep ? 0x200U : 0U));
}

inline void gen_select_idlecmd(Src& s, MockContext const&, CoreMsg& m,
                               Writer& w)
{
	auto const con = gen_con(s);
	w.u8(SELECT_IDLECMD);
	w.u8(con);
	auto* r = request(m, con)->mutable_select_idle();
	for(int list = 0; list < 5; list++)
	{
		uint32_t const n = gen_count(s, m, 300);
		w.u32(n);
		for(uint32_t i = 0; i < n; i++)
		{
			auto const p = list == 2 ? gen_place8(s) : gen_card_place(s);
			w.u32(s.u32());
			if(list == 2)
				p.brief8(w);
			else
				p.brief32(w);
			set(list == 0   ? r->add_summonable_cards()
			    : list == 1 ? r->add_spsummonable_cards()
			    : list == 2 ? r->add_repositionable_cards()
			    : list == 3 ? r->add_msetable_cards()
			                : r->add_ssetable_cards(),
			    p.spot());
		}
	}
	gen_activable(s, m, w, false, [&] { return r->add_activable_cards(); });
	bool const bp = s.coin();
	bool const ep = s.coin();
	bool const shuffle = s.coin();
	w.u8(bp ? 1 : 0);
	w.u8(ep ? 1 : 0);
	w.u8(shuffle ? 1 : 0);
	r->set_available_phase((bp ? 0x80U : 0U) | (ep ? 0x200U : 0U));
	r->set_can_shuffle(shuffle);
}

inline void gen_announce_number(Src& s, MockContext const&, CoreMsg& m,
                                Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = gen_count(s, m, 255);
	w.u8(ANNOUNCE_NUMBER);
	w.u8(con);
	w.u8(n);
	auto* r = request(m, con)->mutable_select_number();
	r->set_count(1);
	for(uint32_t i = 0; i < n; i++)
	{
		uint64_t const v = s.u64();
		w.u64(v);
		r->add_numbers(v);
	}
}

inline void gen_select_position(Src& s, MockContext const&, CoreMsg& m,
                                Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const code = s.u32();
	uint32_t const pos = s.u8();
	w.u8(SELECT_POSITION);
	w.u8(con);
	w.u32(code);
	w.u8(pos);
	auto* r = request(m, con)->mutable_select_position();
	r->set_count(1);
	r->set_code(code);
	r->set_position(pos);
}

inline void gen_rps(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	w.u8(ROCK_PAPER_SCISSORS);
	w.u8(con);
	request(m, con)->set_select_rock_paper_scissors(true);
}

inline void gen_select_chain(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const spe = s.coin() ? s.u8() : s.pick(std::array<int, 4>{
												 0, 1, 0x7F, 0x80});
	bool const forced = s.coin();
	w.u8(SELECT_CHAIN);
	w.u8(con);
	w.u8(spe);
	w.u8(forced ? 1 : 0);
	w.u32(s.u32());
	w.u32(s.u32());
	auto* r = request(m, con)->mutable_select_to_chain();
	r->set_triggering((spe & 0x7FU) != 0);
	r->set_forced(forced);
	gen_activable(s, m, w, true, [&] { return r->add_activable_cards(); });
}

inline void gen_select_effectyn(Src& s, MockContext const&, CoreMsg& m,
                                Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const code = s.u32();
	auto const p = gen_place_or_none(s);
	auto const d = gen_desc(s);
	w.u8(SELECT_EFFECTYN);
	w.u8(con);
	w.u32(code);
	p.info(w);
	w.u64(d.value());
	auto* r = request(m, con)->mutable_select_yes_no();
	r->set_code(code);
	set(r->mutable_place(), p.meaning());
	set(r->mutable_effect(), d);
}

inline void gen_select_yesno(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	auto const d = gen_desc(s);
	w.u8(SELECT_YESNO);
	w.u8(con);
	w.u64(d.value());
	set(request(m, con)->mutable_select_yes_no()->mutable_effect(), d);
}

template<uint8_t Type>
void gen_select_place(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = s.chance(1, 4) ? s.u8() : 1 + s.below(5);
	uint32_t bits = s.u32();
	if(s.coin())
		bits |= s.u32() | s.u32();
	w.u8(Type);
	w.u8(con);
	w.u8(n);
	w.u32(bits);
	auto* r = request(m, con)->mutable_select_zone();
	r->set_blocking(Type == SELECT_DISFIELD);
	r->set_count(n);
	auto const zones = zone_bits(con);
	for(uint32_t i = 0; i < 32; i++)
		if((bits >> i & 1U) == 0 && zones[i].loc != 0)
			set(r->add_places(), zones[i]);
	m.variable = r->places_size() != 0;
}

template<uint8_t Type>
void gen_sort(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	uint32_t const n = gen_count(s, m, 127);
	w.u8(Type);
	w.u8(con);
	w.u32(n);
	auto* r = request(m, con)->mutable_sort();
	for(uint32_t i = 0; i < n; i++)
	{
		auto const p = gen_card_place(s);
		w.u32(s.u32());
		w.u8(p.con);
		w.u32(p.loc);
		w.u32(p.seq);
		set(r->add_places(), p.spot());
	}
}

constexpr NamedGen REQUESTS[] = {
	{"ANNOUNCE_ATTRIB", gen_announce_attrib},
	{"ANNOUNCE_RACE", gen_announce_race},
	{"SELECT_CARD", gen_select_card},
	{"SELECT_UNSELECT_CARD", gen_select_unselect},
	{"SELECT_TRIBUTE", gen_select_tribute},
	{"SELECT_OPTION", gen_select_option},
	{"SELECT_BATTLECMD", gen_select_battlecmd},
	{"SELECT_IDLECMD", gen_select_idlecmd},
	{"ANNOUNCE_NUMBER", gen_announce_number},
	{"SELECT_POSITION", gen_select_position},
	{"ROCK_PAPER_SCISSORS", gen_rps},
	{"SELECT_CHAIN", gen_select_chain},
	{"SELECT_EFFECTYN", gen_select_effectyn},
	{"SELECT_YESNO", gen_select_yesno},
	{"SELECT_PLACE", gen_select_place<SELECT_PLACE>},
	{"SELECT_DISFIELD", gen_select_place<SELECT_DISFIELD>},
	{"SORT_CHAIN", gen_sort<SORT_CHAIN>},
	{"SORT_CARD", gen_sort<SORT_CARD>},
};

/*
 * Queries.
 */

// One entry of a query: its flag, its bytes and what it sets.
inline void gen_query(Src& s, CoreMsg& m, Writer& w, ProtoQuery::Data* want,
                      std::vector<uint32_t>& overlays)
{
	constexpr uint32_t FLAGS[] = {
		0x1,     0x2,     0x4,      0x8,      0x10,     0x20,     0x40,
		0x80,    0x100,   0x200,    0x400,    0x800,    0x1000,   0x2000,
		0x4000,  0x8000,  0x10000,  0x20000,  0x40000,  0x80000,  0x100000,
		0x200000, 0x400000, 0x800000, 0x1000000, 0x2000000};
	std::vector<uint32_t> flags;
	uint32_t const density = s.below(5);
	for(auto const f : FLAGS)
		if(s.chance(density, 4))
			flags.push_back(f);
	if(s.chance(1, 8)) // Some field yet to come.
		flags.push_back(0x4000000U << s.below(5));
	if(s.chance(1, 4))
		for(size_t i = flags.size(); i > 1; i--)
			std::swap(flags[i - 1], flags[s.below(static_cast<uint32_t>(i))]);
	if(!flags.empty())
		m.variable = true;
	for(auto const flag : flags)
	{
		Writer v;
		uint32_t const x = s.u32();
		switch(flag)
		{
#define U32(f, name)                          \
	case f:                                   \
		v.u32(x);                             \
		want->mutable_##name()->set_value(x); \
		break;
#define I32(f, name)                                                \
	case f:                                                         \
		v.u32(x);                                                   \
		want->mutable_##name()->set_value(static_cast<int32_t>(x)); \
		break;
			U32(0x1, code)
			U32(0x2, position)
			U32(0x4, alias)
			U32(0x8, type)
			I32(0x10, level)
			U32(0x20, xyz_rank)
			U32(0x40, attribute)
			I32(0x100, atk)
			I32(0x200, def)
			I32(0x400, base_atk)
			I32(0x800, base_def)
			U32(0x80000, status)
			U32(0x200000, pend_l_scale)
			U32(0x400000, pend_r_scale)
			U32(0x2000000, cover)
#undef I32
#undef U32
		case 0x80:
		{
			uint64_t const race = s.u64();
			v.u64(race);
			want->mutable_race()->set_value(race);
			break;
		}
		case 0x4000:
		{
			auto const p = gen_place_or_none(s);
			p.info(v);
			set(want->mutable_equipped_to()->mutable_value(), p.meaning());
			break;
		}
		case 0x8000:
		{
			uint32_t const n = gen_count(s, m, 290);
			v.u32(n);
			auto* targets = want->mutable_targets();
			for(uint32_t i = 0; i < n; i++)
			{
				auto const p = gen_place(s);
				p.info(v);
				set(targets->add_values(), p.meaning());
			}
			break;
		}
		case 0x10000:
		{
			uint32_t const n = gen_count(s, m, 290);
			v.u32(n);
			for(uint32_t i = 0; i < n; i++)
			{
				overlays.push_back(s.u32());
				v.u32(overlays.back());
			}
			break;
		}
		case 0x20000:
		{
			uint32_t const n = gen_count(s, m, 290);
			v.u32(n);
			auto* counters = want->mutable_counters();
			for(uint32_t i = 0; i < n; i++)
			{
				uint32_t const type = s.u16();
				uint32_t const count = s.u16();
				v.u16(type);
				v.u16(count);
				auto* c = counters->add_values();
				c->set_type(type);
				c->set_count(count);
			}
			break;
		}
		case 0x40000:
			v.u8(x & 1U);
			want->mutable_owner()->set_value(static_cast<int>(x & 1U));
			break;
		case 0x100000:
			v.u8(x & 1U);
			want->mutable_is_public()->set_value((x & 1U) != 0);
			break;
		case 0x1000000:
			v.u8(x & 1U);
			want->mutable_is_hidden()->set_value((x & 1U) != 0);
			break;
		case 0x800000:
		{
			uint32_t const arrows = s.u32();
			v.u32(x);
			v.u32(arrows);
			want->mutable_link_rate()->set_value(x);
			want->mutable_link_arrow()->set_value(arrows);
			break;
		}
		default: // Reason, reason card, and those to come.
			for(uint32_t n = s.size(12); n > 0; n--)
				v.u8(s.u8());
		}
		w.u16(4 + v.b.size());
		w.u32(flag);
		w.append(v.b);
	}
	w.u16(4);
	w.u32(0x80000000U);
}

inline void gen_card_query(Src& s, CoreMsg& m, Writer& w, P const& place)
{
	auto* q = m.want.add_queries();
	set(q->mutable_place(), place);
	std::vector<uint32_t> overlays;
	gen_query(s, m, w, q->mutable_data(), overlays);
	for(size_t i = 0; i < overlays.size(); i++)
	{
		auto* o = m.want.add_queries();
		set(o->mutable_place(), place.with_oseq(static_cast<int>(i)));
		o->mutable_data()->mutable_code()->set_value(overlays[i]);
	}
}

inline void gen_update_data(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const con = gen_con(s);
	bool const zone = s.coin();
	uint32_t const loc = zone ? (s.coin() ? SZONE : MZONE) : PILES[s.below(5)];
	uint32_t const n = loc == MZONE   ? 7
	                   : loc == SZONE ? 8
	                                  : gen_count(s, m, 280);
	uint32_t const density = 1 + s.below(4);
	Writer body;
	for(uint32_t i = 0; i < n; i++)
	{
		if(!s.chance(density, 4))
		{
			body.u16(0);
			continue;
		}
		m.variable = true;
		gen_card_query(s, m, body,
		               CorePlace{con, loc, i, 0}.spot());
	}
	w.u8(UPDATE_DATA);
	w.u8(con);
	w.u8(loc);
	w.u32(body.b.size());
	w.append(body.b);
}

inline void gen_update_card(Src& s, MockContext const&, CoreMsg& m, Writer& w)
{
	auto const p = gen_place8(s);
	w.u8(UPDATE_CARD);
	p.brief8(w);
	gen_card_query(s, m, w, p.spot());
}

constexpr NamedGen QUERIES[] = {
	{"UPDATE_DATA", gen_update_data},
	{"UPDATE_CARD", gen_update_card},
};

inline void gen_context(Src& s, MockContext& ctx)
{
	for(auto& half : ctx.sizes)
		for(auto& n : half)
			n = s.chance(1, 3)     ? 0
			    : s.chance(1, 60) ? s.below(700)
			                      : s.below(s.chance(1, 4) ? 70 : 9);
	for(uint32_t n = s.size(4); n > 0; n--)
		ctx.mats.insert(MockContext::key(gen_zone_place(s).spot()));
	if(s.coin())
		ctx.win = s.u32();
}

} // namespace wire

#endif // VERIF_WIRE_HPP
