// A simulated core plays out a duel and reports it in its own format; a client
// board fed with what is encoded must stay in step.
#pragma once
#include "wire.hpp"

#include <google/protobuf/arena.h>
#include <functional>
#include <memory>
#include <optional>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/server/basic_encode_context.hpp>

namespace core_sim
{

using namespace wire;
using google::protobuf::Arena;
using YGOpen::Duel::Controller;
using YGOpen::Duel::Location;
using ProtoCounter = YGOpen::Proto::Duel::Counter;
using Card = YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>;

template<template<typename...> class FrameTemplate>
struct BoardTraits
{
	using BlockedZonesType = std::vector<ProtoPlace>;
	using ChainStackType = std::vector<ProtoChain>;
	using FrameType = FrameTemplate<Card>;
	using LPType = uint32_t;
	using PhaseType = YGOpen::Duel::Phase;
	using TurnControllerType = Controller;
	using TurnType = uint32_t;
};
template<typename C>
using Basic = YGOpen::Client::BasicFrame<C>;
template<typename C>
using Limbo = YGOpen::Client::LimboFrame<C>;

// What can be known of a card.
struct Facts
{
	uint32_t code = 0;
	uint32_t pos = 0;
	int32_t atk = 0;
	uint32_t owner = 0;
	std::vector<std::pair<uint16_t, uint16_t>> counters;
};

// The core's side.
template<template<typename...> class FrameTemplate>
class Duel
{
public:
	Duel(Src& src, Case& cs, bool materials)
		: s(src), c(cs), focus(materials), ctx(std::make_unique<Context>()),
		  board(std::make_unique<Board>())
	{}

	void run()
	{
		begin();
		uint32_t const n = 1 + s.steps(focus ? 24 : 34);
		for(uint32_t i = 0; i < n; i++)
			step();
	}

	// Called between messages.
	std::function<void()> pause;
	// Called with each message.
	std::function<void(Writer const&)> sent;

	void begin()
	{
		start();
		check("start");
	}

	void step()
	{
		char const* what = act();
		if(what == nullptr)
			return;
		c.count(what);
		LOG(c, "  = ", what);
		check(what);
	}

private:
	using Context = YGOpen::Server::BasicEncodeContext;
	using Board = YGOpen::Client::BasicBoard<BoardTraits<FrameTemplate>>;

	Src& s;
	Case& c;
	bool focus;
	std::unique_ptr<Context> ctx;
	std::unique_ptr<Board> board;
	BoardModel m;
	Binding bind;
	int fresh = 0;
	std::vector<int> gone;
	std::map<int, Facts> truth;
	std::map<int, Facts> known;
	uint32_t reason_ = 0;

	/*
	 * From the core to the board.
	 */

	void send(char const* name, Writer const& w)
	{
		if(pause)
			pause();
		if(sent)
			sent(w);
		LOG(c, name);
		for(auto const b : w.b)
			c.mix(b);
		Arena arena;
		std::unique_ptr<uint8_t[]> const buffer(new uint8_t[w.b.size()]);
		std::memcpy(buffer.get(), w.b.data(), w.b.size());
		auto const r = YGOpen::Codec::Edo9300::OCGCore::encode_one(
			arena, *ctx, buffer.get());
		CHECK(r.state != EncodeState::UNKNOWN, name, " is unknown");
		CHECK(r.bytes_read == w.b.size(), name, " of ", w.b.size(),
		      " bytes took ", r.bytes_read);
		if(r.msg == nullptr)
			return;
		ctx->parse(*r.msg);
		// The client gets it through the network.
		YGOpen::Proto::Duel::Msg msg;
		CHECK(msg.ParseFromString(r.msg->SerializeAsString()), name,
		      " can't be parsed back");
		if(msg.has_event())
			parse_event(*board, msg.event());
		for(auto const& q : msg.queries())
			static_cast<void>(
				YGOpen::Client::parse_query(board->frame(), q));
	}

	void check(char const* when)
	{
		for(int const id : gone)
			bind.unbind(id);
		gone.clear();
		Board const& b = *board;
		same_state(m.field, b.frame(), bind, when);
		for(int con = 0; con < 2; con++)
			CHECK(b.lp(static_cast<Controller>(con)) == m.lp[con], when,
			      ": life points of ", con, " are ",
			      b.lp(static_cast<Controller>(con)), " instead of ",
			      m.lp[con]);
		CHECK(b.turn() == m.turn, when, ": turn ", b.turn(), " instead of ",
		      m.turn);
		CHECK(static_cast<int>(b.turn_controller()) == m.turn_con, when,
		      ": turn player");
		CHECK(static_cast<uint32_t>(b.phase()) == m.phase, when, ": phase ",
		      static_cast<uint32_t>(b.phase()), " instead of ", m.phase);
		auto const& chain = b.chain_stack();
		CHECK(chain.size() == m.chain.size(), when, ": chain of ",
		      chain.size(), " links instead of ", m.chain.size());
		for(size_t i = 0; i < m.chain.size(); i++)
			CHECK(same_msg(chain[i], m.chain[i]), when, ": chain link ", i);
		auto const& blocked = b.blocked_zones();
		CHECK(blocked.size() == m.blocked.size(), when, ": ", blocked.size(),
		      " blocked zones instead of ", m.blocked.size());
		for(size_t i = 0; i < m.blocked.size(); i++)
			CHECK(P::of(blocked[i]) == P::of(m.blocked[i]), when,
			      ": blocked zone ", P::of(blocked[i]), " instead of ",
			      P::of(m.blocked[i]));
		for(auto const& p : m.field.cards())
		{
			auto const& k = known[m.field.at(p)];
			Card const& card = b.frame().card(p.proto());
			CHECK(card.code() == k.code, when, ": code of ", p, " is ",
			      card.code(), " instead of ", k.code);
			CHECK(static_cast<uint32_t>(card.position()) == k.pos, when,
			      ": position of ", p, " is ",
			      static_cast<uint32_t>(card.position()), " instead of ",
			      k.pos);
			CHECK(card.atk() == k.atk, when, ": attack of ", p);
			CHECK(static_cast<uint32_t>(card.owner()) == k.owner, when,
			      ": owner of ", p);
			CHECK(card.counters().size() == k.counters.size(), when,
			      ": counters of ", p);
			for(size_t i = 0; i < k.counters.size(); i++)
				CHECK(card.counters()[i].type() == k.counters[i].first &&
				          card.counters()[i].count() == k.counters[i].second,
				      when, ": counter ", i, " of ", p);
		}
		// The context of the encoder stays in step as well.
		for(int con = 0; con < 2; con++)
		{
			for(int i = 0; i < 5; i++)
				CHECK(ctx->pile_size(static_cast<Controller>(con),
				                     static_cast<Location>(PILES[i])) ==
				          m.field.piles[con][i].size(),
				      when, ": the encoder takes pile ",
				      P{con, PILES[i], 0, -1}, " to be of another size");
			for(int i = 0; i < 4; i++)
				for(uint32_t z = 0; z < ZONE_LIMIT[i]; z++)
				{
					P const p{con, ZONES[i], z, -1};
					CHECK(ctx->has_xyz_mat(p.proto()) ==
					          !m.field.zone(p).mats.empty(),
					      when, ": the encoder is wrong about the materials of ",
					      p);
				}
		}
	}

	/*
	 * Helpers.
	 */

	int new_card()
	{
		int const id = fresh++;
		truth[id] = gen_facts();
		return id;
	}

	Facts gen_facts()
	{
		Facts f;
		f.code = s.u32();
		f.pos = 1U << s.below(4);
		f.atk = s.i32();
		f.owner = s.below(2);
		for(uint32_t n = s.size(2); n > 0; n--)
			f.counters.emplace_back(s.u16(), s.u16());
		return f;
	}

	CorePlace core(P const& p) { return core_place(p, 1U << s.below(4)); }

	// Messages that don't change a thing can come at any time.
	void noise()
	{
		while(s.chance(1, 6))
		{
			Writer w;
			CoreMsg ignored;
			MockContext none;
			static constexpr NamedGen LIST[] = {
				{"HINT", gen_swallowed<HINT, 10>},
				{"CARD_HINT", gen_swallowed<CARD_HINT, 19>},
				{"CHAINED", gen_chain_status<CHAINED, 1>},
				{"SPSUMMONING", gen_summoning<SPSUMMONING, 0x800>},
				{"SPSUMMONED", gen_swallowed<SPSUMMONED, 0>},
				{"EQUIP", gen_swallowed<EQUIP, 20>},
				{"BECOME_TARGET", gen_selected<BECOME_TARGET>},
				{"CARD_TARGET", gen_card_target<CARD_TARGET>},
				{"CONFIRM_CARDS", gen_confirm<CONFIRM_CARDS>},
				{"SHUFFLE_HAND", gen_shuffle_pile<SHUFFLE_HAND, HAND>},
				{"POS_CHANGE", gen_pos_change},
				{"ADD_COUNTER", gen_counter<ADD_COUNTER>},
				{"ATTACK", gen_attack},
				{"TOSS_COIN", gen_toss_coin},
				{"SELECT_CARD", gen_select_card},
				{"SELECT_PLACE", gen_select_place<SELECT_PLACE>},
				{"SELECT_CHAIN", gen_select_chain},
			};
			auto const& g = LIST[s.below(sizeof(LIST) / sizeof(*LIST))];
			g.gen(s, none, ignored, w);
			send(g.name, w);
		}
	}

	void move_msg(CorePlace const& from, CorePlace const& to)
	{
		Writer w;
		w.u8(MOVE);
		w.u32(s.u32());
		from.info(w);
		to.info(w);
		w.u32(reason_);
		if(c.tracing)
			LOG(c, from.meaning(), " -> ", to.meaning());
		send("MOVE", w);
	}

	std::vector<P> free_zones(Model const& f)
	{
		std::vector<P> r;
		for(int con = 0; con < 2; con++)
			for(int i = 0; i < 4; i++)
				for(uint32_t z = 0; z < ZONE_LIMIT[i]; z++)
				{
					P const p{con, ZONES[i], z, -1};
					if(f.zone(p).empty())
						r.push_back(p);
				}
		return r;
	}

	std::vector<P> all(bool piles, bool zones, bool mats)
	{
		std::vector<P> r;
		for(auto const& p : m.field.cards())
			if(p.pile() ? piles : p.mat() ? mats : zones)
				r.push_back(p);
		return r;
	}

	P pile_end(int con, uint32_t loc, Model const& f)
	{
		P p{con, loc, 0, -1};
		p.seq = static_cast<uint32_t>(f.pile(p).size());
		return p;
	}

	// Where in a pile a card ends up: mostly on top.
	P gen_pile_dest(Model const& f)
	{
		P p{static_cast<int>(s.draw(2)), PILES[s.below(5)], 0, -1};
		p.seq = s.coin() ? static_cast<uint32_t>(f.pile(p).size())
		                 : gen_insert(s, f.pile(p).size());
		return p;
	}

	/*
	 * What can happen.
	 */

	void start()
	{
		if(s.chance(1, 6)) // Joining a duel, or a puzzle.
		{
			reload(true);
			return;
		}
		Writer w;
		w.u8(START);
		w.u8(s.u8());
		for(auto& lp : m.lp)
		{
			lp = s.coin() ? 8000 : s.u32() >> 2U;
			w.u32(lp);
		}
		for(int con = 0; con < 2; con++)
			for(uint32_t const loc : {+DECK, +EXTRA})
			{
				uint32_t const n = s.size(loc == DECK ? 20 : 10);
				w.u16(n);
				for(uint32_t i = 0; i < n; i++)
					m.field.pile({con, loc, 0, -1}).push_back(new_card());
			}
		send("START", w);
	}

	char const* reload(bool fill)
	{
		m.field.clear(gone);
		m.chain.clear();
		Writer w;
		w.u8(RELOAD_FIELD);
		w.u32(s.u32());
		uint32_t const density = fill ? 1 + s.below(3) : s.below(4);
		for(int con = 0; con < 2; con++)
		{
			m.lp[con] = s.coin() ? 8000 : s.u32() >> 2U;
			w.u32(m.lp[con]);
			for(uint32_t z = 0; z < 15; z++)
			{
				if(!s.chance(density, 6))
				{
					w.u8(0);
					continue;
				}
				P const p = CorePlace{static_cast<uint8_t>(con),
				                      z < 7 ? MZONE : SZONE,
				                      z < 7 ? z : z - 7, 0}
				                .spot();
				uint32_t const mats = z < 7 || s.chance(1, 4) ? s.size(4) : 0;
				w.u8(1);
				w.u8(1U << s.below(4));
				w.u32(mats);
				m.field.zone(p).card = new_card();
				for(uint32_t i = 0; i < mats; i++)
					m.field.zone(p).mats.push_back(new_card());
				if(mats != 0)
					c.nontrivial();
			}
			for(uint32_t const loc : {+DECK, +HAND, +GRAVE, +BANISHED, +EXTRA})
			{
				uint32_t const n = s.size(8);
				w.u32(n);
				for(uint32_t i = 0; i < n; i++)
					m.field.pile({con, loc, 0, -1}).push_back(new_card());
			}
			w.u32(0);
		}
		uint32_t const links = s.size(3);
		w.u32(links);
		for(uint32_t i = 0; i < links; i++)
			add_link(w);
		send("RELOAD_FIELD", w);
		return "field reloaded";
	}

	void add_link(Writer& w)
	{
		auto const p = gen_place(s);
		auto const t = gen_card_place(s);
		auto const d = gen_desc(s);
		w.u32(s.u32());
		p.info(w);
		t.brief32(w);
		w.u64(d.value());
		m.chain.emplace_back();
		set(m.chain.back().mutable_card_place(), p.meaning());
		set(m.chain.back().mutable_place(), t.spot());
		set(m.chain.back().mutable_effect(), d);
	}

	char const* act()
	{
		noise();
		reason_ = s.u32();
		std::vector<unsigned> const w =
			focus ? std::vector<unsigned>{6, 14, 10, 14, 8, 4, 2, 2, 1, 2, 1,
		                                  1, 1, 0, 0, 0, 0, 0, 0}
		          : std::vector<unsigned>{12, 8, 5, 7, 5, 4, 4, 4, 3, 6, 3, 2,
		                                  3, 2, 3, 4, 5, 3, 10};
		switch(s.weighted(w))
		{
		case 0:
			return plain_move();
		case 1:
			return attach();
		case 2:
			return leave();
		case 3:
			return xyz_summon();
		case 4:
			return detach();
		case 5:
			return exchange();
		case 6:
			return add_token();
		case 7:
			return remove_card();
		case 8:
			return shuffle_set();
		case 9:
			return draw();
		case 10:
			return swap_grave_deck();
		case 11:
			return reverse_deck();
		case 12:
			return tag_swap();
		case 13:
			return reload(false);
		case 14:
			return turn();
		case 15:
			return life();
		case 16:
			return chain();
		case 17:
			return block();
		default:
			return query();
		}
	}

	// A card without materials goes anywhere but under another.
	char const* plain_move()
	{
		auto cards = all(true, true, false);
		if(cards.empty())
			return nullptr;
		P const from = s.pick(cards);
		Model f = m.field;
		bool const loaded = !from.pile() && !f.zone(from).mats.empty();
		auto zones = free_zones(f);
		if(loaded && zones.empty())
			return nullptr;
		P to;
		if(loaded || (!zones.empty() && s.coin()))
			to = s.pick(zones);
		else
		{
			f.remove(from);
			to = gen_pile_dest(f);
		}
		if(loaded)
			c.nontrivial();
		m.field.move(from, to);
		move_msg(core(from), core(to));
		return loaded ? "move with materials" : "move";
	}

	// To be the material of a card on the field.
	char const* attach()
	{
		auto targets = all(false, true, false);
		auto cards = all(true, true, true);
		if(targets.empty() || cards.empty())
			return nullptr;
		P const x = s.pick(targets);
		P from = s.pick(cards);
		// Materials of the material leave it before (see xyz_summon).
		if(from == x || (!from.pile() && !from.mat() &&
		                 !m.field.zone(from).mats.empty()))
			return nullptr;
		Model f = m.field;
		f.remove(from);
		size_t const size = f.zone(x).mats.size();
		P const to = x.with_oseq(static_cast<int>(
			s.chance(1, 5) ? gen_insert(s, size) : size));
		if(size != 0)
			c.nontrivial();
		m.field.move(from, to);
		move_msg(core(from), core(to));
		return "attach";
	}

	// A material of a card on the field goes elsewhere.
	char const* detach()
	{
		auto mats = all(false, false, true);
		if(mats.empty())
			return nullptr;
		c.nontrivial();
		char const* name = "detach";
		for(uint32_t n = 1 + s.size(2); n > 0 && !mats.empty(); n--)
		{
			P const from = s.pick(mats);
			auto zones = free_zones(m.field);
			P to = gen_pile_dest(m.field);
			if(!zones.empty() && s.chance(1, 4))
			{
				to = s.pick(zones);
				name = "detach to a zone";
			}
			m.field.move(from, to);
			move_msg(core(from), core(to));
			noise();
			mats = all(false, false, true);
		}
		return name;
	}

	// Cards with materials leave the field, and so do their materials after
	// them.
	char const* leave()
	{
		std::vector<P> loaded;
		for(auto const& p : all(false, true, false))
			if(!m.field.zone(p).mats.empty())
				loaded.push_back(p);
		if(loaded.empty())
			return nullptr;
		struct Left
		{
			P zone;
			P place;
			int mats;
		};
		std::vector<Left> left;
		// Those who left stay where they are meanwhile.
		auto dest = [&]
		{
			P p = gen_pile_dest(m.field);
			for(auto const& l : left)
				if(l.place.con == p.con && l.place.loc == p.loc &&
				   p.seq <= l.place.seq)
					p = pile_end(p.con, p.loc, m.field);
			return p;
		};
		uint32_t const n = 1 + (s.chance(1, 3) ? s.below(3) : 0);
		for(uint32_t i = 0; i < n && !loaded.empty(); i++)
		{
			size_t const k = s.below(static_cast<uint32_t>(loaded.size()));
			P const x = loaded[k];
			loaded.erase(loaded.begin() + static_cast<ptrdiff_t>(k));
			P const to = dest();
			left.push_back(
				{x, to, static_cast<int>(m.field.zone(x).mats.size())});
			m.field.move(x, to);
			move_msg(core(x), core(to));
			noise();
		}
		bool to_card = false;
		c.nontrivial();
		if(left.size() > 1)
			c.label("several cards with materials left at once");
		while(!left.empty())
		{
			size_t const k = s.below(static_cast<uint32_t>(left.size()));
			auto& l = left[k];
			int const oseq =
				s.coin() ? 0 : static_cast<int>(s.below(
								   static_cast<uint32_t>(l.mats)));
			P to = dest();
			auto targets = all(false, true, false);
			if(!targets.empty() && s.chance(1, 4))
			{
				P const x = s.pick(targets);
				to = x.with_oseq(
					static_cast<int>(m.field.zone(x).mats.size()));
				to_card = true;
			}
			CorePlace from = core(l.place);
			from.loc |= OVERLAY;
			from.pos = static_cast<uint32_t>(oseq);
			m.field.move(l.zone.with_oseq(oseq), to);
			move_msg(from, core(to));
			if(--l.mats == 0)
				left.erase(left.begin() + static_cast<ptrdiff_t>(k));
			noise();
		}
		return to_card ? "leave, with materials going to others" : "leave";
	}

	// Cards become the materials of one outside the field, which comes to it.
	char const* xyz_summon()
	{
		auto piles = all(true, false, false);
		// Materials may all come from piles, and leave no zone free.
		if(piles.empty() || free_zones(m.field).empty())
			return nullptr;
		P x = s.pick(piles);
		Model f = m.field; // The core's.
		int const xid = f.at(x);
		Pile attached;
		bool all_of_one = s.chance(1, 2);
		uint32_t n = s.chance(1, 8) ? 0 : 1 + s.below(5);
		P host{};
		bool has_host = false;
		if(all_of_one) // Everything that a card has, and the card itself.
		{
			std::vector<P> zones;
			for(auto const& p : all(false, true, false))
				if(!f.zone(p).mats.empty() || s.chance(1, 4))
					zones.push_back(p);
			if(!zones.empty())
			{
				host = s.pick(zones);
				has_host = true;
				n += static_cast<uint32_t>(f.zone(host).mats.size()) + 1;
			}
		}
		uint32_t from_host = 0;
		for(uint32_t i = 0; i < n; i++)
		{
			std::vector<P> can;
			for(auto const& p : f.cards())
			{
				if(f.at(p) == xid)
					continue;
				if(!p.pile() && !p.mat() && !f.zone(p).mats.empty())
					continue;
				can.push_back(p);
			}
			if(can.empty())
				break;
			P from = s.pick(can);
			if(has_host && !f.zone(host).empty() && !s.chance(1, 5))
			{
				auto const& mats = f.zone(host).mats;
				from = mats.empty() ? host
				                    : host.with_oseq(
										  s.coin() ? 0
										           : static_cast<int>(s.below(
														 static_cast<uint32_t>(
															 mats.size()))));
			}
			if(has_host && from.same_spot(host))
				from_host++;
			// Its place as of now, for the core.
			for(auto const& p : f.cards())
				if(f.at(p) == xid)
					x = p;
			attached.push_back(f.remove(from));
			P where = x;
			for(auto const& p : f.cards())
				if(f.at(p) == xid)
					where = p;
			CorePlace to = core(s.coin() ? x : where);
			to.loc |= OVERLAY;
			to.pos = static_cast<uint32_t>(attached.size() - 1);
			move_msg(core(from), to);
			noise();
		}
		for(auto const& p : f.cards())
			if(f.at(p) == xid)
				x = p;
		auto zones = free_zones(f);
		if(zones.empty())
		{
			// The field is full, which can't be unless nothing left it.
			if(!attached.empty())
				pbt::fail("no zone left in the simulation");
			return nullptr;
		}
		P to = s.pick(zones);
		if(has_host && f.zone(host).empty() && !s.chance(1, 4))
		{
			to = host;
			c.label("takes the zone of its material");
		}
		f.remove(x);
		f.zone(to).card = xid;
		f.zone(to).mats = attached;
		m.field = f;
		if(!attached.empty())
			c.nontrivial();
		if(from_host > 1)
			c.label("takes a card and its materials");
		move_msg(core(x), core(to));
		return attached.empty() ? "summon" : "summon with materials";
	}

	char const* exchange()
	{
		auto cards = all(true, true, false);
		if(cards.empty())
			return nullptr;
		P const a = s.pick(cards);
		P const b = s.pick(cards);
		auto loaded = [&](P const& p)
		{ return !p.pile() && !m.field.zone(p).mats.empty(); };
		if((loaded(a) && b.pile()) || (loaded(b) && a.pile()))
			return nullptr;
		if(loaded(a) || loaded(b))
			c.nontrivial();
		Writer w;
		w.u8(SWAP);
		w.u32(s.u32());
		core(a).info(w);
		w.u32(s.u32());
		core(b).info(w);
		m.field.swap(a, b);
		send("SWAP", w);
		return "exchange";
	}

	char const* add_token()
	{
		auto zones = free_zones(m.field);
		P to = gen_pile_dest(m.field);
		if(!zones.empty() && !s.chance(1, 3))
			to = s.pick(zones);
		m.field.add(to, new_card());
		move_msg(CorePlace{}, core(to));
		return "new card";
	}

	char const* remove_card()
	{
		auto cards = all(true, true, true);
		if(cards.empty())
			return nullptr;
		P const p = s.pick(cards);
		if(!p.pile() && !p.mat() && !m.field.zone(p).mats.empty())
			return nullptr;
		gone.push_back(m.field.remove(p));
		move_msg(core(p), CorePlace{});
		return "card removed";
	}

	// Set cards of one player are shuffled: where some of them go is told.
	char const* shuffle_set()
	{
		int const con = static_cast<int>(s.draw(2));
		uint32_t const loc = s.coin() ? SZONE : MZONE;
		std::vector<P> zones;
		for(auto const& p : all(false, true, false))
			if(p.con == con && p.loc == loc && m.field.zone(p).mats.empty())
				zones.push_back(p);
		if(zones.size() < 2)
			return nullptr;
		size_t const n = 2 + s.below(static_cast<uint32_t>(zones.size() - 1));
		for(size_t i = 0; i < zones.size(); i++)
			std::swap(zones[i], zones[i + s.below(static_cast<uint32_t>(
											  zones.size() - i))]);
		zones.resize(n);
		auto to = zones;
		for(size_t i = 0; i < n; i++)
			std::swap(to[i], to[i + s.below(static_cast<uint32_t>(n - i))]);
		Writer w;
		w.u8(SHUFFLE_SET_CARD);
		w.u8(loc);
		w.u8(n);
		for(auto const& p : zones)
			core(p).info(w);
		Model const before = m.field;
		for(auto const& p : zones)
			m.field.zone(p) = Zone{};
		std::vector<int> untold;
		std::vector<P> open;
		for(size_t i = 0; i < n; i++)
		{
			bool const told = s.coin();
			(told ? core(to[i]) : CorePlace{}).info(w);
			if(told)
				m.field.zone(to[i]) = before.zone(zones[i]);
			else
			{
				untold.push_back(before.zone(zones[i]).card);
				open.push_back(to[i]);
			}
		}
		send("SHUFFLE_SET_CARD", w);
		// Nobody can tell the rest apart: any one of them may be in any zone
		// that is left.
		for(auto const& p : open)
		{
			void const* const card =
				board->frame()
					.zone(static_cast<Controller>(p.con),
			              static_cast<Location>(p.loc), p.seq)
					.card;
			size_t k = 0;
			while(k < untold.size() && !bind.same(untold[k], card))
				k++;
			CHECK(k < untold.size(), "shuffled zone ", p,
			      " has none of the shuffled cards left: ", bind.name(card));
			m.field.zone(p).card = untold[k];
			untold.erase(untold.begin() + static_cast<ptrdiff_t>(k));
		}
		return "set cards shuffled";
	}

	char const* draw()
	{
		int const con = static_cast<int>(s.draw(2));
		auto& deck = m.field.piles[con][0];
		auto& hand = m.field.piles[con][1];
		if(deck.empty())
			return nullptr;
		uint32_t const n = static_cast<uint32_t>(
			std::min<size_t>(deck.size(), 1 + s.size(6)));
		Writer w;
		w.u8(DRAW);
		w.u8(con);
		w.u32(n);
		for(uint32_t i = 0; i < n; i++)
		{
			w.u32(s.u32());
			w.u32(s.u32());
			hand.push_back(deck.back());
			deck.pop_back();
		}
		send("DRAW", w);
		return "draw";
	}

	char const* reverse_deck()
	{
		Writer w;
		w.u8(REVERSE_DECK);
		for(auto& p : m.field.piles)
			std::reverse(p[0].begin(), p[0].end());
		send("REVERSE_DECK", w);
		return "decks reversed";
	}

	char const* swap_grave_deck()
	{
		int const con = static_cast<int>(s.draw(2));
		auto& p = m.field.piles[con];
		Pile const grave = p[2];
		uint32_t const at = s.below(static_cast<uint32_t>(p[4].size() + 1));
		std::vector<uint8_t> buffer(s.coin() ? (grave.size() + 7) / 8 : 0);
		Pile extra;
		p[2] = p[0];
		p[0].clear();
		for(size_t i = 0; i < grave.size(); i++)
		{
			bool const to_extra = i / 8 < buffer.size() && s.chance(1, 3);
			if(to_extra)
				buffer[i / 8] |= 1U << (i % 8);
			(to_extra ? extra : p[0]).push_back(grave[i]);
		}
		p[4].insert(p[4].begin() + at, extra.begin(), extra.end());
		Writer w;
		w.u8(SWAP_GRAVE_DECK);
		w.u8(con);
		w.u32(at);
		w.u32(buffer.size());
		w.append(buffer);
		send("SWAP_GRAVE_DECK", w);
		return "graveyard and deck swapped";
	}

	char const* tag_swap()
	{
		int const con = static_cast<int>(s.draw(2));
		auto resize = [&](uint32_t loc)
		{
			P const p{con, loc, 0, -1};
			uint32_t const n = s.size(12);
			int const before = fresh;
			m.field.resize(p, n, fresh, gone);
			for(int id = before; id < fresh; id++)
				truth[id] = gen_facts();
			return n;
		};
		uint32_t const main = resize(DECK);
		uint32_t const extra = resize(EXTRA);
		uint32_t const hand = resize(HAND);
		Writer w;
		w.u8(TAG_SWAP);
		w.u8(con);
		w.u32(main);
		w.u32(extra);
		w.u32(s.below(extra + 1));
		w.u32(hand);
		w.u32(s.u32());
		for(uint32_t i = 0; i < extra + hand; i++)
		{
			w.u32(s.u32());
			w.u32(s.u32());
		}
		send("TAG_SWAP", w);
		return "players swapped";
	}

	char const* turn()
	{
		Writer w;
		if(s.coin())
		{
			m.turn_con = static_cast<int>(s.draw(2));
			m.turn++;
			w.u8(NEW_TURN);
			w.u8(m.turn_con);
			send("NEW_TURN", w);
			return "turn";
		}
		m.phase = 1U << s.below(10);
		w.u8(NEW_PHASE);
		w.u16(m.phase);
		send("NEW_PHASE", w);
		return "phase";
	}

	char const* life()
	{
		int const con = static_cast<int>(s.draw(2));
		auto& lp = m.lp[con];
		uint32_t const n = s.coin() ? s.below(9000) : s.u32() >> 3U;
		Writer w;
		auto msg = [&](uint8_t type, char const* name)
		{
			w.u8(type);
			w.u8(con);
			w.u32(n);
			send(name, w);
			return name;
		};
		switch(s.below(4))
		{
		case 0:
			lp = n >= lp ? 0 : lp - n;
			return msg(DAMAGE, "damage");
		case 1:
			lp = n >= lp ? 0 : lp - n;
			return msg(PAY_LPCOST, "pay");
		case 2:
			lp = n;
			return msg(LPUPDATE, "life points");
		default:
			if(lp > 0x80000000U)
				return nullptr;
			lp += n;
			return msg(RECOVER, "recover");
		}
	}

	char const* chain()
	{
		Writer w;
		if(m.chain.empty() || s.coin())
		{
			Writer link;
			add_link(link);
			w.u8(CHAINING);
			w.append(link.b);
			w.u32(m.chain.size());
			send("CHAINING", w);
			return "chain link";
		}
		w.u8(CHAIN_SOLVED);
		w.u8(m.chain.size());
		m.chain.pop_back();
		send("CHAIN_SOLVED", w);
		return "chain link solved";
	}

	char const* block()
	{
		uint32_t const bits = s.u32() & s.u32();
		Writer w;
		w.u8(FIELD_DISABLED);
		w.u32(bits);
		m.blocked.clear();
		auto const zones = zone_bits(0);
		for(uint32_t i = 0; i < 32; i++)
			if((bits >> i & 1U) != 0 && zones[i].loc != 0)
				m.blocked.push_back(zones[i].proto());
		send("FIELD_DISABLED", w);
		return "blocked zones";
	}

	// Tells some facts of the card in that place and of its materials.
	void facts(Writer& w, P const& p, uint32_t flags)
	{
		int const id = m.field.at(p);
		if(s.coin())
			truth[id] = gen_facts();
		Facts const& t = truth[id];
		Facts& k = known[id];
		auto field = [&](uint32_t flag, uint32_t v, bool byte = false)
		{
			w.u16(4 + (byte ? 1 : 4));
			w.u32(flag);
			if(byte)
				w.u8(v);
			else
				w.u32(v);
		};
		if((flags & 1U) != 0)
			field(0x1, k.code = t.code);
		if((flags & 2U) != 0)
			field(0x2, k.pos = t.pos);
		if((flags & 4U) != 0)
			field(0x100, static_cast<uint32_t>(k.atk = t.atk));
		if((flags & 8U) != 0 && !p.pile())
		{
			auto const& mats = m.field.zone(p).mats;
			w.u16(4 + 4 + 4 * mats.size());
			w.u32(0x10000);
			w.u32(mats.size());
			for(int const mat : mats)
				w.u32(known[mat].code = truth[mat].code);
			if(!mats.empty())
				c.nontrivial();
		}
		if((flags & 16U) != 0)
		{
			w.u16(4 + 4 + 4 * t.counters.size());
			w.u32(0x20000);
			w.u32(t.counters.size());
			for(auto const& ct : t.counters)
			{
				w.u16(ct.first);
				w.u16(ct.second);
			}
			k.counters = t.counters;
		}
		if((flags & 32U) != 0)
			field(0x40000, k.owner = t.owner, true);
		w.u16(4);
		w.u32(0x80000000U);
	}

	char const* query()
	{
		uint32_t const flags = s.below(64);
		Writer w;
		if(s.chance(1, 3))
		{
			auto cards = all(true, true, false);
			if(cards.empty())
				return nullptr;
			P const p = s.pick(cards);
			w.u8(UPDATE_CARD);
			core(p).brief8(w);
			facts(w, p, flags);
			send("UPDATE_CARD", w);
			return "card told";
		}
		uint8_t const con = gen_con(s);
		uint32_t const loc =
			s.coin() ? (s.coin() ? SZONE : MZONE) : PILES[s.below(5)];
		uint32_t const n =
			loc == MZONE   ? 7
			: loc == SZONE ? 8
						   : static_cast<uint32_t>(
								 m.field.pile({con, loc, 0, -1}).size());
		Writer body;
		for(uint32_t i = 0; i < n; i++)
		{
			P const p = CorePlace{con, loc, i, 0}.spot();
			// Cards that there is nothing to tell of are left out too.
			if(!m.field.has(p) || s.chance(1, 8))
				body.u16(0);
			else
				facts(body, p, flags);
		}
		w.u8(UPDATE_DATA);
		w.u8(con);
		w.u8(loc);
		w.u32(body.b.size());
		w.append(body.b);
		send("UPDATE_DATA", w);
		return "location told";
	}
};

inline void run(Src& s, Case& c, bool materials)
{
	if(s.coin())
		Duel<Basic>(s, c, materials).run();
	else
		Duel<Limbo>(s, c, materials).run();
}

} // namespace core_sim
