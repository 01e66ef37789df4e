// Random duel events and their meaning over a reference board.
#ifndef VERIF_EVENT_GEN_HPP
#define VERIF_EVENT_GEN_HPP
#include "frame_model.hpp"

#include <google/protobuf/util/message_differencer.h>
#include <ygopen/proto/duel/msg.hpp>

namespace ref
{

using ProtoMsg = YGOpen::Proto::Duel::Msg;
using ProtoEvent = ProtoMsg::Event;
using ProtoChain = YGOpen::Proto::Duel::Chain;

inline bool same_msg(google::protobuf::Message const& a,
                     google::protobuf::Message const& b)
{
	// (No maps, hence no two ways of writing the same.)
	return a.SerializeAsString() == b.SerializeAsString();
}

struct BoardModel
{
	Model field;
	uint32_t lp[2] = {0, 0};
	uint32_t turn = 0;
	int turn_con = 0;
	uint32_t phase = 0;
	std::vector<ProtoChain> chain;
	std::vector<ProtoPlace> blocked;
};

// Whatever place, not necessarily one of the field.
inline ProtoPlace gen_any_place(Src& s)
{
	if(s.chance(1, 8))
		return {};
	P p = s.coin() ? gen_pile(s) : gen_zone(s);
	if(p.pile())
		p.seq = static_cast<uint32_t>(s.draw(60));
	else if(s.chance(1, 3))
		p.oseq = static_cast<int>(s.draw(6));
	return p.proto();
}

inline ProtoChain gen_chain(Src& s)
{
	ProtoChain c;
	*c.mutable_card_place() = gen_any_place(s);
	*c.mutable_place() = gen_any_place(s);
	c.mutable_effect()->set_code(s.u32());
	c.mutable_effect()->set_index(s.u32());
	return c;
}

// A chain that remembers.
class UndoableChain
{
public:
	using V = std::vector<ProtoChain>;
	UndoableChain() : hist_(1) {}
	template<typename It>
	void assign(It first, It last)
	{
		step(V(first, last));
	}
	void push_back(ProtoChain const& c)
	{
		V v = now();
		v.push_back(c);
		step(std::move(v));
	}
	void pop_back()
	{
		V v = now();
		v.pop_back();
		step(std::move(v));
	}
	void undo()
	{
		CHECK(at_ > 0, "the chain was undone too far");
		at_--;
	}
	void undo_push_back(ProtoChain const& c)
	{
		CHECK(!now().empty() && same_msg(now().back(), c),
		      "undoing a chain link that isn't the last");
		undo();
	}
	void undo_pop_back() { undo(); }
	V const& now() const { return hist_[at_]; }

private:
	void step(V v)
	{
		if(++at_ == hist_.size())
			hist_.push_back(std::move(v));
	}
	std::vector<V> hist_;
	size_t at_ = 0;
};

struct EventOptions
{
	bool shuffle = true; // Shuffles of set cards can't be undone (yet).
	uint32_t max_cards = 90;
};

class EventGen
{
public:
	EventGen(Src& src, Case& cs, EventOptions o = {}) : s(src), c(cs), opt(o)
	{
		gen_focus(s);
	}

	Src& s;
	Case& c;
	EventOptions opt;
	int fresh = 0;
	std::vector<int> gone;

	// A random event that is valid for the board, which is updated. Returns
	// null if no event of the kind that was chosen is possible.
	char const* next(BoardModel& b, ProtoEvent& e)
	{
		size_t const n = b.field.count();
		bool const few = n < 5;
		bool const many = n > opt.max_cards;
		switch(s.weighted({few ? 8U : 1U,          // state
		                   few ? 6U : 2U,          // exchange of a deck
		                   few ? 8U : many ? 0U : 4U, // add
		                   many ? 8U : few ? 0U : 3U, // remove
		                   8, 4, 2,                // move, swap, shuffle
		                   4, 2, 3,                // splice, pile swap, resize
		                   4, 3,                   // push, pop
		                   4, 8, 4, 4, 4}))        // turn, lp, phase, block, info
		{
		case 0:
			return state(b, e);
		case 1:
			return exchange(b, e);
		case 2:
		{
			reason(e);
			auto& m = *e.mutable_card()->mutable_add();
			for(size_t k = 1 + s.size(5); k != 0; k--)
				add(b.field, *m.add_places());
			return "card add";
		}
		case 3:
		{
			if(n == 0)
				return nullptr;
			reason(e);
			auto& m = *e.mutable_card()->mutable_remove();
			for(size_t k = 1 + s.size(4); k != 0; k--)
				if(!remove(b.field, m))
					break;
			return "card remove";
		}
		case 4:
		{
			if(n == 0)
				return nullptr;
			reason(e);
			auto& m = *e.mutable_card()->mutable_move();
			for(size_t k = 1 + s.size(4); k != 0; k--)
			{
				Move mv;
				if(!gen_move(s, b.field, mv))
					break;
				auto& op = *m.add_ops();
				*op.mutable_old_place() = mv.from.proto();
				*op.mutable_new_place() = mv.to.proto();
				b.field.move(mv.from, mv.to);
			}
			return "card move";
		}
		case 5:
		{
			if(n == 0)
				return nullptr;
			reason(e);
			auto& m = *e.mutable_card()->mutable_exchange();
			for(size_t k = 1 + s.size(3); k != 0; k--)
			{
				P x;
				P y;
				if(!gen_swap(s, b.field, x, y))
					continue;
				auto& op = *m.add_ops();
				*op.mutable_place_a() = x.proto();
				*op.mutable_place_b() = y.proto();
				b.field.swap(x, y);
			}
			return "card exchange";
		}
		case 6:
			return opt.shuffle ? shuffle(b, e) : nullptr;
		case 7:
		{
			e.mutable_pile()->set_reason(s.u64());
			auto& m = *e.mutable_pile()->mutable_splice();
			for(size_t k = 1 + s.size(3); k != 0; k--)
			{
				P from;
				P to;
				size_t count = 0;
				bool rev = false;
				gen_splice(s, b.field, from, count, to, rev);
				auto& op = *m.add_ops();
				*op.mutable_from() = from.proto();
				op.set_count(static_cast<uint32_t>(count));
				*op.mutable_to() = to.proto();
				op.set_reverse(rev);
				b.field.splice(from, count, to, rev);
			}
			return "pile splice";
		}
		case 8:
		{
			e.mutable_pile()->set_reason(s.u64());
			auto& m = *e.mutable_pile()->mutable_exchange();
			for(size_t k = 1 + s.size(2); k != 0; k--)
			{
				P const x = gen_pile(s);
				P const y = gen_pile(s);
				auto& op = *m.add_ops();
				*op.mutable_place_a() = x.proto();
				*op.mutable_place_b() = y.proto();
				b.field.pile_swap(x, y);
			}
			return "pile exchange";
		}
		case 9:
			e.mutable_pile()->set_reason(s.u64());
			resize(b.field, *e.mutable_pile()->mutable_resize());
			return "pile resize";
		case 10:
			b.chain.push_back(gen_chain(s));
			*e.mutable_chain_stack()->mutable_push() = b.chain.back();
			return "chain push";
		case 11:
			if(b.chain.empty())
				return nullptr;
			b.chain.pop_back();
			e.mutable_chain_stack()->set_pop(s.coin());
			return "chain pop";
		case 12:
			b.turn_con = static_cast<int>(s.draw(2));
			b.turn++;
			e.set_next_turn(b.turn_con);
			return "next turn";
		case 13:
			return lp(b, e);
		case 14:
			b.phase = s.chance(3, 4) ? 1U << s.draw(10) : s.u32();
			e.set_next_phase(b.phase);
			return "next phase";
		case 15:
		{
			b.blocked.clear();
			e.mutable_zone_block();
			for(size_t k = s.size(10); k != 0; k--)
			{
				b.blocked.push_back(gen_zone(s).proto());
				*e.mutable_zone_block()->add_zones() = b.blocked.back();
			}
			return "zone block";
		}
		default:
			return info(e);
		}
	}

private:
	void reason(ProtoEvent& e) { e.mutable_card()->set_reason(s.u64()); }

	void add(Model& m, ProtoPlace& out)
	{
		P const p = gen_free(s, m);
		out = p.proto();
		m.add(p, fresh++);
	}

	template<typename M>
	bool remove(Model& m, M& out)
	{
		P p;
		if(!gen_card(s, m, p))
			return false;
		*out.add_places() = p.proto();
		gone.push_back(m.remove(p));
		return true;
	}

	void resize(Model& m, ProtoEvent::Pile::Resize& out)
	{
		for(size_t k = 1 + s.size(6); k != 0; k--)
		{
			P const p = gen_pile(s);
			size_t const n = gen_pile_count(s, m.pile(p).size());
			auto& op = *out.add_ops();
			*op.mutable_place() = p.proto();
			op.set_count(static_cast<uint32_t>(n));
			m.resize(p, n, fresh, gone);
		}
	}

	char const* state(BoardModel& b, ProtoEvent& e)
	{
		auto& st = *e.mutable_board()->mutable_state();
		int32_t const tc =
			s.chance(1, 3) ? -1 - static_cast<int32_t>(s.draw(3))
						   : static_cast<int32_t>(s.draw(0x7FFFFFFF));
		st.set_turn_counter(tc);
		if(tc >= 0)
			b.turn = static_cast<uint32_t>(tc);
		if(s.coin())
			st.mutable_shape()->set_has_emzones(true);
		for(auto& v : b.lp)
		{
			v = s.coin() ? 8000 : s.u32() / 2;
			st.add_lps(v);
		}
		b.chain.clear();
		for(size_t k = s.chance(1, 60) ? s.below(80) : s.size(4); k != 0; k--)
		{
			b.chain.push_back(gen_chain(s));
			*st.add_chains() = b.chain.back();
		}
		b.field.clear(gone);
		for(size_t k = s.size(12); k != 0; k--)
			add(b.field, *st.mutable_add()->add_places());
		if(!s.chance(1, 4))
			resize(b.field, *st.mutable_resize());
		return "board state";
	}

	char const* exchange(BoardModel& b, ProtoEvent& e)
	{
		auto& ex = *e.mutable_board()->mutable_exchange();
		ex.set_con(static_cast<int32_t>(s.draw(2)));
		if(!s.chance(1, 4))
			resize(b.field, *ex.mutable_resize());
		for(size_t k = s.size(6); k != 0; k--)
			remove(b.field, *ex.mutable_remove());
		for(size_t k = s.size(6); k != 0; k--)
			add(b.field, *ex.mutable_add()->add_places());
		return "board exchange";
	}

	char const* shuffle(BoardModel& b, ProtoEvent& e)
	{
		int const con = static_cast<int>(s.draw(2));
		int const li = static_cast<int>(s.draw(2));
		std::vector<uint32_t> from;
		for(uint32_t q = 0; q < ZONE_LIMIT[li]; q++)
			if(b.field.zones[con][li][q].card >= 0 && !s.chance(1, 4))
				from.push_back(q);
		if(from.empty())
			return nullptr;
		auto to = from;
		for(size_t i = to.size(); i > 1; i--)
			std::swap(to[i - 1], to[s.draw(i)]);
		auto const old = b.field.zones[con][li];
		reason(e);
		auto& sh = *e.mutable_card()->mutable_shuffle();
		for(size_t i = 0; i < from.size(); i++)
		{
			*sh.add_previous_places() = P{con, ZONES[li], from[i], -1}.proto();
			*sh.add_current_places() = P{con, ZONES[li], to[i], -1}.proto();
			b.field.zones[con][li][to[i]] = old[from[i]];
		}
		return "card shuffle";
	}

	char const* lp(BoardModel& b, ProtoEvent& e)
	{
		int const con = static_cast<int>(s.draw(2));
		auto& cur = b.lp[con];
		auto& m = *e.mutable_lp();
		m.set_controller(con);
		// Around the current amount, most of the time.
		auto amount = [&]() -> uint32_t
		{
			switch(s.draw(4))
			{
			case 0:
				return static_cast<uint32_t>(s.draw(4000));
			case 1:
				return cur + static_cast<uint32_t>(s.draw(2));
			case 2:
				return static_cast<uint32_t>(
					s.draw(static_cast<uint64_t>(cur) + 1));
			default:
				return s.u32();
			}
		};
		switch(s.draw(4))
		{
		case 0:
			cur = amount();
			m.set_become(cur);
			return "lp become";
		case 1:
		{
			uint32_t const v = amount();
			m.set_damage(v);
			cur = v > cur ? 0 : cur - v;
			return "lp damage";
		}
		case 2:
		{
			uint32_t const v = amount();
			m.set_pay(v);
			cur = v > cur ? 0 : cur - v;
			return "lp pay";
		}
		default:
		{
			// What doesn't fit isn't specified.
			uint32_t const v = static_cast<uint32_t>(std::min<uint64_t>(
				amount(), 0xFFFFFFFFULL - cur));
			m.set_recover(v);
			cur += v;
			return "lp recover";
		}
		}
	}

	char const* info(ProtoEvent& e)
	{
		switch(s.draw(14))
		{
		case 0:
			e.mutable_finish()->set_winner(static_cast<int32_t>(s.draw(2)));
			e.mutable_finish()->set_win_reason(s.u32());
			break;
		case 1:
			e.mutable_finish()->set_draw(true);
			break;
		case 2:
			*e.mutable_meta()->mutable_attack()->mutable_attacker() =
				gen_any_place(s);
			break;
		case 3:
			e.mutable_meta()->set_chain_status(
				static_cast<YGOpen::Proto::Duel::ChainStatus>(s.draw(5)));
			break;
		case 4:
			*e.mutable_meta()->mutable_confirm()->add_places() =
				gen_any_place(s);
			break;
		case 5:
			e.mutable_meta()->mutable_description()->mutable_add()->set_code(
				s.u32());
			break;
		case 6:
			e.mutable_meta()->mutable_flash_card()->set_code(s.u32());
			break;
		case 7:
			*e.mutable_meta()->mutable_missed_timing()->add_places() =
				gen_any_place(s);
			break;
		case 8:
			*e.mutable_meta()->mutable_selection()->add_selected_places() =
				gen_any_place(s);
			break;
		case 9:
			*e.mutable_meta()->mutable_shuffle_pile()->add_places() =
				gen_pile(s).proto();
			break;
		case 10:
			*e.mutable_meta()->mutable_update()->add_places() =
				gen_any_place(s);
			break;
		case 11:
			e.mutable_result()->mutable_coin()->add_values(s.coin());
			break;
		case 12:
			e.mutable_result()->mutable_dice()->add_values(s.u32());
			break;
		default:
			e.mutable_result()->mutable_rps()->add_values(s.i32());
			break;
		}
		return "informative";
	}
};

} // namespace ref

#endif // VERIF_EVENT_GEN_HPP
