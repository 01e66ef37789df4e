// Reference model of a duel field, written from the meaning of each operation
// (no code shared with the library). Cards are integer ids.
#ifndef VERIF_FRAME_MODEL_HPP
#define VERIF_FRAME_MODEL_HPP
#include "engine.hpp"

#include <algorithm>
#include <cassert>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <ygopen/proto/duel/data.hpp>

namespace ref
{

using pbt::Case;
using pbt::Src;
using ProtoPlace = YGOpen::Proto::Duel::Place;

// Location values of the protocol.
enum : uint32_t
{
	DECK = 0x1,
	HAND = 0x2,
	MZONE = 0x4,
	SZONE = 0x8,
	GRAVE = 0x10,
	BANISHED = 0x20,
	EXTRA = 0x40,
	FZONE = 0x100,
	PZONE = 0x200,
	SKILL = 0x400,
};

constexpr uint32_t PILES[] = {DECK, HAND, GRAVE, BANISHED, EXTRA};
constexpr uint32_t ZONES[] = {MZONE, SZONE, FZONE, PZONE, SKILL};
constexpr uint32_t ZONE_LIMIT[] = {7, 5, 1, 2, 1};

inline int pile_index(uint32_t loc)
{
	for(int i = 0; i < 5; i++)
		if(PILES[i] == loc)
			return i;
	return -1;
}

inline int zone_index(uint32_t loc)
{
	for(int i = 0; i < 5; i++)
		if(ZONES[i] == loc)
			return i;
	return -1;
}

struct P
{
	int con = 0;
	uint32_t loc = DECK;
	uint32_t seq = 0;
	int oseq = -1;

	bool pile() const { return pile_index(loc) >= 0; }
	bool mat() const { return oseq >= 0; }
	P zone() const { return {con, loc, seq, -1}; }
	P with_oseq(int o) const { return {con, loc, seq, o}; }
	bool operator==(P const& o) const
	{
		return con == o.con && loc == o.loc && seq == o.seq &&
		       (oseq == o.oseq || (oseq < 0 && o.oseq < 0));
	}
	bool operator!=(P const& o) const { return !(*this == o); }
	bool same_spot(P const& o) const
	{
		return con == o.con && loc == o.loc && seq == o.seq;
	}
	ProtoPlace proto() const
	{
		ProtoPlace p;
		p.set_con(con);
		p.set_loc(loc);
		p.set_seq(seq);
		p.set_oseq(oseq);
		return p;
	}
	static P of(ProtoPlace const& p)
	{
		return {p.con(), p.loc(), p.seq(), p.oseq()};
	}
};

inline std::ostream& operator<<(std::ostream& os, P const& p)
{
	static char const* const names[] = {"DECK", "HAND", "GRAVE", "BANISHED",
	                                    "EXTRA"};
	static char const* const znames[] = {"MZONE", "SZONE", "FZONE", "PZONE",
	                                     "SKILL"};
	os << p.con << ':';
	if(pile_index(p.loc) >= 0)
		os << names[pile_index(p.loc)];
	else if(zone_index(p.loc) >= 0)
		os << znames[zone_index(p.loc)];
	else
		os << "0x" << std::hex << p.loc << std::dec;
	os << '[' << p.seq << ']';
	if(p.oseq != -1)
		os << '/' << p.oseq;
	return os;
}

inline std::ostream& operator<<(std::ostream& os, std::vector<int> const& v)
{
	os << '{';
	for(size_t i = 0; i < v.size(); i++)
		os << (i != 0 ? " " : "") << v[i];
	return os << '}';
}

using Pile = std::vector<int>;

struct Zone
{
	int card = -1;
	Pile mats;
	bool operator==(Zone const& o) const
	{
		return card == o.card && mats == o.mats;
	}
	bool empty() const { return card < 0 && mats.empty(); }
};

struct Model
{
	std::array<std::array<Pile, 5>, 2> piles;
	std::array<std::array<std::array<Zone, 7>, 5>, 2> zones;

	bool operator==(Model const& o) const
	{
		return piles == o.piles && zones == o.zones;
	}

	Pile& pile(P const& p) { return piles[p.con][pile_index(p.loc)]; }
	Pile const& pile(P const& p) const
	{
		return piles[p.con][pile_index(p.loc)];
	}
	Zone& zone(P const& p) { return zones[p.con][zone_index(p.loc)][p.seq]; }
	Zone const& zone(P const& p) const
	{
		return zones[p.con][zone_index(p.loc)][p.seq];
	}

	bool has(P const& p) const
	{
		if(p.pile())
			return p.seq < pile(p).size();
		auto const& z = zone(p);
		return p.mat() ? static_cast<size_t>(p.oseq) < z.mats.size()
		               : z.card >= 0;
	}
	int at(P const& p) const
	{
		if(p.pile())
			return pile(p)[p.seq];
		return p.mat() ? zone(p).mats[p.oseq] : zone(p).card;
	}
	int& slot(P const& p)
	{
		if(p.pile())
			return pile(p)[p.seq];
		return p.mat() ? zone(p).mats[p.oseq] : zone(p).card;
	}

	void add(P const& p, int id)
	{
		if(p.pile())
			pile(p).insert(pile(p).begin() + p.seq, id);
		else if(p.mat())
			zone(p).mats.insert(zone(p).mats.begin() + p.oseq, id);
		else
			zone(p).card = id;
	}
	int remove(P const& p)
	{
		int const id = at(p);
		if(p.pile())
			pile(p).erase(pile(p).begin() + p.seq);
		else if(p.mat())
			zone(p).mats.erase(zone(p).mats.begin() + p.oseq);
		else
			zone(p).card = -1;
		return id;
	}
	// The card changes place; the materials it has follow it only when it goes
	// from one zone to another as a card proper.
	int move(P const& from, P const& to)
	{
		bool const carry = !from.pile() && !to.pile() && !from.mat() &&
		                   !to.mat() && !from.same_spot(to);
		Pile mats;
		if(carry)
			mats.swap(zone(from).mats);
		int const id = remove(from);
		add(to, id);
		if(carry)
			zone(to).mats.insert(zone(to).mats.end(), mats.begin(),
			                     mats.end());
		return id;
	}
	void swap(P const& a, P const& b)
	{
		if(!a.pile() && !b.pile() && !a.mat() && !b.mat())
		{
			Zone const za = zone(a);
			zone(a) = zone(b);
			zone(b) = za;
			return;
		}
		int const ia = at(a);
		int const ib = at(b);
		slot(a) = ib;
		slot(b) = ia;
	}
	// Ids of new cards come from `fresh`; ids of removed ones go to `gone`.
	void resize(P const& p, size_t count, int& fresh, std::vector<int>& gone)
	{
		auto& v = pile(p);
		while(v.size() > count)
		{
			gone.push_back(v.back());
			v.pop_back();
		}
		while(v.size() < count)
			v.push_back(fresh++);
	}
	void splice(P const& from, size_t count, P const& to, bool reverse)
	{
		auto const first = pile(from).begin() + from.seq;
		Pile taken(first, first + static_cast<std::ptrdiff_t>(count));
		pile(from).erase(first, first + static_cast<std::ptrdiff_t>(count));
		if(reverse)
			std::reverse(taken.begin(), taken.end());
		pile(to).insert(pile(to).begin() + to.seq, taken.begin(), taken.end());
	}
	void pile_swap(P const& a, P const& b)
	{
		Pile const t = pile(a);
		pile(a) = pile(b);
		pile(b) = t;
	}
	void clear(std::vector<int>& gone)
	{
		for(auto const& p : cards())
			gone.push_back(at(p));
		*this = Model{};
	}

	std::vector<P> cards() const
	{
		std::vector<P> r;
		for(int con = 0; con < 2; con++)
		{
			for(int i = 0; i < 5; i++)
				for(uint32_t s = 0; s < piles[con][i].size(); s++)
					r.push_back({con, PILES[i], s, -1});
			for(int i = 0; i < 5; i++)
				for(uint32_t s = 0; s < ZONE_LIMIT[i]; s++)
				{
					auto const& z = zones[con][i][s];
					if(z.card >= 0)
						r.push_back({con, ZONES[i], s, -1});
					for(int o = 0; o < static_cast<int>(z.mats.size()); o++)
						r.push_back({con, ZONES[i], s, o});
				}
		}
		return r;
	}
	size_t count() const
	{
		size_t n = 0;
		for(auto const& side : piles)
			for(auto const& v : side)
				n += v.size();
		for(auto const& side : zones)
			for(auto const& loc : side)
				for(auto const& z : loc)
					n += (z.card >= 0) + z.mats.size();
		return n;
	}
};

inline std::string show(Model const& m)
{
	std::ostringstream os;
	for(int con = 0; con < 2; con++)
	{
		for(int i = 0; i < 5; i++)
			if(!m.piles[con][i].empty())
			{
				std::ostringstream n;
				n << P{con, PILES[i], 0, -1};
				std::string s = n.str();
				os << s.substr(0, s.find('[')) << m.piles[con][i] << ' ';
			}
		for(int i = 0; i < 5; i++)
			for(uint32_t s = 0; s < ZONE_LIMIT[i]; s++)
			{
				auto const& z = m.zones[con][i][s];
				if(!z.empty())
					os << P{con, ZONES[i], s, -1} << '=' << z.card << z.mats
					   << ' ';
			}
	}
	return os.str();
}

// Ties ids to the addresses of actual cards, when they are first seen.
class Binding
{
public:
	bool same(int id, void const* ptr)
	{
		auto it = by_id_.find(id);
		if(it != by_id_.end())
			return it->second == ptr;
		if(ptr == nullptr || by_ptr_.count(ptr) != 0)
			return false;
		by_id_[id] = ptr;
		by_ptr_[ptr] = id;
		return true;
	}
	// Object bound to a card, null if it wasn't seen.
	void const* object(int id) const
	{
		auto it = by_id_.find(id);
		return it == by_id_.end() ? nullptr : it->second;
	}
	std::vector<int> ids() const
	{
		std::vector<int> r;
		for(auto const& e : by_id_)
			r.push_back(e.first);
		return r;
	}
	void unbind(int id)
	{
		auto it = by_id_.find(id);
		if(it == by_id_.end())
			return;
		by_ptr_.erase(it->second);
		by_id_.erase(it);
	}
	std::string name(void const* ptr) const
	{
		auto it = by_ptr_.find(ptr);
		if(ptr == nullptr)
			return "null";
		return it == by_ptr_.end() ? "unknown card"
		                           : "card " + std::to_string(it->second);
	}

private:
	std::map<int, void const*> by_id_;
	std::map<void const*, int> by_ptr_;
};

template<typename Frame>
void same_list(Pile const& want, typename Frame::PileType const& got,
               Binding& b, P const& where, char const* when)
{
	if(want.size() != got.size())
		pbt::failf(when, ": ", where, " should hold ", want.size(),
		           " cards, holds ", got.size());
	for(size_t i = 0; i < want.size(); i++)
		if(!b.same(want[i], got[i]))
			pbt::failf(when, ": ", where, " index ", i, " should be card ",
			           want[i], ", is ", b.name(got[i]));
}

// The frame shows exactly the cards of the model, everywhere.
template<typename Frame>
void same_state(Model const& m, Frame const& f, Binding& b, char const* when)
{
	using namespace YGOpen::Duel;
	for(int con = 0; con < 2; con++)
	{
		for(int i = 0; i < 5; i++)
			same_list<Frame>(m.piles[con][i],
			                 f.pile(static_cast<Controller>(con),
			                        static_cast<Location>(PILES[i])),
			                 b, {con, PILES[i], 0, -1}, when);
		for(int i = 0; i < 5; i++)
			for(uint32_t s = 0; s < ZONE_LIMIT[i]; s++)
			{
				P const p{con, ZONES[i], s, -1};
				auto const& z =
					f.zone(static_cast<Controller>(con),
				           static_cast<Location>(ZONES[i]), s);
				auto const& want = m.zones[con][i][s];
				if(want.card < 0)
				{
					if(z.card != nullptr)
						pbt::failf(when, ": ", p, " should be empty, has ",
						           b.name(z.card));
				}
				else if(!b.same(want.card, z.card))
					pbt::failf(when, ": ", p, " should have card ", want.card,
					           ", has ", b.name(z.card));
				same_list<Frame>(want.mats, z.materials, b, p, when);
			}
	}
}

// ------------------------------------------------------------- generators

inline int gen_noseq(Src& s)
{
	switch(s.draw(12))
	{
	case 10:
		return -2 - static_cast<int>(s.draw(100));
	case 11:
		return s.coin() ? -2147483647 - 1 : -2147483647;
	default:
		return -1;
	}
}

// Some cases use few places a lot: long piles and stacks of materials.
struct Focus
{
	std::vector<P> zones;
	std::vector<P> piles;
};

inline thread_local Focus focus;

inline P gen_pile(Src& s)
{
	if(!focus.piles.empty() && !s.chance(1, 4))
	{
		P p = s.pick(focus.piles);
		p.oseq = gen_noseq(s);
		return p;
	}
	return {static_cast<int>(s.draw(2)), PILES[s.draw(5)], 0, gen_noseq(s)};
}

inline P gen_zone(Src& s)
{
	if(!focus.zones.empty() && !s.chance(1, 4))
	{
		P p = s.pick(focus.zones);
		p.oseq = gen_noseq(s);
		return p;
	}
	// Monster zones are the busiest part of the field.
	static constexpr unsigned PICK[] = {0, 0, 0, 1, 1, 2, 3, 3, 4};
	unsigned const i = PICK[s.draw(9)];
	return {static_cast<int>(s.draw(2)), ZONES[i],
	        static_cast<uint32_t>(s.draw(ZONE_LIMIT[i])), gen_noseq(s)};
}

// To be called first by each case.
inline void gen_focus(Src& s)
{
	focus = {};
	if(!s.chance(1, 3))
		return;
	Focus n;
	for(auto k = 1 + s.draw(3); k != 0; k--)
		n.zones.push_back(gen_zone(s));
	for(auto k = 1 + s.draw(2); k != 0; k--)
		n.piles.push_back(gen_pile(s));
	focus = n;
}

// A card on the field of some kind, if there is any.
struct Want
{
	bool piles = true;
	bool zones = true;
	bool mats = true;
};

inline bool gen_card(Src& s, Model const& m, P& out, Want w = {})
{
	std::vector<P> c;
	for(auto const& p : m.cards())
		if(p.pile() ? w.piles : p.mat() ? w.mats : w.zones)
			c.push_back(p);
	if(c.empty())
		return false;
	// Prefer zones: piles tend to hold most cards.
	std::vector<P> z;
	for(auto const& p : c)
		if(!p.pile())
			z.push_back(p);
	if(!z.empty() && s.coin())
		out = s.pick(z);
	else
		out = s.pick(c);
	if(out.oseq < 0)
		out.oseq = gen_noseq(s);
	return true;
}

// A position of a pile, of the cards it has plus the end.
inline uint32_t gen_insert(Src& s, size_t size)
{
	switch(s.draw(3))
	{
	case 0:
		return static_cast<uint32_t>(size);
	case 1:
		return 0;
	default:
		return static_cast<uint32_t>(s.draw(size + 1));
	}
}

// Somewhere a card can be added.
inline P gen_free(Src& s, Model const& m, bool zones_without_mats = false)
{
	for(int tries = 0; tries < 4; tries++)
	{
		switch(focus.zones.empty() ? s.weighted({4, 4, 3})
		                           : s.weighted({4, 2, 6}))
		{
		case 0:
		{
			P p = gen_pile(s);
			p.seq = gen_insert(s, m.pile(p).size());
			return p;
		}
		case 1:
		{
			P p = gen_zone(s);
			auto const& z = m.zone(p);
			if(z.card < 0 && (!zones_without_mats || z.mats.empty()))
				return p;
			break;
		}
		default:
		{
			P p = gen_zone(s);
			p.oseq = static_cast<int>(gen_insert(s, m.zone(p).mats.size()));
			return p;
		}
		}
	}
	P p = gen_pile(s);
	p.seq = gen_insert(s, m.pile(p).size());
	return p;
}

struct Move
{
	P from;
	P to;
};

// A move that the frame accepts.
inline bool gen_move(Src& s, Model const& m, Move& out)
{
	if(!gen_card(s, m, out.from))
		return false;
	// Destination indexes are relative to the field without the card.
	Model t = m;
	t.remove(out.from);
	bool const zone_card = !out.from.pile() && !out.from.mat();
	out.to = gen_free(s, t, zone_card);
	if(zone_card && !out.to.pile() && !out.to.mat() &&
	   out.to.same_spot(out.from))
	{
		// Moving a card to the zone it is in is not a move.
		out.to = gen_pile(s);
		out.to.seq = gen_insert(s, t.pile(out.to).size());
	}
	return true;
}

// A swap that the frame accepts: not of a card that has materials with one
// that isn't on the field.
inline bool gen_swap(Src& s, Model const& m, P& a, P& b)
{
	if(!gen_card(s, m, a) || !gen_card(s, m, b))
		return false;
	auto loaded = [&](P const& p)
	{ return !p.pile() && !p.mat() && !m.zone(p).mats.empty(); };
	return !(loaded(a) && b.pile()) && !(loaded(b) && a.pile());
}

inline void gen_splice(Src& s, Model const& m, P& from, size_t& count, P& to,
                       bool& reverse)
{
	from = gen_pile(s);
	size_t const n = m.pile(from).size();
	switch(s.draw(4))
	{
	case 0:
		from.seq = 0;
		count = n;
		break;
	case 1: // From the top.
		count = s.draw(n + 1);
		from.seq = static_cast<uint32_t>(n - count);
		break;
	default:
		from.seq = static_cast<uint32_t>(s.draw(n + 1));
		count = s.draw(n - from.seq + 1);
		break;
	}
	to = s.chance(1, 4) ? from : gen_pile(s);
	size_t dest = m.pile(to).size();
	if(to.con == from.con && to.loc == from.loc)
		dest -= count;
	to.seq = gen_insert(s, dest);
	to.oseq = gen_noseq(s);
	reverse = s.coin();
}

// `huge`: one in that many of the largest has over 65535 cards; 0 for none.
inline size_t gen_pile_count(Src& s, size_t current, uint32_t huge = 0)
{
	switch(s.draw(5))
	{
	case 0:
		return current;
	case 1:
		return s.draw(current + 1);
	case 2:
		return current + s.draw(8);
	case 3:
		return s.draw(20);
	default:
		if(!s.chance(1, 6))
			return s.draw(6);
		if(!s.chance(1, 20))
			return s.draw(70);
		return huge != 0 && s.chance(1, huge) ? 65300 + s.draw(1000) : s.draw(400);
	}
}

} // namespace ref

#endif // VERIF_FRAME_MODEL_HPP
