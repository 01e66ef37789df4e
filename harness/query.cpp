// C07 card updates.
#include "threads.hpp"
#include "event_gen.hpp"

#include <memory>
#include <optional>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undoable.hpp>

namespace
{

using namespace ref;
using Data = ProtoMsg::Query::Data;
using YGOpen::Client::BasicUndoable;
using YGOpen::Client::DefaultCardTraits;

// name, bit reported when skipped
#define SCALARS(X)                \
	X(code, 0x1)                  \
	X(position, 0x2)              \
	X(alias, 0x4)                 \
	X(type, 0x8)                  \
	X(level, 0x10)                \
	X(xyz_rank, 0x20)             \
	X(attribute, 0x40)            \
	X(race, 0x80)                 \
	X(atk, 0x100)                 \
	X(def, 0x200)                 \
	X(base_atk, 0x400)            \
	X(base_def, 0x800)            \
	X(owner, 0x40000)             \
	X(status, 0x80000)            \
	X(is_public, 0x100000)        \
	X(pend_l_scale, 0x200000)     \
	X(pend_r_scale, 0x400000)     \
	X(is_hidden, 0x1000000)       \
	X(cover, 0x2000000)           \
	X(link_rate, 0x100000000ULL)  \
	X(link_arrow, 0x200000000ULL)

enum Field
{
#define X(name, bit) F_##name,
	SCALARS(X)
#undef X
	SCALAR_COUNT,
};

char const* const NAMES[] = {
#define X(name, bit) #name,
	SCALARS(X)
#undef X
};

constexpr uint64_t BITS[] = {
#define X(name, bit) bit,
	SCALARS(X)
#undef X
};

constexpr uint64_t EQUIP_BIT = 0x4000;
constexpr uint64_t TARGETS_BIT = 0x8000;
constexpr uint64_t COUNTERS_BIT = 0x20000;

using Counter = YGOpen::Proto::Duel::Counter;

struct Values
{
	// Two's complement for signed ones.
	std::array<uint64_t, SCALAR_COUNT> scalar{};
	ProtoPlace equip;
	std::vector<ProtoPlace> targets;
	std::vector<Counter> counters;
};

struct UndoTraits
{
#define X(NAME, Name, name, value) \
	using Name##Type = BasicUndoable<DefaultCardTraits::Name##Type>;
#define EXPAND_ARRAY_LIKE_QUERIES
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef EXPAND_ARRAY_LIKE_QUERIES
#undef X
};

template<typename T>
T const& value(T const& v)
{
	return v;
}

template<typename T>
T const& value(BasicUndoable<T> const& v)
{
	return v;
}

template<typename M>
bool same_all(std::vector<M> const& a, std::vector<M> const& b)
{
	if(a.size() != b.size())
		return false;
	for(size_t i = 0; i < a.size(); i++)
		if(!same_msg(a[i], b[i]))
			return false;
	return true;
}

template<typename Card>
void same_card(Values const& want, Card const& got, int id, char const* when)
{
#define X(name, bit)                                                         \
	{                                                                        \
		auto const& v = value(got.name());                                   \
		using T = std::remove_const_t<std::remove_reference_t<decltype(v)>>; \
		if(!(v == static_cast<T>(want.scalar[F_##name])))                    \
			pbt::failf(when, ": " #name " of card ", id, " should be ",      \
			           want.scalar[F_##name], ", is ",                       \
			           static_cast<uint64_t>(v));                            \
	}
	SCALARS(X)
#undef X
	if(!same_msg(want.equip, value(got.equipped_to())))
		pbt::failf(when, ": equipped_to of card ", id, " should be ",
		           want.equip.ShortDebugString(), ", is ",
		           value(got.equipped_to()).ShortDebugString());
	if(!same_all(want.targets, value(got.targets())))
		pbt::failf(when, ": targets of card ", id, " are wrong");
	if(!same_all(want.counters, value(got.counters())))
		pbt::failf(when, ": counters of card ", id, " are wrong");
}

// What a field of this kind can be.
uint64_t gen_scalar(Src& s, int f)
{
	switch(f)
	{
	case F_is_public:
	case F_is_hidden:
		return s.draw(2);
	case F_race:
		return s.u64();
	case F_level:
	case F_atk:
	case F_def:
	case F_base_atk:
	case F_base_def:
		return static_cast<uint64_t>(static_cast<int64_t>(s.i32()));
	case F_owner:
		return s.draw(2);
	default:
		return s.u32();
	}
}

struct Update
{
	ProtoMsg::Query query;
	std::array<bool, SCALAR_COUNT> has{};
	bool has_equip = false;
	bool has_targets = false;
	bool has_counters = false;
	Values v;
	size_t fields = 0;
};

ProtoPlace gen_place(Src& s)
{
	// Often the same ones.
	if(s.coin())
	{
		ProtoPlace p;
		p.set_con(static_cast<int32_t>(s.draw(2)));
		p.set_loc(s.coin() ? MZONE : SZONE);
		p.set_seq(static_cast<uint32_t>(s.draw(2)));
		p.set_oseq(static_cast<int32_t>(s.draw(2)) - 1);
		return p;
	}
	return gen_any_place(s);
}

// `cur` is what the card has: values often repeat it.
Update gen_update(Src& s, Values const& cur)
{
	Update u;
	auto& d = *u.query.mutable_data();
	// None, few, many or all fields.
	unsigned const density = static_cast<unsigned>(s.draw(5));
	auto present = [&]() -> bool
	{
		switch(density)
		{
		case 0:
			return s.chance(1, 24);
		case 1:
			return s.chance(1, 8);
		case 4:
			return true;
		default:
			return s.coin();
		}
	};
	auto scalar = [&](int f) -> uint64_t
	{
		u.has[f] = true;
		u.fields++;
		uint64_t v = 0;
		switch(s.draw(4))
		{
		case 0:
			v = cur.scalar[f];
			break;
		case 1: // Off by a bit.
			v = cur.scalar[f] ^ (1ULL << s.draw(f == F_race ? 64 : 32));
			if(f == F_is_public || f == F_is_hidden || f == F_owner)
				v &= 1U;
			else if(f == F_level || f == F_atk || f == F_def ||
			        f == F_base_atk || f == F_base_def)
				v = static_cast<uint64_t>(
					static_cast<int64_t>(static_cast<int32_t>(v)));
			break;
		case 2:
			v = 0;
			break;
		default:
			v = gen_scalar(s, f);
			break;
		}
		u.v.scalar[f] = v;
		return v;
	};
#define X(name, bit)                                                         \
	if(present())                                                            \
	{                                                                        \
		auto& m = *d.mutable_##name();                                       \
		using T = std::remove_const_t<decltype(m.value())>;                  \
		m.set_value(static_cast<T>(scalar(F_##name)));                       \
	}
	SCALARS(X)
#undef X
	if(present())
	{
		u.has_equip = true;
		u.fields++;
		u.v.equip = s.coin() ? cur.equip : gen_place(s);
		*d.mutable_equipped_to()->mutable_value() = u.v.equip;
	}
	if(present())
	{
		u.has_targets = true;
		u.fields++;
		d.mutable_targets();
		if(s.chance(1, 3))
			u.v.targets = cur.targets;
		else
			for(size_t k = s.size(6); k != 0; k--)
				u.v.targets.push_back(gen_place(s));
		for(auto const& p : u.v.targets)
			*d.mutable_targets()->add_values() = p;
	}
	if(present())
	{
		u.has_counters = true;
		u.fields++;
		d.mutable_counters();
		if(s.chance(1, 3))
			u.v.counters = cur.counters;
		else
			for(size_t k = s.size(6); k != 0; k--)
			{
				Counter ct;
				ct.set_type(s.coin() ? static_cast<uint32_t>(s.draw(3))
				                     : s.u32());
				ct.set_count(s.u32());
				u.v.counters.push_back(ct);
			}
		for(auto const& ct : u.v.counters)
			*d.mutable_counters()->add_values() = ct;
	}
	return u;
}

template<typename Card>
struct World
{
	using Frame = YGOpen::Client::BasicFrame<Card>;
	Frame frame;
	std::vector<P> places;
	std::vector<Values> want;
	// Per card and field (scalars, equip, targets, counters).
	std::vector<std::vector<std::vector<Values>>> hist;

	explicit World(Src& s)
	{
		P const all[] = {
			{0, DECK, 0, -1},  {0, DECK, 1, -1},  {1, HAND, 0, -1},
			{0, MZONE, 2, -1}, {0, MZONE, 2, 0},  {0, MZONE, 2, 1},
			{1, SZONE, 4, -1}, {1, PZONE, 1, -1}, {0, FZONE, 0, -1},
			{1, MZONE, 6, -1}, {1, MZONE, 6, 0},
		};
		size_t const n = 1 + s.draw(std::size(all));
		for(size_t i = 0; i < n; i++)
		{
			P p = all[i];
			frame.card_add(p.proto());
			places.push_back(p);
			want.emplace_back();
			hist.emplace_back(SCALAR_COUNT + 3);
		}
	}

	void check(char const* when) const
	{
		for(size_t i = 0; i < places.size(); i++)
			same_card(want[i], frame.card(places[i].proto()),
			          static_cast<int>(i), when);
	}

	// Returns the fields that had the value already.
	uint64_t apply(size_t i, Update const& u, bool skip)
	{
		Values& w = want[i];
		Values const before = w;
		uint64_t known = 0;
		for(int f = 0; f < SCALAR_COUNT; f++)
			if(u.has[f])
			{
				bool const same = w.scalar[f] == u.v.scalar[f];
				if(same)
					known |= BITS[f];
				if(!same || !skip)
					hist[i][f].push_back(before);
				w.scalar[f] = u.v.scalar[f];
			}
		if(u.has_equip)
		{
			bool const same = same_msg(w.equip, u.v.equip);
			if(same)
				known |= EQUIP_BIT;
			if(!same || !skip)
				hist[i][SCALAR_COUNT].push_back(before);
			w.equip = u.v.equip;
		}
		if(u.has_targets)
		{
			if(same_all(w.targets, u.v.targets))
				known |= TARGETS_BIT;
			hist[i][SCALAR_COUNT + 1].push_back(before);
			w.targets = u.v.targets;
		}
		if(u.has_counters)
		{
			if(same_all(w.counters, u.v.counters))
				known |= COUNTERS_BIT;
			hist[i][SCALAR_COUNT + 2].push_back(before);
			w.counters = u.v.counters;
		}
		return known;
	}
};

ProtoMsg::Query wire(Src& s, ProtoMsg::Query const& q)
{
	ProtoMsg::Query r;
	if(s.coin())
		r = q;
	else
		CHECK(r.ParseFromString(q.SerializeAsString()));
	return r;
}

// `twin` never skips what it knows.
template<typename Card>
void updates(Src& s, Case& c, bool shared = false)
{
	std::vector<ProtoMsg::Query> told;
	World<Card> w(s);
	w.check("initially");
	size_t hits = 0;
	size_t fields = 0;
	uint32_t const n = 1 + s.steps(12);
	for(uint32_t k = 0; k < n; k++)
	{
		size_t const i = s.draw(w.places.size());
		Update u = gen_update(s, w.want[i]);
		*u.query.mutable_place() = w.places[i].proto();
		bool const skip = s.coin();
		LOG(c, skip ? "update if changed: " : "update: ",
		      u.query.ShortDebugString());
		auto const q = wire(s, u.query);
		if(shared)
			told.push_back(q);
		uint64_t const known = w.apply(i, u, skip);
		fields += u.fields;
		if(skip)
		{
			auto const reported =
				YGOpen::Client::parse_query<true>(w.frame, q);
			auto const got = static_cast<uint64_t>(reported);
			CHECK_EQ(!reported, got == 0, "nothing is reported as known");
			{
				using H = YGOpen::Client::QueryCacheHit;
				uint64_t const mask = s.u64();
				auto const m = static_cast<H>(mask);
				CHECK_EQ(static_cast<uint64_t>(reported & m), got & mask,
				         "asking for some known fields");
				CHECK_EQ(static_cast<uint64_t>(reported & ~m), got & ~mask,
				         "asking for other known fields");
			}
			uint64_t const lists = TARGETS_BIT | COUNTERS_BIT;
			CHECK_EQ(got & ~lists, known & ~lists, "fields reported as known");
			CHECK_EQ(got & lists & ~known, 0U,
			         "lists reported as known that weren't");
			hits += got != 0;
			c.count("fields known", __builtin_popcountll(got));
		}
		else
			CHECK_EQ(static_cast<uint64_t>(
						 YGOpen::Client::parse_query<false>(w.frame, q)),
			         0U, "nothing is skipped");
		w.check("update");
		c.count("fields carried", u.fields);
		c.mix(q.SerializeAsString());
	}
	if(shared)
	{
		// Threads read the same cards, and apply the same updates to theirs.
		pbt::in_threads(
			2 + s.below(2),
			[&](size_t)
			{
				typename World<Card>::Frame own;
				for(auto const& p : w.places)
					own.card_add(p.proto());
				for(auto const& q : told)
					static_cast<void>(YGOpen::Client::parse_query(own, q));
				for(size_t i = 0; i < w.places.size(); i++)
					same_card(w.want[i],
				              std::as_const(own).card(w.places[i].proto()),
				              static_cast<int>(i), "own card");
				w.check("card of all");
			});
		return;
	}
	if constexpr(!std::is_same_v<Card,
	                             YGOpen::Client::BasicCard<DefaultCardTraits>>)
	{
		// Each field goes back through the values that it had.
		for(size_t i = 0; i < w.places.size(); i++)
		{
			auto& card = w.frame.card(w.places[i].proto());
			Values& v = w.want[i];
			size_t skip_lists = 0;
			(void)skip_lists;
#define X(name, bit)                                         \
	while(!w.hist[i][F_##name].empty())                      \
	{                                                        \
		v.scalar[F_##name] =                                 \
			w.hist[i][F_##name].back().scalar[F_##name];     \
		w.hist[i][F_##name].pop_back();                      \
		card.name().undo();                                  \
		same_card(v, card, static_cast<int>(i), "undo " #name); \
	}
			SCALARS(X)
#undef X
			auto& he = w.hist[i][SCALAR_COUNT];
			while(!he.empty())
			{
				v.equip = he.back().equip;
				he.pop_back();
				card.equipped_to().undo();
				same_card(v, card, static_cast<int>(i), "undo equipped_to");
			}
		}
		c.label("undone");
	}
	if(fields >= 3)
		c.nontrivial();
	if(hits != 0)
		c.label("with known fields");
}

void c07(Src& s, Case& c)
{
	using YGOpen::Client::BasicCard;
	if(s.coin())
		updates<BasicCard<DefaultCardTraits>>(s, c);
	else
		updates<BasicCard<UndoTraits>>(s, c);
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C07",
	     "1 to 13 updates of random cards (in piles, zones and materials) "
	     "with none to all fields, whose values often repeat those of the "
	     "card, on plain or undoable cards, with or without skipping what is "
	     "known; all cards compared after each one and undoable fields "
	     "undone at the end; non-trivial: at least 3 fields carried; distinct "
	     "by updates",
	     56000, 1350000, c07},
		{"shared cards", "", 0, 0,
	     [](Src& s, Case& c)
	     {
			 using YGOpen::Client::BasicCard;
			 updates<BasicCard<DefaultCardTraits>>(s, c, true);
		 }},
		{"shared cards, undoable", "", 0, 0,
	     [](Src& s, Case& c)
	     {
			 using YGOpen::Client::BasicCard;
			 updates<BasicCard<UndoTraits>>(s, c, true);
		 }},
	};
}
