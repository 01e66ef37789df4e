// C19 undoable values, C20 bits, C21 places.
#include "frame_model.hpp"

#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <ygopen/bit.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/location.hpp>

namespace
{

using pbt::Case;
using pbt::Src;
using ref::P;
using ref::ProtoPlace;

// --------------------------------------------------------------------- C19

template<typename T, typename U>
struct Remembered
{
	U v;
	std::vector<T> hist = std::vector<T>(1);
	size_t at = 0;

	Remembered() = default;
	Remembered(Remembered const&) = default;
	Remembered(Remembered&&) = default;

	void check(char const* when) const
	{
		T const& now = v;
		CHECK(now == hist[at], when, ": the value isn't that of step ", at,
		      " of ", hist.size() - 1);
		CHECK(v == hist[at], when, ": comparison with the value at step ", at);
		if(at > 0 && !(hist[at - 1] == hist[at]))
			CHECK(!(v == hist[at - 1]), when, ": equals the value before");
	}
	void assign(Src& s, T const& x)
	{
		if(at + 1 == hist.size())
			hist.push_back(x);
		at++;
		if constexpr(std::is_same_v<T, std::vector<uint32_t>>)
		{
			if(s.coin())
				v.assign(x.begin(), x.end());
			else
				v = x;
		}
		else
		{
			T copy = x;
			if(s.coin())
				v = x;
			else
				v = std::move(copy);
		}
	}
	void undo()
	{
		v.undo();
		at--;
	}
};

template<typename T, typename U, typename Gen>
void undoable(Src& s, Case& c, Gen gen)
{
	using R = Remembered<T, U>;
	std::vector<std::unique_ptr<R>> all;
	all.push_back(std::make_unique<R>());
	size_t undone = 0;
	size_t longest = 0;
	bool const copies = s.chance(1, 3);
	all[0]->check("initially");
	uint32_t const n = 1 + s.steps(60);
	for(uint32_t i = 0; i < n; i++)
	{
		size_t const k = s.draw(all.size());
		R* r = all[k].get();
		char const* what = "assignment";
		switch(s.weighted({4, 3, 1, 1, copies ? 2U : 0U}))
		{
		case 0:
		{
			LOG(c, k, ": assign");
			r->assign(s, gen(s));
			c.count("assign");
			break;
		}
		case 1:
			if(r->at == 0)
				break;
			what = "undo";
			LOG(c, k, ": undo");
			r->undo();
			undone++;
			c.count("undo");
			break;
		case 2:
			what = "undo of several";
			for(size_t m = s.draw(r->at + 1); m != 0; m--)
			{
				LOG(c, k, ": undo");
				r->undo();
				undone++;
				r->check(what);
			}
			break;
		case 3:
			what = "redo";
			while(r->at + 1 < r->hist.size())
			{
				LOG(c, k, ": forward");
				r->v = gen(s);
				r->at++;
				r->check(what);
			}
			break;
		default:
			c.label("copies");
			switch(s.draw(4))
			{
			case 0:
			case 1:
				if(all.size() == 4)
					break;
				what = "copy";
				LOG(c, k, ": copied as ", all.size());
				all.push_back(std::make_unique<R>(std::as_const(*r)));
				r = all.back().get();
				break;
			case 2:
			{
				what = "copy over another";
				R const& from = *all[s.draw(all.size())];
				LOG(c, k, ": copied over");
				r->v = from.v;
				r->hist = std::vector<T>(from.hist);
				r->at = from.at;
				break;
			}
			default:
				if(s.coin())
				{
					what = "move";
					LOG(c, k, ": moved");
					all[k] = std::make_unique<R>(std::move(*r));
				}
				else if(all.size() > 1)
				{
					what = "end of another";
					LOG(c, k, ": destroyed");
					all.erase(all.begin() + static_cast<std::ptrdiff_t>(k));
				}
				else
					break;
				r = all[s.draw(all.size())].get();
				break;
			}
			for(auto const& o : all)
				o->check(what);
			break;
		}
		r->check(what);
		longest = std::max(longest, r->hist.size());
		c.mix(r->at * 1000 + r->hist.size() * 10 + k);
	}
	for(auto const& o : all)
		o->check("in the end");
	if(undone >= 2 && longest >= 3)
		c.nontrivial();
}

void c19(Src& s, Case& c)
{
	using YGOpen::Client::BasicUndoable;
	auto const number = [](Src& r)
	{ return r.coin() ? static_cast<uint32_t>(r.draw(3)) : r.u32(); };
	auto const list = [&](Src& r)
	{
		std::vector<uint32_t> v;
		for(size_t k = r.size(4); k != 0; k--)
			v.push_back(number(r));
		return v;
	};
	auto const str = [](Src& r)
	{ return std::string(r.draw(40), static_cast<char>('a' + r.draw(3))); };
	switch(s.draw(4))
	{
	case 0:
		c.label("number");
		undoable<uint32_t, BasicUndoable<uint32_t>>(s, c, number);
		break;
	case 1:
		c.label("list");
		undoable<std::vector<uint32_t>, BasicUndoable<std::vector<uint32_t>>>(
			s, c, list);
		break;
	case 2:
		c.label("string");
		undoable<std::string, BasicUndoable<std::string>>(s, c, str);
		break;
	default:
		c.label("signed");
		undoable<int64_t, BasicUndoable<int64_t, std::list<int64_t>>>(
			s, c,
			[](Src& r) { return static_cast<int64_t>(r.u64()); });
		break;
	}
}

// --------------------------------------------------------------------- C20

template<typename T>
void bits_of(T x, unsigned count, Case& c)
{
	constexpr unsigned W = std::numeric_limits<T>::digits;
	unsigned ones = 0;
	for(unsigned i = 0; i < W; i++)
		ones += static_cast<unsigned>((static_cast<uint64_t>(x) >> i) & 1U);
	unsigned const got = YGOpen::Bit::popcnt(x);
	CHECK_EQ(got, ones, "bits set in ", static_cast<uint64_t>(x));
	uint64_t left = 0;
	unsigned n = 0;
	for(unsigned i = W; i-- > 0 && n < count;)
		if(((static_cast<uint64_t>(x) >> i) & 1U) != 0)
		{
			left |= 1ULL << i;
			n++;
		}
	uint64_t right = 0;
	n = 0;
	for(unsigned i = 0; i < W && n < count; i++)
		if(((static_cast<uint64_t>(x) >> i) & 1U) != 0)
		{
			right |= 1ULL << i;
			n++;
		}
	CHECK_EQ(static_cast<uint64_t>(YGOpen::Bit::choosel(count, x)), left,
	         "leftmost ", count, " of ", static_cast<uint64_t>(x), ", ", W,
	         " bits");
	CHECK_EQ(static_cast<uint64_t>(YGOpen::Bit::chooser(count, x)), right,
	         "rightmost ", count, " of ", static_cast<uint64_t>(x), ", ", W,
	         " bits");
	if(count > 0 && count < ones)
		c.nontrivial();
	c.mix(static_cast<uint64_t>(x));
	c.mix(count * 256 + W);
}

void c20(Src& s, Case& c)
{
	uint64_t x = s.u64();
	// Sparse and dense ones, too.
	switch(s.draw(4))
	{
	case 0:
		x &= s.u64() & s.u64();
		break;
	case 1:
		x |= s.u64() | s.u64();
		break;
	default:
		break;
	}
	unsigned count = static_cast<unsigned>(s.draw(70));
	if(s.chance(1, 3))
		count = static_cast<unsigned>(s.draw(5));
	if(s.chance(1, 20))
		count = s.u32();
	LOG(c, "value ", x, " count ", count);
	switch(s.draw(5))
	{
	case 0:
		bits_of(static_cast<uint8_t>(x), count, c);
		break;
	case 1:
		bits_of(static_cast<uint16_t>(x), count, c);
		break;
	case 2:
		bits_of(static_cast<uint32_t>(x), count, c);
		break;
	case 3:
		bits_of(x, count, c);
		break;
	default:
		bits_of(static_cast<unsigned long long>(x), count, c);
		break;
	}
}

// --------------------------------------------------------------------- C21

int32_t gen_signed(Src& s)
{
	return s.chance(3, 4) ? static_cast<int32_t>(s.draw(4)) - 1 : s.i32();
}

uint32_t gen_unsigned(Src& s)
{
	return s.chance(3, 4) ? static_cast<uint32_t>(s.draw(3)) : s.u32();
}

P gen_place(Src& s)
{
	return {gen_signed(s), gen_unsigned(s), gen_unsigned(s), gen_signed(s)};
}

using Key = std::tuple<int, uint32_t, uint32_t, int>;

Key key(P const& p)
{
	return {p.con, p.loc, p.seq, p.oseq};
}

void c21(Src& s, Case& c)
{
	using YGOpen::Proto::Duel::PlaceLess;
	PlaceLess const less{};
	std::vector<P> v;
	size_t const n = 2 + s.size(14);
	for(size_t i = 0; i < n; i++)
	{
		P p = !v.empty() && s.chance(2, 3) ? s.pick(v) : gen_place(s);
		if(s.coin())
			switch(s.draw(4)) // Differs in one part.
			{
			case 0:
				p.con = gen_signed(s);
				break;
			case 1:
				p.loc = gen_unsigned(s);
				break;
			case 2:
				p.seq = gen_unsigned(s);
				break;
			default:
				p.oseq = gen_signed(s);
				break;
			}
		LOG(c, "place ", p);
		v.push_back(p);
		c.mix(static_cast<uint64_t>(p.con) * 31 + p.loc);
		c.mix(static_cast<uint64_t>(p.oseq) * 31 + p.seq);
	}
	std::map<ProtoPlace, size_t, PlaceLess> got;
	std::map<Key, size_t> want;
	size_t equal = 0;
	for(size_t i = 0; i < n; i++)
	{
		for(size_t k = 0; k < n; k++)
		{
			CHECK_EQ(less(v[i].proto(), v[k].proto()), key(v[i]) < key(v[k]),
			         v[i], " less than ", v[k]);
			CHECK_EQ(v[i].proto() == v[k].proto(), key(v[i]) == key(v[k]),
			         v[i], " equal to ", v[k]);
			equal += i != k && key(v[i]) == key(v[k]);
		}
		got[v[i].proto()] = i;
		want[key(v[i])] = i;
	}
	CHECK_EQ(got.size(), want.size(), "places in a map");
	auto it = want.begin();
	for(auto const& g : got)
	{
		CHECK(key(P::of(g.first)) == it->first, "order of the places in a map");
		CHECK_EQ(g.second, it->second);
		++it;
	}
	for(size_t i = 0; i < n; i++)
		CHECK_EQ(got.at(v[i].proto()), want.at(key(v[i])));
	if(equal != 0)
		c.nontrivial();
	// Locations.
	using YGOpen::Duel::Location;
	static constexpr uint32_t ALL[] = {0,          ref::DECK,  ref::HAND,
	                                   ref::MZONE, ref::SZONE, ref::GRAVE,
	                                   ref::BANISHED, ref::EXTRA, ref::FZONE,
	                                   ref::PZONE, ref::SKILL};
	P p = gen_place(s);
	p.loc = ALL[s.draw(11)];
	auto const loc = static_cast<Location>(p.loc);
	bool const pile = ref::pile_index(p.loc) >= 0;
	bool const zone = ref::zone_index(p.loc) >= 0;
	using namespace YGOpen::Proto::Duel;
	CHECK_EQ(YGOpen::Duel::is_pile(loc), pile, "location ", p.loc);
	CHECK_EQ(YGOpen::Duel::is_zone(loc), zone, "location ", p.loc);
	CHECK_EQ(YGOpen::Duel::is_empty(loc), p.loc == 0, "location ", p.loc);
	auto const pp = p.proto();
	CHECK_EQ(is_pile(pp), pile, p);
	CHECK_EQ(is_zone(pp), zone, p);
	CHECK_EQ(is_empty(pp), p.loc == 0, p);
	CHECK_EQ(static_cast<int>(get_con(pp)), p.con);
	CHECK_EQ(static_cast<uint32_t>(get_loc(pp)), p.loc);
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C19",
	     "1 to 61 assignments, steps back and steps forward on an undoable "
	     "number, string or list, compared with a list of values; in a third "
	     "of the cases also copies of it (constructed, assigned or moved), "
	     "which then have histories of their own, and outlive one another; "
	     "non-trivial: at least 2 steps back and 2 values; distinct by the "
	     "sequence of positions",
	     300000, 7500000, c19},
		{"C20",
	     "a value of 8 to 64 bits (random, sparse or dense) and a count, "
	     "compared with bit by bit counting and choosing; non-trivial: some "
	     "but not all of the bits set are chosen; distinct by value, count "
	     "and width",
	     4000000, 60000000, c20},
		{"C21",
	     "2 to 16 places, often equal or different in one part, compared "
	     "pairwise and as keys of a map with tuples, and a location; "
	     "non-trivial: some are equal; distinct by places",
	     200000, 5000000, c21},
	};
}
