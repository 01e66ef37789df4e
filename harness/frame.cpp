// C01 frame operations, C02 card lifetimes, C03 set card shuffle, C04 limbo
// frame history.
#include "frame_model.hpp"

#include <memory>
#include <optional>
#include <set>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>

namespace
{

using namespace ref;

struct PlainCard
{
	int tag = 0;
};

// A card that knows which ones are alive.
// See gen_pile_count.
thread_local uint32_t huge = 0;

struct Tracker
{
	std::set<void const*> live;
	uint64_t built = 0;
	std::string error;
};

struct TrackedCard
{
	Tracker* t;
	uint64_t serial;
	explicit TrackedCard(Tracker* tr) : t(tr), serial(++tr->built) { in(); }
	TrackedCard(TrackedCard&& o) noexcept : t(o.t), serial(o.serial) { in(); }
	TrackedCard(TrackedCard const&) = delete;
	TrackedCard& operator=(TrackedCard const&) = delete;
	TrackedCard& operator=(TrackedCard&&) = delete;
	~TrackedCard()
	{
		if(t->live.erase(this) != 1)
			t->error = "a card that is not alive got destroyed";
	}

private:
	void in()
	{
		if(!t->live.insert(this).second)
			t->error = "a card got created over a live one";
	}
};

struct TrackedBuilder
{
	Tracker* t;
	TrackedCard build() const noexcept { return TrackedCard{t}; }
};

// ---------------------------------------------------------------- C01, C02

enum Op
{
	ADD,
	REMOVE,
	MOVE,
	SWAP,
	RESIZE,
	SPLICE,
	PILE_SWAP,
	CLEAR,
	OPS
};

char const* const OP_NAMES[] = {"add",    "remove", "move",      "swap",
                                "resize", "splice", "pile_swap", "clear"};

// Applies a random operation to a frame and the model. `after` gets the ids
// of cards that were removed, `touched` the returned card, if any.
template<typename Frame>
void step(Src& s, Case& c, Frame& f, Model& m, Binding& b, int& fresh,
          std::vector<int>& gone, Op op)
{
	switch(op)
	{
	case ADD:
	{
		P const p = gen_free(s, m);
		LOG(c, "card_add ", p, " -> ", fresh);
		auto& card = f.card_add(p.proto());
		m.add(p, fresh);
		CHECK(b.same(fresh, &card), "card_add must return the new card");
		fresh++;
		break;
	}
	case REMOVE:
	{
		P p;
		if(!gen_card(s, m, p))
			return;
		LOG(c, "card_remove ", p);
		f.card_remove(p.proto());
		gone.push_back(m.remove(p));
		break;
	}
	case MOVE:
	{
		Move mv;
		if(!gen_move(s, m, mv))
			return;
		LOG(c, "card_move ", mv.from, " -> ", mv.to);
		auto& card = f.card_move(mv.from.proto(), mv.to.proto());
		int const id = m.move(mv.from, mv.to);
		CHECK(b.same(id, &card), "card_move must return the moved card");
		break;
	}
	case SWAP:
	{
		P x;
		P y;
		if(!gen_swap(s, m, x, y))
			return;
		LOG(c, "card_swap ", x, " <-> ", y);
		f.card_swap(x.proto(), y.proto());
		m.swap(x, y);
		break;
	}
	case RESIZE:
	{
		P const p = gen_pile(s);
		size_t const n = gen_pile_count(s, m.pile(p).size(), huge);
		LOG(c, "pile_resize ", p, " to ", n);
		f.pile_resize(p.proto(), n);
		m.resize(p, n, fresh, gone);
		break;
	}
	case SPLICE:
	{
		P from;
		P to;
		size_t n = 0;
		bool rev = false;
		gen_splice(s, m, from, n, to, rev);
		LOG(c, "pile_splice ", n, " from ", from, " to ", to,
		      rev ? " reversed" : "");
		f.pile_splice(from.proto(), n, to.proto(), rev);
		m.splice(from, n, to, rev);
		break;
	}
	case PILE_SWAP:
	{
		P const x = gen_pile(s);
		P const y = gen_pile(s);
		LOG(c, "pile_swap ", x, " <-> ", y);
		f.pile_swap(x.proto(), y.proto());
		m.pile_swap(x, y);
		break;
	}
	default:
		LOG(c, "clear");
		f.clear();
		m.clear(gone);
		break;
	}
	c.count(OP_NAMES[op]);
}

Op gen_op(Src& s, Model const& m)
{
	// Keep a populated field: few removals and rare clears.
	size_t const n = m.count();
	std::vector<unsigned> const w =
		n < 6    ? std::vector<unsigned>{12, 1, 3, 2, 4, 2, 1, 0}
		: n < 60 ? std::vector<unsigned>{6, 4, 12, 6, 3, 5, 2, 0}
				 : std::vector<unsigned>{2, 8, 10, 6, 4, 5, 2, 1};
	return static_cast<Op>(s.weighted(w));
}

uint64_t digest(Model const& m)
{
	if(m.count() > 10000)
		return m.count();
	std::string const s = show(m);
	return std::hash<std::string>{}(s);
}

template<typename Frame>
void check_getters(Src& s, Case& c, Frame& f, Model const& m, Binding& b)
{
	using namespace YGOpen::Duel;
	Frame const& cf = f;
	// Anything that can be asked.
	P p;
	if(s.coin())
	{
		p = gen_pile(s);
		p.seq = s.coin() ? static_cast<uint32_t>(s.draw(8)) : s.u32();
	}
	else
	{
		p = gen_zone(s);
		if(s.coin())
			p.oseq = s.coin() ? static_cast<int>(s.draw(5))
			                  : static_cast<int>(s.draw(0x80000000ULL));
	}
	LOG(c, "has_card ", p);
	CHECK_EQ(cf.has_card(p.proto()), m.has(p), "at ", p);
	if(!gen_card(s, m, p))
		return;
	LOG(c, "card ", p);
	CHECK(cf.has_card(p.proto()), "at ", p);
	CHECK(b.same(m.at(p), &cf.card(p.proto())), "card() const at ", p);
	CHECK(b.same(m.at(p), &f.card(p.proto())), "card() at ", p);
	auto const con = static_cast<Controller>(p.con);
	auto const loc = static_cast<Location>(p.loc);
	if(p.pile())
	{
		CHECK(&f.pile(p.proto()) == &f.pile(con, loc), "pile() at ", p);
		CHECK(&cf.pile(p.proto()) == &cf.pile(con, loc), "pile() at ", p);
		CHECK(&cf.pile(con, loc) == &f.pile(con, loc), "pile() at ", p);
	}
	else
	{
		CHECK(&f.zone(p.proto()) == &f.zone(con, loc, p.seq), "zone()");
		CHECK(&cf.zone(p.proto()) == &cf.zone(con, loc, p.seq), "zone()");
		CHECK(&cf.zone(con, loc, p.seq) == &f.zone(con, loc, p.seq), "zone()");
	}
}

template<typename Frame>
void frame_ops(Src& s, Case& c, bool reuse_addresses)
{
	auto f = std::make_unique<Frame>();
	gen_focus(s);
	Model m;
	Binding b;
	int fresh = 0;
	same_state(m, *f, b, "initially");
	uint32_t const n = 2 + s.steps(60);
	// (BasicFrame takes quadratic time to drop cards.)
	huge = n < 100 && !reuse_addresses ? 3 : 0;
	size_t work = 0;
	size_t effective = 0;
	// (Cases with huge piles would take too long.)
	for(uint32_t i = 0; i < n && work < 700000; i++)
	{
		std::vector<int> gone;
		Op const op = gen_op(s, m);
		Model const before = m;
		step(s, c, *f, m, b, fresh, gone, op);
		if(reuse_addresses)
			for(int id : gone)
				b.unbind(id);
		same_state(m, *f, b, OP_NAMES[op]);
		check_getters(s, c, *f, m, b);
		work += m.count() > 10000 ? m.count() : 0;
		if(!(before == m))
		{
			effective++;
			c.mix(digest(m));
		}
	}
	if(effective >= 3)
		c.nontrivial();
	bool mats = false;
	for(auto const& p : m.cards())
		mats |= p.mat();
	if(work != 0)
		c.label("piles of over 10000 cards");
	if(mats)
		c.label("ends with materials");
	if(m.count() > 30)
		c.label("over 30 cards");
}

void c01(Src& s, Case& c)
{
	using YGOpen::Client::BasicFrame;
	using YGOpen::Client::LimboFrame;
	if(s.chance(1, 3))
	{
		c.label("limbo frame");
		frame_ops<LimboFrame<PlainCard>>(s, c, false);
	}
	else
	{
		c.label("basic frame");
		frame_ops<BasicFrame<PlainCard>>(s, c, true);
	}
}

// ---------------------------------------------------------------- C02, C04

struct Entry
{
	Op op{};
	P a;
	P b;
	size_t count = 0;
	bool reverse = false;
	Model before;
	Model after;
};

// A history of operations, undone, redone and rewritten. `alive` is called
// after each step with the cards that the history may have to bring back.
template<typename Frame, typename Alive>
void history(Src& s, Case& c, Frame* f, Alive alive)
{
	gen_focus(s);
	Model m;
	Binding b;
	std::set<int> kept; // Cards in some state of the history.
	auto keep = [&](Model const& state)
	{
		for(auto const& p : state.cards())
			kept.insert(state.at(p));
	};
	int fresh = 0;
	std::vector<Entry> hist;
	size_t at = 0; // Entries before this one are applied.
	size_t undone = 0;
	size_t redone = 0;
	size_t erased = 0;
	auto do_undo = [&]
	{
		Entry const& e = hist[--at];
		LOG(c, "undo ", OP_NAMES[e.op], " ", e.a, " ", e.b, " ", e.count);
		switch(e.op)
		{
		case ADD:
		{
			auto& card = f->undo_card_add(e.a.proto());
			CHECK(b.same(e.after.at(e.a), &card), "undo_card_add's result");
			break;
		}
		case REMOVE:
		{
			auto& card = f->undo_card_remove(e.a.proto());
			CHECK(b.same(e.before.at(e.a), &card),
			      "undo_card_remove's result");
			break;
		}
		case MOVE:
			f->card_move(e.b.proto(), e.a.proto());
			break;
		case SWAP:
			f->card_swap(e.a.proto(), e.b.proto());
			break;
		case RESIZE:
			f->undo_pile_resize(e.a.proto(), e.count);
			break;
		case SPLICE:
			f->pile_splice(e.b.proto(), e.count, e.a.proto(), e.reverse);
			break;
		case PILE_SWAP:
			f->pile_swap(e.a.proto(), e.b.proto());
			break;
		default:
			f->undo_clear();
			break;
		}
		m = e.before;
		undone++;
		c.count("undo");
	};
	auto do_redo = [&]
	{
		Entry const& e = hist[at++];
		LOG(c, "redo ", OP_NAMES[e.op], " ", e.a, " ", e.b, " ", e.count);
		switch(e.op)
		{
		case ADD:
		{
			auto& card = f->card_add(e.a.proto());
			CHECK(b.same(e.after.at(e.a), &card), "card_add's result (redo)");
			break;
		}
		case REMOVE:
			f->card_remove(e.a.proto());
			break;
		case MOVE:
			f->card_move(e.a.proto(), e.b.proto());
			break;
		case SWAP:
			f->card_swap(e.a.proto(), e.b.proto());
			break;
		case RESIZE:
			f->pile_resize(e.a.proto(), e.count);
			break;
		case SPLICE:
			f->pile_splice(e.a.proto(), e.count, e.b.proto(), e.reverse);
			break;
		case PILE_SWAP:
			f->pile_swap(e.a.proto(), e.b.proto());
			break;
		default:
			f->clear();
			break;
		}
		m = e.after;
		redone++;
		c.count("redo");
	};
	auto do_new = [&]
	{
		if(at != hist.size())
		{
			LOG(c, "erase_history");
			f->erase_history();
			hist.resize(at);
			erased++;
			// What is forgotten may be destroyed.
			kept.clear();
			keep(m);
			for(auto const& e : hist)
			{
				keep(e.before);
				keep(e.after);
			}
			for(int id : b.ids())
				if(kept.count(id) == 0)
					b.unbind(id);
		}
		Entry e;
		e.op = gen_op(s, m);
		if(s.chance(1, 20))
			e.op = CLEAR;
		e.before = m;
		std::vector<int> gone;
		switch(e.op)
		{
		case ADD:
			e.a = gen_free(s, m);
			LOG(c, "card_add ", e.a, " -> ", fresh);
			CHECK(b.same(fresh, &f->card_add(e.a.proto())),
			      "card_add must return the new card");
			m.add(e.a, fresh++);
			break;
		case REMOVE:
			if(!gen_card(s, m, e.a))
				return;
			LOG(c, "card_remove ", e.a);
			f->card_remove(e.a.proto());
			m.remove(e.a);
			break;
		case MOVE:
		{
			Move mv;
			if(!gen_move(s, m, mv))
				return;
			e.a = mv.from;
			e.b = mv.to;
			LOG(c, "card_move ", e.a, " -> ", e.b);
			f->card_move(e.a.proto(), e.b.proto());
			m.move(e.a, e.b);
			break;
		}
		case SWAP:
			if(!gen_swap(s, m, e.a, e.b))
				return;
			LOG(c, "card_swap ", e.a, " <-> ", e.b);
			f->card_swap(e.a.proto(), e.b.proto());
			m.swap(e.a, e.b);
			break;
		case RESIZE:
			e.a = gen_pile(s);
			e.count = gen_pile_count(s, m.pile(e.a).size(), huge);
			LOG(c, "pile_resize ", e.a, " to ", e.count);
			f->pile_resize(e.a.proto(), e.count);
			m.resize(e.a, e.count, fresh, gone);
			break;
		case SPLICE:
			gen_splice(s, m, e.a, e.count, e.b, e.reverse);
			LOG(c, "pile_splice ", e.count, " from ", e.a, " to ", e.b,
			      e.reverse ? " reversed" : "");
			f->pile_splice(e.a.proto(), e.count, e.b.proto(), e.reverse);
			m.splice(e.a, e.count, e.b, e.reverse);
			break;
		case PILE_SWAP:
			e.a = gen_pile(s);
			e.b = gen_pile(s);
			LOG(c, "pile_swap ", e.a, " <-> ", e.b);
			f->pile_swap(e.a.proto(), e.b.proto());
			m.pile_swap(e.a, e.b);
			break;
		default:
			LOG(c, "clear");
			f->clear();
			m.clear(gone);
			break;
		}
		e.after = m;
		keep(m);
		c.count(OP_NAMES[e.op]);
		hist.push_back(e);
		at++;
	};
	uint32_t const n = 3 + s.steps(40);
	huge = n < 100 ? 300 : 0;
	for(uint32_t i = 0; i < n; i++)
	{
		switch(s.weighted({6, 2, 2, 1, 1}))
		{
		case 0:
			do_new();
			break;
		case 1:
			if(at > 0)
				do_undo();
			break;
		case 2:
			if(at < hist.size())
				do_redo();
			break;
		case 3: // Far back...
			for(size_t k = s.draw(at + 1); k != 0; k--)
			{
				do_undo();
				same_state(m, *f, b, "undo");
				alive(kept, b);
			}
			break;
		default: // ...and forth.
			for(size_t k = s.draw(hist.size() - at + 1); k != 0; k--)
			{
				do_redo();
				same_state(m, *f, b, "redo");
				alive(kept, b);
			}
			break;
		}
		if(s.chance(1, 30) && at == hist.size())
		{
			LOG(c, "erase_history (live)");
			f->erase_history();
		}
		same_state(m, *f, b, "history step");
		alive(kept, b);
		c.mix(digest(m));
	}
	// All the way back and forth again.
	while(at > 0)
	{
		do_undo();
		same_state(m, *f, b, "final undo");
		alive(kept, b);
	}
	CHECK(m.count() == 0);
	while(at < hist.size())
	{
		do_redo();
		same_state(m, *f, b, "final redo");
		alive(kept, b);
	}
	if(undone >= 3 && redone >= 3 && hist.size() >= 3)
		c.nontrivial();
	if(erased != 0)
		c.label("rewrote history");
}

void c02(Src& s, Case& c)
{
	using Basic = YGOpen::Client::BasicFrame<TrackedCard, TrackedBuilder>;
	using Limbo = YGOpen::Client::LimboFrame<TrackedCard, TrackedBuilder>;
	Tracker t;
	auto go = [&](auto& f, bool limbo)
	{
		CHECK(f->builder().t == &t, "the frame keeps the builder it was given");
		gen_focus(s);
		Model m;
		Binding b;
		int fresh = 0;
		std::map<int, uint64_t> serials;
		uint32_t const n = 2 + s.steps(40);
		huge = n < 100 && limbo ? 300 : 0;
		size_t destroyed = 0;
		std::vector<int> limbo_ids;
		for(uint32_t i = 0; i < n; i++)
		{
			std::vector<int> gone;
			Op op = gen_op(s, m);
			if(s.chance(1, 16))
				op = CLEAR;
			step(s, c, *f, m, b, fresh, gone, op);
			if(!limbo)
				for(int id : gone)
				{
					b.unbind(id);
					serials.erase(id);
				}
			destroyed += gone.size();
			CHECK(t.error.empty(), t.error);
			// Exactly the cards on the field are alive (plus, with a history,
			// those it may have to bring back).
			same_state(m, *f, b, OP_NAMES[op]);
			size_t const want =
				m.count() + (limbo ? destroyed : 0U);
			if(limbo)
				CHECK(t.live.size() >= want, "cards of the history are dead: ",
				      t.live.size(), " alive, want ", want);
			else
				CHECK_EQ(t.live.size(), want, "cards alive");
			for(auto const& p : m.cards())
			{
				auto const& card = f->card(p.proto());
				CHECK(t.live.count(&card) == 1, "card at ", p, " is dead");
				CHECK(card.t == &t, "card at ", p, " is from another builder");
				auto const it = serials.emplace(m.at(p), card.serial);
				CHECK_EQ(it.first->second, card.serial,
				         "the card was replaced by another one at ", p);
			}
		}
		if(destroyed > 0 && m.count() > 0)
			c.nontrivial();
		c.mix(digest(m));
		c.mix(t.built);
		c.count("cards built", t.built);
		c.count("cards removed", destroyed);
	};
	switch(s.draw(4))
	{
	case 3:
	{
		c.label("limbo frame");
		auto f = std::make_unique<Limbo>(TrackedBuilder{&t});
		go(f, true);
		f.reset();
		break;
	}
	case 2:
	{
		c.label("limbo frame with a history");
		auto f = std::make_unique<Limbo>(TrackedBuilder{&t});
		history(s, c, f.get(),
		        [&](std::set<int> const& kept, Binding const& b)
		        {
					CHECK(t.error.empty(), t.error);
					for(int id : kept)
					{
						auto const* o = b.object(id);
						CHECK(o != nullptr && t.live.count(o) == 1, "card ",
				              id, " is dead but may have to be brought back");
					}
				});
		f.reset();
		break;
	}
	default:
		c.label("basic frame");
		auto f = std::make_unique<Basic>(TrackedBuilder{&t});
		go(f, false);
		f.reset();
		break;
	}
	CHECK(t.error.empty(), t.error);
	CHECK_EQ(t.live.size(), 0U, "cards outlive their frame");
}

// --------------------------------------------------------------------- C03

template<typename Frame>
void shuffle(Src& s, Case& c)
{
	auto f = std::make_unique<Frame>();
	Model m;
	Binding b;
	int fresh = 0;
	auto add = [&](P const& p)
	{
		f->card_add(p.proto());
		m.add(p, fresh++);
	};
	// A populated field.
	for(int con = 0; con < 2; con++)
		for(int i = 0; i < 5; i++)
			for(uint32_t q = 0; q < ZONE_LIMIT[i]; q++)
			{
				if(s.chance(1, 4))
					continue;
				add({con, ZONES[i], q, -1});
				uint32_t const mats = s.chance(1, 3) ? s.size(3) : 0;
				for(uint32_t o = 0; o < mats; o++)
					add({con, ZONES[i], q, static_cast<int>(o)});
			}
	same_state(m, *f, b, "initially");
	uint32_t const rounds = 1 + s.size(3);
	for(uint32_t r = 0; r < rounds; r++)
	{
		int const con = static_cast<int>(s.draw(2));
		int const li = s.chance(1, 8) ? 3 : static_cast<int>(s.draw(2));
		std::vector<uint32_t> seqs;
		for(uint32_t q = 0; q < ZONE_LIMIT[li]; q++)
			if(m.zones[con][li][q].card >= 0 && !s.chance(1, 5))
				seqs.push_back(q);
		if(seqs.empty())
			continue;
		auto permute = [&](std::vector<uint32_t> v)
		{
			for(size_t i = v.size(); i > 1; i--)
				std::swap(v[i - 1], v[s.draw(i)]);
			return v;
		};
		auto const prev = permute(seqs);
		auto const curr = permute(seqs);
		std::vector<ProtoPlace> pp;
		std::vector<ProtoPlace> cp;
		std::vector<bool> known;
		std::ostringstream os;
		// As sent by the core: only cards with materials tell where they
		// went. Then, any subset.
		bool const as_core = s.coin();
		for(size_t i = 0; i < prev.size(); i++)
		{
			P const a{con, ZONES[li], prev[i], -1};
			P const z{con, ZONES[li], curr[i], -1};
			bool const tell =
				as_core ? !m.zone(a).mats.empty() : s.chance(1, 2);
			pp.push_back(a.proto());
			cp.push_back(tell ? z.proto() : P{0, 0, 0, -1}.proto());
			known.push_back(tell);
			os << ' ' << prev[i] << "->";
			if(tell)
				os << curr[i];
			else
				os << '?';
		}
		LOG(c, "card_shuffle ", P{con, ZONES[li], 0, -1}, os.str());
		f->card_shuffle(pp.begin(), cp.begin(), pp.size());
		// Cards whose place is told must be there with their materials.
		auto const old = m.zones[con][li];
		auto got = [&](uint32_t q) -> Zone
		{
			// What the frame shows there, by the identity of the card.
			auto const& z = f->zone(P{con, ZONES[li], q, -1}.proto());
			for(uint32_t o : prev)
				if(b.same(old[o].card, z.card))
					return old[o];
			pbt::failf("zone ", q, " has ", b.name(z.card),
			           " which was not part of the shuffle");
		};
		size_t told = 0;
		for(size_t i = 0; i < prev.size(); i++)
			if(known[i])
			{
				told++;
				Zone const z = got(curr[i]);
				CHECK_EQ(z.card, old[prev[i]].card, "in zone ", curr[i]);
			}
		// The rest get permuted among the remaining zones; nothing else
		// changes and materials stay with their card.
		for(uint32_t q : prev)
			m.zones[con][li][q] = got(q);
		same_state(m, *f, b, "card_shuffle");
		if(prev.size() >= 2 && told >= 1)
			c.nontrivial();
		if(told >= 2 && told < prev.size())
			c.label("partly told");
		if(told == prev.size())
			c.label("fully told");
		if(as_core)
			c.label("as sent by the core");
		c.mix(os.str());
		c.mix(static_cast<uint64_t>(con * 8 + li));
	}
}

void c03(Src& s, Case& c)
{
	if(s.chance(1, 4))
		shuffle<YGOpen::Client::LimboFrame<PlainCard>>(s, c);
	else
		shuffle<YGOpen::Client::BasicFrame<PlainCard>>(s, c);
}

// --------------------------------------------------------------------- C04

void c04(Src& s, Case& c)
{
	auto f = std::make_unique<YGOpen::Client::LimboFrame<PlainCard>>();
	history(s, c, f.get(), [](std::set<int> const&, Binding const&) {});
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C01",
	     "a random sequence of 2 to 62 frame operations over both players, "
	     "all piles, zones and material stacks, on a basic or limbo frame, "
	     "compared card by card with a reference model after each one; "
	     "non-trivial: at least 3 operations changed the field; distinct by "
	     "the sequence of fields",
	     25600, 800000, c01},
		{"C02",
	     "a random sequence of frame operations with cards that register "
	     "their own construction and destruction; non-trivial: cards were "
	     "destroyed and some are left; distinct by final field and cards "
	     "built",
	     40000, 1200000, c02},
		{"C03",
	     "a populated field and 1 to 4 shuffles of a player's zones of one "
	     "kind, with some or all destinations told; non-trivial: at least 2 "
	     "zones and a told destination; distinct by shuffles",
	     160000, 5000000, c03},
		{"C04",
	     "a random history of operations, undos, redos and rewritten "
	     "histories, then everything undone and redone, with the field "
	     "compared after each step; non-trivial: at least 3 undos, 3 redos "
	     "and 3 operations; distinct by the sequence of fields",
	     37500, 1200000, c04},
	};
}
