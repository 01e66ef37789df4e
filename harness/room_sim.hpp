// Rooms driven step by step against a model of the rules.
#pragma once
#include "engine.hpp"

#include <algorithm>
#include <cassert>
#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <string_view>
#include <variant>
#include <ygopen/server/room.hpp>

namespace room_sim
{

using pbt::Case;
using pbt::Src;
namespace PR = YGOpen::Proto::Room;
using Ev = YGOpen::Server::RoomEvent;
using Sig = YGOpen::Server::RoomSignal;

struct User
{
	int idx = 0;
	YGOpen::Proto::User user;
	std::vector<Ev> got;

	void send(Ev const& e) noexcept { got.push_back(e); }
	void fill_user(YGOpen::Proto::User& u) const noexcept { u = user; }
};

inline bool is_good(YGOpen::Proto::Deck const& d)
{
	return !d.title().empty() && d.title()[0] == '+';
}

// Accepts decks whose title says so.
struct Validator
{
	struct Call
	{
		std::string banlist;
		YGOpen::Proto::Deck deck;
	};
	mutable std::vector<Call> calls;

	bool check(std::string_view banlist, YGOpen::Proto::Deck const& d,
	           YGOpen::Proto::DeckError& de) const noexcept
	{
		calls.push_back({std::string(banlist), d});
		bool const good = is_good(d);
		// What is written for an accepted deck doesn't matter.
		if(!good || !d.notes().empty())
			error(d, de);
		return good;
	}
	// The reason depends on the deck, and may be empty.
	static void error(YGOpen::Proto::Deck const& d, YGOpen::Proto::DeckError& de)
	{
		namespace P = YGOpen::Proto;
		if(d.useful_size() > 0)
		{
			auto& l = *de.mutable_out_of_limit();
			l.set_deck_type(P::DECK_TYPE_SIDE_DECK);
			l.set_limit_type(P::DeckError::OutOfLimit::LT_OVER);
			l.set_expected(d.useful(0));
			l.set_got(static_cast<uint32_t>(d.data().main_cards_size()));
		}
		if(d.data().main_cards_size() > 2)
			*de.mutable_excessive_copies()->mutable_cards() =
				d.data().main_cards();
		if(d.data().extra_cards_size() > 0)
			de.mutable_mixed_card()->add_main_on_extra_cards(
				d.data().extra_cards(0));
		for(auto const code : d.data().side_cards())
		{
			auto& r = *de.mutable_banlisted()->add_reasons_and_cards();
			r.set_type(P::DeckError::Banlisted::ReasonAndCode::RT_LIMITED);
			r.set_card(code);
		}
	}
};

struct Factory
{
	void make_duel() const noexcept {}
};

// Random numbers: given ones first, then those of a seeded generator.
struct Rnd
{
	using result_type = uint32_t;
	std::vector<uint32_t> given;
	size_t at = 0;
	std::mt19937 rest;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFFFFFFU; }
	result_type operator()()
	{
		return at < given.size() ? given[at++]
		                         : static_cast<result_type>(rest());
	}
};

struct Traits
{
	using ClientType = User;
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using RNGType = Rnd;
};

using Room = YGOpen::Server::BasicRoom<Traits>;
using Seat = std::pair<uint32_t, uint32_t>;

inline bool same(google::protobuf::Message const& a,
          google::protobuf::Message const& b)
{
	// (No maps, hence no two ways of writing the same.)
	return a.SerializeAsString() == b.SerializeAsString();
}

inline std::string text(google::protobuf::Message const& m)
{
	return m.ShortDebugString();
}

// What a user knows about the room.
struct View
{
	PR::Options options;
	std::map<Seat, PR::Duelist> duelists;
	uint32_t spectators = 0;

	void snapshot(Ev::Configuring::EnteringState const& es)
	{
		options = es.options();
		duelists.clear();
		for(auto const& d : es.duelists())
			if(!duelists.emplace(Seat{d.team(), d.pos()}, d).second)
				pbt::failf("two duelists in the same slot: ", text(es));
		spectators = es.spectator_count();
	}
	void fold(Ev const& e)
	{
		if(e.has_spectator_count())
		{
			spectators = e.spectator_count();
			return;
		}
		if(!e.has_configuring())
			return;
		auto const& cf = e.configuring();
		if(cf.has_entering_state())
			snapshot(cf.entering_state());
		else if(cf.has_duelist_enters())
		{
			auto const& d = cf.duelist_enters();
			if(!duelists.emplace(Seat{d.team(), d.pos()}, d).second)
				pbt::failf("a duelist enters in a taken slot: ", text(d));
		}
		else if(cf.has_update_duelist())
		{
			auto const& d = cf.update_duelist();
			auto const it = duelists.find({d.team(), d.pos()});
			if(it == duelists.end())
				pbt::failf("update of a free slot: ", text(d));
			it->second = d;
		}
	}
	std::string str() const
	{
		std::string r = "[" + text(options) + "]";
		for(auto const& d : duelists)
			r += " {" + text(d.second) + "}";
		return r + " spectators: " + std::to_string(spectators);
	}
	bool operator==(View const& o) const
	{
		if(!same(options, o.options) || spectators != o.spectators ||
		   duelists.size() != o.duelists.size())
			return false;
		for(auto const& d : duelists)
		{
			auto const it = o.duelists.find(d.first);
			if(it == o.duelists.end() || !same(d.second, it->second))
				return false;
		}
		return true;
	}
};

// Text of any length, not only ASCII.
inline std::string gen_text(Src& s)
{
	static constexpr char const* PARTS[] = {"a",  "b",      "0",      " ",
	                                        "%s", "\xC3\xA9", "\xE6\x97\xA5"};
	std::string r;
	for(uint32_t n = s.chance(1, 30) ? s.below(300) : s.size(12); n != 0; n--)
		r += PARTS[s.below(7)];
	return r;
}

template<typename R>
void gen_codes(Src& s, R& to)
{
	for(uint32_t n = s.chance(1, 60) ? s.below(300) : s.size(4); n != 0; n--)
		to.Add(s.u32());
}

inline PR::Options gen_options(Src& s)
{
	PR::Options o;
	for(uint32_t n = static_cast<uint32_t>(s.draw(4)); n != 0; n--)
		o.add_max_duelists(s.chance(1, 6) ? s.u32()
		                                  : static_cast<uint32_t>(s.draw(5)));
	if(s.coin())
		o.set_banlist_id(gen_text(s));
	else if(s.chance(1, 4))
	{
		auto& b = *o.mutable_custom_banlist();
		b.set_id(gen_text(s));
		gen_codes(s, *b.mutable_forbidden());
		gen_codes(s, *b.mutable_whitelist());
	}
	if(s.chance(1, 3))
	{
		o.mutable_deck_limits()->mutable_main()->set_min(s.u32());
		o.mutable_deck_limits()->mutable_main()->set_max(s.i32());
		o.mutable_deck_limits()->mutable_extra()->set_max(s.i32());
		o.mutable_deck_limits()->mutable_side()->set_max(s.i32());
	}
	return o;
}

inline uint32_t limit_of(PR::Options const& asked, int team)
{
	if(team >= asked.max_duelists_size())
		return 1;
	uint32_t const v = asked.max_duelists(team);
	return v < 1 ? 1 : v > 3 ? 3 : v;
}

enum Focus
{
	SEATS = 1,
	READY = 2,
	VIEWS = 4,
	FIRST = 8,
};

// The explanation is only made when it is needed.
#define ROOM_REQUIRE(kind, cond, ...)              \
	do                                             \
	{                                              \
		if((focus & (kind)) != 0 && !(cond))       \
			::pbt::fail(std::string(__VA_ARGS__)); \
	} while(0)

// Drives a room with any history and knows what it should tell to whom.
class Driver
{
public:
	Driver(Src& src, Case& cs, PR::Options const& opts, Rnd rnd, int foc)
		: s(src), c(cs), asked(opts), focus(foc)
	{
		User& host = add_user();
		LOG(c, "room ", text(opts), ", host is user 0");
		room = std::make_unique<Room>(validator, factory, std::move(rnd), host,
		                              opts);
		entered(host);
	}

	Src& s;
	Case& c;
	PR::Options asked;
	int focus;
	Validator validator;
	Factory factory;
	std::deque<User> users;
	std::unique_ptr<Room> room;
	// Observed.
	std::map<int, Seat> seat;
	std::map<int, View> views;
	// Model.
	std::map<int, bool> deck_ok;
	std::map<int, bool> ready;
	uint32_t spectators = 0;
	bool started = false;
	int host_team_count[2] = {0, 0};
	uint64_t refused = 0;
	uint64_t accepted = 0;

	User& add_user()
	{
		users.emplace_back();
		User& u = users.back();
		u.idx = static_cast<int>(users.size()) - 1;
		if(u.idx > 0 && s.chance(1, 6)) // People may look alike.
			u.user = users[s.draw(u.idx)].user;
		else
		{
			if(!s.chance(1, 10))
				u.user.set_id("id" + std::to_string(u.idx));
			u.user.set_name(s.chance(1, 5) ? gen_text(s)
			                               : "user " + std::to_string(u.idx));
		}
		return u;
	}

	void clear_inboxes()
	{
		for(auto& u : users)
			u.got.clear();
	}

	void fold_all()
	{
		for(auto& u : users)
			for(auto const& e : u.got)
				views[u.idx].fold(e);
	}

	void enter()
	{
		clear_inboxes();
		User& u = add_user();
		LOG(c, "enter ", u.idx);
		room->enter(u);
		entered(u);
		c.count("enter");
	}

	void entered(User& u)
	{
		// Expected seat.
		int team = -1;
		int const n0 = host_team_count[0];
		int const n1 = host_team_count[1];
		bool const free0 = n0 < static_cast<int>(limit_of(asked, 0));
		bool const free1 = n1 < static_cast<int>(limit_of(asked, 1));
		if(free0 && (n0 <= n1 || !free1))
			team = 0;
		else if(free1)
			team = 1;
		// The newcomer gets the room, then the news of entering.
		auto has_snapshot = [&]
		{
			return !u.got.empty() && u.got[0].has_configuring() &&
			       u.got[0].configuring().has_entering_state();
		};
		ROOM_REQUIRE(SEATS | VIEWS, has_snapshot(),
		        "whoever enters must be told the room first");
		if(has_snapshot())
		{
			auto const& es = u.got[0].configuring().entering_state();
			PR::Options want = asked;
			want.clear_max_duelists();
			want.add_max_duelists(limit_of(asked, 0));
			want.add_max_duelists(limit_of(asked, 1));
			ROOM_REQUIRE(SEATS, same(want, es.options()),
			        "options are " + text(es.options()) + ", should be " +
			            text(want));
			View v;
			v.snapshot(es);
			for(auto const& b : views) // What everybody else knows.
				ROOM_REQUIRE(VIEWS, b.second == v,
				        "user " + std::to_string(b.first) +
				            " sees the room as " + b.second.str() +
				            " but whoever enters is told " + v.str());
		}
		ROOM_REQUIRE(SEATS | VIEWS, u.got.size() == 2,
		        "whoever enters gets the room and the news, got " +
		            std::to_string(u.got.size()) + " messages");
		for(auto const& o : users)
		{
			if(&o != &u)
				ROOM_REQUIRE(VIEWS, o.got.size() == 1,
				        "others get the news once, user " +
				            std::to_string(o.idx) + " got " +
				            std::to_string(o.got.size()));
			ROOM_REQUIRE(VIEWS,
			        !o.got.empty() && !u.got.empty() &&
			            same(o.got.back(), u.got.back()),
			        "news differ among users");
		}
		Ev const news = u.got.empty() ? Ev{} : u.got.back();
		bool const duelist = news.has_configuring() &&
		                     news.configuring().has_duelist_enters();
		if(team >= 0)
		{
			uint32_t const pos = static_cast<uint32_t>(host_team_count[team]);
			ROOM_REQUIRE(SEATS | VIEWS, duelist,
			        "user " + std::to_string(u.idx) +
			            " should be seated, got " + text(news));
			if(duelist)
			{
				auto const& d = news.configuring().duelist_enters();
				ROOM_REQUIRE(SEATS, d.team() == static_cast<uint32_t>(team) && d.pos() == pos,
				        "should be seated in team " + std::to_string(team) +
				            " position " + std::to_string(pos) + ", got " +
				            text(d));
				ROOM_REQUIRE(SEATS, d.is_host() == (u.idx == 0),
				        "wrong host flag: " + text(d));
				ROOM_REQUIRE(SEATS | VIEWS, same(d.user(), u.user),
				        "wrong user: " + text(d));
				ROOM_REQUIRE(VIEWS, !d.is_ready(), "ready on entering: " + text(d));
				seat[u.idx] = {d.team(), d.pos()};
				if(d.team() < 2)
					host_team_count[d.team()]++;
			}
		}
		else
		{
			spectators++;
			c.label("with spectators");
			ROOM_REQUIRE(SEATS | VIEWS,
			        news.t_case() == Ev::kSpectatorCount &&
			            news.spectator_count() == spectators,
			        "user " + std::to_string(u.idx) +
			            " should be a spectator, " +
			            std::to_string(spectators) + " in total, got " +
			            text(news));
		}
		fold_all();
	}

	bool quiet_except(int idx) const
	{
		for(auto const& u : users)
			if(u.idx != idx && !u.got.empty())
				return false;
		return true;
	}

	void visit(User& u, Sig const& sig)
	{
		clear_inboxes();
		LOG(c, "user ", u.idx, " sends ", text(sig));
		room->visit(u, sig);
	}

	void nothing(int kind, char const* why)
	{
		refused++;
		for(auto const& u : users)
			ROOM_REQUIRE(kind, u.got.empty(),
			        std::string("nothing should happen (") + why +
			            "), user " + std::to_string(u.idx) + " got " +
			            (u.got.empty() ? "" : text(u.got[0])));
		fold_all();
	}

	User& any_user()
	{
		// The host half of the time for starting, anyone otherwise.
		return users[s.draw(users.size())];
	}

	void send_deck(User& u, bool good)
	{
		Sig sig;
		auto& d = *sig.mutable_configuring()->mutable_update_deck();
		d.set_title(good ? "+" : s.coin() ? "-" : "");
		gen_codes(s, *d.mutable_data()->mutable_main_cards());
		if(s.chance(1, 3))
			gen_codes(s, *d.mutable_data()->mutable_extra_cards());
		if(s.chance(1, 4))
			gen_codes(s, *d.mutable_data()->mutable_side_cards());
		if(s.chance(1, 4))
			gen_codes(s, *d.mutable_useful());
		if(s.chance(1, 4))
			d.set_banlist_id(gen_text(s));
		if(s.chance(1, 4))
			d.set_notes(gen_text(s));
		validator.calls.clear();
		visit(u, sig);
		c.count("deck");
		if(started)
			return nothing(READY, "the duel started");
		if(seat.count(u.idx) == 0)
			return nothing(READY, "spectators have no deck");
		ROOM_REQUIRE(VIEWS, quiet_except(u.idx),
		        "others were told about the deck of a duelist");
		ROOM_REQUIRE(VIEWS | READY, u.got.size() == 1,
		        "one verdict is expected, got " +
		            std::to_string(u.got.size()) + " messages");
		bool const is_status = !u.got.empty() && u.got[0].has_configuring() &&
		                       u.got[0].configuring().has_deck_status();
		ROOM_REQUIRE(READY, is_status, "a verdict on the deck is expected");
		if(is_status)
		{
			auto const& ds = u.got[0].configuring().deck_status();
			ROOM_REQUIRE(READY, ds.has_deck_error() == !good,
			        std::string("a ") + (good ? "good" : "bad") +
			            " deck got " + text(ds));
			YGOpen::Proto::DeckError want;
			if(!good)
				Validator::error(d, want);
			ROOM_REQUIRE(READY, same(want, ds.deck_error()),
			        "wrong reason of rejection: " + text(ds));
		}
		bool asked_validator = false;
		for(auto const& call : validator.calls)
		{
			ROOM_REQUIRE(READY, call.banlist == asked.banlist_id(),
			        "the deck was checked for list \"" + call.banlist + "\"");
			asked_validator |= same(call.deck, d);
		}
		ROOM_REQUIRE(READY, asked_validator, "the deck was not checked");
		deck_ok[u.idx] = good;
		fold_all();
	}

	void set_ready(User& u, bool value)
	{
		Sig sig;
		sig.mutable_configuring()->set_ready_status(value);
		visit(u, sig);
		c.count("ready");
		if(started)
			return nothing(READY, "the duel started");
		if(seat.count(u.idx) == 0)
			return nothing(READY, "spectators are not ready");
		if(value == ready[u.idx])
			return nothing(READY, "already so");
		if(value && !deck_ok[u.idx])
			return nothing(READY, "no accepted deck");
		ready[u.idx] = value;
		accepted++;
		PR::Duelist want;
		want.set_team(seat[u.idx].first);
		want.set_pos(seat[u.idx].second);
		*want.mutable_user() = u.user;
		want.set_is_host(u.idx == 0);
		want.set_is_ready(value);
		for(auto const& o : users)
		{
			ROOM_REQUIRE(VIEWS | READY, o.got.size() == 1,
			        "user " + std::to_string(o.idx) + " got " +
			            std::to_string(o.got.size()) +
			            " messages about a ready change");
			if(o.got.empty())
				continue;
			ROOM_REQUIRE(VIEWS | READY,
			        o.got[0].has_configuring() &&
			            o.got[0].configuring().has_update_duelist() &&
			            same(o.got[0].configuring().update_duelist(), want),
			        "the update should be " + text(want) + ", got " +
			            text(o.got[0]));
		}
		fold_all();
	}

	bool can_start() const
	{
		std::set<uint32_t> teams;
		for(auto const& e : seat)
		{
			teams.insert(e.second.first);
			auto const d = deck_ok.find(e.first);
			auto const r = ready.find(e.first);
			if(d == deck_ok.end() || !d->second || r == ready.end() ||
			   !r->second)
				return false;
		}
		return teams.size() == 2;
	}

	// Returns whether the duel started.
	bool start(User& u)
	{
		Sig sig;
		sig.mutable_configuring()->set_start_dueling(true);
		visit(u, sig);
		c.count("start");
		if(started)
		{
			nothing(READY, "the duel started");
			return false;
		}
		if(u.idx != 0)
		{
			nothing(READY, "not the host");
			return false;
		}
		if(!can_start())
		{
			nothing(READY, "not everyone is ready");
			return false;
		}
		started = true;
		for(auto const& o : users)
			ROOM_REQUIRE(READY | FIRST,
			        !o.got.empty() && o.got[0].has_deciding_first_turn() &&
			            o.got[0].deciding_first_turn().has_entering_state(),
			        "user " + std::to_string(o.idx) +
			            " should be told that the duel starts, got " +
			            (o.got.empty() ? "nothing" : text(o.got[0])));
		// So that later configuring events are noticed.
		fold_all();
		return true;
	}

	void noise(User& u)
	{
		Sig sig;
		switch(s.draw(started ? 2 : 4))
		{
		case 0:
			break;
		case 1:
			if(started)
				sig.mutable_deciding_first_turn();
			else
				sig.mutable_configuring();
			break;
		case 2:
			sig.mutable_deciding_first_turn();
			break;
		default:
			sig.mutable_deciding_first_turn()->set_team_going_first(
				static_cast<uint32_t>(s.draw(3)));
			break;
		}
		visit(u, sig);
		c.count("noise");
		nothing(READY | FIRST, "the message doesn't fit");
	}

	// Somebody who never entered sends something.
	void outsider()
	{
		User u;
		u.idx = -1;
		u.user = users[s.draw(users.size())].user;
		Sig sig;
		switch(s.draw(4))
		{
		case 0:
			sig.mutable_configuring()->mutable_update_deck()->set_title("+");
			break;
		case 1:
			sig.mutable_configuring()->set_ready_status(s.coin());
			break;
		case 2:
			sig.mutable_configuring()->set_start_dueling(true);
			break;
		default:
			sig.mutable_deciding_first_turn()->set_team_going_first(
				static_cast<uint32_t>(s.draw(2)));
			break;
		}
		visit(u, sig);
		c.count("outsider");
		ROOM_REQUIRE(READY | FIRST | VIEWS, u.got.empty(),
		        "somebody who never entered was told something");
		nothing(READY | FIRST, "never entered");
	}

	void step()
	{
		switch(s.weighted({4, 5, 6, 3, 1, 2}))
		{
		case 0:
			if(users.size() < 10 && !started)
				enter();
			break;
		case 1:
			send_deck(any_user(), !s.chance(1, 3));
			break;
		case 2:
			set_ready(any_user(), !s.chance(1, 4));
			break;
		case 3:
			start(s.coin() ? users[0] : any_user());
			break;
		case 4:
			if(s.chance(1, 3))
				outsider();
			else
				noise(any_user());
			break;
		default: // Somebody gets ready.
		{
			User& u = any_user();
			send_deck(u, true);
			set_ready(u, true);
			break;
		}
		}
	}
};

inline Rnd gen_rnd(Src& s)
{
	Rnd r;
	for(size_t n = s.size(12); n != 0; n--)
		r.given.push_back(s.coin() ? static_cast<uint32_t>(s.draw(12))
		                           : s.u32());
	r.rest.seed(s.u32());
	return r;
}

} // namespace room_sim
