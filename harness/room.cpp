// C15 seating, C16 ready and start, C17 agreement of views, C18 first turn.
#include "room_sim.hpp"

namespace
{

using namespace room_sim;

void history(Src& s, Case& c, int focus)
{
	PR::Options o = gen_options(s);
	// Not decided by random numbers here (see C18).
	o.set_ftdm(s.chance(1, 3) ? PR::FTDM_RPS : PR::FTDM_HOST_CHOOSES);
	Driver d(s, c, o, gen_rnd(s), focus);
	uint32_t const n = 3 + s.steps(40);
	// Seldom many people enter at once.
	uint32_t const crowd_at = s.chance(1, 250) ? s.below(n) : n;
	for(uint32_t i = 0; i < n; i++)
	{
		if(i == crowd_at && !d.started)
		{
			for(uint32_t k = 1 + s.below(s.chance(1, 20) ? 300 : 20);
			    k > 0; k--)
				d.enter();
			c.label("crowded");
		}
		d.step();
	}
	if(!d.started && s.chance(1, 2))
	{
		// Everybody gets ready, maybe but one.
		bool const spoil = s.chance(1, 2);
		size_t const who = s.draw(d.users.size());
		for(size_t i = 0; i < d.users.size(); i++)
			if(!(spoil && i == who))
			{
				d.send_deck(d.users[i], true);
				d.set_ready(d.users[i], true);
			}
		if(spoil && s.coin())
			d.send_deck(d.users[who], s.coin());
		d.start(d.users[0]);
	}
	if(!d.started)
		d.enter();
	if(d.started)
		c.label("started");
	if(focus == SEATS)
	{
		if(d.users.size() >= 3)
			c.nontrivial();
		c.mix(text(o));
		for(auto const& e : d.seat)
			c.mix(e.second.first * 4 + e.second.second);
		c.mix(d.users.size());
	}
	else if(focus == READY)
	{
		if(d.accepted >= 1 && d.refused >= 1)
			c.nontrivial();
	}
	else if(d.users.size() >= 3 && d.accepted >= 1)
		c.nontrivial();
}

void c15(Src& s, Case& c)
{
	history(s, c, SEATS);
}

void c16(Src& s, Case& c)
{
	history(s, c, READY);
}

void c17(Src& s, Case& c)
{
	history(s, c, VIEWS);
}

// A room where everyone is ready.
std::unique_ptr<Driver> ready_room(Src& s, Case& c, PR::Options const& o,
                                   Rnd r, int focus)
{
	auto d = std::make_unique<Driver>(s, c, o, std::move(r), focus);
	size_t const others = 1 + s.draw(7);
	for(size_t i = 0; i < others; i++)
		d->enter();
	for(auto& u : d->users)
		if(d->seat.count(u.idx) != 0)
		{
			d->send_deck(u, true);
			d->set_ready(u, true);
		}
	return d;
}

using DFT = Ev::DecidingFirstTurn;

// The messages after the start; checks those about who decides.
struct Started
{
	std::optional<DFT::Result> result;
	int asked = -1;
};

Started look(Driver& d, bool result_expected)
{
	Started r;
	for(auto& u : d.users)
	{
		size_t results = 0;
		for(size_t i = 1; i < u.got.size(); i++)
		{
			Ev const& e = u.got[i];
			CHECK(e.has_deciding_first_turn(), "unexpected ", text(e));
			auto const& t = e.deciding_first_turn();
			if(t.has_result())
			{
				results++;
				if(!r.result)
					r.result = t.result();
				CHECK(same(*r.result, t.result()),
				      "users were told different results");
			}
			else if(t.t_case() == DFT::kDecideFirstTurn)
			{
				CHECK(t.decide_first_turn());
				CHECK(r.asked < 0, "several users were asked to decide");
				r.asked = u.idx;
			}
			else
				pbt::failf("unexpected ", text(e));
		}
		CHECK_EQ(results, result_expected ? 1U : 0U, "results told to user ",
		         u.idx);
	}
	return r;
}

// Messages in the deciding state that must have no effect; with a choice by
// those who could have been asked (which they may or may not).
void bystanders(Driver& d, Src& s, bool host_chooses, int asked)
{
	for(size_t n = s.draw(8); n != 0; n--)
	{
		User& u = d.any_user();
		switch(s.draw(6))
		{
		case 5:
			d.outsider();
			break;
		case 0:
			d.send_deck(u, s.coin());
			break;
		case 1:
			d.set_ready(u, s.coin());
			break;
		case 2:
			d.start(s.coin() ? d.users[0] : u);
			break;
		case 3:
			d.noise(u);
			break;
		default:
		{
			Sig sig;
			bool const entitled = host_chooses ? u.idx == 0 : u.idx == asked;
			uint32_t team = static_cast<uint32_t>(s.draw(2));
			if(entitled)
			{
				if(!host_chooses)
					break;
				team = 2 + (s.coin() ? s.u32() % 0xFFFFFFF0U
				                     : static_cast<uint32_t>(s.draw(5)));
			}
			sig.mutable_deciding_first_turn()->set_team_going_first(team);
			d.visit(u, sig);
			d.c.count("choice not entitled or invalid");
			d.nothing(FIRST, "not entitled, or not a team");
			break;
		}
		}
	}
}

void deciding(Src& s, Case& c)
{
	PR::Options o = gen_options(s);
	static constexpr PR::FirstTurnDecideMethod METHODS[] = {
		PR::FTDM_HOST_CHOOSES, PR::FTDM_DICE, PR::FTDM_COIN};
	auto const method = METHODS[s.weighted({2, 4, 2})];
	o.set_ftdm(method);
	auto dp = ready_room(s, c, o, gen_rnd(s), FIRST);
	Driver& d = *dp;
	CHECK(d.start(d.users[0]), "everyone is ready, the duel should start");
	auto leader = [&](uint32_t team)
	{
		for(auto const& u : d.users)
		{
			auto const it = d.seat.find(u.idx);
			if(it != d.seat.end() && it->second == Seat{team, 0})
				return u.idx;
		}
		pbt::fail("a team has nobody in its first slot");
	};
	Started st = look(d, method != PR::FTDM_HOST_CHOOSES);
	c.mix(static_cast<uint64_t>(method));
	if(method == PR::FTDM_HOST_CHOOSES)
	{
		c.label("host chooses");
		CHECK_EQ(st.asked, 0, "the host should be asked");
		bystanders(d, s, true, 0);
		Sig sig;
		uint32_t const team = static_cast<uint32_t>(s.draw(2));
		sig.mutable_deciding_first_turn()->set_team_going_first(team);
		d.visit(d.users[0], sig);
		for(auto const& u : d.users)
		{
			CHECK(!u.got.empty() && u.got[0].has_deciding_first_turn() &&
			          u.got[0].deciding_first_turn().has_result(),
			      "user ", u.idx, " should be told the host's choice");
			auto const& r = u.got[0].deciding_first_turn().result();
			CHECK_EQ(r.team_going_first(), team);
			CHECK(r.t_case() == 0, text(r));
		}
		c.mix(team);
		c.mix(d.users.size());
		c.nontrivial();
		return;
	}
	auto const& r = *st.result;
	CHECK(r.team_going_first() < 2, text(r));
	if(method == PR::FTDM_DICE)
	{
		c.label("dice");
		CHECK(r.has_dice() && r.dice().results_size() > 0, text(r));
		int const last = r.dice().results_size() - 1;
		for(int i = 0; i <= last; i++)
		{
			auto const& p = r.dice().results(i);
			CHECK(p.team0() >= 1 && p.team0() <= 6 && p.team1() >= 1 &&
			          p.team1() <= 6,
			      "not dice: ", text(p));
			CHECK((p.team0() == p.team1()) == (i != last),
			      "throws go on exactly while tied: ", text(r));
			c.mix(p.team0() * 8 + p.team1());
		}
		auto const& p = r.dice().results(last);
		CHECK_EQ(r.team_going_first(), p.team0() > p.team1() ? 0U : 1U,
		         text(r));
		if(last > 0)
			c.label("tied dice");
	}
	else
	{
		c.label("coin");
		CHECK(r.t_case() == DFT::Result::kCoinResult, text(r));
		CHECK_EQ(r.team_going_first(),
		         r.coin_result() == DFT::Result::COIN_RESULT_HEADS ? 0U : 1U,
		         text(r));
		c.mix(r.team_going_first());
	}
	CHECK_EQ(st.asked, leader(r.team_going_first()),
	         "the first duelist of the winner should be asked");
	bystanders(d, s, false, st.asked);
	c.mix(d.users.size());
	c.nontrivial();
}

// Every outcome happens with a good source of random numbers.
void outcomes(Src& s, Case& c)
{
	c.label("all outcomes");
	std::mt19937 gen(s.u32());
	std::set<uint32_t> faces[2];
	std::set<std::pair<uint32_t, uint32_t>> pairs;
	bool tied = false;
	std::set<uint32_t> coins;
	std::set<uint32_t> dice_winners;
	for(int i = 0; i < 160; i++)
		for(auto const method : {PR::FTDM_DICE, PR::FTDM_COIN})
		{
			if(method == PR::FTDM_COIN && i >= 80)
				continue;
			Validator v;
			Factory f;
			User a;
			User b;
			PR::Options o;
			o.set_ftdm(method);
			Rnd r;
			r.rest.seed(gen());
			r.rest.discard(gen() % 8);
			Room room(v, f, r, a, o);
			room.enter(b);
			Sig deck;
			deck.mutable_configuring()->mutable_update_deck()->set_title("+");
			Sig rd;
			rd.mutable_configuring()->set_ready_status(true);
			for(User* u : {&a, &b})
			{
				room.visit(*u, deck);
				room.visit(*u, rd);
			}
			Sig st;
			st.mutable_configuring()->set_start_dueling(true);
			room.visit(a, st);
			for(auto const& e : a.got)
				if(e.has_deciding_first_turn() &&
				   e.deciding_first_turn().has_result())
				{
					auto const& res = e.deciding_first_turn().result();
					if(method == PR::FTDM_COIN)
						coins.insert(res.coin_result());
					else
					{
						for(auto const& p : res.dice().results())
						{
							faces[0].insert(p.team0());
							faces[1].insert(p.team1());
							pairs.emplace(p.team0(), p.team1());
							tied |= p.team0() == p.team1();
						}
						dice_winners.insert(res.team_going_first());
					}
				}
		}
	CHECK_EQ(faces[0].size(), 6U, "faces thrown by the first team");
	CHECK_EQ(faces[1].size(), 6U, "faces thrown by the second team");
	CHECK(tied, "the dice of 160 rooms never tied");
	// 160 or more fair throws practically always give over 30 of the 36.
	CHECK(pairs.size() > 18, "only ", pairs.size(), " pairs of throws happen");
	CHECK_EQ(coins.size(), 2U, "sides of the coin");
	CHECK_EQ(dice_winners.size(), 2U, "winners with dice");
	c.nontrivial();
}

void c18(Src& s, Case& c)
{
	// A rare one: it takes long.
	if(s.chance(1, 400))
		outcomes(s, c);
	else
		deciding(s, c);
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C15",
	     "a room with random options and 3 to 43 steps of users entering, "
	     "sending decks, readying and starting, with every message compared "
	     "with the seat that the rules give; non-trivial: at least 3 users; "
	     "distinct by options, seats and number of users",
	     20000, 800000, c15},
		{"C16",
	     "a room with random options and 3 to 43 steps of users entering, "
	     "sending good and bad decks, readying and starting, then often "
	     "everyone (or all but one) ready and a start, compared with a model "
	     "of who is ready; non-trivial: a ready change was accepted and a "
	     "message refused; distinct by choices",
	     40000, 1600000, c16},
		{"C17",
	     "a room with random options and 3 to 43 steps; what each user "
	     "was sent is folded and compared with what each newcomer is told; "
	     "non-trivial: at least 3 users and a ready change; distinct by "
	     "choices",
	     20000, 500000, c17},
		{"C18",
	     "a room with 2 to 8 ready users where the host starts, for each way "
	     "of deciding and random numbers given or from a generator, with "
	     "messages by others meanwhile; non-trivial: it got decided; distinct "
	     "by method, throws, winner and number of users",
	     20000, 600000, c18},
	};
}
