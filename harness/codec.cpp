// C08 to C11, encoding of single core messages, and C13, decoding answers.
#include "threads.hpp"
#include "wire.hpp"

#include <google/protobuf/arena.h>
#include <google/protobuf/text_format.h>
#include <memory>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/proto/duel/answer.hpp>

namespace
{

using namespace wire;
using google::protobuf::Arena;
using YGOpen::Codec::EncodeOneResult;
using YGOpen::Proto::Duel::Answer;
namespace Codec = YGOpen::Codec::Edo9300::OCGCore;

std::string text(google::protobuf::Message const& m)
{
	std::string r;
	google::protobuf::TextFormat::PrintToString(m, &r);
	return r;
}

char const* name_of(EncodeState s)
{
	return s == EncodeState::OK          ? "delivered"
	       : s == EncodeState::SWALLOWED ? "swallowed"
	                                     : "unknown";
}

std::string hex(Bytes const& b)
{
	static char const* const D = "0123456789abcdef";
	std::string r;
	for(size_t i = 0; i < b.size() && i < 400; i++)
		(r += D[b[i] >> 4U]) += D[b[i] & 15U];
	return b.size() > 400 ? r + "..." : r;
}

struct Encoded
{
	EncodeState state{};
	size_t size = 0;
	std::unique_ptr<ProtoMsg> msg;
};

// The message is put after `lead` bytes of a buffer that ends right after the
// `tail` that follows it.
Encoded encode(YGOpen::Codec::IEncodeContext& ctx, Bytes const& bytes,
               size_t lead = 0, Bytes const& tail = {})
{
	size_t const total = lead + bytes.size() + tail.size();
	std::unique_ptr<uint8_t[]> const buffer(new uint8_t[total]);
	std::memset(buffer.get(), 0xA5, lead);
	std::memcpy(buffer.get() + lead, bytes.data(), bytes.size());
	if(!tail.empty())
		std::memcpy(buffer.get() + lead + bytes.size(), tail.data(),
		            tail.size());
	Arena arena;
	EncodeOneResult const r =
		Codec::encode_one(arena, ctx, buffer.get() + lead);
	CHECK((r.state == EncodeState::OK) == (r.msg != nullptr),
	      "message given for a message that is ", name_of(r.state));
	CHECK(std::memcmp(buffer.get() + lead, bytes.data(), bytes.size()) == 0,
	      "the core's message was written to");
	Encoded e;
	e.state = r.state;
	e.size = r.bytes_read;
	if(r.msg != nullptr)
		e.msg = std::make_unique<ProtoMsg>(*r.msg);
	return e;
}

bool same(std::unique_ptr<ProtoMsg> const& a, std::unique_ptr<ProtoMsg> const& b)
{
	return a == nullptr || b == nullptr ? a == b : same_msg(*a, *b);
}

// Checks the meaning of an encoded message.
void judge(CoreMsg const& m, Encoded const& e)
{
	CHECK(e.state == m.state, m.name, " was ", name_of(e.state),
	      " instead of ", name_of(m.state));
	if(m.state != EncodeState::OK)
		return;
	if(m.judge)
	{
		CHECK(e.msg->has_event() && e.msg->queries_size() == 0, m.name);
		m.judge(*e.msg);
		return;
	}
	ProtoMsg got = *e.msg;
	// Two ways of saying that an attack is direct.
	if(got.event().meta().attack().has_attack_target() &&
	   got.event().meta().attack().attack_target().loc() == 0)
		got.mutable_event()
			->mutable_meta()
			->mutable_attack()
			->clear_attack_target();
	CHECK(same_msg(got, m.want), m.name, " was encoded as\n", text(got),
	      "expected\n", text(m.want));
}

void log_msg(Case& c, CoreMsg const& m)
{
	LOG(c, m.name, " (", m.bytes.size(), " bytes) ", hex(m.bytes));
	c.count(m.name);
	for(auto const b : m.bytes)
		c.mix(b);
}

template<size_t N>
NamedGen const& pick_gen(Src& s, NamedGen const (&list)[N])
{
	return list[s.below(N)];
}

CoreMsg gen_any(Src& s, MockContext const& ctx, bool unknown)
{
	switch(s.below(unknown ? 16 : 15))
	{
	case 0:
	case 1:
	case 2:
		return make(s, ctx, pick_gen(s, QUERIES));
	case 3:
	case 4:
		return make(s, ctx, pick_gen(s, SWALLOWED));
	case 5:
	case 6:
	case 7:
	case 8:
		return make(s, ctx, pick_gen(s, REQUESTS));
	case 15:
		return make(s, ctx, pick_gen(s, UNKNOWN));
	default:
		return make(s, ctx, pick_gen(s, EVENTS));
	}
}

Bytes gen_bytes(Src& s, size_t max)
{
	Bytes r;
	for(uint32_t n = s.size(static_cast<uint32_t>(max)); n > 0; n--)
		r.push_back(s.u8());
	return r;
}

void run_c08(Src& s, Case& c)
{
	Huge const h;
	MockContext ctx;
	gen_context(s, ctx);
	uint32_t const n = 1 + s.size(5);
	Bytes stream;
	MockContext const start = ctx;
	std::vector<CoreMsg> msgs;
	std::vector<Encoded> alone;
	for(uint32_t i = 0; i < n; i++)
	{
		CoreMsg m = gen_any(s, ctx, true);
		log_msg(c, m);
		MockContext a = ctx;
		MockContext b = ctx;
		MockContext z = ctx;
		Encoded const first = encode(a, m.bytes);
		CHECK(first.state == m.state, m.name, " was ", name_of(first.state),
		      " instead of ", name_of(m.state));
		if(m.state != EncodeState::UNKNOWN)
			CHECK(first.size == m.bytes.size(), m.name, " of ", m.bytes.size(),
			      " bytes took ", first.size);
		if(m.state == EncodeState::OK)
		{
			CHECK(first.msg->t_case() == m.want.t_case() &&
			      (first.msg->queries_size() == 0 ||
			       m.want.queries_size() != 0),
			      m.name, " became a message of another kind");
		}
		// Whatever is around it doesn't matter.
		size_t const lead = s.below(9);
		Bytes const tail = gen_bytes(s, 40);
		Encoded const second = encode(b, m.bytes, lead, tail);
		CHECK(first.state == second.state, m.name, " was ",
		      name_of(second.state), " at offset ", lead, " before ",
		      hex(tail));
		if(m.state != EncodeState::UNKNOWN)
			CHECK(first.size == second.size, m.name, " took ", second.size,
			      " bytes at offset ", lead, " before ", hex(tail));
		CHECK(same(first.msg, second.msg), m.name,
		      " is another message at offset ", lead, " before ", hex(tail));
		CHECK(a == b, m.name, " changed the context in another way");
		// Nor bytes that are the opposite.
		Encoded const third = encode(z, m.bytes, 1, Bytes(64, 0xFF));
		CHECK(same(first.msg, third.msg) && a == z &&
		      (m.state == EncodeState::UNKNOWN || first.size == third.size),
		      m.name, " is another message before set bits");
		if(m.variable)
			c.nontrivial();
		if(m.state == EncodeState::UNKNOWN)
		{
			c.label("unknown message");
			break;
		}
		ctx = a;
		stream.insert(stream.end(), m.bytes.begin(), m.bytes.end());
		msgs.push_back(std::move(m));
		alone.push_back({first.state, first.size, nullptr});
		if(first.msg != nullptr)
			alone.back().msg = std::make_unique<ProtoMsg>(*first.msg);
	}
	if(msgs.size() < 2)
		return;
	c.label("stream of messages");
	// The same messages one right after the other, in one arena.
	MockContext again = start;
	Arena arena;
	std::unique_ptr<uint8_t[]> const buffer(new uint8_t[stream.size()]);
	std::memcpy(buffer.get(), stream.data(), stream.size());
	size_t at = 0;
	for(size_t i = 0; i < msgs.size(); i++)
	{
		CHECK(at < stream.size(), "stream read too fast");
		auto const r = Codec::encode_one(arena, again, buffer.get() + at);
		CHECK(r.state == alone[i].state && r.bytes_read == alone[i].size,
		      msgs[i].name, " in a stream took ", r.bytes_read, " bytes, was ",
		      name_of(r.state));
		CHECK((r.msg != nullptr) == (alone[i].msg != nullptr), msgs[i].name);
		if(r.msg != nullptr)
			CHECK(same_msg(*r.msg, *alone[i].msg), msgs[i].name,
			      " is another message in a stream");
		at += r.bytes_read;
	}
	CHECK_EQ(at, stream.size());
	CHECK(again == ctx, "context after the stream");
}

// One message in a context that has gone through others.
void run_events(Src& s, Case& c)
{
	Huge const h;
	MockContext ctx;
	gen_context(s, ctx);
	uint32_t const n = 1 + s.size(5);
	for(uint32_t i = 0; i < n; i++)
	{
		// Moves depend on those before.
		bool const swallowed = s.chance(1, 20);
		CoreMsg m = swallowed ? make(s, ctx, pick_gen(s, SWALLOWED))
		            : s.chance(1, 3)
		                ? make(s, ctx, EVENTS[0])
		                : make(s, ctx, pick_gen(s, EVENTS));
		log_msg(c, m);
		MockContext want = ctx;
		if(m.effect)
			m.effect(want);
		Encoded const e = encode(ctx, m.bytes);
		judge(m, e);
		CHECK(ctx.win == want.win, m.name, " match win reason");
		CHECK(ctx.deferred == want.deferred, m.name, " materials waiting: ",
		      ctx.deferred.size(), " instead of ", want.deferred.size());
		ctx.left.erase(MockContext::key(m.no_origin));
		want.left.erase(MockContext::key(m.no_origin));
		CHECK(ctx.left == want.left, m.name, " origins of cards that left");
		if(m.variable || i > 0)
			c.nontrivial();
	}
}

template<size_t N>
void run_single(Src& s, Case& c, NamedGen const (&list)[N])
{
	Huge const h;
	MockContext ctx;
	gen_context(s, ctx);
	CoreMsg const m = make(s, ctx, pick_gen(s, list));
	log_msg(c, m);
	if(m.variable)
		c.nontrivial();
	judge(m, encode(ctx, m.bytes, s.below(4)));
}

// Lists of overlays are views of the query.
void run_c11(Src& s, Case& c)
{
	if(!s.chance(1, 4))
	{
		run_single(s, c, QUERIES);
		return;
	}
	CoreMsg m;
	m.name = "one query";
	Writer w;
	ProtoQuery::Data want;
	std::vector<uint32_t> overlays;
	gen_query(s, m, w, &want, overlays);
	m.bytes = w.b;
	log_msg(c, m);
	if(m.variable)
		c.nontrivial();
	std::unique_ptr<uint8_t[]> const buffer(new uint8_t[w.b.size()]);
	std::memcpy(buffer.get(), w.b.data(), w.b.size());
	ProtoQuery::Data got;
	auto const r = Codec::encode_one_query(buffer.get(), got);
	CHECK_EQ(r.bytes_read, w.b.size());
	CHECK(same_msg(got, want), "query encoded as\n", text(got), "expected\n",
	      text(want));
	CHECK_EQ(r.overlays_count, overlays.size());
	for(size_t i = 0; i < overlays.size(); i++)
	{
		uint32_t code = 0;
		std::memcpy(&code, r.overlays_ptr + i * 4, 4);
		CHECK_EQ(code, overlays[i]);
	}
}

/*
 * Answers.
 */

// Reads an answer as the core does: what is missing is 0.
class Response
{
public:
	explicit Response(Bytes b) : b_(std::move(b)) {}
	template<typename T>
	T at(size_t i) const
	{
		uint64_t v = 0;
		for(size_t k = 0; k < sizeof(T); k++)
			if(i * sizeof(T) + k < b_.size())
				v |= static_cast<uint64_t>(b_[i * sizeof(T) + k]) << (8U * k);
		return static_cast<T>(v);
	}
	int32_t i32(size_t i = 0) const { return at<int32_t>(i); }
	size_t size() const { return b_.size(); }

private:
	Bytes b_;
};

Response decode(ProtoRequest const& request, Answer const& answer, Src& s)
{
	// Whatever was in the output before doesn't matter.
	Bytes out = s.coin() ? gen_bytes(s, 24) : Bytes{};
	ProtoRequest const before = request;
	Answer const given = answer;
	Codec::decode_one_answer(request, answer, out);
	CHECK(same_msg(before, request) && same_msg(given, answer),
	      "the request or the answer changed");
	CHECK(!out.empty(), "nothing was answered");
	Bytes again;
	Codec::decode_one_answer(request, answer, again);
	CHECK(out == again, "the answer depends on the output's earlier content");
	return Response(out);
}

// Distinct indexes of a list of `n`.
std::vector<uint32_t> gen_choice(Src& s, uint32_t n, uint32_t count)
{
	std::vector<uint32_t> all(n);
	for(uint32_t i = 0; i < n; i++)
		all[i] = i;
	for(uint32_t i = 0; i < count; i++)
		std::swap(all[i], all[i + s.below(n - i)]);
	all.resize(count);
	return all;
}

void expect_i32(Response const& r, int64_t want, char const* what)
{
	CHECK(r.size() >= 4 && r.i32() == static_cast<int32_t>(want), what,
	      ": the core reads ", r.i32(), " instead of ", want);
}

// The core's reading of a list of cards.
void expect_cards(Response const& r, std::vector<uint32_t> const& want)
{
	int32_t const type = r.i32(0);
	CHECK(type >= 0 && type <= 2, "list of cards of type ", type);
	CHECK_EQ(r.at<uint32_t>(1), want.size());
	for(size_t i = 0; i < want.size(); i++)
	{
		uint32_t const got = type == 0   ? r.at<uint32_t>(2 + i)
		                     : type == 1 ? r.at<uint16_t>(4 + i)
		                                 : r.at<uint8_t>(8 + i);
		CHECK(got == want[i], "choice ", i, " is card ", got, " instead of ",
		      want[i]);
	}
	size_t const width = type == 0 ? 4 : type == 1 ? 2 : 1;
	CHECK(r.size() >= 8 + width * want.size(), "list of cards cut short");
}

// The bytes of a request together with what was encoded for it.
ProtoRequest encoded_request(CoreMsg const& m)
{
	MockContext ctx;
	Encoded const e = encode(ctx, m.bytes);
	judge(m, e);
	return e.msg->request();
}

// Answers the request that was encoded for a message.
void answer_request(Src& s, Case& c, CoreMsg const& m, ProtoRequest const& req)
{
	Answer a;
	auto answer_cards = [&](uint32_t n, bool cancel)
	{
		if(cancel && (n == 0 || s.chance(1, 6)))
		{
			a.mutable_select_card()->set_cancel(true);
			c.label("cancel");
			expect_i32(decode(req, a, s), -1, "cancel");
			return;
		}
		uint32_t const count = 1 + s.size(n - 1);
		auto const choice = gen_choice(s, n, count);
		for(auto const i : choice)
			a.mutable_select_card()->mutable_indexes()->add_values(i);
		if(choice.size() > 1)
			c.nontrivial();
		expect_cards(decode(req, a, s), choice);
	};
	switch(req.t_case())
	{
	case ProtoRequest::kSelectAttribute:
	{
		// Any subset of the attributes.
		uint32_t const v = req.select_attribute().attribute() & s.u32();
		if(v != 0)
			c.nontrivial();
		a.set_select_attribute(v);
		expect_i32(decode(req, a, s), v, "attributes");
		break;
	}
	case ProtoRequest::kSelectRace:
	{
		uint64_t const v = req.select_race().race() & s.u64();
		if(v != 0)
			c.nontrivial();
		a.set_select_race(v);
		auto const r = decode(req, a, s);
		CHECK(r.at<uint64_t>(0) == v, "races: the core reads ",
		      r.at<uint64_t>(0), " instead of ", v);
		break;
	}
	case ProtoRequest::kSelectCard:
	{
		auto const& sel = req.select_card();
		if(sel.has_limbo())
			answer_cards(static_cast<uint32_t>(sel.limbo().card_codes_size()),
			             sel.limbo().can_cancel());
		else if(sel.has_unique_range())
			answer_cards(
				static_cast<uint32_t>(sel.unique_range().cards_size()),
				sel.unique_range().can_cancel());
		else if(sel.has_unique_tributes())
		{
			auto const n =
				static_cast<uint32_t>(sel.unique_tributes().cards_size());
			if(n != 0 || sel.unique_tributes().can_cancel())
				answer_cards(n, sel.unique_tributes().can_cancel());
		}
		else // Recursive.
		{
			auto const n = static_cast<uint32_t>(
				sel.recursive().selectable_cards_size() +
				sel.recursive().deselectable_cards_size());
			bool const end =
				sel.recursive().can_finish() || sel.recursive().accept();
			if(end && (n == 0 || s.chance(1, 6)))
			{
				if(sel.recursive().can_finish())
					a.mutable_select_card()->set_finish(true);
				else
					a.mutable_select_card()->set_cancel(true);
				c.label("finish");
				expect_i32(decode(req, a, s), -1, "finish");
			}
			else if(n != 0)
			{
				// Cards to select come first, then those to deselect.
				uint32_t const i = s.below(n);
				if(i != 0)
					c.nontrivial();
				a.mutable_select_card()->mutable_indexes()->add_values(i);
				auto const r = decode(req, a, s);
				expect_i32(r, 1, "number of cards");
				CHECK_EQ(r.i32(1), static_cast<int32_t>(i));
			}
		}
		break;
	}
	case ProtoRequest::kSelectEffect:
	{
		auto const n = static_cast<uint32_t>(req.select_effect().effects_size());
		if(n == 0)
			break;
		uint32_t const i = s.below(n);
		if(i != 0)
			c.nontrivial();
		a.set_select_effect(i);
		expect_i32(decode(req, a, s), i, "effect");
		break;
	}
	case ProtoRequest::kSelectNumber:
	{
		auto const n = static_cast<uint32_t>(req.select_number().numbers_size());
		if(n == 0)
			break;
		uint32_t const i = s.below(n);
		if(i != 0)
			c.nontrivial();
		a.set_select_number(i);
		expect_i32(decode(req, a, s), i, "number");
		break;
	}
	case ProtoRequest::kSelectPosition:
	{
		uint32_t const v = req.select_position().position() & s.u8();
		if(v != 0)
			c.nontrivial();
		a.set_select_position(v);
		expect_i32(decode(req, a, s), v, "position");
		break;
	}
	case ProtoRequest::kSelectRockPaperScissors:
	{
		auto const v = static_cast<int32_t>(1 + s.below(3));
		c.nontrivial();
		a.set_select_rock_paper_scissors(v);
		expect_i32(decode(req, a, s), v, "rock, paper, scissors");
		break;
	}
	case ProtoRequest::kSelectYesNo:
	{
		bool const v = s.coin();
		c.nontrivial();
		a.set_select_yes_no(v);
		expect_i32(decode(req, a, s), v ? 1 : 0, "yes or no");
		break;
	}
	case ProtoRequest::kSelectToChain:
	{
		auto const& chain = req.select_to_chain();
		auto const n = static_cast<uint32_t>(chain.activable_cards_size());
		if(!chain.forced() && (n == 0 || s.chance(1, 4)))
		{
			a.mutable_select_to_chain()->set_no_op(true);
			c.label("no chain");
			expect_i32(decode(req, a, s), -1, "no chain");
		}
		else if(n != 0)
		{
			uint32_t const i = s.below(n);
			if(i != 0)
				c.nontrivial();
			a.mutable_select_to_chain()->set_index(i);
			expect_i32(decode(req, a, s), i, "chain");
		}
		break;
	}
	case ProtoRequest::kSelectZone:
	{
		// Zones as the core numbers them, and whether they can be chosen.
		auto const n = static_cast<uint32_t>(req.select_zone().places_size());
		if(n == 0)
			break;
		uint32_t bits = 0;
		for(unsigned i = 0; i < 4; i++)
			bits |= static_cast<uint32_t>(m.bytes[3 + i]) << (8U * i);
		int const replier = req.replier();
		uint32_t const count = 1 + s.below(std::min(n, 6U));
		auto const choice = gen_choice(s, n, count);
		for(auto const i : choice)
			*a.mutable_select_zone()->add_places() =
				req.select_zone().places(static_cast<int>(i));
		auto const r = decode(req, a, s);
		CHECK(r.size() >= 3 * count, "zones cut short");
		std::vector<uint32_t> open;
		auto const zones = zone_bits(replier);
		for(uint32_t i = 0; i < 32; i++)
			if((bits >> i & 1U) == 0 && zones[i].loc != 0)
				open.push_back(i);
		if(count > 1)
			c.nontrivial();
		for(uint32_t k = 0; k < count; k++)
		{
			int const con = r.at<int8_t>(k * 3);
			int const loc = r.at<int8_t>(k * 3 + 1);
			int const seq = r.at<int8_t>(k * 3 + 2);
			CHECK((con == 0 || con == 1) &&
			          ((loc == 0x4 && seq >= 0 && seq < 7) ||
			           (loc == 0x8 && seq >= 0 && seq < 8)),
			      "the core reads the zone ", con, " ", loc, " ", seq);
			uint32_t const bit = static_cast<uint32_t>(
				seq + (loc == 0x8 ? 8 : 0) + (con == replier ? 0 : 16));
			CHECK(bit == open[choice[k]], "the core reads the zone of bit ",
			      bit, " instead of ", open[choice[k]]);
		}
		break;
	}
	case ProtoRequest::kSort:
	{
		auto const n = static_cast<uint32_t>(req.sort().places_size());
		if(n == 0 || s.chance(1, 5))
		{
			a.mutable_sort()->set_skip(true);
			auto const r = decode(req, a, s);
			c.label("skip");
			CHECK(r.at<int8_t>(0) == -1, "skip: the core reads ",
			      static_cast<int>(r.at<int8_t>(0)));
			break;
		}
		auto const order = gen_choice(s, n, n);
		for(auto const i : order)
			a.mutable_sort()->mutable_indexes()->add_values(i);
		if(n > 1)
			c.nontrivial();
		// The count, and the indexes after it (see DESIGN.md).
		auto const r = decode(req, a, s);
		CHECK_EQ(r.size(), n + 1U);
		CHECK_EQ(static_cast<uint32_t>(r.at<uint8_t>(0)), n);
		for(uint32_t i = 0; i < n; i++)
			CHECK(r.at<uint8_t>(1 + i) == order[i], "sorted card ", i, " is ",
			      static_cast<int>(r.at<uint8_t>(1 + i)), " instead of ",
			      order[i]);
		break;
	}
	case ProtoRequest::kSelectIdle:
	{
		auto const& idle = req.select_idle();
		bool const battle = idle.is_battle_cmd();
		// What the core takes each type of action to be, and its options.
		struct Option
		{
			Answer::SelectIdle::Action action;
			uint32_t type;
			uint32_t index;
		};
		std::vector<Option> options;
		auto add = [&](Answer::SelectIdle::Action action, uint32_t type, int n)
		{
			for(int i = 0; i < n; i++)
				options.push_back({action, type, static_cast<uint32_t>(i)});
		};
		if(battle)
		{
			add(Answer::SelectIdle::ACTION_ACTIVATE, 0,
			    idle.activable_cards_size());
			add(Answer::SelectIdle::ACTION_ATTACK, 1,
			    idle.can_attack_cards_size());
			if((idle.available_phase() & 0x100U) != 0)
				add(Answer::SelectIdle::ACTION_PHASE, 2, 1);
			if((idle.available_phase() & 0x200U) != 0)
				add(Answer::SelectIdle::ACTION_PHASE, 3, 1);
		}
		else
		{
			add(Answer::SelectIdle::ACTION_SUMMON, 0,
			    idle.summonable_cards_size());
			add(Answer::SelectIdle::ACTION_SPSUMMON, 1,
			    idle.spsummonable_cards_size());
			add(Answer::SelectIdle::ACTION_REPOSITION, 2,
			    idle.repositionable_cards_size());
			add(Answer::SelectIdle::ACTION_MSET, 3, idle.msetable_cards_size());
			add(Answer::SelectIdle::ACTION_SSET, 4, idle.ssetable_cards_size());
			add(Answer::SelectIdle::ACTION_ACTIVATE, 5,
			    idle.activable_cards_size());
			if((idle.available_phase() & 0x80U) != 0)
				add(Answer::SelectIdle::ACTION_PHASE, 6, 1);
			if((idle.available_phase() & 0x200U) != 0)
				add(Answer::SelectIdle::ACTION_PHASE, 7, 1);
			if(idle.can_shuffle())
				add(Answer::SelectIdle::ACTION_SHUFFLE, 8, 1);
		}
		if(options.empty())
			break;
		c.nontrivial();
		auto const& o = s.pick(options);
		auto* answer = a.mutable_select_idle();
		if(o.action == Answer::SelectIdle::ACTION_PHASE)
			answer->set_phase(o.type == 2   ? 0x100U
			                  : o.type == 6 ? 0x80U
			                                : 0x200U);
		else if(o.action == Answer::SelectIdle::ACTION_SHUFFLE)
			answer->set_shuffle(true);
		else
		{
			answer->mutable_card_action()->set_action(o.action);
			answer->mutable_card_action()->set_index(o.index);
		}
		auto const r = decode(req, a, s);
		uint32_t const v = r.at<uint32_t>(0);
		CHECK(r.size() >= 4 && (v & 0xFFFFU) == o.type && v >> 16U == o.index,
		      battle ? "battle" : "idle", " command: the core reads type ",
		      v & 0xFFFFU, " index ", v >> 16U, " instead of ", o.type, " ",
		      o.index);
		break;
	}
	default:
		pbt::fail("request of no kind");
	}
	LOG(c, "answer ", text(a));
}

void run_c13(Src& s, Case& c)
{
	MockContext ctx;
	if(s.chance(1, 30))
	{
		// The core asks for the name of a card: there is no message for it
		// yet, but its answer is the code of the card.
		Answer a;
		ProtoRequest req;
		req.set_replier(static_cast<int>(s.below(2)));
		req.mutable_select_card_code();
		uint32_t const code = s.u32();
		a.set_select_card_code(code);
		c.nontrivial();
		c.label("name of a card");
		expect_i32(decode(req, a, s), code, "name of a card");
		return;
	}
	NamedGen const& g = pick_gen(s, REQUESTS);
	CoreMsg const m = make(s, ctx, g);
	log_msg(c, m);
	answer_request(s, c, m, encoded_request(m));
}

// Several threads read the same bytes and answer the same request, for
// shared_properties (see threads.cpp).
void shared_request(Src& s, Case& c)
{
	MockContext ctx;
	CoreMsg const m = make(s, ctx, pick_gen(s, REQUESTS));
	log_msg(c, m);
	ProtoRequest const req = encoded_request(m);
	size_t const n = 2 + s.below(2);
	std::vector<Src> src(n);
	std::vector<Case> cases(n);
	for(auto& x : src)
		x.rng.s = s.draw(1ULL << 40U);
	pbt::in_threads(n,
	                [&](size_t i)
	                {
						CHECK(same_msg(encoded_request(m), req),
		                      "encoded in another way");
						answer_request(src[i], cases[i], m, req);
					});
}

} // namespace

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C08",
	     "One to six core messages of all types, with edge-biased values, "
	     "lists of any length and random contexts, each encoded from a buffer "
	     "of its exact size, at another offset before other bytes, before set "
	     "bits, and in one stream. Non-trivial: some message has content of "
	     "variable length.",
	     54000, 1350000, run_c08},
		{"C09",
	     "One to six event messages of the core with edge-biased values in a "
	     "random context, with moves depending on earlier ones; the encoded "
	     "message, or the piles after its splices, compared with what was "
	     "written. Non-trivial: a list, or a context with a history.",
	     180000, 6600000, run_events},
		{"C10",
	     "A request message of the core with edge-biased values and lists of "
	     "any length, compared with what was written. Non-trivial: has a list "
	     "that isn't empty.",
	     315000, 5400000,
	     [](Src& s, Case& c) { run_single(s, c, REQUESTS); }},
		{"C11",
	     "A query, of a card or a whole location with empty entries, of any "
	     "subset of fields (also unknown ones) in or out of order, compared "
	     "with what was written. Non-trivial: has some field.",
	     80000, 2400000, run_c11},
		{"C13",
	     "A request of any kind with random options, and a random valid "
	     "answer to what was encoded for it, read back as the core does. "
	     "Non-trivial: the choice isn't just the first or only one.",
	     200000, 3000000, run_c13},
		{"shared request", "", 0, 0, shared_request},
	};
}
