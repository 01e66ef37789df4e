From 5fd6d70d6de99eaebb3b0581799cefb01edee756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 01/14] fix: choose bits of types wider than 32 bits and no bit
 when asked for 0

The selector was always a 32-bit 1 shifted by up to 63, and choosel always
examined the most significant bit before looking at the count.
---
 include/ygopen/bit.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index bf98a79..f377c45 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -45,11 +45,9 @@ template<typename T>
 	static_assert(std::is_unsigned_v<T>);
 	T chosen = 0U;
 	unsigned i = std::numeric_limits<T>::digits;
-	while(i != 0U)
+	while(i != 0U && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << (i - 1U));
-		if(popcnt(chosen) >= count)
-			break;
+		chosen |= static_cast<T>(x & (T{1U} << (i - 1U)));
 		i--;
 	}
 	return chosen;
@@ -65,7 +63,7 @@ template<typename T>
 	unsigned i = 0;
 	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << i);
+		chosen |= static_cast<T>(x & (T{1U} << i));
 		i++;
 	}
 	return chosen;
-- 
2.43.0


From 6fffc424e6c6d2344c427e0f4f9aba7dd7a57aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 02/14] fix: swap the material that was asked for when the
 first place is one

card_swap indexed the materials with the zone's sequence.
---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 2d99318..caf5cb1 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -397,11 +397,11 @@ public:
 			}
 			else if(!is_a_not_mat && is_b_not_mat)
 			{
-				std::swap(za.materials[a.seq()], zb.card);
+				std::swap(za.materials[a.oseq()], zb.card);
 			}
 			else // !is_a_not_mat && !is_b_not_mat
 			{
-				std::swap(za.materials[a.seq()], zb.materials[b.oseq()]);
+				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
 			}
 		}
 	}
-- 
2.43.0


From b5554b63cfc2b269aa543b0b423678264ff3228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 03/14] fix: keep the cards that a shrinking pile_resize
 removes

The slice started at the number of removed cards instead of at the new
size, keeping the wrong cards or writing past the end of the slice.
---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index b7cd24f..17c4cab 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -99,7 +99,7 @@ public:
 		{
 			size_t diff = p.size() - count;
 			rsz_op.slice.resize(diff);
-			std::copy(p.cbegin() + diff, p.cend(), rsz_op.slice.begin());
+			std::copy(p.cbegin() + count, p.cend(), rsz_op.slice.begin());
 			p.resize(count);
 		}
 		assert(p.size() == count);
-- 
2.43.0


From 33a5b5b1c1ecb16ac1698c0c4cfb0a0b28509357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 04/14] fix: start encode contexts without a match win reason

The member was left uninitialized, so a duel that didn't win the match
reported a garbage reason.
---
 include/ygopen/server/basic_encode_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index dedac39..cff9f9a 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -99,7 +99,7 @@ private:
 
 	BoardType board_;
 
-	uint32_t match_win_reason_;
+	uint32_t match_win_reason_{};
 	std::map<Place, Place, YGOpen::Proto::Duel::PlaceLess> left_;
 	std::vector<Place> deferred_;
 };
-- 
2.43.0


From 587843533b9bfbdcd714991a3bc52c929b31fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 05/14] fix: reload materials on the field and pendulum zones
 in those zones

Their place still had the core's spell zone sequence (5 to 7).
---
 src/codec/edo9300_ocgcore_encode.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c32e1cd..03a7d1c 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -889,18 +889,11 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 					if(read<uint8_t>(data, "has card") == 0U)
 						continue;
 					skip<CSPos>(data, "position (current)");
-					if(loc == LOCATION_SPELL_ZONE)
-					{
-						auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
-						add_one(f_loc, f_seq, OSEQ_INVALID);
-					}
-					else
-					{
-						add_one(loc, seq, OSEQ_INVALID);
-					}
+					auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
+					add_one(f_loc, f_seq, OSEQ_INVALID);
 					auto const mats = read<CCount>(data, "xyz mats count");
 					for(CCount oseq = 0U; oseq < mats; oseq++)
-						add_one(loc, seq, static_cast<COSeq>(oseq));
+						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
 				}
 			};
 			auto add_pile = [&](Location loc, CCount count)
-- 
2.43.0


From 8c95d20fff07bbe3e1693ee525a0d473ac50d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 06/14] fix: don't read past the extra deck bits of
 MSG_SWAP_GRAVE_DECK

---
 src/codec/edo9300_ocgcore_encode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 03a7d1c..0ecb0c3 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -1536,7 +1536,7 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 		for(CCount i = 0U; i < gy_size; i++)
 		{
 			// NOLINTNEXTLINE: Check if the nth bit of the buffer is set (true).
-			if(!!(data[i / 8U] & (1U << (i % 8U))))
+			if(i / 8U < buffer_size && !!(data[i / 8U] & (1U << (i % 8U))))
 			{
 				if(splice_size++ == 0U)
 					splice_seq = i;
-- 
2.43.0


From ab9d43316a7ed67ae46ea00fb15755414bb2b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 07/14] fix: answer field and pendulum zone selections with the
 core's zones

Their locations don't fit in the answer's byte: they were truncated to 0.
---
 src/codec/edo9300_ocgcore_decode.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 1270796..0ea9b5d 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -6,6 +6,7 @@
 #include "ygopen/codec/edo9300_ocgcore_decode.hpp"
 
 #include <cstring>
+#include <ygopen/duel/constants/location.hpp>
 #include <ygopen/duel/constants/phase.hpp>
 #include <ygopen/proto/duel/answer.hpp>
 #include <ygopen/proto/duel/msg.hpp>
@@ -217,9 +218,22 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 		auto* ptr = out.data();
 		for(auto const& p : places)
 		{
+			// The core places these in the spell zone, see fix_spell_loc_seq.
+			auto loc = p.loc();
+			auto seq = p.seq();
+			if(loc == YGOpen::Duel::LOCATION_FIELD_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 5U;
+			}
+			else if(loc == YGOpen::Duel::LOCATION_PENDULUM_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 6U;
+			}
 			write(ptr, static_cast<int8_t>(p.con()));
-			write(ptr, static_cast<int8_t>(p.loc()));
-			write(ptr, static_cast<int8_t>(p.seq()));
+			write(ptr, static_cast<int8_t>(loc));
+			write(ptr, static_cast<int8_t>(seq));
 		}
 		break;
 	}
-- 
2.43.0


From b6a145c3ce92507f4d2963ca33b5c9c8c68fed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 08/14] fix: don't refer to a material when a pile is shuffled

---
 src/codec/edo9300_ocgcore_encode.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 0ecb0c3..44ea606 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -558,6 +558,7 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 		auto* place = meta->mutable_shuffle_pile()->add_places();
 		place->set_con(read_con(data));
 		place->set_loc(LOCATION_MAIN_DECK);
+		place->set_oseq(OSEQ_INVALID);
 		break;
 	}
 	case MSG_SHUFFLE_HAND:
@@ -566,6 +567,7 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 		auto* place = meta->mutable_shuffle_pile()->add_places();
 		place->set_con(read_con(data));
 		place->set_loc(LOCATION_HAND);
+		place->set_oseq(OSEQ_INVALID);
 		auto const count = read<CCount>(data, ".size()");
 		for(CCount i = 0; i < count; i++)
 			skip<CCode>(data, "card code ", static_cast<int>(i));
@@ -597,6 +599,7 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 		auto* place = meta->mutable_shuffle_pile()->add_places();
 		place->set_con(read_con(data));
 		place->set_loc(LOCATION_EXTRA_DECK);
+		place->set_oseq(OSEQ_INVALID);
 		auto const count = read<CCount>(data, ".size()");
 		for(CCount i = 0; i < count; i++)
 			skip<CCode>(data, "card code ", static_cast<int>(i));
-- 
2.43.0


From acace5fb75330d996299f7025ad1f6e0798004ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 09/14] fix: keep the order of materials that are reattached in
 the same zone

The core renumbers the remaining materials after each one leaves, so for a
rank-up in place every material was at 0 and kept being moved to the back.
---
 src/codec/edo9300_ocgcore_encode.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 44ea606..80bbb65 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -1425,13 +1425,20 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 			card->set_reason(reason);
 			// Add operations for deferred attachments (if any).
 			int32_t i = 0U;
-			for(auto const& def : context.take_deferred_xyz_mat())
+			for(auto def : context.take_deferred_xyz_mat())
 			{
 				auto const oseq = i++;
-				// Skip no-ops.
 				if(def.con() == curr.con() && def.loc() == curr.loc() &&
-				   def.seq() == curr.seq() && def.oseq() == oseq)
-					continue;
+				   def.seq() == curr.seq() && def.oseq() >= 0)
+				{
+					// The materials deferred before this one have already left
+					// this zone for the core, but not for us: we attached them
+					// to the front of it.
+					def.set_oseq(def.oseq() + oseq);
+					// Skip no-ops.
+					if(def.oseq() == oseq)
+						continue;
+				}
 				auto* op = card->mutable_move()->add_ops();
 				auto* old_place = op->mutable_old_place();
 				auto* new_place = op->mutable_new_place();
-- 
2.43.0


From 03fd348af2660049392cdb64daadb36ae957f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 10/14] fix: block the disabled zones of MSG_FIELD_DISABLED
 instead of the rest

---
 src/codec/edo9300_ocgcore_encode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 80bbb65..d6b8d63 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -646,7 +646,8 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 	case MSG_FIELD_DISABLED:
 	{
 		auto* zone_block = create_event()->mutable_zone_block();
-		unpack_zones(read<CField>(data, "zones"), 0U,
+		// NOTE: Unlike requests, set bits are the zones we are looking for.
+		unpack_zones(~read<CField>(data, "zones"), 0U,
 		             [&]() { return zone_block->add_zones(); });
 		break;
 	}
-- 
2.43.0


From 8402ee50d86a44713f091c3c03be31ea7e6910b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 11/14] fix: apply and undo pile resizes on their own

---
 include/ygopen/client/parse_event.hpp      | 6 ++++++
 include/ygopen/client/undo_parse_event.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ygopen/client/parse_event.hpp b/include/ygopen/client/parse_event.hpp
index e4f4c89..1aaea31 100644
--- a/include/ygopen/client/parse_event.hpp
+++ b/include/ygopen/client/parse_event.hpp
@@ -236,6 +236,12 @@ auto parse_event(Board& board, Proto::Duel::Msg::Event const& event) noexcept
 		auto& frame = board.frame();
 		switch(pile.t_case())
 		{
+		case Msg::Event::Pile::kResize:
+		{
+			for(auto const& op : pile.resize().ops())
+				frame.pile_resize(op.place(), op.count());
+			break;
+		}
 		case Msg::Event::Pile::kSplice:
 		{
 			for(auto const& op : pile.splice().ops())
diff --git a/include/ygopen/client/undo_parse_event.hpp b/include/ygopen/client/undo_parse_event.hpp
index 6e1316a..47693d4 100644
--- a/include/ygopen/client/undo_parse_event.hpp
+++ b/include/ygopen/client/undo_parse_event.hpp
@@ -174,6 +174,12 @@ auto undo_parse_event(UndoableBoard& board,
 		auto& frame = board.frame();
 		switch(pile.t_case())
 		{
+		case Msg::Event::Pile::kResize:
+		{
+			for(auto const& op : reverse(pile.resize().ops()))
+				frame.undo_pile_resize(op.place(), op.count());
+			break;
+		}
 		case Msg::Event::Pile::kSplice:
 		{
 			for(auto const& op : reverse(pile.splice().ops()))
-- 
2.43.0


From aab58c15965c136c4faf2fb572b62e0de427ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 12/14] fix: answer race announcements with all of their bits

---
 src/codec/edo9300_ocgcore_decode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 0ea9b5d..80f01cb 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -177,7 +177,10 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 	}
 	case Answer::kSelectRace:
 	{
-		response_i(answer.select_race());
+		// NOTE: Unlike other responses, races take 64 bits.
+		out.resize(sizeof(uint64_t));
+		auto* ptr = out.data();
+		write(ptr, static_cast<uint64_t>(answer.select_race()));
 		break;
 	}
 	case Answer::kSelectRockPaperScissors:
-- 
2.43.0


From d2c34ae32668dba0f23243309e67e53b1c60a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 13/14] fix: a room kept every event it ever sent

Events were made in an arena that lives as long as the room and is never
reset, so each signal of anybody in it made the room grow.
---
 include/ygopen/server/room.hpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/ygopen/server/room.hpp b/include/ygopen/server/room.hpp
index 3ff9b23..0c40e1c 100644
--- a/include/ygopen/server/room.hpp
+++ b/include/ygopen/server/room.hpp
@@ -6,7 +6,7 @@
 #ifndef YGOPEN_SERVER_ROOM_HPP
 #define YGOPEN_SERVER_ROOM_HPP
 #include <array>
-#include <google/protobuf/arena.h>
+#include <memory>
 #include <set>
 #include <utility>
 #include <ygopen/detail/config.hpp>
@@ -167,8 +167,6 @@ private:
 	Teams teams_;
 	std::set<ClientType*> spectators_;
 
-	google::protobuf::Arena arena_;
-
 	struct Configuring
 	{
 		using SignalType = RoomSignal::Configuring;
@@ -185,11 +183,9 @@ private:
 	};
 	std::variant<std::monostate, Configuring, DecidingFirstTurn> states_;
 
-	auto event_() noexcept -> RoomEvent*
+	static auto event_() noexcept -> std::unique_ptr<RoomEvent>
 	{
-		auto* re = google::protobuf::Arena::Create<RoomEvent>(&arena_);
-		assert(re != nullptr);
-		return re;
+		return std::make_unique<RoomEvent>();
 	}
 
 	auto send_team_(uint8_t team, RoomEvent const& event) noexcept -> void
@@ -251,7 +247,7 @@ private:
 		//         * Re-check Client decks.
 
 		// TODO: Set all ready statuses to false.
-		auto* e = event_();
+		auto const e = event_();
 		e->mutable_configuring()->mutable_entering_state();
 		send_all_(*e);
 	}
@@ -271,13 +267,13 @@ private:
 		auto send_choose_signal = [&](ClientType& client)
 		{
 			// TODO: 10s timer?
-			auto* e = event_();
+			auto const e = event_();
 			e->mutable_deciding_first_turn()->set_decide_first_turn(true);
 			state.first_turn_decider = &client;
 			client.send(*e);
 		};
 		{
-			auto* e = event_();
+			auto const e = event_();
 			e->mutable_deciding_first_turn()->mutable_entering_state();
 			send_all_(*e);
 		}
@@ -295,7 +291,7 @@ private:
 			{
 				return (rng_() % 6) + 1; // NOLINT: Six-sided die.
 			};
-			auto* e = event_();
+			auto const e = event_();
 			auto* dftr = e->mutable_deciding_first_turn()->mutable_result();
 			auto* d = dftr->mutable_dice();
 			for(;;)
@@ -316,7 +312,7 @@ private:
 		}
 		case FTDM::FTDM_COIN:
 		{
-			auto* e = event_();
+			auto const e = event_();
 			auto* dftr = e->mutable_deciding_first_turn()->mutable_result();
 			auto const winner = uint32_t{rng_() % 2U};
 			dftr->set_team_going_first(winner);
@@ -382,7 +378,7 @@ private:
 			search.slot = &teams_[search.team][search.pos];
 			return search;
 		};
-		auto* e = event_();
+		auto const e = event_();
 		auto* es = e->mutable_configuring()->mutable_entering_state();
 		*es->mutable_options() = options_;
 		{ // Populate duelists
@@ -410,7 +406,7 @@ private:
 		es->set_spectator_count(spectators_.size());
 		peer.send(*e);
 		auto const search = find_empty_duelist_slot();
-		auto* e2 = event_();
+		auto const e2 = event_();
 		if(search.slot != nullptr)
 		{
 			search.slot->client = &peer;
@@ -473,7 +469,7 @@ private:
 			if(search.slot == nullptr)
 				break;
 			auto const& deck = signal.update_deck();
-			auto* e = event_();
+			auto const e = event_();
 			auto* ds = e->mutable_configuring()->mutable_deck_status();
 			auto* de = ds->mutable_deck_error();
 			// TODO: Handle custom banlist.
@@ -505,7 +501,7 @@ private:
 				break;
 			}
 			search.slot->ready = new_status;
-			auto* e = event_();
+			auto const e = event_();
 			auto* msg = e->mutable_configuring()->mutable_update_duelist();
 			msg->set_team(search.team);
 			msg->set_pos(search.pos);
@@ -567,7 +563,7 @@ private:
 			auto const chosen_team = signal.team_going_first();
 			if(chosen_team > 1)
 				break;
-			auto* e = event_();
+			auto const e = event_();
 			auto* r = e->mutable_deciding_first_turn()->mutable_result();
 			r->set_team_going_first(chosen_team);
 			send_all_(*e);
-- 
2.43.0


From 76b6c91d7d7310779fd591a67c6fe35a8c33c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 14/14] fix: copies of undoable values pointed into the
 original

The iterator to the current entry was copied as is, so that a copy followed
(or outlived) the history of the value it was made from.
---
 include/ygopen/client/undoable.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/ygopen/client/undoable.hpp b/include/ygopen/client/undoable.hpp
index a7d5cc0..77fb54c 100644
--- a/include/ygopen/client/undoable.hpp
+++ b/include/ygopen/client/undoable.hpp
@@ -5,6 +5,7 @@
  */
 #ifndef YGOPEN_CLIENT_UNDOABLE_HPP
 #define YGOPEN_CLIENT_UNDOABLE_HPP
+#include <iterator>
 #include <list>
 
 namespace YGOpen::Client
@@ -23,6 +24,21 @@ public:
 		: values_(1U), current_(values_.cbegin())
 	{}
 
+	constexpr BasicUndoable(BasicUndoable const& other) noexcept
+		: values_(other.values_), current_(same_entry_(other))
+	{}
+
+	constexpr auto operator=(BasicUndoable const& other) noexcept
+		-> BasicUndoable&
+	{
+		if(this != &other)
+		{
+			values_ = other.values_;
+			current_ = same_entry_(other);
+		}
+		return *this;
+	}
+
 	[[nodiscard]] constexpr operator ValueType const&() const noexcept
 	{
 		return *current_;
@@ -90,6 +106,16 @@ public:
 private:
 	ContainerType values_;
 	typename ContainerType::const_iterator current_;
+
+	// Our counterpart of the entry where the other's history points at.
+	[[nodiscard]] constexpr auto
+	same_entry_(BasicUndoable const& other) const noexcept ->
+		typename ContainerType::const_iterator
+	{
+		auto const first = other.values_.cbegin();
+		return std::next(values_.cbegin(),
+		                 std::distance(first, other.current_));
+	}
 };
 
 } // namespace YGOpen::Client
-- 
2.43.0

