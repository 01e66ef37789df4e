#!/usr/bin/env python3
"""Development tool (no check uses it): applies small changes to a scratch copy
of /repo and tells which checks notice them. Not needed by MANIFEST.json.

usage: sensitivity.py [--scale X] [PREFIX...]
"""
import os, shutil, subprocess, sys, time

F = "include/ygopen/client/frame.hpp"
L = "include/ygopen/client/frame_limbo.hpp"
PE = "include/ygopen/client/parse_event.hpp"
UE = "include/ygopen/client/undo_parse_event.hpp"
PQ = "include/ygopen/client/parse_query.hpp"
QI = "include/ygopen/client/queries.inl"
UN = "include/ygopen/client/undoable.hpp"
CT = "include/ygopen/client/default_card_traits.hpp"
BO = "include/ygopen/client/board.hpp"
CX = "include/ygopen/server/basic_encode_context.hpp"
R = "include/ygopen/server/room.hpp"
B = "include/ygopen/bit.hpp"
D = "include/ygopen/proto/duel/data.hpp"
LO = "include/ygopen/duel/constants/location.hpp"
E = "src/codec/edo9300_ocgcore_encode.cpp"
A = "src/codec/edo9300_ocgcore_decode.cpp"

# name, checks expected to notice, file, old, new (old occurs once, or n-th
# occurrence given as a sixth item).
M = [
 ("f01", "C01", F, "std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);", "std::swap(za.materials[a.oseq()], za.materials[b.oseq() % za.materials.size()]);"),
 ("f02", "C01", F, "std::swap(z2.materials, z1.materials);", "if(get_con(from) == get_con(to)) std::swap(z2.materials, z1.materials);"),
 ("f03", "C01", F, "p.insert(p.begin() + index, c);", "p.insert(p.begin() + (index > 9 ? p.size() : index), c);"),
 ("f04", "C01", F, "if(reverse)", "if(reverse && count > 2)"),
 ("f05", "C01", F, "return static_cast<size_t>(place.oseq()) < z.materials.size();", "return static_cast<size_t>(place.oseq()) <= z.materials.size();"),
 ("f06", "C01", F, "std::swap(z.materials[a.oseq()], p[b.seq()]);", "std::swap(z.materials.back(), p[b.seq()]);"),
 ("f07", "C02", F, "destruct_pile(zone.materials);", "zone.materials.clear();"),
 ("f08", "C02", F, "destruct_zone_location(side.pendulum_);\n", "\n"),
 ("f09", "C02", F, "				destruct_card(*p.back());\n", "				if(i != 1 || count != 0) destruct_card(*p.back());\n"),
 ("f11", "C03", F, "			seqs[i] = seq;\n", "\n"),
 ("f12", "C03", F, "std::swap(zone(get_con(p), get_loc(p), seqs[i]), zone(p));", "std::swap(zone(get_con(p), get_loc(p), seqs[i]).card, zone(p).card);"),
 ("f13", "C01", F, "assert(z2.card == nullptr);\n				c = take_at_(z1.materials, from.oseq());", "c = take_at_(z1.materials, z1.materials.size() > 4 ? z1.materials.size() - 1 : from.oseq());"),
 ("f14", "C01", F, "std::swap(za.materials, zb.materials);", "if(za.materials.size() != zb.materials.size()) std::swap(za.materials, zb.materials);"),
 ("l01", "C04", L, "			p.resize(rsz_op.prev_size);", "			p.resize(p.size() - diff); if(diff > 3) std::reverse(rsz_op.slice.begin(), rsz_op.slice.end());"),
 ("l02", "C04", L, "		processed_op_ = op_;\n", "		processed_op_ = op_ - (op_ > 4 ? 1 : 0);\n"),
 ("l03", "C04", L, "operations_.resize(op_);", "operations_.resize(op_ + 1);"),
 ("l04", "C04", L, "swap_multi_pile(LOCATION_EXTRA_DECK, clear_op.extra_deck);", "for(auto con : {CONTROLLER_0, CONTROLLER_1}) if(!this->pile(con, LOCATION_EXTRA_DECK).empty()) std::swap(this->pile(con, LOCATION_EXTRA_DECK), clear_op.extra_deck[con]);"),
 ("l05", "C04", L, "		auto& c = *current_op_as_card_();\n		BaseFrame::card_insert(place, c);\n		assert(this->has_card(place));\n		return c;", "		auto& c = BaseFrame::card_add(place);\n		return c;"),
 ("l06", "C04", L, "		rsz_op.prev_size = p.size();\n", "		if(processing) rsz_op.prev_size = p.size(); else rsz_op.prev_size = count;\n"),
 ("l07", "C02", L, "		auto& c = BaseFrame::card_erase(place);\n		if(advance_op_())", "		auto& c = BaseFrame::card_erase(place);\n		if(op_ > 6 && op_ != processed_op_) { BaseFrame::destruct_card(c); op_++; return; }\n		if(advance_op_())"),
 ("p01", "C05", PE, "lpv = (lpv < lp.pay()) ? 0 : lpv - lp.pay();", "lpv = lpv - lp.pay();"),
 ("p02", "C05", PE, "		board.turn_controller() = Controller{event.next_turn()};", "		board.turn_controller() = Controller{next_turn & 1U};"),
 ("p03", "C05", PE, "			board.chain_stack().assign(chains.cbegin(), chains.cend());", "			if(!chains.empty()) board.chain_stack().assign(chains.cbegin(), chains.cend());"),
 ("p04", "C05", PE, "tc >= 0)", "tc > 0)"),
 ("p05", "C05", PE, "			frame.clear();\n", "			if(state.has_add()) frame.clear();\n"),
 ("p06", "C05", PE, "			for(auto const& op : exchange.resize().ops())\n				frame.pile_resize(op.place(), op.count());\n			for(auto const& place : exchange.remove().places())\n				frame.card_remove(place);", "			for(auto const& place : exchange.remove().places())\n				frame.card_remove(place);\n			for(auto const& op : exchange.resize().ops())\n				frame.pile_resize(op.place(), op.count());"),
 ("p07", "C05", PE, "lpv = (lpv < lp.damage()) ? 0 : lpv - lp.damage();", "lpv = (int32_t(lpv) < int32_t(lp.damage())) ? 0 : lpv - lp.damage();"),
 ("p08", "C05", PE, "board.blocked_zones().assign(zones.cbegin(), zones.cend());", "if(!zones.empty()) board.blocked_zones().assign(zones.cbegin(), zones.cend());"),
 ("p09", "C05", PE, "	case Msg::Event::kFinish:", "	case Msg::Event::kFinish: board.blocked_zones().assign(event.zone_block().zones().cbegin(), event.zone_block().zones().cend()); break;"),
 ("u01", "C06", UE, "for(auto const& op : reverse(card.move().ops()))", "for(auto const& op : card.move().ops())"),
 ("u02", "C06", UE, "for(auto con : {CONTROLLER_1, CONTROLLER_0})\n				board.lp(con).undo();", "board.lp(CONTROLLER_1).undo();"),
 ("u03", "C06", UE, "tc >= 0)", "tc > 0)"),
 ("u04", "C06", UE, "for(auto const& op : reverse(pile.splice().ops()))", "for(auto const& op : pile.splice().ops())"),
 ("u05", "C06", UE, "		board.turn_controller().undo();\n", "		if(board.turn() != 0) board.turn_controller().undo();\n"),
 ("u06", "C06", UE, "for(auto const& place : reverse(exchange.add().places()))\n				frame.undo_card_add(place); // Conceptify\n			for(auto const& place : reverse(exchange.remove().places()))\n				frame.undo_card_remove(place);", "for(auto const& place : reverse(exchange.add().places()))\n				frame.undo_card_add(place); // Conceptify\n			for(auto const& place : exchange.remove().places())\n				frame.undo_card_remove(place);"),
 ("u07", "C06", UE, "frame.pile_splice(op.to(), op.count(), op.from(), op.reverse());", "frame.pile_splice(op.to(), op.count(), op.from(), op.reverse() && op.from().loc() != op.to().loc());"),
 ("u08", "C06", UE, "for(auto const& op : reverse(card.exchange().ops()))", "for(auto const& op : card.exchange().ops())"),
 ("q01", "C07", QI, "X(BASE_ATTACK, BaseAtk, base_atk, 0x400)", "X(BASE_ATTACK, BaseAtk, base_atk, 0x800)"),
 ("q02", "C07", PQ, "			if(card.name() == qv)                                       \\", "			if(card.name() == qv || qv == ValueType{})                                       \\"),
 ("q03", "C07", PQ, "	if(data.has_targets())", "	if(data.has_targets() && data.targets().values_size() != 0)"),
 ("q04", "C07", CT, "struct DefaultCardTrait<0x80000>\n{\n	using Type = YGOpen::Duel::Status;", "struct DefaultCardTrait<0x80000>\n{\n	using Type = uint16_t;"),
 ("q05", "C07", CT, "struct DefaultCardTrait<0x10>\n{\n	using Type = int32_t;", "struct DefaultCardTrait<0x10>\n{\n	using Type = int16_t;"),
 ("q06", "C07", PQ, "hits |= (QueryCacheHit::NAME);", "hits = (QueryCacheHit::NAME);"),
 ("q07", "C07", PQ, "		auto const& rf = data.counters().values();\n		card.counters().assign(rf.cbegin(), rf.cend());", "		auto const& rf = data.counters().values();\n		card.counters().assign(rf.cbegin(), rf.cend() - (rf.size() > 5));"),
 ("e01", "C08", E, "skip(data, size - sizeof(CQFlag), \"unknown query type: \", flag);", "skip(data, size, \"unknown query type: \", flag);"),
 ("e02", "C08", E, "skip(data, read<uint16_t>(data, \"name length\") + 1U, \"ai name\");", "skip(data, static_cast<uint8_t>(read<uint16_t>(data, \"name length\")) + 1U, \"ai name\");"),
 ("e03", "C08", E, "skip(data, buffer_size, \"extra deck buffer bit's length\");", "skip(data, (gy_size + 7U) / 8U, \"extra deck buffer bit's length\");"),
 ("e04", "C08", E, "if(i / 8U < buffer_size && !!(data[i / 8U] & (1U << (i % 8U))))", "if(i / 8U <= buffer_size && !!(data[i / 8U] & (1U << (i % 8U))))"),
 ("e06", "C08", E, "		skip<uint8_t>(data, \"hint type\");", "		if(read<uint8_t>(data, \"hint type\") == 201U) skip<uint8_t>(data);"),
 ("e07", "C08", E, "	case MSG_ATTACK_DISABLED:\n	{\n		set_state_swallowed();", "	case MSG_ATTACK_DISABLED:\n	{\n"),
 ("e09", "C11", E, "counter.set_count(c >> 16U);   // NOLINT", "counter.set_count((c >> 16U) & 0xFFU);   // NOLINT"),
 ("e10", "C09", E, "effect.set_index(ed & 0xFFFFFU);", "effect.set_index(ed & 0xFFFFU);"),
 ("e11", "C09", E, "effect.set_code(ed >> 20U);", "effect.set_code(static_cast<uint32_t>(ed) >> 20U);"),
 ("e12", "C09", E, "if((loc & LOCATION_SPELL_ZONE) != 0 && seq > SPELL_ZONE_LIMIT)", "if((loc & LOCATION_SPELL_ZONE) != 0 && seq >= SPELL_ZONE_LIMIT + (seq == 7))"),
 ("e13", "C09", E, "static_cast<Phase>(read<uint16_t>(data)));", "static_cast<Phase>(read<uint8_t>(data))); skip<uint8_t>(data);"),
 ("e14", "C09", E, "if(attack_target->loc() == 0U)", "if(attack_target->loc() == 0U || attack_target->seq() == 6U)"),
 ("e15", "C09", E, "rps->add_values(to_rps((hands_results >> 2U) & 0x3U));", "rps->add_values(to_rps((hands_results >> 2U) & 0x1U));"),
 ("e16", "C09", E, "if(winner != 2U)", "if(winner == 0U)"),
 ("e17", "C09", E, "from->set_seq(context.pile_size(con, get_loc(*from)) - count);", "from->set_seq(context.pile_size(CONTROLLER_0, get_loc(*from)) - count);"),
 ("e18", "C09", E, "place->set_seq(size - 1U - read<CSeq>(data, \"sequence\"));", "place->set_seq(size - read<CSeq>(data, \"sequence\"));"),
 ("e19", "C09,C14", E, "old_place->set_oseq(oseq);\n			*op->mutable_new_place() = curr;", "old_place->set_oseq(0);\n			*op->mutable_new_place() = curr;"),
 ("e20", "C09,C14", E, "if(!is_pile(prev) && is_pile(curr) && context.has_xyz_mat(prev))", "if(!is_pile(prev) && is_pile(curr) && prev.loc() == LOCATION_MONSTER_ZONE && prev.seq() < 5U && context.has_xyz_mat(prev))"),
 ("e21", "C09", E, "from->set_seq(splice_seq - sent_to_extra);", "from->set_seq(splice_seq);"),
 ("e22", "C09", E, "to->set_seq(extra_deck_insert_pos + sent_to_extra);", "to->set_seq(extra_deck_insert_pos);"),
 ("e23", "C09", E, "			return static_cast<RockPaperScissors>(v);", "			return static_cast<RockPaperScissors>(v == 3 ? 0 : v);"),
 ("e25", "C10", E, "(read<uint8_t>(data, \"spe_count\") & 0x7FU) > 0U;", "read<uint8_t>(data, \"spe_count\") > 0U;"),
 ("e26", "C10", E, "read_loc_info<CSLoc, CSeq, void>(data, *card.mutable_place());\n			card.set_count_as(read<uint8_t>(data, \"release_param\"));", "read_loc_info<CSLoc, CSeq, void>(data, *card.mutable_place());\n			card.set_count_as(read<uint8_t>(data, \"release_param\") & 0xFU);"),
 ("e27", "C10", E, "select_zone->set_blocking(core_msg == MSG_SELECT_DISFIELD);", "select_zone->set_blocking(core_msg == MSG_SELECT_PLACE);"),
 ("e28", "C10", E, "iterate_half(1U - invert, FIELD_HALF);", "iterate_half(1U, FIELD_HALF);"),
 ("e30", "C10", E, "			phases |= PHASE_BATTLE;", "			phases |= PHASE_BATTLE_START;"),
 ("e31", "C10", E, "select_number->add_numbers(read<uint64_t>(data));", "select_number->add_numbers(static_cast<uint32_t>(read<uint64_t>(data)));"),
 ("e32", "C10", E, "select_position->set_position(read_pos<CSPos>(data));", "select_position->set_position(read_pos<CSPos>(data) & 0x7U);"),
 ("e33", "C10", E, "return read<uint64_t>(ptr, \"race\");", "{ auto v = read<uint64_t>(ptr, \"race\"); return v & 0x7FFFFFFFFFFFFFFFU; }"),
 ("e35", "C10", E, "recursive->set_can_finish(read_bool(data, \"can finish\"));\n		recursive->set_accept(read_bool(data, \"accept or cancel\"));", "recursive->set_accept(read_bool(data, \"accept or cancel\"));\n		recursive->set_can_finish(read_bool(data, \"can finish\"));"),
 ("e36", "C10", E, "			limbo->set_can_cancel(can_cancel);", "			limbo->set_can_cancel(can_cancel && min == 0);"),
 ("e37", "C11", E, "				read_size += sizeof(CQSize);\n				continue;", "				read_size += sizeof(CQSize);\n				if(location == LOCATION_HAND) i--;\n				continue;"),
 ("e38", "C11", E, "q.mutable_link_rate()->set_value(read<int32_t>(data, \"link_rate\"));\n			q.mutable_link_arrow()->set_value(read_link_arrow(data));", "q.mutable_link_arrow()->set_value(read_link_arrow(data));\n			q.mutable_link_rate()->set_value(read<int32_t>(data, \"link_rate\"));"),
 ("e39", "C11", E, "q.mutable_status()->set_value(read_status(data));", "q.mutable_status()->set_value(read_status(data) & 0x7FFFFFFF);"),
 ("e40", "C11", E, "overlay_place->set_loc(loc_seq.first);\n				overlay_place->set_seq(loc_seq.second);", "overlay_place->set_loc(location);\n				overlay_place->set_seq(i);"),
 ("e41", "C11", E, "overlay_place->set_seq(place.seq());", "overlay_place->set_seq(place.seq() % 5);"),
 ("e44", "C12", E, "add_pile(LOCATION_GRAVEYARD, read<CCount>(data, \"graveyard\"));\n			add_pile(LOCATION_BANISHED, read<CCount>(data, \"banished\"));", "add_pile(LOCATION_BANISHED, read<CCount>(data, \"graveyard\"));\n			add_pile(LOCATION_GRAVEYARD, read<CCount>(data, \"banished\"));"),
 ("e45", "C12", E, "state->set_turn_counter(-1);", "state->set_turn_counter(0);"),
 ("e46", "C12", E, "op->set_reverse(true);\n		result.state = EncodeOneResult::State::OK;\n		break;\n	}\n	case MSG_REVERSE_DECK:", "op->set_reverse(count > 1U && count < 5U);\n		result.state = EncodeOneResult::State::OK;\n		break;\n	}\n	case MSG_REVERSE_DECK:"),
 ("e47", "C12", E, "		add_op(CONTROLLER_0);\n		add_op(CONTROLLER_1);", "		add_op(CONTROLLER_0);\n		if(context.pile_size(CONTROLLER_0, LOCATION_MAIN_DECK) != 0) add_op(CONTROLLER_1);"),
 ("e48", "C12", E, "add_pile(LOCATION_EXTRA_DECK, extra_size);\n", "if(extra_size) add_pile(LOCATION_EXTRA_DECK, extra_size);\n"),
 ("e49", "C14", E, "def.set_oseq(def.oseq() + oseq);", "def.set_oseq(def.oseq());"),
 ("e50", "C14", E, "new_place->set_oseq(oseq);", "new_place->set_oseq(0);"),
 ("e51", "C14", E, "			context.xyz_mat_defer(prev);\n", "			if(prev.oseq() < 0 || curr.loc() != LOCATION_BANISHED) context.xyz_mat_defer(prev);\n"),
 ("a01", "C13", A, "write(ptr, static_cast<int16_t>(index));", "write(ptr, static_cast<int16_t>(static_cast<int8_t>(index)));"),
 ("a02", "C13", A, "			response_i(8);", "			response_i(7);"),
 ("a03", "C13", A, "response_i(((s & 0xFFFFU) << 16U) | (t & 0xFFFFU));", "response_i(((s & 0xFFU) << 16U) | (t & 0xFFFFU));"),
 ("a04", "C13", A, "t = (request.select_idle().is_battle_cmd()) ? 0U : 5U;", "t = request.select_idle().can_attack_cards_size() ? 0U : 5U;"),
 ("a05", "C13", A, "write(ptr, static_cast<int8_t>(index));", "write(ptr, static_cast<int8_t>(index & 0xF));"),
 ("a06", "C13", A, "		case Answer::SelectCard::kFinish:\n", ""),
 ("a08", "C13", A, "response_i(answer.select_position());", "response_i(answer.select_position() & 0x7);"),
 ("a09", "C13", A, "write(ptr, static_cast<int8_t>(p.con()));", "write(ptr, static_cast<int8_t>(p.con() ^ request.replier()));"),
 ("r01", "C15", R, "v = std::clamp<uint32_t>(v, 1, std::tuple_size_v<Team>);", "v = std::min<uint32_t>(v, std::tuple_size_v<Team>);"),
 ("r02", "C15", R, "if((duelist_count[0] <= duelist_count[1] &&", "if((duelist_count[0] < duelist_count[1] + (duelist_count[1] == 0) &&"),
 ("r03", "C15", R, "max_duelists.Resize(teams_.size(), 1);", "if(max_duelists.empty()) max_duelists.Resize(teams_.size(), 1);\n		while(max_duelists.size() < 2) max_duelists.Add(max_duelists[0]);\n		max_duelists.Truncate(2);"),
 ("r04", "C16", R, "				search.slot->deck_valid = false;\n", ""),
 ("r05", "C16", R, "if(!s.deck_valid || !s.ready)", "if(!s.ready)"),
 ("r06", "C16", R, "					if(!has_atleast_one_duelist)\n						return false;", ""),
 ("r07", "C16", R, "			if(&peer != host_)\n				break;\n			auto const can_start", "			auto const can_start"),
 ("r08", "C17", R, "msg->set_pos(search.pos);\n			peer.fill_user(*msg->mutable_user());\n			msg->set_is_host(host_ == &peer);\n			msg->set_is_ready(new_status);", "msg->set_pos(0);\n			peer.fill_user(*msg->mutable_user());\n			msg->set_is_host(host_ == &peer);\n			msg->set_is_ready(new_status);"),
 ("r09", "C17", R, "						duelist.set_is_ready(s.ready);", "						duelist.set_is_ready(s.ready && s.deck_valid);"),
 ("r10", "C17", R, "				team++;\n				pos = 0;\n", "				team++;\n"),
 ("r11", "C17", R, "		es->set_spectator_count(spectators_.size());", "		es->set_spectator_count(spectators_.size() & 7U);"),
 ("r12", "C17", R, "			peer.send(*e);\n			break;\n		}\n		case SignalCases::kReadyStatus:", "			send_team_(search.team, *e);\n			break;\n		}\n		case SignalCases::kReadyStatus:"),
 ("r13", "C18", R, "return (rng_() % 6) + 1;", "return (rng_() % 5) + 1;"),
 ("r14", "C18", R, "auto const winner = uint32_t{r.team0() < r.team1()};", "auto const winner = uint32_t{r.team0() < r.team1() && d->results_size() < 3};"),
 ("r15", "C18", R, "			if(chosen_team > 1)\n				break;\n", ""),
 ("r16", "C18", R, "if(options_.ftdm() != FTDM::FTDM_HOST_CHOOSES || &peer != host_)", "if(&peer != host_)"),
 ("r17", "C18", R, "send_choose_signal(get_team_leader(winner));", "send_choose_signal(get_team_leader(winner && teams_[0][1].client));"),
 ("r18", "C18", R, "			for(auto const& s : teams_[team])\n				if(s.client != nullptr)\n					return *s.client;", "			for(auto it = teams_[team].rbegin(); it != teams_[team].rend(); ++it)\n				if(it->client != nullptr)\n					return *it->client;"),
 ("m01", "C19", UN, "			values_.emplace_back(std::forward<U>(v));\n		current_++;", "			values_.emplace_back(std::forward<U>(v));\n		current_ = --values_.cend();"),
 ("m02", "C19", UN, "			values_.emplace_back().assign(std::forward<Args>(args)...);\n		current_++;", "			values_.emplace_back().assign(std::forward<Args>(args)...);\n		if(values_.size() < 5 || !current_->empty()) current_++; else current_ = --values_.cend();"),
 ("m03", "C20", B, "while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)", "while(i < std::numeric_limits<T>::digits - 1 && popcnt(chosen) < count)"),
 ("m04", "C20", B, "if constexpr(std::numeric_limits<T>::digits > 32)", "if constexpr(std::numeric_limits<T>::digits > 64)"),
 ("m05", "C21", D, "		if(rhs.seq() < lhs.seq())\n			return false;\n", ""),
 ("m06", "C21", D, "		if(lhs.oseq() < rhs.oseq())\n			return true;\n		return false;", "		return static_cast<uint32_t>(lhs.oseq()) < static_cast<uint32_t>(rhs.oseq());"),
 ("m07", "C21", LO, "LOCATION_PENDULUM_ZONE | LOCATION_SKILL_ZONE)) != 0U;", "LOCATION_PENDULUM_ZONE)) != 0U;"),
 ("m08", "C22", CX, "left_[left] = from;", "left_.emplace(left, from);"),
 ("m09", "C22", CX, "return std::exchange(deferred_, {});", "return deferred_;"),
 ("m10", "C22", CX, "deferred_.emplace_back(place);", "deferred_.insert(deferred_.begin(), place);"),
 ("m11", "C22", CX, "match_win_reason_ = reason;", "match_win_reason_ = reason & 0xFFU;"),
 # Shortcuts that skip what looks like nothing to do.
 ("h01", "C04,C06", L, "\t\tassert(is_pile(place));\n\t\tbool processing = advance_op_();", "\t\tassert(is_pile(place));\n\t\tif(this->pile(place).size() == count)\n\t\t\treturn;\n\t\tbool processing = advance_op_();"),
 ("h02", "C06", PE, "blp = lpv;", "if(!(blp == lpv)) blp = lpv;"),
 ("h03", "C05,C06", PE, "board.blocked_zones().assign(zones.cbegin(), zones.cend());", "if(!zones.empty()) board.blocked_zones().assign(zones.cbegin(), zones.cend());"),
 ("h04", "C06", PE, "board.phase() = Phase{event.next_phase()};", "if(!(board.phase() == Phase{event.next_phase()})) board.phase() = Phase{event.next_phase()};"),
 ("h05", "C06", PE, "board.turn_controller() = Controller{event.next_turn()};", "if(!(board.turn_controller() == Controller{event.next_turn()})) board.turn_controller() = Controller{event.next_turn()};"),
 ("h06", "C05", PE, "board.chain_stack().assign(chains.cbegin(), chains.cend());", "if(chains.size() != 0) board.chain_stack().assign(chains.cbegin(), chains.cend());"),
 ("h07", "C06", PE, "for(auto con : {CONTROLLER_0, CONTROLLER_1})", "for(auto con : {CONTROLLER_0, CONTROLLER_1}) if(static_cast<int>(con) < state.lps_size() && !(board.lp(con) == state.lps(static_cast<int>(con))))"),
 ("h08", "C19,C06", UN, "\t\tif(current_ == --values_.cend())\n\t\t\tvalues_.emplace_back(std::forward<U>(v));", "\t\tif(*current_ == v)\n\t\t\treturn *this;\n\t\tif(current_ == --values_.cend())\n\t\t\tvalues_.emplace_back(std::forward<U>(v));"),
 ("h11", "C04,C06", L, "\tconstexpr auto clear() noexcept -> void\n\t{\n", "\tconstexpr auto clear() noexcept -> void\n\t{\n\t\t{ bool any = false; using namespace YGOpen::Duel; for(auto con : {CONTROLLER_0, CONTROLLER_1}) { for(auto loc : {LOCATION_MAIN_DECK, LOCATION_HAND, LOCATION_GRAVEYARD, LOCATION_BANISHED, LOCATION_EXTRA_DECK}) any |= !this->pile(con, loc).empty(); for(auto loc : {LOCATION_MONSTER_ZONE, LOCATION_SPELL_ZONE, LOCATION_FIELD_ZONE, LOCATION_PENDULUM_ZONE, LOCATION_SKILL_ZONE}) for(uint32_t q = 0; q < zone_seq_lim(loc); q++) any |= this->zone(con, loc, q).card != nullptr || !this->zone(con, loc, q).materials.empty(); } if(!any) return; }\n"),
 ("h14", "C16", R, "auto const& deck = signal.update_deck();", "auto const& deck = signal.update_deck();\n\t\t\tif(search.slot->deck_valid && search.slot->deck.SerializeAsString() == deck.SerializeAsString())\n\t\t\t\tbreak;"),
 ("h15", "C17,C16", R, "\t\t\t\tsearch.slot->deck = {};\n\t\t\t\tsearch.slot->deck_valid = false;", "\t\t\t\tsearch.slot->deck = {};\n\t\t\t\tsearch.slot->ready = false;\n\t\t\t\tsearch.slot->deck_valid = false;"),
 ("h16", "C16", R, "\t\t\t\tsearch.slot->deck = {};\n\t\t\t\tsearch.slot->deck_valid = false;", "\t\t\t\tsearch.slot->deck = {};\n\t\t\t\tsearch.slot->deck_valid = search.slot->ready;"),
 ("h17", "C16", R, "if(deck_validator_->check(", "if(search.slot->ready || deck_validator_->check("),
 ("h18", "C16", R, "if(new_status == search.slot->ready)\n\t\t\t\tbreak;", "if(new_status == search.slot->ready)\n\t\t\t\tbreak;\n\t\t\tif(!new_status && !search.slot->deck_valid)\n\t\t\t\tbreak;"),
 ("h20", "C22", CX, "match_win_reason_ = reason;", "if(reason != 0U) match_win_reason_ = reason;"),
 ("h21", "C22,C14", CX, "left_[left] = from;", "left_.emplace(left, from);"),
 ("h22", "C22,C14", CX, "deferred_.emplace_back(place);", "if(deferred_.empty() || !(deferred_.back() == place)) deferred_.emplace_back(place);"),
 ("h23", "C01", F, "\t\tassert(is_pile(b));\n\t\tstd::swap(pile(a), pile(b));", "\t\tassert(is_pile(b));\n\t\tif(pile(a).size() == pile(b).size() && pile(a).size() < 2)\n\t\t\treturn;\n\t\tstd::swap(pile(a), pile(b));"),
 ("h25", "C01", F, "pile_splice_cache_.resize(count);", "if(pile_splice_cache_.size() < count)\n\t\t\tpile_splice_cache_.resize(count);"),
 ("h26", "C17,C15", R, "es->set_spectator_count(spectators_.size());\n\t\tpeer.send(*e);", "if(&peer != host_)\n\t\t\tes->set_spectator_count(spectators_.size() > 255 ? 255 : spectators_.size());\n\t\tpeer.send(*e);"),
 ("h27", "C18", R, "if(chosen_team > 1)\n\t\t\t\tbreak;", "if((chosen_team & 0xFFU) > 1)\n\t\t\t\tbreak;"),
 ("h28", "C15", R, "v = std::clamp<uint32_t>(v, 1, std::tuple_size_v<Team>);", "v = std::clamp<int32_t>(static_cast<int32_t>(v), 1, std::tuple_size_v<Team>);"),
 ("h29", "C15", R, "max_duelists.Resize(teams_.size(), 1);", "if(max_duelists.size() < 2)\n\t\t\tmax_duelists.Resize(teams_.size(), 1);"),
 ("h30", "C16", R, "if(new_status && !search.slot->deck_valid)", "if(new_status && !search.slot->deck_valid && host_ != &peer)"),
 ("h31", "C07", PQ, "card.counters().assign(rf.cbegin(), rf.cend());", "if(!rf.empty()) card.counters().assign(rf.cbegin(), rf.cend());"),
 ("h32", "C07", PQ, "card.targets().assign(rf.cbegin(), rf.cend());", "if(!rf.empty()) card.targets().assign(rf.cbegin(), rf.cend());"),
 ("h33", "C13", A, "write(ptr, static_cast<int32_t>(*indexes.begin()));", "write(ptr, static_cast<int32_t>(*indexes.rbegin() & 0xFF));"),
 ("h34", "C13", A, "write(ptr, static_cast<int16_t>(index));", "write(ptr, static_cast<int16_t>(idx_sz > 100 ? static_cast<uint8_t>(index) : index));"),
("t1", "C24", E, "std::bitset<FIELD_HALF> const half(zones >> offset);", "static std::bitset<FIELD_HALF> half;\n\t\thalf = std::bitset<FIELD_HALF>(zones >> offset);"),
("t2", "C24", R, "auto const winner = uint32_t{rng_() % 2U};", "static uint32_t winner;\n\t\t\twinner = uint32_t{rng_() % 2U};"),
("t3", "C24", A, "auto const idx_sz = indexes.size();", "static int idx_sz;\n\t\t\t\tidx_sz = indexes.size();"),
("t4", "C24", PQ, "\tauto hits = QueryCacheHit::UNSPECIFIED;", "\tstatic QueryCacheHit hits;\n\thits = QueryCacheHit::UNSPECIFIED;"),
("t5", "C24,C23", CX, "\tstd::vector<Place> deferred_;", "\tstatic inline std::vector<Place> deferred_;"),
("t6", "C24", CX, "\t\tleft_[left] = from;", "\t\tstatic Place last;\n\t\tlast = from;\n\t\tleft_[left] = last;"),
("k1", "C10,C09", E, "\tauto const count = read<Count>(ptr, \".size()\");\n\tlog(\"total size of card list: \", static_cast<int>(count));\n\tfor(Count i = 0; i < count; i++)\n\t{\n\t\tlog(\"reading card number \", static_cast<int>(i));\n\t\tauto* place = next();\n\t\t// Skip card code.\n\t\tskip<CCode>(ptr, \"card code\");\n\t\t// Location information.\n\t\tread_loc_info<Loc, Seq, Pos>(ptr, *place);\n\t}", "\tauto const count = static_cast<uint16_t>(read<Count>(ptr, \".size()\"));\n\tfor(Count i = 0; i < count; i++)\n\t{\n\t\tauto* place = next();\n\t\tskip<CCode>(ptr, \"card code\");\n\t\tread_loc_info<Loc, Seq, Pos>(ptr, *place);\n\t}"),
("k2", "C04,C06", L, "\tOperationCountType op_;\n\tOperationCountType processed_op_;", "\tuint8_t op_;\n\tuint8_t processed_op_;"),
("k3", "C01", F, "PileType& p, size_t index) noexcept", "PileType& p, uint16_t index) noexcept"),
("k4", "C01", F, "static constexpr auto insert_at_(PileType& p, size_t index,", "static constexpr auto insert_at_(PileType& p, uint16_t index,"),
("k5", "C01", F, "\tconstexpr auto pile_splice(PlaceType const& from, size_t count,", "\tconstexpr auto pile_splice(PlaceType const& from, uint16_t count,"),
("k6", "C04,C06", L, "\t\treturn std::get<T>(operations_.emplace_back(std::in_place_type_t<T>{}));", "\t\tif(operations_.size() == 700U)\n\t\t{\n\t\t\toperations_.erase(operations_.begin(), operations_.begin() + 350);\n\t\t\top_ -= 350;\n\t\t\tprocessed_op_ -= 350;\n\t\t}\n\t\treturn std::get<T>(operations_.emplace_back(std::in_place_type_t<T>{}));"),
("k7", "C19", UN, "\t\tif(current_ == --values_.cend())\n\t\t\tvalues_.emplace_back().assign(", "\t\tif(values_.size() > 900)\n\t\t\tvalues_.pop_front();\n\t\tif(current_ == --values_.cend())\n\t\t\tvalues_.emplace_back().assign("),
]


def main():
    args = sys.argv[1:]
    scale = "1"
    if args[:1] == ["--scale"]:
        scale, args = args[1], args[2:]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    missed = []
    for m in M:
        name, props, path, old, new = m[:5]
        if args and not any(name.startswith(a) for a in args):
            continue
        work = "/tmp/sensitivity"
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree("/repo", work, symlinks=True,
                        ignore=shutil.ignore_patterns(".git"))
        f = os.path.join(work, path)
        text = open(f).read()
        if text.count(old) != 1:
            print(name, "TEXT", text.count(old)); continue
        open(f, "w").write(text.replace(old, new))
        for p in props.split(","):
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(here, "run.py"), p,
                                "--scale", scale],
                               env=dict(os.environ, VERIF_REPO=work),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace")
            verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR")
            print("%s %s %s %.0f s" % (name, p, verdict, time.time() - t), flush=True)
            if r.returncode not in (0, 1):
                print(out[:1500])
            if r.returncode != 1:
                missed.append((name, p))
        shutil.rmtree(work)
    print("not caught:", missed)


main()
