// C12 and C14, by the simulated core.
#include "core_sim.hpp"

auto pbt::PBT_PROPERTIES() -> std::vector<Property>
{
	return {
		{"C12",
	     "A simulated core plays out up to 34 things that can happen in a duel "
	     "(moves, materials, draws, shuffles, swaps, turns, life points, "
	     "chains, queries...), reported in its own format among messages that "
	     "only inform; after each, a board of plain or history-keeping field "
	     "and the encoder's context are compared with the core. Non-trivial: "
	     "some card has materials that move, change or are told.",
	     19500, 750000, [](Src& s, Case& c) { core_sim::run(s, c, false); }},
		{"C14",
	     "As C12 with most of it about materials: attaching to cards on the "
	     "field or still outside it, taking over the materials of others, "
	     "detaching, and leaving the field one or several at a time. "
	     "Non-trivial: materials move.",
	     17000, 650000, [](Src& s, Case& c) { core_sim::run(s, c, true); }},
	};
}
