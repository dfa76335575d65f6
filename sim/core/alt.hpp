// Worlds whose scenarios are kept as text: "scenario" line, then one line per step; lines with two leading blanks may be dropped.
#pragma once
#include "world.hpp"
namespace sim {
struct AltWorld {
	virtual ~AltWorld() = default;
	virtual std::string gen(Rng &) = 0;
	virtual Outcome exec(const std::string &, Stats &) = 0;
	virtual std::string extra() = 0;                       // ", \"key\": value" pairs for the statistics line
};
AltWorld *alt_world(const std::string &prop);
}
