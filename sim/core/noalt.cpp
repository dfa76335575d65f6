#include "alt.hpp"
sim::AltWorld *sim::alt_world(const std::string &) { return nullptr; }
