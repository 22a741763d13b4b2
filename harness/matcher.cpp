#include <cassert>
#include <cstdint>
#include <string>
#include <vector>
#include <wordring/string/matcher.hpp>

using M = wordring::string_matcher<std::u32string>;
// entry points: one step of the matcher from any state, and its accessors
M::match_result vp_push(M& m, char32_t c) { return m.push_back(c); }
void vp_clear(M& m) { m.clear(); }
std::u32string vp_data(M const& m) { return m.data(); }
std::size_t vp_size(M const& m) { return m.size(); }
