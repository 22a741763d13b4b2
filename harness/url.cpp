// lib/whatwg/url/{host,url}.cpp in one unit, so the parser and everything it calls is visible.
#include <lib/whatwg/url/host.cpp>
#include <lib/whatwg/url/url.cpp>
#include <wordring/whatwg/url/api.hpp>
template class wordring::whatwg::basic_url<std::u32string>;
std::u32string vp_to_string(wordring::whatwg::basic_url<std::u32string> const& u, bool x) { return wordring::whatwg::to_string(u, x); }
void vp_pd(std::string const& s, std::string& o) { wordring::whatwg::percent_decode(s.begin(), s.end(), std::back_inserter(o)); }
void vp_spd(std::u32string const& s, std::string& o) { wordring::whatwg::string_percent_decode(s.begin(), s.end(), std::back_inserter(o)); }
bool vp_ipe(std::u32string const& s) { return wordring::whatwg::is_percent_encoded_byte(s.begin(), s.end()); }
bool vp_spe(std::u32string const& s) { return wordring::whatwg::starts_with_percent_encoded_byte(s.begin(), s.end()); }
void vp_pe(std::uint8_t b, std::string& o) { wordring::whatwg::percent_encode(b, std::back_inserter(o)); }
void vp_si(char32_t c, std::u32string& o) { wordring::whatwg::serialize_integer(c, std::back_inserter(o)); }
