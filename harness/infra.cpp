#include <wordring/whatwg/infra/infra.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
#include <wordring/whatwg/url/infra.hpp>

// entry points, one per algorithm and character type (S: the string, T: the output string)
namespace w = wordring::whatwg;
#define VP_ALL(S, N) \
  void vp_lower_##N(S const& s, S& o) { w::to_ascii_lowercase(s.begin(), s.end(), std::back_inserter(o)); } \
  void vp_upper_##N(S const& s, S& o) { w::to_ascii_uppercase(s.begin(), s.end(), std::back_inserter(o)); } \
  bool vp_isascii_##N(S const& s) { return w::is_ascii_string(s.begin(), s.end()); } \
  bool vp_match_##N(S const& a, S const& b) { return w::is_ascii_case_insensitive_match(a.begin(), a.end(), b.begin(), b.end()); } \
  void vp_stripnl_##N(S const& s, S& o) { w::strip_newlines(s.begin(), s.end(), std::back_inserter(o)); } \
  void vp_normnl_##N(S const& s, S& o) { w::normalize_newlines(s.begin(), s.end(), std::back_inserter(o)); } \
  void vp_strip_##N(S const& s, S& o) { w::strip_leading_and_trailing_ascii_whitespace(s.begin(), s.end(), std::back_inserter(o)); } \
  void vp_collapse_##N(S const& s, S& o) { w::strip_and_collapse_ascii_whitespace(s.begin(), s.end(), std::back_inserter(o)); } \
  std::size_t vp_collect_##N(S const& s, S& o) { return static_cast<std::size_t>(w::collect_sequence_of_code_points(s.begin(), s.end(), std::back_inserter(o), w::is_ascii_alpha) - s.begin()); } \
  std::size_t vp_skip_##N(S const& s) { return static_cast<std::size_t>(w::skip_ascii_whitespace(s.begin(), s.end()) - s.begin()); } \
  void vp_split_##N(S const& s, std::vector<S>& o, char32_t d) { w::strictly_split_on_particular_delimiter(s.begin(), s.end(), std::back_inserter(o), d); } \
  void vp_splitws_##N(S const& s, std::vector<S>& o) { w::split_on_ascii_whitespace(s.begin(), s.end(), std::back_inserter(o)); } \
  void vp_splitcomma_##N(S const& s, std::vector<S>& o) { w::split_on_commas(s.begin(), s.end(), std::back_inserter(o)); } \
  std::size_t vp_tocp_##N(S const& s, char32_t& o) { return static_cast<std::size_t>(w::to_code_point(s.begin(), s.end(), o) - s.begin()); } \
  void vp_tostr_##N(char32_t c, S& o) { w::to_string(c, std::back_inserter(o)); } \
  std::string vp_cast8_##N(S const& s) { return w::encoding_cast<std::string>(s); } \
  std::u8string vp_castu8_##N(S const& s) { return w::encoding_cast<std::u8string>(s); } \
  std::u16string vp_cast16_##N(S const& s) { return w::encoding_cast<std::u16string>(s); } \
  std::u32string vp_cast32_##N(S const& s) { return w::encoding_cast<std::u32string>(s); }
VP_ALL(std::string, 8)
VP_ALL(std::u8string, u8)
VP_ALL(std::u16string, 16)
VP_ALL(std::u32string, 32)
void vp_blower(std::string const& s, std::string& o) { w::to_byte_lowercase(s.begin(), s.end(), std::back_inserter(o)); }
void vp_bupper(std::string const& s, std::string& o) { w::to_byte_uppercase(s.begin(), s.end(), std::back_inserter(o)); }
bool vp_bmatch(std::string const& a, std::string const& b) { return w::is_byte_case_insensitive_match(a.begin(), a.end(), b.begin(), b.end()); }
void vp_isodec(std::string const& s, std::u32string& o) { w::isomorphic_decode(s.begin(), s.end(), std::back_inserter(o)); }
void vp_isoenc(std::u32string const& s, std::string& o) { w::isomorphic_encode(s.begin(), s.end(), std::back_inserter(o)); }
void vp_ascenc(std::u32string const& s, std::string& o) { w::ascii_encode(s.begin(), s.end(), std::back_inserter(o)); }
void vp_ascdec(std::string const& s, std::u32string& o) { w::ascii_decode(s.begin(), s.end(), std::back_inserter(o)); }
