#include <wordring/wwwc/css_syntax/tokenization.hpp>
#include <wordring/wwwc/css_syntax/input_stream.hpp>

namespace c = wordring::wwwc::css;
using S = std::u32string;
using It = S::const_iterator;
using N = c::syntax_primitive_name;
struct E { std::vector<int>* e; void operator()(It) const { e->push_back(1); } };
struct R { std::size_t pos; N type; S str; char32_t cp; double num; int flag; S unit; };

void flat(c::syntax_primitive const& t, R& r)
{
  r.type = t.type();
  switch (r.type)
  {
  case N::IdentToken: r.str = t.get<c::ident_token>().m_value; break;
  case N::FunctionToken: r.str = t.get<c::function_token>().m_value; break;
  case N::AtKeywordToken: r.str = t.get<c::at_keyword_token>().m_value; break;
  case N::HashToken: r.str = t.get<c::hash_token>().m_value; r.flag = static_cast<int>(t.get<c::hash_token>().m_type_flag); break;
  case N::StringToken: r.str = t.get<c::string_token>().m_value; break;
  case N::UrlToken: r.str = t.get<c::url_token>().m_value; break;
  case N::DelimToken: r.cp = t.get<c::delim_token>().m_value; break;
  case N::NumberToken: r.num = t.get<c::number_token>().m_value; r.flag = static_cast<int>(t.get<c::number_token>().m_type_flag); break;
  case N::PercentageToken: r.num = t.get<c::percentage_token>().m_value; break;
  case N::DimensionToken: r.num = t.get<c::dimension_token>().m_value; r.unit = t.get<c::dimension_token>().m_unit; r.flag = static_cast<int>(t.get<c::dimension_token>().m_type_flag); break;
  default: break;
  }
}
void fin(std::pair<It, c::syntax_primitive> const& x, S const& s, R& r) { r.pos = static_cast<std::size_t>(x.first - s.begin()); flat(x.second, r); }

void vp_token(S const& s, R& r, std::vector<int>& e) { fin(c::consume_token(s.begin(), s.end(), E{ &e }), s, r); }
void vp_token_q(S const& s, R& r, std::vector<int>&) { fin(c::consume_token(s.begin(), s.end()), s, r); }
void vp_comments(S const& s, R& r, std::vector<int>& e) { fin(c::consume_comments(s.begin(), s.end(), E{ &e }), s, r); }
void vp_numeric(S const& s, R& r, std::vector<int>& e) { fin(c::consume_numeric_token(s.begin(), s.end(), E{ &e }), s, r); }
void vp_identlike(S const& s, R& r, std::vector<int>& e) { fin(c::consume_ident_like_token(s.begin(), s.end(), E{ &e }), s, r); }
void vp_string(S const& s, R& r, std::vector<int>& e, char32_t q) { fin(c::consume_string_token(s.begin(), s.end(), q, E{ &e }), s, r); }
void vp_url(S const& s, R& r, std::vector<int>& e) { fin(c::consume_url_token(s.begin(), s.end(), E{ &e }), s, r); }
void vp_remnants(S const& s, R& r, std::vector<int>& e) { fin(c::consume_remnants_of_bad_url(s.begin(), s.end(), E{ &e }), s, r); }
void vp_escaped(S const& s, R& r, std::vector<int>& e) { auto x = c::consume_escaped_code_point(s.begin(), s.end(), E{ &e }); r.pos = static_cast<std::size_t>(x.first - s.begin()); r.cp = x.second; }
void vp_ident(S const& s, R& r, std::vector<int>& e) { auto x = c::consume_identifier(s.begin(), s.end(), E{ &e }); r.pos = static_cast<std::size_t>(x.first - s.begin()); r.str = x.second; }
void vp_number(S const& s, R& r, std::vector<int>& e) { auto x = c::consume_number(s.begin(), s.end(), E{ &e }); r.pos = static_cast<std::size_t>(std::get<0>(x) - s.begin()); r.num = std::get<1>(x); r.flag = static_cast<int>(std::get<2>(x)); }
double vp_convert(S const& s) { return c::convert_string_to_number(s.begin(), s.end()); }
bool vp_isescape(S const& s) { return c::starts_with_valid_escape(s.begin(), s.end()); }
bool vp_isident(S const& s) { return c::starts_with_identifier(s.begin(), s.end()); }
bool vp_isnumber(S const& s) { return c::starts_with_number(s.begin(), s.end()); }
void vp_tokenize(S const& s, std::vector<int>& o)
{
  std::vector<c::syntax_primitive> v;
  c::tokenize(s.begin(), s.end(), std::back_inserter(v), nullptr);
  for (std::size_t i = 0; i < v.size(); ++i) o.push_back(static_cast<int>(v[i].type()));
}
std::size_t vp_filter(S& s) { return static_cast<std::size_t>(wordring::wwwc::filter_code_points(s.begin(), s.end()) - s.begin()); }
wordring::encoding_name vp_fallback(std::string const& s, wordring::encoding_name f) { return wordring::wwwc::determine_fallback_encoding(s.begin(), s.end(), f); }
