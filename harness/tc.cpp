#include <cassert>
#include <cstdint>
#include <iterator>
#include <string>
#include <wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp>

// the DOM and the parser's derived class: only declared, answered by the model
namespace wp = wordring::whatwg::html::parsing;
namespace wh = wordring::whatwg::html;
struct tx { std::u32string s; char32_t c = 0; };
struct cm { std::u32string s; };
struct dt { std::u32string n, p, s; };
struct nd
{
	int n = 0;
	bool operator==(nd const&) const;
	bool operator!=(nd const&) const;
	nd& operator++();
	nd operator++(int);
	nd& operator--();
	nd operator--(int);
	nd begin() const;
	nd end() const;
	nd parent() const;
};
struct tr
{
	using node_pointer = nd;
	using string_type = std::u32string;
	using text_type = tx;
	using comment_type = cm;
	using document_type_type = dt;
	static nd pointer();
	static nd parent(nd);
	static nd begin(nd);
	static nd end(nd);
	static nd prev(nd);
	static nd next(nd);
	static bool is_element(nd);
	static bool is_text(nd);
	static void set_document(nd, nd);
	static wp::ns_name get_namespace_name(nd);
	static wp::tag_name get_local_name_name(nd);
	static string_type get_local_name(nd);
	static string_type get_qualified_name(nd);
	static bool is_html_element_of(nd, wp::tag_name);
	static bool equals(nd, nd);
	static void set_non_blocking_flag(nd, bool);
	static void set_already_started_flag(nd, bool);
	static tx create_text(char32_t);
	static void append_text(nd, char32_t);
	static cm create_comment(string_type const&);
	static wh::document_mode_name get_document_mode(nd);
	static void set_document_mode(nd, wh::document_mode_name);
	static bool is_iframe_srcdoc_document(nd);
	static void set_document_ready_state(string_type const&);
	static dt create_document_type(string_type const&, string_type const&, string_type const&);
};
struct P : wp::tree_construction_dispatcher<P, tr>
{
	using base = wp::tree_construction_dispatcher<P, tr>;
	using base::base;
	using base::contains;
	using base::insert_comment;
	nd get_document();
	nd insert_document_type(nd, dt&&);
	nd create_element(nd, std::u32string, wp::ns_name);
	nd create_element(nd, wp::tag_name, wp::ns_name);
	nd insert_element(nd, nd);
	nd get_node_document(nd);
	void erase_element(nd);
	void move_node(nd, nd);
	void append_attribute(nd, wp::ns_name, std::u32string const&, std::u32string const&, std::u32string const&);
	bool contains(nd, wp::ns_name, std::u32string const&, std::u32string const&);
	nd insert_text(nd, tx&&);
	nd insert_comment(nd, cm&&);
	void on_report_error(wp::error_name);
	void on_change_encoding(wordring::whatwg::encoding::encoding_name);
};
template class wp::tree_construction_dispatcher<P, tr>;
using L = wp::tree_construction_dispatcher<P, tr>;
using T = wp::tag_name;
using N = wp::ns_name;
struct A : P
{
	using scope = L::scope_type;
	static bool s_tag(A& p, int k, T t) { return p.in_specific_scope(sc(k), t); }
	static bool s_pair(A& p, int k, N n, T t) { return p.in_specific_scope(sc(k), std::make_pair(n, t)); }
	static bool s_node(A& p, int k, nd n) { return p.in_specific_scope(sc(k), n); }
	static bool s_str(A& p, int k, std::u32string const& s) { return p.in_specific_scope(sc(k), s); }
	static bool s_arr(A& p, int k, std::array<T, 3> const& a) { return p.in_specific_scope(sc(k), a); }
	static scope sc(int k)
	{
		switch (k) { case 0: return default_scope; case 1: return list_item_scope; case 2: return button_scope; case 3: return table_scope; default: return select_scope; }
	}
	static void pop_tag(A& p, N n, T t) { p.pop_until(n, t); }
	static void pop_arr(A& p, N n, std::array<T, 2> const& a) { p.pop_until(n, a); }
	static void pop_node(A& p, nd n) { p.pop_until(n); }
	static void implied(A& p) { p.generate_implied_end_tags(); }
	static void implied_tag(A& p, T t) { p.generate_implied_end_tags(t); }
	static void implied_pair(A& p, N n, T t) { p.generate_implied_end_tags(std::make_pair(n, t)); }
	static void implied_str(A& p, N n, std::u32string const& s) { p.generate_implied_end_tags(std::make_pair(n, s)); }
	static bool has_tag(A& p, T t) { return static_cast<L&>(p).contains(t); }
	static bool has_pair(A& p, N n, T t) { return static_cast<L&>(p).contains(n, t); }
	static bool has_node(A& p, nd n) { return static_cast<L&>(p).contains(n); }
	static void push_fmt(A& p, nd n, wp::start_tag_token const& t) { p.push_formatting_element_list(n, t); }
	static void push_mark(A& p) { p.push_formatting_element_list(); }
	static nd insert_html(A& p, wp::start_tag_token& t) { return p.insert_html_element(t); }
	static nd insert_foreign(A& p, wp::start_tag_token& t, N n) { return p.insert_foreign_element(t, n); }
	static nd create(A& p, wp::start_tag_token& t, N n, nd q) { return p.create_element_for_token(t, n, q); }
	static void comment(A& p, wp::comment_token& t) { static_cast<L&>(p).insert_comment(t); }
	static void comment_at(A& p, wp::comment_token& t, nd n) { static_cast<L&>(p).insert_comment(t, n); }
	static void adj_math(A& p, wp::start_tag_token& t) { p.adjust_mathml_attributes(t); }
	static void adj_svg(A& p, wp::start_tag_token& t) { p.adjust_svg_attributes(t); }
	static void adj_foreign(A& p, wp::start_tag_token& t) { p.adjust_foreign_attributes(t); }
	static bool quirks(A& p, wp::DOCTYPE_token& t) { return p.in_quirks_condition(t); }
	static bool limited(A& p, wp::DOCTYPE_token& t) { return p.in_limited_quirks_condition(t); }
	static void on_start(A& p, wp::start_tag_token& t) { p.on_emit_token(t); }
	static void on_end(A& p, wp::end_tag_token& t) { p.on_emit_token(t); }
	static void on_char(A& p, wp::character_token& t) { p.on_emit_token(t); }
	static void on_comment(A& p, wp::comment_token& t) { p.on_emit_token(t); }
	static void on_doctype(A& p, wp::DOCTYPE_token& t) { p.on_emit_token(t); }
	static void on_eof(A& p, wp::end_of_file_token& t) { p.on_emit_token(t); }
};
bool vp_s_tag(A& p, int k, T t) { return A::s_tag(p, k, t); }
bool vp_s_pair(A& p, int k, N n, T t) { return A::s_pair(p, k, n, t); }
bool vp_s_node(A& p, int k, nd n) { return A::s_node(p, k, n); }
bool vp_s_str(A& p, int k, std::u32string const& s) { return A::s_str(p, k, s); }
bool vp_s_arr(A& p, int k, std::array<T, 3> const& a) { return A::s_arr(p, k, a); }
void vp_pop_tag(A& p, N n, T t) { A::pop_tag(p, n, t); }
void vp_pop_arr(A& p, N n, std::array<T, 2> const& a) { A::pop_arr(p, n, a); }
void vp_pop_node(A& p, nd n) { A::pop_node(p, n); }
void vp_implied(A& p) { A::implied(p); }
void vp_implied_tag(A& p, T t) { A::implied_tag(p, t); }
void vp_implied_pair(A& p, N n, T t) { A::implied_pair(p, n, t); }
void vp_implied_str(A& p, N n, std::u32string const& s) { A::implied_str(p, n, s); }
bool vp_has_tag(A& p, T t) { return A::has_tag(p, t); }
bool vp_has_pair(A& p, N n, T t) { return A::has_pair(p, n, t); }
bool vp_has_node(A& p, nd n) { return A::has_node(p, n); }
void vp_push_fmt(A& p, nd n, wp::start_tag_token const& t) { A::push_fmt(p, n, t); }
void vp_push_mark(A& p) { A::push_mark(p); }
nd vp_insert_html(A& p, wp::start_tag_token& t) { return A::insert_html(p, t); }
nd vp_insert_foreign(A& p, wp::start_tag_token& t, N n) { return A::insert_foreign(p, t, n); }
nd vp_create(A& p, wp::start_tag_token& t, N n, nd q) { return A::create(p, t, n, q); }
void vp_comment(A& p, wp::comment_token& t) { A::comment(p, t); }
void vp_comment_at(A& p, wp::comment_token& t, nd n) { A::comment_at(p, t, n); }
void vp_adj_math(A& p, wp::start_tag_token& t) { A::adj_math(p, t); }
void vp_adj_svg(A& p, wp::start_tag_token& t) { A::adj_svg(p, t); }
void vp_adj_foreign(A& p, wp::start_tag_token& t) { A::adj_foreign(p, t); }
bool vp_quirks(A& p, wp::DOCTYPE_token& t) { return A::quirks(p, t); }
bool vp_limited(A& p, wp::DOCTYPE_token& t) { return A::limited(p, t); }
void vp_start(A& p, wp::start_tag_token& t) { A::on_start(p, t); }
void vp_end(A& p, wp::end_tag_token& t) { A::on_end(p, t); }
void vp_char(A& p, wp::character_token& t) { A::on_char(p, t); }
void vp_ctoken(A& p, wp::comment_token& t) { A::on_comment(p, t); }
void vp_doctype(A& p, wp::DOCTYPE_token& t) { A::on_doctype(p, t); }
void vp_eof(A& p, wp::end_of_file_token& t) { A::on_eof(p, t); }
