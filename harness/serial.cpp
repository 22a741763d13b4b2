#include <cassert>
#include <cstdint>
#include <iterator>
#include <string>
#include <wordring/html/html_defs.hpp>
#include <wordring/whatwg/html/html_atom.hpp>
#include <wordring/html/html_atom.hpp>

// the DOM of the analysis: only declared, answered by the model
struct nd
{
	int n = 0;
	bool operator==(nd const&) const;
	bool operator!=(nd const&) const;
	nd& operator++();
	nd operator++(int);
	nd& operator--();
	nd operator--(int);
};
struct at { int n = 0; };
struct ai
{
	int n = 0;
	at operator*() const;
	bool operator==(ai const&) const;
	bool operator!=(ai const&) const;
	ai& operator++();
	ai operator++(int);
};
namespace wordring::html
{
	template <> struct node_traits<nd>
	{
		using node_pointer = nd;
		using attribute_type = at;
		using attribute_pointer = ai;
		using string_type = std::u32string;
		static nd pointer();
		static nd parent(nd);
		static nd begin(nd);
		static nd end(nd);
		static nd prev(nd);
		static nd next(nd);
		static string_type data(nd);
		static string_type target(nd);
		static string_type name(nd);
		static bool is_element(nd);
		static bool is_text(nd);
		static bool is_comment(nd);
		static bool is_processing_instruction(nd);
		static bool is_document_type(nd);
		static bool is_document(nd);
		static ns_name get_namespace_name(nd);
		static tag_name get_local_name_name(nd);
		static string_type get_local_name(nd);
		static string_type get_qualified_name(nd);
		static bool is_html_element_of(nd, tag_name);
		static ai abegin(nd);
		static ai aend(nd);
		static ns_name get_namespace_name(at const&);
		static attribute_name get_local_name_name(at const&);
		static string_type get_local_name(at const&);
		static string_type get_qualified_name(at const&);
		static string_type value(at const&);
	};
}
#include <wordring/whatwg/html/parsing/serializing.hpp>

void vp_to_string(nd n, std::u32string& out) { wordring::whatwg::html::to_string(n, std::back_inserter(out)); }
bool vp_void(nd n) { return wordring::whatwg::html::serializes_as_void(n); }
bool vp_is_void(nd n) { return wordring::whatwg::html::is_void_element(n); }
