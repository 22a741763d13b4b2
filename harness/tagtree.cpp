#include <cassert>
#include <cstdint>
#include <iterator>
#include <string>
#include <utility>
#include <vector>
#include <wordring/html/html_defs.hpp>

// the node type of the analysis: a value, and whether the node can have children
struct vnode { int v = 0; bool single = false; };
struct velem { using attribute_type = int; using const_iterator = int const*; using string_type = std::u32string; };
namespace wordring::detail { template <typename V> class tag_tree_iterator; template <typename V> class const_tag_tree_iterator; }
namespace wordring::html
{
	template <typename It> struct vtraits
	{
		using node_pointer = It;
		using element_type = velem; using text_type = velem; using processing_instruction_type = velem; using comment_type = velem;
		using document_type = velem; using document_type_type = velem; using document_fragment_type = velem;
		using string_type = std::u32string;
		static bool is_single(vnode const& n) { return n.single; }
	};
	template <> struct node_traits<wordring::detail::tag_tree_iterator<vnode>> : vtraits<wordring::detail::tag_tree_iterator<vnode>> {};
	template <> struct node_traits<wordring::detail::const_tag_tree_iterator<vnode>> : vtraits<wordring::detail::const_tag_tree_iterator<vnode>> {};
}
#include <wordring/tag_tree/tag_tree.hpp>

using T = wordring::tag_tree<vnode>;
using It = T::iterator;
using Ci = T::const_iterator;
using Si = T::serial_iterator;
It vp_insert(T& t, Ci pos, vnode const& v) { return t.insert(pos, v); }
It vp_insert_rv(T& t, Ci pos, vnode&& v) { return t.insert(pos, std::move(v)); }
It vp_move(T& t, Ci pos, Ci sub) { return t.move(pos, sub); }
It vp_erase(T& t, Ci pos) { return t.erase(pos); }
void vp_clear(T& t) { t.clear(); }
void vp_swap(T& t, T& u) { t.swap(u); }
T vp_ctor() { return T(); }
T vp_copy(T const& t) { return T(t); }
T vp_move_ctor(T& t) { return T(std::move(t)); }
void vp_assign(T& t, T const& u) { t = u; }
void vp_assign_rv(T& t, T& u) { t = std::move(u); }
bool vp_empty(T const& t) { return t.empty(); }
std::size_t vp_size(T const& t) { return t.size(); }
It vp_begin(T& t) { return t.begin(); }
It vp_end(T& t) { return t.end(); }
Ci vp_cbegin(T const& t) { return t.cbegin(); }
Ci vp_cend(T const& t) { return t.cend(); }
Si vp_sbegin(T& t) { return t.sbegin(); }
Si vp_send(T& t) { return t.send(); }

It vp_it_begin(It i) { return i.begin(); }
It vp_it_end(It i) { return i.end(); }
It vp_it_parent(It i) { return i.parent(); }
It vp_it_inc(It i) { return ++i; }
It vp_it_dec(It i) { return --i; }
It vp_it_pinc(It i) { return i++; }
It vp_it_pinc2(It i) { i++; return i; }
It vp_it_pdec(It i) { return i--; }
It vp_it_pdec2(It i) { i--; return i; }
Ci vp_ci_begin(Ci i) { return i.begin(); }
Ci vp_ci_end(Ci i) { return i.end(); }
Ci vp_ci_parent(Ci i) { return i.parent(); }
Ci vp_ci_inc(Ci i) { return ++i; }
Ci vp_ci_dec(Ci i) { return --i; }
Ci vp_ci_pinc(Ci i) { return i++; }
Ci vp_ci_pinc2(Ci i) { i++; return i; }
int vp_it_deref(It i) { return (*i).v; }
int vp_it_arrow(It i) { return i->v; }
int vp_ci_deref(Ci i) { return (*i).v; }
int vp_ci_arrow(Ci i) { return i->v; }
Ci vp_it_const(It i) { return i; }
bool vp_it_eq(It i, It j) { return i == j; }
bool vp_it_ne(It i, It j) { return i != j; }
bool vp_ci_eq(Ci i, Ci j) { return i == j; }
bool vp_ci_ne(Ci i, Ci j) { return i != j; }

void vp_serial(T& t, std::vector<int>& o, std::vector<int>& k)
{
	auto i = t.sbegin(), e = t.send();
	while (i != e) { o.push_back(i.is_end_tag() ? (*i.start_tag()).v : (*i).v); k.push_back(i.is_start_tag() ? 1 : i.is_end_tag() ? 2 : 0); ++i; }
}
void vp_rserial(T& t, std::vector<int>& o, std::vector<int>& k)
{
	auto b = t.sbegin(), i = t.send();
	while (i != b) { --i; o.push_back(i.is_end_tag() ? i.start_tag()->v : i->v); k.push_back(i.is_start_tag() ? 1 : i.is_end_tag() ? 2 : 0); }
}
Si vp_si_end_tag(Si i) { return i.end_tag(); }
Si vp_si_start_tag(Si i) { return i.start_tag(); }
Si vp_si_pinc(Si i) { return i++; }
Si vp_si_pinc2(Si i) { i++; return i; }
Si vp_si_pdec(Si i) { return i--; }
Si vp_si_pdec2(Si i) { i--; return i; }
