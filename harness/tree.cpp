#include <cassert>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>

// entry points: each operation of the tree container and its iterators
using T = wordring::tree<int>;
using It = T::iterator;
using Ci = T::const_iterator;
It vp_insert(T& t, Ci pos, int const& v) { return t.insert(pos, v); }
It vp_insert_rv(T& t, Ci pos, int&& v) { return t.insert(pos, std::move(v)); }
It vp_insert_it(T& t, It pos, int const& v) { return t.insert(pos, v); }
It vp_emplace(T& t, Ci pos, int v) { return t.emplace(pos, v); }
It vp_insert_sub(T& t, Ci pos, Ci sub) { return t.insert(pos, sub); }
It vp_move(T& t, Ci pos, Ci sub) { return t.move(pos, sub); }
It vp_erase(T& t, Ci pos) { return t.erase(pos); }
void vp_clear(T& t) { t.clear(); }
void vp_swap(T& t, T& u) { t.swap(u); }
void vp_assign(T& t, int const& v) { t.assign(v); }
void vp_assign_rv(T& t, int&& v) { t.assign(std::move(v)); }
T vp_ctor() { return T(); }
T vp_ctor_a() { return T(std::allocator<int>()); }
T vp_ctor_v(int const& v) { return T(v); }
T vp_ctor_rv(int&& v) { return T(std::move(v)); }
T vp_copy(T const& t) { return T(t); }
bool vp_empty(T const& t) { return t.empty(); }
std::size_t vp_size(T const& t) { return t.size(); }
std::size_t vp_size_at(T const& t, Ci pos) { return t.size(pos); }
int& vp_front(T& t) { return t.front(); }
int const& vp_cfront(T const& t) { return t.front(); }
It vp_begin(T& t) { return t.begin(); }
It vp_end(T& t) { return t.end(); }
Ci vp_cbegin(T const& t) { return t.cbegin(); }
Ci vp_cend(T const& t) { return t.cend(); }
Ci vp_begin_c(T const& t) { return t.begin(); }
Ci vp_end_c(T const& t) { return t.end(); }

// iterators
It vp_it_begin(It i) { return i.begin(); }
It vp_it_end(It i) { return i.end(); }
It vp_it_parent(It i) { return i.parent(); }
It vp_it_inc(It i) { return ++i; }
It vp_it_dec(It i) { return --i; }
It vp_it_pinc(It i) { return i++; }
It vp_it_pinc2(It i) { i++; return i; }
It vp_it_pdec(It i) { return i--; }
It vp_it_pdec2(It i) { i--; return i; }
int vp_it_deref(It i) { return *i; }
int vp_it_arrow(It i) { return *i.operator->(); }
Ci vp_it_const(It i) { return i; }
bool vp_it_eq(It i, It j) { return i == j; }
bool vp_it_ne(It i, It j) { return i != j; }
bool vp_it_eq_c(Ci i, It j) { return i == j; }
bool vp_it_ne_c(It i, Ci j) { return i != j; }
void vp_children(It i, std::vector<int>& o) { for (auto j = i.begin(); j != i.end(); ++j) o.push_back(*j); }
void vp_rchildren(It i, std::vector<int>& o) { auto j = i.rbegin(), e = i.rend(); while (j != e) { o.push_back(*j); ++j; } }

// traversal
void vp_preorder(T& t, std::vector<int>& o)
{
	auto i = wordring::tree_iterator<It>(t.begin());
	auto e = wordring::tree_iterator<It>();
	while (i != e) { o.push_back(*i); ++i; }
}
void vp_levelorder(T& t, std::vector<int>& o)
{
	auto i = wordring::level_order_tree_iterator<It>(t.begin());
	auto e = wordring::level_order_tree_iterator<It>();
	while (i != e) { o.push_back(*i); ++i; }
}
void vp_preorder_post(T& t, std::vector<int>& o)
{
	auto i = wordring::tree_iterator<Ci>(t.cbegin());
	auto e = wordring::tree_iterator<Ci>();
	while (!(i == e)) { o.push_back(*i.base()); o.push_back(*(i++)); }
}
