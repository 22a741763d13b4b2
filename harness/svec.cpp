#include <cassert>
#include <cstdint>
#include <stdexcept>
#include <utility>
#include <vector>
#include <wordring/static_vector/static_vector.hpp>

using V = wordring::static_vector<int, 4>;
using It = V::iterator;
using Ci = V::const_iterator;
V vp_ctor() { return V(); }
V vp_ctor_n(std::size_t n) { return V(n); }
V vp_ctor_nv(std::size_t n, int const& v) { return V(n, v); }
V vp_ctor_range(std::vector<int> const& s) { return V(s.begin(), s.end()); }
V vp_ctor_il0() { return V(std::initializer_list<int>{}); }
V vp_ctor_il3(int a, int b, int c) { return V{ a, b, c }; }
V vp_copy(V const& v) { return V(v); }
void vp_asg(V& v, V const& u) { v = u; }
void vp_asg_il2(V& v, int a, int b) { v = { a, b }; }
void vp_assign_nv(V& v, std::size_t n, int const& x) { v.assign(n, x); }
void vp_assign_range(V& v, std::vector<int> const& s) { v.assign(s.begin(), s.end()); }
void vp_assign_il2(V& v, int a, int b) { v.assign({ a, b }); }
int vp_at(V& v, std::size_t i) { return v.at(i); }
int vp_cat(V const& v, std::size_t i) { return v.at(i); }
int vp_sub(V& v, std::size_t i) { return v[i]; }
int vp_csub(V const& v, std::size_t i) { return v[i]; }
void vp_set(V& v, std::size_t i, int x) { v[i] = x; }
void vp_set_at(V& v, std::size_t i, int x) { v.at(i) = x; }
int vp_front(V& v) { return v.front(); }
int vp_cfront(V const& v) { return v.front(); }
int vp_back(V& v) { return v.back(); }
int vp_cback(V const& v) { return v.back(); }
void vp_walk(V& v, std::vector<int>& o) { for (auto i = v.begin(); i != v.end(); ++i) o.push_back(*i); }
void vp_cwalk(V const& v, std::vector<int>& o) { for (auto i = v.begin(); i != v.end(); i++) o.push_back(*i); }
void vp_ccwalk(V const& v, std::vector<int>& o) { for (auto i = v.cbegin(); i != v.cend(); ++i) o.push_back(*i); }
void vp_rwalk(V& v, std::vector<int>& o) { for (auto i = v.rbegin(); i != v.rend(); ++i) o.push_back(*i); }
void vp_crwalk(V const& v, std::vector<int>& o) { for (auto i = v.crbegin(); i != v.crend(); ++i) o.push_back(*i); }
void vp_dwalk(V& v, std::vector<int>& o) { auto i = v.end(); while (i != v.begin()) { --i; o.push_back(*i); } }
void vp_pdwalk(V& v, std::vector<int>& o) { auto i = v.end(); while (i != v.begin()) { i--; o.push_back(i[0]); } }
bool vp_empty(V const& v) { return v.empty(); }
std::size_t vp_size(V const& v) { return v.size(); }
std::size_t vp_max_size(V const& v) { return v.max_size(); }
std::size_t vp_capacity(V const& v) { return v.capacity(); }
void vp_clear(V& v) { v.clear(); }
std::ptrdiff_t vp_insert(V& v, std::ptrdiff_t k, int const& x) { return v.insert(v.cbegin() + k, x) - v.begin(); }
std::ptrdiff_t vp_insert_rv(V& v, std::ptrdiff_t k, int&& x) { return v.insert(v.cbegin() + k, std::move(x)) - v.begin(); }
std::ptrdiff_t vp_insert_n(V& v, std::ptrdiff_t k, std::size_t n, int const& x) { return v.insert(v.cbegin() + k, n, x) - v.begin(); }
std::ptrdiff_t vp_insert_range(V& v, std::ptrdiff_t k, std::vector<int> const& s) { return v.insert(v.cbegin() + k, s.begin(), s.end()) - v.begin(); }
std::ptrdiff_t vp_insert_il2(V& v, std::ptrdiff_t k, int a, int b) { return v.insert(v.cbegin() + k, { a, b }) - v.begin(); }
std::ptrdiff_t vp_insert_self(V& v, std::ptrdiff_t k, std::size_t i) { return v.insert(v.cbegin() + k, v[i]) - v.begin(); }
std::ptrdiff_t vp_insert_n_self(V& v, std::ptrdiff_t k, std::size_t n, std::size_t i) { return v.insert(v.cbegin() + k, n, v[i]) - v.begin(); }
std::ptrdiff_t vp_erase(V& v, std::ptrdiff_t k) { return v.erase(v.cbegin() + k) - v.begin(); }
std::ptrdiff_t vp_erase_range(V& v, std::ptrdiff_t k, std::ptrdiff_t l) { return v.erase(v.cbegin() + k, v.cbegin() + l) - v.begin(); }
void vp_push_back(V& v, int const& x) { v.push_back(x); }
void vp_push_back_rv(V& v, int&& x) { v.push_back(std::move(x)); }
void vp_push_back_self(V& v, std::size_t i) { v.push_back(v[i]); }
void vp_pop_back(V& v) { v.pop_back(); }
void vp_resize(V& v, std::size_t n) { v.resize(n); }
void vp_resize_v(V& v, std::size_t n, int const& x) { v.resize(n, x); }
void vp_swap(V& v, V& u) { v.swap(u); }
bool vp_eq(V const& a, V const& b) { return a == b; }
bool vp_ne(V const& a, V const& b) { return a != b; }
bool vp_lt(V const& a, V const& b) { return a < b; }
bool vp_le(V const& a, V const& b) { return a <= b; }
bool vp_gt(V const& a, V const& b) { return a > b; }
bool vp_ge(V const& a, V const& b) { return a >= b; }
std::ptrdiff_t vp_it_add(V& v, std::ptrdiff_t k, std::size_t n) { return ((v.begin() + k) + n) - v.begin(); }
std::ptrdiff_t vp_it_radd(V& v, std::ptrdiff_t k, std::size_t n) { return (n + (v.begin() + k)) - v.begin(); }
std::ptrdiff_t vp_it_sub(V& v, std::ptrdiff_t k, std::size_t n) { return ((v.begin() + k) - n) - v.begin(); }
std::ptrdiff_t vp_it_pluseq(V& v, std::ptrdiff_t k, std::size_t n) { auto i = v.begin() + k; i += n; return i - v.begin(); }
std::ptrdiff_t vp_it_minuseq(V& v, std::ptrdiff_t k, std::size_t n) { auto i = v.begin() + k; i -= n; return i - v.begin(); }
bool vp_it_lt(V& v, std::ptrdiff_t k, std::ptrdiff_t l) { return v.begin() + k < v.begin() + l; }
bool vp_it_le(V& v, std::ptrdiff_t k, std::ptrdiff_t l) { return v.begin() + k <= v.begin() + l; }
bool vp_it_gt(V& v, std::ptrdiff_t k, std::ptrdiff_t l) { return v.begin() + k > v.begin() + l; }
bool vp_it_ge(V& v, std::ptrdiff_t k, std::ptrdiff_t l) { return v.begin() + k >= v.begin() + l; }
bool vp_it_eq(V& v, std::ptrdiff_t k, std::ptrdiff_t l) { return v.begin() + k == v.cbegin() + l; }
