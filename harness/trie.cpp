#include <cassert>
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>
#include <wordring/trie/trie.hpp>

// entry points: each operation of the tries (one byte and two byte labels) and of their iterators
#define TRIE(P, T, S) \
T::const_iterator P##insert(T& t, S const& k, std::uint32_t v) { return t.insert(k, v); } \
T::const_iterator P##insert_it(T& t, S const& k, std::uint32_t v) { return t.insert(k.begin(), k.end(), v); } \
void P##erase(T& t, S const& k) { t.erase(k); } \
void P##erase_it(T& t, S const& k) { t.erase(k.begin(), k.end()); } \
void P##erase_pos(T& t, T::const_iterator i) { t.erase(i); } \
T::const_iterator P##find(T const& t, S const& k) { return t.find(k); } \
T::const_iterator P##find_it(T const& t, S const& k) { return t.find(k.begin(), k.end()); } \
T::const_iterator P##search(T const& t, S const& k) { return t.search(k); } \
bool P##contains(T const& t, S const& k) { return t.contains(k); } \
bool P##contains_it(T const& t, S const& k) { return t.contains(k.begin(), k.end()); } \
T::const_iterator P##lookup(T const& t, S const& k) { return t.lookup(k.begin(), k.end()).first; } \
std::size_t P##lookup_n(T const& t, S const& k) { return t.lookup(k.begin(), k.end()).second - k.begin(); } \
std::int32_t P##at(T& t, S const& k) { return t.at(k); } \
std::int32_t P##at_c(T const& t, S const& k) { return t.at(k); } \
std::int32_t P##at_pos(T const& t, T::const_iterator i) { return t.at(i); } \
void P##at_set(T& t, S const& k, std::int32_t v) { t.at(k) = v; } \
void P##set(T& t, S const& k, std::int32_t v) { t[k] = v; } \
std::int32_t P##sub(T& t, S const& k) { return t[k]; } \
std::size_t P##size(T const& t) { return t.size(); } \
bool P##empty(T const& t) { return t.empty(); } \
void P##clear(T& t) { t.clear(); } \
void P##swap(T& t, T& u) { t.swap(u); } \
T P##ctor() { return T(); } \
void P##assign(T& t, std::vector<S> const& v) { t.assign(v.begin(), v.end()); } \
bool P##it_bool(T::const_iterator i) { return i; } \
bool P##it_not(T::const_iterator i) { return !i; } \
S::value_type P##it_deref(T::const_iterator i) { return *i; } \
T::const_iterator P##it_sub(T::const_iterator i, S::value_type c) { return i[c]; } \
T::const_iterator P##it_inc(T::const_iterator i) { ++i; return i; } \
T::const_iterator P##it_inc_r(T::const_iterator i) { return ++i; } \
T::const_iterator P##it_pinc(T::const_iterator i) { i++; return i; } \
T::const_iterator P##it_pinc_r(T::const_iterator i) { return i++; } \
T::const_iterator P##it_parent(T::const_iterator i) { return i.parent(); } \
T::const_iterator P##it_begin(T::const_iterator i) { return i.begin(); } \
T::const_iterator P##it_end(T::const_iterator i) { return i.end(); } \
void P##it_string(T::const_iterator i, S& s) { i.string(s); } \
T::const_iterator P##begin(T const& t) { return t.begin(); } \
T::const_iterator P##end(T const& t) { return t.end(); } \
void P##save(T const& t, std::vector<std::int32_t>& o) { o.assign(t.ibegin(), t.iend()); } \
void P##load(T& t, std::vector<std::int32_t> const& v) { t.assign(v.begin(), v.end()); } \
void P##load_b(T& t, std::vector<std::uint8_t> const& v) { t.assign(v.begin(), v.end()); }

using A = wordring::trie<char>;
using B = wordring::stable_trie<char>;
using D = wordring::trie<char16_t>;
using E = wordring::stable_trie<char16_t>;
TRIE(vp_a_, A, std::string)
TRIE(vp_b_, B, std::string)
TRIE(vp_d_, D, std::u16string)
TRIE(vp_e_, E, std::u16string)
