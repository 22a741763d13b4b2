#include <cassert>
#include <cstdint>
#include <iterator>
#include <array>
#include <string>
#include <vector>
#include <wordring/serialize/serialize.hpp>
#include <wordring/serialize/serialize_iterator.hpp>

// entry points: serialization of every integer width, signed and unsigned
#define SER(P, T) \
std::array<std::uint8_t, sizeof(T)> P##ser(T n) { return wordring::serialize(n); } \
std::uint8_t P##pos(T n, std::uint32_t p) { return wordring::serialize(n, p); } \
std::size_t P##des(std::vector<std::uint8_t> const& v, T& r) { return wordring::deserialize(v.begin(), v.end(), r) - v.begin(); } \
std::size_t P##dec(std::string const& v, T& r) { return wordring::deserialize(v.begin(), v.end(), r) - v.begin(); } \
void P##it(std::vector<T> const& v, std::vector<std::uint8_t>& o) { auto a = wordring::serialize_iterator(v.begin()); auto b = wordring::serialize_iterator(v.end()); for (int n = 0; n < 40 && a != b; ++n) { o.push_back(*a); ++a; } } \
void P##itp(std::vector<T> const& v, std::vector<std::uint8_t>& o) { auto a = wordring::serialize_iterator(v.begin()); auto b = wordring::serialize_iterator(v.end()); for (int n = 0; n < 40 && !(a == b); ++n) o.push_back(*a++); } \
bool P##ne(std::vector<T> const& v, std::uint32_t i, std::uint32_t j) { auto a = wordring::serialize_iterator(v.begin()); auto b = a; while (i--) ++a; while (j--) ++b; return a != b; } \
std::size_t P##base(std::vector<T> const& v, std::uint32_t i) { auto a = wordring::serialize_iterator(v.begin()); while (i--) ++a; return a.base() - v.begin(); } \
void P##dit(std::string const& v, std::vector<T>& o) { using D = wordring::deserialize_iterator<T, std::string::const_iterator>; D a(v.begin()), b(v.end()); for (int n = 0; n < 40 && a != b; ++n) { o.push_back(*a); ++a; } } \
void P##ditp(std::string const& v, std::vector<T>& o) { using D = wordring::deserialize_iterator<T, std::string::const_iterator>; D a(v.begin()), b(v.end()); for (int n = 0; n < 40 && !(a == b); ++n) o.push_back(*a++); }
SER(vp_u8_, std::uint8_t)
SER(vp_i8_, std::int8_t)
SER(vp_u16_, std::uint16_t)
SER(vp_i16_, std::int16_t)
SER(vp_u32_, std::uint32_t)
SER(vp_i32_, std::int32_t)
SER(vp_u64_, std::uint64_t)
SER(vp_i64_, std::int64_t)
