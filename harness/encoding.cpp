#include <wordring/whatwg/infra/infra.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
#include <wordring/whatwg/encoding/encoding.hpp>
#include <wordring/whatwg/encoding/api.hpp>

using namespace wordring::whatwg::encoding;

template <class C> C wrx_make() { C c; return c; }
template <class C, class T> result_value wrx_run(C& c, io_queue<T>& in, io_item<T> item) { return c.run(in, item); }
template <class C> void wrx_use(C& c)
{
	wrx_make<C>();
	if constexpr (std::is_base_of_v<decoder, C>) { io_queue<char> q; wrx_run<C, char>(c, q, io_item<char>{}); }
	else { io_queue<char32_t> q; wrx_run<C, char32_t>(c, q, io_item<char32_t>{}); }
}
template <class... T> void wrx_all(std::variant<T...>& c) { (wrx_use(std::get<T>(c)), ...); }
void wrx_coders(coder& c) { wrx_all(c); }

template class wordring::whatwg::encoding::io_queue<char>;
template class wordring::whatwg::encoding::io_queue<char32_t>;

void wrx_api(io_queue<char>& b, io_queue<char32_t>& u, encoding_name n, coder c)
{
	process_queue(c, b, u, error_mode_name::Replacement);
	process_queue(c, u, b, error_mode_name::Html);
	utf8_decode(b, u);
	utf8_decode_without_bom(b, u);
	utf8_decode_without_bom_or_fail(b, u);
	utf8_encode(u, b);
	decode(b, n, u);
	bom_sniff(b);
	encode(u, n, b);
	encode_or_fail(u, c, b);
	std::array<std::uint8_t, 2> a{};
	b.prepend(a.begin(), a.end());
	b.push(a.begin(), a.end());
	std::string s;
	std::u32string s32;
	from_io_queue_convert(b, std::back_inserter(s));
	from_io_queue_convert(u, std::back_inserter(s32));
	to_io_queue_convert(s.begin(), s.end());
	to_io_queue_convert(s32.begin(), s32.end());
	text_decoder d(n, false, false);
	d.decode(s.begin(), s.end(), false);
}
