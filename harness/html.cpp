#include <wordring/whatwg/html/parsing/token.hpp>
#include <wordring/whatwg/html/parsing/input_stream.hpp>
#include <wordring/whatwg/html/parsing/tokenization.hpp>
#include <wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp>
#include <wordring/whatwg/html/parsing/serializing.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_node.hpp>
#include <wordring/html/simple_traits.hpp>
#include <wordring/html/simple_parser.hpp>
#include <wordring/tag_tree/tag_tree.hpp>

using wrx_tree = wordring::tag_tree<wordring::html::simple_node<std::u32string>>;
using wrx_traits = wordring::html::node_traits<typename wrx_tree::iterator>;

struct wrx_parser : wordring::html::simple_parser_base<wrx_parser, wrx_tree>
{
	using base = wordring::html::simple_parser_base<wrx_parser, wrx_tree>;
	using base::base;
};

template class wordring::whatwg::html::parsing::input_stream<wrx_parser>;
template class wordring::whatwg::html::parsing::tokenizer<wrx_parser, wrx_traits>;
template class wordring::whatwg::html::parsing::tree_construction_dispatcher<wrx_parser, wrx_traits>;
template class wordring::html::simple_parser_base<wrx_parser, wrx_tree>;

// the public entry points
void wrx_drive(wrx_parser& p, char32_t cp) { p.push_code_point(cp); p.push_eof(); }
