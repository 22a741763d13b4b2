AI = "static abstract interpretation (exact interval sets over the resolved clang AST)"
TB = "Trusts clang's front end, the exporter and the transfer functions in engine/, and the transcription of the standard in checks/."

prop("C01", "Code-point classes contain exactly the code points their standard lists",
     "Every code-point classification the library offers (Infra's ASCII, control, surrogate, noncharacter and hex classes, the URL code points and forbidden host code points, and the CSS Syntax input classes) answers true for exactly the code points of its definition in the corresponding standard and false for every other value.",
     ["inputs"], "all 2^32 values of char32_t, for each classification predicate",
     "A test samples a few code points per class; a wrong boundary or a missing isolated code point survives unless that very code point is sampled.",
     ["include/wordring/whatwg/infra/infra.hpp", "include/wordring/whatwg/infra/unicode.hpp", "include/wordring/whatwg/url/url.hpp", "include/wordring/whatwg/url/host.hpp", "include/wordring/wwwc/css_syntax/tokenization.hpp"],
     [("is_* predicates", "include/wordring/whatwg/infra/infra.hpp"), ("CSS is_* predicates", "include/wordring/wwwc/css_syntax/tokenization.hpp")],
     AI, "proof", "Exact for every code point: the accepted set is computed as an interval set and compared with the standard's. " + TB)

prop("C02", "Percent-encode sets contain exactly the code points of the URL standard",
     "Each percent-encode set (C0 control, fragment, query, special-query, path, userinfo, component, application/x-www-form-urlencoded) contains exactly the code points the URL standard gives for it.",
     ["inputs"], "all 2^32 values of char32_t, for each of the eight sets",
     "Tests sample a handful of members of a set; a set that lost or gained one code point yields URLs that differ from other implementations only for that code point.",
     ["include/wordring/whatwg/url/infra.hpp"],
     [("is_*_percent_encode_set", "include/wordring/whatwg/url/infra.hpp")],
     AI, "proof", "Exact for every code point. " + TB)

prop("C03", "HTML tokenizer: every state transitions and emits as the standard says",
     "From every tokenizer state and for every next code point (or end of input), the HTML tokenizer moves to the state, emits the tokens, and updates the token under construction, attribute, temporary buffer and return state exactly as the HTML standard's tokenization section prescribes.",
     ["inputs", "histories"], "every tokenizer state (80, with the character reference and attribute-list states) x every 32-bit input value and end of input x every relevant context (last start tag, return state, contents of the buffers)",
     "Tests feed a few documents; one wrong transition for one code point in one of 80 states changes how a page is read and is only seen by an input that reaches that state with that code point.",
     ["include/wordring/whatwg/html/parsing/tokenization.hpp"],
     [("on_*_state", "include/wordring/whatwg/html/parsing/tokenization.hpp"), ("emit_token", "include/wordring/whatwg/html/parsing/tokenization.hpp")],
     AI + "; per-state path summaries compared with a transcription of the standard", "other", "Every path through every state function is summarised under its exact input set and compared with the standard. The inverted CDATA namespace test, codified by two existing tests, is a recorded finding. " + TB)

prop("C04", "HTML tokenizer: parse errors are reported exactly where the standard says",
     "For every tokenizer state and every next code point or end of input, the tokenizer reports exactly the parse errors that the HTML standard prescribes for that transition, and none elsewhere; a duplicate attribute and invalid numeric character references are included.",
     ["inputs", "histories"], "every tokenizer state x every 32-bit input value and end of input x every relevant context",
     "A conformance checker relies on the error list for arbitrary documents; tests check the errors of a few.",
     ["include/wordring/whatwg/html/parsing/tokenization.hpp"],
     [("report_error calls in on_*_state", "include/wordring/whatwg/html/parsing/tokenization.hpp")],
     AI + "; per-state path summaries compared with a transcription of the standard", "other", "Same summaries as C03, projected on reported errors. " + TB)

prop("C05", "HTML input stream: newline normalisation, look-ahead and reconsume lose nothing",
     "However the input is split into pushes, the tokenizer sees every code point exactly once with CR and CRLF turned into LF, sees the end of input once and last, can look ahead and step back without losing or duplicating input, matches keywords case-insensitively only where the standard says, and resolves named character references to the longest matching name.",
     ["inputs", "histories"], "every sequence of pushed code points (as a finite transducer, by fixpoint over its abstract states), and every look-ahead, match and reconsume call",
     "Tests push whole documents; the CR, end-of-input and waiting-for-more-input cases depend on where a push boundary falls.",
     ["include/wordring/whatwg/html/parsing/input_stream.hpp"],
     [("push_code_point / push_eof / consume / reconsume / fill / match", "include/wordring/whatwg/html/parsing/input_stream.hpp")],
     AI + "; finite-transducer fixpoint", "other", "The newline filter is compared with its specification transducer by fixpoint over all histories; the other operations by path summaries. " + TB)

prop("C06", "Decoders produce the standard's code points for every byte sequence",
     "Every decoder (UTF-8, UTF-16BE/LE, gb18030/GBK, Big5, EUC-JP, ISO-2022-JP, Shift_JIS, EUC-KR, the single-byte encodings, replacement and x-user-defined) answers, for every byte or end of queue after every history of bytes, with exactly the result the Encoding standard prescribes: the same code points, errors and continuations, the same bytes given back to the input, and the same following state; none reads outside its index or aborts.",
     ["inputs", "histories"], "every decoder class x every reachable decoder state (product with the standard's decoder, to a fixpoint) x every byte and end of queue",
     "Tests decode a few strings; a wrong boundary, a byte not given back after an invalid sequence or a stale state shows only for one byte sequence among millions.",
     ["include/wordring/whatwg/encoding/coder.hpp"],
     [("*_decoder::run", "include/wordring/whatwg/encoding/coder.hpp")],
     AI + "; lock-step product exploration with the standard's algorithm to a fixpoint", "other", "Bisimulation by abstract interpretation: states and bytes are symbolic, index tables uninterpreted (their contents are C08's). " + TB)

prop("C07", "Encoders produce the standard's bytes for every scalar value sequence",
     "Every encoder answers, for every scalar value or end of queue after every history, with exactly the bytes, error code point, prepended code points and following state that the Encoding standard prescribes; in particular every byte stays within eight bits and the ISO-2022-JP encoder ends in the ASCII state and makes progress on unmappable code points.",
     ["inputs", "histories"], "every encoder class x every reachable encoder state x every scalar value and end of queue",
     "Tests encode a few strings; a wrong boundary or an escape sequence missing in one state transition corrupts only texts that contain that combination.",
     ["include/wordring/whatwg/encoding/coder.hpp"],
     [("*_encoder::run", "include/wordring/whatwg/encoding/coder.hpp")],
     AI + "; lock-step product exploration with the standard's algorithm to a fixpoint", "other", "As C06, for encoders. " + TB)

prop("C08", "Encoding index tables and their lookups match the standard in both directions",
     "For every pointer, looking up the code point in each index gives the code point of the Encoding standard's index (or none), and for every code point the reverse lookup gives exactly the pointer the standard selects (first, last for the duplicated Big5 code points, or excluding the ranges the standard excludes for Shift_JIS and Big5), including the gb18030 ranges.",
     ["inputs"], "all entries of all 69 index tables (171061), every lookup function for all 2^32 arguments",
     "The tables hold over 170000 entries; tests look up a handful. One wrong entry, one unsorted pair or one wrong lookup bound corrupts the texts that use that character only.",
     ["lib/whatwg/encoding/indexes_code_point.cpp", "lib/whatwg/encoding/indexes_pointer.cpp", "include/wordring/whatwg/encoding/indexes.hpp", "include/wordring/whatwg/encoding/coder.hpp"],
     [("index tables", "lib/whatwg/encoding/indexes_code_point.cpp"), ("get_index_*", "include/wordring/whatwg/encoding/coder.hpp")],
     "static table extraction and comparison with reference indexes; abstract interpretation of the lookup functions", "other",
     "Every table entry read from the source is compared with reference data derived from the standard's indexes; lookups are interpreted for symbolic arguments. " + TB)

prop("C09", "Encoding labels resolve to exactly the standard's encodings and coders",
     "Every label of the Encoding standard (after stripping ASCII whitespace and ignoring ASCII case) resolves to its encoding and no other string resolves to any; every encoding has exactly the decoder, encoder, output encoding and name the standard gives it.",
     ["inputs"], "all 219 labels, all strings as arguments of get an encoding (by structure of the lookup), all encodings for every dispatch function",
     "Tests look up a few labels; a label that resolves to the wrong encoding, or an encoding dispatched to the wrong coder, garbles all pages that declare it.",
     ["include/wordring/whatwg/encoding/encoding.hpp", "include/wordring/whatwg/encoding/encoding_defs.hpp", "lib/whatwg/encoding/encoding.cpp"],
     [("get_encoding_name", "include/wordring/whatwg/encoding/encoding.hpp"), ("get_encoding_decoder / get_encoding_encoder / get_output_encoding_name", "include/wordring/whatwg/encoding/encoding.hpp")],
     "static table extraction and abstract interpretation of the lookups and dispatch functions", "other",
     "Tables are compared entry by entry, dispatch functions for every enumerator. " + TB)

prop("C10", "Encoding API: queues, BOMs, error modes and TextDecoder follow the standard",
     "I/O queues (read, peek, push, prepend, conversions) keep end-of-queue last and lose no item; process an item and process a queue push exactly the results, replacement characters or numeric references their error mode prescribes; decode, UTF-8 decode and BOM sniffing remove exactly the byte order mark the standard removes and pick its encoding; encode uses the output encoding; TextDecoder refuses unknown and replacement labels, keeps its decoder, leftover bytes and BOM flag across streamed chunks and resets them otherwise, throws in fatal mode, and drops only a leading BOM of Unicode encodings.",
     ["inputs", "histories"], "every item value, coder result, error mode, encoding and BOM prefix; queues of every shape up to three items with and without end-of-queue; all streaming flag combinations",
     "How bytes are split into chunks, where the end of queue lies and what an earlier call left behind are not varied by tests.",
     ["include/wordring/whatwg/encoding/terminology.hpp", "include/wordring/whatwg/encoding/encoding.hpp", "include/wordring/whatwg/encoding/api.hpp"],
     [("io_queue", "include/wordring/whatwg/encoding/terminology.hpp"), ("process_item / process_queue / bom_sniff / decode / encode", "include/wordring/whatwg/encoding/encoding.hpp"), ("text_decoder", "include/wordring/whatwg/encoding/api.hpp")],
     AI + "; operation traces compared with the standard's algorithms", "other",
     "Path summaries with symbolic items; queue contents up to three items (operations look only at emptiness, ends and size). " + TB)

prop("C11", "Every URL parser state does what the URL standard prescribes",
     "For every parser state, every code point (and end of input), every scheme kind, base URL, state override, buffer content and flag combination, the basic URL parser's state function makes the URL Standard's transition, changes exactly the URL fields, buffer and flags the standard changes (with the standard's percent-encode set), reports a validation error or failure exactly when the standard does, and moves the pointer as the standard says; the parser starts in the standard's initial state, strips and removes exactly the code points the standard strips, and runs states to end of input without reading beyond it.",
     ["inputs"], "all 21 states, all code points and end of input, all scheme kinds and special schemes, with and without base and state override, representative buffers of symbolic content",
     "A parse depends on the state, the code point, a look-ahead, the buffer, the base, the override and the flags together; tests visit a few dozen URLs.",
     ["lib/whatwg/url/url.cpp", "include/wordring/whatwg/url/url.hpp"],
     [("basic_url_parser state functions and run loop", "lib/whatwg/url/url.cpp"), ("url_record and helpers", "include/wordring/whatwg/url/url.hpp")],
     AI + "; per-state path summaries compared with a transcription of the standard", "other",
     "Every path through every state function under every context is compared with the standard's algorithm. Host parsing is C12's; IDNA (ICU) is not modelled. " + TB)

prop("C12", "Host and IP address parsing, serializing and comparing follow the URL standard",
     "The host parser classifies every string as the URL Standard does (IPv6 in brackets, opaque host, domain, IPv4) and yields its value, failure and validation error: IPv4 numbers in decimal, octal and hexadecimal with one to four parts and the standard's range checks; IPv6 pieces, compression and IPv4 tails; forbidden host code points; opaque-host percent-encoding. Serializing an address or host gives the standard's text (first longest zero run compressed, lower case hexadecimal, dotted decimal), host comparisons are true exactly for equal hosts, and no input makes these functions abort or read outside the string.",
     ["inputs"], "symbolic strings of every shape with a bounded number of pieces, parts and digits, each character symbolic; all 256 zero/non-zero patterns of IPv6 pieces",
     "Address parsing is all corner cases (empty parts, overlong numbers, one missing piece, compression at either end); tests give a few literal addresses.",
     ["lib/whatwg/url/host.cpp", "include/wordring/whatwg/url/host.hpp"],
     [("parse_host / parse_opaque_host / parse_ipv4 / parse_ipv4_number / parse_ipv6", "lib/whatwg/url/host.cpp"), ("serialize_ipv4 / serialize_ipv6 / serialize_host", "lib/whatwg/url/host.cpp"), ("host_base comparisons", "include/wordring/whatwg/url/host.hpp")],
     AI + "; path summaries compared with a transcription of the standard", "other",
     "String shapes are bounded (pieces, digits), characters symbolic; domain-to-ASCII is uninterpreted (ICU). " + TB)

prop("C13", "URL serialization, the URL object API and percent coding follow the standard",
     "Serializing a URL record yields the URL Standard's text for every combination of scheme, credentials, host, port, opaque or list path, query and fragment (including the '/.' marker before a path that would read as an authority), and two records compare equal exactly when their serializations do. The basic_url getters return the standard's component strings and every setter changes exactly the component the standard lets it change, leaving the record untouched when the standard refuses. percent_encode, percent_decode, the percent-encode sets' appliers and serialize_integer produce the standard's bytes for every input, and none of these functions aborts or reads outside its input.",
     ["inputs"], "records with symbolic component strings in every null/empty/non-empty combination, setters with the URL parser as an uninterpreted operator; strings of up to a bounded number of symbolic bytes",
     "A URL record has hundreds of component combinations and each setter has its own refusal rules; tests show one or two records per setter.",
     ["include/wordring/whatwg/url/api.hpp", "include/wordring/whatwg/url/infra.hpp", "include/wordring/whatwg/url/url.hpp", "lib/whatwg/url/url.cpp"],
     [("basic_url getters and setters", "include/wordring/whatwg/url/api.hpp"), ("serialize_url / equals", "lib/whatwg/url/url.cpp"), ("percent_encode / percent_decode / serialize_integer", "include/wordring/whatwg/url/infra.hpp")],
     AI + "; path summaries compared with a transcription of the standard", "other",
     "basic_url is decided for its u32string instantiation; strings have a bounded number of symbolic units; the basic URL parser is an operator here (C11 decides it). " + TB)

prop("C14", "Infra string algorithms and Unicode conversions give the standard's result",
     "Converting between UTF-8, UTF-16, UTF-32 and the code point type keeps every code point sequence: to_code_point reads exactly one code point of a well-formed string, to_string writes its shortest form, and encoding_cast between any two of char, char8_t, char16_t and char32_t yields the same code points. The Infra algorithms (byte and ASCII case mapping and matching, isomorphic and ASCII encode/decode, newline stripping and normalizing, whitespace stripping, collapsing and skipping, collecting a sequence, and the strict, whitespace and comma splits) return the standard's result for every string in each character type, leave characters they do not name unchanged, and never read outside the string.",
     ["inputs"], "strings of bounded length whose every code point is symbolic over its whole range, in four character types",
     "Each algorithm must hold for all 1,112,064 code points in each encoded length, alone, first and last; tests use a few ASCII strings.",
     ["include/wordring/whatwg/infra/infra.hpp", "include/wordring/whatwg/infra/unicode.hpp"],
     [("string algorithms", "include/wordring/whatwg/infra/infra.hpp"), ("to_code_point / to_string / encoding_cast", "include/wordring/whatwg/infra/unicode.hpp")],
     AI + "; path summaries compared with a transcription of the standard", "other",
     "Strings of a bounded number of code points, each symbolic; ill-formed input is outside the statement. " + TB)

prop("C15", "tree: every operation yields exactly the forest it documents",
     "The ordered-tree container keeps a well-formed forest whatever sequence of operations is applied: insert and emplace (before a sibling, as first or last child, as a root), insert of a copied subtree, erase, move and moving to the same place, push/pop at either end, clear, assign, copy, swap and construction leave exactly the forest the operation documents, with every other node's value, parent, and sibling order unchanged, and return an iterator to the right node; erased slots are reused and never reachable; size, empty, front, back, parent, begin/end, rbegin/rend, ++/-- and the pre-order and level-order traversals visit exactly the nodes of that forest in order; moving a node into its own descendants is refused.",
     ["histories", "inputs"], "every well-formed tree state (per shape and slot layout up to the neighbourhood the operation touches), every position, symbolic values",
     "Link surgery goes wrong for particular neighbourhoods (only child, last child, free slot reused, two levels left at once) and shows only operations later; tests walk a few fixed trees.",
     ["include/wordring/tree/tree.hpp", "include/wordring/tree/tree_iterator.hpp"],
     [("tree", "include/wordring/tree/tree.hpp"), ("tree_node_iterator / traversal", "include/wordring/tree/tree_iterator.hpp")],
     AI.replace("exact interval sets", "shape partitions") + "; one-step preservation of the shape invariant and of a model forest", "other",
     "Shapes up to four/five nodes with free slots and scrambled slot order, every position; links are only followed one neighbour at a time, so these contain every neighbourhood, but this small-scope step is argued, not proved. Inserting a subtree of the tree into itself is a precondition. " + TB)

prop("C16", "tag_tree: every operation yields exactly the documented tag sequence",
     "The tag tree keeps a properly nested linear sequence of start, end and single tags whatever operations are applied: insert, erase, move (also to where the node already is), push/pop, clear, copy and swap leave exactly the sequence that the operation documents, every slot is either in the sequence or free, iterators returned point at the right node, node iterators (parent, begin, end, ++, --) follow the tree the tags describe, and serial iterators walk the sequence of tags in both directions.",
     ["histories", "inputs"], "every well-formed tag sequence (per shape up to the neighbourhood the operation touches), every position, symbolic values",
     "A wrong prev/next link shows only for particular neighbours (single tags, empty elements, first or last slot) and often only in a later operation.",
     ["include/wordring/tag_tree/tag_tree.hpp", "include/wordring/tag_tree/tag_tree_iterator.hpp"],
     [("tag_tree", "include/wordring/tag_tree/tag_tree.hpp"), ("node and serial iterators", "include/wordring/tag_tree/tag_tree_iterator.hpp")],
     AI.replace("exact interval sets", "shape partitions") + "; one-step preservation of the shape invariant and of a model forest", "other",
     "Forests of up to four nodes, childless nodes both as single tags and as empty elements, with and without free slots. Moving a node into its own descendants is a precondition. " + TB)

prop("C17", "static_vector behaves as a sequence of bounded capacity",
     "Every operation of static_vector gives the elements, order, size and returned position that the same operation gives on std::vector as long as the result fits its capacity: construction, assign, element access, insert (single, repeated, range, initializer list, also of one of its own elements), erase, push/pop/emplace, resize, swap, comparison, copy and iterators in both directions; at() refuses every position not less than the size.",
     ["inputs"], "every size from empty to capacity, every position, count and range within the preconditions, symbolic elements",
     "Off-by-one shifts, stale elements beyond the size and aliasing of inserted elements depend on position, size and fullness together; tests use a few combinations.",
     ["include/wordring/static_vector/static_vector.hpp"],
     [("static_vector, static_vector_iterator", "include/wordring/static_vector/static_vector.hpp")],
     AI.replace("exact interval sets", "element terms") + "; result compared with a sequence model", "other",
     "Capacity four, elements symbolic; the template does not depend on either. " + TB)

prop("C18", "CSS tokenizer yields the tokens, values and parse errors of CSS Syntax",
     "For every input code point sequence the CSS tokenizer produces the tokens CSS Syntax section 4.3 prescribes: token kind, its value (identifiers and strings with escapes resolved, hash type flag, numbers with value and type flag, units), where the next token begins, and the reported parse errors; it never reads outside the input and never aborts, also when the input ends inside a token. Preprocessing replaces CR, CRLF, FF, NUL and surrogates as prescribed, and the fallback encoding is that of a leading @charset rule.",
     ["inputs"], "strings of bounded length whose every code point is symbolic, alone and behind each prefix that selects a branch",
     "Three-code-point lookahead, escapes, exponents and the end of input interact; a wrong branch shows only for particular neighbouring code points, which tests hardly combine.",
     ["include/wordring/wwwc/css_syntax/tokenization.hpp", "include/wordring/wwwc/css_syntax/input_stream.hpp", "include/wordring/wwwc/css_syntax/token.hpp"],
     [("consume_token and the tokenizer algorithms", "include/wordring/wwwc/css_syntax/tokenization.hpp"), ("filter_code_points, determine_fallback_encoding", "include/wordring/wwwc/css_syntax/input_stream.hpp")],
     AI + "; path summaries compared with a transcription of the standard", "other",
     "Up to three free code points behind each prefix; numbers with up to two symbolic digits per part plus long constant ones, compared within double rounding. Label lookup is C09's. " + TB)

prop("C19", "HTML serialization yields the standard's markup for every node tree",
     "Serializing the children of any node yields exactly the markup of the HTML fragment serialization algorithm: start tags with every attribute (name with its prefix, value escaped), text escaped except below the raw text elements of the HTML namespace, comments, processing instructions and doctypes in document order, one end tag per element after its content, and neither content nor end tag for void elements; the walk never asks a document or fragment for an element's name, never aborts and always ends.",
     ["inputs"], "every ordered forest of up to four nodes of every kind, every tag, namespace and attribute name, every character",
     "Whether end tags, escaping and void handling are right depends on combinations of shape, tag, namespace and character; a test samples a handful of documents.",
     ["include/wordring/whatwg/html/parsing/serializing.hpp"],
     [("to_string, serializes_as_void, escape_string", "include/wordring/whatwg/html/parsing/serializing.hpp")],
     AI + "; path summaries compared with a transcription of the standard", "other",
     "Forests of up to four nodes over a model DOM; strings of one or two symbolic characters (they are only walked). Template contents and scripting are not modelled by the library and left out. " + TB)

prop("C20", "HTML tree construction: scopes, stacks and insertion follow the standard",
     "The algorithms every insertion mode of the HTML parser is built from give the standard's result in every parser state: whether an element is in scope, which elements are special or implied, generating implied end tags, clearing the stack back to a context, pushing onto and reconstructing the list of active formatting elements, resetting the insertion mode, the appropriate place for inserting a node (foster parenting and templates included), inserting elements, characters and comments, adjusting MathML, SVG and foreign attributes, the quirks decision for a DOCTYPE, and whether a token goes to the current insertion mode or to the rules for foreign content.",
     ["inputs", "histories"], "every tag, namespace and attribute name; stacks of up to four elements; lists of active formatting elements of up to five entries; every DOCTYPE the standard tells apart",
     "These algorithms depend on the tag and namespace of every element on the stack; a test walks a handful of documents and almost never the combination with a foreign element, a template or a marker in between.",
     ["include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp", "include/wordring/whatwg/html/parsing/token.hpp"],
     [("in_specific_scope, generate_implied_end_tags, push/reconstruct formatting elements, reset_insertion_mode_appropriately, appropriate_place_for_inserting_node, insert_*, adjust_*, in_quirks_condition, process_token", "include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp"), ("token_attribute::clear", "include/wordring/whatwg/html/parsing/token.hpp")],
     AI + "; path summaries compared with a transcription of the standard's algorithms over a model DOM", "other",
     "Parse errors are not compared. A missing and an empty system identifier are one to the library's token and one here. The content of the constant tables is C21's. " + TB)

prop("C21", "HTML name and character reference tables are the standard's and agree",
     "Every named character reference of the HTML standard, and no other name, is in the parser's table with the standard's characters; the replacements for numeric references, the case-corrected SVG element and attribute names, the adjusted foreign attributes and the public identifiers that force quirks mode are exactly the standard's; and every element, attribute and namespace enumerator has one name which maps back to it.",
     ["inputs"], "every entry of every table: 2231 named references, 427 tags, 634 attributes, 7 namespaces, and the conversion tables",
     "The tables hold tens of thousands of numbers in a double array; a test looks up a handful of them, and one changed number breaks one name only.",
     ["lib/whatwg/html/parsing/atom_tbl.cpp", "include/wordring/whatwg/html/parsing/atom_defs.hpp"],
     [("named_character_reference_idx_tbl, named_character_reference_map_tbl, tag_atom_tbl, tag_name_tbl, attribute_*_tbl, *_conversion_tbl, quirks_mode_tbl", "lib/whatwg/html/parsing/atom_tbl.cpp")],
     "analysis of constant initialisers in the compiler's syntax tree: decoding of the double arrays and comparison with the standard's lists", "other",
     "Python's html.entities.html5 stands for the standard's list of named references; the other lists are transcribed in checks/c20.py and checks/c21.py.")

prop("C22", "trie and stable_trie are maps: every operation gives the documented contents",
     "Whatever keys a trie or stable_trie holds, each operation gives exactly what a map from strings to values gives: insert, erase, operator[], at, assign from a list (sorted or not, with duplicates, onto a non-empty trie), loading and saving, clear and swap leave exactly the expected keys with their values and the right size(); find, contains, search and lookup (longest stored prefix) answer for every string; iterators give the label, children in order, parent, next sibling and full string of the node they point at; and the double array itself stays consistent (every slot in use reachable from the root, every other slot once on the free list).",
     ["histories", "inputs"], "every key set up to the neighbourhood an operation touches (up to three keys of up to three labels, shared prefixes, keys inside keys), dense and spread arrays with and without free slots, present and absent keys, symbolic values",
     "The double array moves whole sibling sets when labels collide; whether links, leaf values and the free list survive depends on the labels, their placement and the order of earlier operations, and damage shows operations later.",
     ["include/wordring/trie/trie.hpp", "include/wordring/trie/trie_base.hpp", "include/wordring/trie/stable_trie_base.hpp", "include/wordring/trie/trie_heap.hpp", "include/wordring/trie/trie_iterator.hpp"],
     [("basic_trie", "include/wordring/trie/trie.hpp"), ("trie_base", "include/wordring/trie/trie_base.hpp"), ("stable_trie_base", "include/wordring/trie/stable_trie_base.hpp"), ("trie_heap: locate, allocate, relocate, free, reserve", "include/wordring/trie/trie_heap.hpp"), ("iterators", "include/wordring/trie/trie_base_iterator.hpp"), ("list construction", "include/wordring/trie/trie_construct_iterator.hpp")],
     AI.replace("exact interval sets", "shape partitions") + "; one-step preservation of the double array's representation invariant and of a model map", "other",
     "Labels of one and two bytes; the small-scope step (sets of up to three keys contain every neighbourhood an operation touches) is argued, not proved. static_vector is taken as what C17 shows it to be. Stream operators are left out. " + TB)

prop("C23", "Integers serialize to big-endian bytes and back, for every width and sign",
     "serialize writes any integer of any width, signed or unsigned, as exactly sizeof bytes, most significant first; deserialize reads exactly that many bytes and gives back the same integer; serialize_iterator and deserialize_iterator give the same bytes and integers one at a time in the same order, reach their end exactly after the last one, and comparing them at any position in between says so.",
     ["inputs"], "every value of every integer type of 1, 2, 4 and 8 bytes, signed and unsigned; every position within a sequence of integers",
     "Sign extension, shifts and promotion go wrong for bytes of 128 and above in particular places only; tests use a few small numbers.",
     ["include/wordring/serialize/serialize.hpp", "include/wordring/serialize/serialize_iterator.hpp"],
     [("serialize, deserialize", "include/wordring/serialize/serialize.hpp"), ("serialize_iterator, deserialize_iterator", "include/wordring/serialize/serialize_iterator.hpp")],
     AI + "; the integer is a sum of symbolic bytes", "other",
     "Exact in the values; sequences of up to three integers for the iterators. " + TB)

prop("C24", "string_matcher says after each character: complete, possible, or impossible",
     "After every pushed character string_matcher answers succeed exactly when the characters pushed so far are one of its strings, failed exactly when none of its strings begins with them, and partial otherwise; data() and size() give the characters pushed since the last clear, and clear makes every string possible again.",
     ["inputs", "histories"], "every list of up to three strings of up to three symbolic characters, every prefix pushed, every next character",
     "Whether a string is ruled out too early or kept too long depends on the other strings and on the order of characters; tests push a few words.",
     ["include/wordring/string/matcher.hpp"],
     [("string_matcher::push_back, clear, size, data", "include/wordring/string/matcher.hpp")],
     AI + "; one-step preservation of the matcher's state invariant", "other",
     "Lists of up to three strings, one step from every reachable state. push_back after succeed or failed is a precondition violation. " + TB)

prop("N01", "HTML parsing yields the standard's document for every input",
     "Parsing any byte stream yields the node tree the HTML standard prescribes, whatever sequence of tokens the document produces and however it is split into pushes.",
     ["inputs", "histories"], "every document",
     "The insertion modes interact over unbounded histories of open elements and formatting elements.",
     ["include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp", "include/wordring/html/simple_parser.hpp"],
     [("on_*_insertion_mode", "include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp")],
     na="The result of a whole parse is a function of an unbounded history of open elements, formatting elements and the tree built so far; no finite abstraction of that state in reach keeps enough to compare documents. The steps it is made of are decided instead: C03-C05 (tokenizer), C06-C10 (decoding), C20 (algorithms of tree construction), C21 (tables), C15 and C16 (the tree).")

prop("N02", "Selectors match exactly the elements the Selectors standard says",
     "For every valid selector and every document, query gives exactly the elements the selector matches, and every invalid selector is rejected.",
     ["inputs"], "every selector string and every tree",
     "Combinators, attribute operators and namespaces multiply.",
     ["include/wordring/wwwc/selectors/grammar.hpp", "include/wordring/wwwc/selectors/api.hpp", "include/wordring/css/selector.hpp"],
     [("selector grammar and matching", "include/wordring/wwwc/selectors/grammar.hpp")],
     na="The grammar works on streams of variants that own further variants through unique_ptr (see N05), which the interpreter loses track of, and matching walks whole documents; no bound on either side is small enough to enumerate shapes.")

prop("N03", "Domain names are processed as UTS 46 says",
     "domain_to_ascii and domain_to_unicode give the UTS 46 result or failure for every domain.",
     ["inputs"], "every string of code points",
     "The mapping has tens of thousands of entries and contextual rules.",
     ["lib/whatwg/url/host.cpp", "include/wordring/whatwg/url/host.hpp"],
     [("domain_to_ascii, domain_to_unicode", "include/wordring/whatwg/url/host.hpp")],
     na="The whole computation is done by ICU, whose source is not in the repository; static analysis of this source can only see the call. What the library does around the call (failure handling, forbidden code points, percent decoding) is decided by C12.")

prop("N04", "Containers written to a stream and read back are equal",
     "Writing a trie, tree or atom table to a stream and reading it back gives an equal container and leaves the rest of the stream unread.",
     ["inputs"], "every container content, every stream content behind it",
     "Only a non-empty rest of the stream shows reading too far.",
     ["include/wordring/trie/trie_heap.hpp", "include/wordring/trie/trie_base.hpp"],
     [("operator<<, operator>>", "include/wordring/trie/trie_heap.hpp")],
     na="The operators work through std::ostream and std::istream state and istream iterators, i.e. on buffers filled at run time by library code outside the analysed source; the engine has no sound transfer function for them.")

prop("N05", "CSS parsing yields the standard's component values and rules for every input",
     "The consume algorithms of CSS Syntax section 5 give the standard's lists of rules, declarations and component values for every token list.",
     ["inputs"], "every token list",
     "Blocks and functions nest without bound.",
     ["include/wordring/wwwc/css_syntax/parsing.hpp"],
     [("consume_* algorithms", "include/wordring/wwwc/css_syntax/parsing.hpp")],
     na="The algorithms recurse over variants whose alternatives own vectors of further variants through unique_ptr; the interpreter loses the alternative when such a value is copied and then explores all of them at every level, beyond any usable number of paths (tried; every obligation came out undecided). The tokens they start from are decided by C18.")
