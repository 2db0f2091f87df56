#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from spec import PROPS

# id: (title, statement, over, quantifier text, why tests cannot, files, mechanisms[(name, where)], observe_at, state)
T = {}
def P(i, title, st, over, q, why, files, mech, obs, state=None):
    T[i] = (title, st, over, q, why, files, mech, obs, state or [])

H1 = ["src/http/request.rs", "src/helper.rs", "src/http/header.rs"]
P("P01", "A well-formed HTTP/1 request head is decoded to exactly what it says",
  "Parsing a complete HTTP/1 request head yields the method, the target (path, query, and for absolute, authority and asterisk form the scheme, host and port), the version and every header field in order that the bytes spell, with percent escapes resolved once. The number of bytes reported as consumed is the length of the head, so what follows it is left untouched for the body.",
  ["inputs"], "every method, version, target form, path, query, host, port, field name and value within the stated lengths, with whatever bytes follow the head",
  "the tests parse a dozen fixed requests; each names one method, one path and lower-case ASCII fields, and none varies the bytes of a component",
  H1 + ["src/url/url.rs"], [("request line and header scanning", "src/http/request.rs: parse_buffer, parse_connect_by_url, get_host, get_connect_url; src/helper.rs: parse_method, parse_token, parse_version, parse_header"), ("target parsing", "src/url/url.rs: parse")],
  ["Request::parse_buffer / parse", "Request::method, url, path, version, headers"])
P("P02", "A well-formed HTTP/1 response head is decoded to exactly what it says",
  "Parsing a complete HTTP/1 response head yields the version, the three-digit status code and the header fields, in order, that the bytes spell, whatever the reason phrase is (including none). A status line that is not a version, a space and three digits from 100 up is an error, and the reported size is the length of the head.",
  ["inputs"], "every version, status number, reason phrase, field name and value within the stated lengths",
  "the tests parse a handful of literal responses with common codes and phrases",
  ["src/http/response.rs", "src/helper.rs", "src/http/status.rs"], [("status line", "src/http/response.rs: parse_buffer; src/helper.rs: parse_status, parse_version"), ("fields", "src/helper.rs: parse_header")],
  ["Response::parse_buffer / parse", "Response::status, version, headers"])
P("P03", "HTTP/1 parsing of untrusted bytes always ends in a verdict",
  "Whatever bytes a peer sends, parsing them as a request or a response returns a message, an error or a request for more data: it does not panic, read outside the buffer, loop, or allocate out of proportion to the input. It never reports more bytes consumed than it was given.",
  ["inputs"], "every byte string up to the stated length, alone and inserted into otherwise valid heads at every position of interest",
  "the tests contain a few malformed messages chosen by hand; the space of hostile inputs is not sampled at all",
  H1 + ["src/http/response.rs", "src/url/url.rs", "src/url/mod.rs"], [("byte scanning", "src/helper.rs; src/http/request.rs and response.rs: parse_buffer")],
  ["Request::parse_buffer", "Response::parse_buffer"])
P("P04", "An HTTP/1 head cut anywhere asks for more, and retrying gives the same result",
  "Every proper prefix of a valid HTTP/1 head is reported as partial rather than as an error or as a complete message, and the object that saw the prefix, given the grown buffer, ends in the same state as a fresh one given everything at once. Once some bytes are rejected, no continuation of them is accepted, and a completed head is not changed by the bytes that follow it.",
  ["inputs", "histories"], "every head of the stated shapes with symbolic components, every cut position, every sequence of up to three growing reads, and every short byte string followed by every continuation",
  "the tests cut one request at one place; the cut position, the number of reads and the content are all quantified",
  H1 + ["src/http/response.rs"], [("partial detection and restart", "src/http/request.rs, src/http/response.rs: parse_buffer, is_partial"), ("line scanning", "src/helper.rs")],
  ["Request::parse_buffer, is_partial, is_complete", "Response::parse_buffer"], ["the partial flag and the half-filled message"])
P("P05", "An HTTP/1 message that is written reads back as the same message",
  "Serialising a request or response built through the API and parsing the bytes gives the same method, target, version, status and header fields in the same order, and the body bytes follow unchanged. The size reported for the written head is the number of bytes written, and a message's textual form is its wire form.",
  ["inputs", "programs"], "every method, version, path, query, status, field name and value within the stated lengths, with and without a body",
  "the tests compare a few fixed messages with their expected text; nothing is read back",
  ["src/http/request.rs", "src/http/response.rs", "src/http/header.rs", "src/url/url.rs", "src/serialize.rs"], [("writing", "src/http/request.rs, src/http/response.rs: encode_header, http1_data, Display; src/serialize.rs"), ("reading", "parse_buffer")],
  ["Request/Response encode_header, http1_data, to_string, parse_buffer"])
P("P06", "The header collection behaves as an ordered map with case-insensitive names",
  "After any sequence of insertions, additions, removals and clears, looking a name up in any letter case gives the value last stored for it, iteration gives every field once in order of first insertion, and the length agrees. The questions asked of a header set (keep-alive, upgrade, chunked, length, content coding, host) are answered from whole comma-separated tokens compared without regard to case.",
  ["histories", "inputs"], "every sequence of up to three operations over symbolic names and values, and every token list of the stated shapes",
  "the tests insert and read a few literal names; no sequence of operations and no token list is explored",
  ["src/http/header.rs", "src/http/name.rs", "src/http/value.rs"], [("map operations", "src/http/header.rs: insert, push, remove, get_value, contains, get_* and is_* helpers")],
  ["HeaderMap methods, iteration, Index"], ["the field list"])
P("P07", "Header names are equal exactly when they differ only in letter case",
  "Two header names compare equal exactly when their bytes are the same after ASCII lower-casing, however each was made (a predefined name or one read from the wire), and names that compare equal hash alike. A byte string is accepted as a name only if it is text.",
  ["inputs"], "every pair of names within the stated lengths, every predefined name against every case variant and every one-byte change",
  "the tests compare a few fixed pairs; equality must be an equivalence over all names and agree with hashing",
  ["src/http/name.rs"], [("equality and hashing", "src/http/name.rs: PartialEq, Hash, TryFrom, name")],
  ["HeaderName ==, Hash, TryFrom, as_str"])
P("P08", "A header value read as a number is that number or an error",
  "Reading a header value as a number gives exactly the decimal number it spells when it fits the type asked for, and an error in every other case: empty text, a misplaced sign, another character, or a number too large. A number written as a header value reads back as itself, and a message's declared body length follows the same rule.",
  ["inputs"], "every value of up to the stated length, and every digit string around the limits of the integer types",
  "overflow and malformed numbers occur at a few points of an unbounded space; the tests read two ordinary numbers",
  ["src/http/value.rs", "src/http/header.rs", "src/helper.rs"], [("conversion", "src/http/value.rs: TryInto<usize/isize/u32…>, From; src/http/header.rs: get_body_len")],
  ["HeaderValue conversions", "HeaderMap::get_body_len"])
P("P09", "Chunked transfer coding delivers exactly the bytes that were sent, once",
  "Encoding data as chunks and decoding the chunks one after another gives back the data and the end mark, consuming exactly the encoded bytes, and a chunk cut anywhere is reported as incomplete rather than as data. For any bytes at all the decoder answers with a chunk that lies within the input, with an incomplete result or with an error, and it never panics or accepts a length that overflows.",
  ["inputs", "histories"], "every payload within the stated sizes split into up to three chunks, every cut position, every byte string up to the stated length as decoder input, and lengths around the overflow limit",
  "the tests decode a fixed chunk stream; framing errors and overflow sit at points they do not visit",
  ["src/helper.rs"], [("chunk coding", "src/helper.rs: encode_chunk_data, parse_chunk_data")],
  ["Helper::encode_chunk_data, Helper::parse_chunk_data"])
P("P10", "Percent coding is reversible and rejects malformed escapes",
  "Decoding an encoded text gives the text back for every string, and the encoded form contains only characters a URL component may contain. Decoding turns each escape into exactly one byte, leaves other bytes alone, and fails on a malformed escape or on bytes that are not text.",
  ["inputs"], "every byte string and every text within the stated lengths",
  "the tests encode two or three phrases; every byte value in every position matters",
  ["src/url/mod.rs"], [("coding", "src/url/mod.rs: UrlCode::url_encode, url_decode")],
  ["UrlCode / Url encode and decode functions"])
P("P11", "A URL is split into exactly the components it spells, and any text is answered",
  "Parsing a URL gives its scheme, user information, host, port (the scheme's default when none is written), path and query as written with escapes resolved, for every combination of present and absent parts. A port is accepted only as a decimal number up to 65535, and arbitrary bytes give a URL or an error without a panic.",
  ["inputs"], "every combination of optional parts with symbolic content, every escape in every component, and arbitrary bytes alone and after prefixes that select each parser state",
  "the tests parse about ten literal URLs; delimiters inside components and escapes are not varied",
  ["src/url/url.rs", "src/url/scheme.rs", "src/url/mod.rs"], [("component scanner", "src/url/url.rs: Url::parse, parse_url_mapping"), ("escapes", "src/url/mod.rs")],
  ["Url::parse, FromStr for Url, the fields of Url"])
P("P12", "A URL written as text parses back to the same URL",
  "For every URL whose components hold arbitrary ASCII text, the displayed form parses, and parses to the same scheme, user information, host, port, path and query. Displaying and parsing again changes nothing more.",
  ["inputs"], "every ASCII text of the stated length in each component and pair of components, all schemes, default and explicit ports, and every short text that parses",
  "the tests display URLs without special characters; any delimiter inside any component is a separate case",
  ["src/url/url.rs", "src/url/builder.rs", "src/url/mod.rs"], [("display", "src/url/url.rs: Display"), ("builder", "src/url/builder.rs"), ("parse", "src/url/url.rs: parse")],
  ["Url::to_string, Url::parse, Url::builder"])
P("P13", "Methods, versions, status codes and schemes accept exactly the defined tokens",
  "A method, version or scheme is recognised from its exact spelling and from nothing else, and displays as it is spelled; a status code is accepted exactly when it is a number from 100 to 999 written with three digits. The class of a status code and its registered reason phrase follow its number.",
  ["inputs"], "every byte string up to the length of the longest token plus one, and all 65536 numbers",
  "the tests check members of the token sets, not that everything else is refused",
  ["src/http/method.rs", "src/http/version.rs", "src/http/status.rs", "src/url/scheme.rs"], [("tokens", "TryFrom / FromStr / as_str / Display of Method, Version, Scheme"), ("status", "src/http/status.rs: from_u16, from_bytes, as_str, canonical_reason")],
  ["Method, Version, StatusCode, Scheme conversions"])
P("P14", "An HTTP/2 frame header is nine octets that read back as written",
  "Reading nine octets gives the 24-bit length, the type, the flags and the 31-bit stream identifier they hold, with the reserved bit ignored, and writing a header yields nine octets that read back as the same header. Fewer than nine octets are reported as incomplete, and a combination of stream identifier and type that the protocol forbids is refused.",
  ["inputs"], "all nine octets symbolic, every shorter input",
  "a 72-bit space with per-field reserved bits is not sampled by the two frames the tests contain",
  ["src/http/http2/frame/mod.rs", "src/http/http2/frame/kind.rs", "src/http/http2/frame/flag.rs", "src/http/http2/frame/frame.rs"], [("header codec", "src/http/http2/frame/frame.rs: FrameHeader::parse, encode")],
  ["FrameHeader::parse, FrameHeader::encode"])
P("P15", "Decoding an HTTP/2 frame from a hostile peer ends in a frame or an error",
  "For every frame header and payload, decoding returns a frame or an error and never panics, loops or reads beyond the payload. A payload whose size, padding or stream identifier is illegal for its type, or whose settings are out of range, is refused.",
  ["inputs"], "every type, flag octet and stream identifier with symbolic payloads of the stated lengths",
  "each frame type has its own length, padding and range conditions and the tests exercise none of the invalid sides",
  ["src/http/http2/frame/"], [("payload decoding", "src/http/http2/frame/frame.rs: Frame::parse and the parse function of each frame type")],
  ["Frame::parse"])
P("P16", "Every HTTP/2 frame that is written reads back as the same frame",
  "Encoding a frame of any type and decoding the octets gives a frame of the same type, stream and content: data and end mark, header and pseudo-header fields, priority, reset and shutdown codes, settings, promised stream, ping payload and window increment. The octets announce their own length correctly.",
  ["inputs"], "symbolic stream identifiers, codes, weights, increments, settings, payload bytes and field values within the stated lengths, for every frame type",
  "the tests have no encode-decode round trip for most types; each field has its own width and reserved bits",
  ["src/http/http2/frame/"], [("encoding and decoding", "encode and parse of each frame type; src/http/http2/hpack/encoder.rs, decoder.rs for header blocks")],
  ["Frame::encode, Frame::parse"])
P("P17", "Large HTTP/2 data and header blocks are cut at the frame size and end once",
  "When data or a header block is longer than the peer's maximum frame size, it is sent as frames none of which exceeds it, whose payloads joined together are exactly the original, in order. The end-of-stream mark appears exactly once and where the protocol wants it, and only the last header frame closes the block.",
  ["inputs", "configurations"], "every maximum size and payload length within the stated bounds, with symbolic content",
  "the interesting sizes are the multiples of the limit and their neighbours, which the tests do not visit",
  ["src/http/http2/frame/data.rs", "src/http/http2/frame/headers.rs", "src/http/http2/hpack/encoder.rs"], [("splitting", "src/http/http2/frame/data.rs: encode; src/http/http2/frame/headers.rs: encode")],
  ["Data::encode, Headers::encode / Frame::encode with Encoder::max_frame_size"])
P("P18", "Header-compression integers are written and read without loss",
  "Every integer the encoder writes, with every prefix size, has the form the compression standard prescribes and is read back as the same integer with every octet consumed. A longer or overflowing representation is refused, and one cut short is an error or asks for more.",
  ["inputs"], "symbolic integers over the whole range a receiver accepts, all prefix sizes in use, every short octet string",
  "the tests check the two examples of the standard",
  ["src/http/http2/hpack/encoder.rs", "src/http/http2/hpack/decoder.rs"], [("integers", "src/http/http2/hpack/encoder.rs: encode_integer_into; src/http/http2/hpack/decoder.rs: decode_integer")],
  ["Encoder::encode_integer_into", "Decoder::decode"])
P("P19", "Huffman coding of header text is the standard code and reversible",
  "Encoding any octets with the header Huffman code and decoding gives the octets back, and the code words are those of the standard. Decoding refuses input whose padding is longer than seven bits or not all ones, or that contains the end-of-string word, and ends without a panic on any input.",
  ["inputs"], "every single octet and every short string of octets as text, every short octet string as code",
  "the tests decode a few strings; a wrong code word for a rare octet or a padding rule shows only on particular inputs",
  ["src/http/http2/hpack/huffman.rs"], [("coding", "src/http/http2/hpack/huffman.rs: HuffmanEncoder::encode, HuffmanDecoder::decode and their tables")],
  ["HuffmanEncoder::encode, HuffmanDecoder::decode"])
P("P20", "The header-compression table keeps its size bound and its indexes",
  "After any sequence of additions and size changes the dynamic table holds the most recent entries that fit (each costing its name and value length plus 32), newest first, after the 61 standard entries, and its size never exceeds the limit. Looking a field up gives an index whose entry is that field, or one whose entry has that name.",
  ["histories", "inputs"], "every sequence of up to the stated number of additions and size changes with symbolic sizes and limits",
  "eviction depends on the history of sizes; the tests run the examples of the standard",
  ["src/http/http2/hpack/header_index.rs"], [("table", "src/http/http2/hpack/header_index.rs: add_header, set_max_table_size, get_from_index, find_header")],
  ["HeaderIndex methods"], ["the dynamic table"])
P("P21", "Any header block is decoded as the standard says or refused",
  "Decoding a header block yields exactly the fields the compression standard assigns to it (indexed, literal with and without indexing, never indexed, size update; plain or Huffman text) and updates the table accordingly. Any other octets are refused without a panic, a loop or out-of-proportion memory.",
  ["inputs", "histories"], "every representation with symbolic indexes, lengths and text within the bounds, and every octet string up to the stated length",
  "the tests decode the standard's examples; every other octet string is unexplored",
  ["src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/header_index.rs", "src/http/http2/hpack/huffman.rs"], [("decoding", "src/http/http2/hpack/decoder.rs: decode_with_cb, decode_literal, decode_string, update_max_dynamic_size")],
  ["Decoder::decode, decode_with_cb"], ["the dynamic table"])
P("P22", "Header lists survive compression over any number of blocks",
  "For every sequence of header lists encoded by one encoder and decoded by one decoder, each list comes out as it went in, in order, and both ends hold the same table afterwards, whatever the table size.",
  ["histories", "inputs"], "every sequence of up to three blocks of fields over predefined and symbolic names with symbolic values, several table sizes",
  "the state shared by the two ends grows with the history; the tests run one block per test",
  ["src/http/http2/hpack/encoder.rs", "src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/header_index.rs"], [("encode and decode", "src/http/http2/hpack/encoder.rs: encode_into, encode_header_into; src/http/http2/hpack/decoder.rs")],
  ["Encoder::encode, Decoder::decode, HeaderIndex"], ["both dynamic tables"])
P("P23", "A WebSocket frame header reads back as written, in its shortest form only",
  "Writing a frame header and reading it gives the same flags, opcode, mask and length with exactly the written octets consumed, and the length takes the shortest of the three forms. Reading refuses longer forms than needed, fragmented or oversized control frames and incomplete input, and never panics.",
  ["inputs"], "every flag combination, opcode, mask and 64-bit length, and every octet string up to the stated length",
  "the length forms change at 126 and 65536; the tests visit one length per form at most",
  ["src/ws/frame_header.rs"], [("header codec", "src/ws/frame_header.rs: read_header, write_header")],
  ["frame_header::read_header, write_header"])
P("P24", "WebSocket masking is its own inverse at every offset",
  "Masking data twice with the same key gives the data back, octet i being combined with key octet i modulo four, no matter in how many pieces the data is written.",
  ["inputs", "histories"], "every key, every payload within the stated length, every split into up to three writes",
  "the tests mask one buffer in one piece",
  ["src/ws/mask.rs"], [("mask", "src/ws/mask.rs: mask_data, Masker")],
  ["mask::mask_data, Masker"])
P("P25", "A WebSocket data frame reads back as written",
  "Writing a frame, masked or not, and reading it gives the same end mark, reserved bits, opcode and payload, and the size reported for the frame is the number of octets written. A frame cut anywhere is reported as incomplete, and a payload longer than the reader's limit is refused before it is stored.",
  ["inputs", "configurations"], "every opcode and flag combination, symbolic payloads within the stated lengths, every cut, every limit near the length",
  "limits and cuts are quantified over positions; the tests read whole frames",
  ["src/ws/dataframe.rs", "src/ws/frame_header.rs", "src/ws/dataframe.rs"], [("frame codec", "src/ws/dataframe.rs: read_dataframe_with_limit, write_to; src/ws/dataframe.rs")],
  ["DataFrame::read_dataframe_with_limit, write_to, frame_size"])
P("P26", "WebSocket messages are assembled from their fragments without loss",
  "A message split into frames and assembled again has the same type and exactly the same content, text is accepted only if it is valid, and a close message keeps its code and reason. Every close code number maps to one code and back to the same number.",
  ["inputs", "histories"], "every split of symbolic text and binary payloads into up to three frames, all 65536 close codes, reasons within the stated length",
  "fragment boundaries inside a character and rare codes are points the tests do not visit",
  ["src/ws/message.rs"], [("messages", "src/ws/message.rs: OwnedMessage::from_dataframes, CloseData, CloseCode, write_to")],
  ["OwnedMessage, Message, CloseData, CloseCode"])
P("P27", "The extension store keeps one value of each type",
  "After any sequence of insertions, removals, merges and clears, asking for a type gives the last value stored of exactly that type and no other, inserting reports the value it replaces, and the count of values is right.",
  ["histories"], "every sequence of up to the stated number of operations over several types with symbolic values",
  "the tests store one value; replacement, merge and removal in sequence are not explored",
  ["src/extensions.rs"], [("typed map", "src/extensions.rs")], ["Extensions methods"], ["the stored values"])
P("P28", "HTTP/2 settings keep their values and refuse illegal ones",
  "Every setting that is set is sent once with its value and read back as that value, and settings never set are not sent. A received value outside the range the protocol allows, a payload that is not a whole number of settings, a non-zero stream or an acknowledgement with content is refused; unknown settings are ignored.",
  ["inputs", "configurations"], "every subset of settings with symbolic 32-bit values, every sequence of up to the stated number of received settings with symbolic identifiers",
  "range limits of four settings times 32-bit values; the tests contain one default settings frame",
  ["src/http/http2/frame/settings.rs"], [("settings", "src/http/http2/frame/settings.rs: load, encode, the setters and getters")],
  ["Settings, Frame::parse, Frame::encode"])
P("P29", "A request crosses HTTP/2 with its target and method intact",
  "Turning a request into an HTTP/2 header frame and the received frame back into a request gives the same method, scheme, host, port, path, query and header fields. Whatever pseudo-fields arrive, in any subset and with any content, the answer is a request that says what they say or an error, never a panic.",
  ["inputs"], "every method and scheme, symbolic path, query and field values within the stated lengths, default and explicit ports, each subset of pseudo-fields",
  "the tests convert one request",
  ["src/http/http2/frame/headers.rs", "src/http/request.rs", "src/url/url.rs"], [("conversion", "src/http/http2/frame/headers.rs: into_request, pseudo fields; src/url/url.rs: merge")],
  ["Headers::new_request/into_request, Request"])
P("P30", "A message keeps its parts when it is built, converted or cloned",
  "A request or response made with the builder has exactly the method, URL, version, status, fields and body it was given, in whatever order they were given, plus a default agent or server field when none was given and the Host field of an absolute URL; an invalid part makes the result an error. Changing the body or its type, taking the message apart and putting it together, replacing the body while cloning, and setters each change what they name and keep every other part, and the bodies come back unchanged. Merging a URL into another takes over what the other says and keeps the rest.",
  ["inputs", "histories"], "every method, version and status, symbolic paths, queries, hosts, field names, values and bodies within the stated lengths, several orders of the builder calls, every conversion",
  "the tests build messages in one order and look at the encoded text; what a conversion loses shows only for the parts that were set",
  ["src/http/request.rs", "src/http/response.rs", "src/url/url.rs"], [("builders and conversions", "src/http/request.rs: Builder, into, into_type, replace_clone, set_url; src/http/response.rs: Builder, into*, replace_*, map; src/url/url.rs: merge")],
  ["Request and Response builders and conversions, Url::merge"], ["method, URL, version, status, fields, body, extensions of a message"])

P("P31", "Stream numbers, frame weights and promised requests follow the protocol",
  "The stream numbers an endpoint hands out increase, are odd for a client and even for a server, and none is left out; a number is compared, shown and written as the number it is, the reserved bit being ignored when it is read. Frames queued by weight leave a priority queue heaviest first, each exactly once, and compare equal exactly if their weights are. A promised request is accepted exactly if its method is safe and cacheable (GET, HEAD) and it has no body (no Content-Length or 0).",
  ["inputs", "histories"], "every 31-bit stream number, a run of 300 numbers from the start and two from any number, queues of frames with any weights, every method with an empty or a non-empty body",
  "the order depends on each pair of weights and the refusal on each combination of method and body; the tests use neither",
  ["src/http/http2/frame/mod.rs", "src/http/http2/frame/frame.rs", "src/http/http2/frame/headers.rs", "src/http/http2/frame/priority.rs"], [("numbers", "src/http/http2/frame/mod.rs and stream identifiers: next_id, zero, parse"), ("weights", "src/http/http2/frame/frame.rs: PriorityFrame and its ordering"), ("promises", "src/http/http2/frame/headers.rs: validate_request")],
  ["StreamIdentifier", "PriorityFrame", "PushPromise::validate_request"])

P("P32", "Nothing but a well-formed HTTP/1 head is accepted, and as the grammar reads it",
  "A request or response head is accepted only if its bytes follow the message grammar: three words with a known method and version (or a version, a space and three digits), line ends of CR LF (or LF alone), each field a name of token characters, a colon and a value without CR or LF, and an empty line at the end; a stray CR, a line without a colon, a continuation line, a blank (but for blanks right before the colon) or control character in a name and a missing or additional word are refused. What is accepted is split exactly where the grammar splits it, the blanks around a value not being part of it.",
  ["inputs"], "every string of up to 12 octets, and well-formed heads with up to five arbitrary octets put in at each of 34 places, or up to two at each of two places",
  "two readers that split the same octets differently are how requests are smuggled; the tests hold three malformed heads",
  ["src/helper.rs", "src/http/request.rs", "src/http/response.rs"], [("grammar", "src/helper.rs: parse_method, parse_version, parse_header, skip_new_line, skip_spaces and the token tables"), ("heads", "src/http/request.rs and response.rs: parse_buffer")],
  ["Request::parse_buffer, Response::parse_buffer"])
P("P33", "Values equal exactly the text or number they stand for",
  "A header value, a URL or a status code compares equal to a text, octets, a number or another value exactly when it is written as that, in whichever order the two are compared and however it was stored, and equal values hash alike. URLs are equal exactly when all their components are. The questions asked of one value (does a method or its answer carry a body, which kind of version or scheme, is a name a pseudo-header name, how long is it) follow from its token alone.",
  ["inputs"], "every pair of values of up to three octets in five storages, every URL text with one octet changed, every status code against every number, every method, version and scheme",
  "the tests compare a handful of equal pairs; equality must fail for every other pair and agree in both directions",
  ["src/http/value.rs", "src/http/status.rs", "src/url/url.rs", "src/http/method.rs", "src/http/version.rs", "src/url/scheme.rs", "src/http/name.rs"], [("comparisons", "src/http/value.rs, src/http/status.rs, src/url/url.rs: PartialEq, Hash, Ord"), ("kinds", "src/http/method.rs: is_nobody, res_nobody; src/http/version.rs: is_http1, is_http2; src/url/scheme.rs: is_*; src/http/name.rs: is_spec")],
  ["PartialEq, Hash and is_* of HeaderValue, HeaderName, Url, StatusCode, Method, Version, Scheme"])

LEVEL_NOTE = ("Every path of the harness through the compiled code of /repo, within the bounds of DESIGN.md and the evidence file, is executed "
              "symbolically and every assertion, panic, arithmetic overflow and out-of-bounds access on it is decided by z3 for all inputs on the path; "
              "nothing beyond the bounds is claimed. Trusts rustc up to LLVM IR, the executor (sampled paths and every counterexample are replayed natively) and z3.")
TECH = "symbolic execution of the compiled LLVM IR of /repo, assertions decided by z3"
NA = []

def main():
    pr = [p for p in PROPS if p in T]
    with open(V + "/properties.jsonl", "w") as f:
        for i in pr:
            t, st, over, q, why, files, mech, obs, state = T[i]
            assert len(t) <= 80, (i, len(t))
            d = dict(id=i, title=t, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, state=[dict(name=x, meaning=x, where=files[0]) for x in state], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 setup.py",
             checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                          evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking", level_note=LEVEL_NOTE) for i in pr],
             hooks=dict(guard="--cfg webparse_verif", enable="RUSTFLAGS='--cfg webparse_verif' for every build of the harness crate (check.py); exports the type of a header frame's pseudo-fields, which the crate does not name", source_commits=["11270e1"]),
             not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes="Apart from the hook the harness crate uses the public interface of webparse only. See DESIGN.md for bounds, trust and findings.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
    with open(V + "/BOUNDS.md", "w") as f:
        f.write("# Bounds of every harness\n\nWritten by mk.py from spec.py, which the checks run. A harness is a function of\n`harness/src/pNN.rs`; its shards are concrete parameters, each a job of its own.\n"
                "Where a bound names two numbers, the second is that of the thorough tier, which\nalso repeats every job on the build without overflow checks.\n")
        for i in pr:
            f.write("\n## %s %s\n\n| harness | what is symbolic | shards quick / thorough | must reach |\n|-|-|-|-|\n" % (i, T[i][0]))
            for j in PROPS[i]["jobs"]:
                f.write("| `%s` | %s | %d / %d | %s |\n" % (j["h"], j["bound"], len(j["quick"]), len(j["thorough"]), ", ".join(j.get("covers", []))))
main()
