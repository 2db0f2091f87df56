def J(h, bound, quick=(0,), thorough=None, **k):
    return dict(h=h, bound=bound, quick=list(quick), thorough=list(thorough if thorough is not None else quick), **k)

PROPS = {
 "BASE": dict(feature="base", jobs=[J("h_req", "", covers=["ok","err"]), J("h_any", "", range(0,11), covers=["err"])]),
 "P01": dict(feature="p01", jobs=[
    J("h_p01_line", "8 methods × 4 versions × path of 1–5 (thorough 1–8) symbolic bytes × query of 0–2 (thorough 0–4)", range(8), covers=["line"]),
    J("h_p01_escape", "one escaped byte 0–127, either hex case, in path or query", covers=["path", "query"]),
    J("h_p01_fields", "1–2 fields, names of 1–2 (3) bytes, values of 0–2 (3) bytes", covers=["dup", "distinct"]),
    J("h_p01_host", "registered name of 1–3 (5) octets, port of 1–4 digits", covers=["port", "noport"]),
    J("h_p01_target", "host of 1–3 (4) bytes, port of 1–3 digits, 4 schemes, CONNECT", covers=["connect", "absolute"]),
    J("h_p01_escapes", "three octets of path or query, each plain or escaped, all values below 128", range(16), covers=["escapes"]),
    J("h_p01_utf8", "every escaped character of 2–4 octets", range(3), covers=["utf8"]),
    J("h_p01_forms", "asterisk form; absolute form with and without user information, path and query; five-digit ports", range(3), covers=["asterisk", "absolute", "port"]),
    J("h_p01_long", "path, query, field name, value and host of 15–66001 octets, three of them symbolic", range(50), covers=["long"], steps=200_000_000),
    J("h_p01_many", "3–129 fields", range(7), covers=["many"], steps=200_000_000),
    J("h_p01_combo", "every method with every version, form of target, Host field and fields around it", range(9), covers=["combination"]),
 ]),
 "P02": dict(feature="p02", jobs=[
    J("h_p02_status", "4 versions, all codes 100–999, reason phrases of 0–3 (thorough 7) octets, 0–2 octets behind the head", covers=["empty reason", "reason"]),
    J("h_p02_fields", "1–2 fields, names of 1–2 (3) octets, values of 0–2 (3), lines ended by CR LF or LF", covers=["dup", "distinct"]),
    J("h_p02_bad", "1–4 arbitrary octets in place of the status code", covers=["good", "bad"]),
    J("h_p02_line", "two adjacent arbitrary octets at any place of version and code", covers=["good", "bad"]),
    J("h_p02_long", "reason phrase, field name and value of 15–66001 octets, three of them symbolic", range(30), covers=["long"], steps=200_000_000),
    J("h_p02_many", "3–129 fields", range(7), covers=["many"], steps=200_000_000),
 ]),
 "P03": dict(feature="p03", jobs=[
    J("h_p03_any_request", "every string of 0–10 octets (symbolic, all values)", range(0, 11), covers=["error","partial"]),
    J("h_p03_any_response", "every string of 0–10 octets", range(0, 11), covers=["error","partial"]),
    J("h_p03_request", "arbitrary octets inserted at 12 places of a valid request head", range(12), covers=["ok","error","partial"]),
    J("h_p03_response", "arbitrary octets inserted at 6 places of a valid response head", range(6), covers=["ok","error"]),
    J("h_p03_long", "two arbitrary octets in the middle or at the end of a part of 15–66001 octets, eight parts", range(80), covers=["ok", "error"], steps=400_000_000),
    J("h_p03_many", "three arbitrary octets behind 3–129 fields", range(10), covers=["ok", "error"], steps=400_000_000),
 ]),
 "P04": dict(feature="p04", jobs=[
    J("h_p04_cut", "7 heads with symbolic components, every cut position", range(7), covers=["request","response"]),
    J("h_p04_twice", "5 full heads with symbolic octets, every one and every pair of cut positions", range(5), covers=["request", "response"]),
    J("h_p04_stable", "4 (thorough 6) arbitrary octets behind 9 prefixes, every cut", range(9), covers=["ok","error","partial"]),
    J("h_p04_sources", "4 (thorough 6) arbitrary octets behind 7 prefixes, from four kinds of sources", range(7), covers=["request", "response", "refused"]),
    J("h_p04_reuse", "7 heads read by an object that has read one of 10 others before", range(10), covers=["request", "response"]),
    J("h_p04_long", "six kinds of head of 63–8200 octets, three symbolic, 28 cuts", range(24), covers=["request", "response"], steps=400_000_000),
 ]),
 "P05": dict(feature="p05", jobs=[
    J("h_p05_request", "8 methods, paths of 0–2 (3) and queries of 0–1 (2) ASCII octets, 4 versions", range(8), covers=["round trip"]),
    J("h_p05_connect", "registered name of 1–4 octets, ports below 200 and above 65300 (thorough: all)", covers=["connect"]),
    J("h_p05_fields", "0–2 fields, names of 1–2 (3) octets, values of 0–3 (4)", covers=["request", "response"]),
    J("h_p05_response", "all codes 100–999, 4 versions, bodies of 0–2 octets", covers=["round trip", "no reason"]),
    J("h_p05_long", "one part of 15–66001 octets, three of them symbolic", range(50), covers=["request", "response"], steps=200_000_000),
    J("h_p05_many", "3–129 fields, three symbolic values", range(7), covers=["request", "response"]),
    J("h_p05_chars", "ten blocks of 64 characters around the limits of the UTF-8 forms", range(10), covers=["round trip"]),
    J("h_p05_display", "one field of symbolic octets", covers=["request", "response"]),
    J("h_p05_bodies", "six kinds of bodies of 0–66000 octets, three symbolic", range(42), covers=["body"], steps=100_000_000),
    J("h_p05_any", "0–4 arbitrary octets at 16 places of a head: what parses is written and read again", range(16), covers=["round trip", "refused"]),
    J("h_p05_combo", "every method with every version, form of URL, set of fields and body", range(9), covers=["round trip"]),
    J("h_p05_combo_response", "every version with every code from 100 to 599, sets of fields and bodies", range(4), covers=["round trip"]),
    J("h_p05_ports", "CONNECT to every port", range(16), covers=["connect"]),
 ]),
 "P06": dict(feature="p06", jobs=[
    J("h_p06_ops", "3 (thorough 4–5) operations of a menu of four, names of 1–2 letters in either case, symbolic values", list(range(17)) + [29], range(64), covers=["hit", "miss", "removed"]),
    J("h_p06_many", "9 (17) fields, two changes of six kinds at any place (the second: first, middle, last), names in either case", range(36), covers=["done"]),
    J("h_p06_named", "every combination of the seven fields the accessors read, with symbolic values", range(128), covers=["authority", "length"]),
    J("h_p06_contains", "values of 0–4 (6) octets, needles of 0–3 (4)", covers=["yes", "no"]),
    J("h_p06_tokens", "token lists with one arbitrary octet at any place", range(5), covers=["token", "other"]),
    J("h_p06_ask", "eight questions, 0–40 fields before and 0–9 behind, the token anywhere in a list of three", range(12), covers=["asked"]),
    J("h_p06_equal", "pairs of values of 0–3 symbolic octets, stored by insert and by index", covers=["equal", "different"]),
    J("h_p06_contains_long", "needles of 1–15 octets at four places of values of 15–1025 octets, one octet symbolic", range(36), covers=["asked"]),
    J("h_p06_around", "0–4 octets a value may hold before and 0–3 behind a token", range(39), covers=["token", "other"]),
 ]),
 "P07": dict(feature="p07", jobs=[
    J("h_p07_eq", "pairs of names of 0–3 (5) ASCII octets", covers=["equal", "different"]),
    J("h_p07_standard", "all 81 predefined names with two adjacent symbolic octets at any place", range(81), covers=["equal", "different", "refused"]),
    J("h_p07_long", "pairs of names of 15–1025 octets that differ in one symbolic octet or in length", range(9), covers=["equal", "different"]),
 ]),
 "P08": dict(feature="p08", jobs=[
    J("h_p08_any", "values of 0–4 (6) arbitrary octets", covers=["number", "not a number"]),
    J("h_p08_static", "values of 0–3 (5) ASCII octets given as program text", covers=["static number"]),
    J("h_p08_limit", "the limits of the integer types with symbolic first and last two digits", range(5), covers=["number", "too large"]),
    J("h_p08_write", "256 numbers around each of 10 limits", covers=["signed", "write"]),
    J("h_p08_zeros", "1–40 leading zeros before two symbolic digits, either sign", range(6), covers=["number"]),
 ]),
 "P09": dict(feature="p09", jobs=[
    J("h_p09_round", "12 payload sizes of 0–257 octets, up to three chunks, every cut", range(12), covers=["round", "cut"]),
    J("h_p09_large", "10 payload sizes of 511 to 2^20 octets", range(10), covers=["round", "cut"], steps=400_000_000),
    J("h_p09_stream", "0–3 chunks of three sizes and the end mark", range(4), covers=["stream"]),
    J("h_p09_any", "every string of 0–6 (8) octets", range(0, 7), range(0, 9), covers=["ok", "error", "partial"]),
    J("h_p09_big", "chunk lengths of 15–18 hexadecimal digits", range(0, 4), covers=["big"]),
 ]),
 "P10": dict(feature="p10", jobs=[
    J("h_p10_round", "0–4 (6) ASCII octets", covers=["escaped", "plain"]),
    J("h_p10_utf8", "one character of 2–4 octets", covers=["text"]),
    J("h_p10_decode", "every string of 0–5 (7) octets", covers=["decoded", "error"]),
    J("h_p10_long", "texts of 15–66001 ASCII octets, three of them symbolic", range(10), covers=["long"], steps=200_000_000),
    J("h_p10_decode_long", "four arbitrary octets at the beginning, middle and end of texts of 20–257 octets", range(9), covers=["decoded", "error"]),
 ]),
 "P11": dict(feature="p11", jobs=[
    J("h_p11_parts", "every combination of parts, symbolic content", list(range(16)) + [31, 47, 63, 79, 95], covers=["parsed"]),
    J("h_p11_origin", "origin form targets with symbolic path and query", range(8), range(10), covers=["parsed"]),
    J("h_p11_any", "1–5 (6) arbitrary octets behind 8 prefixes", range(40), range(48), covers=["ok", "error"]),
    J("h_p11_port", "ports of 1–5 digits", covers=["ok", "too large"]),
    J("h_p11_long", "one component of 15–66001 octets, three of them symbolic", range(50), covers=["long"], steps=200_000_000),
    J("h_p11_escapes", "1–2 (4) escaped octets of any value in every component", range(10), range(20), covers=["text", "refused"]),
 ]),
 "P12": dict(feature="p12", jobs=[
    J("h_p12_round", "0–2 (3) ASCII octets in each component, one in each pair", range(75), covers=["round trip"]),
    J("h_p12_origin", "URLs without authority", range(6), range(8), covers=["round trip"]),
    J("h_p12_stable", "every text of 3 (4) octets behind 5 prefixes", range(5), covers=["accepted", "refused"]),
    J("h_p12_long", "one component of 16–66001 octets, three of them symbolic", range(50), covers=["round trip"], steps=200_000_000),
    J("h_p12_chars", "six blocks of 64 characters around the limits of the UTF-8 forms, in every component", range(30), covers=["round trip"]),
    J("h_p12_port", "every port behind 5 schemes", range(80), covers=["round trip"]),
 ]),
 "P13": dict(feature="p13", jobs=[
    J("h_p13_method", "every string of 0–8 octets", range(9), covers=["ok", "error"]),
    J("h_p13_version", "every string of 1–8 octets", range(1, 9), covers=["ok", "error"]),
    J("h_p13_status", "all 65536 numbers", covers=["number", "refused"]),
    J("h_p13_reason", "all codes 100–999", covers=["registered", "unregistered"]),
    J("h_p13_named", "all named codes, known schemes and versions", covers=["named"]),
    J("h_p13_status_str", "every class of number as text", range(1, 10), covers=["text"]),
    J("h_p13_status_text", "every string of 0–4 octets", covers=["text", "refused"]),
    J("h_p13_scheme", "every string of 1–6 octets", range(1, 7), covers=["known", "extension"]),
    J("h_p13_longer", "every method and version with one or two symbolic octets more at either end", range(13), covers=["longer"]),
 ]),
 "P14": dict(feature="p14", jobs=[
    J("h_p14_read", "nine symbolic octets, up to two more behind them", covers=["read", "undefined flag"]),
    J("h_p14_short", "0–8 symbolic octets", covers=["short"]),
    J("h_p14_write", "24-bit length, 31-bit stream, all defined flag sets, all types", covers=["write"]),
    J("h_p14_flags", "all defined flag sets", covers=["flags"]),
 ]),
 "P15": dict(feature="p15", jobs=[
    J("h_p15_fixed", "payloads of 0–12 octets", range(0, 13), range(0, 19), covers=["priority", "reset", "settings", "ping", "goaway", "window", "refused"]),
    J("h_p15_data", "payloads of 0–8 octets", range(0, 9), range(0, 17), covers=["plain", "padded", "refused"]),
    J("h_p15_any", "HEADERS payloads of 0–2 (thorough 3) octets, PUSH_PROMISE 0–6 (7), others 0–2", [0, 4, 8, 1, 5, 9, 13, 17, 21, 25, 2, 6, 10, 3, 7, 11], [0, 4, 8, 12, 1, 5, 9, 13, 17, 21, 25, 29, 2, 6, 10, 3, 7, 11], covers=["headers", "push", "refused"]),
    J("h_p15_headers", "HEADERS frames with padding and priority flags around a valid block, symbolic padding length", covers=["ok", "refused"]),
    J("h_p15_list", "header lists around the list size limit", covers=["ok", "over"]),
    J("h_p15_list_kinds", "header lists of two fields of nine forms, every 16-bit limit", range(81), covers=["ok", "over"]),
    J("h_p15_sizes", "payloads off the right size by 16 to 65536 octets", range(9), covers=["refused", "settings"]),
    J("h_p15_mismatch", "payloads of 0–9 octets behind headers that say any length", range(10), covers=["refused"]),
    J("h_p15_says", "every type, stream, legal flag set: what the decoded frame says about itself", range(9), covers=["says"]),
 ]),
 "P16": dict(feature="p16", jobs=[
    J("h_p16_fixed", "all fields symbolic; DATA of 0–4 (thorough 8) octets, debug data of 0–3 (8)", range(7), covers=["round trip"]),
    J("h_p16_frame", "one symbolic octet of stream identifier and content", range(7), covers=["round trip"]),
    J("h_p16_headers", "every subset of pseudo fields, three fields, values of 0–2 symbolic octets", range(16), covers=["round trip"]),
    J("h_p16_push", "symbolic streams, one field of 0–2 symbolic octets", covers=["round trip"]),
    J("h_p16_long", "debug data, content, field value, field name, path and authority of 31–1030 octets (debug data and content: 16000), three of them symbolic", [i for i in range(40) if i < 16 or i % 8 != 7], covers=["long"], steps=200_000_000),
    J("h_p16_many", "5–129 fields, three symbolic values", range(4), covers=["many"], steps=200_000_000),
    J("h_p16_push_long", "promises with a path, authority or field of 31–1030 octets, one symbolic", range(18), covers=["long"], steps=200_000_000),
 ]),
 "P17": dict(feature="p17", jobs=[
    J("h_p17_data", "limits 1–4 (thorough 1–8), up to 3 (5) times the limit plus one octets, all symbolic", range(4), range(8), covers=["data"]),
    J("h_p17_data_default", "the default limit, lengths around its multiples, octets at the boundaries symbolic", range(7), covers=["data"]),
    J("h_p17_headers", "limits 1–12 (thorough 1–40), blocks of 0–30 octets", range(12), range(40), covers=["split", "whole"]),
    J("h_p17_headers_default", "the default limit, blocks of 14000–47000 octets, one octet symbolic", range(8), covers=["split", "whole"], steps=400_000_000),
    J("h_p17_data_large", "limits of 16385 to 2^24-1, contents of up to 140000 octets, one symbolic", range(7), covers=["data"], steps=400_000_000),
    J("h_p17_headers_large", "limits of 16384 to 2^20, blocks of 83000 and 166000 octets, one symbolic", [0, 1, 2, 4], range(5), covers=["block"], steps=2_000_000_000),
 ]),
 "P18": dict(feature="p18", jobs=[
    J("h_p18_write", "all 64-bit values, all prefix sizes, any leading bits", range(8), covers=["short", "long"]),
    J("h_p18_round", "all 32-bit values", covers=["read", "refused"]),
    J("h_p18_any", "integers of 1–7 (thorough 1–10) symbolic octets", range(1, 8), range(1, 11), covers=["read", "refused"]),
    J("h_p18_index", "indexes 0–4000 in each of the four prefixed forms, 110 dynamic entries", range(4), covers=["entry", "outside"]),
    J("h_p18_length", "string lengths 0–511 around the limits of the one- and two-octet forms, one octet more and less", range(12), covers=["string", "next", "cut"]),
 ]),
 "P19": dict(feature="p19", jobs=[
    J("h_p19_encode", "0–3 symbolic octets (thorough 4)", range(19), range(35), covers=["encoded"]),
    J("h_p19_lower", "0–2 symbolic octets (thorough 3)", range(3), range(4), covers=["encoded"]),
    J("h_p19_long", "one symbolic octet at any place of a text of 43 octets", range(8), covers=["round trip"]),
    J("h_p19_round", "0–2 symbolic octets", range(34), covers=["round trip"]),
    J("h_p19_decode", "0–2 symbolic octets of code, also behind 1–3 octets of ones", range(11), covers=["text", "refused"]),
    J("h_p19_decode_long", "two symbolic octets behind fe, ff, ff fe and ff ff", range(32), covers=["text", "refused"]),
    J("h_p19_text", "texts of 64–600 octets of four kinds, two symbolic octets among them", range(12), covers=["text"], steps=200_000_000),
    J("h_p19_eos_long", "the end-of-string word behind 0, 8 or 16 characters and before 0–200 octets", range(12), covers=["refused"]),
 ]),
 "P20": dict(feature="p20", jobs=[
    J("h_p20_ops", "sequences of 5 (thorough 7) additions and size changes, symbolic value lengths and limits", range(16), covers=["kept", "evicted"]),
    J("h_p20_limit", "limits around the size of 1–3 entries", range(10), range(12), covers=["emptied", "kept"]),
    J("h_p20_static", "all indexes, with and without dynamic entries", covers=["standard", "dynamic"]),
    J("h_p20_find_static", "every standard entry with one symbolic octet in its name or value", range(8), covers=["field", "name", "nothing"]),
    J("h_p20_find_dynamic", "three dynamic entries with symbolic values", covers=["field", "nothing"]),
    J("h_p20_many", "65 and 130 entries, one with a symbolic octet, a symbolic limit", range(12), covers=["many"], steps=200_000_000),
    J("h_p20_alike", "names and values of 20–1000 octets that differ in one octet", range(18), covers=["alike"]),
    J("h_p20_large", "three entries of 4000–70000 octets, any limit, then any 32-bit limit", range(6), covers=["kept", "emptied"]),
 ]),
 "P21": dict(feature="p21", jobs=[
    J("h_p21_any", "every block of 1–3 octets behind the stated beginnings", range(48), range(64), covers=["decoded", "refused"]),
    J("h_p21_literal", "literals of all forms, plain and Huffman, names and values of symbolic octets", range(24), covers=["decoded"]),
    J("h_p21_sequence", "sequences of representations with symbolic indexes", range(16), covers=["decoded"]),
    J("h_p21_size", "one or two size updates with symbolic sizes", covers=["decoded", "refused"]),
    J("h_p21_blocks", "blocks decoded one after another on the same table", covers=["decoded"]),
    J("h_p21_long", "names and values of 126–16500 octets, whole or cut short, two of them symbolic", range(32), covers=["decoded", "refused"], steps=200_000_000),
    J("h_p21_many", "10–140 literals and as many indexes into the table", range(4), covers=["decoded"], steps=200_000_000),
    J("h_p21_size_large", "a size update of 3–6 octets against any 32-bit limit", covers=["decoded", "refused"]),
 ]),
 "P22": dict(feature="p22", jobs=[
    J("h_p22_blocks", "3 blocks of fields from 10 kinds with symbolic values, 6 table sizes", range(60), covers=["blocks"]),
    J("h_p22_repeat", "a field sent repeatedly with others between", range(20), covers=["repeated"]),
    J("h_p22_long", "values of up to 300 octets around the limits of the length forms", range(8), covers=["long"]),
    J("h_p22_resize", "table size changed between blocks", range(6), covers=["resized"]),
    J("h_p22_many", "four blocks of 3–150 fields, four table sizes, one symbolic octet", range(16), covers=["many"], steps=400_000_000),
    J("h_p22_alike", "names and values of 20–700 octets that differ in one symbolic octet", range(18), covers=["alike"], steps=200_000_000),
    J("h_p22_huge", "values of 5000–27000 octets (thorough 66000), one of them symbolic", range(6), range(8), covers=["huge"], steps=2_000_000_000),
 ]),
 "P23": dict(feature="p23", jobs=[
    J("h_p23_any", "every string of 0–16 octets", range(17), covers=["incomplete", "read", "refused"]),
    J("h_p23_round", "all flags, opcodes, masks and 64-bit lengths, every cut", covers=["cut", "long", "middle", "not written", "round trip", "short"]),
 ]),
 "P24": dict(feature="p24", jobs=[
    J("h_p24_data", "any key, payloads of 0–12 (thorough 0–64) symbolic octets", range(0, 13), range(0, 65), covers=["masked"]),
    J("h_p24_pieces", "0–8 (16) octets written in up to three pieces, every split", range(0, 9), range(0, 17), covers=["pieces"]),
    J("h_p24_numbers", "the integer writers of Masker on a symbolic number", covers=["numbers"]),
    J("h_p24_many", "payloads around the sizes of the copy buffers", range(6), covers=["many"]),
    J("h_p24_long", "payloads of 15–4099 octets, three symbolic, any key, in up to three pieces cut at 14 distances", range(12), covers=["long"], steps=400_000_000),
    J("h_p24_huge", "payloads of 65535–70001 octets, any key, each eighth hundredth octet and the ends looked at", range(4), covers=["huge"], steps=400_000_000),
 ]),
 "P25": dict(feature="p25", jobs=[
    J("h_p25_round", "payloads of 0–6 (thorough 0–24) symbolic octets, all flags and opcodes, masked or not, every cut", range(7), range(25), covers=["cut", "round trip"]),
    J("h_p25_limit", "symbolic limit around symbolic length", covers=["incomplete", "read", "refused"]),
    J("h_p25_any", "every string of 0–12 (24) octets", range(13), range(25), covers=["read", "refused"]),
    J("h_p25_forms", "payloads of 124–65537 octets around the limits of the length forms", range(10), covers=["not written", "round trip"]),
    J("h_p25_two", "two frames in one stream", covers=["two"]),
 ]),
 "P26": dict(feature="p26", jobs=[
    J("h_p26_fragments", "16 opcodes, contents of 0–3 (thorough 0–6) symbolic octets, every split into up to three frames", range(64), range(112), covers=["message", "refused"]),
    J("h_p26_sequence", "sequences of frames with symbolic opcodes and end marks", covers=["message", "refused"]),
    J("h_p26_round", "5 kinds of message of 0–3 octets", [i for i in range(20) if i != 8], covers=["round trip"]),
    J("h_p26_close", "all 65536 close codes", covers=["codes"]),
    J("h_p26_pong", "messages of symbolic kind", covers=["pong", "other"]),
    J("h_p26_long", "contents of 15–66001 octets, three symbolic, in two or three frames", range(30), covers=["message"], steps=200_000_000),
    J("h_p26_many", "4–130 fragments of one octet, one of them with a symbolic octet, opcode or reserved bit", range(8), covers=["message", "refused"], steps=200_000_000),
    J("h_p26_chars", "eight blocks of up to 128 characters around the limits of the UTF-8 forms, as text and as a close reason", range(8), covers=["round trip"]),
    J("h_p26_large", "messages of five kinds of 124–66001 octets, four of them symbolic, written and read back", range(40), covers=["round trip", "not written"], steps=400_000_000),
 ]),
 "P27": dict(feature="p27", jobs=[
    J("h_p27_ops", "sequences of 4 (thorough 5) operations on three types with symbolic values", range(24), covers=["cleared", "merged", "replaced", "sequence"]),
    J("h_p27_merge", "every pair of stores over the types, merged", range(32), covers=["merged"]),
    J("h_p27_many", "thirty-five types, symbolic values, one removed, one replaced", covers=["many"]),
 ]),
 "P28": dict(feature="p28", jobs=[
    J("h_p28_read", "0–2 settings with symbolic identifier and value (thorough 3)", range(0, 3), range(0, 4), covers=["ok", "refused"]),
    J("h_p28_shape", "payloads of 0–13 octets, any stream", covers=["refused", "ack"]),
    J("h_p28_write", "every subset of the six settable settings, all values", range(64), covers=["round trip"]),
    J("h_p28_upgrade", "four sets of settings with one symbolic octet", range(4), covers=["round trip"]),
    J("h_p28_many", "4–300 settings in a frame, two of them anything", range(12), covers=["ok", "refused"]),
 ]),
 "P29": dict(feature="p29", jobs=[
    J("h_p29_target", "5 schemes, one symbolic octet in host, path or query, default and explicit ports", range(8), range(20), covers=["request"]),
    J("h_p29_authority", "authorities of 1–5 symbolic octets", range(5), covers=["request"]),
    J("h_p29_fields", "0–2 fields with symbolic names and values, all methods", range(5), covers=["request"]),
    J("h_p29_forms", "targets without authority, asterisk form, CONNECT", covers=["request", "no authority"]),
    J("h_p29_hostile", "every subset of pseudo-fields, arbitrary octets in one of them", [0, 1, 2, 3, 4, 9, 14, 19], range(20), covers=["request", "refused"]),
    J("h_p29_response", "all status codes, a field with symbolic value", covers=["response"]),
    J("h_p29_long", "host, path, query and field value of 31–1030 octets, three of them symbolic", range(20), covers=["request"], steps=200_000_000),
    J("h_p29_many", "3–129 fields, a symbolic octet in one", range(6), covers=["request"], steps=200_000_000),
 ]),
 "P30": dict(feature="p30", jobs=[
    J("h_p30_build", "9 methods, 4 versions, URLs with and without authority and query, four orders of the calls", range(4), covers=["absolute", "origin"]),
    J("h_p30_invalid", "every method text of three octets, every 16-bit status", covers=["valid", "invalid"]),
    J("h_p30_convert", "six conversions of a request with symbolic parts", range(6), covers=["converted"]),
    J("h_p30_set_url", "URLs with and without authority", covers=["absolute", "origin"]),
    J("h_p30_response", "800 status codes, eight conversions of a response with symbolic parts", range(32), covers=["response"]),
    J("h_p30_ready", "the six ready-made responses", covers=["ready"]),
    J("h_p30_merge", "every subset of parts of the other URL", range(64), covers=["merged"]),
    J("h_p30_access", "every accessor of a request with symbolic parts", covers=["access"]),
    J("h_p30_builder", "builders given maps of fields, their accessors", range(2), covers=["request", "response"]),
    J("h_p30_known", "twelve fields with a meaning of their own, every status or method, 13 conversions", range(13), covers=["response", "request"]),
    J("h_p30_host", "absolute URLs of four schemes, five ports, with and without user, two ways to set them", range(8), covers=["built", "set"]),
 ]),
 "P31": dict(feature="p31", jobs=[
    J("h_p31_next", "300 numbers of either side, and the numbers after any", covers=["next"]),
    J("h_p31_order", "all pairs of 32-bit numbers", covers=["order"]),
    J("h_p31_queue", "2–5 (6) frames with symbolic weights", range(4), range(5), covers=["queue"]),
    J("h_p31_weights", "four kinds of frame with symbolic weights", range(4), covers=["weights"]),
    J("h_p31_promise", "9 methods, lengths of 1–3 symbolic digits", covers=["promised", "refused"]),
 ]),
 "P32": dict(feature="p32", jobs=[
    J("h_p32_request", "0–5 (6) arbitrary octets at each of 20 places of a request head", range(20), covers=["head", "refused"]),
    J("h_p32_response", "0–5 (6) arbitrary octets at each of 14 places of a response head", range(14), covers=["head", "refused"]),
    J("h_p32_two", "0–2 (3) arbitrary octets at two places of a head at once", range(11), covers=["head", "refused"]),
    J("h_p32_any", "every string of 0–12 (13) octets as a request and as a response", [*range(0, 13), *range(32, 44)], [*range(0, 14), *range(32, 45)], covers=["refused"]),
 ]),
 "P33": dict(feature="p33", jobs=[
    J("h_p33_value", "pairs of values of 0–3 (4) symbolic octets, five storages each", range(25), covers=["equal", "different"]),
    J("h_p33_name", "names of 0–4 symbolic octets, three storages", range(3), covers=["pseudo", "field"]),
    J("h_p33_url", "5 URLs against their text with one octet changed and cut anywhere", range(5), covers=["equal", "different"]),
    J("h_p33_url_eq", "pairs of URLs that differ in any one or two components", range(64), covers=["equal", "different"]),
    J("h_p33_status", "every code against every 16-bit number", range(9), covers=["equal", "different"]),
    J("h_p33_kinds", "all methods, versions and kinds of scheme", covers=["kinds"]),
    J("h_p33_long", "pairs of values of 15–1025 octets that differ in one symbolic octet or in length", range(9), covers=["equal", "different"]),
 ]),
}
