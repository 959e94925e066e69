#!/usr/bin/env python3
"""The catalogue of properties: writes properties.jsonl and MANIFEST.json.

    python3 tools/catalogue.py
"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "crates/toon/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, built=True, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, built=built, state=state))


NOTE = ("Judges only the executions of the run: randomised and, where stated, exhaustive-within-a-bound workloads on the real "
        "code, compiled with debug assertions and overflow checks. Trusts serde_json, Rust's float parsing and the monitor. ")

prop("C01", "Decoding an encoded value gives the value back",
     "For every JSON value, encoding it with any delimiter and any indent of at least 1, through any encoding entry point, and decoding the text with the same options, strict or lenient, gives the same value: same structure, strings, numbers by numeric value, and object keys in the same order (rows of a table take the key order of its first row). Encoding the decoded value again gives the same text.",
     ["inputs", "configurations"], "All JSON values up to the nesting limit of 256 x {comma, tab, pipe} x indents 1, 2, 3, 4, 5, 8 x strict and lenient x all encode and decode entry points, key folding and path expansion off.",
     "The tests round-trip a few dozen hand-written documents, nearly all with comma and indent 2; the guarantee is over every combination of shape, string content and options.",
     [T + "encode/encoders.rs", T + "ser/stream.rs", T + "decode/parser.rs", T + "decode/scanner.rs"],
     [("encoder decides table / inline / list form", T + "encode/encoders.rs"), ("recursive line parser", T + "decode/parser.rs"), ("quoting rules", T + "encode/primitives.rs:needs_quotes")],
     ["encode_to_string / decode_from_str and their writer, reader and streaming variants"],
     "runtime round-trip monitor over randomised hostile documents", NOTE + "400,000 documents per quick run.")

prop("C02", "Encoder output is exactly the TOON 3.0 text of the value",
     "For every JSON value and options without key folding, the encoder writes exactly the text the TOON 3.0 rules prescribe: inline, table and list forms chosen by the content, array lengths and delimiters declared in headers, tables only for arrays of objects with the same non-empty keys and primitive values, list items and their first fields placed as specified, one indent per level, and nothing after the last line.",
     ["inputs", "configurations"], "All JSON values x delimiters x indents >= 1; every encoding entry point.",
     "Tests compare a few fixed outputs; the form chosen depends on combinations of content, position and options that they do not enumerate.",
     [T + "encode/encoders.rs", T + "encode/primitives.rs", T + "encode/writer.rs", T + "ser/stream.rs"],
     [("form selection", T + "encode/encoders.rs:is_tabular_array, is_primitive_array"), ("list item placement", T + "encode/encoders.rs:encode_list_item_object"), ("line writer", T + "encode/writer.rs")],
     ["encode_to_string and variants"],
     "runtime conformance monitor: byte-for-byte comparison with an independent reference encoder", NOTE + "The reference encoder was written from the format rules, not from the code.")

prop("C03", "Numbers are canonical, exact, and read in every spelling",
     "Every finite number, in any position and of any Rust numeric type of up to 64 bits, is written in plain decimal form without exponent, leading zeros, trailing fractional zeros or negative zero, and reads back as the same number; non-finite floats are written as null. The decoder gives every decimal spelling (sign, fraction, exponent) the number it denotes, exactly for 64-bit integers and to the nearest double otherwise. Tokens with leading zeros and tokens that are no decimal number stay strings.",
     ["inputs"], "All f64 and f32 bit patterns, all i64/u64, all spellings of the JSON number grammar with a finite value; 20 positions in a document.",
     "Tests check a handful of literals at one position; the space is all doubles and all spellings.",
     [T + "number.rs", T + "encode/primitives.rs", T + "decode/parser.rs", T + "ser/value_builder.rs", T + "ser/stream.rs"],
     [("canonical float text", T + "number.rs:format_canonical_f64"), ("token classification", T + "decode/parser.rs:parse_scalar_token_at_line, classify_numeric_hint"), ("leading zero rule", T + "number.rs:has_forbidden_leading_zeros")],
     ["number tokens in encoder output, decoded numbers"],
     "runtime monitor: canonical-form grammar and exact read-back over randomised numbers and spellings", NOTE)

prop("C04", "Strings and keys survive every position without changing type",
     "Any string, however hostile (empty, spaces, quotes, control characters, structural characters, text that looks like a number, literal, header, list item or comment), used as a value or as a key in any position and under any delimiter, is read back as the identical string: never another type, never split, truncated or merged. The output never holds a raw control character.",
     ["inputs"], "Exhaustive over all 1,980 strings of length 1 and 2 over 44 structurally relevant characters and a list of about 300 hostile tokens, then random strings; 20 value positions and 17 key positions x 3 delimiters x strict and lenient.",
     "Tests quote a few dozen strings at one or two positions; whether quoting suffices depends on position, delimiter and neighbouring text.",
     [T + "encode/primitives.rs", T + "decode/parser.rs", T + "decode/scanner.rs"],
     [("quoting decision", T + "encode/primitives.rs:needs_quotes, key_needs_quotes"), ("escaping", T + "encode/primitives.rs:escape_and_quote"), ("unescaping", T + "decode/parser.rs:try_unescape_json_string"), ("quote-aware splitting", T + "decode/scanner.rs:find_unquoted_colon; " + T + "decode/parser.rs:split_delim_aware")],
     ["encode_to_string, decode_from_str"],
     "runtime round-trip monitor, exhaustive over short strings and positions, then randomised", NOTE)

prop("C21", "Encoder output is well formed whatever it encodes",
     "Every output obeys the structural rules of the format: no trailing newline or trailing spaces, no carriage returns or raw control characters, indentation in whole steps of spaces that never jumps, every declared length equal to the number of elements that follow, every row with as many cells as declared columns, the declared delimiter equal to the configured one, no empty cell, and quotes and escapes balanced and legal, with and without key folding.",
     ["inputs", "configurations"], "All JSON values x delimiters x indents >= 1 x key folding off and safe with any depth.",
     "No test checks the structure of outputs in general; they compare fixed texts.",
     [T + "encode/encoders.rs", T + "encode/primitives.rs", T + "encode/writer.rs"],
     [("headers", T + "encode/primitives.rs:format_bracket_segment, format_tabular_header"), ("line writer", T + "encode/writer.rs")],
     ["encode_to_string"],
     "online structural monitor over the emitted lines", NOTE + "The monitor parses lines on its own and shares no code with the library.")

exec(open(os.path.join(HERE, "tools", "catalogue_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "catalogue_more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    if p["built"] is True:
        checks.append(dict(property=p["id"], quick_cmd="bash check.sh " + p["id"],
                           thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"], level="exploration", level_note=p["note"].strip()))
    else:
        na.append(dict(property=p["id"], reason=p["built"] or "check not built yet"))
m = dict(version=1, setup_cmd="bash check.sh build", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
