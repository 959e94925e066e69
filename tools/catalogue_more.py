# Further properties; executed by catalogue.py
prop("C05", "Every well-formed document is accepted and means what it says",
     "A document written by any conforming writer decodes to the value it denotes, whichever legal choices the writer made: list, inline or table form, any delimiter per array, optional quotes and escapes, any spelling of a number, padding around cells, column order, blank lines outside arrays, trailing spaces, a hyphen on a line of its own, the older @ tables, strings left bare though they look structural, like see [1]: x after a key. Strict mode accepts it too; lenient mode also accepts free indentation and blank lines anywhere.",
     ["inputs", "configurations"], "All documents of that grammar x strict and lenient x indents 1 to 4 x all decoding entry points.",
     "Tests decode a few dozen fixed documents, mostly ones the encoder itself would write.",
     [T + "decode/parser.rs", T + "decode/scanner.rs"],
     [("line scanner", T + "decode/scanner.rs"), ("header parsing", T + "decode/parser.rs:parse_array_header"), ("list items", T + "decode/parser.rs:parse_array_items")],
     ["decode_from_str, decode_from_reader"],
     "runtime monitor: documents generated together with their meaning, decoded and compared", NOTE)

prop("C06", "Strict mode rejects every malformed document",
     "In strict mode, a document with a wrong declared length, a row with too many or too few cells, rows or columns in another delimiter than declared, a blank line inside an array, tabs or odd widths in its indentation, an unterminated string, an illegal escape, text after a closing quote, a field without colon, a field nested below a scalar, content behind the header of a list or table, content after the root value, or cut off inside an array, is always rejected with an error and never decoded to a value; so are bare cells of the older tables that need quotes. Wrong lengths and widths, broken strings and illegal escapes are errors in lenient mode too.",
     ["inputs"], "All well-formed documents x one defect of 24 kinds at any place of the document.",
     "Tests have one or two examples per class, at one place of one small document.",
     [T + "decode/parser.rs", T + "decode/scanner.rs", T + "decode/validation.rs"],
     [("strict checks", T + "decode/parser.rs"), ("indentation checks", T + "decode/validation.rs"), ("completeness", T + "decode/parser.rs:check_fully_consumed")],
     ["decode_from_str, decode_from_reader with strict options"],
     "runtime fault injection: one known defect per document, the monitor requires an error", NOTE)

prop("C07", "What strict mode accepts is read completely, and lenient mode agrees",
     "Whenever strict decoding accepts a document, lenient decoding of it gives the same value, every key and every string of the text is found in the value (a repeated key excepted), and the value survives another encoding and decoding. No accepted text is silently dropped, merged or moved.",
     ["inputs"], "All texts; exercised by up to three edits of lines, indentation and structural characters on documents made of unique words.",
     "Tests do not compare modes, and loss of content is invisible unless a test happens to look at the lost part.",
     [T + "decode/parser.rs", T + "decode/scanner.rs"],
     [("completeness", T + "decode/parser.rs:check_fully_consumed"), ("nesting", T + "decode/parser.rs:parse_object_fields, parse_array_items")],
     ["decode_from_str in both modes"],
     "runtime differential and conservation monitor (unique words in, same words out)", NOTE)

prop("C22", "Decoding errors name the line at fault",
     "Every decoding error carries a line number between 1 and the number of lines of the document. For a wrong length it is the line of the header, for a bad row, cell, string, escape, indentation, blank line or surplus content it is the line of the defect itself, wherever in the document that is.",
     ["inputs"], "All documents with one defect as in C06, behind 0 to 6 further lines.",
     "Tests look at the messages of a few small documents; the line depends on everything before the defect.",
     [T + "decode/parser.rs", T + "error.rs", T + "decode/validation.rs"],
     [("line of an error", T + "error.rs"), ("line bookkeeping", T + "decode/parser.rs")],
     ["the line in the error of decode_from_str"],
     "runtime monitor: injected defects at known lines", NOTE)

prop("C08", "No input makes the library panic, overflow the stack, hang or exhaust memory",
     "Decoding any text with any options, and encoding again what was decoded, always returns a value or an error: no panic, no arithmetic overflow, no stack overflow on a 2 MiB stack, no unbounded running time. The memory a decoder uses is bounded by a constant times the length of the text, whatever lengths, indents or nesting the text declares.",
     ["inputs", "configurations"], "All texts and options with indents up to 2^32; exercised up to about 1 MB with nesting, widths, huge declared lengths and random edits, including non-ASCII text at every structural position.",
     "Tests never decode hostile text; panics, overflows and blow-ups need particular bytes at particular places.",
     [T + "decode/parser.rs", T + "decode/scanner.rs", T + "decode/path_expand.rs", T + "encode/encoders.rs"],
     [("slicing by byte offsets", T + "decode/parser.rs"), ("recursion limit", T + "decode/parser.rs:MAX_DEPTH"), ("path nesting limit", T + "decode/path_expand.rs")],
     ["decode_from_str, encode_to_string, allocation counters, CPU time, process exit status"],
     "runtime fuzzing under debug assertions and overflow checks, with allocation, stack and CPU monitors and crash attribution", NOTE)

prop("C09", "All ways to encode give the same text",
     "Encoding to a string, to a writer, and through the streaming functions gives byte for byte the same text for the same value and options, for every type serde can describe and with key folding on or off. If a member of the value refuses to be serialized, every one of them returns an error.",
     ["inputs", "configurations"], "All values of the serde data model x options x six entry points.",
     "Tests stream a few structures and compare them with fixed text; the streaming encoder is a second implementation of the format.",
     [T + "ser/stream.rs", T + "ser/mod.rs", T + "ser/value_builder.rs", T + "lib.rs"],
     [("streaming encoder", T + "ser/stream.rs"), ("value builder", T + "ser/value_builder.rs")],
     ["encode_to_string, encode_to_writer, ser::to_string, ser::to_string_streaming, ser::to_writer, ser::to_writer_streaming"],
     "runtime differential monitor between the entry points", NOTE)

prop("C10", "Rust values are encoded as serde describes them and come back",
     "A Rust value of any type with derived or hand-written serialization is written as the JSON value serde's conventions assign to it: options, newtypes, tuples, maps with scalar keys, bytes, enums of every representation, renamed, skipped and flattened members. Decoding the text as the same type gives the value back.",
     ["inputs", "configurations"], "All values of the serde data model, and 16 families of derived types, those of the standard library included, x options.",
     "Tests use a few plain structs; enum representations, key types and hints combine freely.",
     [T + "ser/value_builder.rs", T + "ser/stream.rs", T + "de/mod.rs"],
     [("serializer", T + "ser/value_builder.rs"), ("typed deserializer", T + "de/mod.rs")],
     ["encode_to_string, decode_from_str"],
     "runtime monitor: text against the reference encoding of the value's JSON image, then round trip", NOTE)

prop("C11", "Decoding into a type agrees with decoding into a value",
     "Decoding a document into a Rust type gives exactly what decoding it into a JSON value and converting that value gives: the same success or failure, and the same result, through every decoding entry point. (Out-of-range numbers, repeated keys and non-canonical integer keys excepted.)",
     ["inputs"], "All types over 27 kinds nested up to 3 deep chosen at run time, 17 other types, x fitting, nearly fitting and edited documents.",
     "Tests decode a few structs from fixed documents.",
     [T + "de/mod.rs", T + "lib.rs"],
     [("typed deserializer", T + "de/mod.rs"), ("dispatch on the target type", T + "lib.rs")],
     ["decode_from_str, decode_from_reader, de::from_str"],
     "runtime differential monitor against serde_json's conversion", NOTE)

prop("C12", "Key folding writes the specified paths and loses nothing",
     "With key folding on, chains of single-key objects are written as dotted paths exactly as far as the flatten depth, identifier segments and the absence of a clash with a sibling key allow, and everything else is written as without folding. Decoding with path expansion and the same delimiter gives the original value whenever no original key contains a dot, and without expansion every path is an ordinary key.",
     ["inputs", "configurations"], "All JSON values x flatten depths 0, 1, 2, 3, 4, 6, unlimited x options.",
     "Tests fold a few small objects; clashes and depths interact with siblings and nesting.",
     [T + "encode/encoders.rs", T + "decode/path_expand.rs"],
     [("folding", T + "encode/encoders.rs"), ("expansion", T + "decode/path_expand.rs")],
     ["encode_to_string with key folding, decode_from_str with path expansion"],
     "runtime conformance and round-trip monitor with a reference folding", NOTE)

prop("C13", "Path expansion splits, merges and rejects exactly as specified",
     "With path expansion, every unquoted dotted key whose segments are all identifiers becomes a nested object, merged in document order with other keys at every level; quoted keys and other keys stay literal. If two keys disagree on whether something is an object, or give two values, strict mode reports an error and lenient mode lets the later one win; without expansion nothing is split.",
     ["inputs", "configurations"], "All documents with dotted keys at the root, nested, in list items, as array keys and as column names x strict and lenient.",
     "Tests expand a few keys at the root; merging and conflicts depend on order and depth.",
     [T + "decode/path_expand.rs", T + "decode/parser.rs"],
     [("expansion and merging", T + "decode/path_expand.rs"), ("quoted keys stay literal", T + "decode/parser.rs")],
     ["decode_from_str with path expansion"],
     "runtime monitor against a reference expansion", NOTE)

prop("C14", "Performance features change nothing but speed",
     "Built with any of the performance features (SIMD search, inline vectors, fast number parsing) or all of them, the library gives byte for byte the same texts, the same values and the same errors, messages and line numbers included, as without them, for every input and option.",
     ["inputs", "configurations"], "All inputs x 5 feature sets.",
     "The test suite is run with one feature set, and its fixed inputs cannot show that two code paths agree.",
     [T + "decode/scanner.rs", T + "decode/parser.rs", "crates/toon/Cargo.toml"],
     [("line splitting and colon search with memchr", T + "decode/scanner.rs"), ("splitting into inline vectors", T + "decode/parser.rs")],
     ["event logs of separately built programs"],
     "runtime differential monitor: event logs of five builds compared offline", NOTE)

prop("C16", "Builds without JSON support or the standard library behave the same",
     "Built without the JSON interchange feature, and without the standard library, the library writes the same text for every value and reads the same result from every document as the default build, errors included. (Key folding is not available there and stays off.)",
     ["inputs", "configurations"], "All inputs x {default, std + serde, alloc + serde}, key folding off.",
     "Tests are compiled for the default features only; the reduced builds have their own encoder and value builder.",
     [T + "ser/value_builder_alloc.rs", T + "ser/stream.rs", T + "encode/mod.rs", T + "number.rs"],
     [("separate value builder", T + "ser/value_builder_alloc.rs"), ("conditional code in the streaming encoder", T + "ser/stream.rs")],
     ["event logs of separately built programs"],
     "runtime differential monitor: event logs of three builds compared offline", NOTE)

prop("C17", "Readers and writers: nothing lost, nothing invented, faults reported",
     "Whatever pieces a writer accepts, it receives exactly the text of the value, and if it fails, the call returns that error after a prefix of the text. Decoding from a reader gives what decoding its complete content as a string gives; a reader that fails, or whose content is not UTF-8, makes the call return an error and never a value.",
     ["inputs", "fault_sequences"], "All values and texts x transfer sizes, interruptions, 9 kinds of failure after any number of bytes, end of stream anywhere, invalid UTF-8 anywhere.",
     "Tests write to and read from memory buffers, which never fail or stop half way.",
     [T + "lib.rs", T + "ser/mod.rs", T + "error.rs"],
     [("writing", T + "lib.rs:encode_to_writer; " + T + "ser/mod.rs"), ("reading", T + "lib.rs:decode_from_reader")],
     ["encode_to_writer, ser::to_writer, ser::to_writer_streaming, decode_from_reader"],
     "runtime fault injection into readers and writers with an output monitor", NOTE)

prop("C18", "The command line program does exactly what the library does",
     "For every input, from a file or standard input, and every combination of options, the program prints the library's result and a newline and exits with 0, or prints no result, explains itself on standard error and exits with another code. It does so for broken JSON and TOON, for input that is not UTF-8 or not there, and never reports success when the output could not be written.",
     ["inputs", "configurations", "fault_sequences"], "All inputs x options x file or standard input.",
     "Tests run the program on a few small inputs.",
     ["crates/toon-cli/src/main.rs"],
     [("the whole program", "crates/toon-cli/src/main.rs:main")],
     ["standard output, standard error and exit status of toon-cli"],
     "runtime differential monitor: processes against in-process library calls", NOTE)

prop("C19", "The WebAssembly bindings do exactly what the library does",
     "For every text and flag, the exported functions return the library's conversion or an error text, never panic, and accept inputs up to exactly 10 MB while refusing anything longer, counted in bytes.",
     ["inputs", "configurations"], "All texts x flags; sizes around the limit in one- and three-byte characters.",
     "Tests convert a few small texts and check one oversized one.",
     ["crates/toon-wasm/src/lib.rs"],
     [("exported functions", "crates/toon-wasm/src/lib.rs:json_to_toon, toon_to_json")],
     ["json_to_toon, toon_to_json (called natively)"],
     "runtime differential monitor in a process with the bindings' own allocator", NOTE + "Native code, not a WebAssembly engine (none is installed).")

prop("C20", "Calls are independent of each other and safe to make concurrently",
     "A call gives the same result whatever was encoded or decoded before it in the process, in whatever order, in a fresh process, and while other threads use the library; there are no data races.",
     ["schedules", "histories"], "All sequences and interleavings of calls; exercised forwards, backwards, one per process, and by four threads over the same cases in different orders.",
     "Tests make each call once, in one order and one thread.",
     [T + "lib.rs", T + "de/mod.rs", T + "ser/mod.rs"],
     [("no state between calls", T + "lib.rs")],
     ["event logs of the same calls in different orders, threads and processes; ThreadSanitizer reports"],
     "ThreadSanitizer and offline comparison of event logs across orders, threads and processes", NOTE)

prop("C23", "No undefined behaviour in any feature set",
     "No call, with all performance features on, reads or writes memory out of bounds, after it was freed or before it was initialised, makes a string that is not UTF-8, leaks memory, or does anything else that the language leaves undefined.",
     ["inputs", "configurations"], "All inputs; sampled under AddressSanitizer and, more thinly, under the Miri interpreter.",
     "Undefined behaviour need not change any result a test looks at.",
     [T + "decode/scanner.rs", T + "decode/parser.rs", T + "number.rs"],
     [("byte offsets into text", T + "decode/parser.rs"), ("dependencies with unsafe code", "crates/toon/Cargo.toml")],
     ["AddressSanitizer and Miri reports, results compared with an uninstrumented build"],
     "AddressSanitizer and Miri on the feature workload", NOTE)

prop("C24", "The public building blocks agree with the top-level functions",
     "Each public building block does its part exactly as the top-level functions do: scanning gives one entry per line with its indentation, key and content; the indentation checks find the first line strict mode forbids; every public parsing function, followed by public path expansion where it is on, gives the value or error of decoding; the value and field encoders write the text of encoding at any indent; the functions for single strings, keys, numbers, headers and lines, and the table test, give what appears in that text.",
     ["inputs", "configurations"], "All texts and values x strict and lenient x indents x delimiters x key folding; 6 parsing functions, 5 encoding functions and 14 token, header and line functions.",
     "Tests call a few of these functions on fixed inputs and never compare them with the top-level functions.",
     [T + "decode/parser.rs", T + "decode/scanner.rs", T + "decode/validation.rs", T + "decode/path_expand.rs", T + "encode/mod.rs", T + "encode/encoders.rs", T + "encode/primitives.rs", T + "encode/writer.rs", T + "encode/normalize.rs", T + "value.rs"],
     [("line scanner", T + "decode/scanner.rs:scan"), ("parsing functions", T + "decode/parser.rs:parse_to_value, parse_to_value_with_strict, parse_to_internal_value_from_lines"), ("indentation checks", T + "decode/validation.rs"), ("value and field encoders", T + "encode/mod.rs:encode_value_to_string; " + T + "encode/encoders.rs:encode_value, encode_object_field"), ("tokens and headers", T + "encode/primitives.rs")],
     ["results of the public functions of the encode, decode and value modules"],
     "runtime differential monitor: building blocks against top-level functions and small references", NOTE)
