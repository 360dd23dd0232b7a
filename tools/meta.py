"""The properties: what must always hold, and where in the code it lives."""
TR = ("The specification's properties are model-checked exhaustively for small texts; the code is bound to the specification by "
      "judging every observed call on exhaustive small inputs, boundary inputs and seeded random inputs in a checked+sanitized and a "
      "release build. Inputs beyond those are not covered; trusts TLC, the driver's recording, and the compilers.")
NOT_APPLICABLE = {}
SUB = "src/c4/substr.hpp"
CC = "src/c4/charconv.hpp"
FM = "src/c4/format.hpp"
TI = ("Laws of the specification are model-checked over small values, type edges and all short texts; the code is judged on all 8/16-bit values, "
      "powers and limits of every type in every radix with every buffer size, all short texts over the grammar's characters, every byte in every "
      "position class, and seeded random values, in checked+sanitized and release builds. Larger values are sampled, not enumerated; trusts TLC, the driver and the compilers.")
TRL = ("Laws of the specification (rounding is a total function, exact values are fixed points, one text per value and precision) are model-checked on "
       "toy floating point formats; the code is judged with exact arithmetic on boundary values, ties, halfway texts of up to 800 digits, all short texts over the "
       "grammar's characters and seeded random values, in checked+sanitized and release builds, with std::to_chars and with snprintf. Values are sampled, not "
       "enumerated. Not specified: a leading plus, nan(...), hexadecimal texts with more digits than fit or an odd exponent spelling.")
DU = "src/c4/dump.hpp"
TF = ("Laws of the specification (composition, reading back, exactly-once dumping as a state machine) are model-checked in small scopes; the code is judged on a matrix of "
      "argument types, separators, format strings and every buffer size up to beyond the text, on all short histories of buffer sizes, and on seeded random calls, in "
      "checked+sanitized and release builds. Not specified: scanning a text whose literal parts differ from the format string.")
TC = "the encoding and decoding laws are model-checked for all short data and texts over a reduced alphabet and for all code points; the real functions are run on generated data, texts and buffer sizes (for UTF-8: on every code point), and every outcome is decided by the specification"
MR = "src/c4/memory_resource.hpp"
TLCT = "TLA+ state machine checked with TLC over all bounded histories; behaviours generated from it are replayed into the real code and every recorded history is validated against it step by step"
TM = "the state machine is model-checked over all histories within small bounds; all its behaviours up to a depth, and longer random ones, are replayed into the real code, over a recording memory resource, and each step must be one the state machine allows"
PROPS = [
 dict(id="S01", title="Selecting part of a string view yields exactly the documented part",
  statement="Every selection on a string view (sub-range by position and length, first/last n, offsets from both ends, left of/right of a position or a sub-view, trimming of characters, stripping of a prefix or suffix pattern, unquoting) yields exactly the contiguous part of the source it documents, located inside the source and never outside it. In builds with assertions, a request outside the source is reported as an error instead of yielding a view. Accessors (element access, emptiness, size, iteration, containment and overlap of views) agree with the viewed characters, and selecting never modifies the text.",
  all="for every text (including empty and null views, any bytes), every position/length/pattern argument, and every sequence of selections",
  over=["inputs", "histories"],
  why="the tests assert a few hundred literal selections on fixed words; boundary combinations of position, length, npos and embedded bytes, and compositions of selections, are not enumerated",
  files=[SUB], mech=[("sub/range/first/last/offs/left_of/right_of", SUB), ("triml/trimr/trim/stripl/stripr/unquoted", SUB), ("is_sub/is_super/overlaps", SUB)], note=TR),
 dict(id="S02", title="Searches in a string view return the first/last match, or none",
  statement="Every search on a string view (for a character, any/none of a set of characters, a pattern, or several patterns, forwards or backwards, with or without a start position) returns the position a naive scan would find, and the 'not found' value exactly when there is no match. Prefix/suffix tests, occurrence counts, selection of a match, and delimiter-pair ranges (plain, escaped, nested) agree with that scan.",
  all="for every text, every character, character set, pattern and start position",
  why="tests sample specific words and positions; start positions at the ends, overlapping patterns, repeated characters and byte values above 127 are sampled sparsely",
  files=[SUB], mech=[("find/first_of/last_of/first_not_of/last_not_of/first_of_any", SUB), ("begins_with/ends_with/count/select/pair_range*", SUB)], note=TR),
 dict(id="S03", title="String comparison is one lexicographic total order for all operand types",
  statement="Comparing string views gives the lexicographic order of their characters with a proper prefix ordered first: equality holds exactly for equal contents, and <, <=, >, >=, ==, != are mutually consistent and antisymmetric when the operands are swapped. The same answers are given whichever operand types are used (view, writable view, single character, character array, std::string, std::vector<char>, std::string_view), and converting between those types and views preserves the exact contents.",
  all="for every pair of texts (empty, null, embedded zero, bytes above 127, equal prefixes) and every pair of operand types",
  why="order is a relation over all pairs; the tests compare a handful of fixed words and mostly one operand type",
  files=[SUB, "src/c4/std/string.hpp", "src/c4/std/vector.hpp", "src/c4/std/string_view.hpp"],
  mech=[("compare and the relational operators", SUB), ("mixed-type operators and to_substr/to_csubstr/to_chars/from_chars", "src/c4/std/")], note=TR),
 dict(id="S04", title="Splitting partitions the text; pops and path parts are consistent with it",
  statement="Splitting a text on a separator yields, in order, exactly the pieces between separators, so joining them with the separator gives back the text (an empty text has no pieces). Popping from the left or right gives the first or last piece and the greedy pops give the remaining ones, with empty pieces skipped when asked; basename, dirname and the extension queries are consistent with that partition.",
  all="for every text and separator, including leading, trailing and repeated separators, and every start position",
  why="tests list specific paths; runs of separators at either end combined with skip-empty are only partly listed",
  files=[SUB], mech=[("next_split/split iterators", SUB), ("pop_left/pop_right/gpop_left/gpop_right/basename/dirname/ext*", SUB)], note=TR),
 dict(id="S05", title="Number tokens in text are recognised exactly by the number grammar",
  statement="The first unsigned-integer, integer or real token of a text is recognised exactly when its first whitespace-delimited word starts with a number of that grammar (optional sign; decimal, or 0x/0b/0o prefixed; for reals also a fraction, an exponent, inf, infinity or nan) that is followed by nothing or by a closing delimiter, and the returned view covers exactly that number. The is-number, is-real, is-integer and is-unsigned queries hold exactly for texts which are, in full, such a token.",
  all="for every text",
  why="the grammar is a language; tests list examples and can not show that nothing else is accepted or rejected",
  files=[SUB], mech=[("first_non_empty_span/first_uint_span/first_int_span/first_real_span", SUB), ("is_number/is_real/is_integer/is_unsigned_integer", SUB)], note=TR),
 dict(id="S06", title="In-place text edits change exactly the intended characters",
  statement="Edits through a writable view (case conversion, fill, copy-in, reversal of the whole or a part, erasure, replacement of characters) leave exactly the documented contents, report the right count or resulting view, and touch nothing outside the view. Replacing all occurrences of a pattern into another buffer yields every non-overlapping occurrence replaced, always reports the required size, and never writes beyond the destination.",
  all="for every text, position, length, pattern, replacement and destination size",
  why="tests use fixed words; the combinations of ranges, overlapping patterns and short destinations are not enumerated",
  files=[SUB], mech=[("toupper/tolower/fill/copy_from/reverse*/erase*/replace", SUB), ("replace_all", SUB)], note=TR),

 dict(id="I01", title="Integers are written as their exact text, within the given buffer",
  statement="Writing an integer of any supported type in decimal, hexadecimal, octal or binary produces exactly its digits without redundant zeros, preceded by a minus sign when negative and by the radix prefix where one is documented, and zero-padded to the requested number of digits (which counts neither sign nor prefix). The returned size is always the full required size whatever the buffer size; a large enough buffer receives the text and nothing else of it changes; a too-small buffer is not written to at all by the documented functions, and nothing outside the buffer is ever written. The digit-counting functions agree with the text.",
  all="for every value of every 8/16/32/64-bit signed and unsigned type (and pointers, bool, char), every radix, every padding and every buffer size",
  why="tests convert lists of values into ample buffers; every value/padding/buffer-size combination, digit-count thresholds and minimum values in short buffers cannot be sampled by hand",
  files=[CC, FM], mech=[("digits_dec/digits_hex/digits_oct/digits_bin", CC), ("write_dec/write_hex/write_oct/write_bin and _unchecked", CC), ("itoa/utoa/xtoa/to_chars/to_chars_sub", CC), ("fmt::integral/hex/oct/bin/zpad", FM)], note=TI),
 dict(id="I02", title="Reading an integer accepts exactly integer texts and yields their value",
  statement="Reading an integer, bool or character from a whole text succeeds exactly when the text is, in full, a well-formed number of the documented grammar (optional minus for signed types; decimal with any leading zeros, or 0x/0o/0b in either case followed by at least one digit of that radix; for bool also the six true/false words), and then yields its value, reduced modulo the width of the type when it is out of range. Every other text is refused, and no character outside the text is read. Text written by the library for a value reads back as that value in every radix.",
  all="for every text (any bytes, any length, empty, null) and every integer type",
  why="acceptance is a language and the value a function over all texts; the tests list samples and never show that nothing else is accepted",
  files=[CC], mech=[("read_dec/read_hex/read_oct/read_bin", CC), ("atoi/atou/atox/from_chars", CC), ("from_chars for bool and char", CC)], note=TI),
 dict(id="I03", title="Overflow is reported exactly when a value does not fit the type",
  statement="For every text that denotes an integer, the overflow query for a type answers true exactly when the value lies outside the range of that type, in every radix, with any leading zeros, for negative and positive values. Overflow-checked reading succeeds exactly when the text is a well-formed integer that fits, and then yields its value.",
  all="for every integer text of any length and radix, and every integer type",
  why="the decision compares digit strings by length and leading digits; the tests check values next to the limits in a few spellings only",
  files=[CC, FM], mech=[("overflows", CC), ("detail::check_overflow, charconv_digits", CC), ("fmt::overflow_checked", FM)], note=TI),
 dict(id="I04", title="Reading the first integer of a text consumes exactly its token",
  statement="Reading the first integer (or bool, pointer, character) of a longer text skips leading whitespace, takes exactly the first number token, yields the value of that token, and returns the number of characters up to its end; when the text does not start with such a token the 'not found' value is returned. No text makes the call fail in any other way.",
  all="for every text and every integer type",
  why="the result depends on what surrounds the number; tests use a few fixed sentences",
  files=[CC, SUB], mech=[("atoi_first/atou_first/from_chars_first", CC), ("first_int_span/first_uint_span/first_non_empty_span", SUB)], note=TI),
 dict(id="R01", title="Reals are written correctly rounded to the requested digits, within the buffer",
  statement="Writing a float or double gives a well-formed text of the requested style (fixed, scientific, flexible, hexadecimal) whose value lies within half a unit of the last requested digit of the number (with no precision given: a text which reads back as the same number where the platform's shortest conversion is used, six digits otherwise; hexadecimal is exact), with the sign of the number, and with inf/nan as such. A returned size not larger than the buffer means that exactly that text is at its start; a larger one is only returned if the text does not fit. Nothing outside the buffer is written. A number written with enough digits (or in hexadecimal) reads back as the same bits.",
  all="for every float and double (subnormal, extreme, infinite, nan, signed zero), style, precision and buffer size",
  why="the tests compare a few literals; rounding at every precision, carries into a new digit, exponents and short buffers are not sampled",
  files=[CC, FM], mech=[("ftoa/dtoa, detail::rtoa, detail::print_one", CC), ("to_chars/xtoa for reals", CC), ("fmt::real", FM)], note=TRL),
 dict(id="R02", title="Reading a real accepts exactly real texts and yields the nearest value",
  statement="Reading a float or double from a whole text succeeds exactly for well-formed decimal reals (optional minus, digits with an optional point, optional exponent) that do not overflow or vanish, hexadecimal reals, and the words inf, infinity and nan, and yields the nearest representable number, ties to even (hexadecimal reals that fit exactly are exact). Any other text, including a number followed by anything else, is refused without any other failure. Reading the first real of a longer text consumes exactly its first real token.",
  all="for every text and both real types",
  why="correct rounding is a statement about every decimal text, and acceptance about every text; tests list samples",
  files=[CC, SUB], mech=[("atof/atod, detail::scan_rhex", CC), ("atof_first/atod_first/from_chars/from_chars_first for reals", CC), ("first_real_span", SUB)], note=TRL),
 dict(id="F01", title="Formatting yields the exact text and required size, inside the buffer",
  statement="Concatenating, joining with a separator, or formatting any arguments with a format string produces exactly the texts of the arguments in order, with the separators or literal text in between; each {} takes the next argument, arguments beyond the last {} are ignored, and {} without arguments stay as they are. Alignment pads to the requested width. The returned size is the full required size whatever the buffer size; if it is not larger than the buffer then the buffer starts with that text and the rest is untouched; nothing outside the buffer is ever written. The variants which resize a container leave exactly that text in it, or append exactly that text and return the appended part. Raw binary data is written at the next aligned address and reads back identical.",
  all="for every list of arguments of any mix of types, separator, format string, buffer size and previous container contents",
  why="tests list particular calls with ample buffers; combinations of argument types, format marks and too-small buffers are unbounded",
  files=[FM, "src/c4/format.cpp", "src/c4/blob.hpp", CC], mech=[("cat/catsep/format and _sub variants", FM), ("catrs/catseprs/formatrs and _append variants", FM), ("fmt::left/right/boolalpha/hex/zpad/raw", FM), ("to_chars/from_chars of raw data", "src/c4/format.cpp")], note=TF),
 dict(id="F02", title="Scanning several values reads each in turn and counts what it consumed",
  statement="Reading several values from a text (concatenated, separated, or interleaved with the literal text of a format string) reads each value exactly as reading the first value of the remaining text would, and returns the total number of characters consumed, or the 'failed' value as soon as one value cannot be read. What was written with a format string reads back as the same values with that format string, when the literal text delimits the values. The text itself is never modified.",
  all="for every text, list of value types, separator type and format string",
  why="tests scan a few fixed sentences; failures in the middle, consumed counts and delimiters are sampled sparsely",
  files=[FM, CC], mech=[("uncat/uncatsep/unformat", FM), ("from_chars_first of every type", CC)], note=TF),
 dict(id="F03", title="Dumping through a small buffer loses, repeats and reorders nothing",
  statement="Dumping arguments to a sink through a working buffer sends the texts of the arguments in order up to the first one that does not fit, and reports the buffer size needed for all. When the dump is resumed with the returned results, any number of times and with any buffer sizes, the concatenation of everything sent is always a prefix of the full text, each piece is sent exactly once, a buffer of the reported size completes it, and nothing is sent after completion. This holds for the plain, separated and format-string variants and for both ways of passing the sink.",
  all="for every list of arguments, separator, format string and every history of buffer sizes",
  over=["inputs", "histories"],
  why="the guarantee is about histories of calls; the tests check a few fixed sequences",
  files=[DU], mech=[("dump/cat_dump/catsep_dump/format_dump", DU), ("DumpResults, cat_dump_resume/catsep_dump_resume/format_dump_resume", DU)], note=TF),
 dict(id="B01", title="Base64 encoding and decoding are exact inverses, within the given buffer",
  statement="Base64-encoding any data yields its standard padded encoding; decoding a valid encoding yields the data, so that decoding inverts encoding for data of every length and for values of every type. A text is reported as valid exactly when its length is a multiple of four, its characters are of the base64 alphabet, and padding is only the last one or two characters; in checked builds decoding any other text is reported as an error, and a length that is no multiple of four always is. The full required size is returned whatever the buffer size, a large enough buffer receives exactly the result, and nothing outside the buffer is ever written.",
  all="for every data, every text and every buffer size, on platforms with signed or unsigned char",
  why="the tests convert a few fixed values; validity is a language, and buffers that are too small, misplaced padding and bytes above 127 are not sampled",
  files=["src/c4/base64.cpp", "src/c4/base64.hpp", "src/c4/blob.hpp"], mech=[("base64_encode/base64_decode/base64_valid", "src/c4/base64.cpp"), ("fmt::base64/cbase64, to_chars/from_chars", "src/c4/base64.hpp")], note=TC),
 dict(id="U01", title="Every code point is converted to its UTF-8 bytes",
  statement="Converting a code point, given as a number or as hexadecimal digits in either case, yields exactly its UTF-8 encoding in the shortest form (one to four bytes) at the start of the output, and nothing for values above the last code point 0x10ffff. In checked builds an output of less than four bytes, a prefix, a leading zero, an empty or overlong text are reported as errors, and a text which is not hexadecimal always is. Nothing outside the output buffer is written.",
  all="for every 32-bit value (every code point is enumerated) and every text",
  why="the tests convert about ten code points; the boundaries between the lengths and the arithmetic hold for all or not",
  files=["src/c4/utf.cpp", "src/c4/utf.hpp"], mech=[("decode_code_point", "src/c4/utf.cpp")], note=TC),
 dict(id="M01", title="Linear memory resources never hand out memory that is in use or not theirs",
  statement="Over any history of requests, every block handed out by a linear memory resource lies inside its buffer, is aligned as asked for, and does not overlap any other block in use; reallocation keeps the contents up to the smaller size, and blocks that are not touched keep their contents and place. A request is refused exactly when it does not fit, including sizes near the maximum, and a refused request changes nothing. Sizes and slack are reported exactly. Memory owned by the resource is taken from the underlying resource once and given back exactly once, with its size, on release, re-acquisition or destruction; borrowed memory never is.",
  all="for every history of allocate, reallocate, deallocate, clear, acquire, release and destruction, every size, alignment and misaligned buffer",
  over=["histories", "inputs"],
  why="the tests perform one fixed sequence on one buffer; overlaps, lost contents and leaks appear only in particular sequences",
  files=[MR, "src/c4/memory_resource.cpp"], mech=[("MemoryResourceLinear/MemoryResourceLinearArr", MR), ("do_allocate/do_reallocate", "src/c4/memory_resource.cpp"), ("_MemoryResourceSingleChunk acquire/release", "src/c4/memory_resource.cpp")], note=TM, technique=TLCT),
 dict(id="M02", title="Allocation counts are exact and scoped resources restore the previous one",
  statement="A counting resource passes every request on unchanged, once, and its counts are at every moment exactly the number and total size of the blocks in use, of all blocks ever handed out, and the peaks of the former, also after requests that failed and with counting resources on top of each other. Entering a scope makes its resource the thread's current one and leaving it restores the resource that was current before, in any nesting; other threads are not affected.",
  all="for every history of requests, failures, nested scopes and explicit changes of the resource",
  over=["histories", "schedules"],
  why="the tests use one scope and a few allocations; nesting, failures and the restored resource depend on the history",
  files=[MR], mech=[("AllocationCounts, MemoryResourceCounts", MR), ("ScopedMemoryResource, ScopedMemoryResourceCounts", MR), ("get_memory_resource/set_memory_resource", MR)], note=TM, technique=TLCT),
 dict(id="M03", title="Allocators keep their blocks apart and give back exactly what they took",
  statement="Over any history, blocks of an allocator in use never overlap and are aligned as asked for, reallocation keeps the contents up to the smaller size, and every block taken from the memory resource is given back exactly once with the size and alignment it was taken with. A small allocator uses its internal room, never beyond its capacity, before asking the resource when nothing else is there. A request that fails leaves everything as it was. The default heap functions return aligned memory and refuse alignments that are no power of two.",
  all="for every history of allocate, reallocate and deallocate in any order, of several allocator and object types, with failing requests",
  over=["histories", "inputs"],
  why="the tests allocate once per container; overlaps need particular orders of freeing and taking",
  files=["src/c4/allocator.hpp", MR, "src/c4/memory_resource.cpp"], mech=[("Allocator, SmallAllocator", "src/c4/allocator.hpp"), ("aalloc/arealloc/afree, MemoryResourceMalloc", "src/c4/memory_resource.cpp")], note=TM, technique=TLCT),

 dict(id="L01", title="Spans never leave their memory and keep exactly the capacity documented",
  statement="Over any history of constructing, assigning, selecting (subspan, range, first, last), trimming, resizing, clearing, converting and recovering the original, a span of any class (fixed, resizeable, resizeable with memory of its origin) has exactly the documented position, size and capacity and never extends beyond the memory it was given: resizeable spans keep the right end of it, the others with memory of their origin both ends. In builds with assertions, a request outside of it is refused and changes nothing. Element access, iteration in both directions and writes reach exactly the elements of the window. Comparison is the lexicographic order of the elements for all classes and index types, and containment and complements agree with the positions. A size conversion preserves the size, or is refused in builds with assertions. A blob covers exactly the bytes of the object it was made from.",
  all="for every history of operations on a span, every span class and index type, every pair of spans, and every size",
  over=["histories", "inputs"],
  why="the tests make a dozen fixed sequences on one array of ten integers; what is kept depends on the history, and refused requests and mixed index types are hardly tested",
  files=["src/c4/span.hpp", "src/c4/szconv.hpp", "src/c4/blob.hpp"], mech=[("span_crtp, span, spanrs, spanrsl", "src/c4/span.hpp"), ("szconv", "src/c4/szconv.hpp"), ("blob_", "src/c4/blob.hpp")],
  note="the state machine of a span is model-checked over all histories within small bounds; all its behaviours up to a depth (including one request that must be refused at the end), and longer random ones, are replayed into the real code in C++11, 14, 17 and 20 builds, and each step must be one the state machine allows. Not specified: trimming all elements in builds with assertions (the assertion there refuses it).", technique=TLCT),
 dict(id="E01", title="Enum symbols and bitmasks convert to text and back exactly",
  statement="For every symbol table, a name finds a symbol exactly when it is the whole name of it, in full, without the class qualifier or without the prefix, never a part or an extension of one; a value finds the first symbol that has it; iteration visits all symbols in order. The text of a bitmask is the symbols that make it up, joined by '|' and spelled with the requested amount of prefix, or what stands for zero; the written length is the same for every buffer size, writing stays within the buffer, is terminated when it fits, and a bitmask with bits that no symbol has is an error, in buffers and in streams. Reading a bitmask gives the union of the symbols and numbers named, however spelled and spaced, and an error for everything else, reading nothing outside of the text; hence every bitmask that has a text is read back from it.",
  all="for every symbol table, value, spelling, text and buffer size",
  why="the tests use one table in which no name is a prefix of another, and well-formed texts",
  files=["src/c4/enum.hpp", "src/c4/bitmask.hpp"], mech=[("EnumSymbols, eoffs", "src/c4/enum.hpp"), ("bm2str, str2bm, bm2stream", "src/c4/bitmask.hpp")],
  note="the specification is given seven tables (with class qualifiers, prefixes, names that extend one another, composite and overlapping values, no zero, up to 64 bits); not specified: numbers wider than the type, numbers followed by something after a space or colon, values whose composite symbol precedes its parts."),
 dict(id="X01", title="Errors are reported once as set and never return; scopes restore the settings",
  statement="After any history of setting error flags and callbacks, directly or through nested scopes, an error (however raised: C4_ERROR, failed checks and assertions, not-implemented and never-reached points) is logged exactly when logging is on, with its text and place; calls the callback that is set exactly once when callbacks are on, with the exact formatted text (cut at 1023 characters), its length and a terminator; throws it when exceptions are enabled and asked for; and otherwise aborts: it never returns to where it happened. A callback may leave by throwing or jumping. The end of a scope restores exactly the flags and callback there were at its beginning. Checks work in all builds; assertions only in checked builds, and have no effect otherwise. Warnings are logged and return.",
  all="for every history of settings and scopes, every combination of flags and callbacks, and every message",
  over=["histories", "inputs"],
  why="the tests raise one literal error with one callback; combinations, long messages, texts with percent signs, nesting and aborts are not tested",
  files=["src/c4/error.hpp", "src/c4/error.cpp"], mech=[("handle_error, handle_warning, is_debugger_attached", "src/c4/error.cpp"), ("ScopedErrorSettings, C4_ERROR, C4_CHECK, C4_ASSERT", "src/c4/error.hpp")],
  note="settings and scopes are a state machine, model-checked with three nested scopes; all its behaviours of three steps, and longer random ones, are replayed; each error is raised in a child process so that aborting is observed. Not specified: use from several threads (the settings are plain globals), errors inside of noexcept functions when they are thrown, breaking into a debugger.", technique=TLCT),
 dict(id="O01", title="Objects built, moved and destroyed in raw memory have proper life cycles",
  statement="Over any history of the construct, copy/move construct, copy/move assign and destroy functions and of making and destroying room, on trivial and on non-trivial types and with all index types: every object is built exactly once before it is used, destroyed at most once, never built over a live object or from itself, and holds the value it was given; exactly the slots addressed change; moving loses and duplicates nothing; making room shifts the objects by it, in place with overlap or not, or into other memory leaving the source alone; destroying room closes it, and all objects going are destroyed. In builds with assertions a position or room outside of the objects, and source and destination being the same, are refused and change nothing.",
  all="for every history of operations on a piece of memory, every element type category, size, position and room",
  over=["histories", "inputs"],
  why="the tests move a hundred strings with four fixed combinations and without looking at life cycles",
  files=["src/c4/ctor_dtor.hpp"], mech=[("construct, copy_construct, move_construct, copy_assign, move_assign, destroy, make_room, destroy_room", "src/c4/ctor_dtor.hpp")],
  note="slots of memory are a state machine, model-checked with four slots and three kinds of types; all its operations on five slots, and random histories on up to sixty, are replayed with an element type that reports its life cycle. Not specified: whether what stays behind a destroyed room in place is destroyed (the code leaves it), exceptions thrown by constructors, room made at the end when copying to other memory (the assertion refuses it).", technique=TLCT),
 dict(id="G01", title="Bit positions, masks, integer powers and size remainders are exact",
  statement="The lowest and highest set bit of every nonzero unsigned number of every width, computed at run time or at compile time, are exactly its least and most significant set bit, and asking for them of zero is an error in builds with assertions. A contiguous mask has exactly the bits from the first up to but not including the last. An integer power equals the mathematical power whenever that fits into the type (for negative exponents what integer division by the base that many times leaves of one), for all types of base and exponent and for bases given at run time or at compile time. The number of bytes missing to a minimum or to a multiple is the least one that reaches it, and so is the number of characters needed for a number of bytes.",
  all="for every value of every integer type, every range of bits, base, exponent and size",
  why="the tests list a few dozen values per function; boundaries of each width, zero and negative exponents, and the compile-time variants are sampled sparsely",
  files=["src/c4/memory_util.hpp", "src/c4/types.hpp", "src/c4/char_traits.hpp"], mech=[("lsb, msb, lsb11, msb11, ipow, contiguous_mask, contiguous_mask11", "src/c4/memory_util.hpp"), ("min_remainder, mult_remainder", "src/c4/types.hpp"), ("num_needed_chars", "src/c4/char_traits.hpp")],
  note="laws are model-checked for all 8-bit values; the real functions are run on all 8-bit (thorough: 16-bit) values, on all one- and two-bit values and seeded random ones of the wider types, on all masks of all types, and on all powers that fit of a set of bases; every outcome is decided by the specification with exact arithmetic. The bit functions are run both as built here and in the portable form for compilers without the builtins. Not specified: signed overflow, zero to a negative power."),
 dict(id="G02", title="Raw memory helpers touch exactly their bytes; hashes depend on the bytes only",
  statement="Filling memory with a repeated pattern leaves exactly that many copies of the pattern, one after the other, writes nothing outside of them, leaves the pattern alone, and refuses a pattern overlapping the destination in builds with assertions. Setting memory to zero affects exactly the given elements. Two non-empty ranges overlap exactly when they have a byte in common; an address is aligned exactly when it is a multiple of the alignment. The FNV-1a hashes of 32 and 64 bits have the published value for every sequence of bytes, and feeding the bytes in any partition, asking for the digest in between or not, gives the same value as hashing them at once. White space is exactly the six white space characters, for both character types.",
  all="for every pattern, count, range, address and byte sequence, and every history of partial updates",
  over=["inputs", "histories"],
  why="the tests repeat a few patterns and do not test the hashes or the zeroing at all",
  files=["src/c4/memory_util.hpp", "src/c4/memory_util.cpp", "src/c4/hash.hpp", "src/c4/char_traits.hpp"], mech=[("mem_repeat", "src/c4/memory_util.cpp"), ("mem_zero, mem_overlaps, is_aligned", "src/c4/memory_util.hpp"), ("basic_fnv1a, hash_bytes", "src/c4/hash.hpp"), ("isspace, char_traits", "src/c4/char_traits.hpp")],
  note="the hash is a state machine fed by pieces, model-checked over all histories of up to five bytes; the real functions are run on all patterns sizes and counts within bounds (with the memory around them watched) and on seeded random histories, and each is decided by the specification. Not specified: overlaps of empty ranges; the hash of a character array given without a size (it includes the terminator)."),
 dict(id="G03", title="Tight pairs, padded classes, sequences and type names are what they say",
  statement="Over any history of constructing, writing one part, copying and assigning, a tight pair of any two types holds exactly the values given to its parts, default-initialised to zero, one part never affecting the other; a part without members takes no room, and the pair is never larger than a plain one. A padded class has exactly the requested extra bytes, and the classes made up to a minimum, a multiple or both have exactly the least size that satisfies them, for every kind of class, keeping its value and being movable from it. A sequence of n integers is 0 to n-1 in every language version. The macro that applies another to each of its arguments does so for each, in order, for 1 to 32 arguments. The name of a type is exactly its name with every compiler; the type traits hold exactly for the types they describe.",
  all="for every pair of types and history, every class, size, sequence length, number of arguments and type",
  over=["inputs", "histories"],
  why="the tests look at the sizes of a few plain structures of characters, never at values, and only the installed language version",
  files=["src/c4/memory_util.hpp", "src/c4/types.hpp", "src/c4/preprocessor.hpp", "src/c4/type_name.hpp"], mech=[("tight_pair", "src/c4/memory_util.hpp"), ("Padded, MinSized, MultSized, make_integer_sequence, fastcref, C4_DEFINE_HAS_TYPEDEF", "src/c4/types.hpp"), ("C4_FOR_EACH", "src/c4/preprocessor.hpp"), ("type_name", "src/c4/type_name.hpp")],
  note="pairs are a state machine, model-checked over all histories of their values; all histories of up to three steps on 25 combinations of types (empty, scalar, class, with tail padding, derived, containing one another) are replayed, in C++11, 14 and 17 builds by two compilers, and decided by the specification. Not specified: the alignment of padded classes (they are packed)."),
 dict(id="N01", title="Random generators are functions of their seed; skipping equals drawing",
  statement="Each of the random generators (splitmix, xorshift, pcg) is a deterministic function of its seed: two generators constructed alike and treated alike (seeded, drawn from, copied) give the same numbers for ever, and the numbers are those of the published algorithm. Discarding n numbers leaves the generator exactly as drawing n numbers does. Two generators compare equal exactly when their states are equal, and then all their further numbers are. Every number lies within the declared minimum and maximum, and no operation has undefined behaviour for any state.",
  all="for every seed and every history of drawing, discarding, copying, seeding and comparing",
  over=["inputs", "histories"],
  why="the tests do not touch the generators; equality, copying and discarding depend on the history and some shifts on the state",
  files=["src/c4/ext/rng/rng.hpp"], mech=[("splitmix, xorshift, pcg", "src/c4/ext/rng/rng.hpp")],
  note="generators are a state machine over 64-bit words as limbs; laws (discarding equals drawing, equal states give equal numbers) are model-checked over histories; seeded random and boundary histories are replayed with undefined shifts trapped, and each number is decided by the specification of the algorithms. Not specified: statistical quality; seeding from a random device.", technique=TLCT),
 dict(id="P01", title="In-place functions hold exactly one live copy of what they call",
  statement="Over any history of constructing, copying, moving, assigning, swapping, clearing, converting to a larger capacity and calling in-place functions, each of them is empty or holds exactly one live object of the type it was given, with the value it was given or that its calls left, inside of its own storage; nothing is built over a live object, destroyed twice, used after its destruction or forgotten; copying leaves the source as it was, and assigning or swapping with itself changes nothing. A call passes the arguments on and gives what the held object gives; calling an empty function throws std::bad_function_call. A function tests as empty exactly when it holds nothing, also after a conversion. A copy that fails leaves the function empty or as it was.",
  all="for every history of operations on functions of both capacities, with callables of every kind, and with copies that fail at any point",
  over=["inputs", "histories", "fault_sequences"],
  why="the tests do not use it; lifetimes depend on the history of assignments, conversions and failures",
  files=["src/c4/ext/sg14/inplace_function.h"], mech=[("inplace_function, vtable", "src/c4/ext/sg14/inplace_function.h")],
  note="the slots and what each step allows are a specification (Function.tla); a second one models the tables of operations and raw memory and is checked to agree with it for every history up to a depth (MCFunc), with failing copies; all histories of the specification up to a depth and random longer ones are replayed with callables that record their births and deaths, and each step is decided by the specification. Not specified: swapping objects whose move throws; the header needs C++17.", technique=TLCT),
]
