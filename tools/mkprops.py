import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="cfg(vsimd_verif): hide CPU features so that one build reaches every x86 back end"
MV=lambda c:("dispatch! targets",f"crates/{c}/src/multiversion.rs")
AVX="The suite draws a few random inputs per length on the development machine's own back end; on an AVX2 machine the SSSE3, SSE4.1 and most scalar paths are never entered, and no test enumerates which byte stands where relative to the vector and tail boundaries."

p("X01","Hex encoding is exact on every entry point",
"For every byte string and either letter case, every hex encoding entry point (slice, str, raw pointer, allocating, appending) produces exactly two digits per byte, high nibble first, in the requested case. The encoders taking a destination return Err if and only if the destination is shorter than twice the input, and otherwise return exactly the first 2n bytes of it.",
["inputs","configurations"],"all byte strings, both cases, all destination lengths, all back ends",AVX,
["crates/hex-simd/src/lib.rs","crates/hex-simd/src/encode.rs","crates/hex-simd/src/heap.rs","crates/vsimd/src/hex.rs"],
[("vector nibble split and table lookup","crates/vsimd/src/hex.rs"),("tails of encode","crates/hex-simd/src/encode.rs"),MV("hex-simd")],
["return value and destination bytes of encode, encode_as_str, encode_raw, encode_to_string, encode_type, encode_append"],H)

p("X02","Hex decoding accepts exactly the hex digits and inverts encoding",
"Hex decoding succeeds if and only if the input has even length, consists only of 0-9, a-f and A-F (mixed case allowed) and the destination, where there is one, holds at least half the input length; it then yields the bytes those digits denote. Every other input gives Err, wherever the offending byte stands.",
["inputs","configurations"],"all byte strings (each of the 256 byte values at each position), all destination lengths, all back ends",AVX,
["crates/hex-simd/src/lib.rs","crates/hex-simd/src/decode.rs","crates/hex-simd/src/heap.rs","crates/vsimd/src/hex.rs"],
[("decode_ascii16/32/32x2 validity masks","crates/vsimd/src/hex.rs"),("SSE2 nibble decoder","crates/vsimd/src/hex.rs"),("tails of decode","crates/hex-simd/src/decode.rs")],
["return value and output of decode, decode_raw, decode_inplace, decode_to_vec, decode_type, decode_append"],H)

p("B01","Base64 encoding is exact for all four variants",
"For every byte string and each of STANDARD, URL_SAFE and their NO_PAD forms, every base64 encoding entry point yields exactly the RFC 4648 encoding of the input: the variant's alphabet, zero trailing bits, '=' padding to a multiple of four only in the padded variants. The encoders taking a destination return Err if and only if it is shorter than that encoding. The reported character set is the alphabet used.",
["inputs","configurations"],"all byte strings, 4 variants, all destination lengths, all back ends",AVX,
["crates/base64-simd/src/lib.rs","crates/base64-simd/src/encode.rs","crates/base64-simd/src/heap.rs"],
[("24-byte vector block, 6-bit split, value-to-ASCII shift","crates/base64-simd/src/encode.rs"),("encode_extra tail and padding","crates/base64-simd/src/encode.rs"),MV("base64-simd")],
["return value and destination bytes of encode, encode_as_str, encode_to_string, encode_type, encode_append"],H)

p("B02","Base64 strict decoding accepts exactly the canonical encodings",
"Each of the four strict variants decodes precisely the strings its own encoder can produce: the right alphabet only, padding exactly as that variant writes it, and all-zero unused trailing bits; it yields the bytes that were encoded. Every other string, and every destination shorter than the decoded bytes, gives Err.",
["inputs","configurations"],"all byte strings (each byte value at each position, every placement of '=', every trailing-bit pattern), 4 variants, all back ends",AVX,
["crates/base64-simd/src/decode.rs","crates/base64-simd/src/alsw.rs","crates/base64-simd/src/lib.rs","crates/base64-simd/src/heap.rs","crates/vsimd/src/alsw.rs"],
[("pad counting in decoded_length","crates/base64-simd/src/decode.rs"),("ALSW check/decode tables","crates/base64-simd/src/alsw.rs"),("decode_extra trailing bits","crates/base64-simd/src/decode.rs")],
["return value and output of decode, decode_inplace, decode_to_vec, decode_type, decode_append"],H)

p("B03","Forgiving base64 decoding follows the WHATWG algorithm",
"The three forgiving decoders agree with the WHATWG forgiving-base64 algorithm on every byte string: ASCII whitespace (TAB, LF, FF, CR, SPACE) is removed anywhere, one or two trailing '=' are dropped only if the rest-free length is a multiple of four, a remaining length of 1 mod 4 or any other character is an error, and unused trailing bits are discarded. The form that writes to a destination additionally returns Err if and only if the destination is shorter than the source.",
["inputs","configurations"],"all byte strings, with whitespace at any set of positions, all back ends",
"A handful of literal strings and web-platform cases are tested, all shorter than one vector block; where whitespace first appears selects different scanning and copying code.",
["crates/base64-simd/src/forgiving.rs","crates/base64-simd/src/ascii.rs","crates/base64-simd/src/decode.rs"],
[("whitespace scan and removal","crates/base64-simd/src/ascii.rs"),("Forgiving pad rule","crates/base64-simd/src/decode.rs")],
["forgiving_decode, forgiving_decode_inplace, forgiving_decode_to_vec"],H)

p("B04","Parallel base64 encoding equals sequential encoding",
"For every input, variant, thread-pool size and destination length, the parallel base64 encoder returns the same bytes as the sequential encoder, and returns Err (never a panic) if and only if the destination is shorter than the encoding. Nothing outside the returned prefix of the destination is written, and its workers never race with each other on memory.",
["inputs","schedules","configurations"],"all inputs around the chunking thresholds, pool sizes, 4 variants, worker schedules",
"Its only test is #[ignore]d, uses one pool size and few lengths; chunk boundaries depend on pool size and length modulo 3.",
["crates/base64-simd/src/parallel.rs"],
[("chunk size rounding and last-chunk padding","crates/base64-simd/src/parallel.rs")],
["par_encode"])

p("C01","Base32 encoding is exact for all four variants",
"For every byte string and each of BASE32, BASE32HEX and their NO_PAD forms, every base32 encoding entry point yields exactly the RFC 4648 encoding: the variant's alphabet, zero trailing bits, '=' padding to a multiple of eight only in the padded variants. The encoders taking a destination return Err if and only if it is shorter than that encoding. The reported character set is the alphabet used.",
["inputs","configurations"],"all byte strings, 4 variants, all destination lengths, all back ends",AVX,
["crates/base32-simd/src/lib.rs","crates/base32-simd/src/encode.rs","crates/base32-simd/src/heap.rs"],
[("20-byte vector block","crates/base32-simd/src/encode.rs"),("encode_extra tail and padding","crates/base32-simd/src/encode.rs"),MV("base32-simd")],
["return value and destination bytes of encode, encode_as_str, encode_to_string, encode_type, encode_append"],H)

p("C02","Base32 decoding accepts exactly the canonical encodings",
"Each base32 variant decodes precisely the strings its own encoder can produce: upper-case alphabet of that variant only, padding exactly as written by it, permitted lengths only, all-zero unused trailing bits; it yields the bytes that were encoded. Every other string, and every destination shorter than the decoded bytes, gives Err.",
["inputs","configurations"],"all byte strings (each byte value at each position, every placement of '=', every trailing-bit pattern), 4 variants, all back ends",AVX,
["crates/base32-simd/src/decode.rs","crates/base32-simd/src/alsw.rs","crates/base32-simd/src/lib.rs","crates/base32-simd/src/heap.rs"],
[("pad counting in decoded_length","crates/base32-simd/src/decode.rs"),("ALSW check/decode tables","crates/base32-simd/src/alsw.rs"),("decode_extra","crates/base32-simd/src/decode.rs")],
["return value and output of decode, decode_inplace, decode_to_vec, decode_type, decode_append"],H)

p("K01","Validation and length prediction agree with decoding",
"For every byte string, the base64 and base32 check functions return Ok exactly when decoding the same string with the same variant succeeds, and whenever decoding succeeds the predicted decoded length is Ok and equals the number of bytes decoded. Hex check returns Ok exactly when every byte is a hex digit (any length), so that for even lengths it agrees with decoding.",
["inputs","configurations"],"all byte strings, all variants, all back ends",
"check has its own vector loops and its own tail code, separate from decode's; tests compare the two on few strings and on one back end.",
["crates/hex-simd/src/check.rs","crates/base64-simd/src/check.rs","crates/base32-simd/src/check.rs","crates/vsimd/src/alsw.rs","crates/vsimd/src/hex.rs"],
[("check_fallback/check_simd","crates/base64-simd/src/check.rs"),("check_xn","crates/vsimd/src/hex.rs")],
["check, check_raw, decoded_length against decode"],H)

p("L01","Length functions are exact or safe bounds and never overflow silently",
"encoded_length(n) equals the true encoded length for every n up to usize::MAX/2 and panics, rather than returning a wrong value, above that; hex decoded_length(n) is n/2 for even n and Err for odd n. estimated_decoded_length(n) never panics and is never smaller than the decoded length of any string of length n, for every n up to usize::MAX.",
["inputs"],"all usize values, including both ends, the assertion limit and every residue class; all variants; debug and release arithmetic",
"Tests call them on small lengths only; wrap-around at the ends of usize is never exercised, and release builds do not trap it.",
["crates/hex-simd/src/lib.rs","crates/base64-simd/src/lib.rs","crates/base64-simd/src/encode.rs","crates/base32-simd/src/lib.rs","crates/base32-simd/src/encode.rs"],
[("encoded_length_unchecked","crates/base64-simd/src/encode.rs"),("estimated_decoded_length","crates/base32-simd/src/lib.rs")],
["return value or panic of encoded_length, decoded_length, estimated_decoded_length"])

p("I01","In-place operations equal their out-of-place counterparts",
"For every input, the in-place forms (hex, base64, base32 and forgiving decoding, UTF-16/UTF-32 byte swapping, and hex raw decoding with identical source and destination) succeed exactly when the copying form does and leave the same result, returned as a prefix of the given buffer. Bytes outside the buffer are untouched.",
["inputs","configurations"],"all inputs and lengths, in particular where vector stores run ahead of later loads; all back ends",
"Whether a wide store overwrites input not yet read depends on length, block size and back end; tests try few lengths on one back end.",
["crates/hex-simd/src/decode.rs","crates/base64-simd/src/decode.rs","crates/base32-simd/src/decode.rs","crates/base64-simd/src/forgiving.rs","crates/vsimd/src/bswap.rs","crates/unicode-simd/src/lib.rs"],
[("loop bounds reserving room for wide stores","crates/base64-simd/src/decode.rs")],
["decode_inplace, forgiving_decode_inplace, utf16/utf32_swap_endianness_inplace, decode_raw(src==dst)"],H)

p("A01","Allocating and appending APIs agree with the slice APIs",
"Every allocating form (Vec, String, boxed slice, boxed str) yields exactly the slice API's output, for every input including the empty one. Every appending form keeps all existing contents of the target, adds exactly the output after them, and on Err leaves the target's length and contents as they were.",
["inputs","histories","configurations"],"all inputs, all prior contents and capacities of the target, sequences of appends mixing successes and failures",
"The append functions are tested on one or two strings; failure after a partial write into spare capacity is not tested.",
["crates/hex-simd/src/heap.rs","crates/base64-simd/src/heap.rs","crates/base32-simd/src/heap.rs","crates/base64-simd/src/forgiving.rs"],
[("reserve_exact / set_len after success","crates/base64-simd/src/heap.rs")],
["encode_to_string, encode_type, decode_to_vec, decode_type, encode_append, decode_append, forgiving_decode_to_vec"],H)

p("U01","UUID parsing accepts exactly the documented textual forms",
"UUID parsing accepts exactly: 32 hex digits; 36 characters with hyphens at positions 8, 13, 18 and 23 and hex digits elsewhere; that form wrapped in braces; and that form prefixed with \"urn:uuid:\"; digits in any case; it yields the 16 bytes denoted. The simple and hyphenated parsers accept only their own form; anything else is Err.",
["inputs","configurations"],"all byte strings of every length, each byte value at each position, all back ends",AVX,
["crates/uuid-simd/src/lib.rs","crates/uuid-simd/src/parse.rs","crates/uuid-simd/src/spec.rs"],
[("length dispatch and prefix checks","crates/uuid-simd/src/lib.rs"),("vector parsers","crates/uuid-simd/src/parse.rs")],
["parse, parse_simple, parse_hyphenated, UuidExt::parse*"],H)

p("U02","UUID formatting is exact and inverse to parsing",
"For every 16 bytes and either case, the simple form is the 32 hex digits in order and the hyphenated form is the same digits with hyphens after the 4th, 6th, 8th and 10th byte; parsing either gives the bytes back. The display adapters of uuid::Uuid print the same text (lower case for Display and LowerHex, upper case for UpperHex) and honour width, fill, alignment and precision as a plain string would.",
["inputs","configurations"],"all 16-byte values, both cases, all formatter flags, all back ends",
"Only a few UUIDs are formatted on one back end; formatter flags are never used.",
["crates/uuid-simd/src/format.rs","crates/uuid-simd/src/spec.rs","crates/uuid-simd/src/ext.rs"],
[("vector formatters","crates/uuid-simd/src/spec.rs"),("fmt adapters","crates/uuid-simd/src/ext.rs")],
["format_simple, format_hyphenated, UuidExt::format_*"],H)

p("N01","ASCII validation is exact",
"is_ascii returns true if and only if every byte is below 0x80, for every slice length and address. from_ascii returns Some of exactly the same bytes, at the same address, in that case and None otherwise.",
["inputs","configurations"],"all slices, one offending byte at any position, all lengths and alignments, all back ends",
"Length classes (0..8, 9..16, 17..63, 64..) use overlapping loads; tests touch few offsets and never the non-x86_64 vector path.",
["crates/unicode-simd/src/ascii.rs","crates/unicode-simd/src/lib.rs"],
[("overlapping-load length classes","crates/unicode-simd/src/ascii.rs")],
["is_ascii, from_ascii"],H)

p("N02","UTF-32 validation is exact",
"is_utf32le returns true if and only if every 32-bit element is a Unicode scalar value: at most 0x10FFFF and not in 0xD800..=0xDFFF. This holds for every slice length and for an offending value in any lane.",
["inputs","configurations"],"all u32 slices; values around both range limits, with every high-bit pattern, in every lane; all back ends",
"The source says 'TODO: test': there is no test of it at all.",
["crates/unicode-simd/src/utf32.rs","crates/unicode-simd/src/lib.rs"],
[("xor/sub/max range trick","crates/unicode-simd/src/utf32.rs")],
["is_utf32le"],H)

p("N03","Endianness swapping reverses the bytes of every element",
"UTF-16 and UTF-32 endianness swapping writes, for every element, that element with its bytes reversed, to the first src.len() elements of the destination and nowhere else, and returns exactly those. It panics if and only if the destination is shorter than the source, and swapping twice restores the input.",
["inputs","configurations"],"all slices and lengths, all back ends",
"The source says 'TODO: test'; nothing calls these functions in the test suite, so a back end without an implementation goes unnoticed.",
["crates/unicode-simd/src/lib.rs","crates/unicode-simd/src/utf16.rs","crates/unicode-simd/src/utf32.rs","crates/vsimd/src/bswap.rs","crates/vsimd/src/simd128.rs"],
[("bswap_simd/bswap_fallback","crates/vsimd/src/bswap.rs")],
["utf16_swap_endianness(_inplace), utf32_swap_endianness(_inplace)"],H)

p("M01","No access outside the source and destination buffers",
"No API ever reads a byte outside the source slice or writes a byte outside the destination, whatever the lengths, addresses and contents, on success and on error, including destinations of exactly the minimal length. A source that is not also the destination is never modified, and a call that succeeds writes nothing of a larger destination but the result it returns (forgiving decoding, which uses it for scratch, excepted).",
["inputs","configurations"],"all lengths and alignments, buffers ending or starting at an inaccessible page, valid and invalid contents, all back ends",
"Tests use heap buffers with slack around them, where a short over-read or over-write goes unnoticed; the sanitizer configuration of the suite runs only the default back end on the same few inputs.",
["crates/hex-simd/src","crates/base64-simd/src","crates/base32-simd/src","crates/unicode-simd/src","crates/uuid-simd/src","crates/vsimd/src"],
[("loop bounds of every *_simd and *_fallback function","crates/*/src/{encode,decode,check,parse,format,ascii,utf32}.rs")],
["every public function of the five user crates"],H)

p("M02","No undefined behaviour and no uninitialised output",
"No use of the safe APIs executes undefined behaviour (invalid references or pointers, misaligned or uninitialised reads, provenance or aliasing violations, unreachable hints reached), on success and on error. Every byte of a returned slice, vector, string or array is initialised, even when the destination was not.",
["inputs","configurations"],"all inputs and lengths, uninitialised and misaligned destinations, back ends the interpreters support",
"The suite's Miri job runs the baseline SSE2 back end only, on the existing test inputs, and does not check which output bytes were initialised on AVX2 at all.",
["crates/vsimd/src/tools.rs","crates/hex-simd/src","crates/base64-simd/src","crates/base32-simd/src","crates/unicode-simd/src","crates/uuid-simd/src"],
[("assume_init after full write","crates/vsimd/src/tools.rs"),("Out into slices","crates/*/src/lib.rs")],
["every public function, under Miri and MemorySanitizer"],H)

p("M03","Heap memory is never leaked, double-freed or freed with a wrong layout",
"Whatever the input, every allocation made by an allocating or appending call is either owned by the value it returns or released before it returns, on success and on Err alike, and is released exactly once with the layout it was allocated with. An allocation failure is reported through the standard allocation-error path and never turns into a null-pointer access.",
["inputs","fault_sequences","configurations"],"all inputs, both outcomes, failure of the k-th allocation for every k",
"Tests never count allocations, and never make one fail.",
["crates/vsimd/src/tools.rs","crates/hex-simd/src/heap.rs","crates/base64-simd/src/heap.rs","crates/base32-simd/src/heap.rs","crates/base64-simd/src/forgiving.rs"],
[("alloc_uninit_bytes, assume_init, boxed_str","crates/vsimd/src/tools.rs")],
["global allocator calls around every allocating API"],H)

p("D01","Every back end and build configuration gives the same results",
"For the same inputs every API returns the same result (Ok/Err and output bytes, panic or not) on every instruction-set back end (scalar, SSE2, SSSE3, SSE4.1, AVX2), with run-time detection on or off, with std or only alloc, optimised or not, stable or with the unstable feature.",
["configurations","inputs"],"the cross product of back ends and build configurations, over all APIs and inputs",
"Each test run uses one back end, chosen by the machine; nothing compares two of them, and SSSE3, SSE4.1 are never run.",
["crates/vsimd/src/macros.rs","crates/vsimd/src/isa.rs","crates/*/src/multiversion.rs"],
[("dispatch!","crates/vsimd/src/macros.rs"),("matches_isa!","crates/vsimd/src/isa.rs")],
["recorded result trace of every API, per configuration"],H)

p("D02","Dispatch never runs instructions the CPU lacks, and uses those it has",
"With run-time detection, no call executes an instruction from an extension the CPU or operating system does not report (SSSE3, SSE4.1, AVX, AVX2 and beyond), on the first call and on all later ones. On a CPU that reports AVX2 (or else the SSE level an operation has an implementation for), large inputs are processed with those vector instructions, without which results would still be right but unaccelerated.",
["configurations","inputs"],"all combinations of features that CPUs, operating systems and hypervisors report, including AVX2 without OS support, all APIs",
"Tests see only the CPU they run on, where every extension is present, so an over-eager selection cannot fail.",
["crates/vsimd/src/macros.rs","crates/vsimd/src/isa.rs","crates/*/src/multiversion.rs"],
[("resolve()/init_ifunc","crates/vsimd/src/macros.rs"),("is_enabled per instruction set","crates/vsimd/src/isa.rs")],
["executed instructions of the unmodified build under a faked CPUID, single-stepped"])

p("D03","APIs are safe to call concurrently, including racing first calls",
"Any number of threads may call any APIs at the same time, including the very first calls in the process, in any interleaving: every call returns what it would return alone, and there is no data race.",
["schedules","inputs"],"all interleavings of concurrent first and later calls of all APIs",
"Tests are single-threaded per function, and the one-time resolution of each function happens once per process.",
["crates/vsimd/src/macros.rs"],
[("IFUNC atomic pointer","crates/vsimd/src/macros.rs")],
["concurrent first calls in fresh processes, under ThreadSanitizer, Miri and plain stress"],H,
[{"name":"IFUNC","meaning":"resolved function pointer, one per dispatched operation","where":"crates/vsimd/src/macros.rs"}])

p("V01","Vector primitives compute their lane-wise definition on every ISA",
"Every 64-, 128- and 256-bit vector primitive and every width-generic one (load/store, splat, logic, wrapping and saturating arithmetic, multiplications, shifts, comparisons, min/max, averages, swizzles, byte swaps, zips, unzips, blends, bit masks, reductions, widening and packing) returns, on each instruction set that implements it, the value of its scalar lane-by-lane definition for all operand values.",
["inputs","configurations"],"all operands (including all 2^16 pairs of byte lanes), all implementing instruction sets",
"vsimd's own tests cover a dozen primitives with one operand each on the detected ISA.",
["crates/vsimd/src/simd64.rs","crates/vsimd/src/simd128.rs","crates/vsimd/src/simd256.rs","crates/vsimd/src/unified.rs","crates/vsimd/src/scalable.rs"],
[("per-ISA intrinsic selection","crates/vsimd/src/unified.rs")],
["SIMD64/SIMD128/SIMD256/Scalable methods on SSE2, SSSE3, SSE41, AVX2, NEON and WASM128 tokens"])

p("V02","Vector building blocks equal their scalar specification",
"The composite building blocks - hex check/encode/decode of one block, ALSW table generation, check and decode, ASCII case conversion, mask and high-bit tests, 16-entry table lookup, buffer byte swapping, and native-ISA dispatch of a closure - give the result of their scalar specification for every block content, including the influence of neighbouring bytes, on each instruction set that implements them.",
["inputs","configurations"],"all block contents, with all pairs of neighbouring bytes; all implementing instruction sets; scalar ALSW model versus vector form",
"Existing tests check the scalar ALSW tables and a few blocks; cross-lane effects and non-native ISAs are not tried.",
["crates/vsimd/src/hex.rs","crates/vsimd/src/alsw.rs","crates/vsimd/src/ascii.rs","crates/vsimd/src/mask.rs","crates/vsimd/src/table.rs","crates/vsimd/src/bswap.rs","crates/vsimd/src/native.rs","crates/vsimd/src/simulation.rs"],
[("impl_alsw!","crates/vsimd/src/alsw.rs"),("decode_ascii32x2","crates/vsimd/src/hex.rs")],
["public functions of vsimd::{hex,alsw,ascii,mask,table,bswap,native,simulation}"])

p("P01","No panic except where documented",
"No safe API panics, aborts, hangs or traps arithmetic overflow on any input, in debug or release arithmetic, on any back end. The only exceptions are the documented ones: encoded_length above usize::MAX/2 and endianness swapping into a shorter destination; invalid data is always reported as Err or None.",
["inputs","configurations"],"all inputs, lengths and destination lengths, debug assertions and overflow checks on and off, all back ends",
"A panic on one back end or at one length (for example an unimplemented vector operation) is invisible to tests that do not select it.",
["crates/vsimd/src/simd128.rs","crates/vsimd/src/simd256.rs","crates/vsimd/src/unified.rs","crates/*/src/lib.rs"],
[("ensure! error returns","crates/*/src/error.rs")],
["panic or termination of any call, with overflow checks enabled"],H)

p("Z01","Results do not depend on pointer width, byte order or platform",
"On 32-bit, big-endian, 64-bit ARM (NEON) and WebAssembly targets (scalar and simd128) every API gives the same results as on 64-bit x86, and causes no undefined behaviour there.",
["configurations","inputs"],"targets i586, i686, aarch64 (NEON), armv7 (scalar), s390x (big-endian) and wasm32 with and without simd128, over all APIs",
"The tests here run on x86_64 only; upstream's cross targets run the same few inputs.",
["crates/base64-simd/src/encode.rs","crates/base64-simd/src/decode.rs","crates/base32-simd/src","crates/vsimd/src"],
[("to_be / from_be word writes","crates/base64-simd/src/encode.rs"),("NEON and WASM128 branches","crates/vsimd/src")],
["the common API workload under Miri for foreign targets and in a WebAssembly engine"])
p("D04","Builds without detection use exactly the level chosen at compile time",
"In a build without run-time detection, every call uses the best implementation that the target features enabled at compile time allow (large inputs are processed with its vector instructions), executes no instruction beyond those features, and never asks the CPU with CPUID. A build with run-time detection whose target features already include AVX2 does not ask either.",
["configurations","inputs"],"target features from baseline SSE2 through SSE3, SSSE3, SSE4.1, SSE4.2, AVX to AVX2, with optimisation and without, stable and unstable feature, all APIs",
"The results are the same whichever implementation is chosen, and the machine that runs the tests has every extension, so a wrong choice cannot fail there.",
["crates/vsimd/src/macros.rs","crates/vsimd/src/isa.rs","crates/*/src/multiversion.rs"],
[("@iter_resolve_static and @resolve_static","crates/vsimd/src/macros.rs"),("fastest targets","crates/*/src/multiversion.rs"),("is_feature_detected!","crates/vsimd/src/isa.rs")],
["executed instructions of statically configured builds, single-stepped"])

p("S01","Calls do not influence one another",
"What a call returns depends on its arguments alone: whatever calls came before it in the process - millions of them, of the same or other operations, successful, failed or panicking, on the same memory with other contents, in threads that have ended, before a fork, or still in progress in an outer formatter - it returns what it would return as the only call.",
["histories","inputs"],"all histories of calls of all entry points in one process, on reused buffers",
"Each test makes a few independent calls; state that survives a call (a cache, a counter, a scratch buffer) shows only after particular histories.",
["crates/*/src/lib.rs","crates/vsimd/src/macros.rs","crates/uuid-simd/src/ext.rs"],
[("IFUNC, the only state","crates/vsimd/src/macros.rs"),("format_uuid passes its buffer to the caller's formatter","crates/uuid-simd/src/ext.rs")],
["every result of long recorded histories"],H)

p("T01","Work and memory are proportional to the input, whatever its contents",
"However hostile the contents, a call of an optimised build executes fewer than 100 instructions per byte of its source and of the existing contents of an append target, plus a constant; several times the input takes at most about as many times the work. The memory it has allocated at any moment, the result and a growing append target included, is at most twice the source, four times the existing contents (an old and a new target that both have spare room), twice the result, and a constant; its stack is bounded by a constant (64 KiB).",
["inputs","configurations"],"all inputs: valid, corrupted at either end, all padding, all whitespace, whitespace between all or some characters; all entry points and back ends",
"Tests measure nothing; work that grows with the square of the input gives right results, and is invisible at the lengths they use.",
["crates/base64-simd/src/forgiving.rs","crates/*/src/heap.rs","crates/*/src/decode.rs","crates/*/src/encode.rs"],
[("whitespace removal in one pass","crates/base64-simd/src/ascii.rs"),("exact reservation","crates/*/src/heap.rs")],
["executed instructions, CPU time, allocator requests and stack depth of each call"],H)

p("H01","Code of the caller that runs inside a call is treated fairly",
"Where a call runs code of its caller - a source's as_ref, an implementation of the conversion and appending traits, a writer or formatter, a closure - nothing that code does breaks the call's guarantees: if as_ref answers differently each time, the result is that of one answer it gave; if it panics, the panic arrives unchanged, nothing leaks, and the target of an append is as before; if it uses the library itself, both calls are right; the source is dropped exactly once and its memory not used later; an implementation of the caller is called once, with the source's bytes and the right variant, and its error is passed on; a writer that panics and a closure that panics or nests leave nothing behind.",
["inputs","histories"],"all entry points that take AsRef sources, FromX/AppendX types, fmt writers or closures; all behaviours of the caller's code",
"Tests pass arrays, vectors and strings, and convert to the library's own types; none answers twice, panics or re-enters.",
["crates/*/src/lib.rs","crates/*/src/heap.rs","crates/uuid-simd/src/ext.rs","crates/vsimd/src/native.rs"],
[("single as_ref of each source","crates/*/src/lib.rs"),("from_iter after decoding into a fresh box","crates/*/src/heap.rs"),("Native::exec","crates/vsimd/src/native.rs")],
["results, panics, drops and the account of the heap around calls that run code of the monitor"],H)

ids=[q["id"] for q in P]; assert len(set(ids))==len(ids)
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P)); print(len(P))
