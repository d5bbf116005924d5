#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
B='crates/base64-simd/src/'; T='crates/base32-simd/src/'; H='crates/hex-simd/src/'; U='crates/uuid-simd/src/'; N='crates/unicode-simd/src/'; V='crates/vsimd/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
DISP=[V+'macros.rs',B+'multiversion.rs',T+'multiversion.rs',H+'multiversion.rs',U+'multiversion.rs',N+'multiversion.rs']
p("C01","Safe calls only touch memory inside the buffers they were given",
 "Every safe encode, decode, check, parse, format, ASCII, UTF-32 and byte-swap call reads only bytes inside the source slice and writes only bytes inside the destination it was given (or inside the allocation it made). This holds for every input length (including empty and block-boundary lengths), every input content, and every instruction set the library can select at run time or at compile time.",
 ["inputs","configurations"],"all input lengths and contents x all destination lengths x all selectable instruction sets (x86 none/SSE2/SSSE3/SSE4.1/AVX2, AArch64 NEON, wasm SIMD128)",
 "An over-read or over-write of a few bytes is invisible without a sanitizer; the test machine always selects AVX2 (or scalar), so the other kernels are never run, and only a few lengths are sampled.",
 [B+'encode.rs',B+'decode.rs',B+'check.rs',T+'encode.rs',T+'decode.rs',H+'encode.rs',H+'decode.rs',U+'parse.rs',U+'format.rs',N+'ascii.rs',V+'bswap.rs'],
 [("block thresholds before vector loads/stores","encode_simd / decode_simd / check_simd"),("length prechecks","lib.rs of each crate")])
p("C02","No instruction is executed that the selected CPU features do not cover",
 "On any CPU, a call never executes code that was compiled for, or intrinsics that require, a CPU feature which the CPU (or the compile-time target) does not provide. In particular the run-time selection only ever picks an implementation whose required features were all detected.",
 ["configurations"],"all CPUs (every subset of detected features) x all feature/target configurations x all entry points",
 "Tests run on one CPU, which has every feature; a selection that is wrong for an older CPU cannot be seen there.",
 DISP+[V+'isa.rs',V+'native.rs'],[("dispatch! target tables and detection","vsimd/src/macros.rs"),("SIMD_ISA detect","vsimd/src/isa.rs")])
p("C03","Safe calls never panic or abort outside their documented panics",
 "No safe public function panics, aborts, overflows arithmetic or hits an unreachable branch, for any input, destination and CPU, except where its documentation says it panics (length arguments above usize::MAX/2, and a byte-swap destination shorter than the source) or an allocation fails or is asked to exceed isize::MAX bytes.",
 ["inputs","configurations"],"all inputs x all destination lengths x all selectable instruction sets, debug assertions on",
 "Panicking fallbacks in per-instruction-set code are only reached on CPUs the tests never run on, or at particular lengths.",
 [V+'simd128.rs',V+'simd256.rs',V+'unified.rs',B+'lib.rs',T+'lib.rs',H+'lib.rs',U+'lib.rs',N+'lib.rs'],[("matches_isa! guarded branches ending in unreachable!","vsimd/src/simd128.rs, simd256.rs"),("ensure! length checks","lib.rs")])
p("C04","Every byte handed back to the caller has been written",
 "Whenever a call succeeds, every byte of the returned slice, string, vector, box, array or UUID was written by that call (or was already initialised by the caller); no uninitialised memory is ever exposed. This holds for caller-provided uninitialised destinations and for library-allocated buffers.",
 ["inputs","configurations"],"all input lengths and contents x all selectable instruction sets",
 "Uninitialised bytes usually read as something harmless, and only some lengths leave a gap; the miri run covers scalar code for a few lengths only.",
 [B+'heap.rs',T+'heap.rs',H+'heap.rs',B+'encode.rs',B+'decode.rs',U+'ext.rs',V+'tools.rs'],[("alloc_uninit_bytes / assume_init / set_len","heap.rs of each crate, vsimd/src/tools.rs")])
p("C05","Failed appends leave the target untouched; successful ones only extend it",
 "Appending a decoding to a vector leaves the vector's length and contents exactly as before when it returns an error. Every successful append keeps the existing contents and adds exactly the encoded or decoded bytes, and the allocating functions return exactly as many bytes as the slice functions do.",
 ["inputs","histories"],"all existing contents, lengths and capacities x all inputs, valid or invalid at any position",
 "Tests append only to a few vectors and hardly ever with inputs that fail after part of them has been decoded.",
 [B+'heap.rs',T+'heap.rs',H+'heap.rs'],[("set_len only after the decoder returned Ok","decode_append_vec in heap.rs")])
p("C06","Borrows, lifetimes and capability tokens cannot be misused from safe code",
 "A slice, string, array or display adapter returned by the library borrows from the destination (or value) it was produced from, and safe code cannot outlive, alias or forge it: programs that keep the result beyond its buffer, use the buffer while the result is live, mutate through a shared input, or create an instruction-set token without unsafe are rejected by the compiler. Raw decoded bytes can never be obtained as a string through the safe API.",
 ["programs"],"all safe client programs",
 "Tests are programs that compile; that a misuse does not compile cannot be shown by running one.",
 [B+'lib.rs',T+'lib.rs',H+'lib.rs',U+'lib.rs',U+'ext.rs',N+'lib.rs',V+'isa.rs'],[("explicit 'd lifetimes on Out<'d,..>","lib.rs"),("private token fields, unsafe constructors","vsimd/src/isa.rs")])
p("C07","Everything returned as text is ASCII",
 "Every byte of every string the library returns or formats (encode-to-str, encode-to-String, boxed strings, appended strings, formatted UUIDs, ASCII conversion) is below 0x80, so it is valid UTF-8, for every input and instruction set.",
 ["inputs","configurations"],"all inputs x all selectable instruction sets",
 "The conversion is unchecked: one wrong table entry or lane in a kernel that tests do not run yields an invalid str.",
 [B+'encode.rs',T+'encode.rs',H+'encode.rs',U+'format.rs',N+'ascii.rs',N+'lib.rs',U+'ext.rs'],[("from_utf8_unchecked on encoder output","encode_as_str, heap.rs, ext.rs, from_ascii")])
p("C08","Base64 encoding equals RFC 4648 for every input",
 "For each of the four base64 variants, encoding a byte string of any length returns exactly the RFC 4648 text (standard or URL-safe alphabet, with '=' padding exactly for the padded variants), and its length is the advertised encoded length.",
 ["inputs","configurations"],"all byte strings x 4 variants x all selectable instruction sets",
 "Tests compare random samples on the one instruction set of the machine; a lane, alphabet or tail error for particular bytes or lengths, or in an unexecuted kernel, is not seen.",
 [B+'encode.rs',B+'lib.rs',V+'alsw.rs'],[("bit splitting and alphabet lookup","base64-simd/src/encode.rs")])
p("C09","Base64 decode and check accept exactly canonical text",
 "For each of the four base64 variants, decoding succeeds exactly on the canonical RFC 4648 encodings of that variant (right alphabet, correct padding or none, zero trailing bits) and then returns the encoded bytes; checking a text succeeds exactly when decoding it would; the decoded-length query returns the decoded length whenever decoding would succeed.",
 ["inputs","configurations"],"all byte strings as input x 4 variants x {check, decode, in-place decode} x all selectable instruction sets",
 "Invalid inputs are a vast space: a wrongly accepted byte in one lane of one block, or a non-canonical tail at one length, is missed by sampled tests, which run one instruction set.",
 [B+'decode.rs',B+'check.rs',B+'alsw.rs',B+'lib.rs'],[("alphabet classification","base64-simd/src/alsw.rs, decode tables"),("padding and trailing-bit checks","decoded_length, decode_extra")])
p("C10","Forgiving base64 decoding follows the WHATWG algorithm",
 "Forgiving decoding removes ASCII whitespace (tab, LF, FF, CR, space) anywhere, then accepts the text exactly when the WHATWG forgiving-base64 algorithm does (optional correct padding only, trailing bits ignored, length never 1 modulo 4) and returns the bytes that algorithm produces. The copying, in-place and allocating forms agree.",
 ["inputs","configurations"],"all byte strings, whitespace anywhere x 3 forms x all selectable instruction sets",
 "Only five example strings are tested; whitespace positions relative to vector blocks and malformed padding are unexplored.",
 [B+'forgiving.rs',B+'ascii.rs',B+'decode.rs'],[("whitespace removal","base64-simd/src/ascii.rs"),("Extra::Forgiving length and tail rules","base64-simd/src/decode.rs")])
p("C11","Base32 encoding equals RFC 4648 for every input",
 "For each of the four base32 variants (base32 and base32hex, padded or not), encoding a byte string of any length returns exactly the RFC 4648 text, and its length is the advertised encoded length.",
 ["inputs","configurations"],"all byte strings x 4 variants x all selectable instruction sets",
 "Tests compare random samples on one instruction set; particular tails, lanes or kernels are not exercised.",
 [T+'encode.rs',T+'lib.rs',T+'alsw.rs'],[("5-bit splitting and alphabet lookup","base32-simd/src/encode.rs")])
p("C12","Base32 decode and check accept exactly canonical text",
 "For each of the four base32 variants, decoding succeeds exactly on the canonical upper-case RFC 4648 encodings of that variant and then returns the encoded bytes; checking a text succeeds exactly when decoding it would; the decoded-length query returns the decoded length whenever decoding would succeed.",
 ["inputs","configurations"],"all byte strings as input x 4 variants x {check, decode, in-place decode} x all selectable instruction sets",
 "The invalid-input space and the lengths 1,3,6 modulo 8 with each padding form are only sampled, on one instruction set.",
 [T+'decode.rs',T+'check.rs',T+'alsw.rs',T+'lib.rs'],[("classification tables","base32-simd/src/alsw.rs, decode.rs"),("padding count and trailing-bit masks","decoded_length, decode_extra")])
p("C13","Hex encoding is exact for every byte and both cases",
 "Hex encoding returns, for every input byte in order, its two hexadecimal digits, high nibble first, in the requested letter case, and nothing else.",
 ["inputs","configurations"],"all byte strings x 2 cases x all selectable instruction sets",
 "Random samples on one instruction set; the SSE2 and SSSE3 kernels are not run.",
 [H+'encode.rs',V+'hex.rs'],[("nibble split and table lookup","hex-simd/src/encode.rs, vsimd/src/hex.rs")])
p("C14","Hex decode and check accept exactly hexadecimal digits",
 "Hex checking succeeds exactly when every byte is one of 0-9, a-f, A-F. Hex decoding succeeds exactly when in addition the length is even, and returns the bytes those digits denote, whatever mixture of cases is used.",
 ["inputs","configurations"],"all byte strings x {check, decode, in-place decode, pointer forms} x all selectable instruction sets",
 "A byte value misclassified in one kernel or one lane needs the right byte at the right position on the right instruction set.",
 [H+'decode.rs',H+'check.rs',V+'hex.rs'],[("unhex classification","vsimd/src/hex.rs")])
p("C15","UUID parsing accepts exactly the documented formats",
 "Parsing succeeds exactly on 32 hex digits, on the 8-4-4-4-12 hyphenated form, and (for the general parser) on the hyphenated form in braces or after 'urn:uuid:'; hex digits are case-insensitive. It returns the 16 bytes denoted, and any other text or length is an error.",
 ["inputs","configurations"],"all byte strings x {parse, parse_simple, parse_hyphenated, Uuid extension} x all selectable instruction sets",
 "Hyphen positions and stray bytes in lanes that are shuffled away are only sampled; only one kernel runs.",
 [U+'lib.rs',U+'parse.rs',U+'spec.rs',U+'ext.rs'],[("format selection","uuid-simd/src/lib.rs parse"),("hyphen and digit checks","uuid-simd/src/parse.rs")])
p("C16","UUID formatting is exact",
 "Formatting returns the 32-digit or the 8-4-4-4-12 hyphenated text of the UUID in the requested case for every UUID; the Display, LowerHex and UpperHex adapters print that same text (Display in lower case).",
 ["inputs","configurations"],"all 2^128 UUIDs x 2 forms x 2 cases x adapters x formatter options x all selectable instruction sets",
 "A handful of UUIDs are printed, with the AVX2 kernel.",
 [U+'lib.rs',U+'format.rs',U+'spec.rs',U+'ext.rs'],[("digit shuffles and hyphen insertion","uuid-simd/src/format.rs, spec.rs")])
p("C17","ASCII check and conversion are exact",
 "The ASCII check returns true exactly when every byte is below 0x80, for any length and alignment, and the ASCII conversion returns the same bytes as a string exactly in that case.",
 ["inputs","configurations"],"all byte strings x all selectable instruction sets",
 "A single high byte at an unlucky position and length, in a kernel the test machine does not select, is not sampled.",
 [N+'ascii.rs',N+'lib.rs'],[("block OR / movemask, overlapping tail loads","unicode-simd/src/ascii.rs")])
p("C18","UTF-32 check is exact",
 "The UTF-32 check returns true exactly when every element is a Unicode scalar value (0..=0x10FFFF except 0xD800..=0xDFFF).",
 ["inputs","configurations"],"all u32 slices x all selectable instruction sets",
 "The function has no tests at all.",
 [N+'utf32.rs',N+'lib.rs'],[("xor/sub/max accumulation","unicode-simd/src/utf32.rs")])
p("C19","Endianness swaps reverse the bytes of every element",
 "The UTF-16 and UTF-32 byte-order swaps, in place and copying, reverse the bytes within each element of every slice of every length and change nothing else.",
 ["inputs","configurations"],"all u16/u32 slices x {in place, copying} x all selectable instruction sets",
 "The functions have no tests at all, and their 128-bit paths only run on CPUs without AVX2.",
 [V+'bswap.rs',N+'utf16.rs',N+'utf32.rs',V+'simd128.rs',V+'simd256.rs'],[("byte shuffles","vsimd/src/bswap.rs")])
p("C20","Results do not depend on the selected instruction set",
 "For the same arguments, every implementation the library can select - scalar, SSE2, SSSE3, SSE4.1, AVX2, NEON, SIMD128, chosen at run time or at compile time - returns the same success or failure and the same bytes.",
 ["inputs","configurations"],"all inputs x all pairs of selectable implementations",
 "Tests execute one or two of the implementations of each function; the others are never run, some never compiled.",
 DISP+[V+'simd128.rs',V+'simd256.rs',V+'unified.rs'],[("generic kernels instantiated per instruction set","*_simd functions"),("matches_isa! specialisations","vsimd, hex-simd, uuid-simd, unicode-simd")])
p("C21","In-place operations give the same result as copying ones",
 "Decoding, whitespace-forgiving decoding and byte swapping in place return exactly what the copying form returns for the same input: no byte of input is overwritten before it has been read.",
 ["inputs","configurations"],"all inputs and lengths x {base64, base32, hex, forgiving, UTF-16/32 swap} x all selectable instruction sets",
 "Clobbering depends on how far vector stores run past the produced bytes relative to the next load, per kernel and length; tests cover one kernel.",
 [B+'decode.rs',T+'decode.rs',H+'decode.rs',V+'bswap.rs',B+'forgiving.rs'],[("load-before-store order, 4:3 / 8:5 / 2:1 consumption ratio","decode_simd in each crate")])
p("C22","Length functions are exact and never overflow",
 "The encoded-length functions return exactly the number of bytes encoding produces, the decoded-length functions exactly the number decoding produces, and the estimated decoded length is never smaller than that; none of them wraps around or panics for any length, except that encoded_length panics, as documented, above usize::MAX / 2.",
 ["inputs"],"all lengths (up to usize::MAX where the argument is a number, up to isize::MAX where it is a slice), all contents (for content-dependent lengths) and all variants",
 "Tests evaluate a few hundred small lengths; overflow and rounding at large lengths is unreachable by running.",
 [B+'encode.rs',B+'decode.rs',B+'lib.rs',T+'encode.rs',T+'decode.rs',T+'lib.rs',H+'lib.rs'],[("encoded_length_unchecked, decoded_length, estimated_decoded_length","encode.rs, decode.rs, lib.rs")])
p("C23","Destinations: too short is an error, result is a prefix, the rest is untouched",
 "For the slice-based encode and decode functions: if the destination is shorter than the result, the call returns an error without writing anything to it; otherwise the result is the first bytes of the destination and, when the call succeeds, bytes beyond the result's length keep their previous contents (a decoding that fails on invalid input may leave anything within the decoded length). The destination length has no other influence on the outcome. (Forgiving decoding documents that it needs a destination as long as the source, and uses it as scratch space; it is not covered here.)",
 ["inputs","configurations"],"all source lengths x all destination lengths x all selectable instruction sets",
 "Tests use exactly sized or generously sized destinations; off-by-one limits and stores that spill past the result are not visible.",
 [B+'lib.rs',T+'lib.rs',H+'lib.rs',B+'forgiving.rs',B+'parallel.rs',N+'lib.rs'],[("ensure!(dst.len() >= m) before the kernel","lib.rs encode / decode")])
p("C24","Parallel encoding equals sequential encoding",
 "Parallel base64 encoding returns the same result as sequential encoding for every input length, destination length, variant and thread count: chunk boundaries never split a 3-byte group, chunks cover the source and destination exactly once, and only the last chunk is padded.",
 ["inputs","schedules"],"all source and destination lengths x all thread-pool sizes x all schedules",
 "One ignored test uses one machine's thread count; chunk arithmetic depends on it.",
 [B+'parallel.rs'],[("chunk size (b+p)/p*3 -> *4, zip of par_chunks","base64-simd/src/parallel.rs")])
p("C25","SIMD lane primitives mean the same on every instruction set",
 "Each vector primitive of the SIMD layer (lane-wise add, subtract, compare, min/max, shift, shuffle, blend, byte swap, widening, masks, loads and stores) computes its documented lane-wise function on every instruction set for which it can be used.",
 ["inputs","configurations"],"all lane values x all primitives x SSE2/SSSE3/SSE4.1/AVX2/NEON/SIMD128",
 "Unit tests of the layer cover a few primitives on the machine's instruction set; signedness, lane order and saturation differences on other instruction sets never run.",
 [V+'simd64.rs',V+'simd128.rs',V+'simd256.rs',V+'scalable.rs',V+'mask.rs',V+'unified.rs'],[("per-ISA branches of SIMD64/SIMD128/SIMD256","vsimd/src/simd128.rs, simd256.rs, unified.rs")])
p("C26","Calls are thread-safe and depend only on their arguments",
 "Concurrent first calls from any number of threads are safe and give the same results as a single-threaded call; the only state the library keeps between calls is the cached choice of implementation, which always holds a valid implementation for the running CPU. Source slices are never modified.",
 ["schedules","histories"],"all interleavings of calls from any threads, all call histories",
 "Races on lazily initialised dispatch are not provoked by tests, and history dependence is not observable in single calls.",
 [V+'macros.rs',V+'native.rs',V+'isa.rs'],[("atomic function-pointer cache","dispatch! in vsimd/src/macros.rs")],None,[("IFUNC","cached implementation pointer","vsimd/src/macros.rs")])
p("C27","Every documented feature combination builds and stays no_std/no-alloc",
 "Each crate compiles with every supported combination of its std, alloc and detect features; without std it links against core (and alloc if enabled) only, and without alloc it performs no heap allocation.",
 ["configurations"],"all feature combinations of the six crates, on x86-64, AArch64 and wasm32",
 "The tests build a few combinations, always on a host that has std, so an accidental std or alloc dependency still links.",
 ['crates/*/Cargo.toml','crates/*/src/lib.rs',V+'tools.rs'],[("cfg(feature) gates and no_std attribute","crates/*/src/lib.rs")])
p("C28","Decoding an encoding gives back the original bytes",
 "For every byte string and every base64, base32, hex and UUID variant, decoding the library's own encoding of it succeeds and returns the original bytes, and encoding the decoding of an accepted base64 or base32 text gives back that text.",
 ["inputs","configurations"],"all byte strings x all variants x all selectable encoder and decoder implementations",
 "Round trips are tested on random samples and one implementation pair per machine.",
 [B+'encode.rs',B+'decode.rs',T+'encode.rs',T+'decode.rs',H+'encode.rs',H+'decode.rs',U+'parse.rs',U+'format.rs'],[("encoder and decoder tables agree","encode.rs / decode.rs")])
p("C29","SIMD implementations are faster than scalar ones",
 "On CPUs with vector support the vectorised functions process long inputs several times faster than scalar code does.",
 ["configurations"],"all CPUs, long inputs",
 "Timing depends on the machine and is not asserted by any test.",
 ['README.md']+DISP,[("vector kernels selected by dispatch","multiversion.rs")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
