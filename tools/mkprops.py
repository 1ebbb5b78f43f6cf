import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
ARCH=["lib/arch/generic/*","lib/arch/ssse3/*","lib/arch/sse41/codec.c","lib/arch/sse42/codec.c","lib/arch/avx/*","lib/arch/avx2/*","lib/arch/avx512/*","lib/arch/neon32/*","lib/arch/neon64/*"]
T=["lib/tables/tables.c","lib/tables/table_dec_32bit.h","lib/tables/table_enc_12bit.h"]
ST=[dict(name="base64_state {eof, bytes, carry, flags}",meaning="position in the current quantum, left-over bits, end-of-stream marker",where="include/libbase64.h")]
p("C01","Encoding yields exactly the RFC 4648 Base64 text of the input",
"For every byte string, the text produced by encoding it is exactly its padded RFC 4648 section 4 Base64 text, with the reported length equal to the number of characters produced. This holds for the one-shot call and for the streaming calls under every division of the input into chunks, with every codec that the build contains, on 32- and 64-bit and little- and big-endian targets.",
["inputs","histories","configurations"],"all byte strings of any length; all divisions into chunks; all codecs, all build configurations the project supports",
"The tests encode one 10000-byte pseudo-random buffer, a handful of literals and fixed chunk sizes; SIMD loops are reached with a few lengths only, the AVX512 codec is not run at all, and no test reaches most loop-unrolling paths at most alignments of content.",
ARCH+T+["lib/lib.c"],[("streaming encoder with Duff's device tail","lib/arch/generic/enc_head.c, enc_tail.c"),("bulk encoding loops per codec","lib/arch/*/enc_loop*.c"),("final padding","lib/lib.c base64_stream_encode_final"),("one-shot wrapper","lib/lib.c base64_encode")],ST,["base64_encode","base64_stream_encode","base64_stream_encode_final"])
p("C02","Decoding inverts encoding for every byte string",
"For every byte string, decoding its Base64 text succeeds (returns 1) and yields exactly that byte string with exactly its length. This holds one-shot and streamed under every division of the text into chunks, with every codec in the build, and whichever codec or chunking produced the text.",
["inputs","histories","configurations"],"all byte strings; all divisions of the text into chunks; all pairs of encoder and decoder codecs in every build configuration",
"Round trips are tested on one buffer of decreasing length and a few literals; content-dependent table entries and lane positions of the SIMD decoders are sampled, not covered.",
ARCH+T+["lib/lib.c"],[("streaming decoder","lib/arch/generic/dec_head.c, dec_tail.c"),("bulk decoding loops per codec","lib/arch/*/dec_loop.c"),("one-shot wrapper","lib/lib.c base64_decode")],ST,["base64_decode","base64_stream_decode"])
p("C03","Malformed Base64 text is never accepted by the one-shot decoder",
"For every text that is not well-formed padded Base64 (a byte outside the alphabet anywhere, wrong or misplaced padding, data after padding, a length that is not a multiple of four), the one-shot decoder returns 0. Every well-formed text (with or without zero trailing bits in the last symbol) is accepted with return value 1. This holds at every position and length and for every codec in the build.",
["inputs","configurations"],"all byte strings given as text; every codec; every build configuration",
"The tests try each invalid byte value at a few positions of short strings; an invalid byte in a particular SIMD lane of a particular unrolled round, or at a particular distance from the end, is not tried.",
ARCH+T+["lib/lib.c"],[("validity lookup","lib/tables/tables.c base64_table_dec_8bit, lib/arch/*/dec_loop.c"),("padding state machine","lib/arch/generic/dec_tail.c"),("rejection of incomplete input","lib/lib.c base64_decode")],ST,["base64_decode"])
p("C04","Streaming decode depends on the text, not on how it is cut into chunks",
"For every text and every division of it into non-empty chunks, the concatenated output of the streaming decoder is the output of decoding the whole text with a single streaming call, and the last call's return value and the final state agree with that single call whenever no earlier call has failed. After a call has reported an error (returned 0), and after the padding has been completed, every later call produces no output and returns 0.",
["inputs","histories","configurations"],"all texts (valid or not), all divisions into non-empty chunks, all later calls; every codec and build configuration",
"The tests stream with fixed chunk sizes over valid text only; errors, padding split over calls, and calls after an error are not exercised systematically.",
ARCH+["lib/lib.c"],[("carry/bytes/eof state across calls","lib/arch/generic/dec_head.c, dec_tail.c")],ST,["base64_stream_decode"])
p("C05","Encoding stays inside its buffers",
"An encode call reads only within the given source bytes and writes only to the output positions it reports in the output length: never beyond them, not even temporarily, and never to the source. For a whole input of n bytes this is 4*ceil(n/3) bytes; for a streaming call it is exactly the count it reports, and the final call writes at most 3 bytes (4*ceil(n/3) for the whole stream). No call needs any alignment of the buffers.",
["inputs","histories","configurations"],"all lengths, contents, alignments and stream states; every codec and build configuration",
"The tests run without guard pages and with generous buffers; over-reads and transient over-writes of the SIMD loops at particular lengths are invisible.",
ARCH+["lib/lib.c"],[("round counts that reserve tail bytes","lib/arch/*/enc_loop*.c")],ST,["memory outside src[0..srclen) and out[0..outlen)"])
p("C06","Decoding stays inside its buffers, whatever the text",
"A decode call reads only within the given source bytes and, for n input bytes, writes (even temporarily) only within the first ceil(3n/4) output bytes; starting from a fresh state or one-shot, only within the first floor(3n/4). This holds for valid and for malformed text alike, the reported length never exceeds this bound, and no call needs any alignment of the buffers.",
["inputs","histories","configurations"],"all lengths, contents (valid or malformed), alignments and stream states; every codec and build configuration",
"The tests run without guard pages and with generous buffers; the SIMD decoders store more bytes than they produce, and only the exact round counts keep this inside the buffer.",
ARCH+["lib/lib.c"],[("round counts that reserve tail bytes","lib/arch/*/dec_loop.c")],ST,["memory outside src[0..srclen) and out[0..ceil(3n/4))"])
p("C07","All codecs are interchangeable, even in the middle of a stream",
"For every stream state reachable through the API and every input, all codecs in the build produce the same output bytes, output length, return value and (as far as later calls can tell) successor state. Hence switching codecs between two calls of one stream does not change its result.",
["inputs","histories","configurations"],"all reachable stream states, all inputs (valid or malformed), all pairs of codecs of a build; all sequences of codec switches",
"Each codec is tested alone against the same few vectors, the AVX512 codec not at all; agreement on malformed input and on the state left behind is not compared.",
ARCH+["lib/lib.c"],[("shared head/tail code around different bulk loops","lib/arch/generic/*.c, lib/arch/*/codec.c")],ST,["base64_stream_encode","base64_stream_decode"])
p("C08","A codec is only chosen if it was forced or the machine supports it",
"A call that forces one codec makes the following encode and decode calls use exactly that codec's encoder and decoder. Without a forced codec, and none having been forced before, the first use chooses the best instruction set that the build contains, the CPU reports and (for AVX, AVX2 and AVX512) the operating system has enabled, in the order AVX512, AVX2, AVX, SSE4.2, SSE4.1, SSSE3; otherwise the plain codec (on ARM, the NEON codec when the build targets NEON). Feature queries are made only where the CPU supports the query itself.",
["inputs","configurations"],"all CPU feature reports and OS-enabled masks, all flags values with at most one force flag, all build configurations",
"The tests see one CPU; machines lacking a feature, or an OS that has not enabled AVX state, are never seen.",
["lib/codec_choose.c","lib/lib.c","lib/codecs.h","include/libbase64.h"],[("feature detection and forced choice","lib/codec_choose.c"),("choice on init","lib/lib.c base64_stream_encode_init, base64_stream_decode_init")],[dict(name="codec",meaning="process-wide chosen encoder and decoder",where="lib/lib.c")],["codec_choose, base64_stream_encode_init, base64_stream_decode_init"])
p("C09","A codec absent from the build fails cleanly",
"When a codec that the build does not contain is forced, decoding (one-shot or streaming) returns -1 with an output length of zero and encoding (streaming) reports zero output bytes. In both cases neither the source, the output buffer nor the stream state is touched, for every input and state.",
["inputs","configurations"],"all inputs and states, all codecs absent from a build, all build configurations",
"The tests only probe whether a codec is available by decoding one short literal.",
["lib/codecs.h","lib/arch/*/codec.c","lib/lib.c"],[("stubs","lib/codecs.h base64_enc_stub, base64_dec_stub")],[],["base64_decode","base64_stream_decode","base64_stream_encode"])
p("C10","OpenMP results equal the single-threaded results",
"In a build with OpenMP, one-shot encoding and decoding give the same output bytes, output length and return value as the single-threaded build, for every input (valid or malformed text), every number of threads the runtime provides and every thread schedule. No two threads access the same output byte or a shared variable without synchronisation, and all buffer bounds of the single-threaded calls still hold.",
["inputs","schedules","configurations"],"all inputs of any length, all team sizes, all interleavings",
"The tests use inputs below the threshold at which the OpenMP path starts; only the benchmark reaches it, with valid data and one team size.",
["lib/lib_openmp.c","lib/lib.c"],[("static partition into multiples of 3 or 4 bytes","lib/lib_openmp.c"),("threshold","lib/lib.c OMP_THRESHOLD")],[],["base64_encode","base64_decode"])
p("C11","The command-line tool encodes any input stream exactly, with exact wrapping",
"However the input is delivered (any sequence of short reads, any total length), `base64 [-w COLS]` writes exactly the Base64 text of all input bytes, with a newline after every COLS characters and one at the end of a partial line (the default is 76 columns; with COLS 0 there are no newlines at all), and exits 0. Empty input gives empty output. A COLS value that is not a non-negative decimal number is refused with a non-zero exit status and no output.",
["inputs","histories"],"all inputs, all COLS values, all ways in which reads deliver the input",
"The command-line tool has no tests apart from a smoke run; wrapping across buffer boundaries depends on residues of buffer sizes and COLS.",
["bin/base64.c"],[("column tracking across writes","bin/base64.c write_wrapped"),("output vector batching","bin/base64.c iov_append"),("encode loop","bin/base64.c encode")],[],["stdout and exit status of the base64 program"])
p("C12","The command-line tool decodes exactly and ignores only what it is told to",
"However the input is delivered, `base64 -d` drops newlines and decodes everything else, writing exactly the decoded bytes and exiting 0 if the remaining text is valid complete Base64, and exiting non-zero if it contains a byte outside the alphabet or misplaced padding. With `-i` all bytes outside the alphabet (but not the padding) are dropped first, so garbage at any position never changes the result; round trip: decoding the tool's own encoding, at any wrapping, restores the input.",
["inputs","histories"],"all inputs and garbage positions, all ways in which reads deliver the input, all option combinations",
"The command-line tool has no tests apart from a smoke run.",
["bin/base64.c"],[("newline and garbage skipping","bin/base64.c find_newline, find_garbage, decode")],[],["stdout and exit status of the base64 program"])
p("C13","Tool output survives partial writes, and I/O failures are reported",
"If the operating system accepts only part of a write, interrupts it, or splits it arbitrarily, the bytes that arrive are still exactly the intended output, each once and in order, and the exit status is 0. If a write or a read fails, the tool exits non-zero and what was written is a prefix of the intended output.",
["fault_sequences","inputs"],"all sequences of short writes, interrupted writes, write errors and read errors",
"No test injects faults.",
["bin/base64.c"],[("retry loop over the output vector","bin/base64.c writev_retry")],[],["bytes accepted by the output descriptor; exit status"])
p("C14","Every lookup table is exactly the function it stands for",
"Every entry of every committed encoding and decoding table is the value that the Base64 alphabet determines, in both endian variants, and the table generator programs reproduce the committed table files exactly, token for token (comments and white space aside).",
["inputs","configurations"],"all entries of all tables, both byte orders, complete generator output",
"Tables for big-endian and for 32- and 64-bit targets are used by different builds; the generators are compiled but never run, and rarely indexed entries are not hit.",
["lib/tables/*"],[("committed tables","lib/tables/tables.c, table_dec_32bit.h, table_enc_12bit.h"),("generators","lib/tables/table_generator.c, table_enc_12bit.py")],[],["table contents; generator output"])
p("C15","Concurrent streams do not interfere",
"A streaming encode, encode-final or decode call writes nothing but its own state object, output buffer and output length, and its result depends only on its own state, its own input and the codec in use: no hidden static or global data is written. Hence calls on different streams from different threads, once a codec has been chosen, never influence each other.",
["schedules","histories","configurations"],"all interleavings of calls on distinct streams; every codec and build configuration",
"The tests are single-threaded.",
ARCH+["lib/lib.c"],[("all state in struct base64_state","include/libbase64.h")],ST,["memory other than *state, out, *outlen"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
