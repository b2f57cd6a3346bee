"""Writes properties.jsonl and MANIFEST.json (one place to keep them in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMQ = "Every input byte sequence: the free bytes are symbolic (bit vectors), sizes / run lengths / alignments / instruction set levels enumerated up to the stated bounds."
TESTS = "The existing tests run the command line self test on a few dozen generated files with the instruction sets of this machine; an encoder has hundreds of size, run length, range length and symbol history thresholds, most of which no file crosses exactly."


def M(name, where):
    return dict(name=name, where=where)


P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="model_checking"):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=mech)), technique, note, level))


RT = " The result does not depend on what lies behind the input or the stream in memory."
TECH = "symbolic execution of the compiled library (LLVM IR) with Z3, counterexamples replayed natively"
NOTE = "Bounded: every value of the free bytes within the enumerated shapes; path enumeration is proved exhaustive by the solver per job unless listed as truncated."

prop("P01", "8 bit RLE codecs: lossless round trip",
     "For every non-empty input, compressing with an 8 bit run length codec (multi and single symbol, packed, short, 1/3/7 symbol table variants) with at least the advertised capacity succeeds, and decompressing the stream returns exactly the input size and the input bytes." + RT,
     ["inputs", "configurations"], SYMQ + " Encoder levels SSE2/AVX2, all six decoder levels.", TESTS,
     ["src/rle8_extreme_cpu.c", "src/rle8_extreme_cpu.h", "src/rleX_Xsl.c", "src/rleX_Xsl.h", "src/rleX_Xsl_short.c", "src/rleX_Xsl_short.h"],
     [M("encoder: run detection, range/count fields, terminator", "src/rle8_extreme_cpu.h, src/rleX_Xsl.h, src/rleX_Xsl_short.h"), M("decoder dispatch by instruction set", "src/rle8_extreme_cpu.c")], TECH, NOTE)
prop("P02", "16/32/64 bit RLE codecs: lossless round trip",
     "For every non-empty input (of any size, not only multiples of the symbol size), the symbol and byte granular 16, 32 and 64 bit run length codecs, plain and packed, compress successfully into the advertised capacity and decompress to exactly the input." + RT,
     ["inputs", "configurations"], SYMQ, TESTS, ["src/rleX_extreme_cpu.c", "src/rleX_extreme_cpu.h", "src/rleX_extreme_cpu_encode.h", "src/rleX_extreme_cpu_decode.h", "src/rleX_extreme_common.h"],
     [M("encoder template", "src/rleX_extreme_cpu_encode.h"), M("decoder template", "src/rleX_extreme_cpu_decode.h")], TECH, NOTE)
prop("P03", "24/48/128 bit RLE codecs: lossless round trip",
     "For every non-empty input (of any size, not only multiples of the symbol size), the symbol and byte granular 24, 48 and 128 bit run length codecs, plain and packed, compress successfully into the advertised capacity and decompress to exactly the input." + RT,
     ["inputs", "configurations"], SYMQ, TESTS, ["src/rle24_extreme_cpu.c", "src/rle24_extreme_cpu.h", "src/rle24_extreme_cpu_encode.h", "src/rle24_extreme_cpu_decode.h", "src/rle48_extreme_cpu.c", "src/rle48_extreme_cpu.h", "src/rle48_extreme_cpu_encode.h", "src/rle48_extreme_cpu_decode.h", "src/rle128_extreme_cpu.c", "src/rle128_extreme_cpu.h"],
     [M("encoder templates", "src/rle24_extreme_cpu_encode.h, src/rle48_extreme_cpu_encode.h, src/rle128_extreme_cpu.h"), M("decoder templates", "src/rle24_extreme_cpu_decode.h, src/rle48_extreme_cpu_decode.h, src/rle128_extreme_cpu.h")], TECH, NOTE)
prop("P04", "Multi byte RLE with 3/7 symbol tables: lossless round trip",
     "For every non-empty input, the 16 to 64 bit codecs that refer to one of the last three or seven run symbols compress successfully into the advertised capacity and decompress to exactly the input: encoder and decoder agree on the table contents after every run." + RT,
     ["inputs", "configurations", "histories"], SYMQ + " Histories of up to 23 runs over up to 9 known and 5 arbitrary symbols.", TESTS, ["src/rleX_Xsl.c", "src/rleX_Xsl.h", "src/rleX_Xsl_multibyte_encoder.h"],
     [M("symbol table maintenance", "src/rleX_Xsl.h, src/rleX_Xsl_multibyte_encoder.h")], TECH, NOTE)
prop("P05", "Short format multi byte RLE: lossless round trip",
     "For every non-empty input, the short format 16 to 64 bit codecs (plain and with 1/3/7 symbol tables) compress successfully into the advertised capacity and decompress to exactly the input." + RT,
     ["inputs", "configurations", "histories"], SYMQ, TESTS, ["src/rleX_Xsl_short.c", "src/rleX_Xsl_short.h", "src/rleX_Xsl_short_multibyte_encoder.h"],
     [M("packed run header bit fields", "src/rleX_Xsl_short.h, src/rleX_Xsl_short_multibyte_encoder.h")], TECH, NOTE)
prop("P06", "Greedy short format encoders: lossless round trip",
     "For every non-empty input, the greedy encoders of the byte granular short formats produce a stream that the regular decoder of that format turns back into exactly the input." + RT,
     ["inputs", "configurations", "histories"], SYMQ + " Free bytes range over 3 values where the encoder builds a histogram of them.", TESTS, ["src/rleX_Xsl_short.c", "src/rleX_Xsl_short.h"],
     [M("greedy encoder", "src/rleX_Xsl_short.h")], TECH, NOTE)
prop("P07", "Low entropy codecs: lossless round trip",
     "For every non-empty input, the low entropy codecs (all symbols or most frequent symbol only, regular and short), their building blocks (separately stored symbol statistics) and the sub section container format restore exactly the input, whatever set of symbols ends up run length encoded and however many sub sections are used.",
     ["inputs", "configurations"], SYMQ + " Free bytes range over few values because the encoders branch on a histogram of all bytes.", TESTS, ["src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c"],
     [M("symbol statistics", "src/rle8_low_entropy_cpu.c"), M("block coding of the tail", "src/rle8_low_entropy_cpu.c"), M("sub section table", "src/rle8_low_entropy_cpu.c")], TECH, NOTE)
prop("P08", "Run length + short code codec (sh): lossless round trip",
     "For every non-empty input, the 8 bit run length codec with variable length block codes compresses successfully into its advertised capacity and decompresses to exactly the input.",
     ["inputs", "configurations"], SYMQ, TESTS, ["src/rle_sh.c"], [M("block type thresholds and offsets", "src/rle_sh.c")], TECH, NOTE)
prop("P09", "Move-to-front transforms and their RLE codec: exact inverse",
     "For every input, each multi lane move-to-front and bitwise transform has the input's size and its inverse restores the input exactly, for every buffer alignment and every instruction set, without touching memory outside of the buffers; the run length codec built on the 128 bit transform is lossless.",
     ["inputs", "configurations"], SYMQ + " Bitwise transforms: all inputs of up to 39 bytes, fully symbolic.", TESTS, ["src/mmtf.c", "src/bit_mmtf.c", "src/rle8_mmtf.c", "src/bitpack.h"],
     [M("aligned / unaligned / SSE2 variants", "src/mmtf.c"), M("bit transforms", "src/bit_mmtf.c"), M("block packing", "src/rle8_mmtf.c, src/bitpack.h")], TECH, NOTE)
prop("P10", "Advertised capacity always suffices",
     "A compressor that is given exactly the capacity its bounds function advertises never fails for lack of space, never returns a larger size and never writes a byte outside of that capacity, whatever the input; the advertised capacity exceeds the input size and never wraps around for any 32 bit size.",
     ["inputs", "configurations"], SYMQ + " The bounds functions: every 32 bit size, fully symbolic.", "The tests allocate the maximum over all codecs' bounds, so an overrun of one codec's own bound goes unnoticed, and no test file is a worst case.", ["src/rle8_extreme_cpu.c", "src/rle_sh.c", "src/rle8_mmtf.c", "src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c", "src/rleX_extreme_cpu.h", "src/rleX_Xsl.h", "src/rleX_Xsl_short.h"],
     [M("bounds functions", "src/rle8_extreme_cpu.c, src/rle_sh.c, src/rle8_mmtf.c, src/rle8_low_entropy_cpu.c, src/rle8_low_entropy_short_cpu.c")], TECH, NOTE)
prop("P11", "Decompressors stay inside the announced output area",
     "Decompressing a valid stream writes only into the output's uncompressed size plus the advertised additional size, never before or behind it, leaves the stream unmodified, and gives the same result whatever bytes follow the stream and even if more output space or input size than needed is stated.",
     ["inputs", "configurations"], SYMQ + " Output buffers at ten alignments, nothing accessible outside of them; bytes behind the stream arbitrary.", "Tests allocate generous buffers and do not watch the bytes around them.", ["src/rleX_extreme_cpu_decode.h", "src/rle8_extreme_cpu.h", "src/rleX_Xsl.h", "src/rleX_Xsl_short.h", "src/rle8_low_entropy_cpu.c", "src/rle8_mmtf.c", "src/rle_sh.c"],
     [M("wide copies with slack", "src/rleX_extreme_common.h"), M("additional size", "src/rle8_extreme_cpu.c")], TECH, NOTE)
prop("P12", "Stream headers are truthful and checked",
     "Every stream announces the exact uncompressed and compressed size, and a decompressor that is given fewer input bytes than the stream announces, or less output space than the uncompressed size it announces, returns 0 without writing anything.",
     ["inputs", "configurations"], "Every stated input size and output size and every value of the size fields (32 bit, symbolic) that rule the stream out, for streams of the enumerated inputs; header values for every value of the free bytes.", "Tests only pass correct sizes.", ["src/rleX_extreme_cpu_decode.h", "src/rle8_extreme_cpu.c", "src/rle8_extreme_cpu.h", "src/rleX_Xsl.h", "src/rleX_Xsl_short.h", "src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c", "src/rle8_mmtf.c", "src/rle_sh.c"],
     [M("header fields and entry checks of the decoders", "every decompress function")], TECH, NOTE)
prop("P13", "Impossible requests are refused before any memory is touched",
     "A compressor or transform returns 0 without touching either buffer whenever the input is empty or too large to be supported, a buffer is missing, or the stated capacity is below the advertised one; a decompressor does the same for missing buffers and zero sizes, and so do the building blocks of the low entropy codecs (statistics, stored statistics, compression with given statistics, size query).",
     ["inputs", "configurations"], "Every 32 bit input size and capacity (fully symbolic), every codec, transform and instruction set level.", "Tests never pass invalid sizes or too small capacities.", ["src/rle8_extreme_cpu.h", "src/rleX_extreme_cpu.h", "src/rle24_extreme_cpu.h", "src/rle48_extreme_cpu.h", "src/rle128_extreme_cpu.h", "src/rleX_Xsl.h", "src/rleX_Xsl_short.h", "src/rle_sh.c", "src/rle8_mmtf.c", "src/mmtf.c", "src/bit_mmtf.c", "src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c"],
     [M("entry checks", "first statement of every compress / decompress / transform function")], TECH, NOTE)
prop("P14", "Compression is a pure function of the input",
     "Compressing the same bytes twice, at different addresses and alignments and into buffers with different previous contents, gives byte identical streams, and the input is left unmodified. The 8 bit codecs never read outside of the input; the multi byte codecs read at most 16 bytes behind it.",
     ["inputs", "configurations", "histories"], SYMQ + " Previous buffer contents and the bytes around the input arbitrary.", "Tests compress each file once, from one buffer.", ["src/rleX_extreme_cpu_encode.h", "src/rle8_extreme_cpu.h", "src/rleX_Xsl.h", "src/rleX_Xsl_short.h", "src/rle8_mmtf.c", "src/rle_sh.c", "src/rle8_low_entropy_cpu.c"],
     [M("encoders", "every compress function")], TECH, NOTE + " Known finding: the streams of the multi byte codecs depend on the up to 16 bytes they read behind the input; the purity part is decided with those bytes equal.")
prop("P15", "Only instruction sets the CPU and OS support are used",
     "Feature detection reports an instruction set exactly when the processor announces it and, for the wide register sets, the operating system preserves the registers; it is idempotent and never re-enables a set that was disabled after the first detection.",
     ["configurations", "histories"], "Every answer of the cpuid and xgetbv instructions (fully symbolic).", "Tests run on one machine.", ["src/simd_platform.c", "src/simd_platform.h"], [M("feature detection", "src/simd_platform.c")], TECH, "Unbounded over the cpuid / xgetbv answers (finite domain, fully symbolic).")
prop("P16", "Streams and transforms do not depend on the machine",
     "A stream or transform produced with one instruction set decodes to the same bytes with every other instruction set and for every placement of the buffers in memory, and the transforms produce the same bytes with every instruction set.",
     ["configurations", "inputs"], "Decoder levels none to AVX-512, input and output addresses modulo 64, inputs with a symbolic byte.", "Tests run with one machine's instruction sets and allocator alignments.", ["src/rle8_extreme_cpu.c", "src/rleX_extreme_cpu.c", "src/rleX_Xsl.c", "src/rleX_Xsl_short.c", "src/mmtf.c", "src/bit_mmtf.c", "src/rle8_mmtf.c", "src/simd_platform.c"],
     [M("dispatchers", "every decompress function"), M("aligned / unaligned variants", "src/mmtf.c")], TECH, NOTE)

prop("P17", "Bit packing kernels: unpacking restores the packed values",
     "For every block count and all values, packing 1, 2, 3 or 4 bit values with a kernel of bitpack.h and unpacking them with the matching kernel (aligned and unaligned variants of a format are interchangeable) restores every value, reads and writes exactly the packed and unpacked areas, and returns their ends.",
     ["inputs", "configurations"], "All values of all bytes (fully symbolic); block counts up to 14 (1/2/3 bit; 3 for the multi block forms), 0 to 69 values for the 4 bit form (thorough: 40, 9, 139).", "The command line tests only reach one of the kernels, with whatever block counts the files give.", ["src/bitpack.h"],
     [M("pack / unpack kernels", "src/bitpack.h")], TECH, "Bounded by the block counts; all values.")
prop("P18", "Self test and fuzzer notice every failing codec",
     "A command line test run (--test) and the built in fuzzer fail whenever an encoder or decoder reports a failure or the decoded data differs from the input in any byte (including a decoder that leaves its output as it is, unless the input is all zeros; the fuzzer also if the decoded size is wrong), and do not fail when every codec works. Every codec is run, is given the file's bytes and at least the capacity it advertises, its stream is decoded by its own decoder, and the bytes behind the stream are altered before decoding.",
     ["fault_sequences", "inputs"], "Which codec fails, how, at which byte and with which wrong value, and the file contents are symbolic; file sizes 1 to 100 (300), fuzzer inputs of the first 160 (300) iterations, comparisons of 0 to 257 (329) bytes. Codecs are stand-ins, the program around them is real.", "The tests only ever see working codecs: a self test that no longer notices failures passes all of them.", ["src/main.c", "src/rle_fuzz.c", "src/codec_funcs.h"],
     [M("test run, Validate", "src/main.c"), M("fuzz, MemoryEquals", "src/rle_fuzz.c"), M("codec table", "src/codec_funcs.h")], TECH, "Bounded by file sizes and fuzzer iterations.")
prop("P19", "--max-simd is an upper limit",
     "With --max-simd, no instruction set above the named one is reported as available afterwards (nor re-enabled by later detection), those at or below it stay as detected, and naming one that the machine lacks ends the program with an error.",
     ["configurations"], "Every answer of the cpuid and xgetbv instructions (fully symbolic), each of the nine names.", "Tests run on one machine.", ["src/main.c", "src/simd_platform.c"],
     [M("option parsing", "src/main.c"), M("feature detection", "src/simd_platform.c")], TECH, "Unbounded over the cpuid / xgetbv answers.")
prop("P20", "The command line runs exactly the selected codecs",
     "For every combination of the selection options (mode, symbol size, alignment, single/multi, packed, short, greedy, LUT size), the program runs every codec whose name carries the selected attributes (packed codecs count as LUT size 1), with the encoder and decoder of the same codec, and no other (memcpy aside); selections that match nothing may be refused; arguments that are not an option of the program are refused before anything is run.",
     ["configurations"], "All combinations of the options, each at most once; every unknown argument of up to 23 characters (all characters symbolic).", "The tests use a dozen fixed selections, and a codec that is left out of one passes.", ["src/main.c", "src/codec_funcs.h"],
     [M("CodecMatchesArgs, option parsing", "src/main.c"), M("codec table", "src/codec_funcs.h")], TECH, "All combinations of the selection options in one (thorough: eight) orders.")

prop("P21", "Runs are actually compressed",
     "Whatever the symbol, its position and the instruction set, a compressor finds every long run (128 or more bytes of a repeated symbol of its size): the stream is at most a small constant per run (less than 40 + 2 symbols, plus 16 + 3 symbols per run) and 1/64 of the rest larger than the bytes outside of the runs. Low entropy codecs: 320 bytes plus 1/60 (short format: 1/12) of the run lengths; single symbol variants: for runs of one symbol; rle8_sh: for runs that are followed by other data. Inputs without runs grow by no more than that.",
     ["inputs", "configurations"], SYMQ + " 1 to 8 runs of 128 to 70000 bytes with a free symbol, at every offset up to 79 and around the powers of two up to 65536.", "The tests only check that the output decodes: an encoder that copies everything passes all of them.", ["src/rle8_extreme_cpu.h", "src/rleX_extreme_cpu_encode.h", "src/rle24_extreme_cpu_encode.h", "src/rle48_extreme_cpu_encode.h", "src/rle128_extreme_cpu.h", "src/rleX_Xsl.h", "src/rleX_Xsl_short.h", "src/rle_sh.c", "src/rle8_mmtf.c", "src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c"],
     [M("run detection of the encoders", "every compress function")], TECH, NOTE)
prop("P22", "Calls do not disturb each other",
     "Compressing, decompressing and transforming on separate buffers may be done concurrently: a call gives the same result whatever other call is executed at any point in between, the other call is right as well, and inputs and streams are never written to, not even temporarily. A caller that runs into the feature detection of another one never sees an instruction set enabled that is not supported, and finds the detection complete when its own call to it returns.",
     ["schedules", "inputs", "configurations"], "The point at which the other call takes place is a symbolic schedule variable (before every access to shared state; one switch there and back); every cpuid / xgetbv answer for the detection; inputs with free bytes.", "The tests run on one thread.", ["src/simd_platform.c", "src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c", "src/rle8_mmtf.c", "src/mmtf.c", "src/rle_sh.c", "src/rle8_extreme_cpu.c", "src/rleX_Xsl.h", "src/rleX_Xsl_short.h"],
     [M("no shared mutable state besides the feature flags", "every compress / decompress / transform function"), M("order of the flag updates", "src/simd_platform.c")], TECH, "Bounded: one preemption, the other call runs to completion; sequentially consistent.")

NA = [
]


def main():
    import sys
    claimed = set(sys.argv[1:]) or {p[0]["id"] for p in P}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p[0]) + "\n")
    m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="none", enable="no hooks: the checks compile /repo/src as it is", source_commits=[]),
             checks=[dict(property=p[0]["id"], quick_cmd="python3 check.py %s quick" % p[0]["id"], thorough_cmd="python3 check.py %s thorough" % p[0]["id"], evidence_file="evidence/%s.json" % p[0]["id"], technique=p[1], level=p[3], level_note=p[2]) for p in P if p[0]["id"] in claimed],
             not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes="See DESIGN.md. Findings: known_findings.json.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
