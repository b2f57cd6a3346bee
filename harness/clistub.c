// Stand-ins for every codec the command line program and the fuzzer can run (generated once from the public names; cli.c judges the calls).
#include "rle.h"
#include "cli.h"
const cli_codec_t cliCodecs[] = {
  // decoder, mode (1 extreme, 2 low entropy, 3 sh, 4 rle-mmtf, 5 mmtf), bits, alignment (1 symbol, 2 byte), single (2: neither), packed, short, greedy, lut, bound
  { 0, 1, 8, 0, 0, 0, 0, 0, 0, 0 }, // rle8_multi_compress
  { 1, 1, 8, 0, 0, 0, 1, 0, 0, 0 }, // rle8_multi_short_compress
  { 2, 1, 8, 0, 0, 1, 0, 0, 1, 0 }, // rle8_packed_multi_compress
  { 3, 1, 8, 0, 0, 0, 1, 0, 1, 0 }, // rle8_1symlut_short_compress
  { 4, 1, 8, 0, 0, 0, 0, 0, 3, 0 }, // rle8_3symlut_compress
  { 5, 1, 8, 0, 0, 0, 1, 0, 3, 0 }, // rle8_3symlut_short_compress
  { 6, 1, 8, 0, 0, 0, 0, 0, 7, 0 }, // rle8_7symlut_compress
  { 7, 1, 8, 0, 0, 0, 1, 0, 7, 0 }, // rle8_7symlut_short_compress
  { 0, 1, 8, 0, 1, 0, 0, 0, 0, 0 }, // rle8_single_compress
  { 8, 1, 8, 0, 1, 0, 1, 0, 0, 0 }, // rle8_single_short_compress
  { 2, 1, 8, 0, 1, 1, 0, 0, 1, 0 }, // rle8_packed_single_compress
  { 9, 1, 16, 1, 0, 0, 0, 0, 0, 0 }, // rle16_sym_compress
  { 10, 1, 16, 1, 0, 1, 0, 0, 1, 0 }, // rle16_sym_packed_compress
  { 11, 1, 16, 1, 0, 0, 1, 0, 0, 0 }, // rle16_sym_short_compress
  { 12, 1, 16, 1, 0, 0, 1, 0, 1, 0 }, // rle16_1symlut_sym_short_compress
  { 13, 1, 16, 1, 0, 0, 0, 0, 3, 0 }, // rle16_3symlut_sym_compress
  { 14, 1, 16, 1, 0, 0, 1, 0, 3, 0 }, // rle16_3symlut_sym_short_compress
  { 15, 1, 16, 1, 0, 0, 0, 0, 7, 0 }, // rle16_7symlut_sym_compress
  { 16, 1, 16, 1, 0, 0, 1, 0, 7, 0 }, // rle16_7symlut_sym_short_compress
  { 17, 1, 16, 2, 0, 0, 0, 0, 0, 0 }, // rle16_byte_compress
  { 18, 1, 16, 2, 0, 1, 0, 0, 1, 0 }, // rle16_byte_packed_compress
  { 19, 1, 16, 2, 0, 0, 1, 0, 0, 0 }, // rle16_byte_short_compress
  { 20, 1, 16, 2, 0, 0, 1, 0, 1, 0 }, // rle16_1symlut_byte_short_compress
  { 20, 1, 16, 2, 0, 0, 1, 1, 1, 0 }, // rle16_1symlut_byte_short_compress_greedy
  { 21, 1, 16, 2, 0, 0, 0, 0, 3, 0 }, // rle16_3symlut_byte_compress
  { 22, 1, 16, 2, 0, 0, 1, 0, 3, 0 }, // rle16_3symlut_byte_short_compress
  { 22, 1, 16, 2, 0, 0, 1, 1, 3, 0 }, // rle16_3symlut_byte_short_compress_greedy
  { 23, 1, 16, 2, 0, 0, 0, 0, 7, 0 }, // rle16_7symlut_byte_compress
  { 24, 1, 16, 2, 0, 0, 1, 0, 7, 0 }, // rle16_7symlut_byte_short_compress
  { 24, 1, 16, 2, 0, 0, 1, 1, 7, 0 }, // rle16_7symlut_byte_short_compress_greedy
  { 25, 1, 24, 1, 0, 0, 0, 0, 0, 0 }, // rle24_sym_compress
  { 26, 1, 24, 1, 0, 1, 0, 0, 1, 0 }, // rle24_sym_packed_compress
  { 27, 1, 24, 1, 0, 0, 1, 0, 0, 0 }, // rle24_sym_short_compress
  { 28, 1, 24, 1, 0, 0, 1, 0, 1, 0 }, // rle24_1symlut_sym_short_compress
  { 29, 1, 24, 1, 0, 0, 0, 0, 3, 0 }, // rle24_3symlut_sym_compress
  { 30, 1, 24, 1, 0, 0, 1, 0, 3, 0 }, // rle24_3symlut_sym_short_compress
  { 31, 1, 24, 1, 0, 0, 0, 0, 7, 0 }, // rle24_7symlut_sym_compress
  { 32, 1, 24, 1, 0, 0, 1, 0, 7, 0 }, // rle24_7symlut_sym_short_compress
  { 33, 1, 24, 2, 0, 0, 0, 0, 0, 0 }, // rle24_byte_compress
  { 34, 1, 24, 2, 0, 1, 0, 0, 1, 0 }, // rle24_byte_packed_compress
  { 35, 1, 24, 2, 0, 0, 1, 0, 0, 0 }, // rle24_byte_short_compress
  { 36, 1, 24, 2, 0, 0, 1, 0, 1, 0 }, // rle24_1symlut_byte_short_compress
  { 36, 1, 24, 2, 0, 0, 1, 1, 1, 0 }, // rle24_1symlut_byte_short_compress_greedy
  { 37, 1, 24, 2, 0, 0, 0, 0, 3, 0 }, // rle24_3symlut_byte_compress
  { 38, 1, 24, 2, 0, 0, 1, 0, 3, 0 }, // rle24_3symlut_byte_short_compress
  { 38, 1, 24, 2, 0, 0, 1, 1, 3, 0 }, // rle24_3symlut_byte_short_compress_greedy
  { 39, 1, 24, 2, 0, 0, 0, 0, 7, 0 }, // rle24_7symlut_byte_compress
  { 40, 1, 24, 2, 0, 0, 1, 0, 7, 0 }, // rle24_7symlut_byte_short_compress
  { 40, 1, 24, 2, 0, 0, 1, 1, 7, 0 }, // rle24_7symlut_byte_short_compress_greedy
  { 41, 1, 32, 1, 0, 0, 0, 0, 0, 0 }, // rle32_sym_compress
  { 42, 1, 32, 1, 0, 1, 0, 0, 1, 0 }, // rle32_sym_packed_compress
  { 43, 1, 32, 1, 0, 0, 1, 0, 0, 0 }, // rle32_sym_short_compress
  { 44, 1, 32, 1, 0, 0, 1, 0, 1, 0 }, // rle32_1symlut_sym_short_compress
  { 45, 1, 32, 1, 0, 0, 0, 0, 3, 0 }, // rle32_3symlut_sym_compress
  { 46, 1, 32, 1, 0, 0, 1, 0, 3, 0 }, // rle32_3symlut_sym_short_compress
  { 47, 1, 32, 1, 0, 0, 0, 0, 7, 0 }, // rle32_7symlut_sym_compress
  { 48, 1, 32, 1, 0, 0, 1, 0, 7, 0 }, // rle32_7symlut_sym_short_compress
  { 49, 1, 32, 2, 0, 0, 0, 0, 0, 0 }, // rle32_byte_compress
  { 50, 1, 32, 2, 0, 1, 0, 0, 1, 0 }, // rle32_byte_packed_compress
  { 51, 1, 32, 2, 0, 0, 1, 0, 0, 0 }, // rle32_byte_short_compress
  { 52, 1, 32, 2, 0, 0, 1, 0, 1, 0 }, // rle32_1symlut_byte_short_compress
  { 52, 1, 32, 2, 0, 0, 1, 1, 1, 0 }, // rle32_1symlut_byte_short_compress_greedy
  { 53, 1, 32, 2, 0, 0, 0, 0, 3, 0 }, // rle32_3symlut_byte_compress
  { 54, 1, 32, 2, 0, 0, 1, 0, 3, 0 }, // rle32_3symlut_byte_short_compress
  { 54, 1, 32, 2, 0, 0, 1, 1, 3, 0 }, // rle32_3symlut_byte_short_compress_greedy
  { 55, 1, 32, 2, 0, 0, 0, 0, 7, 0 }, // rle32_7symlut_byte_compress
  { 56, 1, 32, 2, 0, 0, 1, 0, 7, 0 }, // rle32_7symlut_byte_short_compress
  { 56, 1, 32, 2, 0, 0, 1, 1, 7, 0 }, // rle32_7symlut_byte_short_compress_greedy
  { 57, 1, 48, 1, 0, 0, 0, 0, 0, 0 }, // rle48_sym_compress
  { 58, 1, 48, 1, 0, 1, 0, 0, 1, 0 }, // rle48_sym_packed_compress
  { 59, 1, 48, 1, 0, 0, 1, 0, 0, 0 }, // rle48_sym_short_compress
  { 60, 1, 48, 1, 0, 0, 1, 0, 1, 0 }, // rle48_1symlut_sym_short_compress
  { 61, 1, 48, 1, 0, 0, 0, 0, 3, 0 }, // rle48_3symlut_sym_compress
  { 62, 1, 48, 1, 0, 0, 1, 0, 3, 0 }, // rle48_3symlut_sym_short_compress
  { 63, 1, 48, 1, 0, 0, 0, 0, 7, 0 }, // rle48_7symlut_sym_compress
  { 64, 1, 48, 1, 0, 0, 1, 0, 7, 0 }, // rle48_7symlut_sym_short_compress
  { 65, 1, 48, 2, 0, 0, 0, 0, 0, 0 }, // rle48_byte_compress
  { 66, 1, 48, 2, 0, 1, 0, 0, 1, 0 }, // rle48_byte_packed_compress
  { 67, 1, 48, 2, 0, 0, 1, 0, 0, 0 }, // rle48_byte_short_compress
  { 68, 1, 48, 2, 0, 0, 1, 0, 1, 0 }, // rle48_1symlut_byte_short_compress
  { 68, 1, 48, 2, 0, 0, 1, 1, 1, 0 }, // rle48_1symlut_byte_short_compress_greedy
  { 69, 1, 48, 2, 0, 0, 0, 0, 3, 0 }, // rle48_3symlut_byte_compress
  { 70, 1, 48, 2, 0, 0, 1, 0, 3, 0 }, // rle48_3symlut_byte_short_compress
  { 70, 1, 48, 2, 0, 0, 1, 1, 3, 0 }, // rle48_3symlut_byte_short_compress_greedy
  { 71, 1, 48, 2, 0, 0, 0, 0, 7, 0 }, // rle48_7symlut_byte_compress
  { 72, 1, 48, 2, 0, 0, 1, 0, 7, 0 }, // rle48_7symlut_byte_short_compress
  { 72, 1, 48, 2, 0, 0, 1, 1, 7, 0 }, // rle48_7symlut_byte_short_compress_greedy
  { 73, 1, 64, 1, 0, 0, 0, 0, 0, 0 }, // rle64_sym_compress
  { 74, 1, 64, 1, 0, 1, 0, 0, 1, 0 }, // rle64_sym_packed_compress
  { 75, 1, 64, 1, 0, 0, 1, 0, 0, 0 }, // rle64_sym_short_compress
  { 76, 1, 64, 1, 0, 0, 1, 0, 1, 0 }, // rle64_1symlut_sym_short_compress
  { 77, 1, 64, 1, 0, 0, 0, 0, 3, 0 }, // rle64_3symlut_sym_compress
  { 78, 1, 64, 1, 0, 0, 1, 0, 3, 0 }, // rle64_3symlut_sym_short_compress
  { 79, 1, 64, 1, 0, 0, 0, 0, 7, 0 }, // rle64_7symlut_sym_compress
  { 80, 1, 64, 1, 0, 0, 1, 0, 7, 0 }, // rle64_7symlut_sym_short_compress
  { 81, 1, 64, 2, 0, 0, 0, 0, 0, 0 }, // rle64_byte_compress
  { 82, 1, 64, 2, 0, 1, 0, 0, 1, 0 }, // rle64_byte_packed_compress
  { 83, 1, 64, 2, 0, 0, 1, 0, 0, 0 }, // rle64_byte_short_compress
  { 84, 1, 64, 2, 0, 0, 1, 0, 1, 0 }, // rle64_1symlut_byte_short_compress
  { 84, 1, 64, 2, 0, 0, 1, 1, 1, 0 }, // rle64_1symlut_byte_short_compress_greedy
  { 85, 1, 64, 2, 0, 0, 0, 0, 3, 0 }, // rle64_3symlut_byte_compress
  { 86, 1, 64, 2, 0, 0, 1, 0, 3, 0 }, // rle64_3symlut_byte_short_compress
  { 86, 1, 64, 2, 0, 0, 1, 1, 3, 0 }, // rle64_3symlut_byte_short_compress_greedy
  { 87, 1, 64, 2, 0, 0, 0, 0, 7, 0 }, // rle64_7symlut_byte_compress
  { 88, 1, 64, 2, 0, 0, 1, 0, 7, 0 }, // rle64_7symlut_byte_short_compress
  { 88, 1, 64, 2, 0, 0, 1, 1, 7, 0 }, // rle64_7symlut_byte_short_compress_greedy
  { 89, 1, 128, 1, 0, 0, 0, 0, 0, 0 }, // rle128_sym_compress
  { 90, 1, 128, 1, 0, 1, 0, 0, 1, 0 }, // rle128_sym_packed_compress
  { 91, 1, 128, 2, 0, 0, 0, 0, 0, 0 }, // rle128_byte_compress
  { 92, 1, 128, 2, 0, 1, 0, 0, 1, 0 }, // rle128_byte_packed_compress
  { 93, 3, 8, 0, 2, 0, 0, 0, 0, 2 }, // rle8_sh_compress
  { 94, 4, 128, 0, 2, 0, 0, 0, 0, 3 }, // rle8_mmtf128_compress
  { 95, 2, 8, 0, 0, 0, 0, 0, 0, 5 }, // rle8_low_entropy_compress
  { 95, 2, 8, 0, 1, 0, 0, 0, 0, 5 }, // rle8_low_entropy_compress_only_max_frequency
  { 96, 2, 8, 0, 0, 0, 1, 0, 0, 6 }, // rle8_low_entropy_short_compress
  { 96, 2, 8, 0, 1, 0, 1, 0, 0, 6 }, // rle8_low_entropy_short_compress_only_max_frequency
  { 97, 5, 128, 0, 2, 0, 0, 0, 0, 1 }, // mmtf128_encode
  { 98, 5, 256, 0, 2, 0, 0, 0, 0, 1 }, // mmtf256_encode
  { 99, 5, 8, 0, 3, 0, 0, 0, 0, 1 }, // bitmmtf8_encode
  { 100, 5, 16, 0, 3, 0, 0, 0, 0, 1 }, // bitmmtf16_encode
};
const uint32_t cliCodecCount = sizeof(cliCodecs) / sizeof(cliCodecs[0]);
#define C(n, i) uint32_t n(const uint8_t *pIn, const uint32_t inSize, uint8_t *pOut, const uint32_t outSize) { return cli_compress(i, pIn, inSize, pOut, outSize); }
#define D(n, i) uint32_t n(const uint8_t *pIn, const uint32_t inSize, uint8_t *pOut, const uint32_t outSize) { return cli_decompress(i, pIn, inSize, pOut, outSize); }
#define B(n, i) uint32_t n(const uint32_t inSize) { return cli_bound(i, inSize); }
C(rle8_multi_compress, 0)
C(rle8_multi_short_compress, 1)
C(rle8_packed_multi_compress, 2)
C(rle8_1symlut_short_compress, 3)
C(rle8_3symlut_compress, 4)
C(rle8_3symlut_short_compress, 5)
C(rle8_7symlut_compress, 6)
C(rle8_7symlut_short_compress, 7)
C(rle8_single_compress, 8)
C(rle8_single_short_compress, 9)
C(rle8_packed_single_compress, 10)
C(rle16_sym_compress, 11)
C(rle16_sym_packed_compress, 12)
C(rle16_sym_short_compress, 13)
C(rle16_1symlut_sym_short_compress, 14)
C(rle16_3symlut_sym_compress, 15)
C(rle16_3symlut_sym_short_compress, 16)
C(rle16_7symlut_sym_compress, 17)
C(rle16_7symlut_sym_short_compress, 18)
C(rle16_byte_compress, 19)
C(rle16_byte_packed_compress, 20)
C(rle16_byte_short_compress, 21)
C(rle16_1symlut_byte_short_compress, 22)
C(rle16_1symlut_byte_short_compress_greedy, 23)
C(rle16_3symlut_byte_compress, 24)
C(rle16_3symlut_byte_short_compress, 25)
C(rle16_3symlut_byte_short_compress_greedy, 26)
C(rle16_7symlut_byte_compress, 27)
C(rle16_7symlut_byte_short_compress, 28)
C(rle16_7symlut_byte_short_compress_greedy, 29)
C(rle24_sym_compress, 30)
C(rle24_sym_packed_compress, 31)
C(rle24_sym_short_compress, 32)
C(rle24_1symlut_sym_short_compress, 33)
C(rle24_3symlut_sym_compress, 34)
C(rle24_3symlut_sym_short_compress, 35)
C(rle24_7symlut_sym_compress, 36)
C(rle24_7symlut_sym_short_compress, 37)
C(rle24_byte_compress, 38)
C(rle24_byte_packed_compress, 39)
C(rle24_byte_short_compress, 40)
C(rle24_1symlut_byte_short_compress, 41)
C(rle24_1symlut_byte_short_compress_greedy, 42)
C(rle24_3symlut_byte_compress, 43)
C(rle24_3symlut_byte_short_compress, 44)
C(rle24_3symlut_byte_short_compress_greedy, 45)
C(rle24_7symlut_byte_compress, 46)
C(rle24_7symlut_byte_short_compress, 47)
C(rle24_7symlut_byte_short_compress_greedy, 48)
C(rle32_sym_compress, 49)
C(rle32_sym_packed_compress, 50)
C(rle32_sym_short_compress, 51)
C(rle32_1symlut_sym_short_compress, 52)
C(rle32_3symlut_sym_compress, 53)
C(rle32_3symlut_sym_short_compress, 54)
C(rle32_7symlut_sym_compress, 55)
C(rle32_7symlut_sym_short_compress, 56)
C(rle32_byte_compress, 57)
C(rle32_byte_packed_compress, 58)
C(rle32_byte_short_compress, 59)
C(rle32_1symlut_byte_short_compress, 60)
C(rle32_1symlut_byte_short_compress_greedy, 61)
C(rle32_3symlut_byte_compress, 62)
C(rle32_3symlut_byte_short_compress, 63)
C(rle32_3symlut_byte_short_compress_greedy, 64)
C(rle32_7symlut_byte_compress, 65)
C(rle32_7symlut_byte_short_compress, 66)
C(rle32_7symlut_byte_short_compress_greedy, 67)
C(rle48_sym_compress, 68)
C(rle48_sym_packed_compress, 69)
C(rle48_sym_short_compress, 70)
C(rle48_1symlut_sym_short_compress, 71)
C(rle48_3symlut_sym_compress, 72)
C(rle48_3symlut_sym_short_compress, 73)
C(rle48_7symlut_sym_compress, 74)
C(rle48_7symlut_sym_short_compress, 75)
C(rle48_byte_compress, 76)
C(rle48_byte_packed_compress, 77)
C(rle48_byte_short_compress, 78)
C(rle48_1symlut_byte_short_compress, 79)
C(rle48_1symlut_byte_short_compress_greedy, 80)
C(rle48_3symlut_byte_compress, 81)
C(rle48_3symlut_byte_short_compress, 82)
C(rle48_3symlut_byte_short_compress_greedy, 83)
C(rle48_7symlut_byte_compress, 84)
C(rle48_7symlut_byte_short_compress, 85)
C(rle48_7symlut_byte_short_compress_greedy, 86)
C(rle64_sym_compress, 87)
C(rle64_sym_packed_compress, 88)
C(rle64_sym_short_compress, 89)
C(rle64_1symlut_sym_short_compress, 90)
C(rle64_3symlut_sym_compress, 91)
C(rle64_3symlut_sym_short_compress, 92)
C(rle64_7symlut_sym_compress, 93)
C(rle64_7symlut_sym_short_compress, 94)
C(rle64_byte_compress, 95)
C(rle64_byte_packed_compress, 96)
C(rle64_byte_short_compress, 97)
C(rle64_1symlut_byte_short_compress, 98)
C(rle64_1symlut_byte_short_compress_greedy, 99)
C(rle64_3symlut_byte_compress, 100)
C(rle64_3symlut_byte_short_compress, 101)
C(rle64_3symlut_byte_short_compress_greedy, 102)
C(rle64_7symlut_byte_compress, 103)
C(rle64_7symlut_byte_short_compress, 104)
C(rle64_7symlut_byte_short_compress_greedy, 105)
C(rle128_sym_compress, 106)
C(rle128_sym_packed_compress, 107)
C(rle128_byte_compress, 108)
C(rle128_byte_packed_compress, 109)
C(rle8_sh_compress, 110)
C(rle8_mmtf128_compress, 111)
C(rle8_low_entropy_compress, 112)
C(rle8_low_entropy_compress_only_max_frequency, 113)
C(rle8_low_entropy_short_compress, 114)
C(rle8_low_entropy_short_compress_only_max_frequency, 115)
C(mmtf128_encode, 116)
C(mmtf256_encode, 117)
C(bitmmtf8_encode, 118)
C(bitmmtf16_encode, 119)
D(rle8_decompress, 0)
D(rle8_multi_short_decompress, 1)
D(rle8_packed_decompress, 2)
D(rle8_1symlut_short_decompress, 3)
D(rle8_3symlut_decompress, 4)
D(rle8_3symlut_short_decompress, 5)
D(rle8_7symlut_decompress, 6)
D(rle8_7symlut_short_decompress, 7)
D(rle8_single_short_decompress, 8)
D(rle16_sym_decompress, 9)
D(rle16_sym_packed_decompress, 10)
D(rle16_sym_short_decompress, 11)
D(rle16_1symlut_sym_short_decompress, 12)
D(rle16_3symlut_sym_decompress, 13)
D(rle16_3symlut_sym_short_decompress, 14)
D(rle16_7symlut_sym_decompress, 15)
D(rle16_7symlut_sym_short_decompress, 16)
D(rle16_byte_decompress, 17)
D(rle16_byte_packed_decompress, 18)
D(rle16_byte_short_decompress, 19)
D(rle16_1symlut_byte_short_decompress, 20)
D(rle16_3symlut_byte_decompress, 21)
D(rle16_3symlut_byte_short_decompress, 22)
D(rle16_7symlut_byte_decompress, 23)
D(rle16_7symlut_byte_short_decompress, 24)
D(rle24_sym_decompress, 25)
D(rle24_sym_packed_decompress, 26)
D(rle24_sym_short_decompress, 27)
D(rle24_1symlut_sym_short_decompress, 28)
D(rle24_3symlut_sym_decompress, 29)
D(rle24_3symlut_sym_short_decompress, 30)
D(rle24_7symlut_sym_decompress, 31)
D(rle24_7symlut_sym_short_decompress, 32)
D(rle24_byte_decompress, 33)
D(rle24_byte_packed_decompress, 34)
D(rle24_byte_short_decompress, 35)
D(rle24_1symlut_byte_short_decompress, 36)
D(rle24_3symlut_byte_decompress, 37)
D(rle24_3symlut_byte_short_decompress, 38)
D(rle24_7symlut_byte_decompress, 39)
D(rle24_7symlut_byte_short_decompress, 40)
D(rle32_sym_decompress, 41)
D(rle32_sym_packed_decompress, 42)
D(rle32_sym_short_decompress, 43)
D(rle32_1symlut_sym_short_decompress, 44)
D(rle32_3symlut_sym_decompress, 45)
D(rle32_3symlut_sym_short_decompress, 46)
D(rle32_7symlut_sym_decompress, 47)
D(rle32_7symlut_sym_short_decompress, 48)
D(rle32_byte_decompress, 49)
D(rle32_byte_packed_decompress, 50)
D(rle32_byte_short_decompress, 51)
D(rle32_1symlut_byte_short_decompress, 52)
D(rle32_3symlut_byte_decompress, 53)
D(rle32_3symlut_byte_short_decompress, 54)
D(rle32_7symlut_byte_decompress, 55)
D(rle32_7symlut_byte_short_decompress, 56)
D(rle48_sym_decompress, 57)
D(rle48_sym_packed_decompress, 58)
D(rle48_sym_short_decompress, 59)
D(rle48_1symlut_sym_short_decompress, 60)
D(rle48_3symlut_sym_decompress, 61)
D(rle48_3symlut_sym_short_decompress, 62)
D(rle48_7symlut_sym_decompress, 63)
D(rle48_7symlut_sym_short_decompress, 64)
D(rle48_byte_decompress, 65)
D(rle48_byte_packed_decompress, 66)
D(rle48_byte_short_decompress, 67)
D(rle48_1symlut_byte_short_decompress, 68)
D(rle48_3symlut_byte_decompress, 69)
D(rle48_3symlut_byte_short_decompress, 70)
D(rle48_7symlut_byte_decompress, 71)
D(rle48_7symlut_byte_short_decompress, 72)
D(rle64_sym_decompress, 73)
D(rle64_sym_packed_decompress, 74)
D(rle64_sym_short_decompress, 75)
D(rle64_1symlut_sym_short_decompress, 76)
D(rle64_3symlut_sym_decompress, 77)
D(rle64_3symlut_sym_short_decompress, 78)
D(rle64_7symlut_sym_decompress, 79)
D(rle64_7symlut_sym_short_decompress, 80)
D(rle64_byte_decompress, 81)
D(rle64_byte_packed_decompress, 82)
D(rle64_byte_short_decompress, 83)
D(rle64_1symlut_byte_short_decompress, 84)
D(rle64_3symlut_byte_decompress, 85)
D(rle64_3symlut_byte_short_decompress, 86)
D(rle64_7symlut_byte_decompress, 87)
D(rle64_7symlut_byte_short_decompress, 88)
D(rle128_sym_decompress, 89)
D(rle128_sym_packed_decompress, 90)
D(rle128_byte_decompress, 91)
D(rle128_byte_packed_decompress, 92)
D(rle8_sh_decompress, 93)
D(rle8_mmtf128_decompress, 94)
D(rle8_low_entropy_decompress, 95)
D(rle8_low_entropy_short_decompress, 96)
D(mmtf128_decode, 97)
D(mmtf256_decode, 98)
D(bitmmtf8_decode, 99)
D(bitmmtf16_decode, 100)
B(rle_compress_bounds, 0)
B(mmtf_bounds, 1)
B(rle8_sh_bounds, 2)
B(rle8_mmtf128_compress_bounds, 3)
B(rle8_mmtf256_compress_bounds, 4)
B(rle8_low_entropy_compress_bounds, 5)
B(rle8_low_entropy_short_compress_bounds, 6)
uint32_t rle_decompress_additional_size(void) { return CLI_ADDITIONAL; }
