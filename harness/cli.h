#ifndef cli_h__
#define cli_h__
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#define CLI_ADDITIONAL 40
typedef struct { uint8_t dec, mode; uint16_t bits; uint8_t align, single, packed, shrt, greedy, lut, bound; } cli_codec_t;
extern const cli_codec_t cliCodecs[];
extern const uint32_t cliCodecCount;
uint32_t cli_compress(uint32_t id, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize);
uint32_t cli_decompress(uint32_t dec, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize);
uint32_t cli_bound(uint32_t kind, uint32_t inSize);
#endif
