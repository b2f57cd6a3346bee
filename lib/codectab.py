"""Mirror of harness/codecs.h (same order)."""
NAMES = ["rle8_multi", "rle8_single", "rle8_packed_multi", "rle8_packed_single", "rle8_multi_short", "rle8_single_short", "rle8_1symlut_short", "rle8_3symlut", "rle8_3symlut_short", "rle8_7symlut", "rle8_7symlut_short"]
for N in (16, 24, 32, 48, 64, 128):
    NAMES += ["rle%d_%s" % (N, k) for k in ("sym", "byte", "sym_packed", "byte_packed")]
for N in (16, 24, 32, 48, 64):
    NAMES += ["rle%d_%s" % (N, k) for k in ("3symlut_sym", "3symlut_byte", "7symlut_sym", "7symlut_byte")]
for N in (16, 24, 32, 48, 64):
    NAMES += ["rle%d_sym_short" % N, "rle%d_byte_short" % N]
    for k in (1, 3, 7):
        NAMES += ["rle%d_%dsymlut_sym_short" % (N, k), "rle%d_%dsymlut_byte_short" % (N, k), "rle%d_%dsymlut_byte_short_greedy" % (N, k)]
NAMES += ["rle8_sh", "rle8_mmtf128", "rle8_low_entropy", "rle8_low_entropy_max_freq", "rle8_low_entropy_short", "rle8_low_entropy_short_max_freq"]
ID = {n: i for i, n in enumerate(NAMES)}


def width(n):
    """symbol size in bytes"""
    import re
    return int(re.match(r"rle(\d+)_", n).group(1)) // 8


def one_encoder(n):
    """one encoder implementation regardless of the instruction set (as of today: jobs alternate the level, so that a dispatch would show)"""
    return "low_entropy" in n or "single" in n or "greedy" in n or n in ("rle8_sh", "rle8_mmtf128") or n.startswith("rle128")


def enc_levels(n):
    """instruction-set levels that select different encoders"""
    w = width(n)
    if one_encoder(n):
        return [-1]  # alternate
    if w in (3, 6):
        return [0, 1, 2, 5]
    if w == 1:
        return [1, 5]
    return [0, 1, 5]


SIMPLE8 = NAMES[:11]
W16_32_64 = [n for n in NAMES[11:35] if width(n) in (2, 4, 8)]
W24_48_128 = [n for n in NAMES[11:35] if width(n) in (3, 6, 16)]
LUT = NAMES[35:55]
SHORT = [n for n in NAMES[55:110] if "greedy" not in n]
GREEDY = [n for n in NAMES[55:110] if "greedy" in n]
OTHER = NAMES[110:]
