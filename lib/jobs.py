"""Job generation: which symbolic input families are decided for which property."""
import random
import codectab as ct
SYM, RUN, CRUN, LIT, CPAT, REF, ALPHA, COPY, ARUN, CASE, NEAR = range(11)
ALLDEC = 126  # decoder levels 1..6


def P(codec, enc, dec, ia, oa, tail, x, y, segs):
    v = [codec, enc, dec, ia, oa, tail, x, y, len(segs)]
    for s in segs:
        v += (list(s) + [0, 0, 0, 0])[:4]
    return v


ALIGNS = [(0, 0), (1, 3), (16, 8), (5, 32), (63, 17), (32, 1), (7, 15), (48, 47), (3, 33), (31, 16)]


def uniq(xs):
    return list(dict.fromkeys(xs))


def thr(name, bases, lo, hi):
    """run lengths (bytes) around the field size thresholds of the format; the stored count is the run length (in symbols, or in bytes
    for the *_byte formats) minus a small format specific minimum"""
    w = ct.width(name)
    out = []
    for b in bases:
        if w == 1 or "_byte" in name:
            out += list(range(b + lo, b + hi + 2 * w))
        if w > 1:
            out += [x * w + d for x in range(b + lo, b + hi) for d in (0, 1)]
    return uniq(x for x in out if x > 0)


def pat(name, k=1):
    """pattern of a run: one symbol with a free byte, in every fourth job a single free byte repeated, sometimes two free bytes"""
    w = ct.width(name)
    if w == 1:
        return 1
    return 1 if k % 4 == 0 else (w | 2 << 8 if k % 8 == 3 and "greedy" not in name else w | 1 << 8)


def heavy(name):
    return name == "rle8_mmtf128"


def histogram(name):
    """codecs whose encoder starts with a histogram: every free byte is split into its values, so free bytes range over few values"""
    return "single" in name or "low_entropy" in name or "greedy" in name


def restrict(name, segs):
    if not histogram(name):
        return segs
    out = []
    first = (0x41, 0xFF, 0x41, 0x7F)[sum(s[1] for s in segs) % 4]  # 3 neighbouring values, also around 0 and 0x80
    for s in segs:
        if s[0] == RUN:
            s = (ARUN, s[1], s[2], s[3] | first << 8)
        elif s[0] == SYM and s[1] > 0:
            s = (ALPHA, s[1], first - 1, 3)
        elif s[0] == NEAR:
            s = (NEAR, s[1], s[2], s[3] | 1 << 16)
        out.append(s)
    return out


# ---- families: yield (priority, label, segments, opts)
def fam_tiny(name, quick):
    """every input of up to k bytes"""
    w = ct.width(name)
    k = 3 if heavy(name) else 6 if "greedy" in name or w >= 6 else 7 if w > 1 else 8
    for n in range(1, k + 1):
        yield 0, "all inputs of %d bytes" % n, [(SYM, n)], 0


def fam_sizes(name, quick):
    """every size: literals ending in free bytes, and a run over the whole input"""
    w = ct.width(name)
    for n in range(1, 100 if quick else 300):
        if n > 2:
            yield 2, "literals, size %d" % n, [(LIT, n - 2, n), (SYM, 2)] if not heavy(name) else [(LIT, n - 1, n), (ALPHA, 1, 5, 9)], 0
        yield 2, "single run, size %d" % n, [(RUN if not heavy(name) else ARUN, n, pat(name, n), 0)], 0


def fam_runs(name, quick):
    """literal, free byte, run, free byte, literal: run length around every threshold"""
    w = ct.width(name)
    Ls = list(range(1, 6 * w + 26 if w < 8 else 4 * w + 20)) + thr(name, [16, 32, 64, 128], -2, 6) + thr(name, [256, 512], -3, 8)
    for k, L in enumerate(uniq(Ls)):
        a, b = (19 + k % 23, 21 + k % 41)
        p = 1 if L < 40 or k % 3 == 0 else 3
        yield p, "run of %d bytes between literals" % L, [(LIT, a, 1), (SYM, 1), (RUN, L, pat(name, k), 0), (SYM, 1), (LIT, b, 2)], 0
        if k % 2:
            yield p, "run of %d bytes at the end" % L, [(LIT, a, 3), (SYM, 1), (RUN, L, pat(name, k), 0), (SYM, k % 3)] if k % 3 else [(LIT, a, 3), (RUN, L, pat(name, k), 0)], 0
        else:
            yield p, "run of %d bytes at the start" % L, [(RUN, L, pat(name, k), 0), (SYM, 1), (LIT, 3 + k % 90, 4)], 0


def fam_ranges(name, quick):
    """literal range lengths around every threshold, before a first and a second run (same and other symbol)"""
    w = ct.width(name)
    R = list(range(0, 40)) + [x for b in (64, 128, 256, 512) for x in range(b - 6, b + 5)]
    for k, r in enumerate(R):
        L = max(6 * w, 14) + (k % 5)
        p = 1 if k % 3 == 0 else 3
        yield p, "range of %d bytes before the runs" % r, [(LIT, r, 5), (RUN, L, pat(name, k), 0), (LIT, 30 + k % 7, 6), (RUN, L + w, pat(name, k), 1), (LIT, 9, 7), (SYM, 1)], 0
        yield p, "range of %d bytes between runs of one symbol" % r, [(LIT, 11, 5), (RUN, L, pat(name, k), 0), (LIT, r, 6), (REF, L, 0, 0), (LIT, k % 40, 7)], 0
        if k % 2 == 0:
            yield p, "range of %d bytes between runs of two symbols, then the end" % r, [(RUN, L, pat(name, k), 0), (LIT, r, 8), (RUN, 2 * L, pat(name, k), 1)], 0


def fam_lut(name, quick):
    """many runs of few symbols: symbol tables, last-symbol shortcuts"""
    w = ct.width(name)
    L = max(5 * w, 12)
    if heavy(name):
        return
    for g in (1, 3, 9, 17):
        yield 1, "5 runs of arbitrary symbols, gaps of %d" % g, [s for i in range(5) for s in ((RUN, L + i, pat(name, i), i), (LIT, g, 20 + i))], 1
        if w > 1:
            yield 1, "5 runs of arbitrary repeated bytes, gaps of %d" % g, [s for i in range(5) for s in ((RUN, L + i, 1, i), (LIT, g, 20 + i))], 1
    for nconc in (3, 4, 7, 8, 9):
        segs = []
        for i in range(nconc):
            segs += [(CPAT, L + 2 * w, w, i + 1), (LIT, 2 + i, 30 + i)]
        segs += [(RUN, L, w | 1 << 8 if w > 1 else 1, 0), (LIT, 5, 41), (RUN, L, w | 1 << 8 if w > 1 else 1, 1), (LIT, 4, 42)]
        for i in range(nconc):
            segs += [(CPAT, L + w, w, i + 1), (LIT, 1 + i, 50 + i)]
        yield 1, "%d known symbols, two arbitrary ones, the known ones again" % nconc, segs, 1
        segs = []
        for i in list(range(nconc)) + list(range(nconc - 1, -1, -1)) + [0, nconc - 1, 0, nconc // 2, nconc // 2]:
            segs += [(CPAT, L + w, w, i + 1), (LIT, 2, 60 + i)]
        yield 1, "%d symbols forwards, backwards, repeated" % nconc, segs + [(SYM, 2)], 1
    yield 2, "adjacent runs", [(RUN, L, pat(name, 1), 0), (RUN, L, pat(name, 1), 1), (RUN, L, pat(name, 1), 2), (LIT, 40, 3)], 1
    yield 2, "adjacent runs, odd lengths", [(LIT, 3, 3), (RUN, L + 1, pat(name, 1), 0), (RUN, L + 3, pat(name, 1), 1), (REF, L + 1, 0, 1), (SYM, 1)], 1
    yield 2, "run interrupted by a free byte", [(LIT, 33, 3), (RUN, 3 * L, pat(name, 1), 0), (SYM, 1), (REF, 3 * L, 0, 0), (SYM, 1), (REF, 2 * L + 1, 0, 1), (LIT, 50, 2)], 1


def fam_free(name, quick):
    """windows of free bytes inside runs and literals: the run finder decides where runs start and end"""
    w = ct.width(name)
    if heavy(name):
        return
    k = 3 if w == 1 else 3
    for off in (0, 5, 14, 15, 16, 30, 31, 32, 33, 47, 63, 64):
        yield 2, "%d free bytes at offset %d of a run" % (k, off), [(CPAT, off, w, 3), (SYM, k), (CPAT, 60, w, 3), (LIT, 40, 4)], 1
        yield 2, "%d free bytes at offset %d of literals, then a run" % (k, off), [(LIT, off, 3), (SYM, k), (CRUN, 40 + w, 0x55), (LIT, 40, 4)], 1


def fam_big(name, quick):
    """16 bit fields: counts and ranges around 65536 (in symbols and in bytes)"""
    w = ct.width(name)
    if heavy(name) or "low_entropy" in name:
        return
    base = [65534, 65536, 65538]
    cnt = [b + 3 for b in base] if w == 1 or "_byte" in name else [b * w for b in base]
    for k, L in enumerate(cnt):
        yield 4, "run of %d bytes" % L, [(LIT, 30, 1), (RUN, L, pat(name, k), 0), (SYM, 1), (LIT, 70, 2)], 0
    for r in (65531, 65534, 65535, 65536, 65537, 65540):
        yield 4, "range of %d bytes" % r, [(LIT, r, 1), (RUN, 20 * max(w, 2), pat(name, 1), 0), (LIT, 70, 2), (SYM, 1)], 0


def fam_edge(name, quick):
    """every count and range around powers of two, i.e. around every possible field size (concrete run symbols; two free bytes)"""
    w = ct.width(name)
    if heavy(name) or "low_entropy" in name:
        return
    sym = w > 1 and "_byte" not in name
    for d in range(-10, 19 if not sym else 11):
        L = (65536 + d) * (w if sym else 1)
        yield 5, "run of exactly %d bytes" % L, [(LIT, 30 + d % 7, 1), (SYM, 1), (CPAT, L, w, d + 40), (SYM, 1), (LIT, 70, 2)], 0
    for r in range(65536 - 10, 65536 + 8):
        yield 5, "range of exactly %d bytes" % r, [(CPAT, 12 * w, w, 3), (LIT, r - 1, r), (SYM, 1), (CPAT, 20 * max(w, 2), w, 9), (LIT, 30, 2)], 0
    for b in (64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768):
        for d in range(-5, 6 + (0 if sym or w == 1 else 2 * w)):
            L = (b + d) * (w if sym else 1)
            yield 5, "run of exactly %d bytes" % L, [(LIT, 30 + d % 7, 1), (SYM, 1), (CPAT, L, w, d + 40), (SYM, 1), (LIT, 70 if d % 3 else 0, 2)], 0
        for r in range(b - 6, b + 5):
            yield 5, "range of exactly %d bytes" % r, [(CPAT, 12 * w, w, 3), (LIT, r - 1, r), (SYM, 1), (CPAT, (20 if r % 2 else 8) * max(w, 2), w, 9 if r % 3 else 3), (LIT, 30 if r % 5 else 0, 2)], 0


    L0 = max(6 * w, 14)
    for c in range(4):
        L = (65536 + 20 + c) * (w if sym else 1)
        yield 5, "run of exactly %d bytes behind %d literals, %s" % (L, 300 + c, "then literals" if c & 2 else "at the end"), [(CPAT, L0, w, 4), (SYM, 1), (LIT, 300 + c, 1), (CPAT, L, w, 4 if c & 1 else 9)] + ([(SYM, 1), (LIT, 70, 2)] if c & 2 else []), 0
        for r in ((33000, 65700, 131080, 65701)[(c + len(name)) % 4],) if quick else (33000, 65700, 131080):
            yield 5, "run of %d bytes %s exactly %d literals, %s" % (4 * w + 12, "of the symbol before" if c & 1 else "behind", r, "then literals" if c & 2 else "at the end"), [(CPAT, L0, w, 4), (SYM, 1), (LIT, r, 1), (CPAT, 4 * w + 12, w, 4 if c & 1 else 9)] + ([(SYM, 1), (LIT, 70, 2)] if c & 2 else []), 0


def fam_near(name, quick):
    """symbols that differ in one byte from the one before (or an older one) at most: every position of that byte, in runs and between them"""
    w = ct.width(name)
    if w == 1 or heavy(name):
        return
    L0 = max(6 * w, 14)
    n = 7 if "7sym" in name else 3 if "3sym" in name else 1
    for k in range(w):
        near = w | k << 8
        for c in range(4):
            r = ((7, 20, 60), (140, 300, 530))[c & 1][(k + c) % 3]
            yield 2, "symbol %d bytes behind a run, equal except for byte %d, %s" % (r, k, "then literals" if c & 2 else "at the end"), [(LIT, 43, 1), (CPAT, L0, w, 4), (LIT, r, 2), (NEAR, L0 + (k + c) % 3, near, 4)] + ([(LIT, 40, 3)] if c & 2 else []), 0
        for c in range(2):
            yield 2, "two symbols at the end, %d bytes behind a run, equal except for byte %d" % (21 + 280 * c, k), [(LIT, 43, 1), (CPAT, L0, w, 4), (LIT, 21 + 280 * c, 2), (NEAR, 2 * w, near, 4)], 0
        for m in (2, 5):
            yield 2, "run of %d symbols, one equal except for byte %d, more" % (m, k), [(LIT, 41 + k, 1), (CPAT, m * w, w, 4), (NEAR, w, near, 4), (CPAT, 4 * w + k % 3, w, 4), (LIT, 40, 3)], 0
        yield 2, "run starting with a symbol equal except for byte %d" % k, [(LIT, 41 + k, 1), (NEAR, w, near, 4), (CPAT, 7 * w, w, 4), (LIT, 3, 3)], 0
        yield 2, "run ending in a symbol equal except for byte %d" % k, [(LIT, 41 + k, 1), (CPAT, 7 * w, w, 4), (NEAR, w, near, 4)] + ([(LIT, 30, 3)] if k % 2 else []), 0
        for i in range(n if n > 1 else 0):
            segs = []
            for q in range(n + 1):
                segs += [(CPAT, L0, w, 4 + q), (LIT, 2 + q, 30 + q)]
            yield 2, "symbol equal to number %d of %d before except for byte %d" % (i + 1, n + 1, k), segs + [(NEAR, L0 + w, near, 4 + i), (LIT, (3, 140)[k % 2], 2), (CPAT, L0 + w, w, 4 + i), (LIT, 20, 3)], 0


def fam_pow(name, quick):
    """runs, ranges and sizes between the thresholds of the formats and 65536: powers of two and arbitrary lengths"""
    w = ct.width(name)
    if heavy(name) or "low_entropy" in name:
        return
    rnd = random.Random("pow" + name)
    n = 1 if quick else 6
    for b in range(10, 16):
        for d in rnd.sample((-33, -2, -1, 0, 1, 2, 15, 31), 2 * n if quick else 8) if quick else (-33, -2, -1, 0, 1, 2, 15, 31):
            L = ((1 << b) + d) * (w if rnd.random() < 0.4 and b < 14 else 1)
            yield 2, "run of %d bytes between literals" % L, [(LIT, rnd.randint(1, 40), b), (SYM, 1), (RUN, L, pat(name, b + d), 0), (SYM, 1), (LIT, rnd.randint(1, 90), b + 1)], 0
    for b in range(10, 15):
        for d in rnd.sample((-17, -1, 0, 1, 16), n) if quick else (-17, -1, 0, 1, 16):
            yield 2, "range of %d bytes before a run" % ((1 << b) + d), [(RUN, 16 * w, pat(name, 1), 0), (LIT, (1 << b) + d, b), (REF if b % 2 else RUN, 20 * w + d % 3, 0 if b % 2 else pat(name, 1), 0 if b % 2 else 1), (LIT, rnd.randint(0, 40), 3), (SYM, 1)], 0
    for i in range(4 * n):
        L, r = rnd.randint(100, 1100), rnd.randint(100, 1100)
        yield 2, "literals, size %d" % L, [(LIT, L - 2, i), (SYM, 2)], 0
        yield 2, "run of %d bytes behind %d literals, then the end" % (L, r), [(LIT, r, i), (RUN, L, pat(name, i), 0)] + ([(SYM, 1)] if i % 2 else []), 0
        L, r = rnd.randint(500, 20000), rnd.randint(40, 3000)
        yield 2, "runs of %d and %d bytes, %d literals between" % (L, r, r), [(RUN, L, pat(name, i), 0), (SYM, 1), (LIT, r, i), (RUN, r, pat(name, i + 1), 1), (LIT, i * 11, 5)], 0


def fam_mega(name, quick):
    """more than a million: ranges and runs around 2^20 and beyond, in the thorough tier runs of more than 2^24"""
    w = ct.width(name)
    if heavy(name) or "low_entropy" in name or name == "rle8_sh" and quick:
        return
    rnd = random.Random("mega" + name)
    for r in rnd.sample(((1 << 20) - 3, (1 << 20) - 2, (1 << 20) - 1, 1 << 20, (1 << 20) + 1), 1 if quick else 5):
        yield 4, "range of %d bytes" % r, [(RUN, 12 * w, pat(name, 1), 0), (LIT, r, 1), (RUN, 20 * max(w, 2), pat(name, 1), 1), (LIT, 70, 2), (SYM, 1)], 0
    for b in ([20] if quick else [17, 18, 19, 20, 21, 22]) + ([] if quick or name == "rle8_sh" else [24]):
        L = ((1 << b) + rnd.randint(-2, 60)) * (w if w > 1 and b < 21 and rnd.random() < 0.3 else 1)
        yield 4, "run of %d bytes" % L, [(LIT, 30, 1), (RUN, L, pat(name, 1), 0), (SYM, 1), (LIT, 70, 2)], 0


def fam_le(name, quick):
    """low entropy codecs: 0, 1, several, 256 run length symbols; 255/32 byte blocks; the last 256 bytes"""
    runs = [28, 29, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 96, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512]
    for k, L in enumerate(runs):
        yield 1, "one run of %d" % L, [(LIT, 30 + k, 1, 60), (RUN, L, 1, 0), (SYM, 1), (LIT, 300 if k % 2 else 40, 2, 60)], 1
        yield 1, "two runs of %d" % L, [(CRUN, L, 7), (SYM, 1), (LIT, 20, 1, 6), (CRUN, L + 1, 9), (SYM, 1), (LIT, 270 if k % 2 else 30, 2, 6), (CRUN, 20, 7)], 1
        yield 1, "final run of %d" % L, [(LIT, 40, 1, 9), (CRUN, 30, 200), (SYM, 1), (LIT, 3, 5, 9), (CRUN, L, 200)], 1
    for L in (2, 3, 5, 40):
        segs = [s for i in range(256) for s in ((CRUN, L, i),)]
        yield 2, "all 256 symbols in runs of %d" % L, segs + [(SYM, 1)], 1
        yield 2, "all 256 symbols in runs of %d, one symbol free" % L, segs[:255] + [(RUN, L + 1, 1, 0)], 1
        yield 2, "255 symbols in runs of %d" % L, segs[:255] + [(CRUN, L, 3)], 1
    for n in (250, 255, 256, 257, 258, 260, 290, 400):
        yield 2, "size %d" % n, [(CRUN, 20, 1), (SYM, 1), (LIT, n - 41, 3, 20), (CRUN, 20, 1)], 1
        yield 2, "size %d, several symbols" % n, [(CRUN, 20, 1), (CRUN, 17, 5), (SYM, 1), (LIT, n - 78, 3, 20), (CRUN, 20, 2), (CRUN, 20, 5)], 1
    yield 2, "long", [(LIT, 300, 2, 9), (CRUN, 700, 33), (SYM, 1), (LIT, 300, 3, 9), (CRUN, 600, 33), (SYM, 1), (LIT, 100, 3, 9)], 1
    for g in range(14, 20):
        yield 2, "symbol gap %d" % g, [s for i in range(12) for s in ((CRUN, 20 + i, 33), (LIT, g, 3 + i, 30))] + [(SYM, 1), (LIT, 260, 5, 30)], 1


def fam_le_big(name, quick):
    """low entropy codecs: long inputs, more than 65535 of one symbol, long runs of literals and symbols"""
    rnd = random.Random("lebig" + name)
    for L in (65534, 65535, 65536, 65537, 70001):
        yield 3, "run of %d" % L, [(LIT, 30, 1, 60), (CRUN, L, 9), (ALPHA, 1, 8, 3), (LIT, 300, 2, 60)], 1
        yield 3, "final run of %d" % L, [(CRUN, 40, 5), (LIT, 30, 1, 60), (ALPHA, 1, 8, 3), (CRUN, L, 9)], 1
        yield 3, "%d literals between two runs" % L, [(CRUN, 40, 5), (ALPHA, 1, 8, 3), (LIT, L, 1, 60), (CRUN, 60, 5), (LIT, 20, 3, 60)], 1
    for i in range(6 if quick else 40):
        segs = []
        for k in range(rnd.randint(3, 12)):
            segs += [(CRUN, rnd.choice((rnd.randint(1, 40), rnd.randint(200, 3000))), rnd.choice((0, 1, 7, 127, 128, 255))), (LIT, rnd.choice((rnd.randint(1, 20), rnd.randint(200, 2000))), k, rnd.choice((2, 9, 60, 250)))]
        segs.insert(rnd.randint(1, len(segs)), (ALPHA, 1, rnd.choice((0, 6, 254)), 2))
        yield 2, "composed input %d" % i, segs, 1
    for n in uniq(list(range(1, 10)) + [15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 250, 253, 254, 255, 256]):
        first = rnd.choice((0, 1, 100, 255))
        yield 2, "%d different symbols, runs of each length" % n, [(CRUN, rnd.choice((1, 1, 2, 3, 5)) if i % 9 else rnd.randint(2, 40), (first + i) & 255) for i in range(n)] + [(ALPHA, 1, first, min(n, 3)), (CRUN, rnd.choice((30, 250, 254, 255, 256, 300)), (first + n - 1) & 255), (CRUN, rnd.randint(1, 5), first)], 1
    for i in range(30 if quick else 300):
        segs = []
        for k in range(rnd.randint(2, 14)):
            c = rnd.random()
            segs.append((CRUN, rnd.choice((1, 2, 3, 4, 30, 31, 32, 33, 62, 63, 64, 65, 253, 254, 255, 256, 257, 258, 509, 510, 511)) if c < 0.4 else rnd.randint(1, 300), rnd.choice((0, 1, 7, 128, 255))) if c < 0.75 else (LIT, rnd.randint(1, 280), k, rnd.choice((2, 3, 9, 200))))
        segs.insert(rnd.randint(0, len(segs)), (ALPHA, 1, rnd.choice((0, 6, 127, 254)), 3))
        yield 2, "composed runs %d" % i, segs, 1


def fam_sh(name, quick):
    """rle8_sh: block type thresholds 7/14/10/161 and the 8 bit counts on top of them"""
    ts = list(range(1, 30)) + [x for b in (161, 255 + 7, 255 + 14, 255 + 10, 255 + 161, 320, 420) for x in range(b - 4, b + 5)]
    for k, t in enumerate(uniq(ts)):
        yield 1, "copy of %d" % t, [(RUN, 40, 1, 0), (SYM, 1), (LIT, t, 4, 200), (RUN, 30, 1, 1), (SYM, 1)], 0
        yield 1, "run of %d" % t, [(LIT, 3 + k % 60, 2), (RUN, t, 1, 0), (SYM, 1), (LIT, 9, 4), (REF, 20, 0)], 0
        yield 2, "run of %d of the current symbol" % t, [(RUN, 30, 1, 0), (LIT, 8, 4), (REF, t, 0), (SYM, 1), (LIT, k % 12, 5)], 0
        yield 2, "low alphabet copy of %d" % t, [(CRUN, 20, 0x7F), (SYM, 1), (LIT, t, 4, 4), (SYM, 1), (LIT, 6, 5)], 0
    ns = [1, 4, 9, 40, 150, 156, 157, 158, 159, 160, 161, 162, 170, 230, 300, 408, 412, 414, 416, 420, 600, 800]
    for k, n in enumerate(ns if quick else uniq(ns + list(range(5, 200, 6)) + list(range(396, 440)))):
        # the current run symbol (2) makes up a third or a quarter of a block: coded symbol by symbol, the two favourite symbols change
        for at in (0, n // 2, n) if not quick else ((0, n // 2, n)[k % 3],):
            a, b = [(LIT, at, n, 3 + k % 2)] if at else [], [(LIT, n - at, n + 1, 3 + (k + 1) % 2)] if at < n else []
            pre = [(LIT, 3, 1), (CRUN, 30, 2)] if k % 2 else [(CRUN, 12, 3), (CRUN, 2, 1), (CRUN, 16, 2)]
            w = 4 if quick else 5
            yield 1, "coded block of %d bytes, %d free ones of 5 values at %d" % (n + w, w, at), pre + a + [(ALPHA, w, 0, 5)] + b + [(CRUN, 20, 2), (LIT, 2 + k % 5, k, 4), (CRUN, 16, 2)], 0
            yield 1, "coded block of %d bytes, two free ones of 4 values before and behind it" % (n + 2), pre + [(ALPHA, 2, 0, 4), (LIT, n, n + 2, 4), (CRUN, 20, 2), (ALPHA, 2, 0, 4), (LIT, k % 3, k, 3), (CRUN, 20, 2)], 0
    for k in range(12 if quick else 60):
        yield 1, "short copies, free bytes, %d" % k, [(CRUN, 16, 0x7F), (ALPHA, 4, 0x7D, 5), (CRUN, 15 + k, 0x7F), (LIT, k % 6, k, 5), (CPAT, 1 + k % 4, 1, k), (CRUN, 30 - k % 9, 0x7F), (ALPHA, 1, 0x7E, 3), (CRUN, k % 17, 0x7F)], 0
    yield 3, "large copy", [(RUN, 40, 1, 0), (LIT, 3000, 4), (SYM, 1), (RUN, 2000, 1, 1), (LIT, 700, 3, 3)], 0
    yield 3, "run of 70000", [(LIT, 40, 4), (RUN, 70000, 1, 1), (LIT, 70, 3, 3)], 0


def fam_mmtf128(name, quick):
    """rle8_mmtf128: packing widths 2/3/4/8 bit, block counts 32 and 128, null copies, run symbols"""
    B = 16
    for a in (2, 4, 8, 12, 200):
        for nb in (1, 2, 3, 4, 5, 6, 7, 9, 13, 30, 31, 32, 33, 37):
            if quick and nb > 7 and a not in (2, 12):
                continue
            yield 1, "%d blocks, alphabet %d" % (nb, a), [(CRUN, 2 * B, 0), (LIT, nb * B - 1, nb, a), (SYM, 1) if nb in (2, 5) else (ALPHA, 1, 0, 2), (CRUN, 3 * B, 1), (LIT, 7, 3, a)], 0
    for nb in (1, 2, 3, 126, 127, 128, 129, 130):
        yield 1, "run of %d blocks" % nb, [(LIT, B, 1), (CRUN, nb * B, 9), (ALPHA, 1, 8, 3), (LIT, B + 5, 2)], 0
    for s in (0, 1, 2, 3, 200):
        yield 2, "run symbol %d" % s, [(CRUN, 5 * B, s), (CRUN, B, 0), (CRUN, 5 * B, s), (CRUN, 4 * B, (s + 7) & 255), (ALPHA, 1, s, 1), (CRUN, B, s), (CRUN, B, 0), (LIT, 30, 3)], 0
    for period in (2, 3, 4, 5):
        segs = []
        for i in range(6 * period):
            segs += [(CRUN, B, 10 + i % period)]
        yield 2, "period of %d blocks" % period, segs + [(ALPHA, 1, 10, 2), (LIT, 20, 3)], 0
    for n in range(1, 70):
        yield 2, "size %d" % n, [(LIT, n - 1, 3, 5), (ALPHA, 1, 0, 3)], 0
    for t, nb in ((0, 0), (4, 0), (15, 0), (1, 1), (3, 2), (14, 4)):
        yield 1, "any byte at position %d of the rest behind %d blocks" % (t, nb), [(LIT, nb * B + t, nb + t, 7), (CASE, 1, 0, 0)] + ([(LIT, 14 - t, 4, 7)] if t < 14 else []), 0
    for a, nb, at in ((2, 3, 5), (3, 5, 70), (6, 4, 40), (12, 3, 9), (2, 30, 200), (3, 33, 300), (7, 31, 470), (12, 34, 33)):
        pre = [(CRUN, 3 * B, 0)] if a % 2 == 0 else [(LIT, B, 1, a)]
        n = nb * B
        yield 1 if nb < 6 else 2, "%d blocks, alphabet %d, any byte at %d" % (nb, a, at), pre + [(LIT, at % n, nb, a), (CASE, 1, 0, 0) if nb < 6 or not quick else (CASE, 1, at % 256, 24), (LIT, n - 1 - at % n, nb + 1, a)] + ([(CRUN, 3 * B, 1), (LIT, B + 3, 2, a)] if nb % 2 else [(LIT, 5, 3, a)]), 0
    r2 = random.Random("mmtf2")
    for i in range(30 if quick else 300):
        segs, n = [], r2.randint(2, 7)
        f = r2.randrange(n)
        for x in range(n):
            c = r2.random()
            segs += [(CRUN, B * r2.choice((1, 1, 2, 3, 7)), r2.randrange(5))] if c < 0.4 else [(LIT, B * r2.choice((1, 1, 2, 3, 5)), r2.randint(0, 99), r2.choice((2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 40)))]
            if x == f:
                k = r2.randrange(B)
                segs += [(LIT, k, i, 4), (CASE, 1, 0, 0) if i % 3 else (CASE, 2, 0, 12), (LIT, B - 1 - k - (i % 3 == 0 and k < B - 1), i + 1, 3)]
        segs += [(LIT, r2.randrange(B), i, 6)]
        yield 1, "composed blocks %d, any byte" % i, [s for s in segs if s[1]], 0
    rnd = random.Random("mmtf")
    for nb in (63, 64, 65, 100, 255, 256, 257, 600) if quick else (63, 64, 65, 100, 255, 256, 257, 600, 4095, 4096, 5000):
        for a in (2, 4, 7, 12, 200) if not quick else rnd.sample((2, 4, 7, 12, 200), 2):
            yield 2, "%d copied blocks, alphabet %d" % (nb, a), [(CRUN, B, 0), (LIT, nb * B, nb, a), (ALPHA, 1, 0, 3), (LIT, B - 1, 3, a), (CRUN, 3 * B, 1), (LIT, 7, 3, a)], 0
        yield 2, "run of %d blocks" % nb, [(LIT, B, 1), (CRUN, nb * B, 9), (ALPHA, 1, 8, 3), (LIT, B + 5, 2)], 0
    for i in range(30 if quick else 120):
        segs = []
        for k in range(rnd.randint(3, 14)):
            segs.append((CRUN, B * rnd.choice((1, 1, 2, 3, 5, 40, 130)) + rnd.choice((0, 0, 0, 3)), rnd.choice((0, 0, 1, 2, 9, 200, 255))) if rnd.random() < 0.5 else (LIT, B * rnd.choice((1, 2, 3, 6, 7, 13, 32, 40)) + rnd.choice((0, 0, 0, 5)), k, rnd.choice((2, 3, 4, 7, 8, 15, 200))))
        segs = segs + [(ALPHA, 1, rnd.choice((0, 1, 8, 254)), 2), (LIT, rnd.choice((7, B - 1, B + 9)), 3, 3)][:rnd.randint(1, 2)]
        yield 2, "composed input %d" % i, segs, 0


def fam_cross(name, quick):
    """run length threshold x literal range threshold x position x same or other symbol than the run before"""
    w = ct.width(name)
    if heavy(name) or "low_entropy" in name:
        return
    Ls = uniq(thr(name, [16, 32, 64, 128], -1, 6) + thr(name, [256], -1, 8))
    if "short" in name or name == "rle8_sh":
        Ls = uniq(list(range(2, 6 * w + 12)) + Ls)
    L0 = max(6 * w, 14)
    for k, L in enumerate(Ls):
        rs = (130, 260, 300, 5, 20, 70, 513)
        for c in range(4):
            for r in rs[(k + c) % len(rs):][:1] if quick else rs:
                segs = [(LIT, 9 + k % 13, 1), (RUN, L0 + k % 3, pat(name, 1), 0), (LIT, r, 2)]
                segs += [(REF, L, 0, 0)] if c & 1 else [(RUN, L, pat(name, 2), 1)]
                segs += [(LIT, 6 + k % 80, 3), (SYM, 1)] if c & 2 else []
                yield 2, "run of %d bytes of %s symbol, %d bytes behind the previous run, %s" % (L, "the same" if c & 1 else "another", r, "then literals" if c & 2 else "at the end"), segs, 0


def fam_partial(name, quick):
    """a symbol with a table entry, later a prefix of it in front of whole symbols, and a cut off symbol behind them"""
    w = ct.width(name)
    if w == 1:
        return
    L0 = max(6 * w, 14)
    ks = range(0, w) if w < 9 or not quick else (0, 1, 2, 7, 8, 9, 14, 15)
    i = 0
    for k in ks:
        for m in (0, 1, 2, 3):
            for rest in uniq([0, 1, w // 2, w - 1]):
                for t in (0, 1, 33, 140):
                    i += 1
                    if quick and i % 3 and not ("greedy" in name and t in (0, 33)):
                        continue
                    segs = [(LIT, 8, 1), (CPAT, L0, w, 4), (LIT, (3, 20, 40)[i % 3], 2), (CPAT, k, w, 4), (CPAT, m * w + rest, w, 4)] + ([(SYM, 1), (LIT, t, 3)] if t else [])
                    yield 2, "prefix of %d bytes, %d whole symbols, %d bytes, then %s" % (k, m, rest, "%d literals" % t if t else "the end"), [s for s in segs if s[1]], 0


def fam_mix(name, quick):
    """composed inputs: pseudo random skeletons of runs, references, literals and partial symbols at thresholds, with free bytes"""
    if heavy(name) or "low_entropy" in name:
        return
    w = ct.width(name)
    h = histogram(name)
    rnd = random.Random("mix" + name)
    edge = [1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 67, 126, 127, 128, 129, 130, 132, 254, 255, 256, 257, 258, 260, 300]
    for i in range(24 if quick else 600):
        segs, syms, free, npat = [], 0, 0, 0
        for s in range(rnd.randint(3, 9)):
            t = rnd.random()
            e = rnd.choice(edge if t < 0.9 else edge[:20])
            L = e * w + rnd.choice((0, 0, 1, w - 1, w + 1)) if rnd.random() < 0.6 else e + rnd.randint(0, 3 * w)
            if t < 0.30:
                segs.append((LIT, e + rnd.randint(-1, 1) or 1, rnd.randint(0, 99)))
            elif t < 0.55:
                segs.append((CPAT, L, w, rnd.randint(1, 1 if h and rnd.random() < 0.7 else 5)))
            elif t < 0.70 and npat < 2:
                segs.append((RUN, L, pat(name, 1), npat))
                npat += 1
            elif t < 0.85 and npat:
                segs.append((REF, L, rnd.randrange(npat), rnd.choice((0, 0, w - 1, w // 2))))
            elif free < 2:
                segs.append((SYM, 1))
                free += 1
            else:
                segs.append((LIT, rnd.choice(edge), rnd.randint(0, 99)))
        if not free and not npat:
            segs.insert(rnd.randint(0, len(segs)), (SYM, 1))
        yield 2, "composed input %d" % i, [s for s in segs if s[1] > 0], 0


def fam_long(name, quick):
    """composed inputs of 20 to 60 runs and ranges over up to 12 symbols (histories of the symbol tables), one or two free bytes"""
    if heavy(name) or "low_entropy" in name:
        return
    w = ct.width(name)
    rnd = random.Random("long" + name)
    for i in range(36 if quick else 400):
        segs = []
        nsym = rnd.choice((2, 3, 4, 6, 8, 9, 12))
        n = rnd.randint(20, 60)
        free = rnd.sample(range(n), 2)
        for s in range(n):
            c = rnd.randint(1, nsym) if rnd.random() < 0.7 else rnd.choice((1, 2))
            segs.append((CPAT, (rnd.choice((2, 3, 4, 5, 6, 8, 9, 12, 17, 20, 33)) * w if rnd.random() < 0.5 else rnd.randint(max(4, 2 * w), 40 + 4 * w)) + (0 if rnd.random() < 0.5 else rnd.randint(0, w)), w, c))
            if rnd.random() < 0.6:
                segs.append((LIT, rnd.choice((1, 2, 3, 5, 6, 7, 8, 13, 14, 15, 16, 17, 30, 31, 32, 33, 40, 65, 70, 127, 128, 135, 257)), rnd.randint(0, 99)))
            if s in free:
                segs.append((SYM, 1))
        yield 2, "history %d: %d runs of %d symbols" % (i, n, nsym), segs, 0


def families(name):
    f = [fam_tiny, fam_sizes]
    if "low_entropy" in name:
        return f + [fam_le, fam_le_big]
    if name == "rle8_mmtf128":
        return f + [fam_mmtf128]
    if name == "rle8_sh":
        return f + [fam_sh, fam_runs, fam_ranges, fam_lut, fam_free, fam_pow, fam_mega, fam_cross, fam_mix, fam_edge, fam_long]
    return f + [fam_runs, fam_ranges, fam_lut, fam_free, fam_big, fam_pow, fam_mega, fam_cross, fam_partial, fam_mix, fam_edge, fam_long, fam_near]


def limits(quick, prio):
    return dict(paths=1500 if quick else 60000, sec=6 if quick else 60)


def codec_jobs(entry, names, quick, mk, fams=None, levels=None, keep=None):
    """mk(name, level, k, prio) -> (dec, ia, oa, tail, x, y) or None; keep(name, level, k, prio): job selection"""
    jobs = []
    for ni, name in enumerate(names):
        lvs = levels(name) if levels else ct.enc_levels(name)
        for li, level in enumerate(lvs):
            k = 0
            for fam in (fams or families)(name):
                for prio, label, segs, opts in fam(name, quick):
                    k += 1
                    if quick and fam is fam_edge:
                        if entry != "h_roundtrip" or (k + ni) % len(lvs) != li:
                            continue
                    elif quick and fam is fam_near:
                        if entry != "h_roundtrip" or "symlut" in name and (k + ni) % len(lvs) != li:
                            continue
                    elif keep and not keep(ni, li, k, prio, fam):
                        continue
                    lv = (1, 5, 6)[k % 3] if level < 0 else level
                    if level == 0 and prio > 0 and fam is not fam_edge and (k + ni) % 3:
                        continue
                    m = mk(name, lv, k, prio)
                    if m is None:
                        continue
                    dec, ia, oa, tail, x, y = m
                    full = len(segs) == 1 and segs[0][0] == SYM and segs[0][1] <= 1
                    if not full:
                        segs = restrict(name, segs)
                    j = dict(entry=entry, params=P(ct.ID[name], lv, dec, ia, oa, tail, x, y, segs), opts=opts, prio=(prio, k), label="%s, encoder level %d: %s" % (name, lv, label), codec=name, fam=fam.__name__)
                    j.update(limits(quick, prio))
                    jobs.append(j)
    return jobs


def thin(n):
    """in the quick tier sibling formats share the low priority jobs"""
    m = n // 3
    return lambda ni, li, k, prio, fam: prio < 1 or prio < 3 and (fam is fam_lut or (k + ni + li) % m == 0) or prio > 2 and (fam is fam_mega and (k + ni + li) % 2 == 0 or fam is fam_big and (k + ni + li) % (n // 2 + 1) == 0 or fam not in (fam_big, fam_mega) and (k + ni * 5 + li * 3) % n == 0)


def roundtrip(names, quick, sparse=1, paths=0):
    def mk(name, level, k, prio):
        ia, oa = ALIGNS[k % len(ALIGNS)]
        return ALLDEC, ia, oa, -1, 0, 0
    jobs = codec_jobs("h_roundtrip", names, quick, mk, keep=thin(sparse) if quick and sparse > 1 else None)
    if quick and paths:
        for j in jobs:
            if j["fam"] in ("fam_lut", "fam_ranges"):
                j["paths"] = paths
    return jobs


def raw(entry, codec, enc, dec, segs, label, ia=0, oa=0, tail=0, x=0, y=0, opts=0, prio=1, quick=True, name=""):
    j = dict(entry=entry, params=P(codec, enc, dec, ia, oa, tail, x, y, segs), opts=opts, prio=(prio, 0), label=label, codec=name, fam=entry)
    j.update(limits(quick, prio))
    return j


XF = ["mmtf128", "mmtf256", "bitmmtf8", "bitmmtf16"]


def transform_segs(k, quick):
    B = 16 if k == 0 else 32
    if k >= 2:  # bitwise transforms: no data dependent control flow, fully symbolic
        for n in list(range(1, 40)) + ([] if quick else [64, 100, 200]):
            yield "all inputs of %d bytes" % n, [(SYM, n)]
        return
    for n in range(1, 3 * B + 4):
        yield "size %d" % n, [(LIT, n - 1, n, 6), (ALPHA, 1, 0, 4)]
    for r in range(8):
        yield "one free byte of 32 values from %d, lane %d" % (32 * r, 5 * r % B), [(LIT, 5 * r % B, 3, 2), (ALPHA, 1, 32 * r, 32), (LIT, 2 * B - 1 - 5 * r % B, 4, 2)]
    for b in (1, 2, 3):
        yield "free byte in block %d and its successor" % b, [(LIT, b * B, 3, 5), (ALPHA, 1, 0, 6), (LIT, B - 1, 4, 5), (ALPHA, 1, 0, 6), (LIT, B + 3, 5, 5)]
    for a in (0, 60, 250):
        yield "small alphabet at %d" % a, [(CRUN, B, a), (ALPHA, 1, a, 4 if a < 200 else 2), (CRUN, B - 1, a + 1), (ALPHA, 1 if quick else 2, a, 3 if a < 200 else 2), (CRUN, B + 5, a)]
    for n, t, r in ((0, 0, 0), (0, 4, 2), (0, B - 2, 0), (1, 0, 0), (1, 6, 3), (1, B - 2, 0), (2, 1, 0), (3, B // 2, 4), (7, 2, 1)):
        yield "any byte at position %d of the rest behind %d blocks" % (t, n), [(LIT, n * B + t, n + t, 7 if n < 7 else 256), (CASE, 1, 0, 0) if n < 7 else (SYM, 1), (LIT, r, 4, 7)]
    yield "a byte of 32 values in the rest behind 20 blocks", [(LIT, 20 * B + 3, 7), (ALPHA, 1, 224, 32)]
    for n, t in ((0, 0), (0, 7), (1, B - 1), (1, B // 2 + 1), (2, 3)):
        yield "any byte at position %d of block %d" % (t, n), [(LIT, n * B + t, n + t, 5), (CASE, 1, 0, 0), (LIT, 2 * B - 1 - t, 4, 4)]
    yield "everything moves", [(LIT, 20 * B, 9), (ALPHA, 1, 7, 3), (LIT, B + 9, 10)]
    yield "two free bytes in one lane", [(LIT, B, 9), (ALPHA, 1, 0, 9), (LIT, B - 1, 10), (ALPHA, 1, 0, 9), (LIT, B - 1, 11)]


def p07(q):
    jobs = roundtrip([n for n in ct.OTHER if "low_entropy" in n], q)
    k = 0
    for prio, label, segs, opts in list(fam_le("rle8_low_entropy", q)) + [x for x in fam_le_big("rle8_low_entropy", q) if x[0] == 2]:
        segs = restrict("rle8_low_entropy", segs)
        k += 1
        ia, oa = ALIGNS[k % len(ALIGNS)]
        n = sum(s[1] for s in segs)
        for ss in (1, 2, 3, 7):
            if ss <= n and (not q or (k + ss) % 2 == 0):
                jobs.append(raw("h_rle8m", 0, 1, ALLDEC, segs, "rle8m, %d sub sections: %s" % (ss, label), ia, oa, x=ss, opts=1, prio=prio, quick=q))
        for x in (0, 1):
            for y in (0, 1):
                if not q or (k + x + 2 * y) % 4 == 0:
                    if y and any(s[0] in (CRUN, ARUN) and s[1] > 32 for s in segs) is None:
                        continue
                    jobs.append(raw("h_le_info", 0, 1, ALLDEC, segs, "low entropy building blocks (%s, %s): %s" % ("max frequency" if x else "all", "short" if y else "long", label), ia, oa, x=x, y=y, opts=1, prio=prio, quick=q))
    for n in range(1, 24):
        for ss in range(1, n + 1) if n < 9 else (1, 2, 3, 5, n // 2, n - 1, n):
            jobs.append(raw("h_rle8m", 0, 1, ALLDEC, [(LIT, n - 1, n, 2), (SYM, 1)], "rle8m, %d bytes in %d sub sections" % (n, ss), 0, 3, x=ss, opts=1, prio=2, quick=q))
    for ss in (64, 127, 128, 129, 200, 255, 256, 257, 300, 600):
        for n in (ss, ss + 1, 2 * ss - 1, 3 * ss + 7, 40 * ss + 1):
            if not q or n < 4000:
                jobs.append(raw("h_rle8m", 0, 1, ALLDEC, [(LIT, n // 2, n, 3), (ALPHA, 1, 0, 3), (CRUN, n - n // 2 - 1, 2)], "rle8m, %d bytes in %d sub sections" % (n, ss), 0, 3, x=ss, opts=1, prio=2, quick=q))
    for n in (1, 2, 3):
        jobs.append(raw("h_rle8m", 0, 1, ALLDEC, [(SYM, 1)] + ([(ALPHA, n - 1, 0, 3)] if n > 1 else []), "rle8m, inputs of %d bytes" % n, x=1, opts=1, prio=0, quick=q))
    return jobs


def p09(q):
    jobs = roundtrip(["rle8_mmtf128"], q)
    for k, nm in enumerate(XF):
        i = 0
        for label, segs in transform_segs(k, q):
            i += 1
            combos = ((0, 0, 5), (0, 0, 1), (0, 0, 3), (1, 7, 5), (16, 32, 5), (32, 0, 4), (3, 5, 1), (0, 16, 5), (16, 0, 5), (0, 8, 5), (8, 0, 5), (16, 16, 4), (48, 0, 1), (32, 48, 5), (0, 1, 5), (4, 0, 5), (0, 16, 1), (16, 0, 1), (8, 0, 1), (0, 8, 1))
            for c, (ia, oa, lv) in enumerate(combos):
                if k >= 2 and lv != 5 or q and (i + c) % (5 if k < 2 else 3):
                    continue
                jobs.append(raw("h_transform", k, lv, ALLDEC, segs, "%s, level %d, alignment %d/%d: %s" % (nm, lv, ia, oa, label), ia, oa, opts=1, prio=1 if i % 3 == 0 else 2, quick=q))
        for lv in (0, 1, 3, 5):
            for d in (0, 1):
                jobs.append(raw("h_transform_refuse", k, lv, 0, [], "%s refuses small outputs, level %d" % (nm, lv), x=d, prio=0, quick=q))
    return jobs


def p10(q):
    def mk(name, level, k, prio):
        ia, oa = ALIGNS[k % len(ALIGNS)]
        return 0, ia, oa, 0, (0, 0, 0, 1, 77)[k % 5], 0
    jobs = codec_jobs("h_bounds", ct.NAMES, q, mk, fams=lambda n: [fam_tiny, fam_sizes, fam_expand] if "low_entropy" not in n and n != "rle8_mmtf128" else [fam_tiny, fam_sizes, fam_le if "low" in n else fam_mmtf128, fam_expand], keep=(lambda ni, li, k, prio, fam: prio < 2 or (k + ni + li) % 3 == 0) if q else None)
    for name in ct.NAMES:
        jobs.append(raw("h_bounds_fn", ct.ID[name], 1, 0, [], "%s: advertised capacity, every 32 bit size" % name, x=12, prio=0, quick=q, name=name))
    for k, (prio, label, segs, opts) in enumerate(list(fam_le("rle8_low_entropy", q)) + list(fam_expand("rle8_low_entropy", q))):
        segs = restrict("rle8_low_entropy", segs)
        n = sum(s[1] for s in segs)
        for ss in (1, 2, 13, n // 2, n):
            if 1 <= ss <= n and ss <= 300 and (not q or (k + ss) % 3 == 0):
                jobs.append(raw("h_rle8m", 0, 1, 32, segs, "rle8m capacity, %d sub sections: %s" % (ss, label), x=ss, y=1, opts=1, prio=prio, quick=q))
    return jobs


def fam_changing(name, quick):
    """many short runs of ever changing symbols, directly behind each other or with small gaps"""
    w = ct.width(name)
    i = 0
    for L in (range(2, 17) if w == 1 else [w * x + d for x in range(1, 6) for d in (0, 1)]):
        for g in (0, 1, 2, 3, 8):
            i += 1
            for kinds in ((2, 9, 40)[i % 3],) if quick else (2, 5, 9, 40):
                n = (900 if w == 1 else 400) // (L // w + g)
                yield 1, "%d runs of %d bytes of %d symbols, gaps of %d" % (n, L, kinds, g), [s for j in range(n) for s in ((CPAT, L, w, 1 + j % kinds), (LIT, g, j)) if s[1]] + [(ALPHA, 1, 5, 2)], 0


def fam_expand(name, quick):
    """inputs that expand: runs that are barely worth encoding behind ranges that barely do not fit the small range field"""
    w = ct.width(name)
    h = histogram(name)
    reps = 40 if quick else 200
    if "low_entropy" in name:
        for L in (300, 2000, 20000):
            yield 1, "long final run of an otherwise unrepeated symbol (%d)" % L, [s for i in range(L // 100) for s in ((CRUN, 1, 9), (CRUN, 1, 20 + i % 50))] + [(LIT, 9, 4, 5), (CRUN, L, 9), (ALPHA, 1, 9, 2)], 1
        for i in (2, 3):
            yield 1, "256 symbols, runs of %d at the end" % i, [(CRUN, 1, v) for v in range(256)] + [(CRUN, i, v) for v in range(255, 200, -1)] + [(ALPHA, 1, 200, 3)], 1
        return
    if name == "rle8_mmtf128":
        for nb in (32, 33, 40):
            yield 1, "%d copied blocks, one run block" % nb, [s for i in range(3) for s in ((LIT, 16 * nb, 3 + i, 250), (CRUN, 16, 9), (CRUN, 16, 9))] + [(ALPHA, 1, 0, 2)], 0
        return
    if name == "rle8_sh":
        for r, L in ((263, 10), (262, 10), (264, 11), (417, 14), (416, 11), (270, 8)):
            yield 1, "ranges of %d, runs of %d" % (r, L), [s for i in range(reps) for s in ((LIT, r, 3 + i, 250), (CRUN, L, 5 + i % 3))] + [(ALPHA, 1, 5, 2)], 0
        yield 1, "literals", [(LIT, 9000, 3), (ALPHA, 1, 5, 2)], 0
        yield from fam_changing(name, quick)
        return
    ls = range(max(2, w), 3 * w + 9) if w < 8 else (w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 2 * w + 7, 3 * w, 3 * w + 5)
    for L in ls:
        for r in (62, 63, 64, 125, 127, 132, 255, 256, 257, 260):
            z = 1 if (L + r) % 5 == 0 else 2
            kinds = (lambda i: 1) if h else (lambda i: 1 + i % 9)
            yield z, "%d ranges of %d bytes, runs of %d bytes" % (reps, r, L), [s for i in range(reps) for s in ((LIT, r, 3 + i), (CPAT, L, w, kinds(i)))] + [(ALPHA, 1, 5, 2)], 0
    yield from fam_changing(name, quick)
    for L, r in ((3 * w + 4, 65532), (3 * w + 4, 65540)):
        yield 4, "range of %d bytes, run of %d bytes" % (r, L), [s for i in range(4) for s in ((LIT, r, 3 + i), (CPAT, L, w, i + 1))] + [(ALPHA, 1, 5, 2)], 0


def p11(q):
    def mk(name, level, k, prio):
        ia, oa = ALIGNS[(k * 3) % len(ALIGNS)]
        return ALLDEC, ia, oa, 0, (0, 0, 1, 200)[k % 4], int(k % 7 == 0)
    def keep(ni, li, k, prio, fam):
        return prio < 1 or (k * 5 + ni * 3 + li) % (11 if fam is fam_cross else 4 if prio < 3 else 17 if fam is not fam_big else 29) == 0
    return codec_jobs("h_contain", ct.NAMES, q, mk, keep=keep if q else None, levels=lambda n: [5])


SMALL = lambda w: [[(LIT, 1, 3)], [(LIT, 30, 3), (CPAT, 12 * w, w, 3), (LIT, 9, 2)], [(CPAT, 20 * w + 40, w, 4), (LIT, 3, 1)]]


def p12(q):
    jobs = []
    def mk(name, level, k, prio):
        return (1, 3, 5, 6)[k % 4], 0, 0, 0, k % 3, 0
    jobs += codec_jobs("h_header", ct.NAMES, q, mk, keep=(lambda ni, li, k, prio, fam: prio == 0 or (k + ni) % (17 if fam is fam_cross else 6 if prio < 3 else 40) == 0) if q else None, levels=lambda n: [-1] if ct.one_encoder(n) else [1, 5])
    for name in ct.NAMES:
        for i, segs in enumerate(SMALL(ct.width(name))):
            for x in (0, 1, 2):
                for lv in (1, 2, 3, 4, 5, 6):
                    jobs.append(raw("h_header", ct.ID[name], 5, lv, segs, "%s: rejection, case %d, input %d, decoder level %d" % (name, x, i, lv), x=x, prio=0, quick=q, name=name))
    for n in (1, 5, 40, 300):
        for ss in (1, 2, 5):
            if ss <= n:
                jobs.append(raw("h_rle8m_reject", 0, 1, 0, [(LIT, n - 1, 3, 5), (ALPHA, 1, 0, 3)], "rle8m: rejection, %d bytes, %d sub sections" % (n, ss), x=ss, prio=0, opts=1, quick=q))
    return jobs


def p13(q):
    jobs = []
    for name in ct.NAMES:
        for lv in (0, 1, 2, 5, 6):
            for x in (0, 1, 2, 3, 4, 5):
                jobs.append(raw("h_refuse", ct.ID[name], lv, 0, [], "%s, level %d, case %d, every size and capacity" % (name, lv, x), x=x, prio=x, quick=q, name=name))
    jobs.append(dict(raw("h_rle8m_refuse", 0, 1, 0, [], "rle8m, every size, capacity and number of sub sections", prio=0, quick=q), sec=60))
    for x, ys in enumerate(((0, 1), (0,), (0, 1, 2), (0, 1, 2), (0, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2), (0, 1, 3), (1, 3))):
        for y in ys:
            jobs.append(raw("h_le_refuse", 0, 1, 0, [], "low entropy building block %d, missing buffer %d, every size and capacity" % (x, y), ia=(x * 5) % 8, x=x, y=y, prio=0, quick=q))
    for k, nm in enumerate(XF):
        for lv in (0, 1, 3, 5):
            for d in (0, 1):
                jobs.append(raw("h_transform_refuse", k, lv, 0, [], "%s, level %d, direction %d, every size and capacity" % (nm, lv, d), x=d, prio=0, quick=q))
    return jobs


def strict_input(name):
    return ct.width(name) == 1


def p14(q):
    def mk(name, level, k, prio):
        ia, oa = ALIGNS[k % len(ALIGNS)]
        return 0, ia, oa, 0 if strict_input(name) else 1, 0 if strict_input(name) else 16, 0
    def keep(ni, li, k, prio, fam):
        return fam is not fam_big and (prio < 1 or (k * 5 + ni * 3 + li) % (19 if fam is fam_cross else 8 if prio < 3 else 13) == 0)
    jobs = codec_jobs("h_pure", ct.NAMES, q, mk, keep=keep if q else None)
    for name in ct.NAMES:  # probes of the known finding: what lies behind the input of the multi byte codecs
        if not strict_input(name):
            w = ct.width(name)
            jobs.append(dict(raw("h_pure", ct.ID[name], 1, 0, [(LIT, 40, 1)], "%s: dependence on bytes behind the input" % name, x=16, prio=0, quick=q, name=name), probe="tail"))
    return jobs


def p15(q):
    return [raw("h_cpu", 0, 0, 0, [], "every cpuid / xgetbv answer", prio=0, quick=q), raw("h_cpu_override", 0, 0, 0, [], "every cpuid / xgetbv answer, sets disabled afterwards", prio=0, quick=q)]


def p16(q):
    jobs = []
    for ni, name in enumerate(ct.NAMES):
        w = ct.width(name)
        T = [[(LIT, 70 + w, 1), (CPAT, 40 * w, w, 3), (LIT, 131, 2), (CPAT, 9 * w + 64, w, 4), (ALPHA, 1, 0, 3), (LIT, 40, 3)], [(CPAT, 300, w, 5), (ALPHA, 1, 0x40, 3), (CPAT, 200 + w, w, 6), (LIT, 65, 4)], [(LIT, 17, 9, 20), (CRUN, 90, 0), (ALPHA, 1, 0, 3), (LIT, 33, 8, 20), (CRUN, 31, 0xFF), (LIT, 5, 3, 20), (CRUN, 64, 0)]]
        for a in range(0, 64) if not q else [x for x in range(64) if (x + ni) % 4 == 0 or x < 2]:
            for t, segs in enumerate(T):
                if q and (a + t) % 3 and a > 1:
                    continue
                jobs.append(raw("h_roundtrip", ct.ID[name], (1, 5)[(a + t) % 2], ALLDEC | 1, segs, "%s, input and stream at %d, output at %d mod 64, input %d" % (name, (a * 7) % 64, a, t), (a * 7) % 64, a, tail=0, opts=1, prio=1 + (a % 5), quick=q, name=name))
    for k, nm in enumerate(XF):
        for i, (label, segs) in enumerate(transform_segs(k, q)):
            for c, (ia, oa) in enumerate(((0, 0), (16, 32), (1, 0), (0, 9), (0, 16), (16, 0), (8, 8), (48, 32))):
                if (i + c) % 4 == 0 or not q:
                    jobs.append(raw("h_transform_levels", k, 0, ALLDEC, segs, "%s, alignment %d/%d: %s" % (nm, ia, oa, label), ia, oa, opts=1, prio=2, quick=q))
    return jobs


BITPACK = ["3_3 aligned", "3_3 unaligned", "3_6 aligned", "3_6 unaligned", "2 aligned", "2 unaligned", "1 aligned", "1 unaligned", "4 aligned", "4 unaligned", "2 m128i", "3 m128i", "4 m128i"]


def p17(q):
    jobs = []
    for k, nm in enumerate(BITPACK):
        units = range(0, 70 if q else 140) if k in (8, 9) else range(0, 15 if q else 40) if k > 9 else range(0, 4 if q else 10)
        for d in ([k, k ^ 1] if k < 10 else [k]):
            for u in units:
                for ia, oa in ((0, 0), (1, 3)) if k > 9 or k % 2 and d == k else ((0, 0),):
                    jobs.append(raw("h_bitpack", k, 0, 0, [], "pack %s, unpack %s, %d units, alignment %d/%d, every value" % (nm, BITPACK[d], u, ia, oa), ia, oa, x=u, y=d, prio=1, quick=q))
    return jobs


def cli(entry, label, x, y, *more, quick=True, fam=None):
    j = dict(entry=entry, params=[0] * 6 + [x, y] + list(more), opts=0, prio=(1, 0), label=label, codec="", fam=fam or entry)
    j.update(limits(quick, 1))
    j.update(paths=max(j["paths"], 8000), sec=max(j["sec"], 30))
    return j


FAULTS = ["no fault", "an encoder fails", "a decoder fails", "a decoder writes nothing", "a decoder writes a wrong byte", "a decoder reports a wrong size"]


def p18(q):
    jobs = []
    for n in (1, 4, 33, 100) + (() if q else (7, 64, 161, 300)):
        for rot in range(7):
            jobs.append(cli("h_cli_test", "--test, %d bytes, no fault, bounds %d" % (n, rot), n, 0, 0, rot, rot % 3, rot == 5, quick=q))
        for f in (1, 2, 3, 4):
            for c in range(0, 120, 8):
                for runs in ((c // 8 + f + n) % 3,) if q else (0, 1, 2):
                    jobs.append(cli("h_cli_test", "--test, %d free bytes, %s (codecs %d..%d), %d runs" % (n, FAULTS[f], c, c + 7, runs), n, f, c, (c // 8 + n) % 7, runs, (c // 8 + f) % 4 == 1, quick=q))
    for f in range(6):
        for c in list(range(0, 120, 8)) + [120 * k + 8 * ((k + f) % 15) for k in ((1, 27, 40, 64, 130, 160) if q else range(1, 300))]:
            jobs.append(cli("h_cli_fuzz", "fuzzer: %s in one of the codec runs %d..%d" % (FAULTS[f], c, c + 7), c, f, quick=q))
    for n in list(range(0, 140)) + [159, 160, 161, 191, 192, 193, 255, 256, 257] + ([] if q else list(range(140, 330))):
        for a in (0, 32, 16, 1) if not q or n % 4 < 2 or n > 120 else (0, 16):
            jobs.append(cli("h_cli_memeq", "comparison of %d bytes, alignment %d, any byte changed in any way" % (n, a), n, a, quick=q))
    return jobs


def p19(q): return [cli("h_cli_simd", "--max-simd %d of 0..8, arguments %d, every cpuid answer" % (c, v), c, v, quick=q) for c in range(9) for v in range(3)]


def p20(q):
    jobs = [cli("h_cli_unknown", "unknown option of %d characters, %d following" % (n, f), n, f, quick=q) for n in range(0, 24) for f in (0, 1)]
    for m in range(7):
        for b in range(9):
            for o in ((m + b) % 8,) if q else range(8):
                jobs.append(cli("h_cli_select", "selection: mode %d, symbol size %d, every alignment, single, packed, short, greedy and LUT option, order %d" % (m, b, o), m, b, o, 63, quick=q))
    return jobs


def fam_effect(name, quick):
    """runs of at least 128 bytes (256 for wide symbols) anywhere, at every position, before and after literals; and no run at all"""
    w = ct.width(name)
    one = "single" in name or "max_freq" in name
    last = name == "rle8_sh"  # stores a run at the very end of the input as literals
    pt = 1 if w == 1 else w | 1 << 8
    base = 128 if w < 8 else 256
    Ls = list(range(base, base + 2 * w + 8)) + [x + d for x in (255, 256, 257, 258, 300, 511, 512, 513, 1000, 2047, 4096) for d in range(0, w, max(1, w // 3))] + [16384, 32767, 32768, 32770, 32776, 40000, 65535, 65536, 65537, 65541, 65544, 70000, 131080]
    for k, L in enumerate(uniq(Ls)):
        if L < base or heavy(name) and L > 5000:
            continue
        a, b = (0, 1, 5, 17, 40, 64, 131, 300)[k % 8], (1, 20, 33, 0, 70, 200, 9, 270)[(k // 2) % 8]
        if last and b < 3 or not a and not b:
            b = 3
        p = 1 if L < 6000 else 3
        yield p, "run of %d bytes at %d, %d bytes behind it" % (L, a, b), [(LIT, a, 1), (RUN, L, pt, 0), (LIT, b, 2)], 0
        for e in (1, 2) if L > 6000 and not last else ():
            yield p, "run of %d bytes at %d, %d bytes behind it" % (L, a + e, e), [(LIT, a + e, 1), (RUN, L, pt, 0), (LIT, e, 2)], 0
        if k % 3 == 0:
            yield p, "run of %d bytes at %d between free bytes" % (L, a + 1), [(LIT, a, 1), (SYM, 1), (RUN, L, pt, 0), (SYM, 1), (LIT, b + 1, 2)], 0
    for k, a in enumerate(list(range(0, 80)) + [x + d for x in (127, 255, 511, 1023) for d in range(4)] + [65534, 65536, 66000]):
        if heavy(name) and a > 5000:
            continue
        yield 2 if a < 6000 else 3, "run at %d" % a, [(LIT, a, 1), (RUN, base + 2 * w + a % 7, pt, 0), (LIT, 3 + a % 40, 2)], 0
    for m in (2, 3, 5, 8):
        for g in (0, 1, 4, 19, 70, 260):
            kinds = 1 if one else m
            segs = []
            for i in range(m):
                segs += [(RUN, base + 3 * i + w, pt, i) if i < min(kinds, 2) else (CPAT, base + 3 * i + w, w, i + 1) if not one else (REF, base + 3 * i + w, 0, 0), (LIT, g, 9 + i)]
            yield 2, "%d runs, gaps of %d" % (m, g), segs + [(LIT, 3, 9)], 1
            yield 2, "%d runs of one symbol, gaps of %d" % (m, g), [s for i in range(m) for s in ((RUN if i == 0 else REF, base + 5 * i + w, pt if i == 0 else 0, 0), (LIT, max(1, g), 9 + i))] + [(LIT, 3, 9)], 1
    for n in list(range(2, 40)) + [100, 255, 256, 257, 1000, 5000]:
        yield 2, "%d bytes without a run" % n, [(LIT, n - 1, n), (SYM, 1)], 0


def p21(q):
    jobs = []
    for ni, name in enumerate(ct.NAMES):
        w = ct.width(name)
        for li, level in enumerate(ct.enc_levels(name)):
            for k, (prio, label, segs, opts) in enumerate(fam_effect(name, q)):
                if q and (k * 5 + ni * 3 + li * 7) % (1 if prio < 3 else 3):
                    continue
                lv = (1, 5, 6)[k % 3] if level < 0 else level
                lit = sum(s[1] for s in segs if s[0] in (SYM, LIT))
                run = sum(s[1] for s in segs) - lit
                m = sum(1 for s in segs if s[0] not in (SYM, LIT))
                k_ = 40 + 2 * w + m * (16 + 3 * w) + (lit // 64 if name in ("rle8_sh", "rle8_mmtf128") else min(lit // 64, 8))
                if "low_entropy" in name:
                    k_ = 320 + m * 24 + run // (12 if "short" in name else 60) + lit // 16
                if name == "rle8_mmtf128":
                    k_ += m * 32 + 1
                ia, oa = ALIGNS[k % len(ALIGNS)]
                segs = restrict(name, [s for s in segs if s[1] > 0])
                if heavy(name):  # known run symbols, a free byte of 3 values behind them
                    segs = [(CRUN, s[1], 37 * k & 255) if s[0] in (RUN, REF) else (LIT, 1, k) if s[0] == SYM else s for s in segs] + [(ALPHA, 1, 0, 3)]
                j = dict(entry="h_effect", params=P(ct.ID[name], lv, 0, ia, oa, 0, k_, lit, segs), opts=opts, prio=(prio, k), label="%s, encoder level %d: %s: at most %d bytes" % (name, lv, label, k_ + lit), codec=name, fam="fam_effect")
                j.update(limits(q, prio))
                jobs.append(j)
    return jobs


def conc_shapes(w):
    yield "literals and runs", [(LIT, 20, 1), (CPAT, 14 * w + 30, w, 3), (ALPHA, 1, 5, 3), (LIT, 40, 2), (CPAT, 9 * w + 9, w, 4), (LIT, 7, 3)]
    yield "one free symbol", [(LIT, 9, 1, 9), (ARUN, 20 * w + 40, w if w == 1 else w | 1 << 8, 0), (LIT, 30, 2, 9)]
    yield "size 3", [(ALPHA, 3, 5, 2)]


def p22(q):
    jobs = [raw("h_conc_detect", 0, 0, 0, [], "detection of the instruction sets, every cpuid answer, a second caller at every point", prio=0, quick=q)]
    names = ct.NAMES + XF + ["rle8m"]
    for i, name in enumerate(names):
        w = ct.width(name) if i < len(ct.NAMES) else 1
        for k, (label, segs) in enumerate(conc_shapes(w)):
            for d in (0, 1):
                for b in [i] + ([(i * 7 + 5 * k + 13 * d) % len(names)] if q else [(i * 7 + c) % len(names) for c in range(0, len(names), 9)]):
                    for lv in ((1, 5)[(i + k) % 2], 6) if q else (0, 1, 2, 3, 4, 5, 6):
                        if lv == 0 and max(i, b) in (len(ct.NAMES), len(ct.NAMES) + 1):
                            continue
                        jobs.append(raw("h_conc", i, lv, 0, segs, "%s, %s, %s with %s at every point, level %d" % (name, label, "decompression" if d else "compression", names[b], lv), x=b, y=d, opts=1, prio=1 if b == i else 2, quick=q))
    return jobs


def p01(q): return roundtrip(ct.SIMPLE8, q)
def p02(q): return roundtrip(ct.W16_32_64, q)
def p03(q): return roundtrip(ct.W24_48_128, q)
def p04(q): return roundtrip(ct.LUT, q, 4, 500)
def p05(q): return roundtrip(ct.SHORT, q, 7, 400)
def p06(q): return roundtrip(ct.GREEDY, q, 3)
def p08(q): return roundtrip(["rle8_sh"], q)


JOBS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13, "P14": p14, "P15": p15, "P16": p16, "P17": p17, "P18": p18, "P19": p19, "P20": p20, "P21": p21, "P22": p22}


def bounds_text(prop, q):
    """the bounds of the tier, for the evidence file"""
    common = dict(paths_per_job=limits(q, 1)["paths"], seconds_per_job=limits(q, 1)["sec"], instructions_per_path=800000000,
                  outside="inputs whose shape is not generated by the families (other sizes beyond the listed ones, more free bytes at once, more simultaneous runs), paths beyond the per job limits (see truncated_jobs), sizes above those listed except where sizes are symbolic")
    fams = {
        "fam_tiny": "every input of up to 6..8 bytes (3 for rle8_mmtf128; alphabet of 3 for histogram based encoders above 1 byte)",
        "fam_sizes": "every size 1..%d: literals with up to 2 free trailing bytes, one run with a free symbol" % (99 if q else 299),
        "fam_runs": "a run with a free symbol of every length up to 6 symbols + 25 bytes and around 16, 32, 64, 128, 256, 512, with a free byte on either side, behind/before 19..41/21..61 literals or at the start/end of the input",
        "fam_ranges": "0..39 and around 64, 128, 256, 512 literal bytes before/between runs of the same / of different free symbols",
        "fam_lut": "up to 23 runs of up to 9 known and 5 free symbols, gaps of 1..17 bytes",
        "fam_free": "3 free bytes at 12 offsets inside runs and literals",
        "fam_cross": "run lengths around 16, 32, 64, 128, 256 (symbols or bytes) x {5, 20, 70, 130, 260, 300, 513} literals behind a previous run x same / other free symbol x middle / end of the input (quick: one range per combination)",
        "fam_partial": "known symbol, prefixes of 0..w-1 bytes of it before 0..3 whole symbols and a cut off one, end of input / 1, 33, 140 literals with a free byte",
        "fam_mix": "%d composed skeletons per codec of 3..9 segments (literals, known and free symbols, references, free bytes) with lengths at thresholds up to 300" % (24 if q else 600),
        "fam_big": "runs of 65534..65538 (symbols or bytes) and ranges of 65531..65540 bytes",
        "fam_edge": "runs of 65526..65554 (symbol granular codecs: 65526..65546 symbols) and ranges of 65526..65543 bytes, runs and ranges of 2^6..2^15 -6..+5 (byte granular: up to +5 + 2 symbols), each length once per codec (quick: at one encoder level), concrete run symbols, two free bytes",
        "fam_near": "a symbol equal to the one before (or one of the last 8) except for one free byte at every position, in runs and behind short and long ranges",
        "fam_long": "%d composed inputs per codec of 20..60 runs of 2..12 concrete symbols and ranges of up to 257 bytes, two free bytes" % (36 if q else 400),
        "fam_mega": "ranges and runs around 2^20 bytes (quick: one of each per codec, shared between levels and siblings), thorough: 2^17..2^22 and runs of 2^24",
        "fam_le_big": "low entropy codecs: runs and ranges around 65536, composed inputs of up to 20000 bytes, 1..256 different symbols, %d compositions of up to 14 runs and ranges of up to 511 bytes, one byte of 2..3 values" % (30 if q else 300),
        "fam_pow": "runs and ranges around 2^10..2^15 bytes / symbols; sizes, runs and ranges of arbitrary lengths of 100..1100 and 500..20000 bytes (lengths chosen pseudo randomly, fixed per codec)",
        "fam_le": "runs of 28..512 bytes, 1..256 run length encoded symbols, sizes around 256, a free byte", "fam_sh": "copies / runs of 1..29 and around 161, 255+{7,10,14,161}, 320, 420 bytes; blocks coded symbol by symbol of 1..804 bytes with %d consecutive bytes of 5 values or 2 + 2 bytes of 4 values" % (4 if q else 5), "fam_mmtf128": "1..37 blocks of alphabets 2..200, runs of 1..130 blocks, sizes 1..69, a byte of every value in blocks and in the rest",
        "fam_expand": "%d repetitions of barely encodable runs behind ranges around 62..64, 125..132, 255..260, 65532, 65540 bytes" % (40 if q else 200)}
    J = JOBS[prop](q)
    used = set(j["fam"] for j in J)
    common["families"] = {k: v for k, v in fams.items() if k in used}
    common["entries"] = sorted(set(j["entry"] for j in J))
    if prop in ("P13", "P10"):
        common["sizes"] = "input size, capacity (and number of sub sections) fully symbolic, 32 bit, in the refusal / bounds function jobs"
    if prop == "P17":
        common["kernels"] = "13 pack / unpack pairs and their aligned x unaligned combinations; block counts up to 14 (3 for multi block forms; 0..69 values for the 4 bit form), thorough 40 / 9 / 139; every value of every byte"
    if prop == "P18":
        common["faults"] = "which of all codecs fails, kind of failure, position and value of the wrong byte: symbolic; file sizes 1, 4, 33, 100 (thorough also 7, 64, 161, 300) with free contents (a decoder that writes nothing: 2 free bytes at every position above 8 bytes); fuzzer: codec runs 0..119 and 6 (thorough 299) later windows of 8; comparison: 0..257 (329) bytes"
    if prop == "P19":
        common["cpuid"] = "every cpuid leaf answer and XCR0 fully symbolic; the nine names x 3 argument lists"
    if prop == "P20":
        common["options"] = "all 3^5 x 5 combinations of the flags and LUT sizes per mode (7) and symbol size (9), one argument order each (thorough: 8); unknown arguments of 0..23 free characters"
    if prop == "P15":
        common["cpuid"] = "every cpuid leaf answer and XCR0 fully symbolic; no bound"
    if prop == "P21":
        common["runs"] = "1..8 runs of 128 (256 for 64 and 128 bit symbols) .. 70000 bytes with a free symbol byte, at offsets 0..79 and around 128, 256, 512, 1024, 65536, gaps 0..260, and inputs without a run of 2..5000 bytes; limit per job in its label"
    if prop == "P22":
        common["schedules"] = "the point at which the other call takes place (before every access to a mutable global object) is symbolic; one switch to the other call, which runs to completion (compression and decompression), and back; the other call: the same codec and another one (thorough: 14 others); detection: every cpuid answer"
    return common
