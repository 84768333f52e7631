"""The jobs that decide each property: (variant of the build, harness and parameters, time limit in seconds)."""
import os, random, re

HERE = os.path.dirname(os.path.abspath(__file__))
TEXT = {}
for m in re.finditer(r'= (\d+): "([^"]*)"', open(os.path.join(HERE, '../harness/src/ids.rs')).read()):
    TEXT[int(m.group(1))] = m.group(2)


def text(i):
    return TEXT.get(i, '')


DECODE = set(range(1, 34))
RUN = {'panic', 'time', 40}
# the violations that break each property; others are reported as notes only
COUNTS = {
    'C01': DECODE | RUN | {45, 79, 101, 102},
    'C02': set(range(1, 15)) | RUN | {42, 43, 44, 45, 46, 48, 49, 50, 67},
    'C03': DECODE | RUN | {41, 103},
    'C04': DECODE | RUN | {41, 45, 47, 51},
    'C05': DECODE | RUN | {41, 46, 53},
    'C06': {16, 17, 18, 22, 27, 83, 84, 85} | RUN,
    'C07': {15, 22, 80, 81, 82} | RUN,
    'C08': {86, 87, 88, 'panic'},
    'C09': {90, 91, 92, 'panic'},
    'C10': {54, 56} | RUN,
    'C11': {2, 21, 23, 24, 25, 27, 28, 30, 33, 43, 44, 52, 53, 54, 57} | RUN,
    'C12': {1, 2, 3, 4, 5, 6, 7} | set(range(59, 66)) | {67, 49} | RUN,
    'C13': set(range(65, 74)) | {75, 74, 79} | RUN,
    'C14': {56, 67, 74, 75, 76, 77, 78, 79, 101, 102} | RUN,
    'C15': {54, 56, 89, 104} | RUN,
    'C16': {'memory'},
    'C17': {2, 40, 88, 'panic', 'time', 'memory'},
    'C18': DECODE | RUN | {56, 57, 58},
    'C19': DECODE | RUN | {53, 54, 56, 93, 94, 95},
    'C21': {105} | RUN,
    'C22': {106, 107, 108} | RUN,
    'C20': {12, 44, 50, 96, 97, 98, 99} | RUN,
}

GREY, RGB, RGBA, BGR, BGRA, YCC, CMYK, CMYCCK, YCCK = range(9)
INTERLEAVED = (0, 1, 2, 3)
ALL_SF = tuple(range(8))


# harnesses whose queries the solvers decide in about the same time without the rewriting rules
PLAIN = {'headers', 'config', 'alias', 'segments', 'mixed_segments', 'table_pairs', 'quantize', 'quality', 'custom_table', 'custom_any', 'refused', 'writers',
         'settings', 'sequence', 'orders', 'far', 'far_block', 'sizes', 'simd', 'long', 'bits', 'quant_block', 'quant_same', 'icc', 'defaults', 'pixels', 'history', 'rogue', 'config'}


def decides_plain(line):
    w = line.split()
    if w[0] == 'entropy':
        return w[8] == '0' and w[2] == '0' or w[8] == '7' and w[4] != '102'
    if w[0] == 'bits':
        return int(w[2]) < 60
    return w[0] in PLAIN


def jobs(prop, tier, seed):
    quick = tier == 'quick'
    rnd = random.Random(seed * 1000 + int(prop[1:]))
    L = []

    def add(line, sec=None, v='simd'):
        L.append((v, line % () if '%' in line else line, sec or (100 if quick else 900)))

    def j(name, *a, v='simd', sec=None):
        L.append((v, name + ''.join(' %d' % x for x in a), sec or ((400 if name == 'long' else 100) if quick else 900)))

    globals()['p_' + prop](j, quick, rnd)
    # some jobs without the rewriting rules: each assertion and branch goes to the solver as the code computes it
    seen = {}
    for k, (v, line, sec) in enumerate(list(L)):
        name = line.split()[0]
        if v != 'file' and decides_plain(line):
            seen[name] = seen.get(name, 0) + 1
            if not quick:
                L.append((v, line + ' plain', sec))
            elif seen[name] % 2 == 0:
                L[k] = (v, line + ' plain', sec)
    # the longest first
    L.sort(key=lambda t: not t[1].startswith('long '))
    return L


def p_C01(j, quick, rnd):
    for ct in range(9):
        j('headers', 1, ct, -1, ct % 2)
        for m in (0, 1, 2) if quick and ct % 3 == 0 else (1, 2) if quick else (0, 1, 2, 3):
            j('segments', 1, ct, (0, 1, 200, 102)[(ct + m) % 4], 0)
    # all settings of a small picture together; options: 1 density, 2 segment, 4 default tables
    for k, ct in enumerate((GREY, YCC, CMYK, CMYCCK, RGB)):
        for w, h in ((1, 1), (9, 17)) if quick else ((1, 1), (9, 17), (17, 9), (33, 16)):
            for sf in ((0, 3, 4 + k % 4) if ct else (0,)) if quick else ALL_SF:
                j('config', 1, ct, w, h, sf, -1, -2 if w > 1 else -1, 7, sec=None if quick else 600)
    for ct in (GREY, YCC, YCCK):
        for p in ((0, 0), (4, 1), (5, 0)):
            for m in (0, 1, 4, 64, 102):
                if p[0] == 4 and m in (1, 102):
                    p = (7, m)
                j('entropy', 1, ct, 3 if ct else 0, m, -2, 17, 16, *p)
    j('big', 1, YCC, 3, 0, -1, 200, 120, 2)
    j('big', 1, YCC, 3, 102, 7, 200, 120, 2)
    # all pairs of tables
    for ct in range(9):
        for m in ((0,), (1,), (103,), (200,))[ct % 4] if quick else (0, 1, 200, 103):
            j('table_pairs', 1, ct, m, 9, 9, (75, 100, 3, 0)[(ct + m) % 4])
    # files
    for ct, sf, m in ((RGB, 3, 0), (GREY, 0, 1)) if quick else [(ct, ct and 3, (0, 1, 200)[ct % 3]) for ct in range(9)]:
        new_file(j, ct, sf, m, -1, 9, 9, (0,))


def p_C02(j, quick, rnd):
    for avx in (1, 0):
        for ct in range(9):
            j('headers', avx, ct, -1, (ct + avx) % 2)
            if not quick or avx:
                j('alias', avx, ct, (0, 1, 4, 102)[ct % 4])
    for ct in range(9):
        for m in (0, 1, 3, 200, 102, 64) if not quick else (0, 1, 3 + ct):
            for sf in ALL_SF if not quick else ((ct * 3 + m) % 8, 3):
                j('config', 1, ct, 9 + ct, 11, sf, m, -2, 7)


def p_C03(j, quick, rnd):
    E = lambda *a, **k: j('entropy', 1, *a, **k)
    # every DC value in two neighbouring blocks
    E(GREY, 0, 0, -1, 16, 8, 1, 0)
    E(GREY, 0, 1, -1, 8, 8, 1, 0)
    E(YCC, 0, 0, -1, 8, 8, 1, 0)
    E(YCC, 0, 0, -1, 8, 8, 1, 1)
    E(YCC, 3, 0, -1, 16, 16, 1, 3)
    E(CMYK, 0, 0, -1, 8, 8, 1, 2)
    E(YCCK, 3, 0, -1, 16, 16, 1, 4)
    # all positions of two coefficients
    for a in (0, 1, 7, 31, 46, 62) if quick else range(63):
        E(GREY, 0, a % 2, -1, 16, 8, 0, a)
    for a in (0, 14, 47) if quick else range(0, 63, 3):
        E(YCC, 3, a % 2, -1, 16, 16, 0, a)
        E(YCCK, 1, 0, -1, 16, 8, 0, a)
    # every value of an AC coefficient
    for a in (1, 2, 40, 63) if quick else range(1, 64):
        E(GREY, 0, 0, -1, 8, 8, 6, a)
        E(YCC, 0, 1, -1, 8, 8, 6, a)
    # 62 arbitrary coefficients at once
    for a in range(2 if quick else 12):
        E(GREY, 0, 0, -1, 8, 8, 2, rnd.randrange(1 << 20))
        E(YCC, 0, 0, -1, 8, 8, 2, rnd.randrange(1 << 20))
    # arbitrary large values at every bit alignment
    for a in range(0, 34, 3) if quick else range(62):
        E(GREY, 0, 0, -1, 16, 8, 3, a)
        if not quick:
            E(GREY, 0, 1, -1, 16, 8, 3, a)
            E(YCC, 0, 0, -1, 8, 8, 3, a)
    shapes(j, (0, 1), False, rnd)
    # mixed blocks in all layouts
    for ct in (GREY, YCC, CMYK, YCCK):
        for sf in (ALL_SF if ct else (0,)):
            for m in (0, 1):
                E(ct, sf, m, -1, 33 if ct == 0 else 17, 18, 4, rnd.randrange(8))
        E(ct, 0, 0, -1, 16, 8, 5, 0)
        E(ct, 0, 1, -1, 8, 8, 5, 0)
    # any contents of the bit buffer
    for total in ((7, 21, 27, 33, 64, 64, 65, 70, 72, 80, 88) if quick else [64] * 20 + list(range(8, 90)) + [96]):
        j('bits', 1 + rnd.randrange(1 << 30), total)
    j('entropy', 0, YCC, 3, 0, -1, 17, 17, 4, 2)
    j('entropy', 0, GREY, 0, 0, -1, 16, 8, 3, 20)


def shapes(j, modes, quick, rnd):
    for i, m in enumerate(modes):
        ri = -1 if i % 2 else rnd.randrange(1, 4)
        j('entropy', 1, GREY, 0, m, ri, 24, 8, 8, 0)
        if not quick or i % 2 == 0:
            j('entropy', 1, YCC, 0, m, 1 if ri < 0 else -1, 8, 8, 8, 0)
        if not quick or i % 2:
            j('entropy', 1, YCC, 3, m, ri, 9, 8, 8, 0)
            j('entropy', 1, CMYK, 0, m, ri, 8, 8, 8, 0)
        if not quick:
            for at in range(0, 9, 3):
                j('entropy', 1, YCCK, 1, m, ri, 17, 8, 8, at)


def p_C04(j, quick, rnd):
    E = lambda *a, **k: j('entropy', 1, *a, **k)
    for n in range(2, 65):
        ct = (GREY, YCC, CMYK, YCCK)[n % 4]
        sf = (n // 4) % 8 if ct else 0
        E(ct, sf, n, -1, 17, 18, 4, rnd.randrange(8))
        E(GREY, 0, n, -2 if n % 5 == 0 else -1, 16, 8, 0, rnd.randrange(63))
        E(GREY, 0, 100 + n, -1, 16, 16, 4, rnd.randrange(4))
        if n % 9 == 0 or not quick:
            E(ct, sf, 100 + n, -1, 17, 18, 4, rnd.randrange(8))
            j('sizes', 1, ct, sf, n, -1, 19, 0)
        j('config', 1, (GREY, YCC, CMYCCK)[n % 3], 5, 9, 1 + n % 7, n, -1, 0)
    shapes(j, (2, 3, 33, 64, 104, 200) if quick else range(2, 65, 2), quick, rnd)
    # every DC value, every AC value, all run lengths
    E(GREY, 0, 3, -1, 8, 8, 1, 0)
    E(YCC, 0, 200, -1, 8, 8, 1, 1)
    for n in (2, 200, 64, 33, 102, 105):
        for a in (0, 15, 61) if quick else range(0, 63, 2):
            E(GREY, 0, n, -1, 16, 8, 0, a)
        for a in (1, 21, 63) if quick else range(1, 64, 2):
            E(GREY, 0, n, -1, 8, 8, 6, a)
        for a in (3, 22) if quick else range(0, 60, 4):
            E(GREY, 0, n, -1, 16, 8, 3, a)
    for n in (2, 5, 64):
        E(GREY, 0, n, -1, 8, 8, 2, rnd.randrange(1 << 20))
        E(YCC, 0, n, -1, 8, 8, 5, 0)
    for ct in (YCC, YCCK):
        for n in (200, 2, 9):
            j('modes', 1, ct, 3, n, -2, 20, 20, 0, 0)
            j('modes', 1, ct, 5, n, -1, 20, 20, 1, 0)


def p_C05(j, quick, rnd):
    modes = (0, 1, 200, 64, 104) if quick else (0, 1, 200, 2, 64, 104, 164)
    # any restart interval
    for ct in (GREY, YCC, CMYK, YCCK):
        for sf in (((0, 3, 6) if ct == YCC else (rnd.randrange(8),)) if ct else (0,)) if quick else (ALL_SF if ct else (0,)):
            for m in modes:
                w, h = ((40, 24) if ct == GREY else (20, 20))
                j('entropy', 1, ct, sf, m, -2, w, h, 7 if m == 1 or m > 100 and m < 200 or m == 64 or sf else 4, rnd.randrange(8))
    # more than 8 markers in a scan; any interval
    for m in modes:
        j('sizes', 1, GREY, 0, m, -2, 88, 17)
        j('sizes', 1, RGB, 3, m, -2, 65, 33)
        j('sizes', 1, YCC, 1, m, -2, 65, 17)
        j('sizes', 1, YCCK, 3, m, -2, 49, 33)
        if not quick:
            j('sizes', 1, GREY, 0, m, -2, 170, 33)
            j('sizes', 1, CMYK, 2, m, -2, 33, 65)
            j('sizes', 1, RGB, 4, m, -2, 65, 33)
        for ri in (1, 2, 3):
            j('entropy', 1, GREY, 0, m, ri, 32, 8, 1 if not quick and m < 2 else 3, 2)
            j('entropy', 1, YCC, 0, m, ri, 16, 16, 4, 3)
    # arbitrary DC values around a marker: prediction starts at 0
    j('entropy', 1, GREY, 0, 0, 1, 16, 8, 1, 0)
    j('entropy', 1, GREY, 0, 200, 1, 16, 8, 1, 0)
    j('entropy', 1, YCC, 0, 0, 1, 16, 8, 1, 0)
    j('entropy', 1, YCC, 4, 0, 1, 16, 8, 1, 0)
    for ct in (GREY, YCC, CMYK):
        j('config', 1, ct, 9, 25, 0, -1, -2, 0)
    j('sizes', 0, RGB, 3, 0, -2, 65, 65)
    # thousands of intervals
    j('long', 1, GREY, 0, 0, 1, 1, 65535)
    j('long', 1, YCC, 3, 0, 1, 65535, 1)
    j('long', 1, YCC, 4, 1, 2, 65535, 1)
    j('long', 1, YCCK, 1, 200, 1, 1, 40000)
    j('long', 1, GREY, 0, 0, 8000, 65535, 1)
    j('long', 1, CMYK, 0, 104, 257, 65535, 1)
    # more than 65536 MCUs
    j('long', 1, GREY, 0, 0, 7000, 65535, 72)
    if not quick:
        j('long', 1, GREY, 0, 104, 32768, 65535, 72)
        j('long', 1, YCC, 0, 1, 40000, 65535, 72)
        j('long', 1, YCC, 3, 200, 65535, 1000, 8704)


def p_C06(j, quick, rnd):
    T = lambda *a: j('opt_table', *a)
    T(0, 2, 5); T(0, 1, 1000); T(0, 3, 3); T(0, 2, 40)
    for n in (5, 17, 25, 30, 34, 40, 44):
        for at in {0, n // 2, n - 1}:
            T(1, n, at)
    for n in (4, 9, 14, 18):
        T(2, n, n // 2)
    for n, v in ((1, 1), (2, 1), (3, 2), (10, 5), (17, 1), (24, 1)):
        T(3, n, v)
    for n in (2, 16, 100, 200, 255, 256):
        for k in range(4):
            T(4, n, rnd.randrange(250) * 4 + k)
    for ct in (GREY, YCC, CMYK, YCCK):
        for m in (1, 102, 104, 164):
            j('opt_stream', 1, ct, m, -1 if ct != YCC else 2, rnd.randrange(1000))
    # any sequence of shapes of blocks: all symbols have codes
    shapes(j, (1, 102, 104, 164) if quick else (1,) + tuple(range(102, 165, 3)), quick, rnd)
    # the default tables
    for ct in (GREY, YCC, YCCK):
        j('entropy', 1, ct, 0, 0, -1, 16, 8, 5, 0)
        j('entropy', 1, ct, 0, 4, -1, 16, 8, 5, 0)
        j('config', 1, ct, 8, 8, 0, -1, -1, 4)
    if not quick:
        T(0, 4, 3); T(0, 3, 8); T(0, 2, 400)
        for n in range(10, 46):
            T(1, n, rnd.randrange(n)); T(1, n, rnd.randrange(n))
        for n in range(5, 33):
            T(2, n, rnd.randrange(n))
        for k in range(100):
            T(4, rnd.randrange(2, 257), rnd.randrange(1000))
        for s in range(10):
            for ct in (GREY, YCC, CMYK, YCCK):
                for m in (1, 103, 133):
                    j('opt_stream', 1, ct, m, s - 1, rnd.randrange(1000))


def p_C07(j, quick, rnd):
    for t in range(9):
        for c in (0, 1):
            j('quality', 1, t, c)
    for ct in (GREY, RGB, CMYK, CMYCCK, YCCK, YCC):
        for part in (0, 1):
            j('custom_table', 1, ct, (0, 1, 4)[(ct + part) % 3], part)
        if ct:
            j('custom_table', 1, ct, (0, 1, 200)[ct % 3], 3)
            j('custom_any', 1, ct, *rnd.sample(range(64), 2))
    for ct in (GREY, RGB, CMYK, YCCK):
        j('table_pairs', 1, ct, 0, 8, 8, (10, 50, 95, 255)[ct % 4])
    # rounding for every value; all divisors
    n = 8
    for d in range(1, 256, n):
        j('quantize', d, min(n, 256 - d), (d * 11) % 64)
    for i in range(64):
        j('quantize', 1 + (i * 37) % 255, 1, i)
    # whole blocks, as either code path quantizes them
    for avx in (1, 0):
        for first in range(4):
            for rot in (rnd.randrange(64), 8 * avx) if quick else range(0, 64, 3):
                j('quant_block', avx, first, 4, rot)
    for ct in (GREY, YCC, CMYK, YCCK):
        for comp in range({GREY: 1, YCC: 3}.get(ct, 4)):
            for m in (0, 1, 3):
                for k in ((0, 5) if quick else range(0, 64, 3)):
                    j('stream_quant', 1, ct, m, comp, k + rnd.randrange(3) * (k > 0))
    if not quick:
        for d in range(1, 256, n):
            for i in (0, 9, 21, 40, 63):
                j('quantize', d, min(n, 256 - d), i)


def p_C08(j, quick, rnd):
    for s in (0, 1):
        for k in range(0, 64, 16):
            j('dct', s, k, 16)
        j('dct_constant', s)
    for avx in (1, 0):
        j('flat', avx, GREY, 0, 0, 2)
        j('flat', avx, YCC, 0, 1 - avx, 1)
    j('flat', 1, GREY, 0, 3, 1)
    if not quick:
        j('dct', 0, 0, 64, v='std')
        j('dct', 0, 0, 64, v='core')
        j('flat', 1, YCC, 0, 4, 2)
        j('flat', 1, YCC, 0, 0, 3)


def p_C09(j, quick, rnd):
    for v in ('simd', 'core') if quick else ('simd', 'std', 'core'):
        for k in (0, 1, 2):
            j('colour', k, v=v)


BPP = (1, 3, 4, 3, 4, 3, 4, 4, 4)


def far(j, avx, cts, quick, rnd, v='simd'):
    """rows of pictures of up to 65535x65535, in particular those around offsets of 2^31 and 2^32 bytes"""
    for ct in cts:
        b = BPP[ct]
        sizes = [(65535, 65535, 65534), (40000 + ct * 1000, 65535, 65534), (rnd.randrange(1, 50), 65535, rnd.randrange(65535))]
        for at in (1 << 31, 1 << 32) if b > 1 else (1 << 31,):
            # the row that contains this offset, and the next
            w = at // (b * 60000) + rnd.randrange(100)
            sizes += [(w, 65535, at // (b * w)), (w + 8, 65535, at // (b * (w + 8)) + 1)]
        if not quick:
            sizes += [(rnd.randrange(20, 65536), 65535, rnd.randrange(65535)) for i in range(20)]
        for w, h, y in sizes:
            off = (1 << 32 if y * w * b + w * b > 1 << 32 else 1 << 31) - y * w * b
            k = min(8, w)
            j('far', avx, ct, w, h, y, k, max(0, min(w - k, off // b - 3)), v=v)


def p_C10(j, quick, rnd):
    F = lambda *a: j('formats', *a)
    sizes = ((1, 1), (7, 2), (8, 8), (9, 3), (17, 9), (31, 4), (33, 2)) if quick else [(w, h) for w in range(1, 42) for h in (1, 2, 9)]
    for avx in (1, 0):
        for i, (w, h) in enumerate(sizes):
            for m in ((0, 1, 3)[i % 3],) if quick else (0, 1, 3, 102):
                sfs = (0, (i * 3 + avx) % 8) if quick else ALL_SF
                for sf in sfs:
                    F(avx, sf, m, w, h, 0, 0, 0)
            F(avx, i % 8, (0, 1, 4)[i % 3], w, h, 1, 0, 0)
            F(avx, i % 8, (1, 0, 4)[i % 3], w, h, 2, 0, 0)
            F(avx, i % 8, (0, 4, 1)[i % 3], w, h, 3, 0, 0)
        for w, h in ((5, 3), (16, 16), (19, 9), (40, 17)):
            for m in (0, 1, 200, 103):
                F(avx, (w + m) % 8, m, w, h, 0, 1, 1)
                for f in (1, 2, 3):
                    F(avx, (w + m) % 8, m, w, h, f, 1, 1)
    P = lambda *a: j('pixels', *a)
    for avx in (1, 0):
        for ct in range(9):
            P(avx, ct, 0, 0, -1, 9, 3, ct % 3 * 7, 0, 0)
    far(j, 0, range(9), quick, rnd)
    far(j, 1, (RGB, RGBA, BGR, BGRA), quick, rnd)
    far(j, 0, (GREY, BGRA, CMYK), quick, rnd, 'core')


def p_C11(j, quick, rnd):
    P = lambda *a: j('pixels', *a)
    # every pixel arbitrary
    for avx in (1, 0):
        for ct in range(9):
            for sf in (ALL_SF if ct else (0,)):
                for m in ((0,), (4,), (1,), (102,))[(ct + sf) % 4] if quick else (0, 1, 4, 102):
                    w, h = ((17, 9), (9, 17), (33, 5), (15, 20), (8, 8), (1, 1), (31, 33), (24, 16))[(ct * 5 + sf + avx) % 8]
                    P(avx, ct, sf, m, -1, w, h, 0, 0, 0)
                    if ct in (GREY, RGB, YCC, YCCK):
                        P(avx, ct, sf, 0, -1, w, h, 0, 0, 0)
    # all sizes up to 40x20, each with a picture of different pixels
    for ct in (GREY, RGB, CMYK, YCCK):
        for sf in (ALL_SF if ct else (0,)):
            if quick:
                j('sizes', 1, ct, sf, 0, -1, 0, rnd.randrange(1, 41))
                j('sizes', 1, ct, sf, (1, 3, 200, 102)[sf % 4], -1, rnd.randrange(1, 41), 0)
            else:
                for m in (0, 1, 3, 102):
                    j('sizes', 1, ct, sf, m, -1, 0, 0)
    for ct, sf in ((RGB, 3), (GREY, 0), (YCCK, 1)):
        j('sizes', 1, ct, sf, 0, -2, 50, 40)
        j('sizes', 1, ct, sf, 0, -1, 130, 40)
        j('sizes', 1, ct, sf, 3, -1, 40, 110)
    j('sizes', 1, RGB, 0, 0, -1, 250, 20)
    j('sizes', 1, GREY, 0, 1, -1, 999, 20)
    # all widths up to 320 and heights up to 240
    for k, base in enumerate(range(41, 321, 40)):
        for i, ct in enumerate((GREY, RGB, CMYK, YCCK)):
            for sf in ((k * 3 + i) % 8,) if quick else ALL_SF:
                j('sizes', (k + i) % 2, ct, sf if ct else 0, (0, 1, 0, 3)[(k + i) % 4], -1, 10000 + base, rnd.randrange(1, 18 if base < 200 and ct < 6 else 9))
    for k, base in enumerate(range(21, 241, 20)):
        for i, ct in enumerate((GREY, RGB, CMYK, YCCK)):
            for sf in ((k * 3 + i + 1) % 8,) if quick else ALL_SF:
                j('sizes', (k + i) % 2, ct, sf if ct else 0, (0, 1, 0, 3)[(k + i) % 4], -1, rnd.randrange(1, 18 if base < 160 and ct < 6 else 9), 10000 + base)
    for base in (490, 1010, 2030, 4050):
        j('sizes', 1, GREY, 0, (0, 1)[base % 4 // 2], -1, 10000 + base, 5)
        j('sizes', 1, GREY, 0, (0, 1)[base % 4 // 2], -1, 3, 10000 + base)
        if base < 1020:
            j('sizes', 1, RGB, 3, 0, -1, 10000 + base, 1 + base % 9)
            j('sizes', 0, BGRA, 3, 0, -1, 10000 + base, 1 + base % 7)
    # blocks of components of the largest sizes
    far(j, 0, (GREY, RGB, YCC, CMYCCK, YCCK), quick, rnd)
    far(j, 1, (RGB, BGRA), quick, rnd)
    for w, h in ((65536, 65536), (65536, 32776), (32776, 65536), (40000, 65536), (65536, 55000)):
        for sx, sy in ((1, 1), (2, 1), (1, 2), (2, 2), (4, 2), (4, 1)):
            j('far_block', w, h, w - 8 * sx, h - 8 * sy, sx, sy)
            j('far_block', w, h, w // 2, max(0, (1 << 31) // w - 4 * sy), sx, sy)
    # the largest sizes
    L = lambda *a: j('long', *a)
    L(1, GREY, 0, 0, -1, 65535, 1); L(1, GREY, 0, 1, -1, 1, 65535)
    L(1, YCC, 3, 0, -1, 65535, 1); L(1, YCC, 3, 200, -1, 1, 65535)
    L(0, YCCK, 5, 0, -1, 1, 65535); L(1, CMYK, 7, 104, -1, 65529, 1)
    L(1, YCC, 0, 0, -1, 1, 65533); L(1, CMYK, 2, 0, -1, 2, 65535)
    # more than 65536 blocks
    j('long', 1, GREY, 0, (0, 1, 200)[rnd.randrange(3)], -1, 65535, 72)
    if not quick:
        for m in (0, 1, 104):
            j('long', 1, GREY, 0, m, -1, 65535, 72); j('long', 0, YCC, 0, m, 9, 40000, 120); j('long', 1, CMYK, 1, m, -1, 2000, 2200)
    if not quick:
        for ct in (GREY, YCC, CMYK, YCCK):
            for sf in (ALL_SF if ct else (0,)):
                for m in (0, 1, 5):
                    L(1, ct, sf, m, -1, 65535, 1); L(1, ct, sf, m, -1, 1, 65535)
                    L(0, ct, sf, m, 7, 65530 - sf, 3); L(0, ct, sf, m, 7, 3, 65530 - sf)


def p_C12(j, quick, rnd):
    for ct in range(9):
        for m in (0, 1, 200) if not quick else ((0, 1, 200)[ct % 3],):
            for kind in (0, 1, 2, 3, 4, 5, 6):
                if kind in (1, 2) and quick and ct not in (0, 1, 6, 8):
                    continue
                j('segments', 1, ct, m, kind)
    for n, d in ((0, 0), (0, 1), (0, 500), (1, -1), (1, 0), (1, 1), (2, -1), (2, 0), (2, 1), (3, 77), (255, 0), (254, 1), (255, -1), (254, 0), (128, 5)):
        j('icc', 1, (GREY, RGB, CMYK, YCCK)[n % 4], n, d)
    # every number of chunks
    for n in range(1, 256):
        j('icc', 1, (RGB, GREY, CMYK, YCC)[n % 4], n, rnd.randrange(-3, 1))
        if not quick:
            j('icc', 0, YCCK, n - 1, rnd.randrange(1, 9))
    j('config', 1, YCC, 9, 9, 3, -1, -1, 6)
    for i, n in enumerate((0, 1, 500, 65518, 65519, 65520, 131038, 131039)):
        for ct in (GREY, RGB, CMYK, YCCK)[i % 2::2] if quick else range(9):
            j('mixed_segments', 1, ct, (0, 1, 200)[(i + ct) % 3], n)
    j('modes', 1, YCC, 3, 0, -1, 9, 9, 4, 0)
    j('refused', 1, YCC, 4, 0)
    j('refused', 1, YCC, 3, 0)


def p_C13(j, quick, rnd):
    for ct in range(9):
        for m in (0, (1, 200, 102)[ct % 3]) if quick else (0, 1, 200, 102):
            for kind in (0, 1):
                j('refused', 1, ct, kind, m)
        j('refused', ct % 2, ct, 5, (0, 1, 3)[ct % 3])
    for kind in (2, 3, 4):
        for ct in (GREY, YCCK) if quick else range(9):
            j('refused', 1, ct, kind, 0)
    for ct in (RGB, CMYK) if quick else range(9):
        for m in (0, 200):
            j('refused', 1, ct, 6, m)
            j('refused', 1, ct, 7, m)
    j('refused', 0, RGB, 0, 0, v='core')
    j('refused', 0, RGB, 1, 0, v='core')


def new_file(j, ct, sf, m, ri, w, h, kinds):
    """Encoder::new_file; kind 0: the disk has room enough, 1: it is full after any number of bytes, 2: no such directory"""
    for kind in kinds:
        for old in (-1, 7, -20, 3000) if kind == 0 else (7,):
            j('files', 0, ct, sf, m, ri, w, h, kind, old, v='file')


def p_C14(j, quick, rnd):
    F = lambda *a, **k: j('fail', *a, **k)
    for i, (ct, sf, m, ri) in enumerate(((GREY, 0, 0, -1), (RGB, 3, 0, 1), (YCC, 0, 1, -1), (CMYK, 0, 200, -1), (YCCK, 3, 0, 2),
                                         (RGB, 1, 102, 1), (GREY, 0, 64, 1), (RGB, 4, 0, 1), (CMYCCK, 5, 1, -1))):
        w, h = ((9, 9), (17, 9), (8, 8))[i % 3]
        F(1, ct, sf, m, ri, w, h, 0, 0)
        if not quick or i % 2 == 0:
            F(1, ct, sf, m, ri, w, h, 1, (0, 3, 50)[i % 3])
        F(1, ct, sf, m, ri, w, h, 2, 0)
        F(1, ct, sf, m, ri, w, h, 3, 0)
        F(1, ct, sf, m, ri, w, h, 4, 0)
        F(1, ct, sf, m, ri, w, h, 5, 0)
        F(1, ct, sf, m, ri, w, h, 6, (16, 512, 512)[i % 3])
        F(0, ct, sf, m, ri, w, h, 0, 0, v='core')
        F(0, ct, sf, m, ri, w, h, 4, 0, v='core')
        if not quick:
            F(0, ct, sf, m, ri, w, h, 0, 7)
            F(0, ct, sf, m, ri, w + 16, h + 16, 0, 7)
            F(0, ct, sf, m, ri, w, h, 1, 5, v='core')
            F(0, ct, sf, m, ri, w, h, 0, 0, v='std')
    for i, (ct, sf, m) in enumerate(((GREY, 0, 0), (RGB, 3, 1), (CMYK, 1, 200), (YCCK, 0, 102), (RGBA, 2, 0))):
        for kind in ((i & 1,) if quick else (0, 1)):
            j('std_writers', 1, ct, sf, m, (1, -1)[i % 2], *((9, 9) if quick else (17, 9)), kind)
    for i, (ct, sf, m, ri) in enumerate(((RGB, 3, 0, 1), (GREY, 0, 1, -1), (CMYK, 0, 200, -1), (YCC, 0, 102, 2))):
        new_file(j, ct, sf, m, ri, 9, 9, (1,))
        new_file(j, ct, sf, m, ri, 9, 9, (0, 2))
        if not quick or i == 0:
            # larger than the buffer of the writer
            new_file(j, ct, sf, m, ri, 64, 48, (0,) if quick else (0, 1))
        for kind, size in ((7, 16), (8, 600)) if quick else ((7, 1), (7, 16), (7, 100), (7, 512), (7, 8192), (8, 10), (8, 600)):
            if not quick or (i + kind) % 2:
                F(0, ct, sf, m, ri, 9, 9, kind, size, v='file')
    for ct in (GREY, RGB, YCCK):
        for m in (0, 1, 200):
            j('writers', 1, ct, m)
            j('writers', 0, ct, m, v='core')


def p_C15(j, quick, rnd):
    j('dct_same')
    for first in range(4):
        for rot in range(0, 64, 3) if quick else range(64):
            j('quant_same', first, 4, rot)
    for ct in range(9):
        for i, (w, h) in enumerate(((1, 1), (7, 2), (8, 3), (9, 9), (15, 1), (17, 2), (33, 3), (64, 1), (67, 2), (100, 1)) if quick else [(w, 1 + w % 9) for w in range(1, 140)]):
            if quick and ct not in (RGB, RGBA, BGR, BGRA) and i % 3:
                continue
            j('simd', ct, (ct + i) % 8 if ct else 0, (0, 1, 3)[i % 3], w, h, 0, 0)
        if ct in (RGB, RGBA, BGR, BGRA):
            far(j, 1, (ct,), quick, rnd)
        for m in (0, 1, 200) if quick else (0, 1, 200, 104, 64):
            j('simd', ct, (0, 3, 6)[(ct + m) % 3], m, 41, 19, 1, rnd.randrange(100))


def p_C16(j, quick, rnd):
    P = lambda *a: j('pixels', 1, *a)
    ws = list(range(1, 42)) + [47, 48, 49, 63, 64, 65, 79, 81, 97] if quick else list(range(1, 180))
    for ct in (RGB, RGBA, BGR, BGRA):
        for w in ws:
            if quick and w > 17 and (w + ct) % 2:
                continue
            P(ct, (w * 5 + ct) % 8, (0, 1, 3)[w % 3], -1, w, 1 + w % 3, 0, 0, 0)
    for ct in (GREY, YCC, CMYK, CMYCCK, YCCK):
        for w in (1, 8, 17, 33):
            P(ct, w % 8 if ct else 0, 0, -1, w, 9, 0, 0, 0)
    for ct in (RGB, RGBA, BGR, BGRA):
        j('sizes', 1, ct, 3, 0, -1, 0, 3)
        j('sizes', 1, ct, 4, 3, -1, 0, 2)
        for base in (41, 121, 201) if quick else range(41, 440, 40):
            j('sizes', 1, ct, 0, 0, -1, 10000 + base, 1 + base % 3)
    j('dct_same')
    j('big', 1, RGB, 3, 0, -1, 300, 70, 2)
    far(j, 1, range(9), quick, rnd)
    far(j, 0, (RGB, CMYK), quick, rnd)
    # implementations of ImageBuffer that do not keep to the interface
    i = 0
    for ct in (GREY, RGB, CMYK, YCCK):
        for m in (0, 1, 200, 102) if quick else (0, 1, 200, 102, 164):
            for w, h in ((9, 10), (17, 9)) if quick else ((1, 1), (8, 8), (9, 10), (17, 9), (33, 20), (16, 33)):
                i += 1
                if not quick or i % 2:
                    j('rogue', 1, ct, (0, 3, 1, 6)[i // 2 % 4] if ct else 0, m, (-1, 2)[i % 3 == 0], w, h, w + 3, -1)


def p_C17(j, quick, rnd):
    for avx in (1, 0):
        j('dct', avx, 0, 64)
        for m in (0, 1, 200, 164):
            for c in (0, 1, 2):
                if quick and (m + c + avx) % 2:
                    continue
                j('big', avx, (GREY, RGB, CMYK)[c], (0, 3, 6)[c] if c else 0, m, (-1, 3, 500)[c], 120 + c, 90, c)
    j('big', 1, RGB, 3, 0, -1, 800, 600, 2)
    j('big', 1, GREY, 0, 1, 1, 2000, 60, 2)
    j('long', 1, YCC, 7, 104, 1, 65535, 1)
    j('long', 0, GREY, 0, 0, 1, 65535, 1)
    j('long', 1, CMYK, 3, 0, -1, 1, 65535)
    j('long', 1, YCCK, 0, 1, -1, 1, 65535)
    j('long', 1, GREY, 0, 104, 32768, 65535, 72)
    far(j, 0, range(9), quick, rnd)
    far(j, 1, (RGBA, BGR), quick, rnd)
    # more than 256 markers in a scan
    for ct, sf, m in ((GREY, 0, 0), (RGB, 1, 0), (CMYK, 0, 200), (YCC, 4, 0), (RGB, 0, 102)):
        j('big', 1, ct, sf, m, 1, 2300 * (1 + (sf == 1)), 8, 2)
    for d in range(1, 256, 8):
        j('quantize', d, min(8, 256 - d), (d * 7) % 64)
    for ct in (GREY, RGB, YCC, CMYK, CMYCCK, YCCK):
        j('config', 1, ct, 1, 1, -1 if not quick else 3 + ct % 5, -1, -2, 6)
        j('config', 0, ct, 9, 3, 1 + ct % 7, -1, -1, 2)
    for n in range(2, 65, 1 if not quick else 3):
        j('config', 1, (YCC, GREY, YCCK)[n % 3], 9, 9, n % 8, n, -2, 0)
    for t in range(9):
        j('quality', 1, t, t % 2)
    for ct in (GREY, YCC, CMYK, YCCK):
        j('custom_table', 1, ct, 0, 0)
        j('entropy', 1, ct, 0, 0, -1, 16, 8, 5, 0)
        j('entropy', 1, ct, 0, 1, -1, 8, 8, 5, 0)
        j('entropy', 1, ct, 0, 105, -1, 8, 8, 5, 0)
        j('opt_stream', 1, ct, 1, -1, rnd.randrange(1000))
        j('sizes', 1, ct, 3 if ct else 0, 0, -2, 33, 0)
        j('sizes', 1, ct, 7 if ct else 0, 3, -1, 0, 9)
    j('opt_table', 0, 2, 5); j('opt_table', 1, 40, 20); j('opt_table', 1, 44, 43); j('opt_table', 2, 32, 20)
    j('opt_table', 4, 256, 2); j('opt_table', 4, 256, 1); j('opt_table', 4, 200, 3)
    for ct in range(9):
        j('pixels', ct % 2, ct, 3, 0, -1, 19, 5, 0, 0, 0)
        j('headers', 1, ct, -1, 0)


def p_C18(j, quick, rnd):
    M = lambda *a: j('modes', 1, *a)
    for i, ct in enumerate((GREY, RGB, YCC, CMYK, CMYCCK, YCCK)):
        for sf in (((i * 3) % 8, 3, 0) if ct else (0,)) if quick else (ALL_SF if ct else (0,)):
            # all modes, arbitrary pixels
            M(ct, sf, -1, -2 if sf == 3 else 5, 19, 10, 1, 0)
            # all modes, transformed and quantized
            M(ct, sf, -1, 2, 25, 20, 0, 1)
            M(ct, sf, -1, -2, 17, 9, 4, 0)
            M(ct, sf, -1, 3, 35, 33, 2, 1)
            M(ct, sf, -1, 2, 33, 18, 0, 2)
            # areas of one colour
            M(ct, sf, -1, -1 if sf else -2, 35, 20, 8, 2)
            if not quick:
                M(ct, sf, 200, 2, 35, 20, 24, 2)
    # all factors
    for ct in (YCC, CMYK, YCCK) if quick else ():
        for sf in ALL_SF:
            M(ct, sf, -1, 2, 17, 17, 0, (sf + ct) % 3)
    for n in (2, 5, 17, 33, 34, 50, 63, 64) if quick else range(2, 65):
        M(YCC, n % 8, n, -1, 26, 20, 0, n % 2)
        M(GREY, 0, 100 + n, 7, 40, 40, 0, n % 2)
    for ct in (GREY, YCC):
        for p in ((0, 20), (4, 0), (3, 9)):
            for m in (1, 200, 102):
                j('entropy', 1, ct, 0, m, -2, 16, 16, *p)


def p_C19(j, quick, rnd):
    for ct in (GREY, YCC, CMYK, YCCK):
        for sf in (ALL_SF if ct else (0,)):
            for i, (w, h) in enumerate(((1, 1), (9, 17), (17, 33), (32, 16)) if quick else ((1, 1), (9, 17), (17, 33), (32, 16), (40, 40), (5, 65), (3, 2))):
                for m in ((0, 1, 200, 102)[(i + sf) % 4], 0) if quick else (0, 1, 3, 102):
                    j('custom', (i + sf) % 2, ct, sf, m, -1, w, h, 0)
                    if i % 2:
                        j('custom', 1, ct, sf, m, 2, w, h, 1)


    # all heights, all widths
    for ct in (GREY, YCC, CMYK, YCCK):
        for i, sf in enumerate(ALL_SF if ct else (0, 0)):
            for m in (0, 1, 200, 102):
                if quick and (i + ct + m) % 2:
                    continue
                j('custom', 1, ct, sf, m, -1, 1 + (ct + sf + m) % 9, 0, 0)
                j('custom', 1, ct, sf, m, -1, 0, 1 + (ct * 3 + sf + m) % 17, 0)


def p_C20(j, quick, rnd):
    for kind in range(5):
        j('settings', 1, kind)
        j('settings', 0, kind, v='core')
    for ct in range(9):
        j('alias', 1, ct, (0, 1, 200)[ct % 3])
        j('headers', 1, ct, -1, 0)
    j('config', 1, YCC, 9, 9, -1, 0, -1, 0)
    j('config', 1, YCC, 17, 17, -1, 200, -1, 0)
    # sequences of setters
    j('sequence', 1, 2, -1)
    for first in range(10):
        j('sequence', 1, 4 if quick else 5, first)
    j('sequence', 0, 3, -1, v='core')
    for i, ct in enumerate((GREY, YCC, RGB, CMYK, YCCK)):
        for k, m in enumerate((0, 1, 200, 103, 5)):
            if quick and (i + k) % 3:
                continue
            for tail in (i,) if quick else range(12):
                big = m in (0, 1) or not quick
                j('orders', 1, ct, 9 if big else 1, 9 if big else 1, (i + k) % 8 if ct else 0, m, tail)
        j('defaults', i % 2, ct, *((1, 1) if quick and i % 2 else (17, 17)), 1)
    j('defaults', 0, BGRA, 9, 9, 1, v='core')


def p_C22(j, quick, rnd):
    F = lambda *a: j('fitting', 1, *a)
    # all colour types, factors and modes with one picture
    for ct in range(9):
        w, h = ((9, 9), (17, 9), (8, 17))[ct % 3]
        j('config', 1, ct, w, h, -1, -1, (-1, 2, 1)[ct % 3], 8)
    for n in range(4, 65, 6) if quick else range(2, 65):
        ct = (GREY, YCC, CMYK, YCCK)[n % 4]
        j('config', n % 2, RGB if n % 4 == 1 else ct, 17, 9, -1, n, -1 if n % 3 else 2, 8)
        F(ct, n % 8 if ct else 0, 100 + n, (-1, 1, 3)[n % 3], 17, 17, 7, rnd.randrange(1000))
    # sequences of shapes of blocks
    for i, m in enumerate((1, 103, 164, 0, 200) if quick else (1, 0, 200, 2, 64) + tuple(range(102, 165, 3))):
        ri = (-1, 1, 2)[i % 3]
        F(GREY, 0, m, ri, 24, 8, 8, 0)
        F(GREY, 0, m, -1 if ri > 0 else 2, 16, 16, 8, 0)
        F(YCC, 0, m, ri, 8, 8, 8, 0)
        if not quick or i < 2:
            F(YCC, 3, m, -1, 9, 8, 8, 0)
            F(CMYK, 0, m, ri, 8, 8, 8, 0)
    # runs of any length, and any value of a coefficient
    for m in (1, 0, 102, 104, 108, 133, 164):
        for at in (0, 20, 47) if quick else range(0, 63, 4):
            F(GREY, 0, m, -1, 16, 8, 0, at)
        F(GREY, 0, m, (-1, 1)[m % 2], 16, 8, 6, 1 + rnd.randrange(62))
        F(YCC, 4, m, -1, 16, 8, 4, rnd.randrange(4))
        F(YCCK, 2, m, 1, 16, 8, 4, 5)
        F(GREY, 0, m, 2, 24, 16, 4, rnd.randrange(6))
    for m in (0, 200, 2):
        F(YCC, 0, m, -1, 9, 9, 2, rnd.randrange(100))
        F(YCC, 5, m, -1, 9, 9, 2, rnd.randrange(100))
    # the same values with any restart interval
    F(GREY, 0, 1, -2, 24, 16, 7, rnd.randrange(1000))
    F(YCC, 1, 1, -2, 17, 8, 7, rnd.randrange(1000))
    F(YCC, 1, 103, -2, 17, 8, 7, rnd.randrange(1000))
    F(GREY, 0, 0, -2, 24, 16, 7, rnd.randrange(1000))
    if not quick:
        F(GREY, 0, 1, -1, 16, 8, 1, 0); F(YCC, 0, 1, -1, 8, 8, 1, 0)
        for s in range(40):
            F((GREY, YCC, CMYK, YCCK)[s % 4], s % 8 if s % 4 else 0, (1, 103, 105, 140)[s // 4 % 4], s % 7 - 1, 33, 25, 7, 1000 + s)
    # frequencies
    T = lambda *a: j('opt_fit', *a)
    T(0, 2, 5); T(0, 2, 40)
    for n in (5, 12, 17, 18, 25):
        for at in {0, n // 2, n - 1}:
            T(1, n, at)
    for n in (4, 9, 14):
        T(2, n, n // 2)
    for n, v in ((1, 1), (2, 1), (3, 2), (6, 5), (10, 1)) if quick else ((1, 1), (2, 1), (3, 2), (10, 5), (17, 1), (24, 1)):
        T(3, n, v)
    for n in (2, 16, 100, 200, 255, 256):
        for k in range(4):
            T(4, n, rnd.randrange(250) * 4 + k)
    if not quick:
        T(0, 3, 3); T(0, 2, 400)
        for n in range(5, 40):
            T(1, n, rnd.randrange(n))
        for k in range(100):
            T(4, rnd.randrange(2, 257), rnd.randrange(1000))


def p_C21(j, quick, rnd):
    H = lambda *a, **k: j('history', *a, **k)
    # colour type, sampling factor, mode, width, height
    some = [(YCC, 3, 0, 17, 16), (GREY, 0, 1, 9, 9), (CMYK, 1, 200, 9, 9), (RGB, 0, 0, 9, 17), (YCCK, 6, 1, 33, 8), (CMYCCK, 3, 103, 9, 9),
            (BGRA, 3, 0, 18, 9), (RGBA, 2, 64, 9, 9), (GREY, 0, 0, 24, 16), (BGR, 0, 1, 8, 9), (YCC, 5, 5, 9, 9), (GREY, 0, 104, 17, 9)]
    n = len(some)
    for i, a in enumerate(some):
        for k in ((1 + i % 4,) if quick else range(n)):
            b = some[(i + k) % n]
            avx = int((i + k) % 4 > 0)
            # arbitrary pixels; any interval; density; qualities; tables; segments
            for m, o in enumerate((1, 2 + 4, 16, 32, 64 + 8)):
                if not quick or m == 0 or (m + i) % 4 < 2:
                    H(avx, 0, *a, *b, o)
            for kind in (1, 2, 3, 4, 5):
                o = (0, 2 + 4 * (kind == 3), 64 * (kind == 3), 4)[(i + kind) % 4] if kind in (2, 3, 4) else 0
                if o & 2 and (kind == 4 and quick or b[2] == 1 or b[2] > 100):
                    o += 126
                if kind in (1, 5):
                    slow = a[2] == 1 or a[2] > 100 or b[2] == 1 or b[2] > 100 or a[3] > 9
                    o = 256 * (29 if slow else 11) + 65536 * rnd.randrange(29) if quick else 0
                if not quick or kind in (2 + i % 2, 4) or kind == (1, 5)[i // 2 % 2]:
                    H(avx, kind, *a, *b, o)
        if a[4] > 8 and a[2] not in (1, 103, 104):
            H(1, 4, *a, *a, 128)
    for a in ((YCC, 3, 0, 17, 33), (GREY, 0, 0, 25, 17), (YCCK, 1, 0, 33, 17), (RGB, 4, 0, 33, 17), (RGB, 0, 64, 9, 17)):
        H(1, 4, *a, *a, 128)
        H(1, 4, *a, GREY, 0, 0, 24, 24, 128)
        H(1, 5, *a, GREY, 0, 0, 24, 24, 128 + 256 * 23 + 65536 * rnd.randrange(23))
    # every write
    H(1, 1, GREY, 0, 0, 8, 8, GREY, 0, 0, 8, 8, 0)
    H(1, 5, GREY, 0, 0, 8, 8, GREY, 0, 0, 8, 8, 0)
    H(1, 1, YCC, 3, 200, 9, 8, YCC, 3, 0, 8, 8, 0)
    H(0, 5, YCC, 0, 0, 8, 8, CMYK, 0, 0, 8, 8, 0)
    H(1, 1, GREY, 0, 1, 8, 8, GREY, 0, 1, 8, 8, 256 * 3 + 65536 * rnd.randrange(3))
    # encoders that share everything but one thing
    H(1, 0, GREY, 0, 0, 8, 8, GREY, 0, 0, 8, 8, 256)
    H(0, 0, YCC, 0, 0, 8, 8, YCC, 0, 0, 8, 8, 256)
    for x, y in (((YCC, 3, 0, 17, 9), (RGB, 3, 0, 17, 9)), ((RGB, 0, 0, 9, 9), (BGR, 0, 0, 9, 9)), ((GREY, 0, 1, 9, 9), (GREY, 0, 1, 9, 17)),
                 ((YCC, 0, 200, 9, 9), (YCC, 0, 5, 9, 9)), ((CMYK, 0, 0, 9, 9), (YCCK, 0, 0, 9, 9)), ((RGBA, 0, 0, 40, 2), (RGBA, 0, 0, 33, 2))):
        for a, b in ((x, y), (y, x)):
            for o in (1, 2, 16):
                H(1, 0, *a, *b, o)
            for kind in (2, 3, 4):
                if not quick or (kind == 3) == (a == x):
                    H(1, kind, *a, *b, 64 if kind == 3 else 0)
    for kind in range(6):
        o = 256 * 37 + 65536 * rnd.randrange(29) if kind in (1, 5) else 0
        H(0, kind, GREY, 0, 1, 9, 9, YCC, 3, 0, 9, 9, o, v='core')
        H(0, kind, YCC, 1, 0, 9, 9, GREY, 0, 103, 9, 9, o, v='core')
        H(0, kind, YCC, 0, 1, 8, 9, RGB, 0, 0, 9, 9, 2 if kind == 0 else o, v='file')


ASSUMPTIONS = [
    'the LLVM IR rustc emits for the dev profile (opt-level 2, debug assertions, overflow checks) means what the executor says',
    'functions of core, alloc and std that have no IR are models in the executor (memcpy, allocation, formatting, atomics, sorting)',
    'the AVX2 intrinsics have the semantics of the LLVM operations and of the models of x86 intrinsics in the executor',
    'allocation does not fail; the target is 64-bit',
    'checks over coded data replace the transform by a hook (cfg jpeg_encoder_verif) that supplies coefficients or records samples',
    'rewriting rules of the executor are sound (tested against the solver in each run)',
]
BOUNDS = {
    'C01': 'headers of every width and height (1..65535), restart interval, density and interleaved sampling factor for each of the 9 colour types; '
           'pictures of the listed sizes up to 33x17 (thorough: 33x16 in 8 sampling factors) in 10 modes with any restart interval, segment and density; '
           'entropy-coded data of 17x16 pictures with the coefficient patterns of C03; 200x120 pictures with fixed content; all pairs of predefined and '
           'two custom tables; files made by new_file, new or over an older one (lengths in the jobs)',
    'C02': 'every width, height, restart interval, density, 16 names of factors (interleaved layouts) and 9 colour types, up to the first scan; '
           'all fields again in complete streams of pictures of about 9x11; scalar and AVX2 code',
    'C03': 'pictures of 1 to 20 blocks whose coefficients are: any two DC values (-1024..1023) in neighbouring blocks; one AC coefficient of any value '
           '(-1023..1023) at the listed positions; two coefficients at any two positions (all run lengths); 62 arbitrary values of magnitude 8..15; two '
           'arbitrary values of 512..1023 at the listed bit alignments (0..33 bits in front, thorough 0..61); fixed mixed blocks with one arbitrary DC value '
           'in every layout; sequences of bits of 7..88 (thorough 96) arbitrary bits, in particular any contents of the 64-bit buffer; any of 4 shapes (empty, full, run up to the end, one coefficient) for each of up to 4 blocks. Not all coefficients of a block have arbitrary size at once',
    'C04': 'all 63 scan counts with a picture of 2 to 20 blocks each, fixed mixed coefficients and one arbitrary DC value; any two positions, any value of one '
           'AC coefficient, arbitrary large values at the listed positions for 6 scan counts; with and without optimized tables',
    'C05': 'a scan of 73728 MCUs; every restart interval (0..65535) for pictures of up to 25 (thorough 66) MCUs per scan in all layouts, 5 (7) modes; coefficients fixed mixed with '
           'one arbitrary DC value, or with arbitrary DC values around a marker',
    'C06': 'families of statistics: up to 3 (thorough 4) arbitrary counts, Fibonacci counts of up to 44 symbols with one count arbitrary, powers of two with '
           'one arbitrary count up to 2^20, equal counts with any one rarer, pseudorandom counts of up to 256 symbols with one arbitrary; tables in streams '
           'of 24x16 pictures; any of 4 shapes for each of up to 4 blocks; default tables as used for the coefficients of largest size',
    'C07': '9 table types x luma/chroma x all 256 qualities (complete); custom tables with any one value in any position, any two in both tables; rounding for all divisors 1..255 '
           'and all transform outputs -8200..8200 at one index (thorough 6 indices) each, and in whole blocks of 64 arbitrary outputs for both code paths; blocks in a stream with one arbitrary transform output per job',
    'C08': 'all blocks of samples -128..127 (256^64), no bound, each of the 64 outputs, scalar and AVX2; constant blocks through the encoder up to 3 blocks wide',
    'C09': 'all colours, no bound',
    'C10': 'all pixels arbitrary for the listed sizes up to 33 pixels wide (thorough: width 1..41), samples before the transform are compared; complete '
           'streams of fixed pictures up to 40x17 with arbitrary alpha and trailing bytes; rows of pictures of up to 65535x65535 pixels with arbitrary pixels at both ends',
    'C11': 'fixed picture of 73728 blocks; all pixels arbitrary for the listed sizes up to 33x33; fixed pictures for all widths 1..320 or heights 1..240 (thorough: both up to 40x20), and widths or heights up to '
           '4089; the samples given to the transform are compared with the pixels by the block the decoder finds them in; pictures of widths or heights up to 65535 with one value per MCU, one of them arbitrary; rows of '
           'pictures and blocks of components of up to 65535x65535, around offsets of 2^31 and 2^32 bytes',
    'C12': 'segments of 0, 3, 17, 65519, 65532 and 65533 arbitrary (at least at both ends) bytes, every length up to 599, 40 and 300 segments together, equal ones and any that may be equal; ICC profiles of the listed lengths around multiples of 65519 '
           'up to 255*65519 with arbitrary bytes at chunk borders; one profile of up to 131039 bytes among four segments',
    'C13': 'every width, height (0..65535) and data length up to 2^36; every segment number and length up to 2^36, also between legal ones; ICC lengths up to 2^36, also followed by a legal profile; sizes up to 20x10 '
           'with exactly enough and up to 3 bytes too little data',
    'C14': 'for pictures of up to 17x9 in 9 layouts and modes: failure after any number of bytes, any one call interrupted or accepting one byte, '
           'any chunk size 1..80, failing flush (27 kinds of errors), real BufWriter and LineWriter over a failing writer, slices and cursors of any length; error type std::io::Error '
           'and the no_std writer; new_file with a disk that is full after any number of bytes or a missing directory (real std, libc modelled)',
    'C15': 'all blocks of samples for the transform (no bound); all blocks of outputs -8200..8200 for the quantization, every divisor at 22 (64) positions; all pixels arbitrary for the listed widths up to 100 (thorough: 1..139); complete '
           'streams of fixed 41x19 pictures',
    'C16': 'every access of the code executed for arbitrary pixels with widths 1..41 and up to 97 (thorough: 1..179), heights 1..9, each colour type; fixed '
           '300x70 picture; reads of uninitialised bytes are tracked for the whole encoder; rows of pictures of up to 65535x65535, around offsets of '
           '2^31 and 2^32 bytes',
    'C17': 'pictures of up to 73728 blocks; the jobs listed in the evidence: all blocks through the transform, all divisors and transform outputs, all options with small pictures, '
           'coefficients of largest size, statistics families of C06, fixed pictures up to 800x600, rows of pictures of up to 65535x65535',
    'C18': 'fixed pictures up to 40x40 and arbitrary pixels of 19x10 in all layouts, 10 modes, any restart interval, density and segment; areas of one colour (first of 4 values) and noise with a different step for each coefficient; coefficient patterns of C03',
    'C19': 'arbitrary samples for sizes up to 32x33 in all layouts, in 4 modes',
    'C20': 'every argument of every setter (complete); sequences of up to 4 (thorough 5) setters with any arguments; three setters in any order before four others; '
           'all factors, aliases and modes with 17x9 pictures',
}
BOUNDS['C22'] = ('tables of streams up to 24x16 (thorough: 33x25): any of 4 shapes for each of 4 blocks, all runs of zeros between two coefficients, any value of '
                  'one AC or two DC coefficients, all AC coefficients of two blocks arbitrary with a magnitude of 8..15 (default tables), any restart interval; '
                  'pseudo-random blocks; all colour types, factors and modes with one picture; the frequency families of C06. Optimality is not claimed for '
                  'tables with codes of 16 bits made from 1597 symbols or more')
BOUNDS['C21'] = ('pairs of encodings of pictures up to 33x8 from 12 combinations of colour type, factor and mode, in both orders and repeated: arbitrary pixels, '
                 'any restart interval, any density, 14 pairs of qualities, 20 pairs of tables, up to 3 segments and an ICC profile; one of them failing at any write, refused in 8 ways, '
                 'built at the same time, or run inside of the other at any row request or write. Threads that run at the same time are not covered beyond that')
SYM = 'symbolic execution of the compiled crate (LLVM IR), assertions decided by SMT solvers'
TECHNIQUE = {
    '': SYM,
    'C08': SYM + ' and exact linear arithmetic',
    'C09': SYM + ' and exact linear arithmetic',
    'C14': SYM + '; symbolic failure point of the writer',
    'C15': SYM + '; equivalence of both code paths',
    'C16': SYM + '; bounds and initialisation of every access',
}
