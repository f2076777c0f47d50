"""Image formats."""
from common import *

INVALID, GRAY8, GRAY16, RGB5, RGB565, RGB8, RGB16, RGBF, RGBA8, RGBA16, RGBAF, INT16, UINT16, INT32, UINT32, FLOAT, DOUBLE, COMPLEX = range(18)
IFMT = list(range(1, 18))
INAME = 'Invalid Gray8 Gray16 RGB5 RGB565 RGB8 RGB16 RGBF RGBA8 RGBA16 RGBAF Int16 UInt16 Int32 UInt32 Float Double Complex'.split()
IBYTES = [0, 1, 2, 2, 2, 3, 6, 12, 4, 8, 16, 2, 2, 4, 4, 4, 8, 16]
NORM = [GRAY8, GRAY16, RGB5, RGB565, RGB8, RGB16, RGBA8, RGBA16]
FLOATS = [RGBF, RGBAF, FLOAT, DOUBLE, COMPLEX]
INTS = [INT16, UINT16, INT32, UINT32]


def distinct(rng, i, fmt, w, h, cs):
    """a picture with (mostly) distinct pixels, made of values every format keeps exactly where it can"""
    if fmt in FLOATS:
        return 'iq %d %d %d %d %d %s %d' % (i, fmt, w, h, cs, rng.choice(['posint', 'posu8']), rng.randrange(256))
    if fmt == RGB5:      # bit 15 is not part of a pixel
        return 'iq %d %d %d %d %d posu8 %d' % (i, fmt, w, h, cs, rng.randrange(256))
    return 'iq %d %d %d %d %d bytes %d' % (i, fmt, w, h, cs, rng.randrange(1 << 30))


def repeated(case, nx, ny):
    """the case for the repetition of its picture (the first command makes it, in slot 0)"""
    return Case('%s-x%dx%d' % (case.id, nx, ny), [case.lines[0], 'itile 0 %d %d' % (nx, ny), 'iview %d %d' % (nx, ny)] + case.lines[1:], dict(case.params, nx=nx, ny=ny))


def large(rng, cases, count, keep=lambda c: True, cells=150000):
    """repetitions of some of the cases, wider, higher or larger than 2^16"""
    plan = [c for c in cases if 'w' in c.params and c.params['w'] > 0 and c.params['h'] > 0 and c.lines[0].startswith('iq 0 ') and keep(c)]
    byfmt = {}
    for c in plan:
        byfmt.setdefault(c.params['fmt'], []).append(c)
    res = []
    for f in sorted(byfmt):
        for k, c in enumerate(rng.sample(byfmt[f], min(count, len(byfmt[f])))):
            w, h = c.params['w'], c.params['h']
            wide, high, both = (66000//w + 1, 1), (1, 66000//h + 1), (270//w + 1, 270//h + 1)
            nx, ny = (wide, high, both)[k % 3]
            if w*nx*h*ny > cells*6:
                nx, ny = both
            res.append(repeated(c, nx, ny))
    return res
