"""C11: image pixel access is exact, bounded and isolated."""
from imgs import *

FAR = ['4294967295', '2147483647', '2147483648', '65536', '1000000']


def dyadic(rng, fmt):
    r = rng.random()
    if r < .55:
        return '%d/65536' % rng.choice([rng.randrange(65537), rng.randrange(65537), rng.randrange(600), 65536 - rng.randrange(600), 32768])
    if r < .75:
        return '%d/65536' % rng.randrange(-70000, 200000)
    if fmt in INTS:
        if r < .80:
            return rng.choice(['inf', '-inf', '1e30', '-1e30', '0', '-0.5', '0.5', '-1', '2147483647', '-2147483648', '2147483648', '4294967295', '4294967296', '-4294967296', '2147483646.5'])
        if r < .9:
            return str(rng.choice([32767, 32768, -32768, -32769, 65535, 65536, -1, 0, 1, 1000000, -1000000, 1073741823, -1073741824, 70000]))
        return '%d/65536' % rng.randrange(-2**rng.randrange(20, 49), 2**rng.randrange(20, 50))
    if fmt in NORM and r < .85:
        return rng.choice(['inf', '-inf', '-5', '1e20', '-1e20', '2', '1.5', '70000', '-0.25'])
    if fmt in FLOATS and r < .9:      # every bit of the mantissa
        return '%d/65536' % (rng.choice([1, -1])*rng.randrange(2**23, 2**24)*2**rng.randrange(0, 24) if fmt not in (DOUBLE, COMPLEX) else rng.randrange(-2**47, 2**47))
    return str(rng.choice([0, 1, -1, 2, 100, 254, -200]))


def code(rng, fmt):
    """the middle between two codes, one unit below and above"""
    m = {GRAY8: 255, RGB8: 255, RGBA8: 255, RGB5: 31, RGB565: rng.choice([31, 63]), GRAY16: 65535, RGB16: 65535, RGBA16: 65535}[fmt]
    k = rng.randrange(m)
    return '%d/65536' % min(65536, max(0, ((2*k + 1)*65536)//(2*m) + rng.choice([-1, 0, 1, 2])))


def coord(rng, n):
    return str(rng.randrange(n)) if rng.random() < .8 else rng.choice([str(n), str(n + 1)] + FAR)


def unit(rng):
    return '%d/65536' % rng.randrange(65537)


def history(rng, fmt, w, h, cs, steps, gray=None):
    L = []
    if rng.random() < .5 or fmt in FLOATS:
        L.append('iinit 0 %d %d %d %d' % (fmt, w, h, cs))
    else:
        L.append('iq 0 %d %d %d %d bytes %d' % (fmt, w, h, cs, rng.randrange(1 << 30)))
    L += ['istate 0', 'iraw 0', 'idump 0']
    for _ in range(steps):
        x, y = coord(rng, w), coord(rng, h)
        g = gray if gray is not None else 0 if fmt in (GRAY8, GRAY16, FLOAT, DOUBLE) else rng.randrange(2)
        if g and fmt in (GRAY8, GRAY16, FLOAT, DOUBLE):
            c = [unit(rng) for _ in range(4)] if rng.random() < .9 else rng.choice([['0']*4, ['1']*4, ['1', '0', '0', '1'], ['0', '1', '0', '0'], ['0', '0', '1', '1'], ['1.25', '1.5', '1.75', '1']])
        elif fmt in NORM and rng.random() < .4:
            c = [code(rng, fmt) for _ in range(4)]
        else:
            c = [dyadic(rng, fmt) for _ in range(4)]
        L += ['iset 0 %s %s %s %d' % (x, y, ' '.join(c), g), 'iraw 0']
        L.append('iget 0 %s %s' % (x, y))
        if rng.random() < .2:
            L.append('iget 0 %s %s' % (coord(rng, w), coord(rng, h)))
    return L + ['idump 0', 'istate 0']


def run():
    c = Check('C11')
    rng = c.rng
    cases = []
    n = 0
    for fmt in IFMT:
        for k in range(14 if not c.thorough else 250):
            w, h = rng.choice([(1, 1), (2, 3), (3, 2), (5, 2), (4, 4), (7, 1), (1, 6), (3, 3)])
            cs = rng.randrange(2)
            cases.append(Case('%s-cs%d-%dx%d-%d' % (INAME[fmt], cs, w, h, n), history(rng, fmt, w, h, cs, 14 if k else 4), {'fmt': fmt, 'w': w, 'h': h, 'cs': cs, 'valid': True}))
            n += 1
            if fmt in (GRAY8, GRAY16, FLOAT, DOUBLE):
                cases.append(Case('%s-gray-cs%d-%dx%d-%d' % (INAME[fmt], cs, w, h, n), history(rng, fmt, w, h, cs, 14, 1), {'fmt': fmt, 'w': w, 'h': h, 'cs': cs, 'valid': True}))
                n += 1
        # every pixel written once, in a random order
        w, h = rng.choice([(9, 5), (5, 9), (13, 3)])
        L = ['iinit 0 %d %d %d 0' % (fmt, w, h), 'istate 0', 'iraw 0']
        order = [(x, y) for x in range(w) for y in range(h)]
        rng.shuffle(order)
        for (x, y) in order:
            L += ['iset 0 %d %d %s 0' % (x, y, ' '.join('%d/256' % rng.randrange(257) if fmt not in INTS else str(rng.randrange(20000)) for _ in range(4))), 'iraw 0']
        cases.append(Case('%s-all-%dx%d' % (INAME[fmt], w, h), L + ['idump 0'], {'fmt': fmt, 'w': w, 'h': h, 'cs': 0, 'valid': True}))
        # every code of the narrow formats from raw memory
        if fmt in (GRAY8, RGB5, RGB565, RGB8, RGBA8, GRAY16, RGB16, RGBA16, INT16, UINT16, INT32, UINT32):
            cases.append(Case('%s-raw' % INAME[fmt], ['iq 0 %d 64 8 0 bytes %d' % (fmt, rng.randrange(1 << 30)), 'istate 0', 'iraw 0', 'idump 0'], {'fmt': fmt, 'w': 64, 'h': 8, 'cs': 0, 'valid': True}))
        for (w, h) in ((0, 0), (0, 3), (3, 0)):
            cases.append(Case('%s-empty-%dx%d' % (INAME[fmt], w, h), ['iinit 0 %d %d %d 0' % (fmt, w, h), 'istate 0', 'iset 0 0 0 1 1 1 1 0', 'iget 0 0 0', 'iraw 0', 'idump 0'], {'fmt': 0, 'w': 0, 'h': 0, 'cs': 0, 'valid': False}))
    for fmt in IFMT:      # coordinates and sizes beyond 16 bits
        for (w, h) in ((66001, 2), (3, 65999), (270, 263)):
            L = ['iq 0 %d %d %d 0 %s' % (fmt, w, h, 'posu8 5' if fmt in FLOATS else 'bytes 77'), 'istate 0']
            at = [(w - 1, h - 1), (w, h - 1), (0, h), (min(w - 1, 65536), min(h - 1, 65536))] + [(rng.randrange(w), rng.randrange(h)) for _ in range(4)]
            for (x, y) in at:
                v = [code(rng, fmt) if fmt in NORM else str(rng.randrange(200)) for _ in range(4)]
                L.append('iprobe 0 %d %d %s 0' % (x, y, ' '.join(v)))
            cases.append(Case('%s-large-%dx%d' % (INAME[fmt], w, h), L, {'fmt': fmt, 'w': w, 'h': h, 'cs': 0, 'valid': True}))
    cases.append(Case('invalid', ['istate 0', 'iset 0 0 0 1 1 1 1 0', 'iset 0 0 0 1 1 1 1 1', 'iget 0 0 0', 'iraw 0', 'idump 0'], {'fmt': 0, 'w': 0, 'h': 0, 'cs': 0, 'valid': False}))
    cases.append(Case('invalid-format', ['iinit 0 0 3 3 0', 'istate 0', 'iget 0 0 0'], {'fmt': 0, 'w': 0, 'h': 0, 'cs': 0, 'valid': False}))
    c.conform('MemoryTrace', cases)
    few = [x for x in cases if rng.random() < (.12 if not c.thorough else .5)]
    c.conform('MemoryTrace', few, variant='asan', name='-asan')
    return c.finish(rule='every format: random histories of writes and reads inside and outside of the image, the whole memory compared after each write; a share of them under AddressSanitizer')


if __name__ == '__main__':
    main(run, 'C11')
