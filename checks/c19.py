"""C19: resizing is size-exact, unbiased and confined."""
from imgs import *

FILTERS = ['box', 'linear', 'cubic', 'catmull', 'bspline']
MAXV = {GRAY8: 255, GRAY16: 65535, RGB5: 31, RGB565: 31, RGB8: 255, RGB16: 65535, RGBA8: 255, RGBA16: 65535}


def pixel(rng, fmt, cs):
    if fmt in NORM:
        m = MAXV[fmt]
        v = ['%d/%d' % (rng.choice([0, m, rng.randrange(m + 1), rng.randrange(m + 1), rng.randrange(m + 1)]), m) for _ in range(3)]
    elif fmt in INTS:
        lo = 0 if fmt in (UINT16, UINT32) else -60
        v = [str(rng.randint(lo, 60)) if cs == 0 else str(rng.randrange(2))]*3
    else:
        v = ['%d/4096' % (rng.randrange(-1024, 5500) if cs == 0 else rng.randrange(0, 5500)) for _ in range(3)]
    return v + ['%d/255' % rng.choice([0, 255, rng.randrange(256)])]


def iq(slot, fmt, cs, px):
    return 'iq %d %d %d %d %d px %s' % (slot, fmt, len(px[0]), len(px), cs, ' '.join(' '.join(p) for r in px for p in r))


def turned(g, px):
    h, w = len(px), len(px[0])
    if g == 'x':
        return [r[::-1] for r in px]
    if g == 'y':
        return px[::-1]
    return [[px[y][x] for y in range(h)] for x in range(w)]


def run():
    c = Check('C19')
    rng = c.rng
    c.model('ResizeModel', 'ResizeModel', expect_states=2000)
    cases = []
    n = 0
    sizes = [(4, 4, 2, 2), (6, 4, 3, 2), (6, 3, 2, 1), (5, 4, 3, 3), (3, 3, 7, 5), (2, 2, 4, 4), (1, 1, 5, 3), (8, 2, 3, 6), (5, 4, 5, 2), (4, 5, 2, 5), (9, 6, 3, 3), (7, 5, 1, 1),
             (1, 6, 1, 3), (6, 1, 2, 4), (2, 3, 6, 9), (10, 3, 2, 3), (3, 4, 3, 9), (12, 12, 4, 3)]
    for fmt in IFMT:
        for cs in (0, 1):
            for filt in range(5):
                plan = rng.sample(sizes, 4 if filt < 2 else 2) if not c.thorough else sizes + [tuple(rng.randrange(1, 13) for _ in range(4)) for _ in range(20)]
                if filt == 0:
                    plan = sorted(set(plan + [(4, 4, 2, 2), (6, 3, 2, 1)]))
                for (w, h, dw, dh) in plan:
                    g = rng.choice('xyt')
                    px = [[pixel(rng, fmt, cs) for _ in range(w)] for _ in range(h)]
                    o = turned(g, px)
                    L = [iq(0, fmt, cs, px), 'idump 0', iq(1, fmt, cs, o), 'idump 1', 'iresize 2 0 %d %d %d' % (dw, dh, filt)]
                    ok = fmt not in (INT16, INT32, UINT32, DOUBLE, COMPLEX) or filt < 2 or (w, h) == (dw, dh)
                    if ok:
                        L += ['idump 2', 'iresize 3 1 %d %d %d' % ((dh, dw, filt) if g == 't' else (dw, dh, filt)), 'idump 3']
                    L += ['idump 0']
                    cases.append(Case('%s-cs%d-%s-%dx%d-%dx%d-%s-%d' % (INAME[fmt], cs, FILTERS[filt], w, h, dw, dh, g, n), L, {'fmt': fmt, 'cs': cs, 'g': g, 'nx': 1, 'ny': 1}))
                    n += 1
                # uniform images, the same size, sizes that are none
                for _ in range(2 if not c.thorough else 10):
                    (w, h, dw, dh) = rng.choice(sizes)
                    p = pixel(rng, fmt, cs)
                    L = [iq(0, fmt, cs, [[p]*w]*h), 'idump 0', 'iresize 2 0 %d %d %d' % (dw, dh, filt)]
                    if fmt not in (INT16, INT32, UINT32, DOUBLE, COMPLEX) or filt < 2 or (w, h) == (dw, dh):
                        L += ['idump 2']
                    cases.append(Case('uniform-%s-cs%d-%s-%dx%d-%dx%d-%d' % (INAME[fmt], cs, FILTERS[filt], w, h, dw, dh, n), L, {'fmt': fmt, 'cs': cs, 'g': 'none', 'nx': 1, 'ny': 1}))
                    n += 1
                px = [[pixel(rng, fmt, cs) for _ in range(4)] for _ in range(3)]
                L = [iq(0, fmt, cs, px), 'idump 0', 'iresize 2 0 4 3 %d' % filt, 'idump 2', 'iresize 3 0 0 3 %d' % filt, 'iresize 3 0 4 0 %d' % filt, 'iresize 3 0 0 0 %d' % filt, 'iresize 4 9 2 2 %d' % filt, 'idump 0']
                cases.append(Case('same-%s-cs%d-%s-%d' % (INAME[fmt], cs, FILTERS[filt], n), L, {'fmt': fmt, 'cs': cs, 'g': 'none', 'nx': 1, 'ny': 1}))
                n += 1
    # every level of 8 bits, alone
    for fmt in (GRAY8, RGBA8, RGB565, GRAY16):
        for filt in range(5):
            for k in range(0, 256, 5 if not c.thorough else 1):
                p = ['%d/%d' % (min(k*MAXV[fmt]//255, MAXV[fmt]), MAXV[fmt])]*3 + ['%d/255' % (255 - k)]
                L = [iq(0, fmt, 0, [[p]*5]*3), 'idump 0', 'iresize 2 0 3 2 %d' % filt, 'idump 2']
                cases.append(Case('level%d-%s-%s' % (k, INAME[fmt], FILTERS[filt]), L, {'fmt': fmt, 'cs': 0, 'g': 'none', 'nx': 1, 'ny': 1}))
    for fmt in (INT16, INT32, UINT32, UINT16):      # integers lose their fraction only if there is one
        for filt in (0, 1):
            for v in ([1, 2, 3, 5, 7, 11, 41, 59] if not c.thorough else range(60)):
                for (w, h, dw, dh) in rng.sample(sizes, 2):
                    L = [iq(0, fmt, 0, [[[str(v)]*4]*w]*h), 'idump 0', 'iresize 2 0 %d %d %d' % (dw, dh, filt), 'idump 2']
                    cases.append(Case('whole%d-%s-%s-%dx%d-%dx%d' % (v, INAME[fmt], FILTERS[filt], w, h, dw, dh), L, {'fmt': fmt, 'cs': 0, 'g': 'none', 'nx': 1, 'ny': 1}))
    big = [(40, 20, 2, 1), (300, 1, 1, 1), (1, 290, 1, 1), (33, 17, 1, 1)] + ([(70, 40, 2, 1), (257, 3, 1, 1), (400, 170, 1, 1)] if c.thorough else [])
    for fmt in IFMT:      # one pixel out of hundreds
        for (w, h, dw, dh) in big:
            for filt in (0, 1) if c.thorough else [0 if fmt in (INT16, INT32, UINT32, DOUBLE, COMPLEX) else rng.randrange(2)]:
                p = pixel(rng, fmt, 0)
                cases.append(Case('many-%s-%s-%dx%d-%dx%d' % (INAME[fmt], FILTERS[filt], w, h, dw, dh), [iq(0, fmt, 0, [[p]*w]*h), 'idump 0', 'iresize 2 0 %d %d %d' % (dw, dh, filt), 'idump 2'], {'fmt': fmt, 'cs': 0, 'g': 'none', 'nx': 1, 'ny': 1}))
    for fmt in IFMT:      # more than 16 bits
        for k in range(3 if not c.thorough else 12):
            w, h, dw, dh = rng.choice([(6, 4, 3, 2), (4, 2, 2, 1), (10, 6, 5, 3)])
            nx, ny = [(66000//dw + 1, 1), (1, 66000//dh + 1), (270//dw + 1, 270//dh + 1)][k % 3]
            px = [[pixel(rng, fmt, 0) for _ in range(w)] for _ in range(h)]
            cases.append(repeated(Case('large-%s-%d' % (INAME[fmt], k), [iq(0, fmt, 0, px), 'idump 0', 'iresize 2 0 %d %d 0' % (dw*nx, dh*ny), 'idump 2'], {'fmt': fmt, 'cs': 0, 'g': 'none', 'nx': 1, 'ny': 1}), nx, ny))
            p = pixel(rng, fmt, 0)      # one colour: the same everywhere with every filter
            filt = rng.choice([1] if fmt in (INT16, INT32, UINT32, DOUBLE, COMPLEX) else [1, 2, 3, 4])
            cases.append(repeated(Case('large-%s-%s-%d' % (INAME[fmt], FILTERS[filt], k), [iq(0, fmt, 0, [[p]*w]*h), 'idump 0', 'iresize 2 0 %d %d %d' % (dw*nx, dh*ny, filt), 'idump 2'], {'fmt': fmt, 'cs': 0, 'g': 'none', 'nx': 1, 'ny': 1}), nx, ny))
    c.conform('ResizeTrace', cases)
    return c.finish(rule='every format x colour space x filter x sizes (reductions, enlargements, mixed, single pixels), each with a mirrored or transposed twin; every pixel judged against the kernel')


if __name__ == '__main__':
    main(run, 'C19')
