"""C18: normal maps are computed from the right neighbours."""
from imgs import *

DST = [RGBF, RGBAF, RGB8, RGBA8, RGB16, RGBA16, RGB5, RGB565, COMPLEX]


def heights(rng, fmt, n, scale):
    """red, green, blue, alpha of n pixels, with slopes of at most 32"""
    L = []
    top = max(1, int(31/max(abs(scale), .1)))
    flat = rng.random() < .1
    v0 = None
    for _ in range(n):
        if fmt in NORM:
            m = {GRAY8: 255, GRAY16: 65535, RGB5: 31, RGB565: 31, RGB8: 255, RGB16: 65535, RGBA8: 255, RGBA16: 65535}[fmt]
            v = ['%d/%d' % (rng.choice([0, m, rng.randrange(m + 1), rng.randrange(m + 1)]), m) for _ in range(3)]
        elif fmt in INTS:
            lo = 0 if fmt in (UINT16, UINT32) else -min(top//2, 9)
            v = [str(rng.randint(lo, min(top//2, 9)))]*3
        else:
            v = ['%d/4096' % rng.randrange(-2048, 8192) for _ in range(3)]
            if top < 3:
                v = ['%d/4096' % rng.randrange(4096) for _ in range(3)]
        if fmt in (GRAY8, GRAY16, FLOAT, DOUBLE):
            v = [v[0]]*3
        if flat:
            v0 = v0 or v
            v = v0
        L += v + [rng.choice(['1', '0', '1/2'])]
    return L


def run():
    c = Check('C18')
    rng = c.rng
    c.model('NormalModel', 'NormalModel', expect_states=5000)
    cases = []
    n = 0

    def add(fmt, w, h, o, scale, dst, cs):
        nonlocal n
        L = ['iq 0 %d %d %d %d px %s' % (fmt, w, h, cs, ' '.join(heights(rng, fmt, w*h, scale))), 'idump 0', 'inormal 1 0 %d %s %d' % (o, scale, dst), 'idump 1', 'idump 0']
        cases.append(Case('%s-%dx%d-o%d-s%s-to%s-%d' % (INAME[fmt], w, h, o, scale, INAME[dst], n), L, {'fmt': fmt, 'w': w, 'h': h, 'cs': cs, 'o': o, 'scale': int(scale*65536), 'dst': dst}))
        n += 1
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 3), (1, 5), (6, 1), (5, 4), (3, 7), (9, 5)]
    for fmt in IFMT:
        for o in range(8):
            for (w, h) in (rng.sample(sizes, 5) if not c.thorough else sizes + [(17, 9), (33, 20)]):
                add(fmt, w, h, o, rng.choice([1.0, 1.0, 2.5, 0.25, 7.75, -1.5, 0.0]), rng.choice(DST[:2]), rng.randrange(2))
        for dst in IFMT:
            add(fmt, rng.randrange(1, 6), rng.randrange(1, 6), rng.randrange(8), rng.choice([1.0, 3.0]), dst, rng.randrange(2))
    for dst in DST:      # every format of the map with every option
        for o in range(8):
            for fmt in (GRAY8, RGBAF):
                for (w, h) in rng.sample(sizes, 2 if not c.thorough else 8):
                    add(fmt, w, h, o, rng.choice([1.0, 2.5, 7.75, -1.5]), dst, 0)
    for (w, h) in ((40, 3), (3, 40), (32, 33)):
        for o in range(8):
            add(GRAY16, w, h, o, 2.0, RGBF, 0)
    for i, (f, d) in enumerate(((0, 7), (5, 0))):
        L = (['iq 0 5 2 2 0 posu8 1', 'idump 0'] if f else []) + ['inormal 1 0 0 1 %d' % d]
        cases.append(Case('nothing-%d' % i, L, {'fmt': f, 'w': 2, 'h': 2, 'cs': 0, 'o': 0, 'scale': 65536, 'dst': d}))
    # wrapped pictures repeat, however large they are
    for x in rng.sample([x for x in cases if x.params['o'] & 6 and x.params['w']*x.params['h'] > 3 and x.params['fmt'] and x.params['dst']], 60 if not c.thorough else 400):
        o, w, h = x.params['o'], x.params['w'], x.params['h']
        cases.append(repeated(x, *((270//w + 1, 270//h + 1) if o & 6 == 6 and rng.random() < .4 else (66000//w + 1, 1) if o & 2 else (1, 66000//h + 1))))
    c.conform('NormalTrace', cases)
    return c.finish(rule='every source format x every option set x sizes with and without inner pixels, every format of the map; every pixel judged; laws of the specification on all 3x2 height fields')


if __name__ == '__main__':
    main(run, 'C18')
