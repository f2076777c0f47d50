"""C05: every converted surface is its own image, pixel for pixel."""
from surf import *
import imgs
from c13 import image as picture


def run():
    c = Check('C05')
    rng = c.rng
    cases = []
    k = 0
    def add(sh, name, t, cs=0):
        nonlocal k
        f = FNO[name]
        L = build_texture(rng, sh, f, t, cs)
        for (fc, m, d) in sh.surfaces() + [(0, sh.mips, 0), (0, 0, sh.d)] + ([(1, 0, 0)] if sh.faces == 1 else []):
            L.append('tdata 0 %d %d %d' % (fc, m, d))
        cases.append(Case('%s-%d-%dx%dx%d-dim%d-%d' % (name, t, sh.w, sh.h, sh.d, sh.dim, k), L, sh.params(f, t)))
        k += 1
    pairs = all_pairs()
    # every pair at every width next to a multiple of 32 and at random shapes
    for name, t in pairs:
        for w in (1, 31, 32, 33, 64, 65):
            if not c.thorough and w in (31, 64) and rng.random() < .5:
                continue
            add(Shape(D2, w, rng.choice([1, 2, 3]), 1, False, 1), name, t)
        for _ in range(3 if not c.thorough else 16):
            add(random_shape(rng, 700 if not c.thorough else 3000), name, t)
        if name in SRGB and t == UN:
            add(random_shape(rng, 500), name, t, 1)
    for w in range(1, 140 if c.thorough else 100):     # every width in one format
        add(Shape(D2, w, 2, 1, False, 1), rng.choice(['R8', 'B8G8R8A8', 'R5G6B5', 'R16G16']), UN)
    # surfaces of more than 2^16 pixels
    big = [(D2, 257, 259), (D2, 4099, 17), (D1, 65573, 1), (D2, 3, 21851), (D2, 1021, 65), (D2, 65, 1021)]
    for i, (name, t) in enumerate(pairs):
        f = FNO[name]
        for (dim, w, h) in (big if c.thorough else [big[(i + c.seed) % len(big)], big[(i*5 + 2 + c.seed) % len(big)]][:2]):
            sh = Shape(dim, w, h, 1, False, 1)
            cases.append(Case('large-%s-%d-%dx%d-%d' % (name, t, w, h, len(cases)), [
                'tinit 0 %d %d %d 0 1 0' % (dim, w, h),
                'iq 0 %d %d %d 0 %s %d' % (RGBAF, w, h, 'tile8' if t in (UN, SN) else 'tileint', off(0, 0, 0)),
                'tset 0 c 0 0 0 0', 'tconv 0 %d %d 2 1 15 %d' % (f, t, rng.choice([1, 3, 8])),
                'tper 0 0 0 0 %d %d %d' % (BYTES[name], w, h)], sh.params(f, t), weight=40))
    # more than 2^21 pixels (2^16 batches), in thorough runs more than 2^24
    huge = [(1500, 1401), (2100001, 1), (3, 700001), (32771, 65)] + ([(4099, 4101)] if c.thorough else [])
    for i, (w, h) in enumerate(huge):
        for name, t in rng.sample([x for x in pairs if BYTES[x[0]] <= 4], 1 if not c.thorough or w == 4099 else 8):
            f = FNO[name]
            sh = Shape(D2, w, h, 1, False, 1)
            cases.append(Case('huge-%s-%d-%dx%d' % (name, t, w, h), [
                'tinit 0 1 %d %d 0 1 0' % (w, h),
                'iq 0 %d %d %d 0 %s %d' % (RGBAF, w, h, 'tile8' if t in (UN, SN) else 'tileint', off(0, 0, 0)),
                'tset 0 m 0 0 0 0', 'tconv 0 %d %d 2 1 15 %d' % (f, t, rng.choice([1, 3, 8])),
                'tper 0 0 0 0 %d %d %d' % (BYTES[name], w, h)], sh.params(f, t), weight=300))
    c.conform('SurfaceTrace', cases)
    # images of every format in every color space, by reference and moved, at any surface
    cases = []
    for fmt in imgs.IFMT:
        for cs in (0, 1):
            for tcs in (0, 1):
                for variant in ('c', 'm', 'fc', 'fm') if not c.thorough else ('c', 'm', 'fc', 'fm')*6:
                    cube = variant[0] == 'f' and rng.random() < .7
                    dim = CUBE if cube else rng.choice([D1, D2, D2, D3])
                    m, d, arr = rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), rng.random() < .5
                    w, h = rng.choice([(5, 4), (1, 1), (3, 7), (8, 2)])
                    if dim == D1:
                        h = 1
                    f = rng.randrange(6) if cube else 0
                    if dim != D3 and not arr:
                        d = 0
                    p = {'fmt': fmt, 'cs': cs, 'tcs': tcs, 'w': w, 'h': h}
                    whole = fmt in imgs.INTS and cs != tcs
                    L = ['tinit 1 %d %d %d %d %d %d' % (dim, w << m, h if dim == D1 else h << m, 4 if dim == D3 else 2 if arr else 0, m + 1, tcs), picture(rng, fmt, w, h, cs, whole), 'idump 0']
                    if rng.random() < .5:      # in place of another one
                        L.append('iq 5 %d %d %d %d posu8 %d' % (rng.choice([RGBAF, imgs.RGB8, imgs.GRAY8]), w, h, rng.randrange(2), rng.randrange(256)))
                        L.append('tset 1 %s 5 %d %d %d' % (rng.choice(['fc', 'fm']), f, m, d))
                    L += ['tset 1 %s 0 %d %d %d' % (variant if variant[0] == 'f' or not cube else 'f' + variant, f, m, d), 'idump 0', 'itex 1 1 %d %d %d' % (f, m, d), 'idump 1']
                    if tcs == 0 and m == 0 and dim != CUBE and not arr and dim != D3:      # the only surface
                        L += ['iraw 1', 'tconv 1 %d %d %d %d 15 %d' % (FNO['R32G32B32A32'], FL, rng.randrange(5), rng.randrange(4), rng.choice([1, 2, 8])), 'tdata 1 0 0 0']
                    cases.append(Case('store-%s-cs%d-in-cs%d-%s-%d' % (imgs.INAME[fmt], cs, tcs, variant, len(cases)), L, p))
    c.conform('StoreTrace', cases)
    return c.finish(rule='every valid (format, type) x widths around multiples of 32 x random 1D/2D/3D/cube/array/mip shapes; every pixel of every surface is judged')


if __name__ == '__main__':
    main(run, 'C05')
