"""C02: every generated mip level derives from the right source image."""
from surf import *

VALS = ['0', '1/4', '1/2', '3/4', '1']
FMT_EXACT = [8, 15, 16, 1, 5, 2, 6, 9]     # formats for values 0 and 1 only


def colour(rng, values=(0, 1, 2, 3, 4)):
    return [rng.choice(values) for _ in range(4)]


def fixc(c):
    return [16384*v for v in c]


def image(rng, slot, w, h, cs, c, L, exact=False):
    """an image of one colour; returns the colour it really has"""
    fmt = RGBAF
    if exact and all(v in (0, 4) for v in c):
        fmt = rng.choice([8, 9, 10, 1, 5, 15, 16])
        if fmt in (1, 2, 15, 16):
            c = [c[0]]*3 + [4]
        elif fmt in (5, 6):
            c = c[:3] + [4]
    L.append('iq %d %d %d %d %d const %s' % (slot, fmt, w, h, cs, ' '.join(VALS[v] for v in c)))
    return c


def case(rng, i, thorough, wide=None):
    dim = rng.choice([D1, D2, D2, D3, D3, CUBE])
    w = rng.choice([1, 2, 3, 4, 5, 7, 8, 16])
    h = 1 if dim == D1 else rng.choice([1, 2, 3, 4, 5, 8])
    arr = dim != D3 and rng.random() < .5
    d = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11]) if dim == D3 else rng.choice([1, 2, 3]) if arr else 1
    limit = 60
    if wide == 'levels':        # as many levels as there can be
        dim, arr = rng.choice([D1, D2, CUBE, D3]), rng.random() < .3
        w, h = rng.choice([(300, 2), (4100, 3), (2, 70001), (65536, 1), (70001, 1), (1, 1030)] if dim in (D2, D3) else [(65536, 1), (5000, 1)] if dim == D1 else [(300, 300), (260, 1)])
        arr = arr and dim != D3
        d = rng.choice([1, 2, 5]) if dim == D3 else rng.choice([1, 2]) if arr else 1
    elif wide == 'elements':
        dim, arr, limit = rng.choice([D1, D2, D2, CUBE]), True, 400
        w, h, d = rng.choice([2, 3]), 1 if dim == D1 else rng.choice([1, 2, 3]), rng.choice([17, 50]) if dim == CUBE else rng.choice([66, 130, 260, 300])
    elif wide == 'depth':
        dim, arr, limit = D3, False, 700
        w, h, d = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([17, 33, 66, 128, 130, 260, 300])
    faces = 6 if dim == CUBE else 1
    cs = rng.randrange(2)
    mx = maxmips(dim, w, h, d)
    mips0 = rng.choice([1, 1, 2, mx])
    mips0 = min(mips0, mx)
    ask = rng.choice([0, 1, 2, 3, mx, mx, mx, 99])
    if wide:
        ask = rng.choice([mx, mx, mx - 1, 99])
    levels = max(1, min(ask, mx))
    filt = rng.choice([0, 0, 1, 2, 3, 4])
    L = ['tinit 0 %d %d %d %d %d %d' % (dim, w, h, d if (arr or dim == D3) else 0, mips0, cs)]
    base = []
    indicator = dim == D3 and rng.random() < .6
    pick = [rng.randrange(d) for _ in range(3)]
    for e in range(d):
        for f in range(faces):
            ics = cs if (rng.random() < .8 or indicator) else 1 - cs
            c = [4 if e == pick[k] else 0 for k in range(3)] + [4] if indicator else colour(rng)
            if indicator and rng.random() < .3:
                c[3] = 2 if e % 2 else 4
            if dim == D3 and rng.random() < .3 and not indicator:
                c = [rng.choice([0, 4]) for _ in range(4)]
            c = image(rng, 0, w, h, ics, c, L)
            L.append('tset 0 %s 0 %d 0 %d' % (rng.choice(['fc', 'fm']), f, e))
            base.append({'f': f, 'd': e, 'c': fixc(c), 'cs': ics})
    # images of further levels that generation replaces
    for m in range(1, mips0):
        for e in range(ext(d, m) if dim == D3 else d):
            for f in range(faces):
                if rng.random() < .7:
                    image(rng, 0, ext(w, m), ext(h, m), cs, colour(rng), L)
                    L.append('tset 0 fc 0 %d %d %d' % (f, m, e))
    def gen_customs():
        customs, args = [], []
        n = 0
        density = rng.choice([0, .3, .6, 1])*(.4 if wide else 1)
        for m in range(1, mx):
            dd = ext(d, m) if dim == D3 else d
            once3 = rng.random() < .5
            all3 = rng.random() < density
            for e in range(dd):
                for f in range(faces):
                    if not (all3 if dim == D3 else rng.random() < density):
                        continue
                    once = once3 if dim == D3 else rng.random() < .5
                    ics = rng.randrange(2) if rng.random() < .5 else cs
                    c = colour(rng, (0, 4) if rng.random() < .5 else (0, 1, 2, 3, 4))
                    slot = 1 + n
                    c = image(rng, slot, rng.choice([1, 2, 3, ext(w, m), 5]), rng.choice([1, 2, ext(h, m), 4]), ics, c, L, exact=True)
                    L.append('%s %d %d %d' % (rng.choice(['cmref', 'cmown']), slot, slot, 0 if once else 1))
                    args += [f, m, e, slot]
                    customs.append({'f': f, 'm': m, 'd': e, 'c': fixc(c), 'cs': ics, 'once': once})
                    n += 1
                    if n > limit:
                        return customs, args
        return customs, args
    if rng.random() < .25:      # an earlier generation leaves no trace
        _, args = gen_customs()
        L.append('tgen 0 %d %d %s' % (rng.randrange(5), rng.choice([1, 2, mx]), ' '.join(map(str, args)))) if dim != D3 else L.append('tgen 0 %d %d' % (rng.randrange(5), mx))
    customs, args = gen_customs()
    if len(customs) > limit and dim == D3:
        return None
    # custom images at places without an image have no effect
    if rng.random() < .3:
        s = 900
        image(rng, s, 2, 2, cs, colour(rng), L)
        L.append('cmref %d %d %d' % (s, s, rng.randrange(2)))
        args += [0, 0, 0, s] + [0, 30, 0, s] + [0, 1, 50 + d, s]
        # (nor have incomplete sets at levels that are not generated)
        for m in range(levels, mx):
            if dim == D3 and not any(x['m'] == m for x in customs):
                args += [0, m, rng.randrange(ext(d, m)), s]
    L.append('tgen 0 %d %d %s' % (filt, ask, ' '.join(map(str, args))))
    L.append('tpix 0')
    return Case('mip-%s%d-dim%d-%dx%dx%d-l%d-f%d' % ((wide or '') + '-' if wide else '', i, dim, w, h, d, levels, filt), L,
                {'dim': dim, 'w': w, 'h': h, 'd': d, 'faces': faces, 'cs': cs, 'levels': levels, 'filter': filt, 'base': base, 'customs': customs}, weight=2000 if wide else None)


def grain(rng, i):
    """textures with different pixels everywhere, box and linear filters"""
    dim = rng.choice([D1, D2, D2, D3, D3, D3, CUBE])
    po2 = rng.random() < .6
    pick = (lambda *a: rng.choice([v for v in a if not po2 or v & (v - 1) == 0]))
    w = pick(1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16)
    h = 1 if dim == D1 else pick(1, 2, 3, 4, 5, 7, 8)
    if dim == CUBE:
        w = h = pick(1, 2, 3, 4)
    arr = dim != D3 and rng.random() < .4
    d = pick(1, 2, 3, 4, 5, 6, 8) if dim == D3 else rng.choice([2, 3]) if arr else 1
    faces = 6 if dim == CUBE else 1
    cs = int(rng.random() < .25)
    levels = maxmips(dim, w, h, d)
    filt = rng.choice([0, 0, 1])
    binary = rng.random() < .3

    def pixels(W, H):
        return [[[rng.choice([0, 4]) if binary else rng.randrange(5) for _ in range(W)] for _ in range(H)] for _ in range(4)]

    def fill(slot, c):
        H, W = len(c[0]), len(c[0][0])
        return 'iq %d %d %d %d %d px %s' % (slot, RGBAF, W, H, cs, ' '.join(VALS[c[k][y][x]] for y in range(H) for x in range(W) for k in range(4)))
    L = ['tinit 0 %d %d %d %d 1 %d' % (dim, w, h, d if (arr or dim == D3) else 0, cs)]
    base, customs, args, surfaces = [], [], [], []
    for e in range(d):
        for f in range(faces):
            c = pixels(w, h)
            L.append(fill(0, c))
            L.append('tset 0 %s 0 %d 0 %d' % (rng.choice(['fc', 'fm']), f, e))
            base.append({'f': f, 'd': e, 'c': c})
    density = rng.choice([0, .3, .4])
    for m in range(1, levels):
        dd = ext(d, m) if dim == D3 else d
        all3, once3 = rng.random() < density, rng.random() < .5
        for e in range(dd):
            for f in range(faces):
                if all3 if dim == D3 else rng.random() < density:
                    c, once = pixels(ext(w, m)*(1 if rng.random() < .7 else rng.choice([2, 3])), ext(h, m)*(1 if rng.random() < .7 else rng.choice([2, 4]))), once3 if dim == D3 else rng.random() < .5
                    slot = 1 + len(customs)
                    L.append(fill(slot, c))
                    L.append('%s %d %d %d' % (rng.choice(['cmref', 'cmown']), slot, slot, 0 if once else 1))
                    args += [f, m, e, slot]
                    customs.append({'f': f, 'm': m, 'd': e, 'c': c, 'once': once})
    L.append('tgen 0 %d %d %s' % (filt, levels, ' '.join(map(str, args))))
    for m in range(levels):
        for e in range(ext(d, m) if dim == D3 else d):
            for f in range(faces):
                L += ['itex %d 0 %d %d %d' % (len(surfaces), f, m, e), 'idump %d' % len(surfaces)]
                surfaces.append([f, m, e])
    return Case('grain-%d-dim%d-%dx%dx%d-f%d' % (i, dim, w, h, d, filt), L,
                {'dim': dim, 'w': w, 'h': h, 'd': d, 'faces': faces, 'cs': cs, 'levels': levels, 'filter': filt,
                 'base': base, 'customs': customs, 'surfaces': surfaces})


def run():
    c = Check('C02')
    c.model('MipChainModel', 'MipChainModel', expect_states=1000)
    n = 900 if not c.thorough else 12000
    cases = [x for x in (case(c.rng, i, c.thorough) for i in range(n)) if x]
    for k in range(4 if not c.thorough else 60):
        cases += [x for x in (case(c.rng, n + 3*k + j, c.thorough, wide) for j, wide in enumerate(('levels', 'elements', 'depth'))) if x]
    c.conform('MipTrace', cases)
    c.conform('MipGrainTrace', [grain(c.rng, i) for i in range(200 if not c.thorough else 3000)])
    return c.finish(rule='random textures of every dimension with one-coloured images, custom images of both replacements at random places, every level judged')


if __name__ == '__main__':
    main(run, 'C02')
