"""Textures with position coded images (specs/Surfaces.tla)."""
from common import *


def off(f, m, d):
    return (37*f + 11*m + 101*d) % 256


def ext(n, m):
    return max(n >> m, 1)


class Shape:
    def __init__(self, dim, w, h, d, arr, mips):
        self.dim, self.w, self.h, self.arr = dim, w, 1 if dim == D1 else h, arr
        self.d = d if (dim == D3 or arr) else 1
        self.mips = min(mips, maxmips(dim, w, self.h, self.d))
        self.faces = 6 if dim == CUBE else 1

    def depth_at(self, m):
        return ext(self.d, m) if self.dim == D3 else self.d

    def surfaces(self):
        return [(f, m, d) for m in range(self.mips) for d in range(self.depth_at(m)) for f in range(self.faces)]

    def pixels(self):
        return sum(ext(self.w, m)*ext(self.h, m) for f, m, d in self.surfaces())

    def params(self, f, t, **kw):
        p = {'f': f, 't': t, 'dim': self.dim, 'w': self.w, 'h': self.h, 'depth': self.d, 'arr': self.arr or self.dim == D3, 'isarr': self.arr, 'mips': self.mips, 'faces': self.faces}
        p.update(kw)
        return p


def build_texture(rng, sh, f, t, cs=0, alpha=None, slot=0, threads=None, overwrite=True, mask=15):
    """Commands that set every image and convert."""
    mode = 'posu8' if t in (UN, SN) else 'posint'
    L = ['tinit %d %d %d %d %d %d %d' % (slot, sh.dim, sh.w, sh.h, sh.d if (sh.arr or sh.dim == D3) else 0, sh.mips, cs)]
    s = sh.surfaces()
    rng.shuffle(s)
    for (fc, m, d) in s:
        w, h = ext(sh.w, m), ext(sh.h, m)
        if overwrite and rng.random() < .15:
            L.append('iq 9 %d %d %d %d %s %d' % (RGBAF, w, h, cs, mode, rng.randrange(256)))
            L.append('tset %d fc 9 %d %d %d' % (slot, fc, m, d))
        L.append('iq 0 %d %d %d %d %s %d' % (RGBAF, w, h, cs, mode, off(fc, m, d)))
        L.append('tset %d %s 0 %d %d %d' % (slot, rng.choice(['c', 'm', 'fc', 'fm']) if sh.faces == 1 else rng.choice(['fc', 'fm']), fc, m, d))
    L.append('tconv %d %d %d %d %d %d %d' % (slot, f, t, rng.randrange(5), rng.randrange(4) if alpha is None else alpha, mask, threads if threads is not None else rng.choice([1, 2, 3, 8])))
    return L


def random_shape(rng, maxpix=1500, allow1d=True, widths=(1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 32, 33, 34, 63, 64, 65, 67, 95, 96, 97, 129)):
    while True:
        dim = rng.choice([D1, D2, D2, D3, CUBE] if allow1d else [D2, D2, D3, CUBE])
        w = rng.choice(widths)
        h = w if (dim == CUBE and rng.random() < .7) else rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 16, 32, 33])
        arr = dim != D3 and rng.random() < .45
        d = rng.choice([1, 2, 3, 4, 5]) if (dim == D3 or arr) else 1
        sh = Shape(dim, w, h, d, arr, rng.choice([1, 1, 2, 3, 4, 8]))
        if sh.pixels() <= maxpix:
            return sh
