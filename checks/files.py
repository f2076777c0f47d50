"""C07-C09: saved files read back by a specification of the file format."""
from surf import *


def run_files(prop, module, ftype, excluded):
    c = Check(prop)
    rng = c.rng
    cases = []
    n = 0
    for name, t in all_pairs():
        if name in excluded:
            continue
        f = FNO[name]
        shapes = []
        for dim in (D1, D2, D3, CUBE):       # every kind of texture for every format
            for arr in ((False,) if dim == D3 else (False, True)):
                if not c.thorough and rng.random() < .35:
                    continue
                w = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13])
                h = 1 if dim == D1 else w if dim == CUBE and rng.random() < .8 else rng.choice([1, 2, 3, 4, 5, 8])
                d = rng.choice([1, 2, 3, 4, 5]) if (arr or dim == D3) else 1
                shapes.append(Shape(dim, w, h, d, arr, rng.choice([1, 2, 3, 9])))
        for _ in range(2 if not c.thorough else 20):
            shapes.append(random_shape(rng, 600 if not c.thorough else 4000))
        for sh in shapes:
            for cs in ((0, 1) if name in SRGB and t == UN else (0,)):
                alpha = rng.randrange(4)
                L = build_texture(rng, sh, f, t, cs, alpha, mask=rng.choice([15, 15, 7, 3]))
                for s in sh.surfaces():
                    L.append('tdata 0 %d %d %d' % s)
                L.append('tsave 0 %d %s' % (ftype, rng.choice(['vec', 'stream'])))
                cases.append(Case('%s-%d-cs%d-dim%d-%dx%dx%d%s-m%d-a%d-%d' % (name, t, cs, sh.dim, sh.w, sh.h, sh.d, 'a' if sh.arr else '', sh.mips, alpha, n), L,
                                  sh.params(f, t, cs=cs, alpha=alpha)))
                n += 1
    # large extents, so that no field is cut to 8 or 16 bits
    for (dim, w, h, d, arr) in ((D1, 300, 1, 1, False), (D2, 300, 2, 1, False), (D2, 2, 300, 1, False), (D2, 1, 1, 300, True), (D3, 1, 1, 300, False), (CUBE, 1, 1, 260, True)) + (((D1, 70000, 1, 1, False), (D2, 1, 66000, 1, False)) if True else ()):
        sh = Shape(dim, w, h, d, arr, 1)
        f = FNO['R8']
        L = build_texture(rng, sh, f, UN, 0, 1, overwrite=False)
        for s in sh.surfaces():
            L.append('tdata 0 %d %d %d' % s)
        L.append('tsave 0 %d vec' % ftype)
        cases.append(Case('large-dim%d-%dx%dx%d%s' % (dim, w, h, d, 'a' if arr else ''), L, sh.params(f, UN, cs=0, alpha=1)))
    # many surfaces, many levels
    many = [(D2, 1, 1, 4200, True, 1), (D3, 1, 1, 4200, False, 1), (D1, 1, 1, 2100, True, 1), (CUBE, 1, 1, 700, True, 1), (D3, 2, 3, 1100, False, 11), (D1, 65536, 1, 1, False, 17), (D2, 3, 33000, 1, False, 16)]
    if c.thorough:
        many += [(D2, 2, 1, 9000, True, 2), (D2, 65540, 2, 1, False, 17), (CUBE, 2, 2, 1500, True, 2), (D3, 1, 2, 9000, False, 14)]
    for (dim, w, h, d, arr, mips) in many:
        sh = Shape(dim, w, h, d, arr, mips)
        f = FNO['R8']
        shape = '%d %d %d %d' % (sh.faces, sh.mips, sh.d, dim == D3)
        L = ['tinit 0 %d %d %d %d %d 0' % (dim, w, h, d if arr or dim == D3 else 0, mips), 'tsetall 0 %s %d %d' % (shape, w, h),
             'tconv 0 %d %d 2 1 15 3' % (f, UN), 'tdatas 0 ' + shape, 'tsave 0 %d vec' % ftype]
        cases.append(Case('many-dim%d-%dx%dx%d%s-m%d' % (dim, w, h, d, 'a' if arr else '', sh.mips), L, sh.params(f, UN, cs=0, alpha=1)))
    c.conform(module, cases)
    return c.finish(rule='every (format, type, colour space) the file type holds x 1D/2D/3D/cube, arrays, mip counts and alpha modes; every header field and every byte of the file accounted for')
