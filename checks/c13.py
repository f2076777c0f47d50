"""C13: channel operations compute the documented per-pixel function."""
from imgs import *


def value(rng, fmt, small=False):
    if fmt in (GRAY8, RGB8, RGBA8):
        k = rng.choice([0, 255, 1, 254, rng.randrange(256), rng.randrange(256), rng.randrange(40), rng.randrange(256)])
        return '%d/255' % k
    if fmt in (GRAY16, RGB16, RGBA16):
        return '%d/65535' % rng.choice([0, 65535, 1, 65534, rng.randrange(65536), rng.randrange(65536), rng.randrange(3000)])
    if fmt == RGB5:
        return '%d/31' % rng.randrange(32)
    if fmt == RGB565:
        return '%d/%d' % rng.choice([(rng.randrange(32), 31), (rng.randrange(64), 63)])
    if fmt in FLOATS:
        return '%d/4096' % rng.choice([0, 4096, rng.randrange(-512, 7800), rng.randrange(4097), rng.randrange(4097), rng.randrange(300)])
    lo, hi = {INT16: (-32768, 32767), UINT16: (0, 65535), INT32: (-2**31, 2**31 - 1), UINT32: (0, 2**32 - 1)}[fmt]
    if small:
        return str(rng.choice([0, 1, 1]))
    return str(rng.choice([rng.randrange(max(lo, -9000), 9000), rng.randrange(100)]))


def alpha(rng, fmt, cs):
    m = {RGBA8: 255, RGBA16: 65535}.get(fmt, 4096)
    if fmt in (RGBAF, COMPLEX) and rng.random() < .2:      # nothing keeps floating point within 0 and 1
        return '%d/4096' % (rng.choice([8192, 6144, -2048, rng.randrange(4097, 8192), rng.randrange(-4096, 0)]) if cs == 0 else rng.randrange(4097, 4480))
    return '%d/%d' % (rng.choice([0, m, rng.randrange(m + 1), rng.randrange(m + 1), m//2, 1]), m)


def image(rng, fmt, w, h, cs, small=False):
    L = []
    for _ in range(w*h):
        L += [value(rng, fmt, small), value(rng, fmt, small), value(rng, fmt, small), alpha(rng, fmt, cs)]
    return 'iq 0 %d %d %d %d px %s' % (fmt, w, h, cs, ' '.join(L))


OPS = ['iswz', 'igray', 'ipremul', 'ics']


def op(rng, name=None, sel=None):
    name = name or rng.choice(OPS)
    if name == 'iswz':
        return 'iswz 0 %s' % ' '.join(str(x) for x in (sel or [rng.randrange(5) for _ in range(4)]))
    if name == 'ics':
        return 'ics 0 %d' % rng.randrange(2)
    return name + ' 0'


def run():
    c = Check('C13')
    rng = c.rng
    cases = []
    n = 0
    for fmt in IFMT:
        isint = fmt in INTS
        for cs in (0, 1):
            sizes = [(1, 1), (5, 4), (8, 3), (3, 9)] if not c.thorough else [(1, 1), (2, 1), (1, 3), (5, 4), (8, 3), (3, 9), (17, 16), (33, 20), (64, 3)]
            for (w, h) in sizes + [(37, 11)]:
                for name in OPS:
                    o = 'ics 0 %d' % (1 - cs) if name == 'ics' else op(rng, name)
                    small = isint and (name == 'ics' or cs == 1 and name == 'igray')
                    L = [image(rng, fmt, w, h, cs, small), 'idump 0', o, 'idump 0']
                    if name == 'ics':
                        L += ['ics 0 %d' % (1 - cs), 'idump 0', 'ics 0 %d' % cs, 'idump 0']
                    cases.append(Case('%s-cs%d-%dx%d-%s-%d' % (INAME[fmt], cs, w, h, name, n), L, {'fmt': fmt, 'w': w, 'h': h, 'cs': cs}))
                    n += 1
            # every selection of a channel at every place
            for k in range(4):
                for s in range(5):
                    sel = [rng.randrange(5) for _ in range(4)]
                    sel[k] = s
                    cases.append(Case('%s-cs%d-swz%s-%d' % (INAME[fmt], cs, ''.join(map(str, sel)), n), [image(rng, fmt, 3, 2, cs), 'idump 0', op(rng, 'iswz', sel), 'idump 0'], {'fmt': fmt, 'w': 3, 'h': 2, 'cs': cs}))
                    n += 1
            for _ in range(6 if not c.thorough else 120):     # sequences
                L = [image(rng, fmt, 4, 3, cs, isint), 'idump 0']
                for _ in range(rng.choice([2, 3, 4, 5])):
                    L += [op(rng), 'idump 0']
                if fmt in FLOATS:
                    L[0] = 'iq 0 %d 4 3 %d px %s' % (fmt, cs, ' '.join('%d/4096' % rng.randrange(4097) for _ in range(48)))
                cases.append(Case('%s-cs%d-seq-%d' % (INAME[fmt], cs, n), L, {'fmt': fmt, 'w': 4, 'h': 3, 'cs': cs}))
                n += 1
    # every 8-bit code through every colour operation
    for fmt, m in ((GRAY8, 255), (RGBA8, 255), (RGB565, 63)):
        for cs in (0, 1):
            for o in ('ics 0 %d' % (1 - cs), 'igray 0'):
                px = ' '.join('%d/%d %d/%d %d/%d %d/%d' % (k, m, m - k, m, (k*7) % (m + 1), m, k, m) for k in range(m + 1))
                cases.append(Case('codes-%s-cs%d-%s' % (INAME[fmt], cs, o.split()[0]), ['iq 0 %d %d 1 %d px %s' % (fmt, m + 1, cs, px), 'idump 0', o, 'idump 0'], {'fmt': fmt, 'w': m + 1, 'h': 1, 'cs': cs}))
    for cs in (0, 1):    # every alpha with a few colours
        px = ' '.join('%d/255 1 1/2 %d/255' % ((k*3) % 256, k) for k in range(256))
        cases.append(Case('alphas-cs%d' % cs, ['iq 0 %d 256 1 %d px %s' % (RGBA8, cs, px), 'idump 0', 'ipremul 0', 'idump 0'], {'fmt': RGBA8, 'w': 256, 'h': 1, 'cs': cs}))
    # far outside of 0..1: linear light has no end
    for fmt in FLOATS:
        for name in ('iswz', 'igray', 'ipremul'):
            for k in range(3 if not c.thorough else 30):
                px = []
                for _ in range(40):
                    px += ['%d/4096' % rng.choice([rng.randrange(4096*3000), -rng.randrange(4096*3000), rng.randrange(4096*40), 4096*1000]) for _ in range(3)] + [alpha(rng, fmt, 0)]
                cases.append(Case('bright-%s-%s-%d' % (INAME[fmt], name, k), ['iq 0 %d 8 5 0 px %s' % (fmt, ' '.join(px)), 'idump 0', op(rng, name), 'idump 0'], {'fmt': fmt, 'w': 8, 'h': 5, 'cs': 0}))
    cases.append(Case('invalid', ['iswz 0 0 1 2 3', 'igray 0', 'ipremul 0', 'ics 0 0', 'ics 0 1'], {'fmt': 0}))
    cases += large(rng, cases, 6 if not c.thorough else 40)
    for name in ('swz', 'ipremul', 'igray', 'ics'):      # every operation wide, high and both
        have = {x.id for x in cases}
        cases += [x for x in large(rng, [x for x in cases if '-%s' % name in x.id and 'nx' not in x.params], 3 if not c.thorough else 12, keep=lambda x: x.params['fmt'] in (RGBA8, RGBAF, RGB16)) if x.id not in have]
    c.conform('ChannelTrace', cases)
    return c.finish(rule='every format, colour space and operation, every channel selector at every position, sequences of operations; every pixel judged')


if __name__ == '__main__':
    main(run, 'C13')
