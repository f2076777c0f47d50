"""C20: image format conversion preserves colours up to destination precision."""
from imgs import *
import c13


def image(rng, fmt, w, h, cs, wide=True):
    L = []
    for _ in range(w*h):
        if fmt in FLOATS:
            v = ['%d/4096' % rng.choice([0, 4096, rng.randrange(4097), rng.randrange(4097), rng.randrange(-2000, 7900) if wide else rng.randrange(4097)]) for _ in range(3)]
        elif fmt in INTS:
            v = [str(rng.choice([0, 1, rng.randrange(0 if cs else -16000, 2 if cs else 16000), rng.randrange(2)]))]*3
        else:
            v = [c13.value(rng, fmt) for _ in range(3)]
        L += v + [c13.alpha(rng, fmt, cs)]
    return 'iq 0 %d %d %d %d px %s' % (fmt, w, h, cs, ' '.join(L))


def run():
    c = Check('C20')
    rng = c.rng
    cases = []
    n = 0
    for sf in IFMT:
        for df in IFMT:
            for cs in (0, 1):
                for g in (0, 1):
                    for k in range(1 if not c.thorough else 8):
                        w, h = rng.choice([(4, 3), (5, 2), (1, 7), (7, 1), (3, 3)]) if k < 6 else (33, 17)
                        L = [image(rng, sf, w, h, cs), 'idump 0', 'iconv 1 0 %d %d' % (df, g), 'idump 1', 'idump 0']
                        # and back
                        L += ['iconv 2 1 %d %d' % (sf, rng.randrange(2)), 'idump 2']
                        cases.append(Case('%s-%s-cs%d-g%d-%d' % (INAME[sf], INAME[df], cs, g, n), L, {'fmt': sf, 'w': w, 'h': h, 'cs': cs, 'src': 0}))
                        n += 1
    # all codes of 8 bits (and fewer) to everything
    for sf, m in ((GRAY8, 255), (RGBA8, 255), (RGB8, 255), (RGB565, 63), (RGB5, 31)):
        for df in IFMT:
            cs = rng.randrange(2)
            px = ' '.join('%d/%d %d/%d %d/%d %d/%d' % (k, m, m - k, m, (k*7) % (m + 1), m, k, m) for k in range(m + 1))
            cases.append(Case('codes-%s-%s' % (INAME[sf], INAME[df]), ['iq 0 %d %d 1 %d px %s' % (sf, m + 1, cs, px), 'idump 0', 'iconv 1 0 %d %d' % (df, rng.randrange(2)), 'idump 1'], {'fmt': sf, 'w': m + 1, 'h': 1, 'cs': cs, 'src': 0}))
    # integers to integers, exactly
    edge = {INT16: [-32768, -32767, -1, 0, 1, 32767], UINT16: [0, 1, 32767, 32768, 65535], INT32: [-2**31, -2**31 + 1, -65536, -65535, -32769, -32768, -1, 0, 32767, 32768, 65535, 65536, 2**31 - 1], UINT32: [0, 1, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]}
    for sf in INTS:
        for df in INTS:
            if sf == df:
                continue
            lo, hi = min(edge[sf]), max(edge[sf])
            vs = edge[sf] + [rng.randrange(lo, hi + 1) for _ in range(20)]
            vs = vs[:len(vs)//2*2]
            L = ['iq 0 %d %d 2 0 px %s' % (sf, len(vs)//2, ' '.join('%d 0 0 1' % v for v in vs)), 'idump 0', 'iraw 0', 'iconv 1 0 %d %d' % (df, rng.randrange(2)), 'iraw 1']
            cases.append(Case('int-%s-%s' % (INAME[sf], INAME[df]), L, {'fmt': sf, 'w': len(vs)//2, 'h': 2, 'cs': 0, 'src': 0}))
    cases.append(Case('invalid', ['iconv 1 0 8 0', 'iconv 1 0 1 1', 'iconv 1 0 0 0'], {'fmt': 0, 'w': 0, 'h': 0, 'cs': 0}))
    cases.append(Case('to-invalid', ['iq 0 8 2 2 0 posu8 3', 'idump 0', 'iconv 1 0 0 0', 'idump 0'], {'fmt': 8, 'w': 2, 'h': 2, 'cs': 0}))
    cases += large(rng, cases, 6 if not c.thorough else 40)
    c.conform('ConvertTrace', cases)
    return c.finish(rule='all 17x17 pairs of formats in both colour spaces and gray modes, there and back; every code of the narrow formats; integer pairs exactly')


if __name__ == '__main__':
    main(run, 'C20')
