"""C21: value-range adjustment maps source ranges onto target ranges."""
from imgs import *

BITS = {GRAY8: [8], GRAY16: [16], RGB5: [5]*3, RGB565: [5, 6, 5], RGB8: [8]*3, RGB16: [16]*3, RGBA8: [8]*4, RGBA16: [16]*4}


def run():
    c = Check('C21')
    rng = c.rng
    cases = []
    n = 0

    def codes(orig, count):
        b = BITS[orig]
        res = []
        for i in range(count):
            res.append([rng.choice([0, 2**k - 1, rng.randrange(2**k), rng.randrange(2**k)]) if count < 200 else (i*(j + 1) + 7*j) % 2**k for j, k in enumerate(b)])
        return res

    def toks(orig, px):
        b = BITS[orig]
        t = ['%d/%d' % (v, 2**k - 1) for v, k in zip(px, b)]
        if len(t) == 1:
            t = t*3
        return t + ['1']*(4 - len(t))

    def add(orig, fmt, typ, given, w, h, cs, px):
        nonlocal n
        L = ['iq 1 %d %d %d %d px %s' % (orig, w, h, cs, ' '.join(' '.join(toks(orig, p)) for p in px))]
        if fmt != orig:
            L.append('iconv 0 1 %d 0' % fmt)
        else:
            L[0] = L[0].replace('iq 1', 'iq 0')
        L += ['iraw 0', 'iadjust 0 %d %d' % (typ, given), 'iraw 0']
        cases.append(Case('%s-in-%s-type%d%s-%dx%d-%d' % (INAME[orig], INAME[fmt], typ, '' if given else '-auto', w, h, n), L,
                          {'fmt': fmt, 'orig': given, 'type': typ, 'w': w, 'h': h, 'cs': cs, 'codes': px}))
        n += 1
    for orig in NORM:
        wider = [orig] + [f for f in FLOATS if {FLOAT: 1, DOUBLE: 1, COMPLEX: 2, RGBF: 3, RGBAF: 4}[f] >= min(len(BITS[orig]), 3) or f == RGBAF]
        for fmt in wider:
            if len(BITS[orig]) == 4 and fmt not in (orig, RGBAF):
                continue
            for typ in range(6):
                for given in ([orig, 0] if fmt == orig else [orig]):
                    for (w, h) in ([(3, 2), (4, 3)] if not c.thorough else [(3, 2), (5, 3), (1, 7), (9, 8), (33, 4)]):
                        add(orig, fmt, typ, given, w, h, rng.randrange(2), codes(orig, w*h))
    # every code of the narrow formats, a dense set of the wide ones
    for orig in NORM:
        for fmt in (orig, RGBAF):
            for typ in (SN, UI, IN):
                add(orig, fmt, typ, orig, 256, 1, 0, codes(orig, 256))
    # values between the codes, as processing leaves them
    for orig in NORM:
        for typ in (SN, UI, IN):
            for _ in range(2 if not c.thorough else 12):
                vals = [[rng.choice([0, 65536, rng.randrange(65537), rng.randrange(65537)]) for _ in range(4)] for _ in range(24)]
                if len(BITS[orig]) == 1:
                    vals = [[v[0]]*3 + [65536] for v in vals]
                elif len(BITS[orig]) == 3:
                    vals = [v[:3] + [65536] for v in vals]
                L = ['iq 0 %d 6 4 %d px %s' % (RGBAF, 0, ' '.join('%d/65536' % x for v in vals for x in v)), 'iraw 0', 'iadjust 0 %d %d' % (typ, orig), 'iraw 0']
                cases.append(Case('between-%s-type%d-%d' % (INAME[orig], typ, n), L, {'fmt': RGBAF, 'orig': orig, 'type': typ, 'w': 6, 'h': 4, 'cs': 0, 'vals': vals}))
                n += 1
    # everything else stays as it is: other original formats, integer images, other types
    for fmt in IFMT:
        for orig in [0] + IFMT:
            o = orig or fmt
            for typ in range(6):
                applies = typ in (SN, UI, IN) and o in NORM and fmt not in INTS
                if applies or (not c.thorough and rng.random() < .6):
                    continue
                L = [distinct(rng, 0, fmt, 3, 2, 0), 'iraw 0', 'iadjust 0 %d %d' % (typ, orig), 'iraw 0']
                cases.append(Case('keep-%s-orig%s-type%d' % (INAME[fmt], INAME[orig], typ), L, {'fmt': fmt, 'orig': orig, 'type': typ, 'w': 3, 'h': 2, 'cs': 0}))
    cases.append(Case('invalid', ['iadjust 0 1 0', 'istate 0'], {'fmt': 0, 'orig': 0, 'type': 1}))
    cases += large(rng, cases, 6 if not c.thorough else 40)
    c.conform('RangeTrace', cases)
    return c.finish(rule='every original format in every format that can hold it, every texture type; every code of the narrow formats; all other combinations byte-identical')


if __name__ == '__main__':
    main(run, 'C21')
