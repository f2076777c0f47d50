"""C06: format capability answers agree with the format table and with what convert and save do."""
from common import *
import itertools


def run():
    c = Check('C06')
    rng = c.rng
    cases = [Case('finfo', ['finfo %d' % f for f in range(0, 66)] + ['finfo 255', 'finfo 1000'])]
    # level counts: the complete small product and powers of two with neighbours
    ext = list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 2**30, 2**31 - 1]
    trip = list(itertools.product(range(1, 9), repeat=3)) + [tuple(rng.choice(ext) for _ in range(3)) for _ in range(1500 if not c.thorough else 8000)]
    for d in range(4):
        cases.append(Case('maxmips-%d' % d, ['maxmips %d %d %d %d' % (d, 1 if False else w, h, k) for (w, h, k) in trip]))
    # file names
    exts = ['.dds', '.ktx', '.pvr', '.png', '', '.', '.dd', '.ddsx', 'dds', '.ktx2', '.pv', '.kt', '_pvr', '.dds.bak', '.ktx/x', '.d ds', 'pvr', 'ktx']
    def variants(e):
        r = {e, e.upper(), e.capitalize(), e.title(), e.swapcase()}
        for _ in range(6):
            r.add(''.join(ch.upper() if rng.random() < .5 else ch for ch in e))
        return sorted(r)
    k = 0
    for e in exts:
        for v in variants(e):
            for pre in ['', 'a', 'dir/a', '/x/y.dds/z', 'a.ktx', 'pvr', 'dds', '..', 'a.b.c', 'x.KTX.png', 'ktx.']:
                n = pre + v
                if not n or ' ' in n:
                    continue
                low = n.lower()
                ex = low[-4:] if low[-4:] in ('.dds', '.ktx', '.pvr') else ''
                cases.append(Case('ftype-%d' % k, ['ftype ' + n], {'ext': ex}))
                k += 1
    cases.append(Case('ftype-empty', ['ftype'], {'ext': ''}))
    # the complete product of formats, types, colour spaces and file types through convert and save
    for f in list(range(0, 63)) + [100]:
        for t in range(6):
            for cs in (0, 1):
                name = LAYOUT[f - 1] if 1 <= f <= 28 else 'F%d' % f
                dim = rng.choice([D2, D2, CUBE, D3, D1])
                w = rng.choice([1, 3, 8, 16]); h = 1 if dim == D1 else w; faces = 6 if dim == CUBE else 1
                lines = ['iq 0 %d %d %d %d const 1/2 1/4 3/4 1' % (RGBAF, w, h, cs),
                         'tinit 0 %d %d %d %d 1 %d' % (dim, w, h, 1 if dim == D3 else 0, cs)]
                for k in range(faces):
                    lines.append('tset 0 %s 0 %d 0 0' % (rng.choice(['fc', 'fm']), k))
                lines.append('tconv 0 %d %d %d %d 15 %d' % (f, t, rng.randrange(5), rng.randrange(4), rng.choice([1, 2, 4])))
                for ft in range(4):
                    lines.append('tsave 0 %d %s nodump' % (ft, rng.choice(['vec', 'stream'])))
                cases.append(Case('conv-%s-%d-%d' % (name, t, cs), lines, {'f': f, 't': t, 'cs': cs}))
    c.conform('FormatTrace', cases)
    return c.finish(rule='complete product of format numbers 0..65 x types x file types x colour spaces; level counts over the complete 8x8x8 box plus sampled '
                    'extents up to 2^31-1; file names from extensions in all spellings', exhaustive=False)


if __name__ == '__main__':
    main(run, 'C06')
