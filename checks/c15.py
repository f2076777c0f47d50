"""C15: image files load identically from every kind of source, keep their pixels, and refusals are reported."""
from surf import *
import encoders as E
import os

HOWS = ['file', 'mem', 'stream', 'fstream', 'offset', 'pipe', 'pipe1', 'pipe4096', 'ctorfile', 'ctormem', 'ctorstream']
CUTTABLE = ('png', 'bmp', 'tif', 'pbm', 'pgm', 'ppm', 'gif', 'hdr')     # the library itself corrupts memory on cut TGA files
FORMATS = list(range(1, 18))
EXTS = ['png', 'bmp', 'tga', 'tif', 'tiff', 'ppm', 'pgm', 'pbm', 'pfm', 'gif']
OTHER = ['jpg', 'webp', 'hdr', 'exr', 'xpm', 'jng']
STREAMING = ['png', 'bmp', 'tga', 'ppm', 'pgm', 'pfm', 'gif']       # written from front to back
LOSSLESS = {'png': [1, 2, 5, 6, 8, 9], 'bmp': [1, 3, 4, 5, 8], 'tga': [1, 3, 5, 8], 'tif': [1, 2] + list(range(5, 12)) + list(range(13, 18)),
            'ppm': [1, 2, 5, 6], 'pgm': [1, 2, 5, 6], 'pbm': [1, 2, 5, 6], 'pfm': [15, 7], 'gif': [1]}
LOSSLESS['tiff'] = LOSSLESS['tif']


def put(c, name, data):
    with open(os.path.join(c.dir, name), 'wb') as f:
        f.write(data)


def load_case(c, rng, p, cid, truncate):
    name = cid + '.' + p.ext
    put(c, name, p.data)
    L = []
    # the library reads TIFF and 16-bit TGA files from absolute positions
    hows = HOWS if p.ext != 'tif' and not p.name.startswith('tga-16') else [h for h in HOWS if h != 'offset']
    for q, h in enumerate(rng.sample(hows, len(hows))):
        L.append('iload %d %s %s %d' % (q % 3, h, name, rng.choice([0, 1])))
        if q < 2 or rng.random() < .1:
            L.append('idump %d' % (q % 3))
    if truncate and p.ext in CUTTABLE:
        n = len(p.data)
        L.append('itrunc 0 %s %d 0 %d %d' % (name, rng.choice([0, 1]), n, 1 if n < 700 else 1 + n//500))
        L.append('itrunc 0 %s %d %d %d 1' % (name, rng.choice([0, 1]), max(0, n - 20), n))
        L.append('iload 0 mem %s 1' % name)
        L.append('idump 0')
    return Case(cid, L, {'files': {name: p.params()}, 'broken': []})


def lossy_case(c, rng, f, ext, cid):
    """a lossy file written by the code itself: every source gives the same image"""
    w, h = (rng.randrange(1, 40), rng.randrange(1, 30))
    name = '%s.%s' % (cid, ext)
    L = paint(rng, 5, f, w, h) + ['idump 5', 'isave 5 file ' + name]
    for q, how in enumerate(rng.sample(HOWS, len(HOWS))):
        if how != 'offset':
            L.append('iload %d %s %s %d' % (q % 3, how, name, rng.choice([0, 1])))
    return Case(cid, L, {'files': {}, 'broken': []})


def paint(rng, slot, f, w, h):
    L = ['iinit %d %d %d %d %d' % (slot, f, w, h, rng.choice([0, 1]))]
    for y in range(h):
        for x in range(w):
            if f in (11, 13): v = [rng.randrange(-16000, 16000)]*4
            elif f in (12, 14): v = [rng.randrange(0, 16000)]*4
            elif f in (7, 10, 15, 16, 17): v = [rng.randrange(-3000, 5000)/1024 for _ in range(4)]
            else: v = [rng.choice([0, 1, rng.random(), rng.random()]) for _ in range(4)]
            L.append('iset %d %d %d %s 0' % (slot, x, y, ' '.join(repr(float(q)) for q in v)))
    return L


def save_case(c, rng, f, cid, exts, size=None):
    w, h = size or (rng.randrange(1, 14), rng.randrange(1, 9))
    L = paint(rng, 0, f, w, h) + ['idump 0']
    files = {}
    for q, ext in enumerate(exts):
        E2 = rng.choice([ext, ext.upper(), ext.capitalize()])
        dst = '%s-%d.%s' % (cid, q, ext)
        f2 = '%s-f%d.%s' % (cid, q, E2)
        first, second = rng.sample(['isave 0 vec x.%s %s' % (E2, dst), 'isave 0 file ' + f2, 'isave 0 stream a.b.%s %s' % (E2, dst)], 2)
        L += [first, second]
        for s in (first, second):
            d = s.split()[-1]
            L.append('iload 1 %s %s %d' % (rng.choice(['file', 'mem', 'stream', 'pipe']), d, rng.choice([0, 1])))
            if rng.random() < .7:
                L.append('idump 1')
        if rng.random() < .5:
            L.append('isave 0 full %s-full.%s' % (cid, ext))
        if rng.random() < .5:
            L.append('isave 0 file nodir-%s/x.%s' % (cid, ext))
        if rng.random() < .3:
            L.append('isave 0 failed x.' + ext)
        if rng.random() < .3:
            L += ['isave 9 file %s-inv.%s' % (cid, ext), 'isave 9 vec x.%s %s-inv.v' % (ext, cid)]
        if rng.random() < .4:
            bad = rng.choice(['txt', 'dds', 'xyz', 'cpp'])
            L += ['isave 0 file %s-un%d.%s' % (cid, q, bad), 'isave 0 vec x.%s %s-un.v' % (bad, cid)]
        if f in LOSSLESS.get(ext, []):
            # faults: the size of the file is known now
            L += ['isave 0 flimit %s-l.%s L-1' % (cid, ext), 'isave 0 flimit %s-l.%s L' % (cid, ext), 'isave 0 flimit %s-l.%s L/2' % (cid, ext), 'isave 0 flimit %s-l.%s 0' % (cid, ext)]
            if ext in STREAMING:
                L += ['isave 0 fault x.%s L-1' % ext, 'isave 0 fault x.%s L' % ext, 'isave 0 fault x.%s 0' % ext]
        if rng.random() < .3:
            # loading over a slot and saving again: the file of a loaded image keeps the pixels
            L += ['iload 2 file %s 0' % second.split()[-1], 'idump 2']
    broken = ['nodir-%s/x.%s' % (cid, e) for e in exts]
    return Case(cid, L, {'files': files, 'broken': broken})


def sweep_case(c, rng, f, ext, cid, size, dense):
    L = paint(rng, 0, f, *size) + ['idump 0', 'isave 0 vec x.%s %s.%s' % (ext, cid, ext)]
    if ext in STREAMING:
        L += ['isweep 0 %s fault 0 L+2 %d' % (ext, 1 if dense else 3)]
        L += ['isweep 0 %s glitch 0 40 1' % ext]
    L += ['isweep 0 %s flimit 0 L+2 %d %s-s.%s' % (ext, 1 if dense else 5, cid, ext), 'isave 0 stream y.%s %s-2.%s' % (ext, cid, ext), 'iload 1 mem %s-2.%s 1' % (cid, ext), 'idump 1']
    return Case(cid, L, {'files': {}, 'broken': []})


def garbage_case(c, rng, cid):
    L, files = [], {}
    for q, data in enumerate([b'', b'\0', b'hello world, this is no image\n', b'\x89PNG\r\n\x1a\n', b'BM', b'II*\0', b'MM\0*', b'GIF89a', b'P5\n', b'#?RADIANCE\n', b'\x89PNG\r\n\x1a\n' + bytes(30), b'BM' + bytes(12), b'text ' * 3000,
                              bytes(rng.randrange(32, 127) for _ in range(200))]):
        name = '%s-%d.%s' % (cid, q, rng.choice(['png', 'bmp', 'tif', 'x']))
        put(c, name, data)
        for how in rng.sample(HOWS, 6):
            L.append('iload 0 %s %s %d' % (how, name, rng.choice([0, 1])))
    for name in ('missing-file.png', '.', 'nodir/x.png'):
        L += ['iload 0 file %s 1' % name, 'iload 0 ctorfile %s 0' % name, 'iload 0 fstream %s 0' % name]
    return Case(cid, L, {'files': files, 'broken': []})


def run():
    c = Check('C15', level='model_checking')
    rng = c.rng
    c.model('StreamIO', 'StreamIO', expect_states=10000)
    c.model('StreamIO', 'StreamIOFault', expect_states=10000)
    cases = []
    rounds = 2 if not c.thorough else 25
    for r in range(rounds):
        sizes = lambda: (rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 17]), rng.choice([1, 2, 3, 4, 7, 9]))
        for k, p in enumerate(E.everything(rng, sizes)):
            cases.append(load_case(c, rng, p, 'load%d-%d-%s' % (r, k, p.name), r == 0 or c.thorough))
    # larger than the buffers of streams
    big = [E.png(rng, 61, 57, 2, 8, 0), E.png(rng, 70, 33, 4, 16, 1), E.bmp(rng, 63, 60, '24'), E.bmp(rng, 80, 70, '8'), E.tga(rng, 75, 50, '32', True), E.tga(rng, 64, 43, '24', False, True),
           E.pnm(rng, 71, 61, 6), E.pnm(rng, 64, 64, 5), E.tiff(rng, 50, 60, 'rgb8'), E.tiff(rng, 30, 40, 'rgbf', True), E.gif(rng, 90, 80, True)]
    # files around the size of the blocks a non-seekable stream is read in
    for n in (4095, 4096, 4097, 8192):
        w = n - 15
        p = E.pnm(rng, w, 1, 5)
        head = b'P5\n%d 1\n255\n' % w
        pad = n - len(head) - w
        head = b'P5\n#' + b'x'*(pad - 2) + b'\n%d 1\n255\n' % w
        p.data = head + bytes(v[0] for v in p.px[0])
        p.name = 'pnm-block-%d' % n
        big.append(p)
    for k, p in enumerate(big):
        cases.append(load_case(c, rng, p, 'big-%d-%s' % (k, p.name), False))
    for r in range(1 if not c.thorough else 10):
        for f in FORMATS:
            cases.append(save_case(c, rng, f, 'save%d-%d' % (r, f), rng.sample(EXTS + OTHER, len(EXTS + OTHER))))
        for ext, fs in LOSSLESS.items():
            for f in fs:
                cases.append(save_case(c, rng, f, 'keep%d-%s-%d' % (r, ext, f), [ext]*2))
    for ext, fs in LOSSLESS.items():
        for f in fs:
            if ext in ('tiff', 'pbm'):
                continue
            dense = c.thorough or rng.random() < .3
            cases.append(sweep_case(c, rng, f, ext, 'sweep-%s-%d' % (ext, f), (3, 2), dense))
            if c.thorough:
                cases.append(sweep_case(c, rng, f, ext, 'sweep2-%s-%d' % (ext, f), (60, 50), False))
    for ext, fs in {'jpg': [1, 5], 'webp': [5, 8], 'hdr': [7], 'exr': [7, 10, 15], 'xpm': [5], 'jng': [1, 5]}.items():
        for f in fs:
            cases.append(lossy_case(c, rng, f, ext, 'lossy-%s-%d' % (ext, f)))
    for r in range(3 if not c.thorough else 30):
        cases.append(garbage_case(c, rng, 'garbage%d' % r))
    ev = c.conform('ImageIOTrace', cases)
    if c.thorough:
        c.conform('ImageIOTrace', [x for x in cases if not x.id.startswith('lossy')], variant='asan', name='-asan')
    loads = sum(1 for es in ev.values() for e in es if e['op'] == 'iload')
    prefixes = sum(len(e['r'])*4 for es in ev.values() for e in es if e['op'] == 'itrunc')
    faults = sum(len(e['r']) for es in ev.values() for e in es if e['op'] == 'isweep')
    kinds = {cid.split('-', 2)[2] for cid in ev if cid.startswith('load')}
    return c.finish(rule='stream adapters modelled against a file; pictures of independent encoders loaded from every kind of source, every prefix of small files, saves to every kind of sink with every fault point',
                    extra={'evaluations': loads + prefixes + faults, 'distinct_nontrivial': len(kinds) + prefixes//4, 'nontrivial': 'encodings and prefixes of files', 'loads': loads, 'prefix_loads': prefixes, 'fault_points': faults, 'encodings': len(kinds)})


if __name__ == '__main__':
    main(run, 'C15')
