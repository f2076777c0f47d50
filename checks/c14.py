"""C14: images, textures and custom mips as independent values."""
from imgs import *
import json, struct, zlib


def png(path, w, h, seed):
    rng = __import__('random').Random(seed)
    raw = b''.join(b'\0' + bytes(rng.randrange(256) for _ in range(4*w)) for _ in range(h))
    def chunk(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    open(path, 'wb').write(b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 6, 0, 0, 0)) + chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b''))


GOOD = ['good-a.png', 'good-b.png']


class Translate:
    """harness commands of a history; few different arguments, so that operations repeat on equal values"""
    NI, NC, NT = 3, 3, 2

    def __init__(self, rng):
        self.rng = rng
        self.L = []
        self.size = {}
        self.fmt = {}
        self.dead = set()      # moved-from textures and images
        self.shape = {}
        self.pix = [rng.randrange(1 << 20) for _ in range(2)]
        self.seen = None

    def observe(self):
        for i in range(self.NI):
            if ('i', i) not in self.dead:
                self.L.append('ihash %d' % i)
        for t in range(self.NT):
            if ('t', t) not in self.dead:
                self.L.append('thash %d' % t)
        self.L.append('cmstate')

    def make(self, i, fmt=None, size=None, cs=None):
        r = self.rng
        fmt = fmt or r.choice([RGBAF, RGBAF, RGBA8] + IFMT)
        w, h = size or r.choice([(4, 4), (4, 4), (4, 4), (2, 2), (3, 1), (1, 2)])
        cs = r.choice([0, 0, 1]) if cs is None else cs
        if fmt in FLOATS:
            m = 'posu8 %d' % (self.pix[r.randrange(2)] % 256)
        elif fmt == RGB5:
            m = 'posu8 %d' % (self.pix[r.randrange(2)] % 256)
        else:
            m = 'bytes %d' % self.pix[r.randrange(2)]
        self.L.append('iqv %d %d %d %d %d %s' % (i, fmt, w, h, cs, m))
        self.size[i], self.fmt[i] = (w, h), fmt

    def image(self, i):
        r = self.rng
        k = r.randrange(10)
        if k == 0:
            f = r.choice(GOOD)
            self.L.append('iload %d %s %s %d' % (i, r.choice(['file', 'mem', 'stream', 'ctorfile', 'ctormem', 'ctorstream']), f, r.choice([0, 1])))
            self.size[i] = (4, 4) if f == GOOD[0] else (5, 2)
        elif k == 1:
            w, h, f = r.choice([1, 4]), r.choice([1, 4]), r.choice(IFMT)
            self.L.append('%s %d %d %d %d %d' % (r.choice(['iinit', 'ictor']), i, f, w, h, r.choice([0, 1])))
            self.L.append('ihash %d' % i)
            self.size[i] = (w, h)
            if r.random() < .8:
                self.make(i)
        else:
            self.make(i)

    def change(self, i):
        r = self.rng
        w, h = self.size.get(i, (4, 4))
        k = r.randrange(12)
        if k < 4:
            self.L.append('iset %d %d %d %s %d' % (i, r.randrange(w), r.randrange(h), r.choice(['1 0 0 1', '0 1/2 1 1/4', '1/3 1/3 1/3 1']), r.randrange(2)))
        elif k < 6:
            self.L.append('iwrite %d %d %d %d' % (i, r.randrange(h), r.randrange(w), r.choice([0, 255, 7])))
        else:
            self.L.append(r.choice(['iflipx %d', 'iflipy %d', 'ipremul %d', 'igray %d', 'ics %d 0', 'ics %d 1', 'iswz %d 2 1 0 3', 'iswz %d 4 0 0 3', 'iadjust %d 1 8', 'iadjust %d 2 8']) % i)

    def derive(self, d, s):
        r = self.rng
        w, h = self.size.get(s, (4, 4))
        k = r.randrange(4)
        if k == 0:
            self.L.append('iconv %d %d %d %d' % (d, s, r.choice([RGBAF, RGBA8, GRAY8, UINT16]), r.randrange(2)))
        elif k == 1:
            w, h = r.choice([(w, h), (4, 4), (2, 3)])
            self.L.append('iresize %d %d %d %d %d' % (d, s, w, h, r.randrange(5)))
        elif k == 2:
            a = r.randrange(6)
            self.L.append('irotate %d %d %d' % (d, s, a))
            if a in (0, 2, 3, 5):
                w, h = h, w
        else:
            self.L.append('inormal %d %d %d %s %d' % (d, s, r.randrange(8), r.choice(['1', '2']), r.choice([RGBAF, RGBF, RGBA8])))
        self.size[d] = (w, h)

    def texture(self, t):
        r = self.rng
        dim, w, h, d, m = r.choice([(1, 4, 4, 0, 3), (1, 4, 4, 0, 1), (1, 4, 4, 2, 2), (3, 4, 4, 0, 1), (2, 4, 4, 2, 3), (0, 4, 1, 0, 2)])
        cs = r.choice([0, 0, 1])
        self.L.append('%s %d %d %d %d %d %d %d' % (r.choice(['tinit', 'tinit', 'tctor']), t, dim, w, h, d, m, cs))
        self.L.append('thash %d' % t)
        self.shape[t] = (dim, w, h, d, m, cs)
        if r.random() < .7:      # with all images of the first level
            self.make(9, r.choice([RGBAF, RGBA8]), (w, h), cs)
            self.L.append('ihash 9')
            for q in range(max(d, 1)):
                for f in range(6 if dim == 3 else 1):
                    self.L += ['tset %d f%s 9 %d 0 %d' % (t, r.choice('cm'), f, q), 'thash %d' % t]

    def run(self, hist):
        r = self.rng
        for e in hist:
            op, a = e[0], e[1:]
            if op == 'inew':
                self.image(a[0])
            elif op == 'ichange':
                self.change(a[0])
            elif op == 'ibadinit':
                self.L.append('%s %d %s' % (r.choice(['iinit', 'ictor']), a[0], r.choice(['8 0 4 0', '8 4 0 0', '0 4 4 0', '10 0 0 1'])))
            elif op == 'ibadload':
                f = r.choice(['missing.png', 'garbage.png', 'empty.png', 'short.png', 'header.png'])
                self.L.append('iload %d %s %s %d' % (a[0], r.choice(['file', 'ctorfile'] if f == 'missing.png' else ['file', 'mem', 'stream', 'pipe', 'ctorfile', 'ctormem', 'ctorstream']), f, r.choice([0, 1])))
            elif op in ('icopy', 'iassign', 'imove', 'imoveassign'):
                self.L.append('%s %d %d' % (op, a[0], a[1]))
                self.size[a[0]] = self.size.get(a[1], (4, 4))
            elif op == 'iderive':
                self.derive(a[0], a[1])
            elif op == 'tnew':
                self.texture(a[0])
            elif op == 'tbadinit':
                self.L.append('%s %d %s' % (r.choice(['tinit', 'tctor']), a[0], r.choice(['1 0 4 0 1 0', '1 4 0 0 1 0', '2 4 4 0 1 0', '3 4 0 0 1 0'])))
            elif op == 'tset':
                dim, w, h, d, m, cs = self.shape.get(a[0], (1, 4, 4, 0, 1, 0))
                f = r.randrange(6) if dim == 3 else 0
                self.L.append('tset %d f%s %d %d %d %d' % (a[0], r.choice('cm'), a[1], f, 0 if r.random() < .8 else r.randrange(m), r.randrange(max(d, 1))))
            elif op == 'tgen':
                dim, w, h, d, m, cs = self.shape.get(a[0], (1, 4, 4, 0, 1, 0))
                x = ' %d 1 0 %d' % (r.randrange(6) if dim == 3 else 0, a[1]) if a[1] >= 0 else ''
                self.L.append('tgen %d %d %d%s' % (a[0], r.choice([0, 1]), r.choice([2, 3, 9]), x))
            elif op == 'tconv':
                f, t = r.choice([(FNO['R8G8B8A8'], UN), (FNO['R8G8B8A8'], UN), (FNO['R16G16B16A16'], FL), (FNO['R5G6B5'], UN), (FNO['R8'], IN), (0, 0)])
                self.L.append('tconv %d %d %d 2 %d 15 %d' % (a[0], f, t, r.choice([1, 1, 2]), r.choice([1, 2])))
            elif op in ('tcopy', 'tassign', 'tmove', 'tmoveassign'):
                self.L.append('%s %d %d' % (op, a[0], a[1]))
                if a[1] in self.shape:
                    self.shape[a[0]] = self.shape[a[1]]
            elif op == 'itex':
                dim, w, h, d, m, cs = self.shape.get(a[1], (1, 4, 4, 0, 1, 0))
                k = r.randrange(m) if r.random() < .4 else 0
                self.L.append('itex %d %d %d %d %d' % (a[0], a[1], r.randrange(6) if dim == 3 else 0, k, r.randrange(max(1, d >> (k if dim == 2 else 0)))))
                self.size[a[0]] = (max(1, w >> k), max(1, h >> k))
            elif op in ('cmref', 'cmown', 'cmcopy', 'cmassign', 'cmmove', 'cmmoveassign', 'cmdel', 'ireset', 'treset'):
                self.L.append(op + ' ' + ' '.join(map(str, a)))
            else:
                raise vf.ToolError('unknown operation ' + op)
            # who has a value now
            if op.startswith('i') and op != 'ichange':
                self.dead.discard(('i', a[0]))
                if op in ('imove', 'imoveassign'):
                    self.dead.add(('i', a[1]))
            if op.startswith('t') and op not in ('tset', 'tgen', 'tconv'):
                self.dead.discard(('t', a[0]))
                if op in ('tmove', 'tmoveassign'):
                    self.dead.add(('t', a[1]))
            self.observe()
        return self.L


def run():
    c = Check('C14')
    rng = c.rng
    png(os.path.join(c.dir, GOOD[0]), 4, 4, 1)
    png(os.path.join(c.dir, GOOD[1]), 5, 2, 2)
    full = open(os.path.join(c.dir, GOOD[0]), 'rb').read()
    for n, d in (('garbage.png', bytes(range(1, 200))), ('empty.png', b''), ('short.png', full[:5]), ('header.png', full[:30])):
        open(os.path.join(c.dir, n), 'wb').write(d)
    b = build('rel')
    a = build('asan')
    c.model('ValuesModel', 'ValuesModel', expect_states=30000)
    c.model('ValuesModel', 'ValuesTextures', expect_states=5000)
    n = 480 if not c.thorough else 5000
    r = vf.tlc('ValuesModel', 'ValuesSim', args=['-simulate', 'num=%d' % n, '-depth', '31', '-seed', str(c.seed)], workers=1)
    if 'Error' in r.out:
        raise vf.ToolError('simulation failed:\n' + vf.last_lines(r.out, 40))
    hists, seen = [], set()
    for l in r.out.splitlines():
        if l.startswith('"@@GEN '):
            h = json.loads(json.loads(l)[6:])['h']
            k = json.dumps(h[:-1])
            if k not in seen:
                seen.add(k)
                hists.append(h)
    if len(hists) < n//2:
        raise vf.ToolError('simulation gave only %d histories' % len(hists))
    cases = [Case('hist-%d' % i, Translate(rng).run(h), {'good': GOOD}) for i, h in enumerate(hists)]
    k = len(cases)*2//3
    c.conform('ValuesTrace', cases[:k], exe=b.exe)
    c.conform('ValuesTrace', [Case('asan-' + x.id, x.lines, x.params) for x in cases[k:]], exe=a.exe, name='-asan')
    ops = {}
    for h in hists:
        for e in h:
            ops[e[0]] = ops.get(e[0], 0) + 1
    c.notes['operations'] = ops
    return c.finish(rule='behaviours of the storage model (random histories of 30 operations over 3 images, 3 custom mips and 2 textures); after every operation every object is compared with its value, results are functions of operand values; a third of them under AddressSanitizer')


if __name__ == '__main__':
    main(run, 'C14')
