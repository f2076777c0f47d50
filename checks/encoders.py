"""Encoders of image files, written from the file formats and independent of FreeImage.
A picture: w, h, rows of pixels <<r, g, b, a>> of codes with the maximum code per channel."""
import struct, zlib


class Picture:
    def __init__(self, name, ext, data, px, mx, kind='norm', lossless=True):
        # kind: norm (code/max), int (the code itself), float (code/65536)
        self.name, self.ext, self.data, self.px, self.mx, self.kind = name, ext, data, px, mx, kind
        self.w, self.h = len(px[0]), len(px)

    def undecided(self):
        """the codec library itself does not keep these pixels"""
        self.kind = 'none'
        return self

    def params(self):
        return {'name': self.name, 'w': self.w, 'h': self.h, 'px': self.px if self.kind != 'none' else 0, 'mx': self.mx, 'kind': self.kind, 'ok': 'yes'}


def pack_bits(vals, depth):
    """codes of less than 8 bits, most significant first"""
    out, acc, n = bytearray(), 0, 0
    for v in vals:
        acc = acc << depth | v
        n += depth
        while n >= 8:
            n -= 8
            out.append(acc >> n & 255)
            acc &= (1 << n) - 1
    if n:
        out.append(acc << (8 - n) & 255)
    return bytes(out)


# ---------------------------------------------------------------- PNG
def png_filter(rng, rows, bpp):
    out, prev = bytearray(), None
    for r in rows:
        r = bytes(r)
        p = prev or bytes(len(r))
        f = rng.randrange(5)
        out.append(f)
        for i in range(len(r)):
            a = r[i - bpp] if i >= bpp else 0
            b = p[i]
            c = p[i - bpp] if i >= bpp else 0
            if f == 0: q = 0
            elif f == 1: q = a
            elif f == 2: q = b
            elif f == 3: q = (a + b)//2
            else:
                e = a + b - c
                q = min(((abs(e - a), 0, a), (abs(e - b), 1, b), (abs(e - c), 2, c)))[2]
            out.append((r[i] - q) & 255)
        prev = r
    return bytes(out)


def png(rng, w, h, ctype, depth, interlace, trns=False):
    mx = (1 << depth) - 1
    n = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype]
    extra = b''
    pal = palalpha = key = None
    if ctype == 3:
        size = rng.randrange(1, (1 << depth) + 1)
        pal = [tuple(rng.randrange(256) for _ in range(3)) for _ in range(size)]
        if rng.random() < .3:
            pal = [(min(255, 5*i),)*3 for i in range(size)]
        extra += chunk(b'PLTE', b''.join(bytes(p) for p in pal))
        if trns:
            palalpha = [rng.randrange(256) for _ in range(rng.randrange(1, size + 1))]
            extra += chunk(b'tRNS', bytes(palalpha))
        codes = [[(rng.randrange(size),) for _ in range(w)] for _ in range(h)]
    else:
        codes = [[tuple(rng.choice([0, mx, rng.randrange(mx + 1), rng.randrange(mx + 1)]) for _ in range(n)) for _ in range(w)] for _ in range(h)]
        if trns:
            key = rng.choice(rng.choice(codes))
            extra += chunk(b'tRNS', b''.join(struct.pack('>H', v) for v in key))
    px = []
    for row in codes:
        r = []
        for c in row:
            if ctype == 3:
                r.append(list(pal[c[0]]) + [palalpha[c[0]] if palalpha and c[0] < len(palalpha) else 255])
            else:
                a = c[-1] if ctype in (4, 6) else 0 if key and c == key else mx
                r.append(([c[0]]*3 if ctype in (0, 4) else list(c[:3])) + [a])
        px.append(r)
    def enc(rows):
        res = []
        for row in rows:
            flat = [v for c in row for v in c]
            res.append(b''.join(struct.pack('>H', v) for v in flat) if depth == 16 else pack_bits(flat, depth))
        return res
    bpp = max(1, n*depth//8)
    if interlace:
        raw = b''
        for x0, y0, dx, dy in ((0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)):
            sub = [codes[y][x0::dx] for y in range(y0, h, dy)]
            if sub and sub[0]:
                raw += png_filter(rng, enc(sub), bpp)
    else:
        raw = png_filter(rng, enc(codes), bpp)
    z = zlib.compress(raw)
    idat = b''
    k = rng.choice([len(z), 1 + len(z)//2])
    for i in range(0, len(z), k):
        idat += chunk(b'IDAT', z[i:i + k])
    data = b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, ctype, 0, 0, interlace)) + extra + idat + chunk(b'IEND', b'')
    m = 255 if ctype == 3 else mx
    return Picture('png-c%d-d%d%s%s' % (ctype, depth, '-i' if interlace else '', '-t' if trns else ''), 'png', data, px, [m]*4)


def chunk(t, d):
    return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))


# ---------------------------------------------------------------- BMP
def bmp(rng, w, h, kind, topdown=False):
    pal = b''
    comp = 0
    masks = b''
    rows = []
    px = []
    bits = {'1': 1, '4': 4, '8': 8, '8gray': 8, '8inv': 8, '1inv': 1, 'rle8': 8, '555': 16, '565': 16, '24': 24, '32': 32, '32a': 32}[kind]
    mx = [255]*4
    if bits <= 8:
        size = 1 << bits
        if kind == '8gray': P = [(i, i, i) for i in range(size)]
        elif kind in ('8inv', '1inv'): P = [(255 - i*255//(size - 1),)*3 for i in range(size)]
        else: P = [tuple(rng.randrange(256) for _ in range(3)) for _ in range(size)]
        pal = b''.join(bytes((b, g, r, 0)) for r, g, b in P)
        codes = [[rng.choice([0, size - 1, rng.randrange(size)]) for _ in range(w)] for _ in range(h)]
        if kind == 'rle8':
            codes = [[c if rng.random() < .6 or x == 0 else row[x - 1] for x, c in enumerate(row)] for row in codes]
        px = [[list(P[c]) + [255] for c in row] for row in codes]
        rows = [pack_bits(row, bits) if bits < 8 else bytes(row) for row in codes]
    elif bits == 16:
        bm = (5, 6, 5) if kind == '565' else (5, 5, 5)
        mx = [(1 << b) - 1 for b in bm] + [1]
        for _ in range(h):
            row = [[rng.choice([0, m, rng.randrange(m + 1)]) for m in mx[:3]] for _ in range(w)]
            px.append([c + [1] for c in row])
            rows.append(b''.join(struct.pack('<H', c[0] << (bm[1] + bm[2]) | c[1] << bm[2] | c[2]) for c in row))
        if kind == '565':
            comp = 3
            masks = struct.pack('<III', 0xF800, 0x7E0, 0x1F)
    else:
        for _ in range(h):
            row = [[rng.randrange(256) for _ in range(4)] for _ in range(w)]
            if kind == '24' :
                row = [c[:3] + [255] for c in row]
            px.append(row)
            rows.append(b''.join(bytes((c[2], c[1], c[0])) if kind == '24' else bytes((c[2], c[1], c[0], c[3])) for c in row))
        if kind == '32a':
            comp = 3
            masks = struct.pack('<IIII', 0xFF0000, 0xFF00, 0xFF, 0xFF000000)
    order = rows if topdown else rows[::-1]
    if kind == 'rle8':
        comp = 1
        body = b''
        for row in order:
            i = 0
            while i < len(row):
                j = i
                while j < len(row) and row[j] == row[i] and j - i < 255:
                    j += 1
                body += bytes((j - i, row[i]))
                i = j
            body += b'\0\0' if row is not order[-1] else b''
        body += b'\0\1'
    else:
        body = b''.join(r + bytes(-len(r) % 4) for r in order)
    if kind == '32a':      # BITMAPV4HEADER
        head = struct.pack('<IiiHHIIiiII', 108, w, -h if topdown else h, 1, bits, comp, len(body), 2835, 2835, 0, 0) + masks + b'BGRs' + bytes(36 + 12)
        masks = b''
    else:
        head = struct.pack('<IiiHHIIiiII', 40, w, -h if topdown else h, 1, bits, comp, len(body), 2835, 2835, 0, 0)
    off = 14 + len(head) + len(masks) + len(pal)
    data = b'BM' + struct.pack('<IHHI', off + len(body), 0, 0, off) + head + masks + pal + body
    return Picture('bmp-%s%s' % (kind, '-td' if topdown else ''), 'bmp', data, px, mx)


# ---------------------------------------------------------------- TGA
def tga(rng, w, h, kind, rle=False, top=False):
    bits = {'pal': 8, '16': 16, '24': 24, '32': 32, 'gray': 8}[kind]
    cmap = b''
    mx = [255]*4
    if kind == 'pal':
        P = [tuple(rng.randrange(256) for _ in range(3)) for _ in range(256)]
        cmap = b''.join(bytes((b, g, r)) for r, g, b in P)
    px, rows = [], []
    if kind == '16':
        mx = [31, 31, 31, 1]
    for _ in range(h):
        row = []
        for x in range(w):
            if row and rng.random() < .4:
                row.append(row[-1])
            elif kind == 'pal' or kind == 'gray':
                row.append(rng.randrange(256))
            elif kind == '16':
                row.append([rng.randrange(32) for _ in range(3)] + [1])
            else:
                row.append([rng.randrange(256) for _ in range(3)] + [rng.randrange(256) if kind == '32' else 255])
        if kind == 'pal': px.append([list(P[c]) + [255] for c in row]); e = [bytes((c,)) for c in row]
        elif kind == 'gray': px.append([[c, c, c, 255] for c in row]); e = [bytes((c,)) for c in row]
        elif kind == '16': px.append(row); e = [struct.pack('<H', c[0] << 10 | c[1] << 5 | c[2]) for c in row]
        elif kind == '24': px.append(row); e = [bytes((c[2], c[1], c[0])) for c in row]
        else: px.append(row); e = [bytes((c[2], c[1], c[0], c[3])) for c in row]
        if rle:
            out, i = b'', 0
            while i < len(e):
                j = i
                while j < len(e) and e[j] == e[i] and j - i < 128: j += 1
                if j - i > 1:
                    out += bytes((0x80 | (j - i - 1),)) + e[i]
                else:
                    j = i + 1
                    while j < len(e) and (j + 1 >= len(e) or e[j] != e[j + 1]) and j - i < 128: j += 1
                    out += bytes((j - i - 1,)) + b''.join(e[i:j])
                i = j
            rows.append(out)
        else:
            rows.append(b''.join(e))
    typ = {'pal': 1, 'gray': 3}.get(kind, 2) + (8 if rle else 0)
    desc = (8 if kind == '32' else 0) | (0x20 if top else 0)
    head = struct.pack('<BBBHHBHHHHBB', 0, 1 if kind == 'pal' else 0, typ, 0, 256 if kind == 'pal' else 0, 24 if kind == 'pal' else 0, 0, 0, w, h, bits, desc)
    data = head + cmap + b''.join(rows if top else rows[::-1]) + bytes(8) + b'TRUEVISION-XFILE.\0'
    return Picture('tga-%s%s%s' % (kind, '-rle' if rle else '', '-top' if top else ''), 'tga', data, px, mx)


# ---------------------------------------------------------------- PNM, PFM
def pnm(rng, w, h, kind, maxval=255):
    gray = kind in (1, 2, 4, 5)
    if kind in (1, 4):
        maxval = 1
    rows = [[[rng.choice([0, maxval, rng.randrange(maxval + 1)]) for _ in range(1 if gray else 3)] for _ in range(w)] for _ in range(h)]
    px = [[(c*3 if gray else c) + [maxval] for c in row] for row in rows]
    head = 'P%d\n# comment\n%d %d\n' % (kind, w, h) + ('' if kind in (1, 4) else '%d\n' % maxval)
    if kind == 1: body = '\n'.join(' '.join(str(1 - c[0]) for c in row) for row in rows).encode() + b'\n'
    elif kind in (2, 3): body = '\n'.join(' '.join(str(v) for c in row for v in c) for row in rows).encode() + b'\n'
    elif kind == 4: body = b''.join(pack_bits([1 - c[0] for c in row], 1) for row in rows)
    else: body = b''.join(b''.join(struct.pack('>H', v) if maxval > 255 else bytes((v,)) for c in row for v in c) for row in rows)
    return Picture('pnm-P%d-%d' % (kind, maxval), 'pbm' if kind in (1, 4) else 'pgm' if gray else 'ppm', head.encode() + body, px, [maxval]*4)


def f32(v):
    return struct.unpack('<f', struct.pack('<f', v))[0]


def pfm(rng, w, h, gray, big):
    rows = [[[rng.randrange(-200000, 400000) for _ in range(1 if gray else 3)] for _ in range(w)] for _ in range(h)]
    px = [[(c*3 if gray else c) + [65536] for c in row] for row in rows]
    head = 'P%s\n%d %d\n%s\n' % ('f' if gray else 'F', w, h, '1.0' if big else '-1.0')
    body = b''.join(b''.join(struct.pack('>f' if big else '<f', v/65536.0) for c in row for v in c) for row in rows[::-1])
    return Picture('pfm-%s-%s' % ('gray' if gray else 'rgb', 'be' if big else 'le'), 'pfm', head.encode() + body, px, [65536]*4, 'float')


# ---------------------------------------------------------------- TIFF
def tiff(rng, w, h, kind, big=False):
    """uncompressed strips"""
    e = '>' if big else '<'
    spp, bits, fmt, photo, code = {'gray1': (1, 1, 1, 1, ''), 'gray1inv': (1, 1, 1, 0, ''), 'gray4': (1, 4, 1, 1, ''), 'gray8': (1, 8, 1, 1, 'B'), 'gray8inv': (1, 8, 1, 0, 'B'), 'gray16': (1, 16, 1, 1, 'H'),
                                  'pal8': (1, 8, 1, 3, 'B'), 'rgb8': (3, 8, 1, 2, 'B'), 'rgb16': (3, 16, 1, 2, 'H'), 'rgba8': (4, 8, 1, 2, 'B'), 'rgba16': (4, 16, 1, 2, 'H'),
                                  'int16': (1, 16, 2, 1, 'h'), 'int32': (1, 32, 2, 1, 'i'), 'uint32': (1, 32, 1, 1, 'I'), 'float': (1, 32, 3, 1, 'f'), 'double': (1, 64, 3, 1, 'd'),
                                  'rgbf': (3, 32, 3, 2, 'f'), 'rgbaf': (4, 32, 3, 2, 'f')}[kind]
    isint = kind in ('int16', 'int32', 'uint32')
    isf = fmt == 3
    mx = 1 if isint else 65536 if isf else 255 if kind == 'pal8' else (1 << bits) - 1
    pal = None
    if kind == 'pal8':
        pal = [[rng.randrange(256) for _ in range(3)] for _ in range(256)]
    px, rows = [], []
    for _ in range(h):
        row = []
        for _ in range(w):
            if isint: c = [rng.randrange(-16000, 16001) if fmt == 2 else rng.randrange(0, 16001)]
            elif isf: c = [rng.randrange(-200000, 400000) for _ in range(spp)]
            else: c = [rng.choice([0, (1 << bits) - 1, rng.randrange(1 << bits)]) for _ in range(spp)]
            row.append(c)
        if pal: px.append([pal[c[0]] + [255] for c in row])
        elif spp == 1: px.append([[(mx - c[0] if photo == 0 else c[0])]*3 + [mx] for c in row])
        else: px.append([c + [mx] if spp == 3 else c for c in row])
        if bits < 8: rows.append(pack_bits([c[0] for c in row], bits))
        else: rows.append(b''.join(struct.pack(e + code, v/65536.0 if isf else v) for c in row for v in c))
    rps = rng.choice([1, 2, h])
    strips = [b''.join(rows[i:i + rps]) for i in range(0, h, rps)]
    tags = []
    extra = b''
    nent = 11 + (1 if spp == 4 else 0) + (1 if pal else 0)
    base = 8 + 2 + 12*nent + 4
    def add(tag, typ, vals):
        nonlocal extra
        size = {3: 2, 4: 4}[typ]
        d = b''.join(struct.pack(e + ('H' if typ == 3 else 'I'), v) for v in vals)
        if len(d) <= 4: v = d + bytes(4 - len(d))
        else:
            if len(extra) % 2: extra += b'\0'
            v = struct.pack(e + 'I', base + len(extra))
            extra += d
        tags.append(struct.pack(e + 'HHI', tag, typ, len(vals)) + v)
    add(256, 4, [w]); add(257, 4, [h]); add(258, 3, [bits]*spp); add(259, 3, [1]); add(262, 3, [photo])
    slot = len(tags)
    tags.append(None)
    add(277, 3, [spp]); add(278, 4, [rps])
    add(279, 4, [len(s) for s in strips]); add(284, 3, [1])
    if pal: add(320, 3, [p[k]*257 for k in range(3) for p in pal])
    if spp == 4: add(338, 3, [2])
    add(339, 3, [fmt]*spp)
    # strip offsets: after the directory and its data
    keep = tags
    n = len(strips)
    offs_in_extra = n > 1
    if len(extra) % 2: extra += b'\0'
    start = base + len(extra) + (4*n if offs_in_extra else 0)
    offs, p = [], start
    for s in strips:
        offs.append(p); p += len(s)
    d = b''.join(struct.pack(e + 'I', o) for o in offs)
    if offs_in_extra:
        v = struct.pack(e + 'I', base + len(extra)); extra += d
    else: v = d
    tags[slot] = struct.pack(e + 'HHI', 273, 4, n) + v
    assert len(tags) == nent, (len(tags), nent)
    data = (b'MM\0*' if big else b'II*\0') + struct.pack(e + 'I', 8) + struct.pack(e + 'H', nent) + b''.join(tags) + bytes(4) + extra + b''.join(strips)
    return Picture('tiff-%s-%s' % (kind, 'be' if big else 'le'), 'tif', data, px, [mx]*4, 'int' if isint else 'float' if isf else 'norm')


# ---------------------------------------------------------------- GIF, HDR
def gif(rng, w, h, interlace=False):
    P = [tuple(rng.randrange(256) for _ in range(3)) for _ in range(256)]
    codes = [[rng.randrange(256) for _ in range(w)] for _ in range(h)]
    order = list(range(h)) if not interlace else [y for a, d in ((0, 8), (4, 8), (2, 4), (1, 2)) for y in range(a, h, d)]
    bits, acc, out, cnt = 0, 0, bytearray(), 0
    def put(c):
        nonlocal bits, acc
        acc |= c << bits; bits += 9
        while bits >= 8:
            out.append(acc & 255); acc >>= 8; bits -= 8
    put(256)
    for y in order:
        for c in codes[y]:
            if cnt == 250: put(256); cnt = 0
            put(c); cnt += 1
    put(257)
    if bits: out.append(acc & 255)
    blocks = b''.join(bytes((len(out[i:i + 255]),)) + bytes(out[i:i + 255]) for i in range(0, len(out), 255)) + b'\0'
    data = b'GIF89a' + struct.pack('<HHBBB', w, h, 0xF7, 0, 0) + b''.join(bytes(p) for p in P) + b',' + struct.pack('<HHHHB', 0, 0, w, h, 0x40 if interlace else 0) + b'\x08' + blocks + b';'
    return Picture('gif' + ('-i' if interlace else ''), 'gif', data, [[list(P[c]) + [255] for c in row] for row in codes], [255]*4)


def hdr(rng, w, h):
    """RGBE without run lengths; exponents so that the values are multiples of 1/65536"""
    rows, px = [], []
    for _ in range(h):
        row, p = b'', []
        for _ in range(w):
            e = rng.randrange(128 - 8, 128 + 8)
            m = [rng.randrange(256) for _ in range(3)]
            m[rng.randrange(3)] |= 128
            if m[:3] == [1, 1, 1] : m[0] = 200
            row += bytes(m + [e])
            p.append([v*2**(e - 136 + 16) for v in m] + [65536])
        rows.append(row); px.append(p)
    return Picture('hdr', 'hdr', b'#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y %d +X %d\n' % (h, w) + b''.join(rows), px, [65536]*4, 'float')


def everything(rng, size):
    """size() gives the extents of the next picture"""
    res = []
    for ct, depths in ((0, (1, 2, 4, 8, 16)), (2, (8, 16)), (3, (1, 2, 4, 8)), (4, (8, 16)), (6, (8, 16))):
        for d in depths:
            for i in (0, 1):
                for t in ((False, True) if ct in (0, 2, 3) else (False,)):
                    w, h = size()
                    q = png(rng, w, h, ct, d, i, t)
                    res.append(q.undecided() if ct == 0 and d < 8 and t else q)
    for k in ('1', '1inv', '4', '8', '8gray', '8inv', 'rle8', '555', '565', '24', '32'):
        for td in ((False,) if k == 'rle8' else (False, True)):
            w, h = size()
            res.append(bmp(rng, w, h, k, td))
    for k in ('pal', '16', '24', '32', 'gray'):
        for r in (False, True):
            for t in (False, True):
                w, h = size()
                res.append(tga(rng, w, h, k, r, t))
    for k in range(1, 7):
        for m in ((1,) if k in (1, 4) else (255, 65535, 100)):
            w, h = size()
            q = pnm(rng, w, h, k, m)
            res.append(q.undecided() if m == 100 else q)      # scaled by the library
    for g in (True, False):
        for b in (True, False):
            w, h = size()
            res.append(pfm(rng, w, h, g, b).undecided())      # the library turns them upside down
    for k in ('gray1', 'gray1inv', 'gray4', 'gray8', 'gray8inv', 'gray16', 'pal8', 'rgb8', 'rgb16', 'rgba8', 'rgba16', 'int16', 'int32', 'uint32', 'float', 'double', 'rgbf', 'rgbaf'):
        for b in (False, True):
            w, h = size()
            res.append(tiff(rng, w, h, k, b))
    for i in (False, True):
        w, h = size()
        res.append(gif(rng, w, h + (4 if i else 0), i))     # the library misreads interlaced pictures of less than 5 rows
    w, h = size()
    res.append(hdr(rng, min(w, 7), h))
    return res
