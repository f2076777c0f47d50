"""C04: pixel encoding: every code allowed by PixelCodec.tla."""
from common import *
import struct


def f2b(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def q(n, d):
    return (['q', n, d], '%d/%d' % (n, d))


def iv(h, l, f):
    return (['i', h, l, f], repr(h*65536 + l + f/16.0))


def b(bits):
    return (['b', bits >> 16, bits & 0xffff], '0x%08x' % bits)


def norm_values(bits_list, signed, rng, n):
    vals = [(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (2, 1), (-2, 1), (16383, 1), (-16383, 1), (1, 16384), (-1, 16384), (16383, 16384), (-16383, 16384), (3, 4), (1, 4), (-3, 4)]
    for bits in bits_list:
        M = 2**(bits - 1) - 1 if signed else 2**bits - 1
        ks = set([0, 1, 2, M//2, M//2 + 1, M - 1, M] + [rng.randrange(M + 1) for _ in range(10)])
        for k in ks:
            if M <= 16384:
                vals.append((k, M))            # the exact code
                vals.append((-k, M))
            # just below and above the rounding boundary between k and k+1 on a dyadic grid
            D = 16384 if M > 300 else 4096
            x = (2*k + 1)*D//(2*M)
            for y in (x - 1, x, x + 1, x + 2):
                if abs(y) <= 16384:
                    vals.append((y, D))
                    vals.append((-y, D))
    while len(vals) < n:
        d = rng.choice([16, 256, 1024, 4096, 16384])
        vals.append((rng.randrange(-d//4, d + d//4) if d < 16384 else rng.randrange(-16384, 16385), d))
    return [q(*v) for v in dict.fromkeys(vals)]


def int_values(bits, signed, rng, n):
    vals = []
    edges = {0, 1, 2, 2**bits - 1, 2**bits - 2, 2**(bits - 1), 2**(bits - 1) - 1, 2**(bits - 1) + 1, 2**bits, 2**bits + 5, -1, -2, -2**(bits - 1), -2**(bits - 1) - 1, -2**(bits - 1) + 1,
             -2**bits, 3, 127, 128, 255, 256, 1023, 1024, 32767, 32768, 65535, 65536, 2**31, 2**32, -2**31, 2**33, -2**33, 2**31 - 128, 2**32 - 256, -2**31 + 128, 2**36, -2**36}
    for e in edges:
        for f in (0, 1, 7, 8, 9, 15):
            vals.append((e, f))
    while len(vals) < n:
        vals.append((rng.randrange(-2**bits - 10, 2**bits + 10), rng.choice([0, 0, 4, 8, 12])))
    out = {}
    for e, f in vals:
        x = e + f/16.0
        y = struct.unpack('<f', struct.pack('<f', x))[0]     # representable as the float the image holds
        z = int(y//1) ; fr = int((y - z)*16)
        if z + fr/16.0 != y:
            continue
        out[(z >> 16, z & 0xffff, fr)] = 1
    return [iv(*k) for k in out]


def float_values(rng, n, kind):
    vs = [0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc12345, 0xffc00000, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff]
    # around the ranges of half, 11/10-bit floats, shared exponent
    for x in (65504.0, 65519.0, 65520.0, 65521.0, 65024.0, 65279.0, 65280.0, 65281.0, 64512.0, 65408.0, 65407.0, 65409.0, 65472.0, 65535.0, 65536.0, 131072.0, 2.0**-14, 2.0**-15, 2.0**-16, 2.0**-17,
              2.0**-24, 2.0**-25, 2.0**-26, 2.0**-20, 2.0**-21, 2.0**-19, 2.0**-18, 1.5*2.0**-25, 0.999*2.0**-14, 1.0/3, 2.0/3, 511.5, 511.0, 512.0, 0.5, 0.25, 1e-3, 123.456, 1e4, 1e5, 1e30, 1e-30):
        for s in (1, -1):
            k = f2b(s*x)
            vs += [k, k + 1, k - 1]
    for _ in range(n):
        e = rng.randrange(127 - 27, 127 + 18)
        for drop in (13, 17, 18):
            m = rng.randrange(1 << 23)
            half = 1 << (drop - 1)
            base = m & ~((1 << drop) - 1)
            for m2 in (m, base, base | half, base | (half - 1), base | (half + 1), base | ((1 << drop) - 1)):
                vs.append((rng.random() < (.3 if kind != 'E5' else .1)) << 31 | e << 23 | (m2 & 0x7fffff))
    vs = [v & 0xffffffff for v in dict.fromkeys(vs)]
    return [b(v) for v in vs]


def run():
    c = Check('C04')
    rng = c.rng
    mult = 6 if c.thorough else 1
    cases = []
    for name, t in all_pairs():
        f = FNO[name]
        bits = {'R4': [4], 'B4': [4], 'A4': [4], 'R5': [5, 6, 1], 'B5': [5, 6, 1], 'A1': [5, 1], 'R8': [8], 'B8': [8], 'A8': [8], 'A2': [10, 2], 'R1': [16], 'R3': [32], 'B1': [], 'E5': []}[name[:2]]
        if t in (UN, SN):
            vals = norm_values(bits, t == SN, rng, 220*mult)
        elif t in (UI, IN):
            vals = sum((int_values(x, t == IN, rng, 200*mult) for x in bits), [])
        else:
            vals = float_values(rng, 12*mult, name[:2])
        chunks = []
        nrep = 2*mult
        for r in range(nrep):
            # every channel runs through all values, in different orders
            cols = []
            for ch in range(4):
                v = list(vals)
                rng.shuffle(v)
                cols.append(v)
            chunks.append(list(zip(*cols)))
        if t == UF and name.startswith('E5'):
            # related magnitudes so that the shared exponent matters
            px = []
            for _ in range(250*mult):
                e = rng.randrange(127 - 18, 127 + 17)
                mk = lambda k: b(max(1, e - k) << 23 | (rng.choice([rng.randrange(1 << 23), 0x7fffff, 0x7fc000, 0x7fbfff, 0, 0x400000])))
                p = [mk(0), mk(rng.randrange(12)), mk(rng.randrange(12)), mk(rng.randrange(4))]
                head = p[:3]
                rng.shuffle(head)
                px.append(head + [p[3]])
            chunks.append(px)
        k = 0
        for ch in chunks:
            for i in range(0, len(ch), 120):
                px = ch[i:i + 120]
                lines = ['iq 0 %d %d 1 0 px ' % (RGBAF, len(px)) + ' '.join(v[1] for p in px for v in p),
                         'tinit 0 %d %d 1 0 1 0' % (D2, len(px)), 'tset 0 c 0 0 0 0',
                         'tconv 0 %d %d %d %d 15 %d' % (f, t, rng.randrange(5), rng.randrange(4), rng.choice([1, 3])), 'tdata 0 0 0 0']
                cases.append(Case('%s-%d-%d' % (name, t, k), lines, {'f': f, 't': t, 'px': [[v[0] for v in p] for p in px]}))
                k += 1
    c.conform('CodecTrace', cases)
    n = sum(len(x.params['px']) for x in cases)
    return c.finish(rule='every valid (format, type) x colours at, just below and just above every kind of rounding and saturation boundary, in every channel with unrelated values in the others',
                    extra={'pixels': n, 'pairs': len(all_pairs())})


if __name__ == '__main__':
    main(run, 'C04')
