"""C12: rotations and flips are exact pixel permutations."""
from imgs import *


def word(rng, n):
    """operations on slots 0..2, every result looked at"""
    L, live = [], [0]
    for k in range(n):
        s = rng.choice(live)
        r = rng.random()
        if r < .2:
            L += ['iflipx %d' % s, 'iraw %d' % s]
        elif r < .4:
            L += ['iflipy %d' % s, 'iraw %d' % s]
        else:
            d = rng.randrange(3)
            L += ['irotate %d %d %d' % (d, s, rng.randrange(6)), 'iraw %d' % d]
            if d != s:
                L.append('iraw %d' % s)
            if d not in live:
                live.append(d)
    return L + ['iraw %d' % i for i in live]


def run():
    c = Check('C12')
    rng = c.rng
    c.model('SymmetryModel', 'SymmetryModel', expect_states=100)
    cases, n = [], 0

    def add(fmt, w, h, cs, L):
        nonlocal n
        cases.append(Case('%s-%dx%d-%d' % (INAME[fmt], w, h, n), [distinct(rng, 0, fmt, w, h, cs), 'iraw 0'] + L,
                          {'fmt': fmt, 'w': w, 'h': h, 'cs': cs, 'bytes': IBYTES[fmt]}))
        n += 1
    for fmt in IFMT:
        # every operation alone, on sizes around the row padding
        for op in ['iflipx 0', 'iflipy 0'] + ['irotate 1 0 %d' % a for a in range(6)]:
            for (w, h) in [(5, 3), (1, 4), (2, 1), (8, 8), (1, 1)] if not c.thorough else [(w, h) for w in range(1, 10) for h in range(1, 10)]:
                add(fmt, w, h, rng.randrange(2), [op, 'iraw %s' % op.split()[1], 'iraw 0'])
            w, h = rng.choice([(33, 17), (64, 5), (3, 65), (31, 31)] if not c.thorough else [(65, 33), (64, 64), (3, 130), (127, 31)])
            add(fmt, w, h, rng.randrange(2), [op, 'iraw %s' % op.split()[1]])
        for _ in range(10 if not c.thorough else 150):
            add(fmt, rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]), rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11]), rng.randrange(2), word(rng, rng.choice([2, 3, 4, 5])))
        # all operations once, large
        add(fmt, 67, 70, 1, ['irotate 1 0 0', 'iflipx 1', 'irotate 0 1 2', 'iflipy 0', 'irotate 2 0 1', 'iraw 2'])
    cases.append(Case('invalid', ['irotate 1 0 0', 'irotate 1 0 1', 'iflipx 0', 'iflipy 0'], {'fmt': 0}))
    for fmt in IFMT:      # larger than 16 bits
        for k in range(4 if not c.thorough else 24):
            w, h = rng.choice([3, 5, 7, 9]), rng.choice([3, 5, 7])
            nx, ny = [(66000//w + 1, 1), (1, 66000//h + 1), (270//w + 1, 270//h + 1), (400//w, 300//h)][k % 4]
            L = [distinct(rng, 0, fmt, w, h, 0), 'itile 0 %d %d' % (nx, ny), 'iview %d %d' % (nx, ny), 'iraw 0']
            for _ in range(rng.choice([1, 2, 3])):
                o = rng.randrange(8)
                if o < 2:
                    L += ['iflip%s 0' % 'xy'[o], 'iraw 0']
                else:
                    if o - 2 not in (1, 4):
                        nx, ny = ny, nx
                    L += ['iview %d %d' % (nx, ny), 'irotate 0 0 %d' % (o - 2), 'iraw 0']
            cases.append(Case('%s-large-%dx%d-%d' % (INAME[fmt], w*nx, h*ny, n), L, {'fmt': fmt, 'w': w, 'h': h, 'cs': 0, 'bytes': IBYTES[fmt]}))
            n += 1
    c.conform('SymmetryTrace', cases)
    return c.finish(rule='every format: every operation alone on sizes around the row padding, random words of operations on up to three images, every result and source compared byte by byte')


if __name__ == '__main__':
    main(run, 'C12')
