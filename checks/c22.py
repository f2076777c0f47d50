"""C22: threads that work on objects of their own do not notice each other."""
from common import *
import json
import vf
from vf import ToolError

FMTS = list(range(1, 18))


def word(op, *a, shared=False):
    a = [str(x) for x in a]
    if shared:
        a += ['0']*(11 - len(a)) + ['1']
    return op + ','.join(a or ['0'])


def image(rng, fmts=FMTS):
    return word('I', rng.choice(fmts), rng.choice([1, 3, 5, 8]), rng.choice([1, 2, 4, 7]), rng.randrange(2), rng.randrange(1000))


def texture(rng, shared):
    dim = rng.randrange(4)
    w = rng.choice([3, 4, 5, 8])
    return word('T', dim, w, w if dim == CUBE else 1 if dim == D1 else rng.choice([2, 4, 7]), rng.choice([0, 2]) if dim != D3 else rng.choice([2, 4]), rng.choice([1, 2, 9]), rng.randrange(2), shared=shared)


def kinds(rng, shared):
    """name -> words; each starts with objects of the thread's own"""
    img = lambda f=FMTS: [] if shared else [image(rng, f)]
    own = lambda f=FMTS: [image(rng, f)]
    srgbw = rng.randrange(2)
    k = {}
    for cs in (0, 1):
        k['init%d' % cs] = [word('I', rng.choice(FMTS), 4, 3, cs, rng.randrange(1000))]
    k['convert'] = img() + [word('C', rng.choice(FMTS), rng.randrange(2), shared=shared)]
    k['convert-gray'] = img([5, 6, 8, 9, 10]) + [word('C', rng.choice([1, 2, 15, 16]), 1, shared=shared)]
    k['resize-lib'] = img([1, 5, 8, 9, 10]) + [word('R', rng.choice([2, 3, 9]), rng.choice([2, 3, 9]), rng.randrange(5), shared=shared)]
    k['resize-own'] = own([11, 13, 14, 16, 17]) + [word('R', rng.choice([2, 3, 9]), rng.choice([2, 3, 9]), rng.randrange(2))]
    k['rotate'] = img() + [word('O', rng.randrange(6), shared=shared)]
    k['copy'] = img() + [word('K', shared=shared), word('X'), word('H')]
    k['flip'] = own() + [word('H'), word('V')]
    k['premultiply'] = own([8, 9, 10]) + [word('P')]
    k['space'] = own() + [word('S', 0), word('S', 1)]
    k['gray'] = own() + [word('G')]
    k['swizzle'] = own() + [word('W', *[rng.randrange(5) for _ in range(4)])]
    k['normal'] = own() + [word('N', rng.randrange(8), rng.choice([1, 4, 9]), rng.choice([5, 8, 7, 10]))]
    k['read'] = img() + [word('Q', shared=shared)]
    k['range'] = img([1, 2, 5, 6, 8, 9, 10, 12]) + [word('A', rng.randrange(6), shared=shared)]
    k['file'] = own([1, 5, 8]) + [word('E', rng.randrange(4)), word('L', rng.randrange(2)), word('X')]
    k['file-stream'] = own([1, 5, 8]) + [word('E', rng.randrange(4)), word('M', rng.randrange(2)), word('X')]
    k['file-refused'] = own([10, 17]) + [word('E', 7), word('L', 0)]
    k['static'] = [word('F', rng.randrange(6))]
    im = [image(rng, [1, 5, 8, 9, 10])]
    name, ty = rng.choice(all_pairs())
    k['texture'] = im + [texture(rng, shared)]
    k['mips'] = im + [word('T', *rng.choice([(1, 8, 8, 0), (1, 8, 8, 2), (2, 8, 8, 4), (2, 8, 8, 4), (2, 5, 3, 7), (3, 8, 8, 0)]), 1, srgbw, shared=shared), word('g', rng.randrange(5), rng.choice([2, 3, 9]), rng.randrange(3), shared=shared)]
    k['encode'] = im + [word('T', 1, 8, 5, 0, 1, 0, shared=shared), word('c', FNO[name], ty, rng.randrange(4), 1)]
    k['encode-threads'] = im + [word('T', 1, 13, 9, 0, 1, 0, shared=shared), word('c', FNO[name], ty, rng.randrange(4), rng.choice([2, 3]))]
    for f, no in (('dds', DDS), ('ktx', KTX), ('pvr', PVR)):
        n2, t2 = rng.choice(all_pairs())
        k['save-' + f] = im + [word('T', rng.choice([1, 2, 3]), 4, 4, rng.choice([0, 2]), rng.choice([1, 9]), 0, shared=shared), word('g', 0, rng.choice([1, 9])), word('c', FNO[n2], t2, rng.randrange(4), 1), word('s', no)]
    k['texture-copy'] = im + [texture(rng, shared), word('k', 1), word('c', 14, 0, 1, 1), word('k', 0)] + ([word('k', 1, shared=True), word('s', rng.randrange(1, 4))] if shared else [])
    return k


def schedules(c, cfg, num=0, depth=0):
    if num:
        pr = vf.simulate('Concurrent', cfg, num, depth, c.seed)
    else:
        pr = c.model('Concurrent', cfg, workers=1).prints
    res = sorted({tuple(json.loads(p[6:])) for p in pr if p.startswith('@@GEN ')})
    if not res:
        raise ToolError('no schedules from ' + cfg)
    return res


def run():
    c = Check('C22')
    rng = c.rng
    c.model('Concurrent', 'ConcurrentModel', expect_states=800)
    for cfg in ('ConcurrentUnguarded', 'ConcurrentScratch'):
        r = vf.tlc('Concurrent', cfg)
        if r.rc != 12:
            raise ToolError('%s does not break the invariants: %s' % (cfg, r.rc))
    two = schedules(c, 'ConcurrentGen') + schedules(c, 'ConcurrentGen2')
    three = schedules(c, 'ConcurrentGen3', 200, 60)
    exe = vf.build('sched', harness='sched.cpp').exe
    cases = []
    names = sorted(kinds(rng, 0))
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i:]]

    def case(ks, shared, tag):
        progs = []
        for i, k in enumerate(ks):
            if i and tag == 'twin':
                progs.append(list(progs[0]) if rng.random() < .7 else [w if w[0] != 'I' else w[:w.rindex(',') + 1] + str(rng.randrange(1000)) for w in progs[0]])
                continue
            w = kinds(rng, shared)[k]
            if rng.random() < .3:
                w = w + kinds(rng, shared)[rng.choice(names)]
            progs.append(w)
        sched = list(rng.choice(two if len(ks) == 2 else three))
        more = list(rng.choice(two if len(ks) == 2 else three))
        mid = rng.choice([-1, 2, 3, 5, 7, 11, 20, 50, 130, 400])
        line = 'conc %d %d %s | %s' % (rng.choice(FMTS) if shared else 0, mid, ' '.join(map(str, sched + more)), ' | '.join(' '.join(p) for p in progs))
        cases.append(Case('conc-%s-%s-%d' % (tag, '-'.join(ks), len(cases)), [line], {'programs': progs, 'schedule': sched, 'shared': bool(shared)}, weight=20))

    for rep in range(1 if not c.thorough else 12):
        for a, b in rng.sample(pairs, len(pairs)//2) if not c.thorough else pairs:
            case((a, b) if rng.random() < .5 else (b, a), 0, 'own')
        for a in names:
            for _ in range(24 if a in ('mips', 'resize-own', 'normal', 'convert') else 12 if a.startswith('save') or a.startswith('texture') else 6):
                case((a, a), 0, 'twin')
            case((a, a), 1, 'twin')
            case((a, a), 1, 'shared')
            case((a, rng.choice(names)), 1, 'shared')
            case((a, rng.choice(names), rng.choice(names)), rng.randrange(2), 'three')
    ev = c.conform('SchedTrace', cases, exe=exe, free=True)
    ctl = sum(1 for x in cases if any(e.get('ctl') for e in ev[x.id]))
    c.notes['concurrent'] = {'cases': len(cases), 'under_control': ctl, 'kinds_of_operations': len(names)}
    return c.finish(rule='every kind of operation (%d) in two threads with the same program on objects of their own, pairs of different ones, others with a source shared for reading and with three threads; each in a process of its own, under a schedule of the specification' % len(names))


if __name__ == '__main__':
    main(run, 'C22')
