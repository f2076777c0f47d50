"""C03: the result of a conversion is independent of the number of threads and of the schedule."""
from surf import *
import json
import vf


def gen(c, cfg, num=0, depth=0):
    """Schedules of the pool specification: all of them, or some of a larger one."""
    if num:
        pr = vf.simulate('Pool', cfg, num, depth, c.seed)
    else:
        pr = c.model('Pool', cfg, workers=1, expect_states=1000).prints
    res = sorted({tuple(json.loads(p[6:])) for p in pr if p.startswith('@@GEN ')})
    if not res:
        raise ToolError('no schedules from ' + cfg)
    return res


def run():
    c = Check('C03')
    rng = c.rng
    c.model('Pool', 'PoolModel', expect_states=10000)
    c.model('Pool', 'PoolWide')
    for cfg in ('PoolPlain', 'PoolOverlap', 'PoolUnjoined'):      # the invariants can fail
        r = vf.tlc('Pool', cfg)
        if r.rc != 12:
            raise ToolError('%s does not break the invariants: %s' % (cfg, r.rc))
    scheds = [(2, 2, s) for s in gen(c, 'PoolGen22')] + [(3, 2, s) for s in gen(c, 'PoolGen32')]
    k = 1 if not c.thorough else 12
    scheds += [(5, 3, s) for s in gen(c, 'PoolGen53', 160*k, 60)]
    scheds += [(9, 4, s) for s in gen(c, 'PoolGen94', 80*k, 100)]
    pairs = all_pairs()
    cases = []
    for rep in range(k):
        rng.shuffle(scheds)
        for i, (j, t, s) in enumerate(scheds):
            name, ty = pairs[(i + rep*31) % len(pairs)]
            # a surface of j units
            n = rng.randrange(32*(j - 1) + 1, 32*j + 1)
            h = rng.choice([1, 1, 2, 3, 5, 7])
            w = max(1, (n + h - 1)//h)
            while w*h > 32*j:
                w -= 1
            while w*h <= 32*(j - 1):
                w += 1
            dim, d, levels = D2, 0, 1
            x = rng.random()
            if x < .12:
                dim, d = D3, 2
            elif x < .2:
                dim, d = CUBE, 0
            elif x < .4:
                levels = 2
            if t >= j and rng.random() < .4:
                t = rng.choice([j + 1, j + 5, 64])
            more = [x for _ in range(rng.randrange(3)) for x in rng.choice(scheds)[2]]
            line = 'conv %d %d %d %d %d %d %d %d %d %d %d %d %d %s' % (
                dim, w, h, d, levels, rng.randrange(1 << 20), rng.choice([1, 1, 300]), FNO[name], ty, rng.randrange(4), rng.randrange(5),
                rng.choice([15, 15, rng.randrange(16)]), t, ' '.join(map(str, list(s) + more)))
            cases.append(Case('sched-%s-%d-%dx%d-dim%d-l%d-j%d-t%d-%d-%d' % (name, ty, w, h, dim, levels, j, t, rep, i), [line],
                              {'jobs': j, 'threads': t, 'schedule': list(s)}, weight=20))
    exe = vf.build('sched', harness='sched.cpp').exe
    ev = c.conform('SchedTrace', cases, exe=exe, name='-sched', free=True)
    ctl = sum(1 for x in cases if any(e.get('ctl') for e in ev[x.id]))
    workers = sum(1 for x in cases if any(e.get('workers', 0) > 1 for e in ev[x.id]))
    c.notes['scheduled'] = {'conversions': len(cases), 'under_control': ctl, 'with_several_workers': workers}
    # without control: all formats, all kinds of thread counts, small and large
    free = []
    for i, (name, ty) in enumerate(pairs*(1 if not c.thorough else 8)):
        mode = 'posu8' if ty in (UN, SN) else 'posint'
        for big in (False, True):
            if big:
                w, h = rng.choice([(257, 259), (4099, 17), (65573, 1), (3, 21851), (1021, 65)])
                dim, d, mips = D2, 0, 1
            else:
                sh = random_shape(rng, 3000)
                dim, w, h, d, mips = sh.dim, sh.w, sh.h, sh.d if (sh.arr or sh.dim == D3) else 0, 1
            L = ['tinit 0 %d %d %d %d %d %d' % (dim, w, h, d, mips, 0)]
            for e in range(max(d, 1)):
                for f in range(6 if dim == CUBE else 1):
                    L.append('iq 0 %d %d %d 0 %s %d' % (RGBAF, w, h, ('tile8' if ty in (UN, SN) else 'tileint') if big else mode, rng.randrange(200)))
                    L.append('tset 0 fc 0 %d 0 %d' % (f, e))
            if not big and rng.random() < .4:
                L.append('tgen 0 %d 99' % rng.randrange(5))
            ths = [1, 0, 2, 3, rng.choice([5, 7, 8, 16]), rng.choice([31, 64, 100]), 4294967295] + ([2, 3, 8]*2 if big else [])
            L.append('tfree 0 %d %d %d %d %d %s' % (FNO[name], ty, rng.randrange(5), rng.randrange(4), 15, ' '.join(map(str, ths))))
            free.append(Case('free-%s-%d-%dx%d-dim%d-%d' % (name, ty, w, h, dim, len(free)), L, {'threads': [x if x < 1 << 30 else -1 for x in ths]}, weight=40 if big else 5))
    c.conform('SchedTrace', free, name='-free', free=True)
    return c.finish(rule='all interleavings of 2 and 3 units on 2 workers, sampled ones of 5 units on 3 and 9 units on 4 workers, each with another format, followed by free running conversions with 7 to 13 thread counts each')


if __name__ == '__main__':
    main(run, 'C03')
