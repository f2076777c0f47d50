"""C01: the texture life cycle: behaviours of TextureLifecycle.tla replayed into the real code."""
from common import *
import json

KIND = {'ok': (RGBAF, None), 'other': (RGBAF, None), 'gray': (1, None), 'srgb': (10, 1), 'complex': (17, None)}


def commands(rng, hist, small):
    """harness commands of a behaviour"""
    slots = {}
    L = []
    cs = {0: 0, 1: 0}

    def image(kind, w, h, c, d=0):
        if kind == 'empty':
            key = ('empty',)
        else:
            key = (kind, w, h, c, rng.randrange(3) if kind == 'ok' else 0)
        if key not in slots:
            n = len(slots)
            slots[key] = n
            if kind == 'empty':
                L.append('ireset %d' % n) if False else None
            else:
                fmt, fcs = KIND[kind]
                if kind == 'srgb':
                    fcs = 1 - c
                L.append('iq %d %d %d %d %d %s %d' % (n, fmt, w, h, c if fcs is None else fcs, 'posu8', (n*37 + 5) % 256))
            L.append('ihash %d' % n)
        return slots[key]

    cms = {}

    def custom(ok, once, c):
        key = (ok, once)
        if key not in cms:
            i = image('ok', 2, 2, c) if ok else image('empty', 0, 0, c)
            n = len(cms)
            cms[key] = n
            L.append('%s %d %d %d' % (rng.choice(['cmref', 'cmown']), n, i, 0 if once else 1))
        return cms[key]

    def tset(s, onface, var, kind, w, h, f, m, d):
        i = image(kind, w, h, cs[s])
        L.append('tset %d %s %d %d %d %d' % (s, ('f' if onface else '') + var, i, f, m, d))

    for ev in hist:
        s, op, a = ev[0], ev[1], ev[2:]
        if op == 'init':
            cs[s] = a[5]
            L.append('tinit %d %s' % (s, ' '.join(map(str, a))))
        elif op == 'reset':
            L.append('treset %d' % s)
        elif op == 'set':
            tset(s, *a)
        elif op == 'fill':
            for (w, h, f, m, d) in a[0]:
                tset(s, True, rng.choice('cm'), 'ok', w, h, f, m, d)
        elif op == 'gen':
            L2 = []
            for c in a[1]:
                L2 += [c['f'], c['m'], c['d'], custom(c['ok'], c['once'], cs[s])]
            L.append('tgen %d %d %d %s' % (s, rng.choice([0, 1, 2, 3, 4]), a[0], ' '.join(map(str, L2))))
        elif op == 'conv':
            L.append('tconv %d %d %d %d %d %d %d' % (s, a[0], a[1], rng.randrange(5), a[2], a[3], rng.choice([1, 2, 4])))
        elif op == 'save':
            L.append('tsave %d %d %s nodump' % (s, a[0], rng.choice(['vec', 'vec', 'stream'])) if rng.random() < .9 else 'tsave %d %d null' % (s, a[0]))
        elif op in ('tcopy', 'tassign', 'tmove', 'tmoveassign'):
            cs[s] = cs[a[0]]
            L.append('%s %d %d' % (op, s, a[0]))
            L.append('thash %d' % a[0])
        else:
            raise vf.ToolError('unknown command ' + op)
        L.append('thash %d' % s)
        if not small:
            L.append('thash %d' % (1 - s))
    return L


def behaviours(r):
    for l in r.out.splitlines():
        if l.startswith('"@@GEN '):
            yield json.loads(json.loads(l)[6:])


def run():
    c = Check('C01')
    rng = c.rng
    b_rel = build('rel')
    g = c.model('TextureLifecycle', 'TextureLifecycle-graph', workers=1, expect_states=500)
    # transitions by source history; those that change nothing are replayed one after the other
    loops, steps = {}, []
    for x in behaviours(g):
        h = x['h']
        if h[-1][1] == 'init' and len(h) > 1 and rng.random() > (.02 if not c.thorough else .1):
            continue
        if x['same']:
            loops.setdefault(json.dumps(h[:-1]), []).append(h[-1])
        else:
            steps.append(h)
    nsteps = len(steps)
    if not c.thorough:
        rng.shuffle(steps)
        short_ = [h for h in steps if len(h) <= 2]
        steps = short_[:250] + [h for h in steps if len(h) > 2][:1400]
    cases = []
    for i, h in enumerate(steps):
        cases.append(Case('step-%d' % i, commands(rng, h, True)))
    lk = sorted(loops)
    if not c.thorough:
        lk = rng.sample(lk, min(len(lk), 220))
    for i, k in enumerate(lk):
        l = loops[k]
        rng.shuffle(l)
        if not c.thorough:
            l = l[:25]
        cases.append(Case('loop-%d' % i, commands(rng, json.loads(k) + l, True)))
    # long random behaviours with two textures
    n = 300 if not c.thorough else 6000
    r = vf.tlc('TextureLifecycle', 'TextureLifecycle-sim', args=['-simulate', 'num=%d' % n, '-depth', '17', '-seed', str(c.seed)], workers=1)
    if 'Error' in r.out:
        raise vf.ToolError('simulation failed:\n' + vf.last_lines(r.out, 40))
    seen = set()
    sims = []
    for x in behaviours(r):
        k = json.dumps(x['h'][:-1])
        if k not in seen:
            seen.add(k)
            sims.append(Case('sim-%d' % len(sims), commands(rng, x['h'], False)))
    if len(sims) < n//2:
        raise vf.ToolError('simulation gave only %d behaviours' % len(sims))
    c.notes['transitions_of_graph_replayed'] = '%d of %d changing transitions, %d of %d states with their failing calls, %d random behaviours' % (len(steps), nsteps, len(lk), len(loops), len(sims))
    c.conform('TextureTrace', cases + sims, exe=b_rel.exe)
    a = build('asan')
    sub = rng.sample(sims, min(len(sims), 120 if not c.thorough else 2000)) + rng.sample(cases, min(len(cases), 150 if not c.thorough else 4000))
    sub = [Case('asan-' + x.id, x.lines, x.params) for x in sub]
    c.conform('TextureTrace', sub, exe=a.exe, name='-asan')
    return c.finish(rule='transition coverage of the TextureLifecycle graph plus random behaviours of two textures; every observable of every texture compared after every call')


if __name__ == '__main__':
    main(run, 'C01')
