"""C10: saving reports success exactly when every byte was accepted."""
from surf import *
import json

EXT = {'a': 'dds', 'b': 'KTX', 'c': 'pvr', 'd': 'bin', 'e': 'a.ktx.dDs', 'missing': 'ktx', 'folder': 'pvr'}
TYPE = {'a': 1, 'b': 2, 'c': 3, 'd': 0, 'e': 1, 'missing': 2, 'folder': 3}


def history(c, rng, h, cid):
    path = {n: ('nodir-%s/x' % cid if n == 'missing' else '%s-%s' % (cid, n)) + '.' + EXT[n] for n in EXT}
    params = {'names': {path[n]: TYPE[n] for n in EXT}, 'broken': [path['missing'], path['folder']]}
    L = ['fdir ' + path['folder']] + ['fdel ' + path[n] for n in 'abcde']
    for ev in h:
        op = ev[0]
        if op == 'convert':
            s, f, t = ev[1:]
            sh = random_shape(rng, 200)
            if rng.random() < .1:
                sh = Shape(D2, 64, 40, 1, False, 1)       # larger than a file buffer
            L += build_texture(rng, sh, f, t, 0, slot=s, overwrite=False)
            L.append('thash %d' % s)
            for ft in (1, 2, 3):
                L.append('tsave %d %d vec nodump' % (s, ft))
        elif op == 'incomplete':
            L += ['tinit %d 1 2 2 0 1 0' % ev[1], 'thash %d' % ev[1], 'tconv %d 14 0 0 1 15 1' % ev[1]]
        elif op == 'tinit':
            L += ['tinit %d 1 2 2 0 1 0' % ev[1], 'thash %d' % ev[1]]
        elif op == 'treset':
            L += ['treset %d' % ev[1]]
        elif op == 'put':
            L.append('fput %s %s' % (path[ev[1]], 'old' * rng.choice([1, 400])))
        elif op == 'delete':
            L.append('fdel ' + path[ev[1]])
        elif op == 'file':
            s, ft, n, room = ev[1:]
            if room == '-1':
                L.append('tsave %d %d file %s nodump' % (s, ft, path[n]))
            else:
                L.append('tsave %d %d flimit %s %s nodump' % (s, ft, room, path[n]))
            for n in rng.sample(sorted(TYPE), 3):
                if n not in ('missing', 'folder'):
                    L.append('fstat ' + path[n])
            L.append('thash %d' % s)
        else:
            s, ft, room = ev[1:]
            L.append('tsave %d %d %s%s nodump' % (s, ft, op, ' ' + room if op == 'fault' else ' %d' % rng.choice([0, 1, 2, 3, 5, 9, 30, 1000]) if op == 'glitch' else ''))
            if rng.random() < .4:
                L.append('thash %d' % s)
    for n in EXT:
        if n not in ('missing', 'folder'):
            L.append('fstat ' + path[n])
    return Case(cid, L, params)


def run():
    c = Check('C10', level='fault_enumeration')
    rng = c.rng
    c.model('SaveWriter', 'SaveWriter', expect_states=10000)
    n = 250 if not c.thorough else 4000
    r = vf.tlc('SaveHistory', 'SaveHistory', args=['-simulate', 'num=%d' % n, '-depth', '25', '-seed', str(c.seed)], workers=1)
    if 'Error' in r.out:
        raise vf.ToolError('simulation failed:\n' + vf.last_lines(r.out, 40))
    cases = []
    seen = set()
    for l in r.out.splitlines():
        if l.startswith('"@@GEN ') and l not in seen:
            seen.add(l)
            cases.append(history(c, rng, json.loads(json.loads(l)[6:])['h'], 'hist%d' % len(cases)))
    if len(cases) < n//2:
        raise vf.ToolError('simulation gave only %d histories' % len(cases))
    # every fault point of small files of every kind: at every byte, at every write call, in memory and in the file system
    k = 0
    none = {'names': {}, 'broken': []}
    points = 0
    for (name, t) in all_pairs():
        for ft in (1, 2, 3):
            if (ft == DDS and name in NODDS) or (ft == KTX and name in NOKTX):
                continue
            full = name in ('R8G8B8A8', 'R8', 'R16', 'R32G32B32', 'R5G6B5') and t == types(name)[0]
            if not full and not c.thorough and rng.random() < .75:
                continue
            shapes = [Shape(D2, 3, 2, 1, False, 2)] + ([Shape(CUBE, 3, 3, 1, False, 2), Shape(D1, 5, 1, 2, True, 2), Shape(D3, 2, 2, 3, False, 2), Shape(CUBE, 1, 1, 2, True, 1)] if full or c.thorough else [])
            for sh in shapes:
                L = build_texture(rng, sh, FNO[name], t, 0, overwrite=False, mask=15) + ['thash 0', 'tsave 0 %d vec nodump' % ft]
                L += ['tsweep 0 %d fault 0 L+2 1' % ft, 'tsweep 0 %d seek 0 L+2 %d' % (ft, 1 if full else 7), 'tsweep 0 %d glitch 0 60 1' % ft]
                if full or c.thorough:
                    L.append('tsweep 0 %d flimit 0 L+2 %d sweep%d.x' % (ft, 3 if not c.thorough else 1, k))
                L += ['tsweep 0 %d flimit L-2 L+1 1 sweep%d.x' % (ft, k) if False else 'tsave 0 %d full' % ft, 'tsave 0 %d flimit L-1 sweep%d.x nodump' % (ft, k), 'tsave 0 %d flimit L sweep%d.x nodump' % (ft, k), 'thash 0', 'tsave 0 %d stream nodump' % ft]
                p = {'names': {'sweep%d.x' % k: 0}, 'broken': []}
                cases.append(Case('sweep-%s-%d-ft%d-dim%d-%d' % (name, t, ft, sh.dim, k), L, p))
                k += 1
    # larger files: around the sizes of buffers
    for ft in (1, 2, 3):
        for (w, h) in ((64, 64), (512, 70)):
            L = build_texture(rng, Shape(D2, w, h, 1, False, 3), FNO['R8G8B8A8'], UN, 0, overwrite=False) + ['thash 0', 'tsave 0 %d vec nodump' % ft]
            pts = [0, 1, 100, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 'L-8193', 'L-8192', 'L-4097', 'L-4096', 'L-1000', 'L-5', 'L-4', 'L-3', 'L-2', 'L-1', 'L', 'L+1'] + [rng.randrange(w*h*4) for _ in range(10 if not c.thorough else 200)]
            for x in pts:
                L += ['tsave 0 %d fault %s nodump' % (ft, x), 'tsave 0 %d flimit %s big%d-%d.x nodump' % (ft, x, ft, w)]
            L += ['tsave 0 %d full' % ft, 'thash 0', 'tsave 0 %d file big%d-%d.x nodump' % (ft, ft, w)]
            cases.append(Case('big-ft%d-%dx%d' % (ft, w, h), L, {'names': {'big%d-%d.x' % (ft, w): 0}, 'broken': []}))
    ev = c.conform('SaveTrace', cases)
    evals, hit = 0, set()
    for cid, es in ev.items():
        for e in es:
            if 'exception' in e:
                continue
            if e['op'] == 'tsweep':
                evals += len(e['r'])
                hit.update((cid, e['ft'], e['how'], x[0]) for x in e['r'] if x[1] == 4)
            elif e['op'] == 'tsave':
                evals += 1
                if e['res'] == 4:
                    hit.add((cid, e['ft'], e['how'], str(e['a'][3:5])))
    return c.finish(rule='writer model: every fault point x piece sizes x buffer sizes; real code: every byte and every write call of small files as fault point for every file type, histories of saves to files and sinks generated by TLC',
                    extra={'evaluations': evals, 'distinct_nontrivial': len(hit), 'nontrivial': 'distinct fault points (case, file type, kind of sink, position) at which the sink refused data'})


if __name__ == '__main__':
    main(run, 'C10')
