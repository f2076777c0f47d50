"""C17: the tool applies its operations in the documented order to the right image."""
import json
from toolrun import *

FACES = ['+x', '-x', '+y', '-y', '+z', '-z']


def world(rng):
    P = {}
    sizes = {'a.png': (5, 3), 'b.png': (4, 4), 'c.png': (8, 8), 'd.png': (7, 2), 'row.png': (6, 1), 'e.png': (4, 4), 'f.png': (4, 4), 'half.png': (2, 2), 'half2.png': (2, 1), 'g.png': (4, 4), 'h.png': (4, 4)}
    for n, (w, h) in sizes.items():
        P[n] = encoders.png(rng, w, h, 6, 8, 0)
    P['rgb.png'] = encoders.png(rng, 5, 4, 2, 8, 1)
    P['gray.png'] = encoders.png(rng, 6, 3, 0, 8, 0)
    P['gray16.png'] = encoders.png(rng, 4, 3, 0, 16, 0)
    P['deep.png'] = encoders.png(rng, 3, 3, 6, 16, 0)
    for k in ('int16', 'int32', 'uint32', 'float', 'double', 'rgbf', 'rgbaf'):
        P[k + '.tif'] = encoders.tiff(rng, rng.randrange(2, 6), rng.randrange(2, 5), k)
    P['hdr.hdr'] = encoders.hdr(rng, 4, 3)
    files = {n: (p.data, p.w, p.h) for n, p in P.items()}
    texts = {'list.txt': 'a.png\nrgb.png\r\nf.png\n', 'six.txt': '\n'.join(['b.png', 'e.png', 'f.png', 'g.png', 'h.png', 'c.png']), 'twelve.txt': '\n'.join(['b.png', 'e.png', 'f.png', 'g.png', 'h.png', 'c.png', 'a.png', 'half.png', 'd.png', 'rgb.png', 'row.png', 'gray.png']),
             'mips.txt': '1 half.png\n2 0 once half2.png\n', 'mips2.txt': '  1 0 once half.png\n\n\t1 1 continue e.png\n', 'facemips.txt': '1 +Y once half.png\n1 -z continue half2.png\n2 0 -x half.png\n'}
    six = ['b.png', 'e.png', 'f.png', 'g.png', 'h.png', 'c.png']
    texts['many.txt'] = '\n'.join(rng.choice(six + ['half.png']) for _ in range(70))
    texts['cubes.txt'] = '\n'.join(rng.choice(six) for _ in range(54))
    w = World(files, texts, dirs=())
    exe = build('rel').exe
    d = tempfile.mkdtemp()
    w.populate(d)
    names = sorted(P)
    ev = vf.run_cases(exe, [Case('formats', ['iload 0 file %s 0' % n for n in names])], cwd=d)
    shutil.rmtree(d)
    for n, e in zip(names, [e for e in ev['formats'] if e['op'] == 'iload']):
        w.env['files'][n]['format'] = e['st']['fmt']
    w.env['exact'] = {n: p.px for n, p in P.items() if p.mx == [255]*4 and p.kind == 'norm'}
    return w


def catalog(w, rng):
    G = []
    def g(kind, words, free=True):
        words = words.split() if isinstance(words, str) else list(words)
        G.append({'kind': kind, 'words': words, 'free': free, 'defect': False, 'safe': False})
        return len(G)
    def cube(imgs, opt='-c'):
        f = list(zip(FACES, imgs)); rng.shuffle(f)
        return [x for a, b in f for x in ([opt] if opt == '-c' else ['-C', opt]) + [a, b]]
    six = ['b.png', 'e.png', 'f.png', 'g.png', 'h.png', 'c.png']
    for n in ('a.png', 'b.png', 'c.png', 'd.png', 'rgb.png', 'gray.png', 'gray16.png', 'deep.png', 'int16.tif', 'int32.tif', 'uint32.tif', 'float.tif', 'double.tif', 'rgbf.tif', 'rgbaf.tif', 'hdr.hdr'):
        i = g('input', ['-i', n])
        if n == 'a.png': i1 = i
    i2 = g('input', '-a a.png -a rgb.png -a d.png', free=False)
    g('input', '-a 2 b.png -a 0 c.png -a 1 e.png'); g('input', '-I array list.txt'); g('input', '-a 1 int32.tif -a 0 rgb.png -a 2 rgbf.tif -a 3 gray.png'); g('input', '-a b.png -a 3 a.png -a 1 d.png -a 2 c.png', free=False); g('input', '-a row.png', free=False)
    i3 = g('input', cube(six)); g('input', cube(['a.png'] + six[:5])); g('input', '-I cube six.txt'); g('input', cube(six[::-1]))
    a = cube(six, '0') + cube(six[2:] + ['a.png', 'rgb.png'], '1'); b = cube(six[::-1], '2') + cube(six, '0') + cube(['gray.png'] + six[1:], '1')
    i4 = g('input', a); g('input', b); g('input', '-I cube-array twelve.txt')
    o = [g('output', x) for x in ('-o out.dds', '-o out.ktx', '-o out.pvr')]
    f1 = g('format', '-f R8G8B8A8')
    for name in LAYOUT:
        for t in sorted(types(name)):
            g('format', ['-f', name, '-t', ['unorm', 'snorm', 'uint', 'int', 'ufloat', 'float'][t]])
    # formats that keep the codes of a picture come up more often
    for name in ['R8G8B8A8', 'B8G8R8A8', 'A8B8G8R8', 'R8G8B8', 'B8G8R8', 'R16G16B16A16', 'R16G16', 'R8']*3:
        g('format', ['-f', name])
    for kind, words in [
        ('jobs', ['-j 2', '-j 5']),
        ('resize', ['-r 4 4', '-r width height', '-r nextpo2 nearestpo2', '-r 8 2 box', '-r max min linear', '-r height-nextpo2 width-nearestpo2 cubic', '-r min-nextpo2 max-nearestpo2 b-spline', '-r 3 max catmull-rom', '-r 7 1', '-r 5 6']),
        ('mipmap', ['-m', '-m 2', '-m 3 linear', '-m box', '-m 1', '-m -M 1 half.png', '-m 3 -M 1 0 once half2.png', '-m -M 1 0 +x continue e.png', '-m b-spline -M 2 half.png -M 1 once a.png', '-m --custom-mip-list mips.txt', '-m -M 1 1 once a.png -M 2 0 half.png',
                    '-m -M 1 +x once half.png -M 1 -z c.png -M 2 +y half2.png', '-m --custom-mip-list facemips.txt', '-m -M 1 1 -y half.png -M 1 0 +z once half.png', '-m 2 -M 1 2 c.png', '-m cubic --custom-mip-list mips2.txt', '-m -M 1 0 rgbf.tif']),
        ('flipx', ['--flipx']), ('flipy', ['--flipy']), ('rotate', ['--rotate 90', '--rotate -90', '--rotate 180', '--rotate 630', '--rotate -540', '--rotate 270', '--rotate 0', '--rotate -270', '--rotate -180', '--rotate 450', '--rotate -450', '--rotate -630', '--rotate 540', '--rotate -360']),
        ('normal', ['-n', '-n wrap', '-n wrapx 2', '-n wrapy 0.5', '-n 3', '-n -1.5']), ('gray', ['-g']),
        ('swizzle', ['-s bgra', '-s xxxr', '-s rgbx', '-s abgr', '-s gbrx', '-s grxa', '-s aaaa']), ('srgb', ['--srgb']), ('premul', ['--pre-multiply']),
        ('dim', ['-d 3', '-d 1', '-d 3 -m -M 1 0 half.png', '-d 3 -m 2 linear -M 1 0 half2.png -M 1 1 half.png', '-d 3 -m -M 1 0 once c.png -M 1 1 once half.png']),
        ('alpha', ['--alpha none', '--alpha standard', '--alpha pre-multiplied', '--alpha encoded']), ('quality', ['-Q lowest', '-Q highest'])]:
        for x in words:
            both = kind == 'dim' and '-m' in x
            g('mipmap' if both else kind, x, free=not both)
    return G, [[i1, o[0], f1], [i2, f1, o[1]], [o[2], i3, f1], [f1, i4, o[1]]]


def run():
    c = Check('C17')
    w = world(c.rng)
    tool = build('rel').tool
    G, bases = catalog(w, c.rng)
    env = w.env_for(sorted({x for q in G for x in q['words']}))
    cat = os.path.join(c.dir, 'catalog.json')
    with open(cat, 'w') as f:
        json.dump({'groups': [dict(q, toks=[tok(x) for x in q['words']]) for q in G], 'bases': bases, 'env': env, 'every': 1 if c.thorough else 2, 'seed': 0 if c.thorough else c.seed % 2}, f)
    r1 = c.model('ToolPipeModel', 'ToolPipeModel', env={'CATALOG': cat})
    sim = vf.simulate('ToolPipeModel', 'ToolPipeSim', 20000 if c.thorough else 2400, 11, c.seed, env={'CATALOG': cat})
    # only operations that move texels and channels: exactly specified
    KEEP = ('R8G8B8A8', 'B8G8R8A8', 'A8B8G8R8', 'R8G8B8', 'B8G8R8', 'R16G16B16A16', 'R16G16B16', 'R16G16', 'R16', 'R8G8', 'R8')
    same = ('b.png', 'e.png', 'f.png', 'g.png', 'h.png', 'rgb.png', 'gray.png', 'a.png', 'd.png', 'half.png', 'half2.png')
    G2 = [q for q in G if q['kind'] in ('jobs', 'flipx', 'flipy', 'rotate', 'swizzle', 'alpha', 'quality', 'output') or (q['kind'] == 'dim' and q['words'] == ['-d', '3'])
          or q['kind'] == 'input' and (q['words'][0] != '-i' or q['words'][1] in same)
          or q['kind'] == 'mipmap' and any('half' in x or 'mips' in x for x in q['words']) or q['kind'] == 'format' and q['words'][1] in KEEP and q['words'][2:] in ([], ['-t', 'unorm'])]
    cat2 = os.path.join(c.dir, 'catalog2.json')
    with open(cat2, 'w') as f:
        json.dump({'groups': [dict(q, toks=[tok(x) for x in q['words']]) for q in G2], 'bases': [[1, 1, 1]], 'env': env, 'every': 1, 'seed': 0}, f)
    sim2 = vf.simulate('ToolPipeModel', 'ToolPipeMoves', 8000 if c.thorough else 800, 9, c.seed, env={'CATALOG': cat2})
    # many images
    G3, bases3 = [], []
    def g3(kind, words):
        G3.append({'kind': kind, 'words': words.split(), 'free': True, 'defect': False, 'safe': False})
        return len(G3)
    some = ['b.png', 'e.png', 'f.png', 'g.png', 'h.png', 'c.png', 'half.png']
    order = list(range(40))
    c.rng.shuffle(order)
    ins = [g3('input', '-I array many.txt'), g3('input', '-I cube-array cubes.txt'), g3('input', ' '.join('-a %d %s' % (i, c.rng.choice(some)) for i in order))]
    outs = [g3('output', x) for x in ('-o out.dds', '-o out.ktx', '-o out.pvr')]
    fmt = g3('format', '-f R8G8B8A8')
    for kind, words in (('format', '-f R8G8B8'), ('jobs', '-j 3'), ('mipmap', '-m 2'), ('mipmap', '-m -M 1 37 half.png'), ('mipmap', '-m -M 1 7 -y half.png'), ('flipx', '--flipx'), ('dim', '-d 3'), ('swizzle', '-s bgra')):
        g3(kind, words)
    bases3 = [[i, outs[(k + c.seed) % 3], fmt] for k, i in enumerate(ins)]
    cat3 = os.path.join(c.dir, 'catalog3.json')
    with open(cat3, 'w') as f:
        json.dump({'groups': [dict(q, toks=[tok(x) for x in q['words']]) for q in G3], 'bases': bases3, 'env': w.env_for(sorted({x for q in G3 for x in q['words']})), 'every': 1, 'seed': 0}, f)
    r3 = c.model('ToolPipeModel', 'ToolPipeModel', env={'CATALOG': cat3})
    scratch = os.path.join(c.dir, 'runs')
    os.makedirs(scratch)
    pdir = os.path.join(c.dir, 'pictures')
    os.makedirs(pdir)
    w.populate(pdir)
    cases = []
    for prints, what, H in ((r1.prints, 'pair', G), (sim, 'sim', G), (sim2, 'moves', G2), (r3.prints, 'many', G3)):
        seen = {}
        for p in prints:
            if p.startswith('@@GEN '):
                v = json.loads(p[6:].replace('\\"', '"').replace('\\\\', '\\'))
                seen[tuple(v['h'])] = v['p']
        hs = sorted(seen)
        k = (20000 if what == 'pair' else 20000) if c.thorough else 2500
        for h in c.rng.sample(hs, min(k, len(hs))):
            words = sum((H[i - 1]['words'] for i in h), [])
            if undecided(words):
                continue
            cases.append(Case('%s-%s' % (what, '-'.join(map(str, h))), seen[h], w.words_env(words), weight=200 if what == 'many' else None))
            cases[-1].words = words
    def jobs(words):
        """the same line again with other numbers of jobs"""
        return [words] + [words + ['-j'] + ([str(n)] if n else []) for n in c.rng.sample([0, 1, 2, 3, 7, 64], 1 if len(cases) > 1500 else 3)]
    lines = [jobs(x.words) for x in cases]
    exe = build('rel').exe
    made = vf.run_cases(exe, cases, cwd=pdir)
    runs = run_all(tool, w, [y for x in lines for y in x], scratch)
    ev, k = {}, 0
    def events(x, es, hev):
        surf = [{'f': e['f'], 'm': e['m'], 'd': e['d'], 'b': e['b']} for e in hev if e['op'] == 'tdata' and e.get('b') is not None]
        x.params['data'] = surf
        return [{'op': 'case', 'id': x.id, 'p': x.params}] + [dict(e, n=i) for i, e in enumerate(es)]
    for x, ls in zip(cases, lines):
        x.runs = ls
        ev[x.id] = events(x, runs[k:k + len(ls)], made[x.id])
        k += len(ls)
    wf = os.path.join(c.dir, 'world.json')
    with open(wf, 'w') as f:
        json.dump(w.env, f)
    c.validate('ToolPipeTrace', cases, ev, env={'WORLD': wf},
               rerun=lambda x: {x.id: events(x, [run_tool(tool, w, y, scratch) for y in x.runs], vf.run_cases(exe, [x], cwd=pdir)[x.id])})
    shutil.rmtree(scratch, ignore_errors=True)
    return c.finish(rule='command lines the model composes with the library program it derives for each; the tool\'s file (with several numbers of jobs) holds what the program makes, and exactly the moved texels where operations only move')


if __name__ == '__main__':
    main(run, 'C17')
