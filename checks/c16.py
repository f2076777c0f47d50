"""C16: the tool accepts exactly its documented command language."""
import json
from toolrun import *

FACES = ['+x', '-x', '+y', '-y', '+z', '-z']


def world():
    pic = lambda w, h, o=0: (png_rgba(w, h, lambda x, y: ((x*50 + o) % 256, (y*60 + o) % 256, (x*y*9 + o) % 256, 255 - (x + y) % 200)), w, h)
    files = {'a.png': pic(5, 3), 'b.png': pic(4, 4, 7), 'c.png': pic(8, 8, 9), 'row.png': pic(6, 1), 'one.png': pic(1, 1), 'my file.png': pic(3, 2),
             '5': pic(2, 2), 'bad.png': (b'\x89PNG\r\n\x1a\nnonsense', 0, 0), 'empty.png': (b'', 0, 0)}
    texts = {'one.txt': 'a.png\n', 'two.txt': 'a.png\nb.png\n', 'list.txt': 'a.png\n\n\r\nb.png\r\nmy file.png', 'six.txt': '\n'.join(['b.png']*6), 'seven.txt': '\n'.join(['b.png']*7) + '\n',
             'twelve.txt': '\n'.join(['b.png', 'c.png']*6), 'gone.txt': 'missing.png\n', 'file.txt': 'x',
             'mips.txt': '1 a.png\n', 'mips2.txt': '  1 0 once b.png\n\n\t2 +X continue my file.png\n', 'mipsbad.txt': 'x a.png\n', 'mipsnofile.txt': '1 0 +x once\n', 'mips3.txt': '1 a.png\r\n\r\n2 0 once my file.png\r\n', 'mipsdup.txt': '1 a.png\n1 0 b.png\n',
             'mipszero.txt': '0 a.png\n', 'mipsbig.txt': '4294967297 a.png\n', 'mipsneg.txt': '-4294967295 a.png\n', 'mipsdeep.txt': '1 1 a.png\n', 'mipsgone.txt': '1 missing.png\n', 'mipsnum.txt': '1 5\n', 'mips99.txt': '99 a.png\n',
             'old.dds': 'previous content', 'old.ktx': 'previous content', 'old.pvr': 'previous content'}
    return World(files, texts)


def catalog(w, rng):
    G = []
    def g(kind, words, free=True, defect=False, safe=False):
        words = words.split() if isinstance(words, str) else list(words)
        G.append({'kind': kind, 'words': words, 'free': free and not defect, 'defect': defect, 'safe': safe})
        return len(G)
    cube = lambda fs, img='b.png', opt='-c': [x for f in fs for x in ([opt, f, img])]
    cubea = lambda n, fs=FACES: [x for f in fs for x in ('-C', str(n), f, 'b.png')]
    # inputs
    i1 = g('input', '-i a.png'); g('input', '--input row.png'); g('input', ['-i', 'my file.png']); g('input', '-I image one.txt'); g('input', '-i 5'); g('input', '-i one.png')
    i2 = g('input', '-a a.png -a b.png', free=False); g('input', '-a 1 b.png --array 0 a.png'); g('input', '-I ARRAY list.txt'); g('input', '-a 0 row.png'); g('input', '-a b.png', free=False)
    i2b = g('input', '-a 2 a.png -a 0 b.png -a 1 c.png -a 3 c.png'); g('input', '-a c.png -a 1 b.png -a a.png -a 3 a.png', free=False)
    i3 = g('input', cube(FACES)); g('input', cube(reversed(['+X', '-X', '+Y', '-Y', '+Z', '-Z']), opt='--cube')); g('input', '--input-list cube six.txt')
    i4 = g('input', cubea(0) + cubea(1)); g('input', '-I cube-array twelve.txt'); g('input', cubea(1, FACES[::-1]) + cubea(0)); g('input', cubea(0))
    for x in ['-i', '-i a.png -i b.png', '-a', '-a 1 b.png', '-a 0 a.png -a 0 b.png', '-a 99 a.png', '-a 4294967296 a.png', '-a -1 a.png', '-i a.png -a b.png', '-a a.png -c +x b.png', '-c +x', '-c +w a.png', '-C 0 +x',
              '-C x +x a.png', '-C 0 +q a.png', '-C 4000000 +x a.png', '-I image', '-I cube two.txt', '-I image two.txt', '-I cube seven.txt', '-I cube-array seven.txt', '-I picture one.txt', '-I image nothing.txt',
              '-I image one.txt -a b.png', '-i missing.png', '-i bad.png', '-i empty.png', '-i dir', '-I array gone.txt', '-a a.png -a missing.png', '-C 1 +x a.png', '-C 0 +x a.png -C 0 +X b.png', '-i one.txt', '-I array one.txt -a 0 b.png']:
        g('input', x, defect=True)
    g('input', cube(FACES[:5]), defect=True); g('input', cube(FACES + ['+y']), defect=True); g('input', cubea(0, FACES[1:]), defect=True); g('input', cube(FACES) + cubea(0), defect=True)
    # outputs
    o1 = g('output', '-o out.dds'); o2 = g('output', '-o out.KTX'); o3 = g('output', '--output out.pvr'); g('output', '-o old.dds'); g('output', '-o old.ktx'); g('output', '-o old.pvr')
    g('output', '-o out --file-format dds'); g('output', '--file-format PVR -o x.ktx'); g('output', '-o .dds'); g('output', '-o sub/out.dds --create-dir'); g('output', '--create-dir -o s/t/u.v/out.ktx'); g('output', '-o dir/out.pvr --create-dir'); g('output', '-o dir/s/out.ktx --create-dir'); g('output', '--create-dir --file-format ktx -o s/t/out'); g('output', '-o u/v.w/out.x --file-format Dds --create-dir')
    g('output', '-o dir/out.dds'); g('output', '-o 7.ktx')
    for x in ['-o sub/out.dds', '-o out.txt', '-o out', '-o file.txt/out.dds --create-dir', '-o file.txt/y/out.dds --create-dir', '-o dir --file-format dds', '-o /dev/full --file-format ktx', '-o', '-o a.dds -o b.dds', '--file-format', '--file-format png', '-o s/out.dds',
              '-o dds', '-o outdds', '-o /dev/full --file-format dds --create-dir', '-o old.dds --output old.ktx']:
        g('output', x, defect=True)
    # formats
    fm = []
    for name in LAYOUT:
        for t in range(6):
            tn = ['unorm', 'snorm', 'uint', 'int', 'ufloat', 'FLOAT'][t]
            words = ['-f', rng.choice([name, name.lower(), name.upper()]), '-t', tn]
            if rng.random() < .3:
                words = ['--type', tn, '--format', name]
            g('format', words, defect=t not in types(name))
    f1 = g('format', '-f R8G8B8A8'); g('format', '-f r16g16b16a16'); g('format', '--format B10G11R11_UFLOAT'); g('format', '-f E5B9G9R9_UFloat')
    for x in ['-f', '-f R8G8B8X8', '-t unorm', '-f R8 -t', '-f R8 -t half', '-f BC1_RGB', '-f R32', '-f B10G11R11_UFloat -t unorm', '-f ASTC_4x4', '-f ETC1', '-f 0', '-f Unknown', '-f BC6H']:
        g('format', x, defect=True)
    # the rest; (free: all arguments given or none that could follow)
    for kind, good, bad in [
        ('jobs', ['-j 2', '-j 1', '--jobs 3', '-j 0', '-j'], []),
        ('log', ['-q', '--quiet', '-v', '--verbose'], []),
        ('resize', ['-r 4 4', '-r width height', '--resize nextpo2 NEARESTPO2', '-r 8 2 box', '-r max min linear', '-r height-nextpo2 width-nearestpo2 cubic', '-r min-nextpo2 max-nearestpo2 b-spline', '-r 3 max Catmull-Rom', '-r 1 1', '-r 7 1', '-r width-nextpo2 height-nearestpo2', '-r min-nearestpo2 max-nextpo2'],
         ['-r', '-r 4', '-r 0 4', '-r 4 -3', '-r 4 x', '-r 4x4 3', '-r 2147483648 1', '-r width- 4', '-r 4 4 sinc']),
        ('mipmap', ['-m', '--mipmap', '-m 2', '-m 1', '-m 0', '-m 3 linear', '-m box', '-m 99', '-m 4294967295'], ['-m -1', '-m 4294967296', '-m 2 sinc', '-m 2 3']),
        ('mipmap', ['-m -M 1 a.png', '-m 3 -M 1 0 once c.png', '-m -M 1 0 +x continue b.png', '--custom-mip 1 CONTINUE a.png -m', '-m --custom-mip-list mips.txt', '-m --custom-mip-list mips2.txt', '-m --custom-mip-list mips3.txt'],
         ['-M 1 a.png', '-m 1 -M 1 a.png', '-m -M 0 a.png', '-m -M 1', '-m -M x a.png', '-m -M 1 0', '-m -M 1 0 +x once', '-m -M 1 9 a.png', '-m -M 1 a.png -M 1 b.png', '-m -M 99 a.png', '-m 2 -M 2 a.png', '-m -M 1 missing.png', '-m -M 1 -x a.png',
          '-m -M 1 0 a.png -M 1 1 b.png', '-m -M 1 1 a.png', '-m --custom-mip-list', '-m --custom-mip-list nothing.txt', '-m -M 1 0 -z once c.png -M 1 0 +z c.png', '-m -M', '-m -M 1 1 1 a.png', '-m -M 1 +x +y a.png', '-m -M 4294967297 a.png', '--custom-mip-list mips.txt',
          '-m 2 -M 1 5', '-m -M 1 ONCE', '-m -M 1 0 +Y a.png'] + ['-m --custom-mip-list mips%s.txt' % x for x in ('bad', 'nofile', 'dup', 'zero', 'big', 'neg', 'deep', 'gone', 'num', '99')] + ['-m --custom-mip-list dir', '-m --custom-mip-list bad.png', '-m --custom-mip-list one.txt']),
        ('flipx', ['--flipx'], ['--flipX', '-flipx']), ('flipy', ['--flipy'], ['--flip-y']),
        ('rotate', ['--rotate 90', '--rotate -90', '--rotate 180', '--rotate 0', '--rotate 450', '--rotate -1170', '--rotate 360', '--rotate +270'], ['--rotate', '--rotate 45', '--rotate x', '--rotate 90.0', '--rotate 90deg', '-R 90']),
        ('normal', ['-n', '--normalmap', '-n wrap', '-n WrapX 2', '-n wrapy 0.5', '-n WRAP', '-n wrapX', '-n WrapY -1', '-n 3', '-n -1.5', '-n 1e-1'], ['-n wrapz', '-n wrap x', '-n 2x', '-n 1 wrap']),
        ('gray', ['-g', '--grayscale'], ['--greyscale', '-G']),
        ('swizzle', ['-s rgba', '--swizzle BGRA', '-s xxxr', '-s rgbx', '-s XXXX'], ['-s', '-s rgb', '-s rgbaa', '-s rgbz', '-s 0123']),
        ('srgb', ['--srgb'], ['--sRGB', '-srgb']), ('premul', ['--pre-multiply'], ['--premultiply']),
        ('dim', ['-d 2'], ['-d', '-d 0', '-d 4', '-d 2D', '--dimension cube', '-d 3', '-d 1', '-d 02']),
        ('alpha', ['--alpha none', '--alpha standard', '--alpha PRE-multiplied', '--alpha encoded'], ['--alpha', '--alpha premultiplied', '--alpha 1']),
        ('quality', ['-Q lowest', '-Q low', '--quality normal', '-Q HIGH', '-Q highest'], ['-Q', '-Q best', '-Q 1']),
        ('mkdir', ['--create-dir'], ['--create-dirs']),
        ('help', [], ['-h', '--help', '-i -h']), ('unknown', [], ['-x', '--', '-', '--foo', 'a.png', '--input=a.png', '-ia.png', '-I', '--version', '-qv'])]:
        for x in good:
            # an option that could take the next token as its argument isn't exchanged with
            greedy = x in ('-j', '-m', '--mipmap', '-n', '--normalmap', '-n wrap', '-m 2', '-m 99', '-m 1', '-m 0') or (kind == 'resize' and len(x.split()) == 3)
            g(kind, x, safe=kind in ('jobs', 'log', 'flipx', 'flipy', 'gray', 'swizzle', 'srgb', 'premul', 'alpha', 'quality', 'mkdir', 'normal') or (kind == 'rotate' and int(x.split()[1]) % 180 == 0))
        for x in bad:
            g(kind, x, defect=True)
    # 1D and 3D textures and their levels
    g('dim+', '-d 1 -r width 1', defect=True); g('dim+', '-d 3 -m -M 1 0 a.png', defect=True); g('dim+', '-d 3 -m 2 -M 1 0 once a.png -M 1 1 once b.png', defect=True); g('dim+', '-d 3 -m -M 1 a.png -M 2 b.png', defect=True)
    g('dim+', '-d 3 -m -M 1 0 once a.png -M 1 1 a.png', defect=True); g('dim+', '-d 3 -m -M 1 0 once a.png -M 1 1 once a.png -M 2 0 continue a.png', defect=True); g('dim+', '-d 1 -r 1 width --rotate 90', defect=True); g('dim+', '-d 1 -r width 1 --rotate -90', defect=True); g('dim+', '-d 3 -m -M 1 0 a.png -M 1 1 a.png -M 2 0 a.png', defect=True)
    bases = [[i1, o1, f1], [i2, f1, o2], [i2b, o1, f1], [o3, i3, f1], [f1, i4, o2]]
    env = w.env_for(sorted({x for q in G for x in q['words']}))
    return G, bases, env


def mutate(rng, words, vocab):
    w = list(words)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(6)
        if k == 0 and len(w) > 1: del w[rng.randrange(len(w))]
        elif k == 1 and w: w.insert(rng.randrange(len(w) + 1), rng.choice(w))
        elif k == 2: w.insert(rng.randrange(len(w) + 1), rng.choice(vocab))
        elif k == 3 and w: w[rng.randrange(len(w))] = rng.choice(vocab)
        elif k == 4 and len(w) > 1:
            i = rng.randrange(len(w) - 1); w[i], w[i + 1] = w[i + 1], w[i]
        elif k == 5 and w: w = w[:rng.randrange(len(w) + 1)]
    return w


def build_cases(c, w, G, r1, r2):
    rng = c.rng
    lines = []
    for prints, what in ((r1, 'pair'), (r2, 'sim')):
        seen = {}
        for p in prints:
            if p.startswith('@@GEN '):
                v = json.loads(p[6:].replace('\\"', '"').replace('\\\\', '\\'))
                seen[tuple(v['h'])] = v['code']
        hs = sorted(seen)
        if what == 'pair' and not c.thorough:
            # (most pairs have a defective group in them)
            run = [h for h in hs if seen[h] != 1]
            no = [h for h in hs if seen[h] == 1]
            hs = rng.sample(run, min(len(run), 1600)) + rng.sample(no, min(len(no), 700))
        elif what == 'pair':
            hs = rng.sample(hs, min(len(hs), 60000))
        lines += [(what, sum((G[i - 1]['words'] for i in h), [])) for h in hs]
    vocab = sorted({x for q in G for x in q['words']})
    base = [x for _, x in lines if len(x) < 40]
    for _ in range(15000 if c.thorough else 1500):
        m = mutate(rng, rng.choice(base), vocab)
        if not undecided(m):
            lines.append(('mut', m))
    lines.append(('none', []))
    res = []
    for i, (what, x) in enumerate(lines):
        if not undecided(x):
            res.append(Case('%s-%d' % (what, i), [' '.join(x)], w.words_env(x)))
            res[-1].words = x
    return res


def run():
    c = Check('C16')
    w = world()
    tool = build('rel').tool
    G, bases, env = catalog(w, c.rng)
    cat = os.path.join(c.dir, 'catalog.json')
    with open(cat, 'w') as f:
        json.dump({'groups': [{'kind': q['kind'], 'toks': [tok(x) for x in q['words']], 'free': q['free'], 'defect': q['defect'], 'safe': q['safe']} for q in G], 'bases': bases, 'env': env,
                   'every': 1 if c.thorough else 12, 'seed': 0 if c.thorough else c.seed % 12}, f)
    r1 = c.model('ToolModel', 'ToolModel', env={'CATALOG': cat})
    sim = vf.simulate('ToolModel', 'ToolModelSim', 15000 if c.thorough else 1600, 10, c.seed, env={'CATALOG': cat})
    cases = build_cases(c, w, G, r1.prints, sim)
    scratch = os.path.join(c.dir, 'runs')
    os.makedirs(scratch)
    evs = run_all(tool, w, [x.words for x in cases], scratch)
    def events(x, e):
        return [{'op': 'case', 'id': x.id, 'p': x.params}, e]
    ev = {x.id: events(x, e) for x, e in zip(cases, evs)}
    codes = {}
    for e in evs:
        codes[str(e['rc'])] = codes.get(str(e['rc']), 0) + 1
    c.notes['exit_codes'] = codes
    wf = os.path.join(c.dir, 'world.json')
    with open(wf, 'w') as f:
        json.dump(w.env, f)
    c.validate('ToolTrace', cases, ev, env={'WORLD': wf}, rerun=lambda x: {x.id: events(x, run_tool(tool, w, x.words, scratch))})
    shutil.rmtree(scratch, ignore_errors=True)
    return c.finish(rule='command lines the model composes (every extra and defective group behind each base, pairs of them; random long lines with groups at any place) and mutations of them, each run with the real tool in a directory of its own')


if __name__ == '__main__':
    main(run, 'C16')
