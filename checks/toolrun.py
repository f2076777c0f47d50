"""Running the real tool: tokens, the directory it runs in and what a run did (specs/ToolGrammar.tla)."""
import re, shutil, subprocess, tempfile
import concurrent.futures as cf
from common import *
import encoders

FORMAT_LOWER = {n.lower(): i for n, i in FNO.items()}
CAP = 2000000000


def cfloat(s):
    return re.fullmatch(r'\s*[+-]?(([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?|0[xX]([0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)([pP][+-]?[0-9]+)?|[iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN](\([0-9a-zA-Z_]*\))?)', s) is not None


def tok(s):
    idx = int(s) if re.fullmatch('[0-9]+', s) and int(s) < 1 << 32 else -1
    whole = re.fullmatch(r'\s*[+-]?[0-9]+', s) is not None
    v = int(s) if whole else 0
    fit = max(-(1 << 63), min((1 << 63) - 1, v))
    sw = [('rgbax'.index(c)) for c in s.lower()] if len(s) == 4 and all(c in 'rgbax' for c in s.lower()) else []
    return {'s': s, 'lo': s.lower() if s.isascii() else s, 'idx': min(idx, CAP), 'int': whole, 'quarter': (fit//90) % 4 if whole and fit % 90 == 0 else -1,
            'size': min(v, CAP) if whole and 0 < v <= 0x7fffffff else 0, 'num': cfloat(s), 'swz': sw, 'fmt': FORMAT_LOWER.get(s.lower(), 0)}


class World:
    """The directory the tool runs in."""
    def __init__(self, files, texts, dirs=('dir',)):
        self.files, self.texts, self.dirs = files, texts, list(dirs)     # name -> (bytes, w, h or None), name -> text
        self.all = {n: d[0] for n, d in files.items()}
        self.all.update({n: t.encode() for n, t in texts.items()})
        self.env = {'files': {n: {'w': d[1], 'h': d[2]} for n, d in files.items() if d[1]}, 'lists': {}, 'miplists': {}}
        for n, b in self.all.items():
            lines = [x for x in re.split('[\n\r]', b.decode('latin-1')) if x]
            if n in texts or n in ('bad.png', 'empty.png'):
                self.env['lists'][n] = lines
                self.env['miplists'][n] = [self.mipline(x) for x in lines]
        for d in self.dirs:
            self.env['lists'][d] = []
            self.env['miplists'][d] = []

    @staticmethod
    def mipline(x):
        m = list(re.finditer('[^\t\v\f ]+', x))
        return {'toks': [tok(t.group(0)) for t in m], 'rest': [x[t.start():] for t in m]}

    def out(self, path, T):
        """what writing to the path does"""
        if path == '/dev/full' or not path or path.startswith('/') or path.endswith('/') or path in self.dirs or path in ('.', '..'):
            return {'kind': 'blocked', 'dirs': []}
        parts = path.split('/')
        miss = []
        for i in range(1, len(parts)):
            p = '/'.join(parts[:i])
            if p in self.all:
                return {'kind': 'blocked', 'dirs': []}
            if p not in self.dirs and p != '.':
                miss.append(p)
        return {'kind': 'nodir' if miss else 'writable', 'dirs': miss}

    def words_env(self, words):
        return {'outs': {w: self.out(w, words) for w in set(words)},
                'ext': {w: {'.dds': 1, '.ktx': 2, '.pvr': 3}.get(w.lower()[-4:], 0) for w in set(words)}}

    def env_for(self, words):
        return dict(self.env, **self.words_env(words))

    def populate(self, d):
        for n in self.dirs:
            os.makedirs(os.path.join(d, n))
        for n, b in self.all.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)

    def snapshot(self, d):
        files, dirs = {}, set()
        for root, ds, fs in os.walk(d):
            for x in ds:
                dirs.add(os.path.relpath(os.path.join(root, x), d))
            for x in fs:
                p = os.path.join(root, x)
                if os.path.isfile(p):
                    with open(p, 'rb') as f:
                        files[os.path.relpath(p, d)] = f.read()
        return files, dirs


class Place:
    """A directory with the world in it; after a run it is put back into order."""
    def __init__(self, world, scratch):
        self.world, self.d = world, tempfile.mkdtemp(dir=scratch)
        world.populate(self.d)

    def run(self, tool, words, timeout=30):
        w, d = self.world, self.d
        try:
            p = subprocess.run([tool] + list(words), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=vf.ENV)
            rc, o, e = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, o, e = -99, x.stdout or b'', x.stderr or b''
        files, dirs = w.snapshot(d)
        new = [{'path': n, 'b': list(b)} for n, b in sorted(files.items()) if w.all.get(n) != b]
        new += [{'path': n + ' (removed)', 'b': []} for n in w.all if n not in files]
        if new or dirs != set(w.dirs):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            w.populate(d)
        return {'op': 'run', 'n': 0, 'toks': [tok(x) for x in words], 'rc': rc, 'noout': not o, 'noerr': not e, 'usage': o.startswith(b'Usage'),
                'files': new, 'dirs': sorted(x for x in dirs if x not in w.dirs)}


def run_tool(tool, world, words, scratch):
    """One run in a fresh directory; the event of it."""
    p = Place(world, scratch)
    try:
        return p.run(tool, words)
    finally:
        shutil.rmtree(p.d, ignore_errors=True)


def _lane(tool, world, lines, scratch):
    p = Place(world, scratch)
    try:
        r, hung = [], 0
        for x in lines:
            r.append(p.run(tool, x, 30 if hung == 0 else 8 if hung < 8 else 2))
            hung += r[-1]['rc'] == -99
        return r
    finally:
        shutil.rmtree(p.d, ignore_errors=True)


def run_all(tool, world, lines, scratch):
    n = min(vf.NPROC, len(lines))
    with cf.ProcessPoolExecutor(n) as ex:
        rs = list(ex.map(_lane, [tool]*n, [world]*n, [lines[i::n] for i in range(n)], [scratch]*n))
    return [rs[i % n][i//n] for i in range(len(lines))]


def undecided(w):
    """command lines outside of the specification (DESIGN.md)"""
    l = list(w)
    if any(x.startswith('/') and (i == 0 or l[i - 1] not in ('-o', '--output')) for i, x in enumerate(l)):
        return True         # (a device as a list or picture never ends)
    cnt = lambda *o: sum(x in o for x in l)
    return cnt('-s', '--swizzle') > 1 or any(x == '' for x in l) or any(x in ('-I', '--input-list') for x in l) and ('dir' in l or 'empty.png' in l)


def png_rgba(w, h, px):
    """8-bit RGBA picture of a function (x, y) -> codes"""
    import struct, zlib
    raw = b''.join(b'\0' + bytes(v for x in range(w) for v in px(x, y)) for y in range(h))
    return b'\x89PNG\r\n\x1a\n' + encoders.chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 6, 0, 0, 0)) + encoders.chunk(b'IDAT', zlib.compress(raw)) + encoders.chunk(b'IEND', b'')
