"""Runner for the specification based checks: builds /repo's working tree, drives the real code
through the harness, validates the recorded traces with TLC and reports."""
import concurrent.futures as cf
import threading
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(ROOT, 'out')
SPECS = os.path.join(ROOT, 'specs')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    """The machinery (not the code under test) failed: the check has no answer."""


def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


# ---------------------------------------------------------------- builds
VARIANTS = {
    # name: (extra cxx flags, cmake build type, harness flags)
    'rel': ('', 'RelWithDebInfo', '-O1 -g'),
    'asan': ('-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer', 'RelWithDebInfo',
             '-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined'),
    # every memory access of the library is a call that the harness answers
    'sched': ('-fsanitize=thread', 'RelWithDebInfo', '-O1 -g -Wl,' + ','.join('--wrap=' + x for x in ('memcpy', 'memmove', 'memset', '__cxa_guard_acquire', '__cxa_guard_release'))),
}
CMAKE_OFF = ['-DCUTTLEFISH_BUILD_TESTS=OFF', '-DCUTTLEFISH_BUILD_TOOL=ON', '-DCUTTLEFISH_BUILD_DOCS=OFF',
             '-DCUTTLEFISH_BUILD_S3TC=OFF', '-DCUTTLEFISH_BUILD_ETC=OFF', '-DCUTTLEFISH_BUILD_ASTC=OFF',
             '-DCUTTLEFISH_BUILD_PVRTC=OFF']


class Build:
    def __init__(self, dir, exe, tool):
        self.dir, self.exe, self.tool = dir, exe, tool


def build(variant='rel', harness='cfh.cpp', extra_src=(), libflags=None, hflags=None):
    """(Re)builds the library, the tool and the harness from REPO's working tree."""
    flags, btype, hf = VARIANTS.get(variant, (libflags, 'RelWithDebInfo', hflags))
    d = os.path.join(OUT, 'build', variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(OUT, 'build', variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cache = os.path.join(d, 'CMakeCache.txt')
        if os.path.exists(cache) and 'CMAKE_HOME_DIRECTORY:INTERNAL=%s\n' % os.path.realpath(REPO) not in open(cache).read():
            shutil.rmtree(d)
            os.makedirs(d)
        # always configured again: the project globs its sources
        rc, o = sh(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=' + btype,
                    '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++',
                    '-DCMAKE_CXX_FLAGS=-w ' + flags] + CMAKE_OFF)
        if rc:
            shutil.rmtree(d, ignore_errors=True)
            raise ToolError('cmake failed:\n' + o[-3000:])
        exe = os.path.join(d, os.path.splitext(harness)[0])
        obj = exe + '.o'
        hsrc = os.path.join(ROOT, 'harness', harness)
        inc = ['-DCUTTLEFISH_STATIC_DEFINE', '-I' + os.path.join(REPO, 'lib/include'), '-I' + os.path.join(d, 'lib/include')]
        cmd = ['g++', '-std=c++17'] + hf.split() + inc + ['-c', hsrc, '-o', obj, '-MMD', '-MF', obj + '.d']
        # compile the harness while the library builds (its generated headers exist after cmake)
        need = True
        if os.path.exists(obj) and os.path.exists(obj + '.d'):
            deps = open(obj + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
            m = os.path.getmtime(obj)
            need = any((not os.path.exists(x)) or os.path.getmtime(x) > m for x in deps)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) if need else None
        rc, o = sh(['ninja', '-C', d])
        po = p.communicate()[0].decode('utf-8', 'replace') if p else ''
        if rc:
            raise ToolError('build of the repository failed:\n' + o[-4000:])
        if p and p.returncode:
            raise ToolError('build of the harness failed:\n' + po[-4000:])
        lib = os.path.join(d, 'output', 'libcuttlefish.a')
        if need or not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(lib):
            rc, o = sh(['g++'] + hf.split() + [obj, lib] + list(extra_src) + ['-lfreeimage', '-lpthread', '-o', exe])
            if rc:
                raise ToolError('link of the harness failed:\n' + o[-4000:])
        return Build(d, exe, os.path.join(d, 'output', 'cuttlefish'))


# ---------------------------------------------------------------- cases
class Case:
    """One case: an identifier, parameters the specification sees and the harness commands."""
    def __init__(self, id, lines, params=None, weight=None):
        self.id, self.lines, self.params = id, lines, params
        self.weight = weight if weight is not None else len(lines) + 1

    def text(self):
        p = ' ' + json.dumps(self.params, separators=(',', ':')) if self.params is not None else ''
        return 'case ' + self.id + p + '\n' + '\n'.join(self.lines) + '\n'


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C')


HUNG = threading.Event()      # a case has hung in this run


def _run_process(exe, text, stall, cwd):
    """(lines, exit code or 'timeout', error output); a process that says nothing for `stall` seconds hangs"""
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=cwd)
    lines, err, last = [], [], [time.time()]

    def feed():
        try:
            p.stdin.write(text)
            p.stdin.close()
        except OSError:
            pass

    def read():
        for line in p.stdout:
            lines.append(line)
            last[0] = time.time()

    def errors():
        err.append(p.stderr.read())
    ts = [threading.Thread(target=f, daemon=True) for f in (feed, read, errors)]
    for t in ts:
        t.start()
    rc = None
    while rc is None:
        ts[1].join(1 if time.time() - last[0] > 2 else .2)
        if not ts[1].is_alive():
            rc = p.wait()
        elif time.time() - last[0] > (stall if not HUNG.is_set() else stall/3):
            p.kill()
            p.wait()
            rc = 'timeout'
    for t in ts:
        t.join(20)
    return b''.join(lines).decode('utf-8', 'replace').splitlines(), rc, (err[0] if err else b'').decode('utf-8', 'replace')


def _run_chunk(exe, cases, timeout, cwd):
    """Runs cases in one process; on a crash or hang records it and continues behind that case.
    Returns {case id: [events]}; nothing is run behind the second case that hangs"""
    res = {}
    todo = list(cases)
    while todo:
        lines, rc, err = _run_process(exe, ''.join(c.text() for c in todo).encode(), timeout, cwd)
        cur = None
        for line in lines:
            try:
                ev = json.loads(line)
            except ValueError:
                continue        # the line a crash cut short
            if ev['op'] == 'case':
                cur = ev['id']
                res[cur] = [ev]
            elif cur is not None:
                res[cur].append(ev)
        if rc != 0 and rc != 'timeout' and rc not in (90, 91, 92) and cur is None:
            raise ToolError('harness died before the first case (%s): %s' % (rc, err[-2000:]))
        if rc == 'timeout' and cur is not None:
            again = HUNG.is_set()
            HUNG.set()
            k = [c.id for c in todo].index(cur)
            res[cur].append({'op': 'HANG', 'rc': 'timeout', 'err': '', 'n': -1})
            todo[k].crash = (rc, err[-3000:])
            todo = todo[k + 1:]
            if not again:
                continue
            rc = 0
        if rc == 0:
            for c in todo:
                res.setdefault(c.id, [{'op': 'case', 'id': c.id, 'p': c.params if c.params is not None else 0}])
            break
        if rc in (90, 91, 92):
            raise ToolError('harness protocol error %s: %s' % (rc, err[-500:]))
        if cur is None:
            raise ToolError('harness died before the first case (%s): %s' % (rc, err[-2000:]))
        ids = [c.id for c in todo]
        k = ids.index(cur)
        res[cur].append({'op': 'CRASH', 'rc': str(rc), 'err': '', 'n': -1})
        todo[k].crash = (rc, err[-3000:])
        todo = todo[k + 1:]
    return res


def run_cases(exe, cases, timeout=90, shards=NPROC, cwd=None):
    ids = set()
    for c in cases:
        if c.id in ids:
            raise ToolError('duplicate case ' + c.id)
        ids.add(c.id)
    n = max(1, min(shards, len(cases)))
    chunks = [cases[i::n] for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        res = {}
        for r in ex.map(lambda c: _run_chunk(exe, c, timeout, cwd), chunks):
            res.update(r)
    return res


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.rejects = []; self.states = 0; self.distinct = 0; self.rc = None; self.out = ''; self.ok = False; self.prints = []; self.error = None


def simulate(module, cfg, num, depth, seed, env=None, n=NPROC):
    """Random behaviours of a model from n simulations; what they printed, always in the same order."""
    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda i: tlc(module, cfg, env=env, args=['-simulate', 'num=%d' % ((num + n - 1)//n), '-depth', str(depth), '-seed', str(seed*64 + i)]), range(n)))
    for r in rs:
        if r.rc != 0:
            raise ToolError('simulation of %s failed\n%s' % (module, last_lines(r.out)))
    return [p for r in rs for p in r.prints]


def tlc(module, cfg, env=None, workers=1, timeout=800, mem='3g', args=(), tag=''):
    """Runs TLC on specs/<module>.tla with specs/<cfg>.cfg."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=OUT)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xmx' + mem, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', '-cp', JARS, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg + '.cfg'] + list(args) + [module + '.tla']
    r = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        r.rc, r.out = p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        r.rc, r.out = 'timeout', (x.stdout or b'').decode('utf-8', 'replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            r.prints.append(line[1:-1])
            m = re.match(r'"@@REJECT (.*)"$', line)
            if m:
                t = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
                try:
                    r.rejects.append(json.loads(t))
                except ValueError:
                    r.rejects.append({'raw': t})
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    r.ok = 'Model checking completed. No error has been found.' in r.out or ('Finished in' in r.out and r.rc == 0)
    return r


def last_lines(s, n=25):
    return '\n'.join([l for l in s.splitlines() if l.strip() and not re.match(r'Parsing file|Semantic proc|Linting|Warning: Please|\(Use the -now', l)][-n:])


# ---------------------------------------------------------------- checks
class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.level = level
        self.t0 = time.time()
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.states = 0; self.transitions = 0; self.traces = 0; self.events = 0
        self.samples = []; self.notes = {}; self.violations = []; self.known = []; self.assumptions = []
        self.findings = load_findings(prop)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- model checking of the specification itself
    def model(self, module, cfg, workers=NPROC, timeout=800, mem='6g', args=(), env=None, expect_states=1):
        r = tlc(module, cfg, env=env, workers=workers, timeout=timeout, mem=mem, args=args)
        if not r.ok or r.rc != 0:
            raise ToolError('TLC on %s/%s failed (%s):\n%s' % (module, cfg, r.rc, last_lines(r.out, 60)))
        if r.distinct < expect_states:
            raise ToolError('TLC on %s/%s explored only %d states' % (module, cfg, r.distinct))
        self.states += r.distinct
        self.transitions += r.states
        self.notes.setdefault('models', {})[module + '/' + cfg] = {'distinct': r.distinct, 'generated': r.states}
        return r

    # -- conformance: run the cases, then validate the recorded traces
    def conform(self, module, cases, variant='rel', exe=None, timeout=90, cfg='Trace', shards=NPROC, env=None, name='', free=False):
        if not cases:
            raise ToolError('no cases for ' + module)
        if exe is None:
            exe = build(variant).exe
        t = time.time()
        ev = run_cases(exe, cases, timeout=timeout, cwd=self.dir)
        th = time.time() - t
        def together(c):        # the case again, behind those that were run before it
            n = max(1, min(NPROC, len(cases)))
            return _run_chunk(exe, cases[cases.index(c) % n::n], timeout, self.dir)
        self.validate(module, cases, ev, cfg=cfg, shards=shards, env=env, rerun=lambda c: _run_chunk(exe, [c], timeout, self.dir), together=together, name=name, free=free)
        self.notes.setdefault('timing', {})[module + name] = {'harness_s': round(th, 1), 'total_s': round(time.time() - t, 1)}
        return ev

    def _write(self, path, cases, ev):
        n = 0
        with open(path, 'w') as f:
            for c in cases:
                for e in ev[c.id]:
                    f.write(json.dumps(e, separators=(',', ':')) + '\n')
                    n += 1
        return n

    def _tlc_trace(self, module, cfg, path, n, env, timeout=800):
        e = {'TRACE': path}
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout)
        done = [p for p in r.prints if p.startswith('@@END ')]
        r.complete = bool(done) and done[-1].split()[1] == str(n)
        return r

    def validate(self, module, cases, ev, cfg='Trace', shards=NPROC, env=None, rerun=None, together=None, name='', free=False):
        # balance the shards by size
        order = sorted(cases, key=lambda c: -sum(len(json.dumps(e)) for e in ev[c.id]))
        total = sum(len(ev[c.id]) for c in cases)
        n = max(1, min(shards, (total + 39)//40))
        groups = [order[i::n] for i in range(n)]
        jobs = []
        for i, g in enumerate(groups):
            p = os.path.join(self.dir, '%s%s-%d.ndjson' % (module, name, i))
            jobs.append((g, p, self._write(p, g, ev)))
        with cf.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda j: self._tlc_trace(module, cfg, j[1], j[2], env), jobs))
        byid = {c.id: c for c in cases}
        rejected = {}
        for (g, p, cnt), r in zip(jobs, rs):
            self.states += r.distinct
            self.transitions += r.states
            if r.complete:
                for x in r.rejects:
                    rejected.setdefault(x.get('case', '?'), x)
            else:
                # TLC could not evaluate an observation: find the case that is outside of the
                # specification's domain
                bad = self._bisect(module, cfg, g, ev, env)
                if bad is None:
                    raise ToolError('TLC failed on %s: rc=%s\n%s' % (p, r.rc, last_lines(r.out, 60)))
                for c, why in bad:
                    rejected.setdefault(c.id, why)
        self.traces += len(cases)
        self.events += total
        if not self.samples and cases:
            c = cases[len(cases)//2]
            self.samples.append({'case': c.id, 'params': short(c.params), 'commands': [short(x, 200) for x in c.lines[:8]],
                                 'observed': [short(x, 300) for x in ev[c.id][:3]]})
        unsettled, stuck = [], False
        for cid, why in list(rejected.items())[:40]:
            c = byid.get(cid)
            if c is None:
                raise ToolError('rejection of unknown case %s: %s' % (cid, why))
            # a rejection counts only if running the case again is rejected again
            again = None
            hung = any(e['op'] == 'HANG' or e.get('rc') == -99 for e in ev[cid])
            if self.violations and (stuck and hung or len(self.violations) >= 12 or time.time() - self.t0 > 200):
                continue
            # (alone or, as memory that is not initialised or was overwritten depends on what
            # happened before, in the same company); what threads do in a free run need not repeat
            for again_with in (rerun, together):
                if again_with is None or again is not None or (free and not hung):
                    continue
                ev2 = again_with(c)
                p = os.path.join(self.dir, 're-%s.ndjson' % re.sub(r'[^\w.-]', '_', cid)[:80])
                cnt = self._write(p, [c], ev2)
                r = self._tlc_trace(module, cfg, p, cnt, env)
                if r.complete and not r.rejects:
                    continue
                again = r.rejects[0] if r.rejects else why
            if again is None and rerun is not None and not (free and not hung):
                unsettled.append((cid, module, why))
                continue
            self.violation(cid, why=again or why, case=c, events=ev[cid], module=module)
            stuck = stuck or hung
        if unsettled and not self.violations:
            raise ToolError('case %s of %s was rejected once (%s) but accepted when repeated' % unsettled[0])
        if len(rejected) > 40:
            self.notes['more_rejections'] = len(rejected) - 40

    def _bisect(self, module, cfg, cases, ev, env):
        bad = []
        def one(cs):
            p = os.path.join(self.dir, 'bis-%s.ndjson' % hashlib.md5(''.join(c.id for c in cs).encode()).hexdigest())
            cnt = self._write(p, cs, ev)
            r = self._tlc_trace(module, cfg, p, cnt, env)
            return r
        stack = [cases]
        probes = 0
        while stack and len(bad) < 3 and probes < 40:
            cs = stack.pop()
            probes += 1
            r = one(cs)
            if r.complete:
                for x in r.rejects:
                    c = [c for c in cs if c.id == x.get('case')]
                    if c:
                        bad.append((c[0], x))
                continue
            if r.rc in ('timeout', 150, 151) or 'OutOfMemory' in r.out or 'semantic analysis failed' in r.out:
                return None
            if len(cs) == 1:
                m = re.search(r'Error: (.*(?:\n.*){0,6})', r.out)
                if not m or 'Starting...' not in r.out:
                    return None
                bad.append((cs[0], {'case': cs[0].id, 'why': 'observation outside of the domain of the specification: ' + (m.group(1)[:500] if m else '')}))
                continue
            h = len(cs)//2
            stack.append(cs[h:]); stack.append(cs[:h])
        return bad or None

    def violation(self, key, why=None, case=None, events=None, module=None, extra=None):
        for f in self.findings:
            if re.search(f['match'], key):
                if not f.get('seen'):
                    f['seen'] = True
                    self.known.append(f)
                return
        self.violations.append({'key': key, 'why': why, 'case': case, 'events': events, 'module': module, 'extra': extra})

    def finish(self, rule='', exhaustive=None, extra=None):
        vdir = os.path.join(self.dir, 'violations')
        os.makedirs(vdir, exist_ok=True)
        for i, v in enumerate(self.violations):
            path = os.path.join(vdir, '%02d-%s.json' % (i, re.sub(r'[^\w.-]', '_', v['key'])[:80]))
            c = v['case']
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'case': v['key'], 'why': v['why'], 'module': v['module'],
                           'params': c.params if c is not None else None,
                           'commands': c.lines if c is not None else None,
                           'crash': getattr(c, 'crash', None) if c is not None else None,
                           'events': v['events'], 'extra': v['extra'],
                           'how': 'feed "commands" to the harness (harness/cfh.cpp) and validate its output with specs/%s.tla' % v['module']},
                          f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  case %s: %s' % (v['key'], short(v['why'], 600)))
        for f in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['text']))
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'events_validated': self.events, 'samples': self.samples or [{'none': True}], 'rule': rule}
        if exhaustive is not None:
            cov['exhaustive'] = exhaustive
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d cases, %d events, %d states, %.1fs, %d violation(s)' % (self.prop, self.tier, self.traces, self.events, self.states, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


def short(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def load_findings(prop):
    """known-findings.txt: 'finding: property=<id> match=<regex on the case id> <text>'"""
    res = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append({'match': m.group(2), 'text': m.group(3)})
    return res


def main(run, prop):
    try:
        rc = run()
    except ToolError as e:
        print('ERROR: %s: %s' % (prop, e))
        rc = 3
    except subprocess.TimeoutExpired as e:
        print('ERROR: %s: %s' % (prop, e))
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
