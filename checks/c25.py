"""C25: running out of resources is reported, never hidden."""
import hashlib
from toolrun import *
import gather, c17

# histories of each check in a quick run
QUOTA = {'C01': 40, 'C02': 60, 'C04': 10, 'C05': 30, 'C10': 20, 'C11': 40, 'C12': 60, 'C14': 40, 'C15': 20, 'C18': 60, 'C19': 80, 'C20': 120, 'C21': 60}


LINES = ['-i a.png -f R8G8B8A8 -o out.dds -m -n -g', '-i rgb.png -r 4 4 linear -f R8G8B8A8 -o out.ktx --srgb -m', '-a a.png -a rgb.png -r 4 4 -f R16G16B16A16 -o out.pvr -j 4', '-I array list.txt -r 4 4 -d 3 -m -f R8G8B8A8 -o out.dds',
         '-I cube six.txt -r 4 4 -m -f B8G8R8A8 -o out.ktx', '-I cube-array twelve.txt -r 4 4 -m 2 -f R8G8B8A8 -o out.pvr', '-i b.png -m -M 1 0 once half2.png -f R16G16B16A16 -t float -o out.dds', '-i c.png -m --custom-mip-list mips.txt -f R8G8B8A8 -o out.ktx',
         '-i gray16.png --rotate 90 --flipx --flipy -s rrrg -f R16 -o out.dds', '-i float.tif -n wrap 2 -f R8G8B8A8 -t snorm -o out.pvr', '-i int32.tif -f R32 -t int -o out.ktx', '-i deep.png --pre-multiply --alpha pre-multiplied -f A2B10G10R10 -o out.ktx -j 3',
         '-i gray.png -g -r 8 8 cubic -m linear -f R8 -t uint -o out.dds', '-i hdr.hdr -r 8 8 b-spline --rotate 270 -f B10G11R11_UFloat -t ufloat -o out.ktx', '-d 1 -i row.png -m -f R8G8B8A8 -o out.dds', '-i rgbaf.tif -n -m catmull-rom -f R32G32B32A32 -t float -o out.pvr -j 2']


def tool_run(tool, shim, w, words, k, on, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    w.populate(d)
    r, wr = os.pipe()
    try:
        rc = subprocess.run([tool] + words, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=[wr], timeout=30,
                            env=dict(vf.ENV, LD_PRELOAD=shim, REFUSE_AT=str(k), REFUSE_ON=str(int(on)), REFUSE_FD=str(wr))).returncode
    except subprocess.TimeoutExpired:
        rc = -99
    os.close(wr)
    count = os.read(r, 100).split()
    os.close(r)
    files, _ = w.snapshot(d)
    shutil.rmtree(d, ignore_errors=True)
    return {'op': 'toolfault' if k else 'tool', 'n': 2*k + on, 'k': k, 'on': on, 'rc': rc, 'kept': all(files.get(n) == b for n, b in w.all.items()),
            'out': [[n, hashlib.sha256(b).hexdigest()[:16]] for n, b in sorted(files.items()) if n not in w.all]}, int(count[0]) if count else 0


def tool_events(c, lines):
    b, w = build('rel'), c17.world(c.rng)
    shim = os.path.join(c.dir, 'shim.so')
    p = subprocess.run(['g++', '-std=c++17', '-O1', '-shared', '-fPIC', '-w', os.path.join(vf.ROOT, 'harness', 'shim.cpp'), '-o', shim, '-ldl'], capture_output=True, text=True)
    if p.returncode:
        raise vf.ToolError(p.stderr[-1000:])
    scratch = tempfile.mkdtemp(prefix='refuse')
    ev = {}
    try:
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            refs = list(ex.map(lambda l: tool_run(b.tool, shim, w, l.split(), 0, False, scratch), lines))
            todo = [(l, k, on) for l, (_, n) in zip(lines, refs) for k in range(1, n + 1) for on in (False, True)]
            rs = list(ex.map(lambda t: tool_run(b.tool, shim, w, t[0].split(), t[1], t[2], scratch)[0], todo))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for l, (e, n) in zip(lines, refs):
        if n < 5 and e['rc'] == 0:
            raise vf.ToolError('the tool does not ask for anything: ' + l)
        ev['tool ' + l] = [{'n': 0, 'op': 'case', 'id': 'tool ' + l}, dict(e, words=l)]
    for (l, k, on), e in zip(todo, rs):
        ev['tool ' + l].append(e)
    return ev


def run():
    c = Check('C25')
    c.model('Refusal', 'Refusal', expect_states=500)
    for f in ('Ignores', 'Loses', 'Reaches', 'Hides'):
        if vf.tlc('Refusal', 'Refusal' + f).rc != 12:
            raise vf.ToolError('Refusal%s does not break the invariants' % f)
    exe = gather.ledger()
    vf.ENV.update(LEDGER='refuse', LEDGER_POINTS='400' if c.thorough else '40')
    cases, kinds = [], {}
    for p, cs in gather.gather(sorted(QUOTA), c.seed, c.dir, c.thorough).items():
        c.rng.shuffle(cs)
        cs = cs[:QUOTA[p]*(8 if c.thorough else 1)]
        kinds[p] = len(cs)
        cases += cs
    c.rng.shuffle(cases)
    ev = c.conform('RefusalTrace', cases, exe=exe, timeout=300)
    tool = tool_events(c, LINES)
    c.validate('RefusalTrace', [Case(k, []) for k in tool], tool, name='-tool', shards=4)
    c.notes['tool_refusals'] = sum(len(x) - 2 for x in tool.values())
    faults = [e for x in cases for e in ev[x.id] if e['op'] == 'fault']
    how, words = {}, {}
    for e in faults:
        how[e['claims']] = how.get(e['claims'], 0) + 1
        words[e['word']] = words.get(e['word'], 0) + 1
    if not all(how.get(k, 0) > 20 for k in ('success', 'failure', 'threw', 'none')) and not c.thorough and not c.violations:
        raise vf.ToolError('hardly any refusals: %s' % how)
    c.notes.update(histories_of=kinds, refusals_by_answer=how, refusals_by_call=words)
    return c.finish(rule='histories of the other checks; every call in them that makes or changes an object or saves is repeated once for every point at which it asks its surroundings for something (memory, pixels, decoders, conversions, threads), with that refused once and with everything refused from there on, each time in a process of its own; of calls with many such points the first ones and others evenly spread',
                    extra={'evaluations': len(faults), 'distinct_nontrivial': len({(e['word'], e['line'], e['k'], e['on'], e['ans'], e['claims']) for e in faults}), 'nontrivial': 'distinct refusals and outcomes'})


if __name__ == '__main__':
    main(run, 'C25')
