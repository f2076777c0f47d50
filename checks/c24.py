"""C24: results depend on nothing but the arguments and the objects."""
import os, random, shutil
from common import *
import gather

QUOTA = {'C01': 300, 'C02': 500, 'C04': 160, 'C05': 400, 'C10': 90, 'C11': 200, 'C12': 400, 'C13': 600, 'C14': 320, 'C15': 80, 'C18': 500, 'C19': 900, 'C20': 500, 'C21': 400}
# what fresh memory and the stack hold; the order of the histories; whether each is run twice
AMBIENCES = [{'memory': 'ones', 'order': 'as they come'}, {'memory': 'random', 'order': 'shuffled'}, {'memory': 'zeros', 'order': 'backwards', 'again': True}, {'memory': 'random', 'order': 'alone'}]
FILL = {'ones': '1', 'zeros': '2', 'random': '3'}
FILES = {'fput', 'fstat', 'fdel', 'fdir'}


def touches_files(x):
    return any(l.split()[0] in FILES or (l.split()[0] in ('tsave', 'tsweep') and ('file' in l.split() or 'flimit' in l.split())) or (l.split()[0] in ('isave',)) for l in x.lines)


class Twins:
    def __init__(self, c, exe, files):
        self.c, self.exe, self.files, self.n = c, exe, files, 0

    def one(self, k, cases, shards=vf.NPROC):
        """the histories in ambience k, in a directory of their own"""
        a = AMBIENCES[k]
        self.n += 1
        d = os.path.join(self.c.dir, 'run%d' % self.n)
        shutil.copytree(self.files, d)
        order = list(cases)
        rng = random.Random('%d-%d' % (self.c.seed, k))
        if a['order'] == 'shuffled':
            rng.shuffle(order)
        elif a['order'] == 'backwards':
            order.reverse()
        env = dict(vf.ENV)
        vf.ENV.update(LEDGER='twin', LEDGER_FILL=FILL[a['memory']])
        try:
            if a['order'] == 'alone':
                with vf.cf.ThreadPoolExecutor(shards) as ex:
                    r = {}
                    for x in ex.map(lambda q: vf._run_chunk(self.exe, [q], 90, d), order):
                        r.update(x)
                return r
            if a.get('again'):
                vf.ENV['LEDGER_AGAIN'] = '1'
            return vf.run_cases(self.exe, order, cwd=d, shards=shards)
        finally:
            vf.ENV.clear()
            vf.ENV.update(env)
            shutil.rmtree(d)

    def events(self, cases, alone):
        """the runs one behind the other; alone: the histories that get a run of their own"""
        res = {x.id: [{'op': 'case', 'id': x.id, 'n': 0, 'p': 0}] for x in cases}
        for k, a in enumerate(AMBIENCES):
            sub = [x for x in cases if (a['order'] != 'alone' or x.id in alone) and (not a.get('again') or not x.files)]
            if not sub:
                continue
            ev = self.one(k, sub)
            for x in sub:
                ans = ['%s %s' % (e['op'], ' '.join(str(e.get(f)) for f in ('h', 'len', 'rc') if f in e)) for e in ev[x.id] if e['op'] != 'case']
                res[x.id].append({'op': 'run', 'ambience': ', '.join('%s %s' % i for i in sorted(a.items())), 'n': k, 'answers': ans})
        for x in cases:
            res[x.id].append({'op': 'done', 'n': 9})
        return res


def run():
    c = Check('C24')
    c.model('Purity', 'Purity', expect_states=10000)
    for cfg in ('PurityJunk', 'PurityStale'):
        if vf.tlc('Purity', cfg).rc != 12:
            raise vf.ToolError('%s does not break the invariants' % cfg)
    exe = gather.ledger()
    files = os.path.join(c.dir, 'files')
    cases, kinds = [], {}
    for p, cs in gather.gather(sorted(QUOTA), c.seed, files, c.thorough).items():
        c.rng.shuffle(cs)
        if not c.thorough:
            cs = cs[:QUOTA[p]]
        kinds[p] = len(cs)
        cases += cs
    for x in cases:
        x.files = touches_files(x)
    c.rng.shuffle(cases)
    alone = {x.id for x in c.rng.sample(cases, min(len(cases), 700 if not c.thorough else 8000))}
    tw = Twins(c, exe, files)
    ev = tw.events(cases, alone)
    c.validate('PurityTrace', cases, ev, rerun=lambda x: tw.events([x], {x.id}), together=lambda x: {x.id: tw.events(cases, alone)[x.id]})
    c.notes['histories_of'] = kinds
    runs = sum(1 for es in ev.values() for e in es if e['op'] == 'run')
    answers = sum(len(e['answers']) for es in ev.values() for e in es if e['op'] == 'run')
    words = {l.split()[0] for x in cases for l in x.lines}
    return c.finish(rule='histories of all other checks in up to four ambiences: fresh memory and stack of ones, of zeros and of random bytes, in different company and order, directly behind themselves, and alone in a fresh process; every answer equal',
                    extra={'evaluations': runs, 'distinct_nontrivial': len(cases), 'nontrivial': 'histories compared', 'alone': len(alone), 'answers_compared': answers, 'kinds_of_calls': sorted(words)})


if __name__ == '__main__':
    main(run, 'C24')
