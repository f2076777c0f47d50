"""C23: nothing is kept that no object owns."""
import os
from common import *
import gather

REPS = 5
# histories of each check in a quick run
QUOTA = {'C01': 200, 'C02': 250, 'C04': 60, 'C05': 250, 'C10': 80, 'C11': 120, 'C12': 200, 'C13': 250, 'C14': 320, 'C15': 80, 'C18': 150, 'C19': 250, 'C20': 250, 'C21': 150}


def run():
    c = Check('C23')
    c.model('Resources', 'Resources', expect_states=10000)
    if vf.tlc('Resources', 'ResourcesLeak').rc != 12:
        raise vf.ToolError('ResourcesLeak does not break the invariants')
    exe = gather.ledger()
    vf.ENV.update(LEDGER='rep', LEDGER_REPS=str(REPS))
    cases, kinds = [], {}
    for p, cs in gather.gather(sorted(QUOTA), c.seed, c.dir, c.thorough).items():
        if not c.thorough:
            c.rng.shuffle(cs)
            cs = cs[:QUOTA[p]]
        kinds[p] = len(cs)
        cases += cs
    c.rng.shuffle(cases)
    ev = c.conform('ResourcesTrace', cases, exe=exe, cfg='ResourcesTrace', timeout=150)
    c.notes['histories_of'] = kinds
    steps = sum(len(x.lines) for x in cases)*2*REPS
    words = {l.split()[0] for x in cases for l in x.lines}
    return c.finish(rule='histories of all other checks, including failing loads, saves and calls, each repeated %d times with every object destroyed behind each repetition and %d times with the objects kept; blocks and bytes of memory, files, threads and the surroundings of the process behind every repetition' % (REPS, REPS),
                    extra={'evaluations': steps, 'distinct_nontrivial': len(cases), 'nontrivial': 'histories repeated', 'kinds_of_calls': sorted(words)})


if __name__ == '__main__':
    main(run, 'C23')
