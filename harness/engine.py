"""Runs scenarios against the library and validates the recorded traces with TLC, in parallel."""
import heapq
import json
import multiprocessing as mp
import os
import shutil
import tempfile
import time
from collections import Counter

import tlc

EVAL_ERRORS = ('TLC threw an unexpected exception', 'Attempted to', 'was not in the domain', 'evaluating the expression',
               'In evaluation', 'is not in the domain', 'overflow', 'Overflow')


def make(job):
    """(suite name, generator function, kwargs, seed) -> scenario"""
    import scen
    suite, fn, kw, seed, sid = job
    g = scen.Gen(f'{seed}/{suite}/{sid}')
    s = getattr(g, fn)(**kw)
    s['sid'] = sid
    s['suite'] = suite
    return s


def execute(scn):
    import execu
    return execu.Runner(scn).run()


def check_events(events, tmp, tag):
    """Validates a list of events; returns (fails, counts, states)."""
    path = os.path.join(tmp, f'{tag}.ndjson')
    with open(path, 'w') as f:
        for e in events:
            f.write(json.dumps(e) + '\n')
    try:
        return tlc.validate(path, len(events))
    finally:
        os.unlink(path)


def work(args):
    jobs, tmp, tag = args
    t0 = time.time()
    scns, events, owner = [], [], []
    for job in jobs:
        scn = job if isinstance(job, dict) else make(job)
        ev = execute(scn)
        owner += [len(scns)] * len(ev)
        events += ev
        scns.append(scn)
    t1 = time.time()
    out = dict(n=len(scns), events=len(events), fails=[], counts=Counter(), states=0, sample=None,
               ops=Counter(e['ev'] for e in events))
    try:
        fails, counts, states = check_events(events, tmp, tag)
    except tlc.TLCError as ex:
        # find the scenario the specification cannot evaluate
        fails, counts, states = [], Counter(), 0
        base = 0
        bad = 0
        for k in range(len(scns)):
            part = [events[i] for i in range(len(events)) if owner[i] == k]
            try:
                f, c, s = check_events(part, tmp, f'{tag}-{k}')
                fails += [(base + line, clause) for line, clause in f]
                counts.update(c)
                states += s
            except tlc.TLCError as ex2:
                if not any(t in str(ex2) for t in EVAL_ERRORS):
                    raise
                bad += 1
                fails.append((base + 1, 'ANY.not_a_behaviour_of_the_specification'))
                scns[k]['tlc_error'] = str(ex2)[:1500]
            base += len(part)
        if not bad and not fails:
            raise ex
    for line, clause in fails:
        out['fails'].append((clause, scns[owner[line - 1]], events[line - 1]))
    out['counts'].update(counts)
    out['states'] = states
    out['exec_s'], out['tlc_s'] = t1 - t0, time.time() - t1
    if scns:
        out['sample'] = scns[len(scns) // 2]
    return out


def partition(jobs, procs, most):
    """Parts of about the same amount of work."""
    weight = [max(1, len(j['ops']) // 8) if isinstance(j, dict) else 1 for j in jobs]
    n = min(len(jobs), max(procs, -(-sum(weight) // most)))
    parts, load = [[] for _ in range(n)], [(0, k) for k in range(n)]
    for i in sorted(range(len(jobs)), key=lambda i: (-weight[i], i)):
        w, k = heapq.heappop(load)
        parts[k].append(jobs[i])
        heapq.heappush(load, (w + weight[i], k))
    return parts


def run_jobs(jobs, procs=8, chunk=None):
    """Runs all jobs; returns the merged result."""
    import execu                                   # noqa: imported before forking
    tmp = tempfile.mkdtemp(prefix='verif-trace-')
    total = dict(n=0, events=0, fails=[], counts=Counter(), states=0, samples=[], ops=Counter(), exec_s=0.0, tlc_s=0.0)
    try:
        parts = partition(jobs, procs, chunk or 80)
        with mp.get_context('fork').Pool(min(procs, len(parts) or 1)) as pool:
            for r in pool.imap_unordered(work, [(p, tmp, f't{i}') for i, p in enumerate(parts)]):
                total['n'] += r['n']
                total['events'] += r['events']
                total['fails'] += r['fails']
                total['counts'].update(r['counts'])
                total['ops'].update(r['ops'])
                total['states'] += r['states']
                total['exec_s'] += r['exec_s']
                total['tlc_s'] += r['tlc_s']
                if r['sample'] and len(total['samples']) < 3:
                    total['samples'].append(r['sample'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return total
