"""Runs the check of one property and writes its evidence."""
import argparse
import hashlib
import json
import os
import shutil
import sys
import time

import engine
import suites


def load_findings(root):
    path = os.path.join(root, 'known_findings.json')
    with open(path) as f:
        return json.load(f)


def signature(clause, scn, event):
    """What a known finding is identified by."""
    return dict(clause=clause, exc=event.get('exc'), where=(event.get('where') or [None])[-1], suite=scn.get('suite'))


def known(findings, prop, sig):
    for f in findings:
        if f.get('status') == 'known' and f['property'] == prop and all(sig.get(k) == v for k, v in f['match'].items()):
            return f
    return None


def main(argv, root):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--procs', type=int, default=8)
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop
    findings = load_findings(root)
    evdir = os.path.join(root, 'evidence')
    os.makedirs(evdir, exist_ok=True)

    models, extra_jobs = [], []
    if a.replay:
        with open(a.replay) as f:
            jobs = [json.load(f)['scenario']]
    else:
        jobs = suites.jobs_for(prop, a.tier, a.seed)
        for m in suites.PROPS[prop].get('models', []):
            import models as mc
            r = mc.run(m, a.tier, a.seed)
            models.append(r)
            extra_jobs += r.pop('scenarios', [])
    res = engine.run_jobs(jobs + extra_jobs, a.procs)

    bad, seen_known = [], {}
    for clause, scn, ev in suites.select(prop, res['fails']):
        f = known(findings, prop, signature(clause, scn, ev))
        if f:
            seen_known[f['what']] = seen_known.get(f['what'], 0) + 1
        else:
            bad.append((clause, scn, ev))
    for m in models:
        for v in m.get('violations', []):
            bad.append((v, dict(model=m['model']), {}))

    for what in sorted(seen_known):
        print(f'KNOWN-FINDING: property={prop} {what}')
    if bad:
        bad.sort(key=lambda b: (b[0].startswith('ANY.'), len(json.dumps(b[1]))))
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for clause, scn, ev in bad:
            if clause in shown:
                continue
            shown.add(clause)
            key = hashlib.sha1(json.dumps([clause, scn], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f'{prop}-{key}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, clause=clause, scenario=scn, event=ev), f, indent=1)
            print(f'# {clause}' + (f" {ev.get('exc')}: {ev.get('msg', '')[:160]} {ev.get('where', '')}" if ev.get('exc') else ''))
            print(f'VIOLATION property={prop} replay={path}')
            if len(shown) >= 8:
                break
    if not a.replay:
        own = {k: v for k, v in sorted(res['counts'].items()) if suites.states(prop, k)}
        cov = dict(
            states=res['states'] + sum(m['states'] for m in models),
            transitions=res['events'] + sum(m['transitions'] for m in models),
            traces_validated_against_impl=res['n'],
            samples=[trim(s) for s in res['samples'][:2]],
            events_by_kind=dict(res['ops']),
            clause_evaluations=own,
            models=models,
        )
        ev = dict(property=prop, tier=a.tier, seed=a.seed, level='model_checking', coverage=cov,
                  assumptions=['Values are compared in fixed point (three digits) with the tolerances of Trace.tla.',
                               'Executions are those of the generated scenarios; the model is exhaustive within its constants.'],
                  wall_s=round(time.time() - t0, 2), violations=len(bad))
        with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not own:
            print('no clause of this property was evaluated', file=sys.stderr)
            return 2
        print(f"{prop} {a.tier}: {res['n']} executions, {res['events']} events, {sum(own.values())} clause evaluations, "
              f"{sum(m['states'] for m in models)} model states, {len(bad)} violations, {time.time() - t0:.1f} s")
    return 1 if bad else 0


def trim(s):
    t = json.dumps(s)
    return s if len(t) < 6000 else dict(suite=s.get('suite'), sid=s.get('sid'), mods=[m['k'] for m in s.get('mods', [])],
                                        ops=s.get('ops', [])[:6])
