"""Explores the closed models (spec/MC*.tla) with TLC and turns their behaviours into executions of the library.

TLC checks the models' properties in all reachable states and prints every transition; walks that cover all transitions
become scenarios, which are executed and validated against Trace.tla like all others.
"""
import json
import os
import random
import re
from collections import defaultdict, deque

import tlc

EDGE = re.compile(r'^<<"EDGE", "(.*)">>$')
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def explore(module, cfg, timeout=800):
    """(edges, generated states, distinct states, violations)"""
    rc, out = tlc.run_tlc(module + '.tla', cfg, workers=4, heap='4g', timeout=timeout)
    edges, gen, dist = [], 0, 0
    for line in out.replace('\n ', ' ').splitlines():
        m = EDGE.match(line)
        if m:
            edges.append(json.loads(m.group(1).replace('\\"', '"')))
            continue
        m = STATES.search(line)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
    if 'No error has been found' not in out:
        clean = '\n'.join(x for x in out.splitlines() if not x.startswith('<<"EDGE"'))
        if 'is violated' in clean or 'Assertion' in clean or 'The first argument of Assert' in clean:
            return edges, gen, dist, ['MODEL.' + module]
        raise tlc.TLCError(clean[-3000:])
    return edges, gen, dist, []


def key(x):
    return json.dumps(x, sort_keys=True)


def walks(edges, length, seed, roots=None):
    """Walks from the roots that together take every edge."""
    rng = random.Random(seed)
    out = defaultdict(list)
    for k, (a, act, b) in enumerate(edges):
        out[key(a)].append((k, key(b)))
    for v in out.values():
        v.sort()
        rng.shuffle(v)
    todo = {a: deque(k for k, _ in v) for a, v in out.items()}
    dest = {k: key(b) for k, (_, _, b) in enumerate(edges)}
    left = len(edges)
    reach = {key(b) for _, _, b in edges}
    starts = [key(r) for r in roots] if roots else sorted(a for a in out if a not in reach) or [key(edges[0][0])]

    def nearest(start):
        """Path (edges) to the nearest node with an edge that has not been taken."""
        seen, queue = {start: None}, deque([start])
        while queue:
            x = queue.popleft()
            if todo.get(x):
                path = []
                while seen[x] is not None:
                    px, k = seen[x]
                    path.append(k)
                    x = px
                return path[::-1]
            for k, b in out.get(x, []):
                if b not in seen:
                    seen[b] = (x, k)
                    queue.append(b)
        return None
    result = []
    for s in starts:
        at, walk = s, []
        while left:
            if todo.get(at) and len(walk) < length:
                k = todo[at].popleft()
                left -= 1
                walk.append(k)
                at = dest[k]
                continue
            path = nearest(at) if len(walk) < length else None
            if path is not None and len(walk) + len(path) < length * 1.2:
                walk += path
                at = dest[path[-1]] if path else at
                continue
            if walk:
                result.append([edges[k] for k in walk])
            path = nearest(s)
            if path is None:
                walk = []
                break
            walk, at = list(path), (dest[path[-1]] if path else s)
            if not path and not todo.get(s):
                break
        if walk:
            result.append([edges[k] for k in walk])
    return result, left


# ---------------------------------------------------------------- generators
def genset(edges, tier, seed):
    rng = random.Random(seed)
    if tier == 'quick':
        # every transition of every generator, without the history of requests
        edges = [json.loads(e) for e in sorted({key([a[:8], g, b[:8]]) for a, g, b in edges})]
        roots = [json.loads(r) for r in sorted({key(a) for a, _, _ in edges if a[4] == a[5] == a[3]})]
        ws, left = walks(edges, 60, seed, roots)
    else:
        ws, left = walks(edges, 60, seed)
    out = []
    for w in ws:
        up, down, abort, init = w[0][0][:4]
        n = len(w)
        rmin = rng.choice([0.0, 1.0])
        mods = [dict(k='load', ts=[[rng.choice([0.0, 1.0, 3.0])] for _ in range(n + 1)], fc=dict(k='none')),
                dict(k='gen', rmin=rmin, rmax=2.0, cb=0.5, co2=1.0, cco2=0.1, up=up, down=down, abort=abort, init=init)]
        ops = []
        for j, (_, g, _) in enumerate(w):
            if j % 3 == 0:
                ops.append(dict(op='limits'))
            norm = rng.random() < 0.3
            r = dict(g=rng.choice([1, 0.6, 0.75] if g else [0, 0.4, 0.5]))
            if norm:
                r['n'] = rng.choice([0, 500, 1000])
            else:
                r['a'] = rng.choice([0.0, 1.5, 3.0])
            ops.append(dict(op='step', norm=int(norm), req=[None, r]))
        out.append(dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), ops=ops + [dict(op='log')]))
    return out, left


# ---------------------------------------------------------------- a whole microgrid
def rows_series(rows):
    load = [[float(r[0])] for r in rows] + [[0.0]]
    ren = [[float(r[1])] for r in rows] + [[0.0]]
    grid = [[2.0, 1.0, 0.5, float(r[2])] for r in rows] + [[2.0, 1.0, 0.5, 1.0]]
    return load, ren, grid


def small_microgrid(rows, cap, init, mn, eff, up, down, rmin):
    load, ren, grid = rows_series(rows)
    none = dict(k='none')
    return [dict(k='load', ts=load, fc=none), dict(k='ren', ts=ren, fc=none),
            dict(k='batt', min=mn, max=cap, mch=2.0, mdis=2.0, eff=eff, ccyc=0.5, init=init),
            dict(k='gen', rmin=rmin, rmax=2.0, cb=3.0, co2=2.0, cco2=1.0, up=up, down=down, abort=1, init=1),
            dict(k='grid', imp=2.0, exp=1.0, ts=grid, fc=none, cco2=1.0)]


def microgrid(edges, tier, seed):
    ws, left = walks(edges, 60, seed)
    down = 1 if tier == 'thorough' else 0
    out = []
    for w in ws:
        mods = small_microgrid([a[0] for _, a, _ in w], 4.0, 2.0, 1.0, 0.5, 1, down, 1.0)
        ops = [dict(op='step', norm=0, req=[None, None, dict(a=float(b)), dict(g=g, a=float(q)), dict(a=float(i))])
               for _, (_, b, g, q, i), _ in w]
        out.append(dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), ops=ops + [dict(op='log')]))
    return out, left


def priority(rmin):
    def build(edges, tier, seed):
        ws, left = walks(edges, 40, seed)
        out = []
        for w in ws:
            mods = small_microgrid([a[0] for _, a, _ in w], 3.0, 1.0, 0.0, 0.5, 1, 0, rmin)
            ops = [dict(op='lists')] + [dict(op='dstep', pl=a[1]) for _, a, _ in w]
            out.append(dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), env=dict(k='discrete', reduced=0, flat=1, how='new'),
                            ops=ops + [dict(op='log')]))
        return out, left
    return build


def dispatch(edges, tier, seed):
    by = defaultdict(list)
    for ks, act, _ in edges:
        by[key(ks)].append(act)
    out = []
    none = dict(k='none')
    for ks, acts in sorted(by.items()):
        ks = json.loads(ks)
        acts.sort()
        n = len(acts) + 1
        mods = [dict(k='load', ts=[[float(d)] for d, _ in acts] + [[0.0]], fc=none),
                dict(k='grid', name='feed', imp=9.0, exp=0.0, ts=[[1.0, 0.0, 0.0, 1.0]] * n, fc=none, cco2=0.0)]
        batts = []
        for j, kind in enumerate(ks, 1):
            if kind.startswith('ren'):
                mods.append(dict(k='ren', name=f'r{j}', ts=[[float(kind[3])]] * n, fc=none))
            elif kind.startswith('bat'):
                batts.append((len(mods), int(kind[3]) / 2))
                mods.append(dict(k='batt', name=f'b{j}', flex=1, min=0.0, max=2.0, mch=2.0, mdis=2.0, eff=0.5, ccyc=0.1,
                                 init=float(kind[3])))
            else:
                mods.append(dict(k='grid', name=f'g{j}', flex=1, imp=1.0, exp=2.0, cco2=0.0,
                                 ts=[[0.5, 0.2, 0.0, float(kind[3])]] * n, fc=none))
        ops = []
        for d, i in acts:
            ops += [dict(op='charge', i=k, frac=f) for k, f in batts]
            ops.append(dict(op='step', norm=0, req=[None, dict(a=float(i))] + [None] * len(ks)))
        out.append(dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), ops=ops))
    return out, 0


# ---------------------------------------------------------------- clock
def episode(edges, tier, seed):
    rng = random.Random(seed)
    n = 5 if tier == 'thorough' else 4
    det = [e for e in edges if e[0][0]['k'] in ('none', 'det')]
    roots = sorted({key([a[0], 0, 0, n, 0, n, 0]) for a, _, _ in det})
    ws, left = walks(det, 60, seed, [json.loads(r) for r in roots])
    by = defaultdict(list)
    for e in edges:
        if e[0][0]['k'] in ('stoch', 'len'):
            by[key(e[0][0])].append(e)
    for k, es in sorted(by.items()):
        # the code chooses the window: the walks are followed as far as that allows
        root = [es[0][0][0], 0, 0, n, 0, n, 0]
        w, _ = walks(es, 60, seed, [root])
        ws += w if tier == 'thorough' else w[:12]
    out = []
    for w in ws:
        t = w[0][0][0]
        none = dict(k='none')
        mods = [dict(k='load', ts=[[rng.choice([1.0, 2.0, 3.0])] for _ in range(n)], fc=dict(k='oracle', h=2)),
                dict(k='batt', min=0.0, max=4.0, mch=1.0, mdis=1.0, eff=1.0, ccyc=0.1, init=2.0),
                dict(k='grid', imp=2.0, exp=1.0, ts=[[2.0, 1.0, 0.5, rng.choice([0.0, 1.0])] for _ in range(n)], fc=none, cco2=1.0)]
        ops = []
        for _, a, _ in w:
            if a[0] == 'step':
                ops.append(dict(op='step', norm=1, guard=1, req=[None, dict(n=rng.choice([0, 500, 1000])), dict(n=rng.choice([0, 333, 1000]))]))
            elif a[0] == 'reset':
                ops.append(dict(op='reset'))
            else:
                ops.append(dict(op='window', i0=a[1], f0=a[2]))
        scn = dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), ops=ops + [dict(op='log')])
        if t['k'] != 'none':
            scn['traj'] = dict(t)
        out.append(scn)
    return out, left


# ---------------------------------------------------------------- forecasts
def caster(k, h):
    d = dict(k=k)
    if k != 'none':
        d['h'] = h
    if k == 'gauss':
        d.update(sd=0.05, inc=0, rel=0)
    return d


def forecast(edges, tier, seed):
    rng = random.Random(seed)
    n = 6 if tier == 'thorough' else 5
    vals = [1.0, 4.0, 0.0, 2.0, 3.0, 0.5][:n]
    roots = sorted({key(a) for a, _, _ in edges if a[0] == 0})
    ws, left = walks(edges, 40, seed, [json.loads(r) for r in roots])
    out = []
    for w in ws:
        _, k, h = w[0][0]
        fc = caster(k, h)
        mods = [dict(k='load', ts=[[v + 1] for v in vals], fc=dict(fc)),
                dict(k='ren', ts=[[v] for v in vals], fc=dict(fc)),
                dict(k='grid', imp=2.0, exp=1.0, cco2=0.0, fc=dict(fc),
                     ts=[[1.0 + v, v / 2, 0.1 * v, float(j % 3 != 1)] for j, v in enumerate(vals)])]
        ops = []
        for _, a, _ in w:
            if a[0] == 'step':
                ops.append(dict(op='step', norm=1, req=[None, None, dict(n=rng.choice([0, 500, 1000]))]))
            elif a[0] == 'reset':
                ops += [dict(op='log'), dict(op='reset')]
            else:
                ops.append(dict(op='forecaster', fc=caster(a[1], a[2])))
        out.append(dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), ops=ops + [dict(op='log')]))
    return out, left


# ---------------------------------------------------------------- components
def container(edges, tier, seed):
    out = []
    none = dict(k='none')
    for q, _, _ in sorted(edges, key=key):
        mods = [dict(k='load', name='site', ts=[[1.0], [2.0], [1.0]], fc=none)]
        for k, name in q:
            if k == 'load':
                mods.append(dict(k='load', name=name, ts=[[1.0], [2.0], [1.0]], fc=none))
            elif k == 'ren':
                mods.append(dict(k='ren', name=name, ts=[[1.0], [2.0], [1.0]], fc=none))
            elif k in ('batt', 'xbatt'):
                mods.append(dict(k='batt', name=name, flex=int(k == 'xbatt'), min=0.0, max=4.0, mch=1.0, mdis=1.0, eff=1.0,
                                 ccyc=0.1, init=2.0))
            else:
                mods.append(dict(k='gen', name=name, rmin=0.0, rmax=2.0, cb=1.0, up=0, down=0, abort=1, init=1))
        cat = {}
        clash = False
        for k, name in [('load', 'site')] + list(q):
            clash |= cat.setdefault(name, k if k != 'gen' else 'gen') != k
        scn = dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), tag=1, ops=[])
        if clash:
            scn['clash'] = 1
        else:
            scn['ops'] = [dict(op='container')]
        out.append(scn)
    return out, 0


# ---------------------------------------------------------------- histories of two microgrids
def history(edges, tier, seed):
    rng = random.Random(seed)
    n = 6
    ws, left = walks(edges, 30, seed, [[[0, 'none', 0], []]])
    casters = dict(none=dict(k='none'), o2=dict(k='oracle', h=2), g3=dict(k='gauss', h=3, sd=0.05, inc=0, rel=0))
    out = []
    for w in ws:
        none = dict(k='none')
        mods = [dict(k='load', ts=[[rng.choice([1.0, 2.0, 3.0])] for _ in range(n)], fc=none),
                dict(k='ren', ts=[[rng.choice([0.0, 2.0, 3.0])] for _ in range(n)], fc=none),
                dict(k='batt', min=0.0, max=4.0, mch=1.0, mdis=1.0, eff=0.8, ccyc=0.1, init=2.0),
                dict(k='gen', rmin=0.5, rmax=2.0, cb=1.0, co2=1.0, cco2=0.5, up=1, down=1, abort=1, init=0),
                dict(k='grid', imp=2.0, exp=1.0, ts=[[2.0, 1.0, 0.5, rng.choice([0.0, 1.0])] for _ in range(n)], fc=none, cco2=1.0)]
        ops = []
        other = dict(A='B', B='A')
        exists = {'A'}
        for _, a, _ in w:
            o, wid = a[0], a[1]
            if o == 'step':
                ops.append(dict(op='step', id=wid, norm=1, req=[None, None, dict(n=rng.choice([0, 500, 1000])),
                                dict(g=rng.choice([0, 1, 1]), n=rng.choice([0, 500, 1000])), dict(n=rng.choice([0, 333, 1000]))]))
            elif o == 'reset':
                ops.append(dict(op='reset', id=wid))
            elif o == 'forecaster':
                ops.append(dict(op='forecaster', id=wid, fc=dict(casters[a[2]])))
            elif o == 'log':
                ops.append(dict(op='log', id=wid))
            elif o == 'charge':
                ops.append(dict(op='charge', id=wid, i=2, frac=rng.choice([0.0, 0.5, 1.0]), soc=rng.choice([0, 1])))
            elif o in ('outputs', 'returned'):
                ops.append(dict(op='tamper', id=wid, what=o))
            else:
                ops.append(dict(op='copy', id=wid, to=a[2], how=a[3]))
                exists.add(a[2])
            if other[wid] in exists and o != 'copy':
                ops.append(dict(op='same', id=other[wid], tag='C12'))
        for wid in sorted(exists):
            ops.append(dict(op='log', id=wid))
        out.append(dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), ops=ops))
    return out, left


def legacy(eff):
    """Old-style microgrids and the modular ones they convert to, side by side."""
    def make(edges, tier, seed):
        # the number of steps so far does not matter
        edges = [json.loads(e) for e in sorted({key([a[0], act, b[0]]) for a, act, b in edges})]
        ws, left = walks(edges, 60, seed, [2000])
        out = []
        for w in ws:
            rows = [e[1][0] for e in w] + [[0, 0, 1]]
            p = dict(batt=1, gen=1, grid=1, h=1, load=[float(r[0]) for r in rows], pv=[float(r[1]) for r in rows],
                     st=[float(r[2]) for r in rows], imp=[2.0] * len(rows), exp=[1.0] * len(rows), em=[0.5] * len(rows),
                     cap=4.0, min=1.0, max=4.0, init=2.0, pch=2.0, pdis=2.0, eff=eff, ccyc=0.5, rated=3.0, gmin=2.0, gmax=3.0, fuel=3.0,
                     co2=2.0, pimp=2.0, pexp=1.0, cll=10.0, cog=2.0, cco2=1.0)
            ops = [dict(op='lnew', to='L', p=p), dict(op='lback', id='L', to='M', how='')]
            for _, (_, bc, bd, gi, ge, q, f), _ in w:
                ops.append(dict(op='lstep', id='L', c=dict(bc=float(bc), bd=float(bd), gi=float(gi), ge=float(ge), gen=float(q))))
                ops.append(dict(op='step', id='M', norm=0, guard=1, req=[
                    None, None, None, dict(a=(f['bd'] - f['bc']) / 1000), dict(g=int(f['gen'] > 0), a=f['gen'] / 1000),
                    dict(a=(f['gi'] - f['ge']) / 1000)]))
            out.append(dict(mods=[dict(k='load', ts=[[1.0], [2.0]])], unb=dict(llc=10.0, ogc=2.0), ops=ops))
        return out, left
    return make


MODELS = dict(
    legacy=('MCLegacy', 'MCLegacy', legacy(0.5)),
    legacy_lossless=('MCLegacy', 'MCLegacyb', legacy(1.0)),
    genset=('MCGenset', 'MCGenset', genset),
    microgrid=('MCMicrogrid', 'MCMicrogrid', microgrid),
    dispatch=('MCDispatch', 'MCDispatch', dispatch),
    episode=('MCEpisode', 'MCEpisode', episode),
    forecast=('MCForecast', 'MCForecast', forecast),
    priority=('MCPriority', 'MCPrioritya', priority(0.0)),
    priority_min=('MCPriority', 'MCPriorityb', priority(1.0)),
    container=('MCContainer', 'MCContainer', container),
    history=('MCHistory', 'MCHistory', history),
)


def run(name, tier, seed, share=1.0):
    module, cfg, build = MODELS[name]
    edges, gen, dist, bad = explore(module, f'{cfg}_{tier}.cfg')
    edges.sort(key=key)
    scns, left = build(edges, tier, seed) if edges else ([], 0)
    for k, s in enumerate(scns):
        s.update(sid=k, suite='model_' + name, seed=seed * 1000003 + k, limit=180)
    if share < 1.0:
        scns = random.Random(seed).sample(scns, max(1, int(len(scns) * share)))
    return dict(model=module, cfg=f'{cfg}_{tier}.cfg', states=dist, transitions=gen, edges=len(edges), edges_not_replayed=left,
                executions=len(scns), violations=bad, scenarios=scns)
