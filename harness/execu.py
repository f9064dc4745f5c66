"""Executes scenarios against the library and records what is observable, as events for Trace.tla."""
import contextlib
import copy
import io
import json
import os
import pickle
import random
import shutil
import signal
import tempfile
import warnings
import zlib

import numpy as np
import pandas as pd

import build
from build import Microgrid, all_mods, module_ffc, module_name, spec_module
from enc import BIG, num, raw

PROV = dict(batt='discharge_amount', gen='genset_production', grid='grid_import', ren='renewable_used', unb='loss_load')
ABS = dict(batt='charge_amount', grid='grid_export', load='load_met', unb='overgeneration')
BAL = dict(op='overall_provided_to_microgrid', oa='overall_absorbed_from_microgrid',
           fp='fixed_provided_to_microgrid', fa='fixed_absorbed_from_microgrid',
           cp='controllable_provided_to_microgrid', ca='controllable_absorbed_from_microgrid',
           rew='reward', srew='shaped_reward')
STATE_KEYS = dict(batt=['soc', 'current_charge'],
                  gen=['current_status', 'goal_status', 'steps_until_up', 'steps_until_down'],
                  unb=[], load=['load'], ren=['renewable'],
                  grid=['import_price', 'export_price', 'co2_per_kwh', 'grid_status'])


class Stop(Exception):
    """The scenario cannot go on (after an expected refusal)."""


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout('scenario takes too long')


def state_keys(m, h):
    base = STATE_KEYS[m['k']]
    if m['k'] in ('load', 'ren', 'grid'):
        return [f'{c}_current' for c in base] + [f'{c}_forecast_{j}' for j in range(h) for c in base]
    return base


class World:
    """A microgrid of the library together with its description."""

    def __init__(self, wid, mg, mods, unit):
        self.id, self.mg, self.unit = wid, mg, unit
        self.mods = copy.deepcopy(mods)
        self.fchanged = False
        self.off = 0                                     # the row of the series that is called step 0 in the trace
        self.hmax = [self.horizon(m) for m in mods]      # longest horizon since the log began
        self.numbers = []
        seen = {}
        for m in mods:
            n = module_name(m)
            self.numbers.append((n, seen.get(n, 0)))
            seen[n] = seen.get(n, 0) + 1

    def module(self, i):
        name, j = self.numbers[i]
        return self.mg.modules[name][j]

    def modules(self):
        return [self.module(i) for i in range(len(self.mods))]

    # -- encoding
    def e(self, x):
        return num(x / self.unit) if x is not None else BIG

    def enc_state(self, m, values):
        values = list(np.atleast_1d(values)) if not isinstance(values, list) else values
        if m['k'] == 'gen':
            return [raw(v) for v in values]
        if m['k'] == 'grid':
            return [num(v) for v in values]
        if m['k'] == 'batt':
            return [num(values[0])] + [self.e(v) for v in values[1:]] if values else []
        return [self.e(v) for v in values]

    def horizon(self, m):
        fc = m.get('fc') or dict(k='none')
        return 0 if fc['k'] == 'none' else fc['h']

    def state_of(self, i):
        m = self.mods[i]
        sd = self.module(i).state_dict()
        return self.enc_state(m, list(sd.values()))

    def observe(self, obs=None):
        out = []
        for i, m in enumerate(self.mods):
            mod = self.module(i)
            sd = mod.state_dict()
            d = dict(s=self.enc_state(m, list(sd.values())), t=raw(mod.current_step) - self.off)
            if list(sd.keys()) != state_keys(m, self.horizon(m)):
                d['s'] = d['s'] + [BIG, BIG]          # wrong labels: rejected as a wrong shape
            if m['k'] == 'batt':
                c = sd.get('current_charge')
                d['xb'] = int(c is not None and m['min'] <= c <= m['max'])
            if obs is not None:
                name, j = self.numbers[i]
                o = np.atleast_1d(np.asarray(obs[name][j], dtype=float)).reshape(-1)
                d['o'] = [num(x) for x in o]
            out.append(d)
        return out

    def frame(self):
        return self.mg.get_log()

    def bal_of(self, df, row):
        out = {}
        for k, col in BAL.items():
            try:
                v = df[('balance', 0, col)].iloc[row]
            except (KeyError, IndexError):
                out[k] = BIG
            else:
                out[k] = self.e(v)
        return out


class Runner:
    def __init__(self, scn):
        self.scn = scn
        self.events = []
        self.worlds = {}
        self.rng = random.Random(scn.get('seed', 0))
        self.tmp = None
        self.share = {}

    def emit(self, ev, **kw):
        d = dict(ev=ev)
        d.update(kw)
        self.events.append(d)

    # ---------------------------------------------------------------- life cycle
    def run(self):
        scn = self.scn
        np.random.seed(scn.get('seed', 0) % (2 ** 31))
        self.emit('begin', sid=scn['sid'])
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(scn.get('limit', 60)))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.start()
                k = 0
                for op in scn['ops']:
                    if scn.get('reseed') and not op.get('inserted'):
                        np.random.seed((scn['seed'] + 7919 * k) % (2 ** 31))
                        random.seed(scn['seed'] + k)
                        k += 1
                    getattr(self, 'op_' + op['op'])(op)
        except Stop:
            pass
        except Timeout:
            self.emit('exc', exc='Timeout', msg='')
        except Exception as ex:                      # noqa
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)
            where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb][-6:]
            self.emit('exc', exc=type(ex).__name__, msg=str(ex)[:300], where=where)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            if self.tmp:
                shutil.rmtree(self.tmp, ignore_errors=True)
        if scn.get('rerun'):
            self.rerun()
        return self.events

    def rerun(self):
        """The same again, in the same process, with other things going on in between: has to come out the same."""
        other = copy.deepcopy(self.scn)
        other.pop('rerun')
        other['fp'] = 1
        rng = random.Random(self.scn['seed'])
        ops = []
        for op in other['ops']:
            ops.append(op)
            if rng.random() < 0.5:
                ops.append(dict(op=rng.choice(['queries', 'noise']), id=op.get('id', 'A') if op['op'] != 'copy' else 'A',
                                inserted=1))
        other['ops'] = ops
        second = Runner(other)
        second.quiet = True
        ev = second.run()
        a, b = fingerprints(self.events), fingerprints(ev)
        self.emit('twin', tag='C16', what='repeatable', a=a, b=b, tol=0)

    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='verif-scn-')
        return self.tmp

    def start(self):
        mods = all_mods(self.scn)
        try:
            mg = build.build_microgrid(self.scn, self.share)
        except NameError as ex:
            self.emit('clash', mods=[spec_module(m, self.scn.get('unit', 1.0)) for m in mods], exc='NameError', msg=str(ex)[:200])
            raise Stop
        if self.scn.get('clash'):
            self.emit('clash', mods=[spec_module(m, self.scn.get('unit', 1.0)) for m in mods], exc='none')
            return
        self.new_world('A', mg, mods)

    def new_world(self, wid, mg, mods):
        w = World(wid, mg, mods, self.scn.get('unit', 1.0))
        self.worlds[wid] = w
        n = min([len(m['ts']) for m in mods if 'ts' in m] or [1])
        f0 = [m.get('f0', -1) for m in mods if 'ts' in m]
        f0 = f0[0] if f0 and f0[0] > 0 else n
        i0 = ([m.get('i0', 0) for m in mods if 'ts' in m] or [0])[0]
        self.emit('init', id=wid, mods=[spec_module(m, w.unit) for m in mods], t=raw(mg.current_step),
                  i0=i0, f0=f0, ri0=raw(mg.initial_step), rf0=raw(mg.final_step), m=w.observe())
        return w

    def world(self, op):
        return self.worlds[op.get('id', 'A')]

    # ---------------------------------------------------------------- stepping
    def resolve(self, w, op):
        """Concrete requests of a step: (control dict for the library, requests for the specification)."""
        norm = int(op.get('norm', 0))
        control, req = {}, []
        for i, m in enumerate(w.mods):
            if module_ffc(m) != 'controllable':
                req.append(dict(g=0, q=0))
                continue
            r = op['req'][i] if i < len(op['req']) and op['req'][i] is not None else dict(a=0.0)
            mod = w.module(i)
            g = r.get('g', 0)
            if norm:
                q = r.get('n', 0) / 1000.0
                spec_q = r.get('n', 0)
            else:
                if 'a' in r:
                    q = r['a'] * w.unit
                else:
                    if m['k'] == 'gen':
                        goal = 1 if g > 0.5 else 0
                        q = r['r'] * mod.next_max_production(goal) if r.get('lo') is None else \
                            r['r'] * mod.next_min_production(goal)
                    elif r['r'] >= 0:
                        q = r['r'] * mod.max_production
                    else:
                        q = r['r'] * mod.max_consumption
                if q != 0 and abs(q) / w.unit < 0.02:
                    q = 0.0                        # too small to be told from zero in the trace
                spec_q = w.e(q)
            if m['k'] == 'gen':
                value = np.array([g, q], dtype=float)
                req.append(dict(g=num(g), q=spec_q))
            else:
                value = float(q)
                req.append(dict(g=0, q=spec_q))
            name, _ = w.numbers[i]
            control.setdefault(name, []).append(value)
        return norm, control, req

    def op_step(self, op):
        w = self.world(op)
        if op.get('guard') and self.over(w):
            return
        norm, control, req = self.resolve(w, op)
        for name, v in list(control.items()):
            if op.get('bare') and len(v) == 1 and not isinstance(v[0], np.ndarray):
                control[name] = v[0]
        frozen = copy.deepcopy(control)
        try:
            obs, reward, done, info = w.mg.run(control, normalized=bool(norm))
        except Exception as ex:
            self.failed(w, ex, norm, req)
        if repr(frozen) != repr(control):
            self.emit('twin', tag='C12', what='control_changed', a=[0], b=[1], tol=0)
        self.record_step(w, norm, req, obs, reward, done, info, op, nested=not w.off)
        w.last = (obs, info)
        return obs, reward, done, info

    def failed(self, w, ex, norm, req):
        mods = w.mods
        if isinstance(ex, ValueError) and any(m.get('raise') for m in mods):
            self.emit('refused', id=w.id, exc='ValueError', norm=norm, req=req, m=w.observe())
            raise Stop
        if isinstance(ex, RuntimeError) and not any(m['k'] == 'unb' for m in mods):
            self.emit('imbalance', id=w.id, exc='RuntimeError', norm=norm, req=req, m=w.observe())
            raise Stop
        raise ex

    def record_step(self, w, norm, req, obs, reward, done, info, op=None, nested=True, pl=None):
        ms = w.observe(obs if nested else None)
        n_info = 0
        prov_sum = abs_sum = 0.0
        for k, v in info.items():
            if isinstance(v, list):
                n_info += len(v)
        for i, m in enumerate(w.mods):
            name, j = w.numbers[i]
            inf = info[name][j]
            prov, ab = inf.get('provided_energy'), inf.get('absorbed_energy')
            ms[i].update(prov=w.e(prov) if prov is not None else 0, abs=w.e(ab) if ab is not None else 0,
                         hp=int(prov is not None), ha=int(ab is not None),
                         neg=int((prov is not None and prov < -1e-9) or (ab is not None and ab < -1e-9)),
                         co2=w.e(inf.get('co2_production', 0.0)), curt=w.e(inf.get('curtailment', 0.0)))
            prov_sum += prov or 0.0
            abs_sum += ab or 0.0
            log = w.module(i).log_dict()
            ms[i]['rew'] = w.e(log['reward'][-1]) if log.get('reward') else BIG
            ms[i]['nl'] = len(log.get('reward', []))
        df = w.frame()
        kw = dict(pl=pl) if pl is not None else {}
        self.emit('step', **kw, id=w.id, norm=norm, req=req, m=ms, imb=num((prov_sum - abs_sum) / w.unit, 1e6),
                  ninfo=n_info, bal=w.bal_of(df, -1), reward=w.e(reward), shaped=int(bool(self.scn.get('shape'))),
                  shape=self.scn.get('shape') or '', raw=num(reward),
                  done=int(bool(done)), t=raw(w.mg.current_step) - w.off, nlog=len(df),
                  **(dict(fp=crc([exact(obs), exact(reward), exact(info)])) if self.scn.get('rerun') or self.scn.get('fp')
                     else {}))

    def op_reset(self, op):
        w = self.world(op)
        ret = w.mg.reset()
        self.record_reset(w, {name: ret[name] for name, _ in w.numbers})

    def record_reset(self, w, obs):
        w.hmax = [w.horizon(m) for m in w.mods]
        ms = w.observe(obs)
        ts = [i for i, m in enumerate(w.mods) if 'ts' in m]
        for i, m in enumerate(w.mods):
            mod = w.module(i)
            ms[i]['i0'] = raw(mod.initial_step)
            ms[i]['f0'] = raw(mod.final_step) if i in ts else 0
        traj = self.scn.get('traj') or dict(k='none')
        self.emit('reset', id=w.id, traj=dict(k=traj['k'], a=traj.get('a', 0), b=traj.get('b', 0)),
                  t0=raw(w.mg.current_step), tf=ms[ts[0]]['f0'], t=raw(w.mg.current_step),
                  mi0=raw(w.mg.initial_step), mf0=raw(w.mg.final_step), m=ms, nlog=len(w.frame()))

    def op_window(self, op):
        """The user moves the first and last step of all episodes."""
        w = self.world(op)
        if op.get('i0') is not None:
            w.mg.initial_step = op['i0']
        if op.get('f0') is not None:
            w.mg.final_step = op['f0']
        self.emit('window', id=w.id, i0=op.get('i0', -1), f0=op.get('f0', -1), ri0=raw(w.mg.initial_step),
                  rf0=raw(w.mg.final_step), t=raw(w.mg.current_step), m=w.observe())

    def op_charge(self, op):
        """The user sets the charge of a battery."""
        w = self.world(op)
        mod = w.module(op['i'])
        m = w.mods[op['i']]
        value = op['frac'] * (m['max'] - m['min']) + m['min']
        if op.get('soc'):
            mod.soc = value / m['max']
        else:
            mod.current_charge = value
        self.emit('charge', id=w.id, i=op['i'] + 1, v=w.e(value), m=w.observe())

    # ---------------------------------------------------------------- log
    def op_log(self, op):
        w = self.world(op)
        df = w.frame()
        n = len(df)

        def col(name, j, key, enc):
            try:
                return [enc(v) for v in df[(name, j, key)].tolist()]
            except KeyError:
                return None
        cols = []
        for i, m in enumerate(w.mods):
            name, j = w.numbers[i]
            c = {}
            for k, key in dict(rew='reward', prov=PROV.get(m['k']), abs=ABS.get(m['k']), curt='curtailment',
                               co2='co2_production').items():
                c[k] = col(name, j, key, w.e) if key else None
            c['s'] = [col(name, j, key, lambda x: x) for key in state_keys(m, w.hmax[i])]
            cols.append(c)
        rows = []
        for k in range(n):
            row = []
            for i, m in enumerate(w.mods):
                c = cols[i]
                d = {f: (c[f][k] if c[f] is not None else 0) for f in ('rew', 'prov', 'abs', 'curt', 'co2')}
                d['s'] = w.enc_state(m, [(s[k] if s is not None else None) for s in c['s']])
                row.append(d)
            rows.append(row)
        start = raw(df.index[0]) if n else 0
        contiguous = int(list(df.index) == list(range(start, start + n)) if n else 1)
        self.emit('log', id=w.id, n=n, start=start, cont=contiguous, rows=rows, bal=[w.bal_of(df, k) for k in range(n)],
                  ml=[len(w.module(i).log_dict().get('reward', [])) for i in range(len(w.mods))])
        if n:
            a, b = [], []
            for i in range(len(w.mods)):
                mod = w.module(i)
                d, last = mod.log_dict(), mod.logger_last
                for k in sorted(set(d) | set(last)):
                    a.append(1)
                    b.append(int(k in d and k in last and repr(d[k][-1]) == repr(last[k])))
            self.emit('twin', tag='C10', what='last_entry', a=a, b=b, tol=0)

    # ---------------------------------------------------------------- components
    def op_container(self, op):
        """All the ways to get at the components."""
        w = self.world(op)
        mg, c = w.mg, w.mg.modules

        def ids(mods):
            return [m.verif_tag + 1 for m in mods]
        n = len(w.mods)
        for i, m in enumerate(w.mods):
            if m['k'] == 'unb':
                w.module(i).verif_tag = i
        orders = [ids(c.to_list()), ids(c.iterlist()), ids(mg.module_list), ids([m for _, m in c.to_tuples()]),
                  ids([m for _, ms in c.iterdict() for m in ms]), ids([m for ms in c.to_dict().values() for m in ms])]
        names = [list(c.names()), [k for k, _ in c.iterdict()], list(c.to_dict())]
        tnames = []
        for k, _ in c.to_tuples():
            if not tnames or tnames[-1] != k:
                tnames.append(k)
        names.append(tnames)
        views = []
        roles = dict(sources='source', sinks='sink', source_and_sinks='both')
        for a in ('fixed', 'flex', 'controllable'):
            for sub in (getattr(c, a), c[a], getattr(mg, a)):
                views.append(dict(a=a, b='*', l=ids(sub.to_list())))
                views.append(dict(a=a, b='*', l=ids(sub.iterlist())))
                views.append(dict(a=a, b='*', l=ids([m for _, m in sub.to_tuples()])))
                views.append(dict(a=a, b='*', l=ids([m for _, ms in sub.iterdict() for m in ms])))
            for b in roles:
                for sub in (getattr(getattr(c, a), b), c[b][a], getattr(c, b)[a], getattr(getattr(mg, b), a)):
                    views.append(dict(a=a, b=roles[b], l=ids([m for ms in sub.values() for m in ms])))
        for b in roles:
            for sub in (getattr(c, b), c[b], getattr(mg, b)):
                views.append(dict(a='*', b=roles[b], l=ids(sub.to_list())))
                views.append(dict(a='*', b=roles[b], l=ids([m for _, m in sub.to_tuples()])))
        byname = []
        for name in sorted({x for x, _ in w.numbers}):
            got = [c[name], getattr(c, name), c.to_dict()[name], mg.modules[name]]
            if not hasattr(type(mg), name):                      # (load is also the name of a method)
                got.append(getattr(mg, name))
            for got in got:
                byname.append(dict(name=name, l=ids(got)))
            if len(c[name]) == 1:
                byname.append(dict(name=name, l=ids([c[name].item()])))
            k = [i for i, (x, _) in enumerate(w.numbers) if x == name][0]
            a = module_ffc(w.mods[k])
            byname.append(dict(name=name, l=ids(getattr(getattr(c, a), name))))
        member = [dict(name=x, yes=int(x in c)) for x in sorted({x for x, _ in w.numbers}) + ['nothing', 'battery', 'load2']]
        by_tag = {m.verif_tag: m for m in c.to_list()}
        self.emit('container', id=w.id, n=raw(mg.n_modules), len=len(c), orders=orders, names=names, views=views,
                  byname=byname, member=member,
                  ids=[[by_tag[i].name[0], str(by_tag[i].name[1])] if i in by_tag else ['', ''] for i in range(n)])
        attrs = c.get_attrs('initial_step', 'verif_tag', as_pandas=False)
        self.emit('twin', tag='C14', what='attributes',
                  a=[m.verif_tag for _, m in c.to_tuples()],
                  b=[d['verif_tag'] for name in c.names() for d in attrs[name]], tol=0)
        df = c.get_attrs('verif_tag')
        self.emit('twin', tag='C14', what='attributes',
                  a=[m.verif_tag for _, m in c.to_tuples()], b=[raw(v) for v in df['verif_tag'].tolist()], tol=0)

    def op_sample(self, op):
        """A random action; perhaps carried out."""
        w = self.world(op)
        flex = bool(op.get('flex'))
        strict = bool(op.get('strict'))
        if strict and self.over(w):
            return
        act = w.mg.sample_action(strict_bound=strict, sample_flex_modules=flex)
        empty = w.mg.get_empty_action(sample_flex_modules=flex)
        self.emit('twin', tag='C21', what='empty_action', a=[len(v) for _, v in sorted(act.items())],
                  b=[len(v) for _, v in sorted(empty.items())], tol=0)
        self.emit('twin', tag='C21', what='empty_action_names', a=[crc(sorted(act))], b=[crc(sorted(empty))], tol=0)
        out, req = [], []
        for i, m in enumerate(w.mods):
            name, j = w.numbers[i]
            if name not in act or j >= len(act[name]):
                out.append(dict(has=0, g=0, q=0))
                req.append(dict(g=0, q=0))
                continue
            v = [float(x) for x in np.atleast_1d(act[name][j])]
            out.append(dict(has=1, g=num(v[0]) if len(v) > 1 else 0, q=num(v[-1])))
            # the energy that is asked for, from the bounds of the description
            lo, hi = action_bounds(m)
            req.append(dict(g=num(v[0]) if len(v) > 1 else 0, q=num(lo + v[-1] * ((hi - lo) or 1.0))))
        self.emit('sample', id=w.id, strict=int(strict), flex=int(flex), a=out)
        if op.get('run') and not flex:
            try:
                obs, reward, done, info = w.mg.run(act)
            except ValueError as ex:
                if strict:
                    self.emit('twin', tag='C21', what='strict_accepted', a=[1], b=[0], tol=0, exc='ValueError', msg=str(ex)[:300])
                    raise Stop
                self.failed(w, ex, 0, req)
            except Exception as ex:
                self.failed(w, ex, 0, req)
            if strict:
                self.emit('twin', tag='C21', what='strict_accepted', a=[1], b=[1], tol=0)
            self.record_step(w, 0, req, obs, reward, done, info, op)

    def op_norms(self, op):
        """All conversions to and from normalized form, in the present state."""
        w = self.world(op)
        mg = w.mg
        rng = random.Random(f"{self.scn['seed']}/{len(self.events)}")
        n = len(w.mods)
        acts, states = {}, {}
        for i, m in enumerate(w.mods):
            name, _ = w.numbers[i]
            states.setdefault(name, []).append(np.asarray(w.module(i).state, dtype=float).reshape(-1))
            if module_ffc(m) == 'controllable':
                a = rng.choice([0, 1000, 500, rng.randrange(1001)]) / 1000
                acts.setdefault(name, []).append(np.array([rng.choice([0.0, 1.0]), a]) if m['k'] == 'gen' else a)
        nm = mg.to_normalized(states, obs=True)
        bm = mg.from_normalized(nm, obs=True)
        qm = mg.from_normalized(acts, act=True)
        am = mg.to_normalized(qm, act=True)
        arr = {k: [np.atleast_1d(np.asarray(x, dtype=float)) for x in v] for k, v in acts.items()}
        qs = mg.microgrid_action_space.denormalize(arr) if acts else {}
        as_ = mg.microgrid_action_space.normalize(qs) if acts else {}
        ns = mg.microgrid_observation_space.normalize(states)
        bs = mg.microgrid_observation_space.denormalize(ns)
        alo, ahi = mg.microgrid_action_space.unnormalized.low, mg.microgrid_action_space.unnormalized.high
        olo, ohi = mg.microgrid_observation_space.unnormalized.low, mg.microgrid_observation_space.unnormalized.high
        out = []

        def flat(x):
            return np.atleast_1d(np.asarray(x, dtype=float)).reshape(-1)
        for i, m in enumerate(w.mods):
            name, j = w.numbers[i]
            mod = w.module(i)
            ctl = module_ffc(m) == 'controllable'
            st = states[name][j]
            x1 = flat(mod.to_normalized(st, obs=True))
            ways = [(x1, mod.from_normalized(x1, obs=True), None, None, mod.action_space, mod.observation_space),
                    (nm[name][j], bm[name][j], None, None, None, None), (ns[name][j], bs[name][j], None, None, None, None)]
            sd = list(mod.state_dict(normalized=True).values())
            if ctl:
                a = acts[name][j]
                q = mod.from_normalized(a, act=True)
                qa = [(q, mod.to_normalized(q, act=True)), (qm[name][j], am[name][j]), (qs[name][j], as_[name][j])]
                ways = [(u[0], u[1], v[0], v[1], u[4], u[5]) for u, v in zip(ways, qa)]
            ways.append((sd, st) + ways[0][2:])
            for k, (nv, bv, q, ba, asp, osp) in enumerate(ways):
                d = dict(i=i + 1, v=w.enc_state(m, list(st)), nv=[num(y) for y in flat(nv)], bv=w.enc_state(m, list(flat(bv))),
                         a=0, q=0, ba=0, alo=0, ahi=0, inside=1)
                lo, hi = (osp.unnormalized.low, osp.unnormalized.high) if osp is not None else (olo[name][j], ohi[name][j])
                d['olo'], d['ohi'] = w.enc_state(m, list(flat(lo))), w.enc_state(m, list(flat(hi)))
                if ctl:
                    lo, hi = (asp.unnormalized.low, asp.unnormalized.high) if asp is not None else (alo[name][j], ahi[name][j])
                    d.update(a=num(flat(a)[-1]), q=w.e(flat(q)[-1]), ba=num(flat(ba)[-1]), alo=w.e(flat(lo)[-1]),
                             ahi=w.e(flat(hi)[-1]))
                if osp is not None:
                    d['inside'] = int(all(flat(lo2) - 1e-9 <= s2 <= flat(hi2) + 1e-9 for s2, lo2, hi2 in
                                          zip(st, flat(osp.unnormalized.low), flat(osp.unnormalized.high))))
                out.append(d)
        self.emit('norms', id=w.id, x=out)

    # ---------------------------------------------------------------- priority lists
    def plan(self, w, pl):
        """A priority list of the library as pairs (component, action)."""
        idx = {nm: i + 1 for i, nm in enumerate(w.numbers)}
        return [[idx[tuple(el.module)], raw(el.action)] for el in pl]

    def op_lists(self, op):
        w = self.world(op)
        env = w.mg
        self.emit('lists', id=w.id, reduced=int(self.scn['env'].get('reduced', 1)), n=raw(env.action_space.n),
                  lists=[self.plan(w, pl) for pl in env.actions_list])

    def op_dstep(self, op):
        """A step of a discrete environment."""
        w = self.world(op)
        env = w.mg
        n = int(env.action_space.n)
        if op.get('pl') is not None:
            a = [self.plan(w, pl) for pl in env.actions_list].index([list(x) for x in op['pl']])
        else:
            a = min(n - 1, int(op['a'] * n))
        if op.get('bad'):
            try:
                env.step(n + 3)
            except ValueError:
                pass
            else:
                self.emit('twin', tag='C20', what='invalid_action_refused', a=[1], b=[0], tol=0)
            self.emit('same', id=w.id, tag='C20', t=raw(w.mg.current_step), m=w.observe(), nlog=len(w.frame()))
        pl = self.plan(w, env.actions_list[a])
        obs, reward, done, info = env.step(a)
        self.record_step(w, 0, [dict(g=0, q=0) for _ in w.mods], obs, reward, done, info, nested=False, pl=pl)
        self.env_obs(w, obs)
        df = w.frame()
        col = [c for c in df.columns if c[0] == 'action']
        self.emit('twin', tag='C10', what='action_logged', a=[a], b=[raw(df[col[0]].iloc[-1]) if col else -1], tol=0)

    def op_rbc(self, op):
        """A rule based controller runs an episode."""
        from pymgrid.algos import RuleBasedControl
        w = self.world(op)
        given = None
        if op.get('pl') is not None:
            lists = RuleBasedControl(w.mg).get_priority_lists(bool(op.get('reduced', 1)))
            given = lists[min(len(lists) - 1, int(op['pl'] * len(lists)))]
        rbc = RuleBasedControl(w.mg, priority_list=given, remove_redundant_gensets=bool(op.get('reduced', 1)))
        b = World(op['to'], rbc.microgrid, w.mods, w.unit)
        b.hmax = list(w.hmax)
        self.record_copy(b, w.id, 'C12', False)
        pl = self.plan(b, rbc.priority_list)
        self.emit('priority', id=b.id, pl=pl, given=self.plan(b, given) if given is not None else [])
        steps = 0
        mg = rbc.microgrid
        run, reset = mg.run, mg.reset

        def recorded_run(control, normalized=True):
            nonlocal steps
            out = run(control, normalized=normalized)
            mg.__dict__.pop('run'), mg.__dict__.pop('reset')
            obs, reward, done, info = out
            self.record_step(b, 0, [dict(g=0, q=0) for _ in b.mods], obs, reward, done, info, pl=pl)
            mg.run, mg.reset = recorded_run, recorded_reset
            steps += 1
            return out

        def recorded_reset():
            out = reset()
            mg.__dict__.pop('run'), mg.__dict__.pop('reset')
            self.record_reset(b, {name: out[name] for name, _ in b.numbers})
            mg.run, mg.reset = recorded_run, recorded_reset
            return out
        mg.run, mg.reset = recorded_run, recorded_reset
        df = rbc.run(max_steps=op.get('steps'))
        mg.__dict__.pop('run'), mg.__dict__.pop('reset')
        limit = op.get('steps')
        last = self.events[-1]
        self.emit('twin', tag='C13', what='episode_complete', a=[1],
                  b=[int(bool(last['done']) or (limit is not None and steps == limit))], tol=0)
        self.emit('twin', tag='C13', what='returns_log', a=[steps], b=[len(df)], tol=0)
        self.op_log(dict(id=b.id))
        self.emit('same', id=w.id, tag='C12', t=raw(w.mg.current_step), m=w.observe(), nlog=len(w.frame()))

    def op_mpc(self, op):
        """Model predictive control runs an episode."""
        from pymgrid.algos import ModelPredictiveControl
        w = self.world(op)
        mg = w.mg
        mpc = ModelPredictiveControl(mg, **(dict(solver=op['solver']) if op.get('solver') else {}))
        self.emit('same', id=w.id, tag='C18', t=raw(mg.current_step), m=w.observe(), nlog=len(w.frame()))
        steps = resets = 0
        run, reset = mg.run, mg.reset

        def plain():
            mg.__dict__.pop('run'), mg.__dict__.pop('reset')

        def recorded_run(control, normalized=True):
            nonlocal steps
            req = []
            for i, m in enumerate(w.mods):
                name, j = w.numbers[i]
                if name not in control:
                    req.append(dict(g=0, q=0))
                    continue
                v = control[name]
                v = np.asarray(v[j] if isinstance(v, list) else v, dtype=float).reshape(-1)
                req.append(dict(g=num(v[0]), q=w.e(v[1])) if m['k'] == 'gen' else dict(g=0, q=w.e(v[0])))
            out = run(control, normalized=normalized)
            plain()
            obs, reward, done, info = out
            self.record_step(w, int(normalized), req, obs, reward, done, info)
            self.events[-1]['mpc'] = 1
            mg.run, mg.reset = recorded_run, recorded_reset
            steps += 1
            return out

        def recorded_reset():
            nonlocal resets
            out = reset()
            plain()
            self.record_reset(w, {name: out[name] for name, _ in w.numbers})
            mg.run, mg.reset = recorded_run, recorded_reset
            resets += 1
            return out
        for _ in range(op.get('times', 1)):
            before = self.worlds['A'].mg.initial_step
            steps = resets = 0
            mg.run, mg.reset = recorded_run, recorded_reset
            try:
                df = mpc.run(max_steps=op.get('steps'))
            finally:
                plain()
            last = self.events[-1]
            limit = op.get('steps')
            self.emit('twin', tag='C18', what='episode_complete', a=[1],
                      b=[int(last['ev'] == 'step' and (bool(last['done']) or (limit is not None and steps == limit)))], tol=0)
            self.emit('twin', tag='C18', what='returns_log', a=[steps, 1, 1],
                      b=[len(df), resets, int(df.equals(w.frame()) and df.index[0] == before)], tol=0)
            self.op_log(dict(id=w.id))

    # ---------------------------------------------------------------- old-style microgrids
    def op_lnew(self, op):
        """An old-style microgrid from its parameters."""
        import legacy
        self.worlds[op['to']] = x = legacy.Old(op['to'], legacy.build(op['p']), op['p'])
        self.emit('linit', id=x.id, p=x.spec(), c0=num(op['p']['init']), s=x.status(), fore=x.forecasts())

    def op_lconvert(self, op):
        """A modular microgrid is converted to an old-style one."""
        import legacy
        w = self.world(op)
        before = w.observe(), len(w.frame())
        rnd = np.random.get_state()[1].tolist()
        try:
            new = w.mg.to_nonmodular() if op.get('how') != 'class' else legacy.NonModularMicrogrid.from_modular(w.mg)
        except (ValueError, TypeError) as ex:
            self.emit('lrefused', exc=type(ex).__name__, **{'from': w.id})
            raise Stop
        if op.get('check'):
            self.emit('lrefused', exc='none', **{'from': w.id})
        self.emit('twin', tag='C15', what='random_numbers_kept', a=[crc(rnd)], b=[crc(np.random.get_state()[1].tolist())], tol=0)
        x = legacy.Old(op['to'], new)
        self.worlds[x.id] = x
        self.emit('lconvert', id=x.id, p=x.spec(), s=x.status(), fore=x.forecasts(),
                  same=int((w.observe(), len(w.frame())) == before), **{'from': w.id})

    def op_lstep(self, op):
        x = self.worlds[op['id']]
        if x.mg.done:
            return
        control = {}
        c = {k: 0 for k in ('bc', 'bd', 'gi', 'ge', 'gen')}
        for k, v in op['c'].items():
            if x.has(k):
                control[x.KEYS[k]] = v
                c[k] = num(v)
        frozen = dict(control)
        with contextlib.redirect_stdout(io.StringIO()):
            ret = x.mg.run(control)
        self.emit('twin', tag='C24', what='control_kept', a=[1], b=[int(frozen == control)], tol=0)
        s = x.status()
        self.emit('twin', tag='C24', what='returned', a=[crc(exact(ret))], b=[crc(exact(x.mg.get_updated_values()))], tol=0)
        f, k, co2, lens, a = x.records()
        self.emit('lstep', id=x.id, c=c, f=f, k=k, co2=co2, lens=lens, a=a, cost=num(x.mg.get_cost()), s=s,
                  done=int(bool(x.mg.done)), fore=x.forecasts())

    def op_lreset(self, op):
        x = self.worlds[op['id']]
        mode = op['mode']
        split = x.mg._has_train_test_split
        if mode == 'training' and not split:
            x.mg.train_test_split(train_size=op['pct'] / 100)
            x.pct = op['pct']
        elif mode == 'all' and split:
            x.mg.train_test_split(cancel=True)
        elif mode == 'testing':
            if not split:
                x.mg.train_test_split(train_size=op['pct'] / 100)
                x.pct = op['pct']
            x.mg.reset(testing=True)
        else:
            x.mg.reset()
        lim = x.mg.get_training_testing_data()[0] if mode != 'all' else 0
        self.emit('lreset', id=x.id, mode=mode, lim=int(lim), pct=getattr(x, 'pct', 0), s=x.status(), done=int(bool(x.mg.done)),
                  fore=x.forecasts(), lens=x.lengths())

    def op_lback(self, op):
        """An old-style microgrid is converted to a modular one."""
        import legacy
        x = self.worlds[op['id']]
        if x.mg.done:
            raise Stop
        before = x.status(), x.lengths()
        mg = x.mg.to_modular() if op.get('how') != 'class' else Microgrid.from_nonmodular(x.mg)
        self.emit('twin', tag='C15', what='original_unchanged', a=[1], b=[int(before == (x.status(), x.lengths()))], tol=0)
        mods, got = legacy.describe(mg)
        w = World(op['to'], mg, mods, 1.0)
        self.worlds[w.id] = w
        self.emit('lback', id=w.id, got=got, t=raw(mg.current_step), ri0=raw(mg.initial_step), rf0=raw(mg.final_step),
                  m=w.observe(), **{'from': x.id})

    def op_lcontrol(self, op):
        """Controllers run an old-style microgrid; what they return is followed row by row."""
        import legacy
        from pymgrid.algos.Control import Benchmarks
        x = self.worlds[op['id']]
        x.mg.reset()
        before = exact([x.mg.get_updated_values(), x.lengths(), x.mg._tracking_timestep])
        b = Benchmarks(x.mg)
        outputs = []
        for algo in op['algos']:
            kw, views, steps = {}, None, op.get('steps')
            with contextlib.redirect_stdout(io.StringIO()):
                if algo == 'mpc':
                    if op.get('direct'):
                        from pymgrid.algos import ModelPredictiveControl
                        out = ModelPredictiveControl(x.mg, **(dict(solver=op['solver']) if op.get('solver') else {})).run(max_steps=steps)
                    else:
                        b.run_benchmarks('mpc', **({} if steps is None else dict(max_steps=steps)))
                        out = b.mpc_output
                elif algo == 'rbc':
                    b.run_benchmarks('rbc')
                    out, steps = b.rule_based_output, None
                else:
                    from pymgrid.algos.saa import SampleAverageApproximation
                    saa = SampleAverageApproximation(x.mg, preset_to_use=op['preset'])
                    samples = saa.sample_from_forecasts(n_samples=2)
                    self.emit('lsamples', id=x.id, n=[len(s) for s in samples], min=[num(s[c].min()) for s in samples for c in ('pv', 'load')],
                              st=[num(v) for s in samples for v in sorted(set(s['grid']))])
                    if op.get('samples'):
                        views = [[dict(v) for v in s] for s in op['samples']]
                        samples = [pd.DataFrame(s, columns=['pv', 'load', 'grid']) for s in op['samples']]
                    out = saa.run_mpc_on_group(samples, forecast_steps=steps, optimal_percentile=op.get('percentile', 0.5))
                    b.has_saa_benchmark, b.saa_output, b.outputs_dict['saa'] = True, out, out
            self.emit('twin', tag='C25', what='microgrid_kept', a=[crc(before)],
                      b=[crc(exact([x.mg.get_updated_values(), x.lengths(), x.mg._tracking_timestep]))], tol=0)
            self.emit('twin', tag='C25', what='named', a=[crc(algo)], b=[crc(out.alg_name)], tol=0)
            outputs.append(out)
            wid = 'R' + algo
            status = out['status']
            n = len(out['cost']['total_cost'])
            self.emit('lstart', id=wid, s=x.status({k: v[0] for k, v in status.items()}), **{'from': x.id})
            lens = [len(v) for part in ('action', 'production', 'cost', 'co2') for v in out[part].values()] + [len(v) - 1 for v in status.values()]
            frame = crc(exact(dict(out)))
            df = out.to_frame()
            self.emit('twin', tag='C25', what='frame', a=[frame, n + 1, 1], b=[crc(exact(dict(out))), len(df), int(
                [num(v) for v in df[('cost', 'total_cost')].values[:n]] == [num(v) for v in out['cost']['total_cost']])], tol=0)
            for i in range(n):
                f, k, c = x.row(out['production'], out['cost'], out['action'], i)
                self.emit('lstep', id=wid, algo=algo, c=c, f=f, k=k, co2=num(out['co2']['co2'][i]), lens=[v - n + i + 1 for v in lens],
                          cost=num(out['cost']['total_cost'][i]), s=x.status({k: v[i + 1] for k, v in status.items()}), done=0,
                          views=[self.lview(x, v, i) for v in views] if views else [])
            self.emit('lend', id=wid, steps=-1 if steps is None else steps)
        for i, a in enumerate(outputs):
            for c in outputs[i + 1:] + [a]:
                self.emit('lcompare', a=[num(v) for v in a['cost']['total_cost']], b=[num(v) for v in c['cost']['total_cost']],
                          lt=int(a < c), gt=int(a > c), eq=int(a == c))
        if op.get('describe') and (op['describe'][0] != 'index' or op['describe'][1] <= len(outputs[0]['cost']['total_cost'])) and len({len(o['cost']['total_cost']) for o in b.outputs_dict.values()}) == 1:
            mode, at = op['describe']
            order = [o for o in ('mpc', 'rbc', 'saa') if o in b.outputs_dict]
            said = io.StringIO()
            with contextlib.redirect_stdout(said):
                if mode == 'all':
                    b.describe_benchmarks()
                elif mode == 'index':
                    b.describe_benchmarks(test_split=True, test_index=at)
                else:
                    b.describe_benchmarks(test_split=True, test_ratio=at / 100)
            values = [num(float(line.rsplit(':', 1)[1])) for line in said.getvalue().splitlines() if ':' in line]
            self.emit('ldescribe', mode='index' if mode == 'index' else 'ratio', at=100 if mode == 'all' else at, said=values,
                      costs=[[num(v) for v in b.outputs_dict[o]['cost']['total_cost']] for o in order])

    @staticmethod
    def lview(x, rows, i):
        """What is coming from step i on in a sample; the past and the current step are known."""
        p = x.p
        rows = [dict(pv=p['pv'][i], load=p['load'][i], grid=p['st'][i] if p['st'] else 0)] + rows[i + 1:i + p['h']]
        return {a: [num(r[b]) for r in rows] for a, b in (('load', 'load'), ('pv', 'pv'), ('st', 'grid'))}

    # ---------------------------------------------------------------- generator and benchmark
    def op_generate(self, op):
        """Microgrids from the generator: old-style ones, the same again in other ways, and modular ones."""
        import legacy
        lo, k = op['lo'], op['k']

        def make(n, modular, path=None):
            g = legacy.MicrogridGenerator(nb_microgrid=n, random_seed=op['seed'], **(dict(path=path) if path else {}))
            ret = g.generate_microgrid(modular=modular)
            return ret.microgrids
        old = make(op['n'], False)
        self.emit('twin', tag='C23', what='number', a=[op['n']], b=[len(old)], tol=0)
        for mg in old:
            self.emit('made', tag='C23', x=legacy.made(mg, lo, k))
        prints = [legacy.fingerprint(mg) for mg in old]
        if op.get('again'):
            data = legacy.copy_data(self.rng) if op.get('path') else None
            try:
                other = make(op['n'] + op['again'], False, data)
            finally:
                if data:
                    shutil.rmtree(data, ignore_errors=True)
            self.emit('twin', tag='C23', what='repeatable', a=prints, b=[legacy.fingerprint(mg) for mg in other[:op['n']]], tol=0)
        new = make(op['n'], True)
        self.emit('twin', tag='C23', what='number_modular', a=[op['n']], b=[len(new)], tol=0)
        for x, mg in zip(old, new):
            unit = float(x.parameters['load'].values[0]) / 3
            o = legacy.Old('O', x, unit=unit)
            mods, got = legacy.describe(mg, unit=unit, rows=(lo, lo + k))
            self.emit('mademod', p=o.spec(rows=(lo, lo + k)), c0=o.status()['charge'], got=got)
        self.follow(new[0], legacy.NAMES, op, float(old[0].parameters['load'].values[0]) / 3)

    def op_benchmark(self, op):
        """A microgrid of the benchmark."""
        import legacy
        mg = Microgrid.from_scenario(op['j'])
        self.emit('made', tag='C22', x=legacy.made_modular(mg, op['lo'], op['k']))
        self.emit('twin', tag='C22', what='same_again', a=[legacy.fingerprint(mg)], b=[legacy.fingerprint(Microgrid.from_scenario(op['j']))], tol=0)
        if op.get('all'):
            every = legacy.MicrogridGenerator.load('pymgrid25').microgrids
            prints = [legacy.fingerprint(x) for x in every]
            self.emit('twin', tag='C22', what='all', a=[25, 25, prints[op['j']]], b=[len(every), len(set(prints)), legacy.fingerprint(mg)], tol=0)
        peak = float(np.abs(mg.modules['load'].item().time_series).max())
        self.follow(mg, legacy.BENCHMARK_NAMES, op, peak / 3)

    def follow(self, mg, names, op, unit):
        """Steps of a microgrid with long series, from row op['lo'] on; the trace has op['k'] rows of the series."""
        import legacy
        lo, k = op['lo'], op['k']
        last = raw(mg.final_step)
        if lo:
            mg.initial_step = lo
            mg.reset()
        mods, got = legacy.describe(mg, names, unit=unit, rows=(lo, lo + k))
        w = World('M', mg, mods, unit)
        w.off = lo
        self.worlds[w.id] = w
        self.emit('init', id=w.id, mods=got, t=raw(mg.current_step) - lo, i0=0, f0=last - lo, ri0=raw(mg.initial_step) - lo,
                  rf0=raw(mg.final_step) - lo, m=w.observe())

    def op_follow(self, op):
        w = self.world(op)
        req = [dict(a=op['batt']) if m['k'] == 'batt' else dict(a=op['grid']) if m['k'] == 'grid' else op['gen'] if m['k'] == 'gen' else None
               for m in w.mods]
        self.op_step(dict(id=w.id, norm=0, req=req))

    # ---------------------------------------------------------------- environments
    def env_obs(self, w, obs):
        """What an environment returned as observation."""
        env = w.mg
        e = self.scn['env']
        names = sorted({n for n, _ in w.numbers})
        order = [i for n in names for i, (nm, _) in enumerate(w.numbers) if nm == n]
        keys = e.get('keys')
        pos = []
        for i, m in enumerate(w.mods):
            sk = state_keys(m, w.horizon(m))
            pos.append([sk.index(k) + 1 for k in (keys or sk) if k in sk])
        if e.get('flat', 1):
            flat = [num(v) for v in np.asarray(obs, dtype=float).reshape(-1)]
        else:
            flat = []
            for i in order:
                n, j = w.numbers[i]
                if keys and not pos[i]:
                    continue
                flat += [num(v) for v in np.asarray(obs[n][j], dtype=float).reshape(-1)]
        inspace = 1
        if e.get('flat', 1):
            inspace = int(bool(env.observation_space.contains(np.asarray(obs).astype(env.observation_space.dtype))))
        self.emit('env', id=w.id, bag=int(bool(keys and e.get('flat', 1))), order=[i + 1 for i in order], pos=pos, obs=flat, inspace=inspace)

    def op_ereset(self, op):
        w = self.world(op)
        obs = w.mg.reset()
        self.record_reset(w, None)
        self.env_obs(w, obs)

    def op_cstep(self, op):
        """A step of a continuous environment: actions in [0, 1], in the order of the names."""
        w = self.world(op)
        env = w.mg
        names = sorted({n for n, _ in w.numbers})
        order = [i for n in names for i, (nm, _) in enumerate(w.numbers)
                 if nm == n and module_ffc(w.mods[i]) == 'controllable']
        req = [dict(g=0, q=0) for _ in w.mods]
        flat, nested = [], {}
        sample = None
        if op.get('sample'):
            sample = env.action_space.sample()
            if not self.scn['env'].get('flat', 1):
                sample = np.concatenate([np.asarray(a).reshape(-1) for n in names if n in sample for a in sample[n]])
            sample = np.clip(np.round(np.asarray(sample, dtype=float), 3), 0, 1)
        pos = 0
        for i in order:
            m = w.mods[i]
            r = op['req'][i]
            vals = [r.get('g', 0), r['n'] / 1000] if m['k'] == 'gen' else [r['n'] / 1000]
            if sample is not None:
                vals = [float(v) for v in sample[pos:pos + len(vals)]]
            pos += len(vals)
            req[i] = dict(g=num(vals[0]) if m['k'] == 'gen' else 0, q=num(vals[-1]))
            flat += vals
            nested.setdefault(w.numbers[i][0], []).append(np.array(vals, dtype=float))
        if self.scn['env'].get('flat', 1):
            action = np.array(flat, dtype=env.action_space.dtype)
            if op.get('bad'):
                try:
                    env.step(action + 2)
                except AssertionError:
                    pass
                else:
                    self.emit('twin', tag='C20', what='invalid_action_refused', a=[1], b=[0], tol=0)
                self.emit('same', id=w.id, tag='C20', t=raw(w.mg.current_step), m=w.observe(), nlog=len(w.frame()))
        else:
            action = {n: tuple(v) for n, v in nested.items()}
        obs, reward, done, info = env.step(action)
        self.record_step(w, 1, req, obs, reward, done, info, nested=False)
        self.env_obs(w, obs)

    # ---------------------------------------------------------------- copies
    def op_copy(self, op):
        """A copy of a microgrid: saved and loaded, pickled or copied."""
        w = self.world(op)
        how = op['how']
        mg = w.mg
        if how == 'yaml':
            new = type(mg).load(mg.dump())
        elif how == 'file':
            d = os.path.join(self.scratch(), op.get('dir', op['to']))
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, op.get('file', 'microgrid') + '.yaml')
            with open(path, 'w') as f:
                mg.dump(f)
            w.saved = path
            if op.get('later'):
                self.later = getattr(self, 'later', {})
                self.later[op['to']] = (path, w.id)
                self.emit('snapshot', id='saved ' + op['to'], **{'from': w.id})
                self.emit('same', id=w.id, tag='C11', t=raw(mg.current_step), m=w.observe(), nlog=len(w.frame()))
                self.saved_world = getattr(self, 'saved_world', {})
                self.saved_world[op['to']] = (copy.deepcopy(w.mods), list(w.hmax))
                return
            with open(path) as f:
                new = type(mg).load(f)
        elif how == 'pickle':
            new = pickle.loads(pickle.dumps(mg))
        elif how == 'deepcopy':
            new = copy.deepcopy(mg)
        else:
            raise ValueError(how)
        b = World(op['to'], new, w.mods, w.unit)
        b.hmax, b.fchanged = list(w.hmax), w.fchanged
        tag = 'C11' if how in ('yaml', 'file', 'pickle') else 'C12'
        self.record_copy(b, w.id, tag, how in ('yaml', 'file'), w.fchanged or new == mg or rounded(new) == rounded(mg), type(new) is type(mg))
        self.emit('same', id=w.id, tag=tag, t=raw(mg.current_step), m=w.observe(), nlog=len(w.frame()))

    def op_load_later(self, op):
        """Loads what was saved earlier (and perhaps followed by other saves)."""
        path, wid = self.later[op['to']]
        with open(path) as f:
            new = type(self.worlds[wid].mg).load(f)
        mods, hmax = self.saved_world[op['to']]
        b = World(op['to'], new, mods, self.worlds[wid].unit)
        b.hmax = hmax
        self.record_copy(b, 'saved ' + op['to'], 'C11', True)

    def record_copy(self, b, source, tag, redraw, equal=True, cls=True):
        self.worlds[b.id] = b
        self.emit('copy', id=b.id, tag=tag, redraw=int(redraw), equal=int(bool(equal)), cls=int(cls),
                  t=raw(b.mg.current_step), ri0=raw(b.mg.initial_step), rf0=raw(b.mg.final_step), m=b.observe(),
                  nlog=len(b.frame()), **{'from': source})

    # ---------------------------------------------------------------- forecasters
    def op_forecaster(self, op):
        """The user changes the forecaster of all (or of some) time series components."""
        w = self.world(op)
        fc = op['fc']
        kw = dict(forecast_horizon=fc.get('h', 1))
        if fc['k'] == 'gauss':
            kw.update(forecaster_increase_uncertainty=bool(fc.get('inc', 0)),
                      forecaster_relative_noise=bool(fc.get('rel', 0)))
        names = op.get('names')
        if names:
            w.mg.set_forecaster({n: build.forecaster_of(fc) for n in names}, **kw)
        else:
            w.mg.set_forecaster(build.forecaster_of(fc), **kw)
        for i, m in enumerate(w.mods):
            if 'ts' in m and (not names or module_name(m) in names):
                m['fc'] = dict(fc)
        w.fchanged = True                                # missing entries in the log (nan) are not comparable
        w.hmax = [max(h, w.horizon(m)) for h, m in zip(w.hmax, w.mods)]
        self.emit('forecast', id=w.id, fcs=[spec_module(m, w.unit).get('fc', dict(k='none', h=0, sg=0, inc=0))
                                            if 'ts' in m else dict(k='none', h=0, sg=0, inc=0) for m in w.mods],
                  t=raw(w.mg.current_step), m=w.observe(), nlog=len(w.frame()))

    # ---------------------------------------------------------------- tampering
    def op_tamper(self, op):
        """Overwrites everything that was handed to or handed out by the microgrid."""
        w = self.world(op)
        what = op['what']
        if what == 'inputs':
            for ts, orig in self.share.get('ts', []):
                self.emit('twin', tag='C12', what='inputs_untouched', a=[1], b=[int(np.array_equal(ts, orig))], tol=0)
                ts *= 0
                ts += 7
            for item in self.share.get('mods', []):
                mod = item[1] if isinstance(item, tuple) else item
                if hasattr(mod, 'current_charge'):
                    mod.current_charge = mod.min_capacity
                mod.current_step = 3
                if hasattr(mod, 'time_series'):
                    mod.time_series = np.array(mod.time_series) * 0 + 7
            self.share['ts'] = []
        elif what == 'outputs':
            df = w.frame()
            if len(df):
                df.iloc[:, :] = -5.0
            for sds in w.mg.state_dict().values():
                for sd in sds:
                    for k in sd:
                        sd[k] = -3.0
            for i in range(len(w.mods)):
                mod = w.module(i)
                st = mod.state
                if np.size(st):
                    st[...] = 77
                d = mod.state_dict()
                d.clear()
                d = mod.log_dict()
                for v in d.values():
                    v[:] = [-8.0] * len(v)
                    v.append(-9.0)
                d.clear()
                if len(mod.logger):
                    d = mod.logger_last
                    d.clear()
            x = w.mg.get_empty_action()
            x.clear()
            ser = w.mg.state_series()
            ser[:] = -4.0
            info = w.mg.get_cost_info()
            for v in info.values():
                for d in v:
                    for k in d:
                        d[k] = -99
            w.mg.module_list.clear()
            w.mg.modules.to_dict()
            w.mg.modules.to_list().clear()
            w.mg.modules.to_tuples().clear()
        elif what == 'returned':
            if getattr(w, 'last', None):
                obs, info = w.last
                for v in obs.values():
                    for x in v:
                        if isinstance(x, np.ndarray) and x.ndim:
                            x[...] = 55
                for v in info.values():
                    for d in v:
                        for k in list(d):
                            d[k] = -66
        self.emit('same', id=w.id, tag='C12', t=raw(w.mg.current_step), m=w.observe(), nlog=len(w.frame()))

    # ---------------------------------------------------------------- read-only
    def op_queries(self, op):
        """Reads everything there is to read."""
        w = self.world(op)
        queries(w.mg)
        self.emit('same', id=w.id, tag='C16', t=raw(w.mg.current_step), m=w.observe(), nlog=len(w.frame()))

    def over(self, w):
        n = min(len(m['ts']) for m in w.mods if 'ts' in m)
        return w.mg.current_step >= n

    def op_noise(self, op):
        """An unrelated microgrid is built and used."""
        import scen
        g = scen.Gen(f"noise/{self.scn['seed']}/{len(self.events)}")
        other = g.core(steps=3)
        other.update(sid=0)
        state = np.random.get_state(), random.getstate()
        Runner(other).run_quietly()
        np.random.set_state(state[0])
        random.setstate(state[1])
        w = self.world(op)
        self.emit('same', id=w.id, tag='C12', t=raw(w.mg.current_step), m=w.observe(), nlog=len(w.frame()))

    def run_quietly(self):
        self.start()
        for op in self.scn['ops']:
            getattr(self, 'op_' + op['op'])(op)

    def op_limits(self, op):
        w = self.world(op)
        if self.over(w):
            return
        out = []
        for i, m in enumerate(w.mods):
            mod = w.module(i)
            d = dict(maxp=0, minp=0, maxc=0, pc=num(mod.production_marginal_cost), ac=num(mod.absorption_marginal_cost),
                     nxt=[0, 0], nmax=[0, 0], nmin=[0, 0])
            if m['k'] == 'gen' and m.get('ca'):
                d['pc'] = num(mod.production_marginal_cost)
            if mod.is_source and m['k'] != 'unb':
                d['maxp'], d['minp'] = w.e(mod.max_production), w.e(mod.min_production)
            if mod.is_sink and m['k'] != 'unb':
                d['maxc'] = w.e(mod.max_consumption)
            d['src'], d['snk'] = int(bool(mod.is_source)), int(bool(mod.is_sink))
            if m['k'] == 'gen':
                d['nxt'] = [raw(mod.next_status(g)) for g in (0, 1)]
                d['nmax'] = [w.e(mod.next_max_production(g)) for g in (0, 1)]
                d['nmin'] = [w.e(mod.next_min_production(g)) for g in (0, 1)]
            out.append(d)
        self.emit('limits', id=w.id, m=out)

    def op_same(self, op):
        w = self.world(op)
        self.emit('same', id=w.id, tag=op['tag'], t=raw(w.mg.current_step), m=w.observe(), nlog=len(w.frame()))


def rounded(mg):
    """A copy in which the states of charge are computed from the charges (loading does that; it may differ by rounding)."""
    mg = copy.deepcopy(mg)
    for mod in mg.modules.iterlist():
        if hasattr(mod, 'current_charge'):
            mod.current_charge = mod.current_charge
    return mg


def action_bounds(m):
    """Largest absorption and production of a controllable component, in units of the description."""
    k = m['k']
    if k == 'batt':
        return -m['mch'] / m['eff'], m['mdis'] * m['eff']
    if k == 'grid':
        return -m['exp'], m['imp']
    if k == 'gen':
        return 0.0, m['rmax']
    if k == 'ren':
        vals = [r[0] for r in m['ts']]
        return min(0.0, min(vals)), max(0.0, max(vals))
    return 0.0, 0.0


def exact(x):
    """A value in full precision, as plain data."""
    if isinstance(x, dict):
        return sorted((str(k), exact(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [exact(v) for v in x]
    if isinstance(x, np.ndarray):
        return [exact(v) for v in x.reshape(-1)]
    try:
        return float(x).hex()
    except (TypeError, ValueError):
        return str(x)


def crc(x):
    return zlib.crc32(json.dumps(x, sort_keys=True).encode()) & 0x3fffffff


def fingerprints(events):
    """One number per event; those that only look are left out."""
    return [crc(e) for e in events if e['ev'] not in ('same', 'begin')]


def queries(mg):
    """Calls that only read."""
    mg.state_dict()
    mg.state_dict(normalized=True)
    mg.state_series()
    mg.state_series(normalized=True)
    mg.get_log()
    mg.get_log(as_frame=False)
    mg.get_log(drop_singleton_key=True)
    mg.log
    mg.get_cost_info()
    act = mg.sample_action()
    mg.from_normalized(act, act=True)
    mg.to_normalized(mg.from_normalized(act, act=True), act=True)
    mg.get_empty_action()
    mg.get_empty_action(sample_flex_modules=True)
    repr(mg), str(mg), len(mg), mg.n_modules, dir(mg)
    mg.current_step, mg.initial_step, mg.final_step
    mg == copy.deepcopy(mg)
    try:
        mg.get_forecast_horizon()
    except ValueError:
        pass
    mg.dump()
    pickle.dumps(mg)
    c = mg.modules
    c.to_dict(), c.to_list(), c.to_tuples(), list(c.names()), len(c), repr(c), c.get_attrs('current_step')
    for mod in c.iterlist():
        if len(mod.logger):
            mod.logger_last
        repr(mod), mod.state, mod.log_dict(), mod.log_frame(), mod.marginal_cost, mod.name
        mod.action_space, mod.observation_space, mod.is_source, mod.is_sink
        mod.dump()
        for a in ('soc', 'current_charge', 'min_soc', 'max_soc', 'current_load', 'current_renewable', 'import_price',
                  'export_price', 'co2_per_kwh', 'current_status', 'goal_status', 'current_obs'):
            try:
                getattr(mod, a)
            except (AttributeError, IndexError):
                pass
        if hasattr(mod, 'next_status'):
            for g in (0, 1):
                mod.next_status(g), mod.next_max_production(g), mod.next_min_production(g)
        if hasattr(mod, 'forecast'):
            mod.forecast()
