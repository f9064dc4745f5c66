"""Random scenarios (plain JSON). A scenario fully determines an execution."""
import random

MS = 1000


def r3(x):
    return round(x, 3)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ------------------------------------------------------------ helpers
    def chance(self, p):
        return self.r.random() < p

    def val(self, hi, lo=0.0):
        r = self.r
        c = r.random()
        if c < 0.12:
            return lo
        if c < 0.22:
            return hi
        if c < 0.6:
            return r3(lo + (hi - lo) * r.randrange(0, 21) / 20)
        return r3(r.uniform(lo, hi))

    def series(self, n, hi):
        s = [[self.val(hi)] for _ in range(n)]
        if self.chance(0.15):
            for i in range(n):
                if self.chance(0.5):
                    s[i] = [0.0]
        if all(x[0] == 0 for x in s):
            s[0] = [hi]
        return s

    def fc(self, p=None):
        k = self.r.choice(p or ['none', 'none', 'oracle', 'half', 'halfs', 'gauss'])
        if k == 'none':
            return dict(k='none')
        d = dict(k=k, h=self.r.choice([1, 2, 3, 4, 6]))
        if k == 'gauss':
            d.update(sd=r3(self.r.choice([0.0, 0.05, 0.5, 2.0])), inc=int(self.chance(0.5)), rel=0)
            if self.chance(0.3):
                d.update(rel=1, sd=r3(self.r.choice([0.01, 0.1])))
        return d

    # ------------------------------------------------------------ components
    def load(self, n, **kw):
        d = dict(k='load', ts=self.series(n, self.r.choice([5.0, 20.0, 30.0])), fc=self.fc(), neg=int(self.chance(0.3)),
                 ts1d=int(self.chance(0.5)))
        d.update(kw)
        return d

    def ren(self, n, **kw):
        d = dict(k='ren', ts=self.series(n, self.r.choice([5.0, 20.0, 30.0])), fc=self.fc(), ts1d=int(self.chance(0.5)))
        d.update(kw)
        return d

    def batt(self, **kw):
        r = self.r
        mx = r3(r.choice([5.0, 10.0, 30.0, 60.0]))
        mn = r3(mx * r.choice([0.0, 0.0, 0.1, 0.2, 0.5]))
        eff = r.choice([1.0, 0.9, 0.8, 0.75, 0.6, 0.95])
        d = dict(k='batt', min=mn, max=mx, mch=r3(min(10.0, mx * r.choice([0.1, 0.25, 0.5, 1.0]))),
                 mdis=r3(min(12.0, mx * r.choice([0.1, 0.25, 0.5, 1.0]))), eff=eff,
                 ccyc=r.choice([0.0, 0.02, 0.5, 1.0, 2.0]))
        if self.chance(0.5):
            d['soc'] = r3(r.choice([mn / mx, 1.0, r.uniform(mn / mx, 1.0)]))
            d['soc'] = max(d['soc'], mn / mx)
        else:
            d['init'] = r3(r.choice([mn, mx, r.uniform(mn, mx)]))
        if eff < 0.9 and self.chance(0.15):
            d['tfd'], d['tfc'] = r3(eff + 0.1), r3(eff - 0.1)
        d.update(kw)
        return d

    def gen(self, **kw):
        r = self.r
        rmax = r3(r.choice([5.0, 12.0, 25.0]))
        d = dict(k='gen', rmin=r3(rmax * r.choice([0.0, 0.0, 0.1, 0.4, 1.0])), rmax=rmax, cb=r.choice([0.0, 0.4, 1.0, 3.0]),
                 co2=r.choice([0.0, 0.5, 2.0]), cco2=r.choice([0.0, 0.1, 1.0]), up=r.choice([0, 0, 1, 2, 3]),
                 down=r.choice([0, 0, 1, 2, 3]), abort=int(self.chance(0.75)), init=int(self.chance(0.6)))
        if self.chance(0.2):
            d['ca'] = r.choice([0.5, 3.0])
        d.update(kw)
        return d

    def grid(self, n, **kw):
        r = self.r
        weak = self.chance(0.5)
        pc = r.choice([0.0, 1.0])
        ts = []
        price = [r.choice([0.1, 0.5, 1.0, 3.0]) for _ in range(3)]
        for _ in range(n):
            ts.append([r3(r.choice(price)), r3(r.choice([0.0, 0.05, 0.4, 1.0])), r3(pc * r.choice([0.0, 0.3, 1.0])),
                       0.0 if weak and self.chance(0.35) else 1.0])
        d = dict(k='grid', imp=r.choice([0.0, 10.0, 25.0, 25.0]), exp=r.choice([0.0, 5.0, 25.0, 25.0]), ts=ts,
                 fc=self.fc(['none', 'none', 'none', 'oracle', 'half', 'gauss']), cco2=r.choice([0.0, 0.1, 1.0]))
        if all(row[3] == 1.0 for row in ts) and self.chance(0.3):
            d['cols3'] = 1
        d.update(kw)
        return d

    # ------------------------------------------------------------ microgrids
    def mods(self, n, want=None, flexible=True, custom_names=True, raising=0.0, ctl=True):
        r = self.r
        want = dict(want or {})
        mods = []
        counts = dict(load=r.choice([1, 1, 1, 2]), ren=r.choice([0, 1, 1, 2]), batt=r.choice([0, 1, 1, 2]),
                      gen=r.choice([0, 0, 1, 2]), grid=r.choice([0, 1, 1, 2]))
        counts.update(want)
        for k, c in counts.items():
            for _ in range(c):
                m = getattr(self, k)(n) if k in ('load', 'ren', 'grid') else getattr(self, k)()
                if flexible and k in ('batt', 'grid') and self.chance(0.1):
                    m['flex'] = 1
                if ctl and k == 'ren' and self.chance(0.08):
                    m['ctl'] = 1
                if raising and k in ('batt', 'gen', 'grid') and not m.get('flex') and self.chance(raising):
                    m['raise'] = 1
                mods.append(m)
        if custom_names:
            pools = dict(load=['load', 'site', None], ren=['pv', 'wind', None], batt=['storage', None],
                         gen=['diesel', None], grid=['utility', None])
            for m in mods:
                nm = r.choice(pools[m['k']] + [None])
                if nm:
                    # one name never stands for components of different categories
                    m['name'] = nm + ('_x' if m.get('flex') or m.get('ctl') else '')
                elif m.get('flex') or m.get('ctl'):
                    m['name'] = m['k'] + '_x'
        r.shuffle(mods)
        return mods

    def window(self, mods, n):
        i0 = self.r.choice([0, 0, 0, 1, 2])
        f0 = self.r.choice([-1, -1, -1, n, max(i0 + 2, n - 2)])
        for m in mods:
            m['i0'] = i0
            if 'ts' in m:
                m['f0'] = f0
                if (f0 if f0 > 0 else n) - i0 < 3 and (m.get('fc') or {}).get('k') in ('half', 'halfs'):
                    m['fc'] = dict(k='oracle', h=2)
        return i0, (f0 if f0 > 0 else n)

    def unb(self):
        if self.chance(0.5):
            return dict(llc=10.0, ogc=2.0)
        return dict(llc=self.r.choice([0.0, 1.0, 5.0, 10.0]), ogc=self.r.choice([0.0, 0.5, 2.0, 4.0]))

    def request(self, m):
        r = self.r
        k = m['k']
        d = {}
        if k == 'gen':
            d['g'] = r.choice([0, 1, 1, 0.5, 0.4, 0.6, 0.25, 1.0])
            c = r.random()
            if c < 0.35:
                d['r'] = r.choice([0, 0.5, 1, 0.9])
            elif c < 0.45:
                d.update(r=1, lo=1)
            elif c < 0.6:
                d['a'] = r3(m['rmin'] / 2)
            elif c < 0.8:
                d['a'] = r3(m['rmax'] * 1.5)
            else:
                d['a'] = r3(r.uniform(0, m['rmax']))
            return d
        hi = dict(batt=m.get('mdis', 0), grid=m.get('imp', 0), ren=20.0)[k]
        lo = dict(batt=m.get('mch', 0), grid=m.get('exp', 0), ren=0.0)[k]
        c = r.random()
        if c < 0.45:
            d['r'] = r.choice([1, -1, 0.5, -0.5, 0.25, -0.9, 0.999])
        elif c < 0.55:
            d['a'] = 0.0
        elif c < 0.75:
            d['a'] = r3(r.choice([1, -1]) * r.choice([30.0, hi + 1, lo + 1]))
        else:
            d['a'] = r3(r.uniform(-lo, hi))
        if k == 'ren':
            d = {kk: abs(v) for kk, v in d.items()}
        return d

    def step_op(self, mods, norm=None):
        r = self.r
        norm = int(self.chance(0.3)) if norm is None else norm
        req = []
        for m in mods:
            if m['k'] in ('load', 'unb') or m.get('flex') or (m['k'] == 'ren' and not m.get('ctl')):
                req.append(None)
            elif norm:
                q = r.choice([0, 1000, 500, r.randrange(0, 1001), r.randrange(0, 1001)])
                q = {'n': q}
                if m['k'] == 'gen':
                    q['g'] = r.choice([0, 1, 1, 0.5, 0.75, 0.2])
                req.append(q)
            else:
                req.append(self.request(m))
        return dict(op='step', norm=norm, req=req)

    def modest_op(self, mods):
        """Requests that raise_errors components mostly accept."""
        op = self.step_op(mods, 0)
        for i, m in enumerate(mods):
            if m.get('raise') and op['req'][i] is not None and self.chance(0.8):
                if m['k'] == 'gen':
                    op['req'][i] = dict(g=op['req'][i]['g'], r=self.r.choice([1, 0.97]))
                else:
                    op['req'][i] = dict(r=self.r.choice([0.5, -0.5, 0.9, -0.9, 0.25]))
        return op

    # ------------------------------------------------------------ whole scenarios
    def core(self, want=None, steps=None, norm=None, raising=0.0, nounb=False, traj=True, extra=()):
        """A microgrid, a few episodes, its log."""
        r = self.r
        n = r.choice([5, 6, 8, 10])
        mods = self.mods(n, want, raising=raising)
        i0, f0 = self.window(mods, n)
        scn = dict(mods=mods, unb=None if nounb else self.unb(), seed=r.randrange(1 << 30), ops=[])
        if traj and f0 - i0 >= 4 and self.chance(0.4 if traj is True else traj):
            k = r.choice(['det', 'stoch', 'len'])
            t = dict(k=k)
            if k == 'det':
                t['a'] = r.randrange(i0, f0 - 2)
                t['b'] = r.randrange(t['a'] + 1, f0 + 1)
            elif k == 'len':
                t['a'] = r.randrange(1, f0 - i0 + 1)
            scn['traj'] = t
        ops = scn['ops']
        left = n - i0
        for _ in range(steps or r.choice([4, 6, 9])):
            if left == 0 or (self.chance(0.12) and len(ops) > 1):
                ops.append(dict(op='log'))
                if self.chance(0.1) and f0 - i0 >= 3 and 'traj' not in scn:
                    i0 = r.randrange(0, n - 2)
                    f0 = r.randrange(i0 + 2, n + 1)
                    ops.append(dict(op='window', i0=i0, f0=f0))
                ops.append(dict(op='reset'))
                left = 1 if 'traj' in scn else n - i0
                continue
            if self.chance(0.3):
                ops.append(dict(op='limits'))
            if self.chance(0.05):
                b = [i for i, m in enumerate(mods) if m['k'] == 'batt']
                if b:
                    ops.append(dict(op='charge', i=r.choice(b), frac=r.choice([0.0, 0.5, 1.0]), soc=int(self.chance(0.5))))
            ops.append(self.modest_op(mods) if raising else self.step_op(mods, norm))
            left -= 1
            for p, o in extra:
                if self.chance(p):
                    ops.append(dict(o))
        ops.append(dict(op='limits'))
        ops.append(dict(op='log'))
        return scn

    # ------------------------------------------------------------ histories of several microgrids
    def history(self, ops=('copy', 'forecaster', 'tamper', 'queries'), n_ops=None, want=None, hows=None, gauss=True,
                traj=True, custom_names=True):
        """Steps, resets and whatever is asked for, on up to three microgrids."""
        r = self.r
        n = r.choice([6, 8, 10])
        mods = self.mods(n, want, custom_names=custom_names)
        if not gauss:
            for m in mods:
                if (m.get('fc') or {}).get('k') == 'gauss':
                    m['fc'] = dict(k='oracle', h=2)
        i0, f0 = self.window(mods, n)
        if 'copy' in ops or 'queries' in ops:
            for m in mods:
                if m.get('ca') or 'tfd' in m or (m.get('fc') or {}).get('k') in ('half', 'halfs'):
                    # user functions cannot be saved
                    m.pop('ca', None), m.pop('tfd', None), m.pop('tfc', None)
                    if 'fc' in m and m['fc']['k'] in ('half', 'halfs'):
                        m['fc'] = dict(k='oracle', h=m['fc']['h'])
        scn = dict(mods=mods, unb=self.unb(), seed=r.randrange(1 << 30), ops=[])
        if traj and f0 - i0 >= 4 and self.chance(0.3):
            scn['traj'] = dict(k='len', a=r.randrange(2, f0 - i0 + 1))
        ids = ['A']
        left = dict(A=n - i0)
        out = scn['ops']
        later = []
        for j in range(n_ops or r.choice([6, 8, 12])):
            wid = r.choice(ids)
            c = r.random()
            if c < 0.45:
                if left[wid] <= 0:
                    out.append(dict(op='reset', id=wid))
                    left[wid] = 2 if 'traj' in scn else n - i0
                out.append(dict(self.step_op(mods), id=wid))
                left[wid] -= 1
                for o in ids:
                    if o != wid:
                        out.append(dict(op='same', id=o, tag='C12'))
            elif c < 0.53:
                out.append(dict(op='reset', id=wid))
                left[wid] = 2 if 'traj' in scn else n - i0
                for o in ids:
                    if o != wid:
                        out.append(dict(op='same', id=o, tag='C12'))
            elif c < 0.6:
                out.append(dict(op='log', id=wid))
            elif ops:
                o = r.choice(ops)
                if o == 'copy':
                    if len(ids) >= 4:
                        continue
                    new = 'BCD'[len(ids) - 1]
                    how = r.choice(hows or ['yaml', 'file', 'pickle', 'deepcopy'])
                    d = dict(op='copy', id=wid, to=new, how=how)
                    if how == 'file' and self.chance(0.6):
                        d.update(dir='shared', file=f'save{j}')
                        if self.chance(0.5):
                            d['later'] = 1
                            out.append(d)
                            later.append((new + str(j), wid, left[wid]))
                            d['to'] = new + str(j)
                            continue
                    out.append(d)
                    ids.append(new)
                    left[new] = left[wid]
                elif o == 'forecaster':
                    fc = self.fc(['oracle', 'gauss', 'none'] if gauss else ['oracle', 'none'])
                    d = dict(op='forecaster', id=wid, fc=fc)
                    names = sorted({m.get('name') or dict(load='load', ren='renewable', grid='grid')[m['k']]
                                    for m in mods if 'ts' in m})
                    if self.chance(0.4):
                        d['names'] = r.sample(names, r.randrange(1, len(names) + 1))
                    out.append(d)
                elif o == 'tamper':
                    out.append(dict(op='tamper', id=wid, what=r.choice(['inputs', 'outputs', 'returned'])))
                    for x in ids:
                        if x != wid:
                            out.append(dict(op='same', id=x, tag='C12'))
                elif o == 'queries':
                    out.append(dict(op='queries', id=wid))
                elif o == 'noise':
                    out.append(dict(op='noise', id=wid))
                elif o == 'charge':
                    b = [i for i, m in enumerate(mods) if m['k'] == 'batt']
                    if b:
                        out.append(dict(op='charge', id=wid, i=r.choice(b), frac=r.choice([0.0, 0.5, 1.0]),
                                        soc=int(self.chance(0.5))))
        for key, wid, lf in later:
            out.append(dict(op='load_later', to=key))
            out.append(dict(op='log', id=key))
            if lf > 0:
                out.append(dict(self.step_op(mods), id=key))
            out.append(dict(op='log', id=key))
        for wid in ids:
            out.append(dict(op='log', id=wid))
        return scn

    def repeat(self, **kw):
        """An execution that is repeated."""
        s = self.history(**kw)
        s.update(rerun=1, reseed=1)
        return s

    def few(self, n, most=4):
        """Modules with at most four components that a priority list deploys."""
        while True:
            mods = self.mods(n)
            c = [m for m in mods if not m.get('flex') and (m['k'] in ('batt', 'gen', 'grid') or m.get('ctl'))]
            if 1 <= len(c) <= most:
                return mods

    def rbc(self):
        """A rule based controller, after some steps."""
        r = self.r
        n = r.choice([6, 8])
        mods = self.few(n)
        i0, f0 = self.window(mods, n)
        scn = dict(mods=mods, unb=self.unb(), seed=r.randrange(1 << 30), ops=[])
        if self.chance(0.5):
            scn['ops'].append(self.step_op(mods))
        reduced = int(self.chance(0.5))
        scn['ops'].append(dict(op='rbc', to='R', pl=r.random() if self.chance(0.8) else None, reduced=reduced,
                               steps=r.choice([None, None, 2, 3])))
        scn['ops'].append(dict(op='same', id='A', tag='C12'))
        return scn

    def mpc(self, exact=True):
        """Model predictive control. Exact: the best plan is known to the specification."""
        r = self.r
        n = r.choice([4, 5, 6])
        h = r.choice([0, 1, 2, 3])
        fc = dict(k='none') if h == 0 else dict(k='oracle', h=h)
        eff = r.choice([1.0, 1.0, 0.5]) if exact else r.choice([1.0, 0.9, 0.75, 0.5])
        lim = 2 * r.randrange(1, 5)

        def series(hi):
            s = [[float(r.randrange(0, hi + 1))] for _ in range(n)]
            s[r.randrange(n)] = [float(2 * ((hi + 1) // 2))]           # even: what is shown after the end is integral
            return s
        mx = r.choice([2, 4, 6])
        mn = r.choice([0, 0, 1]) if mx > 2 else 0
        mods = [dict(k='load', ts=series(lim), fc=fc), dict(k='ren', ts=series(r.choice([2, lim])), fc=fc),
                dict(k='batt', min=float(mn), max=float(mx), mch=float(r.choice([1, 2, 3])), mdis=float(r.choice([1, 2, 3])),
                     eff=eff, ccyc=r.choice([0.0, 0.0, 0.2]) if eff == 1.0 or not exact else 0.0,
                     init=float(r.randrange(mn, mx + 1)))]
        which = r.choice(['grid', 'gen', 'both', 'both'])
        cco2 = r.choice([0.0, 0.1, 0.5, 1.0])
        if which != 'gen':
            lo, hi = r.choice([(0.2, 0.6), (0.4, 1.0), (0.0, 3.0)])
            sell = r.choice([0.0, 0.0, lo, lo / 2])
            weak = r.choice([0.0, 0.0, 0.4])
            ts = [[r.choice([lo, hi]), r.choice([0.0, sell]), r.choice([0.0, 0.4, 1.5]), float(not self.chance(weak))]
                  for _ in range(n)]
            if h and len({x[3] for x in ts}) > 1:
                ts[-1][3] = 1.0                  # what is shown after the end is neither on nor off: not judged
            mods.append(dict(k='grid', imp=float(r.choice([2, 6, 10])), exp=float(r.choice([0, 2, 6])), ts=ts, fc=fc, cco2=cco2))
        if which != 'grid':
            rmax = r.choice([2, 4, 8])
            mods.append(dict(k='gen', rmin=float(r.choice([0, 1, 2, rmax])) if eff == 1.0 or not exact else 0.0, rmax=float(rmax),
                             cb=r.choice([0.4, 1.0, 1.4, 2.0]), co2=r.choice([0.0, 0.5, 2.0]), cco2=r.choice([cco2, 0.1, 0.0, 0.8]),
                             up=0 if exact else r.choice([0, 1]), down=0 if exact else r.choice([0, 1]), abort=1,
                             init=int(self.chance(0.7))))
        names = dict(load='site', ren='pv', batt='bess', gen='diesel', grid='utility')
        for m in mods:
            if self.chance(0.4):
                m['name'] = names[m['k']]
        r.shuffle(mods)
        i0 = r.choice([0, 0, 1])
        for m in mods:
            m['i0'] = i0
        scn = dict(mods=mods, unb=dict(llc=10.0, ogc=2.0), seed=r.randrange(1 << 30), ops=[])
        for _ in range(r.choice([0, 0, 1, 2])):
            scn['ops'].append(dict(op='step', norm=0, req=[
                None if m['k'] in ('load', 'ren') else dict(a=float(r.randrange(-2, 3)), g=r.choice([0, 1])) if m['k'] != 'gen'
                else dict(a=float(r.randrange(0, 5)), g=r.choice([0, 1])) for m in mods]))
        scn['ops'].append(dict(op='mpc', steps=r.choice([None, None, 1, 2, n - i0]), times=r.choice([1, 1, 2]),
                               solver=r.choice([None, 'GLPK_MI'])))
        scn['ops'].append(dict(op='log'))
        return scn

    def lcontrol(self):
        """Controls of an old-style microgrid."""
        r = self.r
        v = [0.0, 0.0, 1.5, 2.0, 4.25, 9.0, 40.0]
        c = dict(bc=r.choice(v), bd=r.choice(v), gi=r.choice(v), ge=r.choice(v), gen=r.choice(v))
        for a, b in (('bc', 'bd'), ('gi', 'ge')):
            if self.chance(0.7):
                c[r.choice([a, b])] = 0.0
        if self.chance(0.1):
            c[r.choice(list(c))] = -2.0
        return c

    def legacy(self):
        """An old-style microgrid."""
        r = self.r
        n = r.choice([5, 8, 8, 26])
        h = r.choice([1, 2, 3, 4])
        cap = r.choice([5.0, 10.0, 20.0])
        smin, smax = r.choice([(0.0, 1.0), (0.2, 1.0), (0.2, 1.0), (0.1, 0.9)])
        rated = r.choice([5.0, 10.0, 20.0])
        weak = r.choice([0.0, 0.3])
        grid = int(self.chance(0.6))
        p = dict(batt=int(self.chance(0.85)), gen=int(self.chance(0.5)), grid=grid, h=h,
                 load=[r.choice([0.0, 1.0, 2.5, 6.0, r3(r.uniform(0, 10))]) for _ in range(n)],
                 pv=[r.choice([0.0, 1.0, 2.5, 6.0, r3(r.uniform(0, 10))]) for _ in range(n)],
                 st=[float(not self.chance(weak)) for _ in range(n)] if grid else [],
                 imp=[r.choice([0.1, 0.5, 1.0]) for _ in range(n)] if grid else [],
                 exp=[r.choice([0.0, 0.05, 0.4]) for _ in range(n)] if grid else [],
                 em=[r.choice([0.0, 0.3, 1.0]) for _ in range(n)] if grid else [],
                 cap=cap, min=r3(cap * smin), max=r3(cap * smax), init=r3(cap * r.choice([smin, smax, r.uniform(smin, smax)])),
                 pch=r.choice([1.0, 2.0, 5.0]), pdis=r.choice([1.0, 2.0, 5.0]), eff=r.choice([1.0, 0.9, 0.75, 0.5]),
                 ccyc=r.choice([0.0, 0.02, 0.5]), rated=rated, gmin=r3(rated * r.choice([0.0, 0.05, 0.4])),
                 gmax=r3(rated * r.choice([0.9, 1.0, 0.8])), fuel=r.choice([0.4, 1.0]), co2=r.choice([0.0, 0.5, 2.0]),
                 pimp=r.choice([2.0, 5.0, 20.0]), pexp=r.choice([0.0, 2.0, 20.0]), cll=r.choice([2.0, 10.0]),
                 cog=r.choice([1.0, 2.0]), cco2=r.choice([0.0, 0.1, 1.0]))
        ops = [dict(op='lnew', to='L', p=p)]
        pct = r.choice([50, 67, 75])
        lim = -(-n * pct // 100)
        split = h >= 2 and min(lim, n - lim) >= h
        modes = ['all', 'all'] + (['training', 'testing', 'testing'] if split else [])
        mode = 'all'
        for _ in range(r.choice([1, 2, 3])):
            for _ in range(n if self.chance(0.3) else r.randrange(1, 5)):
                ops.append(dict(op='lstep', id='L', c=self.lcontrol()))
            if self.chance(0.6):
                mode = r.choice(modes)
                ops.append(dict(op='lreset', id='L', mode=mode, pct=pct))
        if mode == 'all' and p['max'] == p['cap'] and self.chance(0.5):
            ops.append(dict(op='lreset', id='L', mode='all', pct=pct))
            for _ in range(min(n - h, r.choice([0, 1, 2]))):
                ops.append(dict(op='lstep', id='L', c=self.lcontrol()))
            ops.append(dict(op='lback', id='L', to='M', how=r.choice(['', 'class'])))
        mods = [dict(k='load', ts=[[1.0], [2.0]])]
        return dict(mods=mods, unb=self.unb(), seed=r.randrange(1 << 30), ops=ops)

    def lrun(self, exact=True):
        """Controllers of old-style microgrids. Exact: the best plan is known to the specification."""
        r = self.r
        algos = r.choice([['mpc'], ['mpc'], ['rbc'], ['rbc'], ['mpc', 'rbc'], ['rbc', 'mpc'], ['saa'], ['mpc', 'rbc', 'saa']])
        h = r.choice([1, 2, 3])
        n = r.choice([5, 6, 8]) if 'saa' not in algos else 24
        eff = r.choice([1.0, 1.0, 0.5]) if exact else r.choice([1.0, 0.9, 0.75, 0.5])
        lim = 2 * r.randrange(1, 5)
        cap = float(r.choice([2, 4, 6]))
        mn = float(r.choice([0, 0, 1]))
        mx = cap - r.choice([0, 0, 1]) if cap > 2 else cap
        which = r.choice(['grid', 'gen', 'both', 'both'])
        grid, gen = int(which != 'gen'), int(which != 'grid')
        weak = r.choice([0.0, 0.0, 0.4]) if grid else 0
        lo, hi = r.choice([(0.2, 0.6), (0.4, 1.0), (0.25, 3.0)])
        sell = r.choice([0.0, 0.0, lo, lo / 2])

        def val(top):
            return float(r.randrange(0, top + 1)) if exact else r.choice([0.0, float(r.randrange(0, top + 1)), r3(r.uniform(0, top))])
        rmax = float(r.choice([2, 4, 8]))
        p = dict(batt=1, gen=gen, grid=grid, h=h, load=[val(lim) for _ in range(n)], pv=[val(r.choice([2, lim])) for _ in range(n)],
                 st=[float(not self.chance(weak)) for _ in range(n)] if grid else [],
                 imp=[r.choice([lo, hi]) for _ in range(n)] if grid else [],
                 exp=[r.choice([0.0, sell]) for _ in range(n)] if grid else [],
                 em=[r.choice([0.0, 0.4, 1.5]) for _ in range(n)] if grid else [],
                 cap=cap, min=mn, max=mx, init=float(r.randrange(int(mn), int(mx) + 1)),
                 pch=float(r.choice([2, 4] if eff == 0.5 else [1, 2, 3])), pdis=float(r.choice([1, 2, 3])), eff=eff,
                 ccyc=r.choice([0.0, 0.0, 0.2]) if eff == 1.0 or not exact else 0.0, rated=10.0,
                 gmin=float(r.choice([0, 1, 2, rmax])) if eff == 1.0 or not exact else 0.0, gmax=rmax, fuel=r.choice([0.4, 1.0, 1.4]),
                 co2=r.choice([0.0, 0.5, 2.0]), pimp=float(r.choice([2, 6, 20])), pexp=float(r.choice([0, 2, 20])), cll=10.0,
                 cog=r.choice([1.0, 2.0]), cco2=r.choice([0.0, 0.1, 0.5, 1.0]))
        if 'saa' in algos:
            p['pv'] = [0.0 if i % 24 < 6 or i % 24 > 18 else max(1.0, v) for i, v in enumerate(p['pv'])]
        ops = [dict(op='lnew', to='L', p=p)]
        pct = r.choice([67, 75])
        if 'saa' not in algos and h >= 2 and self.chance(0.2) and min(-(-n * pct // 100), n - -(-n * pct // 100)) >= h:
            ops.append(dict(op='lreset', id='L', mode='training', pct=pct))
            n = -(-n * pct // 100)
        for _ in range(r.choice([0, 0, 1, 2])):
            ops.append(dict(op='lstep', id='L', c=self.lcontrol()))
        steps = r.choice([None, None, 1, 2]) if 'saa' not in algos else r.choice([2, 4, 9])
        if algos == ['mpc', 'rbc', 'saa']:
            steps = None
        op = dict(op='lcontrol', id='L', algos=algos, steps=steps, direct=int(self.chance(0.5) and algos == ['mpc']), solver=r.choice([None, 'GLPK_MI']),
                  preset=r.choice([50, 70, 85]), percentile=r.choice([0.0, 0.5, 0.9]))
        if 'saa' in algos and self.chance(0.7):
            op['samples'] = [[dict(pv=p['pv'][i] if same or i % 24 < 6 else val(lim), load=p['load'][i] if same else val(lim),
                                   grid=(p['st'][i] if grid else 0.0)) for i in range(n)]
                             for same in r.choice([(True,), (True, True), (False, False), (True, False, False)])]
        if not op['direct']:
            op['describe'] = r.choice([('all', 0), ('ratio', r.choice([25, 50, 75])), ('index', r.randrange(1, 3))])
        ops.append(op)
        mods = [dict(k='load', ts=[[1.0], [2.0]])]
        return dict(mods=mods, unb=self.unb(), seed=r.randrange(1 << 30), ops=ops)

    def convert(self, refused=0.15):
        """A modular microgrid, converted to an old-style one and back."""
        r = self.r
        n = r.choice([5, 8])
        h = r.choice([0, 0, 1, 2, 4])
        fc = dict(k='none') if h == 0 else dict(k=r.choice(['oracle', 'half']), h=h)
        which = r.choice(['gen', 'grid', 'both', 'both'])
        want = dict(load=1, ren=1, batt=int(self.chance(0.85)), gen=int(which != 'grid'), grid=int(which != 'gen'))
        if self.chance(refused):
            k = r.choice(['load', 'ren', 'batt', 'grid', 'gen'])
            want[k] = 2 if k != 'load' else r.choice([0, 2])
        mods = self.mods(n, want=want, flexible=False, ctl=False)
        for m in mods:
            if 'ts' in m:
                m['fc'] = fc
            if m['k'] == 'batt':
                m.pop('tfd', None), m.pop('tfc', None)
                if 'soc' in m:
                    m['init'] = r3(m.pop('soc') * m['max'])
            if m['k'] == 'gen':
                m.pop('ca', None)
        i0, f0 = self.window(mods, n)
        scn = dict(mods=mods, unb=self.unb(), seed=r.randrange(1 << 30), ops=[])
        for _ in range(r.choice([0, 0, 1, 2])):
            scn['ops'].append(self.step_op(mods, norm=0))
        scn['ops'].append(dict(op='lconvert', to='L', how=r.choice(['', 'class']), check=1))
        for _ in range(r.choice([0, 1, 2])):
            scn['ops'].append(dict(op='lstep', id='L', c=self.lcontrol()))
        scn['ops'].append(dict(op='lback', id='L', to='M', how=r.choice(['', 'class'])))
        order = [dict(k='load'), dict(k='unb')] + [dict(k=k, ts=[]) if k in ('ren', 'grid') else dict(k=k) for k in ('ren', 'batt', 'gen', 'grid') if want[k]]
        for _ in range(r.choice([1, 3, n])):
            req = [None if m['k'] in ('load', 'ren', 'unb') else
                   dict(g=r.choice([0, 1]), a=r.choice([0.0, 1.0, 3.0, 12.0])) if m['k'] == 'gen' else
                   dict(a=r.choice([0.0, 1.0, -1.0, 3.5, -3.5, 30.0, -30.0])) for m in order]
            scn['ops'].append(dict(op='step', id='M', norm=0, req=req, guard=1))
        if self.chance(0.3):
            scn['ops'].append(dict(op='reset', id='M'))
        scn['ops'].append(dict(op='log', id='M'))
        return scn

    def long_steps(self):
        """Steps of the first microgrid of a generator or of one of the benchmark, whatever its components are."""
        r = self.r
        out = []
        for _ in range(r.choice([1, 3, 6])):
            out.append(dict(op='follow', id='M', norm=0, batt=r.choice([0.0, 1.0, -1.0, 3.5, -3.5, 30.0, -30.0]), grid=r.choice([0.0, 1.0, -1.0, 5.0, -30.0, 30.0]),
                            gen=dict(g=r.choice([0, 1]), a=r.choice([0.0, 1.0, 3.0, 12.0]))))
        return out

    def generate(self):
        """Microgrids from the generator."""
        r = self.r
        lo = r.choice([1, 9, r.randrange(1, 8600)])
        ops = [dict(op='generate', seed=r.choice([0, 1, 42] + [r.randrange(1 << 31)] * 9), n=r.choice([1, 2, 3]), lo=lo, k=60, again=r.choice([0, 1, 2]),
                    path=int(self.chance(0.5)))]
        return dict(mods=[dict(k='load', ts=[[1.0], [2.0]])], unb=self.unb(), seed=r.randrange(1 << 30), ops=ops + self.long_steps())

    def benchmark(self):
        """A microgrid of the benchmark."""
        r = self.r
        lo = r.choice([1, 9, r.randrange(1, 8600)])
        ops = [dict(op='benchmark', j=r.randrange(25), lo=lo, k=60, all=int(self.chance(0.1)))]
        return dict(mods=[dict(k='load', ts=[[1.0], [2.0]])], unb=self.unb(), seed=r.randrange(1 << 30), ops=ops + self.long_steps())

    def discrete(self, flat=None, keys=0.25):
        """A discrete environment."""
        r = self.r
        n = r.choice([6, 8])
        mods = self.few(n)
        i0, f0 = self.window(mods, n)
        scn = dict(mods=mods, unb=self.unb(), seed=r.randrange(1 << 30),
                   env=dict(k='discrete', reduced=int(self.chance(0.5)), flat=int(self.chance(0.7)) if flat is None else flat,
                            how=r.choice(['new', 'new', 'from_microgrid'])),
                   ops=[dict(op='lists')])
        self.keys(scn, mods, keys)
        left = n - i0
        for _ in range(r.choice([4, 6])):
            if left == 0 or self.chance(0.1):
                scn['ops'].append(dict(op='ereset'))
                left = n - i0
            scn['ops'].append(dict(op='dstep', a=r.random(), bad=int(self.chance(0.1))))
            left -= 1
        scn['ops'].append(dict(op='log'))
        return scn

    def continuous(self, flat=None, keys=0.25):
        """A continuous environment."""
        r = self.r
        n = r.choice([6, 8])
        mods = self.few(n, 5)
        i0, f0 = self.window(mods, n)
        flat = int(self.chance(0.7)) if flat is None else flat
        scn = dict(mods=mods, unb=self.unb(), seed=r.randrange(1 << 30),
                   env=dict(k='continuous', flat=flat, how=r.choice(['new', 'new', 'from_microgrid'])), ops=[])
        self.keys(scn, mods, keys)
        left = n - i0
        for _ in range(r.choice([4, 6])):
            if left == 0 or self.chance(0.1):
                scn['ops'].append(dict(op='ereset'))
                left = n - i0
            op = self.step_op(mods, 1)
            op.update(op='cstep', sample=int(self.chance(0.3)), bad=int(self.chance(0.1)))
            scn['ops'].append(op)
            left -= 1
        scn['ops'].append(dict(op='log'))
        return scn

    def keys(self, scn, mods, p):
        """A selection of what an environment shows."""
        if not self.chance(p):
            return
        base = dict(batt=['soc', 'current_charge'], gen=['current_status', 'goal_status', 'steps_until_up', 'steps_until_down'],
                    load=['load_current'], ren=['renewable_current'],
                    grid=['import_price_current', 'export_price_current', 'co2_per_kwh_current', 'grid_status_current'])
        pool = sorted({k for m in mods for k in base[m['k']]})
        scn['env']['keys'] = self.r.sample(pool, self.r.randrange(1, min(4, len(pool)) + 1))

    def norms(self):
        scn = self.core(norm=1 if self.chance(0.7) else None)
        ops = []
        for o in scn['ops']:
            if o['op'] in ('step', 'reset') and self.chance(0.4):
                ops.append(dict(op='norms'))
            ops.append(o)
        scn['ops'] = [dict(op='norms')] + ops
        return scn

    def container(self):
        """Many components under few names."""
        r = self.r
        n = 5
        mods = self.mods(n, want=dict(batt=r.choice([0, 1, 2, 3]), grid=r.choice([0, 1, 3]), gen=r.choice([0, 1, 2]),
                                      load=r.choice([1, 2, 3]), ren=r.choice([0, 1, 2, 3])))
        for m in mods:
            m['fc'] = dict(k='none')
        scn = dict(mods=mods, unb=self.unb() if self.chance(0.8) else None, seed=r.randrange(1 << 30), tag=1,
                   ops=[dict(op='container')])
        if scn['unb']:
            scn['ops'] += [self.step_op(mods), dict(op='container'), dict(op='log')]
        return scn

    def clash(self):
        """Names that may or may not be ambiguous."""
        scn = self.container()
        pool = ['a', 'b', 'c', 'd', 'e', 'f', None]
        for m in scn['mods']:
            nm = self.r.choice(pool)
            m.pop('name', None)
            if nm:
                m['name'] = nm
        scn.update(clash=1, ops=[])
        return scn

    def sampling(self, raising=0.3):
        scn = self.core(raising=raising)
        ops = []
        for o in scn['ops']:
            if o['op'] == 'step':
                if self.chance(0.5):
                    ops.append(dict(op='sample', strict=int(self.chance(0.7)), flex=int(self.chance(0.2))))
                if self.chance(0.5):
                    ops.append(dict(op='sample', strict=1 if raising else int(self.chance(0.6)), run=1))
                    ops.append(dict(op='limits'))
                    continue
            ops.append(o)
        scn['ops'] = ops
        return scn

    def shaping(self):
        """Rewards are shaped."""
        r = self.r
        k = r.choice(['pv', 'battery', 'cost', 'cost'])
        scn = self.core(traj=False)
        scn['shape'] = k
        if k == 'pv':
            for m in scn['mods']:
                if m['k'] == 'ren' and not m.get('ctl') and self.chance(0.8):
                    m['name'] = 'pv'
        if k == 'battery':
            nb = r.choice([1, 2])
            scn = self.core(traj=False, want=dict(batt=nb, load=r.choice([1, 2])))
            scn['shape'] = k
            for m in scn['mods']:
                if m['k'] == 'load':
                    m['name'] = 'load' if self.chance(0.8) else 'site'
                if m['k'] == 'batt':
                    m['flex'] = 0
                    m['name'] = 'battery' if self.chance(0.8) else 'storage'
            if self.chance(0.7):
                scn['mods'].append(dict(k='unb', name='unbalanced_energy', i0=scn['mods'][0].get('i0', 0), **scn['unb']))
                scn['unb'] = None
        return scn
