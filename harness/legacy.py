"""Old-style (nonmodular) microgrids: building and observing them."""
import os
import shutil
import tempfile
import zlib

import numpy as np
import pandas as pd

from build import spec_module
from enc import BIG, num, raw
from pymgrid import MicrogridGenerator
from pymgrid._deprecated.non_modular_microgrid import NonModularMicrogrid

NAMES = (('load', 'load'), ('unbalanced_energy', 'unb'), ('PV', 'ren'), ('battery', 'batt'), ('genset', 'gen'), ('grid', 'grid'))
BENCHMARK_NAMES = (('load', 'load'), ('unbalanced_energy', 'unb'), ('pv', 'ren'), ('battery', 'batt'), ('genset', 'gen'), ('grid', 'grid'))


def build(p):
    """An old-style microgrid from plain parameters."""
    par = dict(load=max(p['load']), cost_loss_load=p['cll'], cost_overgeneration=p['cog'], cost_co2=p['cco2'],
               PV_rated_power=max(p['pv']))
    actions, made, cost = ['load', 'pv_consummed', 'pv_curtailed', 'pv'], ['loss_load', 'overgeneration', 'pv_consummed', 'pv_curtailed'], \
        ['loss_load', 'overgeneration', 'co2']
    status = dict(load=[p['load'][0]], hour=[0], pv=[p['pv'][0]])
    if p['batt']:
        soc = p['init'] / p['cap']
        par.update(battery_soc_0=soc, battery_power_charge=p['pch'], battery_power_discharge=p['pdis'], battery_capacity=p['cap'],
                   battery_efficiency=p['eff'], battery_soc_min=p['min'] / p['cap'], battery_soc_max=p['max'] / p['cap'],
                   battery_cost_cycle=p['ccyc'])
        status.update(battery_soc=[soc], capa_to_charge=[max((p['max'] - p['init']) / p['eff'], 0)],
                      capa_to_discharge=[max((p['init'] - p['min']) * p['eff'], 0)])
        actions += ['battery_charge', 'battery_discharge']
        made += ['battery_charge', 'battery_discharge']
        cost += ['battery']
    if p['grid']:
        par.update(grid_weak=int(min(p['st']) < 1), grid_power_import=p['pimp'], grid_power_export=p['pexp'])
        status.update(grid_status=[p['st'][0]], grid_co2=[p['em'][0]], grid_price_import=[p['imp'][0]], grid_price_export=[p['exp'][0]])
        actions += ['grid_import', 'grid_export']
        made += ['grid_import', 'grid_export']
        cost += ['grid_import', 'grid_export']
    if p['gen']:
        par.update(genset_rated_power=p['rated'], genset_pmin=p['gmin'] / p['rated'], genset_pmax=p['gmax'] / p['rated'],
                   fuel_cost=p['fuel'], genset_co2=p['co2'], genset_polynom_order=0)
        actions += ['genset']
        made += ['genset']
        cost += ['genset']

    def df(x):
        return pd.DataFrame(x) if p['grid'] else []
    return NonModularMicrogrid(dict(
        parameters=pd.DataFrame({k: [v] for k, v in par.items()}), df_actions={k: [] for k in actions},
        architecture=dict(PV=1, battery=p['batt'], genset=p['gen'], grid=p['grid']), df_status=status,
        df_actual_generation={k: [] for k in made}, grid_spec=0, df_cost={k: [] for k in cost + ['total_cost']}, df_co2=dict(co2=[]),
        pv=pd.DataFrame({'GH illum (lx)': p['pv']}), load=pd.DataFrame({'Electricity:Facility [kW](Hourly)': p['load']}), grid_ts=df(p['st']), control_dict=actions,
        grid_price_import=df(p['imp']), grid_price_export=df(p['exp']), grid_co2=df(p['em'])), horizon=p['h'])


def seq(x):
    return [num(v) for v in x]


class Old:
    """An old-style microgrid under observation."""
    KEYS = dict(bc='battery_charge', bd='battery_discharge', gi='grid_import', ge='grid_export', gen='genset')

    def __init__(self, wid, mg, p=None, unit=1.0):
        self.id, self.mg, self.p, self.unit = wid, mg, p, unit
        a = mg.architecture
        self.batt, self.gen, self.grid = int(a['battery']), int(a['genset']), int(a['grid'])
        self.cap = float(mg.parameters['battery_capacity'].values[0]) if self.batt else 1.0

    def has(self, k):
        return dict(bc=self.batt, bd=self.batt, gi=self.grid, ge=self.grid, gen=self.gen)[k]

    def spec(self, rows=(0, None)):
        """The parameters: those it was built from, or those that it has."""
        if self.p:
            d = {k: num(v) for k, v in self.p.items() if k in (
                'min', 'max', 'pch', 'pdis', 'eff', 'ccyc', 'gmin', 'gmax', 'fuel', 'co2', 'pimp', 'pexp', 'cll', 'cog', 'cco2')}
            d.update({k: seq(self.p[k]) for k in ('load', 'pv', 'st', 'imp', 'exp', 'em')})
            d.update(batt=self.batt, gen=self.gen, grid=self.grid, h=self.p['h'])
            return d
        mg, q = self.mg, self.mg.parameters
        d = dict(batt=self.batt, gen=self.gen, grid=self.grid, h=raw(mg.horizon), min=0, max=0, pch=0, pdis=0, eff=1000, ccyc=0,
                 gmin=0, gmax=0, fuel=0, co2=0, pimp=0, pexp=0, st=[], imp=[], exp=[], em=[])

        def v(key):
            return float(q[key].values[0])

        def e(x):
            return num(x / self.unit)

        def part(df, f=num):
            return [f(x) for x in df.values.reshape(-1)[rows[0]:rows[1]]]
        load, pv = mg.get_data()
        d.update(load=part(load, e), pv=part(pv, e), cll=num(v('cost_loss_load')),
                 cog=num(v('cost_overgeneration')), cco2=num(v('cost_co2')))
        if self.batt:
            d.update(min=e(v('battery_soc_min') * self.cap), max=e(v('battery_soc_max') * self.cap), pch=e(v('battery_power_charge')),
                     pdis=e(v('battery_power_discharge')), eff=num(v('battery_efficiency')), ccyc=num(v('battery_cost_cycle')))
        if self.gen:
            r = v('genset_rated_power')
            d.update(gmin=e(v('genset_pmin') * r), gmax=e(v('genset_pmax') * r), fuel=num(v('fuel_cost')), co2=num(v('genset_co2')))
        if self.grid:
            d.update(pimp=e(v('grid_power_import')), pexp=e(v('grid_power_export')), st=part(mg._grid_status_ts),
                     imp=part(mg._grid_price_import), exp=part(mg._grid_price_export),
                     em=part(mg._grid_co2))
        return d

    def status(self, u=None):
        u = u or self.mg.get_updated_values()

        def n(k, f=1.0):
            return BIG if u.get(k) is None else num(u[k] * f)
        d = dict(load=n('load'), pv=n('pv'), hour=raw(u['hour']), charge=0, ctc=0, ctd=0, st=0, imp=0, exp=0, em=0)
        if self.batt:
            d.update(charge=n('battery_soc', self.cap / self.unit), ctc=n('capa_to_charge', 1 / self.unit), ctd=n('capa_to_discharge', 1 / self.unit))
        if self.grid:
            d.update(st=n('grid_status'), imp=n('grid_price_import'), exp=n('grid_price_export'), em=n('grid_co2'))
        return d

    def forecasts(self):
        f = self.mg.forecast_all()
        d = dict(load=seq(f['load']), pv=seq(f['pv']), st=[], imp=[], exp=[], em=[])
        if self.grid:
            d.update(st=seq(f['grid_status']), imp=seq(f['grid_import']), exp=seq(f['grid_export']), em=seq(f['grid_co2']))
        return d

    def lengths(self):
        mg = self.mg
        out = [len(v) for df in (mg._df_record_control_dict, mg._df_record_actual_production, mg._df_record_cost, mg._df_record_co2)
               for v in df.values()]
        return out + [len(v) - 1 for v in mg._df_record_state.values()]

    def records(self):
        """The last row of what is recorded: flows, costs, emissions, numbers of rows, actions."""
        mg = self.mg
        f, k, a = self.row(mg._df_record_actual_production, mg._df_record_cost, mg._df_record_control_dict, -1)
        return f, k, num(mg.get_co2()), self.lengths(), a

    def row(self, prod, cost, act, i):
        def last(df, k):
            return num(df[k][i]) if k in df else 0
        f = {k: last(prod, n) for k, n in self.KEYS.items()}
        f.update(pv=last(prod, 'pv_consummed'), curt=last(prod, 'pv_curtailed'), loss=last(prod, 'loss_load'), over=last(prod, 'overgeneration'))
        k = dict(loss=last(cost, 'loss_load'), over=last(cost, 'overgeneration'), gen=last(cost, 'genset'), gi=last(cost, 'grid_import'),
                 ge=last(cost, 'grid_export'), batt=last(cost, 'battery'), co2=last(cost, 'co2'))
        return f, k, {k: last(act, n) for k, n in self.KEYS.items()}


def describe(mg, names=NAMES, unit=1.0, rows=(0, None)):
    """The components of a modular microgrid that came from an old-style one: for the harness, and as they are."""
    mods, got = [], []
    for name, kind in names:
        try:
            mod = mg.modules[name].item()
        except (KeyError, AttributeError):
            continue
        d = dict(k=kind, name=name)
        d['raise'] = int(bool(mod.raise_errors))
        if kind in ('load', 'ren', 'grid'):
            d.update(ts=[[float(x) for x in row] for row in mod.time_series[rows[0]:rows[1]]], fc=dict(k='oracle', h=int(mod.forecast_horizon)))
        if kind == 'grid':
            d.update(imp=float(mod.max_import), exp=float(mod.max_export), cco2=float(mod.cost_per_unit_co2))
        elif kind == 'batt':
            d.update(min=float(mod.min_capacity), max=float(mod.max_capacity), mch=float(mod.max_charge), mdis=float(mod.max_discharge),
                     eff=float(mod.efficiency), ccyc=float(mod.battery_cost_cycle), init=float(mod.current_charge))
        elif kind == 'gen':
            d.update(rmin=float(mod.running_min_production), rmax=float(mod.running_max_production), cb=float(mod.genset_cost),
                     co2=float(mod.co2_per_unit), cco2=float(mod.cost_per_unit_co2), up=int(mod.start_up_time),
                     down=int(mod.wind_down_time), abort=1, init=int(mod.current_status))
        elif kind == 'unb':
            d.update(llc=float(mod.loss_load_cost), ogc=float(mod.overgeneration_cost))
        mods.append(d)
        got.append(spec_module(d, unit))
    return mods, got


# -------------------------------------------------------------------- generator and benchmark
def copy_data(rng):
    """The data of the generator in another folder, written in another order, if possible on a file system that lists
    files in that order."""
    import pymgrid
    tmp = tempfile.mkdtemp(prefix='verif-scn-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    src = os.path.join(str(pymgrid.PROJECT_PATH), 'data')
    for d in ('load', 'pv', 'co2'):
        os.makedirs(os.path.join(tmp, 'data', d), exist_ok=True)
        files = sorted(f for f in os.listdir(os.path.join(src, d)) if f.endswith('.csv'))
        rng.shuffle(files)
        for f in files:
            shutil.copyfile(os.path.join(src, d, f), os.path.join(tmp, 'data', d, f))
    return tmp


def fingerprint(mg):
    """A number for everything a microgrid is made of."""
    if isinstance(mg, NonModularMicrogrid):
        load, pv = mg.get_data()
        data = [load.values, pv.values]
        if mg.architecture['grid']:
            data += [mg._grid_status_ts.values, mg._grid_price_import.values, mg._grid_price_export.values, mg._grid_co2.values]
        text = repr(mg.architecture) + repr([(c, repr(float(mg.parameters[c].values[0]))) for c in sorted(mg.parameters.columns)]) + \
            repr(sorted((k, repr(float(v))) for k, v in mg.get_updated_values().items()))
    else:
        data = [m.time_series for m in mg.modules.iterlist() if hasattr(m, 'time_series')]
        text = repr([(m.name, sorted((k, repr(float(v))) for k, v in m.state_dict().items())) for m in mg.modules.iterlist()])
    text += repr([zlib.crc32(np.ascontiguousarray(x, dtype=float).tobytes()) for x in data])
    return zlib.crc32(text.encode()) & 0x3fffffff


def hundredths(x):
    return num(x, 100)


def made(mg, lo, k):
    """What is drawn for an old-style microgrid, with the prices of k rows from lo on."""
    q, a = mg.parameters, mg.architecture

    def v(key):
        return float(q[key].values[0])
    load, pv = (x.values.reshape(-1) for x in mg.get_data())
    d = dict(gen=int(a['genset']), grid=int(a['grid']), size=raw(v('load')), peak=hundredths(load.max()), mean=hundredths(load.mean()),
             minload=num(load.min(), 1), pvpeak=hundredths(pv.max()), minpv=num(pv.min(), 1), rows=[len(load), len(pv)], lo=lo,
             capa=raw(v('battery_capacity')), pch=raw(v('battery_power_charge')), pdis=raw(v('battery_power_discharge')),
             soc=num(v('battery_soc_0')), socmin=num(v('battery_soc_min')), socmax=num(v('battery_soc_max')), eff=num(v('battery_efficiency')),
             ccyc=num(v('battery_cost_cycle')), cll=num(v('cost_loss_load')), cog=num(v('cost_overgeneration')), cco2=num(v('cost_co2')),
             rated=0, gmin=0, gmax=0, fuel=0, co2=0, imp=0, exp=0, weak=0, outages=0, st01=1, price=[], rev=[])
    if a['genset']:
        d.update(rated=raw(v('genset_rated_power')), gmin=num(v('genset_pmin')), gmax=num(v('genset_pmax')), fuel=num(v('fuel_cost')),
                 co2=num(v('genset_co2')))
    if a['grid']:
        st, imp, exp, em = (x.values.reshape(-1) for x in (mg._grid_status_ts, mg._grid_price_import, mg._grid_price_export, mg._grid_co2))
        d.update(imp=raw(v('grid_power_import')), exp=raw(v('grid_power_export')), weak=raw(v('grid_weak')), outages=int((st == 0).sum()),
                 st01=int(set(st) <= {0, 1}), price=seq(imp[lo:lo + k]), rev=seq(exp[lo:lo + k]))
        d['rows'] += [len(st), len(imp), len(exp), len(em)]
    return d


def made_modular(mg, lo, k):
    """The same of a modular microgrid."""
    m = {kind: mg.modules[name].item() for name, kind in BENCHMARK_NAMES if name in list(mg.modules.names())}
    load, pv = -m['load'].time_series[:, 0], m['ren'].time_series[:, 0]
    b, u = m['batt'], m['unb']
    size = int(round(load.max()))
    d = dict(gen=int('gen' in m), grid=int('grid' in m), size=size, peak=hundredths(load.max()), mean=hundredths(load.mean()),
             minload=num(load.min(), 1), pvpeak=hundredths(pv.max()), minpv=num(pv.min(), 1), rows=[len(load), len(pv)], lo=lo,
             capa=raw(b.max_capacity), pch=raw(b.max_charge), pdis=raw(b.max_discharge), soc=num(b.soc), socmin=num(b.min_capacity / b.max_capacity),
             socmax=1000, eff=num(b.efficiency), ccyc=num(b.battery_cost_cycle), cll=num(u.loss_load_cost), cog=num(u.overgeneration_cost),
             cco2=100, rated=0, gmin=0, gmax=0, fuel=0, co2=0, imp=0, exp=0, weak=0, outages=0, st01=1, price=[], rev=[])
    if 'gen' in m:
        g = m['gen']
        rated = g.running_max_production / 0.9
        d.update(rated=raw(round(rated, 6)), gmin=num(g.running_min_production / rated), gmax=900, fuel=num(g.genset_cost), co2=num(g.co2_per_unit),
                 cco2=num(g.cost_per_unit_co2))
    if 'grid' in m:
        g = m['grid']
        ts = g.time_series
        d.update(imp=raw(g.max_import), exp=raw(g.max_export), weak=int((ts[:, 3] == 0).any()), outages=int((ts[:, 3] == 0).sum()),
                 st01=int(set(ts[:, 3]) <= {0, 1}), price=seq(ts[lo:lo + k, 0]), rev=seq(ts[lo:lo + k, 1]), cco2=num(g.cost_per_unit_co2))
        d['rows'] += [len(ts)]
    return d
