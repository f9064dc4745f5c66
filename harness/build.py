"""Builds the library's objects from scenarios (plain JSON) and describes them to the specification.

Only the library's public interface is used.
"""
import warnings

import numpy as np
import yaml

from enc import num, raw

warnings.simplefilter('ignore')

from pymgrid import Microgrid                                             # noqa: E402
from pymgrid.modules import (                                             # noqa: E402
    BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule, UnbalancedEnergyModule)
from pymgrid.microgrid.trajectory import (                                # noqa: E402
    DeterministicTrajectory, FixedLengthStochasticTrajectory, StochasticTrajectory)

DEFAULT_NAMES = dict(load='load', ren='renewable', batt='battery', gen='genset', grid='grid', unb='balancing')


class FlexGrid(GridModule):
    """A grid that balances the microgrid by itself."""
    module_type = ('grid', 'flex')
    yaml_tag = u'!VerifFlexGrid'
    yaml_loader = yaml.SafeLoader
    yaml_dumper = yaml.SafeDumper


class FlexBattery(BatteryModule):
    """A battery that balances the microgrid by itself."""
    module_type = ('battery', 'flex')
    yaml_tag = u'!VerifFlexBattery'
    yaml_loader = yaml.SafeLoader
    yaml_dumper = yaml.SafeDumper


class ControlledRenewable(RenewableModule):
    """A renewable that takes requests."""
    module_type = ('renewable', 'controllable')
    yaml_tag = u'!VerifControlledRenewable'
    yaml_loader = yaml.SafeLoader
    yaml_dumper = yaml.SafeDumper


class Linear:
    """Fuel cost a + b * production."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, production):
        return self.a + self.b * production

    def __eq__(self, other):
        return isinstance(other, Linear) and (self.a, self.b) == (other.a, other.b)


class Transition:
    """Battery model with different efficiencies in the two directions."""

    def __init__(self, fd, fc):
        self.fd, self.fc = fd, fc

    def __call__(self, external_energy_change, **kwargs):
        if external_energy_change < 0:
            return external_energy_change / self.fd
        return external_energy_change * self.fc


def half_vector(val_c, val_c_n, n):
    return np.asarray(val_c_n) / 2


def half_scalar(val_c, val_c_n, n):
    if np.size(val_c_n) > np.size(val_c):
        raise ValueError('one value at a time')
    return val_c_n / 2


def forecaster_of(fc):
    return dict(none=None, oracle='oracle', half=half_vector, halfs=half_scalar,
                gauss=fc.get('sd'))[fc['k']]


def ts_kwargs(m):
    fc = m.get('fc') or dict(k='none')
    kw = dict(initial_step=m.get('i0', 0), final_step=m.get('f0', -1), raise_errors=bool(m.get('raise', 0)))
    if fc['k'] != 'none':
        kw.update(forecaster=forecaster_of(fc), forecast_horizon=fc['h'])
        if fc['k'] == 'gauss':
            kw.update(forecaster_increase_uncertainty=bool(fc.get('inc', 0)),
                      forecaster_relative_noise=bool(fc.get('rel', 0)))
    return kw


def build_module(m, share=None):
    """A module of the library. `share`: dict that keeps the arrays handed to the library."""
    k = m['k']
    r = bool(m.get('raise', 0))
    i0 = m.get('i0', 0)
    if k in ('load', 'ren', 'grid'):
        ts = np.array(m['ts'], dtype=float)
        if m.get('ts1d') and ts.ndim == 2 and ts.shape[1] == 1:
            ts = ts.reshape(-1)
        if k == 'load' and m.get('neg'):
            ts = -np.abs(ts)
        if share is not None:
            share.setdefault('ts', []).append((ts, ts.copy()))
        if k == 'load':
            return LoadModule(time_series=ts, **ts_kwargs(m))
        if k == 'ren':
            cls = ControlledRenewable if m.get('ctl') else RenewableModule
            return cls(time_series=ts, **ts_kwargs(m))
        cls = FlexGrid if m.get('flex') else GridModule
        if m.get('cols3'):
            ts = ts[:, :3]
        return cls(max_import=m['imp'], max_export=m['exp'], time_series=ts,
                   cost_per_unit_co2=m.get('cco2', 0.0), **ts_kwargs(m))
    if k == 'batt':
        cls = FlexBattery if m.get('flex') else BatteryModule
        kw = dict(init_soc=m['soc']) if 'soc' in m else dict(init_charge=m['init'])
        if 'tfd' in m:
            kw['battery_transition_model'] = Transition(m['tfd'], m['tfc'])
        return cls(min_capacity=m['min'], max_capacity=m['max'], max_charge=m['mch'], max_discharge=m['mdis'],
                   efficiency=m['eff'], battery_cost_cycle=m.get('ccyc', 0.0), initial_step=i0, raise_errors=r, **kw)
    if k == 'gen':
        cost = m['cb'] if not m.get('ca') else Linear(m['ca'], m['cb'])
        return GensetModule(running_min_production=m['rmin'], running_max_production=m['rmax'], genset_cost=cost,
                            co2_per_unit=m.get('co2', 0.0), cost_per_unit_co2=m.get('cco2', 0.0),
                            start_up_time=m.get('up', 0), wind_down_time=m.get('down', 0),
                            allow_abortion=bool(m.get('abort', 1)), init_start_up=bool(m.get('init', 1)),
                            initial_step=i0, raise_errors=r)
    if k == 'unb':
        return UnbalancedEnergyModule(raise_errors=False, initial_step=i0, loss_load_cost=m['llc'],
                                      overgeneration_cost=m['ogc'])
    raise ValueError(k)


def module_ffc(m):
    k = m['k']
    if k == 'load':
        return 'fixed'
    if k == 'unb':
        return 'flex'
    if k == 'ren':
        return 'controllable' if m.get('ctl') else 'flex'
    return 'flex' if m.get('flex') else 'controllable'


def module_name(m):
    return m.get('name') or DEFAULT_NAMES[m['k']]


def mean_abs(m):
    vals = [v for row in m['ts'][m.get('i0', 0):(m['f0'] if m.get('f0', -1) > 0 else None)] for v in row]
    return abs(sum(vals) / len(vals))


def spec_fc(m):
    fc = m.get('fc') or dict(k='none')
    if fc['k'] == 'none':
        return dict(k='none', h=0, sg=0, inc=0)
    sg = 0
    if fc['k'] == 'gauss':
        sd = fc['sd']
        if fc.get('rel'):
            sd = sd * mean_abs(m)
        sg = num(sd) + 1
    return dict(k=fc['k'], h=fc['h'], sg=sg, inc=int(fc.get('inc', 0)))


def spec_module(m, unit=1.0):
    """The module as the specification sees it."""
    k = m['k']

    def e(x):
        return num(x / unit)
    d = dict(k=k, name=module_name(m), ffc=module_ffc(m))
    d['raise'] = int(m.get('raise', 0))
    if k in ('load', 'ren'):
        s = -1 if k == 'load' else 1
        d['ts'] = [[s * abs(e(v)) for v in row] for row in m['ts']]
        d['fc'] = spec_fc(m)
    elif k == 'grid':
        d['ts'] = [[num(v) for v in row[:3]] + [1000 if m.get('cols3') else num(row[3])] for row in m['ts']]
        d['fc'] = spec_fc(m)
        d.update(imp=e(m['imp']), exp=e(m['exp']), cco2=num(m.get('cco2', 0.0)))
    elif k == 'batt':
        init = m['init'] if 'init' in m else m['soc'] * m['max']
        d.update(min=e(m['min']), max=e(m['max']), mch=e(m['mch']), mdis=e(m['mdis']), eff=num(m['eff']),
                 fd=num(m.get('tfd', m['eff'])), fc=num(m.get('tfc', m['eff'])), ccyc=num(m.get('ccyc', 0.0)),
                 init=e(init))
    elif k == 'gen':
        d.update(rmin=e(m['rmin']), rmax=e(m['rmax']), ca=e(m.get('ca', 0.0)), cb=num(m['cb']),
                 co2=num(m.get('co2', 0.0)), cco2=num(m.get('cco2', 0.0)), up=raw(m.get('up', 0)),
                 down=raw(m.get('down', 0)), abort=int(m.get('abort', 1)), init=int(m.get('init', 1)))
    elif k == 'unb':
        d.update(llc=num(m['llc']), ogc=num(m['ogc']))
    return d


def all_mods(scn):
    """Modules in constructor order, with the balancing module that the microgrid adds."""
    mods = [dict(m) for m in scn['mods']]
    u = scn.get('unb')
    if u:
        mods.append(dict(k='unb', llc=u['llc'], ogc=u['ogc'], i0=0))
    return mods


def build_trajectory(t):
    if not t or t['k'] == 'none':
        return None
    if t['k'] == 'det':
        return DeterministicTrajectory(t['a'], t['b'])
    if t['k'] == 'stoch':
        return StochasticTrajectory()
    if t['k'] == 'len':
        return FixedLengthStochasticTrajectory(t['a'])
    raise ValueError(t['k'])


def build_list(scn, share=None):
    out = []
    for i, m in enumerate(scn['mods']):
        mod = build_module(m, share)
        if scn.get('tag'):
            mod.verif_tag = i
        out.append((m['name'], mod) if m.get('name') else mod)
    return out


def cost_shaper(step_info, cost_info):
    """A reward shaping function of the user: energy at the components' unit costs."""
    total = 0.0
    for name, infos in step_info.items():
        for info, cost in zip(infos, cost_info[name]):
            total += info.get('provided_energy', 0.0) * cost['production_marginal_cost']
            total -= info.get('absorbed_energy', 0.0) * cost['absorption_marginal_cost']
    return total


def shaper_of(kind):
    from pymgrid.microgrid.reward_shaping import BatteryDischargeShaper, PVCurtailmentShaper
    return dict(pv=PVCurtailmentShaper, battery=BatteryDischargeShaper, cost=lambda: cost_shaper)[kind]()


def grid_kwargs(scn):
    u = scn.get('unb')
    kw = dict(add_unbalanced_module=bool(u), trajectory_func=build_trajectory(scn.get('traj')))
    if u:
        kw.update(loss_load_cost=u['llc'], overgeneration_cost=u['ogc'])
    if scn.get('shape'):
        kw['reward_shaping_func'] = shaper_of(scn['shape'])
    return kw


def build_env(scn, share=None):
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    e = scn['env']
    mods = build_list(scn, share)
    kw = dict(flat_spaces=bool(e.get('flat', 1)))
    if e.get('keys'):
        kw['observation_keys'] = e['keys']
    cls = ContinuousMicrogridEnv
    if e['k'] == 'discrete':
        cls = DiscreteMicrogridEnv
        kw['remove_redundant_gensets'] = bool(e.get('reduced', 1))
    if e.get('how') == 'from_microgrid':
        return cls.from_microgrid(Microgrid(mods, **grid_kwargs(scn)), **kw)
    return cls(mods, **grid_kwargs(scn), **kw)


def build_microgrid(scn, share=None):
    if scn.get('env'):
        return build_env(scn, share)
    mods = build_list(scn, share)
    if share is not None:
        share['mods'] = mods
    return Microgrid(mods, **grid_kwargs(scn))
