"""Which scenarios decide which property, and which clauses of the specification belong to it.

A suite is (name, generator function of scen.Gen, keyword arguments, share of the budget).
"""

CORE = ('core', 'core', {}, 4)
NORM = ('norm', 'core', dict(norm=1), 2)
RAW = ('raw', 'core', dict(norm=0), 3)
RAISE = ('raise', 'core', dict(raising=0.6), 3)
NOUNB = ('nounb', 'core', dict(nounb=True), 2)
BATT = ('batt', 'core', dict(want=dict(batt=2, gen=0)), 3)
GENS = ('gens', 'core', dict(want=dict(gen=2, batt=0), steps=9), 3)
GRID = ('grid', 'core', dict(want=dict(grid=2)), 2)
TRAJ = ('traj', 'core', dict(traj=1.0, steps=9), 3)

NORMS = ('norms', 'norms', {}, 2)
SHORT = ('core', 'core', {}, 1)                      # control group, see below
COPIES = ('copies', 'history', dict(ops=('copy', 'copy', 'charge')), 4)
COPIES2 = ('copies2', 'history', dict(ops=('copy', 'forecaster')), 2)
TAMPER = ('tamper', 'history', dict(ops=('tamper', 'noise', 'copy'), hows=['deepcopy']), 4)
RBC = ('rbc', 'rbc', {}, 3)
DISC = ('discrete', 'discrete', {}, 3)
CONT = ('continuous', 'continuous', {}, 3)
REPEAT = ('repeat', 'repeat', dict(ops=('queries', 'charge', 'forecaster')), 4)
QUERIES = ('queries', 'history', dict(ops=('queries',)), 2)
FORE = ('forecasters', 'history', dict(ops=('forecaster',)), 4)
CONTAINER = ('container', 'container', {}, 4)
CLASH = ('clash', 'clash', {}, 2)
SHAPE = ('shaping', 'shaping', {}, 4)
SAMPLE = ('sampling', 'sampling', {}, 3)
MPC = ('mpc', 'mpc', {}, 4)
MPC2 = ('mpc2', 'mpc', dict(exact=False), 1)
LEGACY = ('legacy', 'legacy', {}, 6)
CONVERT = ('convert', 'convert', {}, 4)
GENERATE = ('generate', 'generate', {}, 4)
BENCHMARK = ('benchmark', 'benchmark', {}, 4)
LRUN = ('lrun', 'lrun', {}, 4)
LRUN2 = ('lrun2', 'lrun', dict(exact=False), 1)
LEGACY1 = ('legacy', 'legacy', {}, 2)
CONVERT1 = ('convert', 'convert', {}, 1)
SAMPLE0 = ('sampling0', 'sampling', dict(raising=0.0), 2)

# clauses: prefixes of the clauses that state the property.
# special: suites in which the property is at stake in everything that happens, so that a clause of any other property
#   that fails there, but nowhere in the control group (the same operations without what is special), counts as well.
PROPS = {
    'C01': dict(suites=[CORE, NOUNB, RAW, RAISE], clauses=['C01.'], models=['microgrid']),
    'C02': dict(suites=[CORE, RAISE, RAW, GENS, BATT],
                clauses=['C02.', 'C03.bounds', 'C03.exact_bounds', 'C04.off_means_zero', 'C04.on_means_running'], models=['microgrid']),
    'C03': dict(suites=[CORE, BATT, RAISE], clauses=['C03.', 'C02.limit_batt'], models=['microgrid']),
    'C04': dict(suites=[CORE, GENS], clauses=['C04.', 'C02.limit_gen'], models=['genset']),
    'C05': dict(suites=[CORE, GRID, GENS, BATT], clauses=['C05.'], models=['microgrid']),
    'C06': dict(suites=[CORE, RAW, NOUNB], clauses=['C06.'], models=['dispatch', 'microgrid']),
    'C07': dict(suites=[CORE, TRAJ], clauses=['C07.'], models=['episode']),
    'C08': dict(suites=[CORE, GRID], clauses=['C08.'], models=['forecast']),
    'C09': dict(suites=[NORM, NORMS, CORE], clauses=['C09.']),
    'C10': dict(suites=[CORE, TRAJ, ('copies', 'history', dict(ops=('copy', 'forecaster')), 2), DISC],
                clauses=['C10.', 'C01.log_', 'C05.total', 'C05.shaped_log', 'C11.log', 'C17.log_kept'], models=['history']),
    'C11': dict(suites=[COPIES, COPIES2, SHORT], clauses=['C11.'], control=['core'], copies=True, models=['history']),
    'C12': dict(suites=[TAMPER, RBC, SHORT], clauses=['C12.'], control=['core', 'rbc'], special=['tamper'], models=['history']),
    'C13': dict(suites=[RBC, DISC, SHORT], clauses=['C13.'], control=['core'], special=['rbc', 'discrete', 'model_priority', 'model_priority_min'], models=['priority', 'priority_min']),
    'C14': dict(suites=[CONTAINER, CLASH], clauses=['C14.'], models=['container']),
    'C15': dict(suites=[CONVERT, LEGACY1, SHORT], clauses=['C15.'], control=['core'], special=['convert', 'model_legacy', 'model_legacy_lossless'], models=['legacy', 'legacy_lossless']),
    'C16': dict(suites=[REPEAT, QUERIES, SHORT], clauses=['C16.'], control=['core'], special=['queries']),
    'C17': dict(suites=[FORE, SHORT], clauses=['C17.'], control=['core'], special=['forecasters', 'model_forecast'], models=['forecast', 'history']),
    'C18': dict(suites=[MPC, MPC2, SHORT], clauses=['C18.'], control=['core'], special=['mpc', 'mpc2']),
    'C19': dict(suites=[SHAPE, SHORT], clauses=['C19.', 'C05.shaped_log'], control=['core'], special=['shaping']),
    'C20': dict(suites=[DISC, CONT, SHORT], clauses=['C20.'], control=['core'], special=['discrete', 'continuous']),
    'C21': dict(suites=[SAMPLE, SAMPLE0, SHORT], clauses=['C21.'], control=['core'], special=['sampling', 'sampling0']),
    'C22': dict(suites=[BENCHMARK, SHORT], clauses=['C22.'], control=['core'], special=['benchmark'], quick=500, thorough=6000),
    'C23': dict(suites=[GENERATE, SHORT], clauses=['C23.'], control=['core'], special=['generate'], quick=600, thorough=8000),
    'C25': dict(suites=[LRUN, LRUN2, LEGACY1], clauses=['C25.'], control=['legacy'], special=['lrun', 'lrun2'], quick=1400, thorough=16000),
    'C24': dict(suites=[LEGACY, CONVERT1], clauses=['C24.'], quick=1800, models=['legacy']),
}

QUICK = 1200
THOROUGH = 20000


def jobs_for(prop, tier, seed):
    p = PROPS[prop]
    total = p.get(tier, THOROUGH if tier == 'thorough' else QUICK)
    weight = sum(s[3] for s in p['suites'])
    out = []
    for name, fn, kw, share in p['suites']:
        n = max(1, total * share // weight)
        out += [(name, fn, kw, seed, i) for i in range(n)]
    return out


def states(prop, clause):
    """Does the clause state (part of) the property?"""
    return any(clause.startswith(c) for c in PROPS[prop]['clauses'])


def select(prop, fails):
    """Those of the failures that violate the property."""
    p = PROPS[prop]
    control = {clause for clause, scn, _ in fails if scn.get('suite') in p.get('control', [])}
    if p.get('copies'):
        control |= {clause for clause, scn, ev in fails if ev.get('id') == 'A'}
    out = []
    for clause, scn, ev in fails:
        if states(prop, clause) or clause.startswith('ANY.'):
            out.append((clause, scn, ev))
        elif clause in control:
            continue
        elif scn.get('suite') in p.get('special', []) or (p.get('copies') and ev.get('id', 'A') != 'A'):
            out.append((clause, scn, ev))
    return out
