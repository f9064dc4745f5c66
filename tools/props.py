"""Writes properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
B='src/pymgrid/'
p('C01','Energy balances in every step',
  'In every completed step of a microgrid the energy provided by its components equals the energy absorbed by them, each component taking part exactly once, as provider or as absorber; the energy totals kept in the log (overall, fixed, controllable) are the sums over the components. A step whose components cannot balance fails with an error instead of completing silently.',
  ['inputs','configurations','histories'],'every set of components (any number of loads, renewables, batteries, gensets, grids, with or without the balancing component), every sequence of controls, every step',
  'Tests step a few fixed microgrids with one or two controls; balance must hold for every mixture of component kinds, limits and requests.',
  [B+'microgrid/microgrid.py',B+'microgrid/utils/step.py'],[('step accounting','Microgrid.run'),('balance','MicrogridStep')],
  [('provided_energy/absorbed_energy','energy per component and step','info returned by a step'),('balance log','totals per step','Microgrid.get_log')],['Microgrid.run','Microgrid.get_log'])
p('C02','Components never exceed their physical limits',
  'In every step each component provides and absorbs no negative amounts and no more (and, for a running genset, no less) than its limits allow in that step: battery charge and discharge rates and capacity, genset production range and status, grid import and export limits and outages, available renewable power, the demand of a load. A request beyond the limits is cut off at the limit, or, where the component was told to raise errors, refused with a ValueError that leaves the component\'s stored energy unchanged; requests within the limits are honoured exactly, and the limits that a component reports are those it enforces.',
  ['inputs','configurations','histories'],'every component, state and requested amount, normalized or not, with and without raise_errors',
  'Tests try isolated modules with a few amounts; limits depend on state reached by arbitrary histories (partial charge, outages, pending start-ups).',
  [B+'modules/base/base_module.py',B+'modules/battery_module.py',B+'modules/genset_module.py',B+'modules/grid_module.py',B+'modules/renewable_module.py',B+'modules/load_module.py'],
  [('clipping','BaseMicrogridModule.step/as_source/as_sink/as_flex'),('limits','max_production, min_production, max_consumption of each module')],
  observe=['module.step','Microgrid.run','max_production/min_production/max_consumption'])
p('C03','Stored energy is accounted for exactly',
  'The charge of a battery always lies within its capacity bounds and changes only by what flowed through it: charging with e adds e times the efficiency, discharging e removes e divided by the efficiency (or what the given transition model says), and nothing else changes it. State of charge is always charge divided by maximum capacity, and a battery starts with (or takes) exactly the charge or state of charge the user sets.',
  ['inputs','configurations','histories'],'every battery parametrization, initial charge and sequence of charge and discharge requests, including floating point edge cases at the bounds',
  'Tests check single charges and discharges of one battery; drift, efficiency errors and bound violations need long or extreme sequences.',
  [B+'modules/battery_module.py'],[('charge update','BatteryModule.update/_update_state'),('transition models','BatteryModule.model_transition')],[('current_charge, soc','stored energy','BatteryModule')],['state_dict','Microgrid.run info'])
p('C04','Gensets follow start-up, wind-down and abortion rules',
  'A genset that is requested on (off) turns on (off) after exactly its start-up (wind-down) time of sustained requests, at once if that time is zero; reverting the request during the change aborts it unless abortions are not allowed, in which case the change completes. A genset that is off produces nothing, one that is on produces between its minimum and maximum running production; the status and limits it predicts for a request are those that the next step with that request has.',
  ['inputs','configurations','histories'],'every start-up and wind-down time, abortion setting, initial status and sequence of requested statuses and amounts',
  'The status logic is a state machine over request histories; tests exercise a handful of short histories with fixed times.',
  [B+'modules/genset_module.py'],[('status machine','GensetModule.update_status'),('prediction','GensetModule.next_status/next_max_production/next_min_production')],[('current_status, goal_status, steps_until_up, steps_until_down','status machine','GensetModule')],['state_dict','info','next_status'])
p('C05','Rewards, costs and emissions are those of the energy moved',
  'Every component\'s reward in a step is minus the cost of the energy it moved in that step at its own unit costs: battery cycling cost on the energy exchanged with the store, genset fuel and CO2 cost, grid import price, export revenue and CO2 cost at that step\'s prices, loss-load and overgeneration penalties; CO2 is energy times the emission factor in force. The step\'s reward is the sum over all components, is the one returned and the one logged, and marginal costs that components report are these unit costs.',
  ['inputs','configurations','histories'],'every component, price series, cost function and flow in every step',
  'Tests check a few hand-computed rewards; sign, price row and cost factors must be right for every series, step and direction.',
  [B+'modules/battery_module.py',B+'modules/genset_module.py',B+'modules/grid_module.py',B+'modules/unbalanced_energy_module.py',B+'microgrid/utils/step.py'],[('rewards','get_cost, update, get_co2_production'),('sum','MicrogridStep')],observe=['Microgrid.run','get_log','marginal_cost'])
p('C06','Flexible components balance in order; load is lost only as a last resort',
  'After fixed and controllable components have acted, flexible components are used in the microgrid\'s order, each covering as much of the remaining shortage (or taking as much of the remaining excess) as it can and no more. Load is lost only when every flexible source before the balancing component is exhausted, overgeneration is recorded only for energy that no other component could take and never while curtailable renewable power was used, never both in one step, and reported curtailment is the available renewable power that was not used.',
  ['inputs','configurations','histories'],'every set and order of flexible components and every net demand',
  'Tests use one renewable and one balancing component; order and exhaustion matter for mixtures of several flexible sources and sinks.',
  [B+'microgrid/microgrid.py',B+'modules/renewable_module.py',B+'modules/unbalanced_energy_module.py'],[('flex loop','Microgrid.run'),('curtailment','RenewableModule.update')],observe=['Microgrid.run','get_log'])
p('C07','Clock, episodes and trajectories',
  'Each step advances the clock of the microgrid and of all its components by exactly one; a step reports done exactly when it was the last one before the episode\'s final step. A reset rewinds every component to one common first step and sets one common final step, which are those of the microgrid or those its trajectory function chooses within the microgrid\'s bounds; it leaves stored energy and genset status alone, and the microgrid\'s own bounds stay what the user set.',
  ['histories','configurations','inputs'],'every sequence of steps, resets and changes of bounds, every window and trajectory function',
  'Tests run single episodes; off-by-one and drift show up only in particular windows, trajectories and after several resets.',
  [B+'microgrid/microgrid.py',B+'microgrid/trajectory/',B+'modules/base/timeseries/base_timeseries_module.py',B+'modules/base/base_module.py'],[('reset','Microgrid.reset/_set_trajectory'),('done','BaseTimeSeriesMicrogridModule._done'),('trajectories','trajectory/*.py')],[('current_step, initial_step, final_step','clock and window','modules and Microgrid')],['Microgrid.run','Microgrid.reset'])
p('C08','Observed time series and forecasts are the true ones',
  'In every step the current value that a time series component shows is the entry of its series for that step (loads as negative values). Forecast entry j is what the forecaster makes of the entry j steps ahead: exactly that value for the perfect forecaster, the user function\'s value cut off at the series\' bounds, or the true value with noise of the configured size within those bounds; where the series has ended, a fixed fill value within the bounds is shown and the state keeps its length and order.',
  ['inputs','configurations','histories'],'every series, horizon, forecaster kind and step, including the last steps and beyond the end of the series',
  'Tests look at the first steps of short series with oracle forecasts; alignment errors appear at particular horizons, near the end of the series and after resets.',
  [B+'modules/base/timeseries/base_timeseries_module.py',B+'modules/base/timeseries/_module.py',B+'forecast/forecaster.py'],[('forecast','Forecaster.__call__, full_pad'),('state','BaseTimeSeriesMicrogridModule.state/forecast')],observe=['state_dict','Microgrid.run observations'])
p('C09','Normalization is an exact affine map onto the unit interval',
  'Normalized states and observations are (value - low) / (high - low) of the component\'s bounds, always within [0, 1], and normalized actions in [0, 1] are mapped back with the component\'s action bounds before they act, so that 0 asks for the most absorption and 1 for the most production. Converting to normalized form and back returns the original value, for actions and observations of every component.',
  ['inputs','configurations','histories'],'every component, state, and normalized action',
  'Tests normalize a few values; wrong bounds (e.g. swapped, missing efficiency or wrong column) only show for particular parametrizations.',
  [B+'utils/space.py',B+'modules/base/base_module.py',B+'modules/battery_module.py'],[('spaces','ModuleSpace.normalize/denormalize'),('bounds','min_obs, max_obs, min_act, max_act')],observe=['Microgrid.run(normalized=True)','to_normalized/from_normalized','state_dict(normalized=True)'])
p('C10','The log is a faithful record of the episode',
  'The log has exactly one row per step taken since the last reset, indexed by the step numbers, and each row contains for every component the state in which the step was taken, the reward and the energy amounts that the step reported, together with the microgrid\'s totals. A reset starts an empty log, actions that were refused before acting leave no row, and reading the log in any form changes nothing.',
  ['histories','inputs','configurations'],'every history of steps, resets, refusals, changes of forecasters and reloads',
  'Tests compare lengths after one run; misaligned or missing rows need particular histories.',
  [B+'utils/logger.py',B+'modules/base/base_module.py',B+'microgrid/microgrid.py'],[('loggers','ModularLogger'),('frame','Microgrid.get_log')],observe=['Microgrid.get_log','log_dict'])
p('C11','A saved, loaded or pickled microgrid continues exactly like the original',
  'Saving a microgrid (as text or to a file with its data files) and loading it, or pickling and unpickling it, gives a microgrid of the same class that is equal to the original: same components with the same parameters and names, same state, clock, episode bounds and log. From then on it behaves as the original would have under the same controls, except that random forecasts may be drawn anew; saving and loading changes neither the original nor what other microgrids saved in the same place.',
  ['histories','inputs','configurations'],'every microgrid, every history before saving, every history after loading, several saves next to each other, including saves that are loaded later',
  'Tests save freshly built or briefly stepped microgrids and compare them; state kept only after particular histories (pending genset changes, partial charges, moved windows, logs) and continued behaviour are not exercised.',
  [B+'utils/serialize.py',B+'modules/base/base_module.py',B+'microgrid/microgrid.py',B+'utils/logger.py',B+'modules/genset_module.py',B+'modules/battery_module.py'],
  [('serialization','Microgrid.dump/load, BaseMicrogridModule.to_yaml/from_yaml/serializable_state_attributes'),('data files','utils/serialize.py')],
  [('serialized state attributes','what is saved of a component','serializable_state_attributes')],['Microgrid.dump/load','pickle','get_log','state_dict'])
p('C12','Microgrids are isolated from their inputs, their outputs and each other',
  'A microgrid only changes through calls on itself: modifying the arrays or component objects it was built from, or anything it returned (observations, infos, logs, states, actions, lists of components), or building, copying, stepping or resetting other microgrids and controllers derived from it, changes nothing about it. Conversely, using a microgrid never modifies the arguments it was given.',
  ['histories','inputs'],'every history of several microgrids, copies and controllers used in turn, with modifications of inputs and outputs at any point',
  'Tests use one object at a time and never modify what they passed in or got back; aliasing only shows in interleaved histories.',
  [B+'microgrid/microgrid.py',B+'modules/base/base_module.py',B+'modules/base/timeseries/base_timeseries_module.py',B+'modules/module_container.py',B+'utils/logger.py',B+'algos/rbc/rbc.py'],
  [('copies of modules','Microgrid.__init__'),('copies of series','time series modules'),('copies of logs','ModularLogger.to_dict/to_frame')],observe=['state_dict','get_log','Microgrid.run'])
p('C13','Priority lists and rule-based control serve the load in the stated order',
  'The offered priority lists are exactly the orders of all controllable sources, each once, with gensets on or off (on request without lists that turn off a genset that could run at zero). Deploying a list covers the net load (loads minus renewable power) element by element, each component giving (or, for an excess, taking) as much as it can in the coming step and no more, and the others following with what remains. The rule-based controller uses the list it was given, or one in order of increasing unit cost, for every step of an episode, on its own copy of the microgrid, and returns the log of that episode.',
  ['inputs','configurations','histories'],'every set of controllable components, every priority list, every state and net load',
  'Tests check a few lists on single-battery microgrids; the effect of a list depends on the limits of every component in the state that was reached.',
  [B+'algos/priority_list/priority_list.py',B+'algos/priority_list/priority_list_element.py',B+'algos/rbc/rbc.py',B+'envs/discrete/discrete.py'],
  [('enumeration','PriorityListAlgo.get_priority_lists'),('deployment','PriorityListAlgo._populate_action'),('controller','RuleBasedControl')],observe=['RuleBasedControl.run','DiscreteMicrogridEnv.step','actions_list'])
p('C14','Every component is found, once, under its name, category and number',
  'Every component given to a microgrid appears exactly once in each complete view of it, in one common order: by how it is controlled, then by whether it is a source, a sink or both, then by name, then in the order it was given. Views by category contain exactly the components of that category in that order, access by name gives the components of that name numbered in the order they were given, and components of different categories under one name are refused.',
  ['configurations','inputs'],'every list of components, named or not, in every order and multiplicity',
  'Tests use a few small fixed lists; order and grouping matter for repeated names and mixed categories.',
  [B+'modules/module_container.py',B+'microgrid/microgrid.py'],[('grouping','get_subcontainers'),('views','Container, ModuleContainer, ModuleList')],observe=['Microgrid.modules','Microgrid.fixed/flex/controllable','Microgrid.module_list','module.name'])
p('C15','Converting between old-style and modular microgrids keeps the microgrid',
  'A modular microgrid and the old-style (nonmodular) microgrid it is converted to, or a nonmodular one and the modular one it is converted to, describe the same microgrid: the same components with the same limits, efficiencies, prices and costs, the same load, PV, price, emission and outage series, the same battery charge and forecast horizon (one price for emissions: the mean where the components differ). The result starts at the first step and reports the values of that step, both conversions leave the original and the random number generator as they were, what is converted back can be stepped and has the figures it started with, and a modular microgrid that the old style cannot express (no load, several components of one type) is refused with an error.',
  ['configurations','inputs','histories'],'every microgrid of at most one component of each type with a load, PV and a grid or genset, at any point of its history, in both directions and back and forth',
  'Tests convert a few fixed generated microgrids and compare some parameters; a wrong sign, unit or row shows only for particular efficiencies, prices or outages.',
  [B+'convert/get_module.py',B+'convert/convert.py',B+'_deprecated/non_modular_microgrid.py',B+'microgrid/microgrid.py'],[('to modular','to_modular, get_module'),('to nonmodular','to_nonmodular, get_empty_params, add_params_from_module')],observe=['Microgrid.to_nonmodular','NonModularMicrogrid.to_modular','Microgrid.from_nonmodular'])
p('C16','Behaviour is repeatable and reading changes nothing',
  'The same construction and the same operations, with the same seed of the random number generator where forecasts are noisy, give exactly the same observations, rewards, infos and logs in every detail. Reading in between (states, logs, costs, limits, sampled or empty actions, textual forms, saving, copying) or using other microgrids makes no difference.',
  ['histories','inputs','configurations'],'every history, repeated with other reading calls in between',
  'Tests run a history once; hidden state shared between objects or updated by reads needs a repeated history to show.',
  [B+'microgrid/microgrid.py',B+'modules/base/base_module.py',B+'forecast/forecaster.py',B+'utils/logger.py'],[('state','modules and loggers'),('randomness','GaussianNoiseForecaster')],observe=['Microgrid.run','get_log','state_dict'])
p('C17','Changing forecasters takes effect at once and changes nothing else',
  'After forecasters are changed (for all components or by name; to a perfect, noisy, or no forecast; with any horizon), the very next state of each component concerned has forecasts of that kind and horizon and every other component is as before. Current values, stored energy, genset status, clock and log stay what they were, and steps, resets and logs continue correctly with states of the new shape.',
  ['histories','configurations'],'every forecaster kind and horizon, set at any point of any history, repeatedly',
  'Tests set a forecaster on a fresh microgrid and look at types; stale forecasts or shapes appear later in an episode.',
  [B+'microgrid/microgrid.py',B+'modules/base/timeseries/base_timeseries_module.py',B+'forecast/forecaster.py',B+'utils/logger.py'],[('setting','Microgrid.set_forecaster, BaseTimeSeriesMicrogridModule.set_forecaster'),('shape','state_dict, observation_space')],observe=['state_dict','Microgrid.run','get_log'])
p('C18','Model predictive control carries out the cheapest plan',
  'At every step of an episode, model predictive control does what some cheapest plan for the steps its forecasts show would do now, given the actual state: a plan serves the net load exactly with the battery, genset and grid within their limits (charge window, efficiency, power limits, minimum running production, outages) and otherwise curtails renewable power for free or loses load at its cost, and its cost is what the microgrid charges for it (imports and exports at the prices of each step, emissions at each component\'s own price, fuel, battery wear, lost load). What it decides is carried out as decided, from a reset of the microgrid to the end of the episode (or for as many steps as asked for), and the log of that episode is returned; creating the controller changes nothing.',
  ['inputs','configurations','histories'],'every microgrid with one load, one renewable source and at most one battery, genset (instant start and stop) and grid, with equal perfect forecasts and export prices not above import prices, every data set and initial state',
  'Tests run one fixed microgrid and look at the length of the log; a wrong sign, limit or index gives plausible but more expensive or impossible plans only for particular prices, outages and states.',
  [B+'algos/mpc/mpc.py'],[('problem','ModelPredictiveControl._create_problem, _set_parameters'),('state and forecasts','_get_modular_state_values'),('controls','_extract_modular_control, _run_mpc_on_modular')],observe=['ModelPredictiveControl.run','get_log'])
p('C19','Shaped rewards are the given function of what the step did',
  'With a reward shaping function a step returns what that function makes of the components\' reports of this step and their unit costs before it, and without one the sum of the components\' rewards; both the plain and the shaped total are logged. The shapers that come with the library return minus the curtailed power of all components called pv, and, within [-1, 1], the share of the load served by all components called battery minus the share that was lost (zero without load).',
  ['inputs','configurations','histories'],'every microgrid, step and shaping function',
  'No test uses the shapers; their sums depend on several components and on which of them provided or absorbed.',
  [B+'microgrid/reward_shaping/',B+'microgrid/utils/step.py',B+'microgrid/microgrid.py'],[('shaping','MicrogridStep.shaped_reward'),('shapers','PVCurtailmentShaper, BatteryDischargeShaper')],observe=['Microgrid.run','get_log'])
p('C20','Environments show and do exactly what their microgrid does',
  'The gym environments return as observation the normalized states of the components (or of the selected keys), flat in the order of the sorted names or nested by name, always inside their observation space; their actions are mapped one to one onto controls: a discrete action onto its priority list, a continuous one in [0, 1] onto the normalized controls of the components. Invalid actions are refused and change nothing; everything else (rewards, done, log, reset) is that of the microgrid.',
  ['inputs','configurations','histories'],'every microgrid, environment kind, flat or nested, with any selection of keys, every action sequence',
  'Tests check shapes and a few actions of one or two environments; which value ends up where and which component gets which number depends on names and counts.',
  [B+'envs/base/base.py',B+'envs/discrete/discrete.py',B+'envs/continuous/continuous.py'],[('observations','BaseMicrogridEnv.run/reset'),('actions','convert_action')],observe=['env.step','env.reset','observation_space','action_space'])
p('C21','Sampled actions are valid',
  'A sampled action has one entry for each controllable component (and on request for flexible ones), of the right size and within [0, 1]. Sampled with strict bounds it asks each component for no more than it can do in the coming step, so that it is carried out without being cut off or refused; the empty action has the same entries.',
  ['inputs','configurations','histories'],'every microgrid, state and random draw',
  'Tests draw a few actions in the initial state; limits are tight only in particular states (empty, full, outage, starting up).',
  [B+'modules/base/base_module.py',B+'modules/genset_module.py',B+'microgrid/microgrid.py'],[('sampling','sample_action of modules and Microgrid'),('empty action','Microgrid.get_empty_action')],observe=['Microgrid.sample_action','Microgrid.get_empty_action'])
p('C22','Benchmark microgrids load as they were published',
  'Each of the 25 benchmark microgrids loads, alone or with all others, always the same and none twice: a year of hourly values, one load, PV, battery and balancing component and a genset, a grid or both (a genset wherever the grid has outages), sized by the rules of the generator, with the tariffs of the hour of the day. From any point of the year it can be stepped with any controls and follows the rules of its components at its own, large, magnitudes.',
  ['inputs','histories'],'every number of the benchmark, every starting step, every sequence of controls',
  'Tests load a few of them and check that they can be stepped; values, rows and magnitudes are not looked at.',
  [B+'microgrid/microgrid.py',B+'MicrogridGenerator.py',B+'utils/serialize.py'],[('loading','Microgrid.from_scenario, MicrogridGenerator.load')],observe=['Microgrid.from_scenario','MicrogridGenerator.load'])
p('C23','Generated microgrids are reproducible and sized by the rules',
  'The microgrids that a generator makes depend only on its seed: the first n are the same whatever number is asked for, whether they are converted to modular ones or not, and wherever the data files lie. Each has a load with the drawn peak, PV with a peak of 30 to 150 % of it, a battery of 3 to 5 hours of mean load that charges and discharges in four hours and starts between its minimum and full, and a genset, a grid or both: a genset that serves the peak load at 90 % of its rated power, and always one if the grid has outages; a grid of twice the peak load with one of the two tariffs by hour of the day; series of 8760 hourly nonnegative values. The modular microgrid has the same figures as the old-style one.',
  ['inputs','configurations'],'every seed and number of microgrids',
  'Tests look at the types of what one seed generates; sizing and reproducibility depend on what is drawn.',
  [B+'MicrogridGenerator.py',B+'convert/get_module.py'],[('drawing and sizing','MicrogridGenerator._create_microgrid, _size_mg, _size_battery, _size_genset, _get_grid, _get_electricity_tariff')],observe=['MicrogridGenerator.generate_microgrid'])
p('C24','Old-style microgrids simulate the same physics',
  'In every step of a nonmodular (old-style) microgrid each request is carried out up to the limits of that step (battery power and remaining energy, genset range, grid limits and outages) and never negatively, PV covers what is left and the rest is curtailed, and what is still missing (left over) is recorded as lost load (overgeneration), so that energy balances. The charge changes by what flowed, with losses, and stays within bounds; costs and emissions are those of the flows at that step\'s prices and the total is their sum. What it reports next are the values of the following step, forecasts are the coming values of the series, every record has one row per step, the caller\'s controls are not modified, and the episode ends at the last step for which a full forecast exists; a reset (or a split into training and testing data) starts over at the first step of the data chosen with the initial charge and empty records.',
  ['inputs','configurations','histories'],'every old-style microgrid with or without battery, genset and grid, every sequence of controls, resets and splits',
  'Tests run a few steps of three generated microgrids; limits, outages and shortages need particular states and controls.',
  [B+'_deprecated/non_modular_microgrid.py'],[('step','NonModularMicrogrid.run, _check_control_dict, _record_production, _update_status, _record_cost, _record_co2'),('data','train_test_split, reset, forecast_*')],observe=['NonModularMicrogrid.run','get_updated_values','forecast_all','get_cost','get_co2'])
p('C25','Controllers of old-style microgrids decide and record correctly',
  'Model predictive control of a nonmodular (old-style) microgrid decides in every step, from the initial charge at the first step of the data in use on, what some cheapest plan for the coming steps (as many as its horizon) would do now, never charging and discharging at once; sample average approximation decides what such a plan for one of its samples would do, the current step being known. Rule-based control serves the load from PV, then the battery as far as it can, then the grid (the grid before the battery when selling pays more than buying back), and runs a genset when there is no grid and PV and battery cannot serve the load, its minimum first. Each covers all steps that have a full forecast, or as many as asked for, and returns one row of actions, flows, costs, emissions and status per step, which are those of the microgrid carrying out these actions; the microgrid itself stays as it was after a reset. Outputs compare by their total cost, viewing them does not change them, and the costs a benchmark describes are the sums over the part asked for. Samples have one row per row of data, no negative values and a grid that is on or off.',
  ['inputs','configurations','histories'],'every old-style microgrid with PV, a battery and a genset, a grid or both, every horizon, all series, charges, prices and outages',
  'No test runs a controller on an old-style microgrid for more than its length; whether a decision is the cheapest depends on all series, limits and prices at once.',
  [B+'algos/mpc/mpc.py',B+'algos/Control.py',B+'algos/rbc/_nonmodular_rbc.py',B+'algos/saa/saa.py',B+'utils/DataGenerator.py'],[('mpc','ModelPredictiveControl._run_mpc_on_sample, mpc_single_step, _extract_control_dict'),('rule','NonModularRuleBasedControl._run_priority_based, run_rule_based'),('samples','SampleAverageApproximation.run_mpc_on_group, SampleGenerator.sample_from_forecasts'),('outputs','ControlOutput, Benchmarks.describe_benchmarks')],observe=['Benchmarks.run_benchmarks','ModelPredictiveControl.run','SampleAverageApproximation.run_mpc_on_group','ControlOutput'])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
