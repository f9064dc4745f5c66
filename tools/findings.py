"""Writes known_findings.json. Fixed entries suppress nothing; known entries name what identifies a failure."""
import json, os
FIXED = """
C03 7cac7fb a battery asked for exactly its remaining energy could end up outside its capacity bounds by rounding
C09 15cac38 the action bounds of batteries were swapped (min_act/max_act)
C09 bfe3543 normalized states of components with a single state entry failed
C11 2d1554d a loaded microgrid could not append to its log
C11 c7207ee a loaded microgrid showed the forecasts of the wrong step
C02 30e5291 asking a component to absorb more than it can failed with an AssertionError instead of a ValueError
C07 30644a5 stochastic trajectories failed or left the bounds
C14 e392036 components of different categories under one name were mixed up silently
C17 d5a9bec setting forecasters by name failed
C17 d9e59ef a changed forecaster took effect only in the next step and was not saved
C10 82e15ed the log had more than one row per step or misaligned rows
C21 3d9816a a genset ignored strict bounds when sampling actions
C08 59ff73f user forecasters that take one value at a time failed near the end of the series
C15 9106b5e converting to a nonmodular microgrid negated the load
C10 2a9b650 a discrete environment logged actions that it refused
C19 8e136d7 shapers ignored all but some components of a name
C04 eab5f18 the predicted status of a genset ignored allow_abortion=False
C11 2f53f37 components of the same class overwrote each other's data files
C20 3ab1b11 the continuous environment did not run
C04 7a58512 gensets that do not allow abortions never changed status
C10 dba7ecb logs with states of changing length failed
C07 90ee8ac the balancing component started at another step than the rest
C08 d907fc1 user forecasters failed for components with several columns
C12 cfe3fd8 as_flex/as_fixed changed all components of the class
C11 0d257c3 microgrids whose forecasters hold arrays could not be compared
C11 79ed992 microgrids saved next to each other shared data files
C11 bce2c30 loading changed values by rounding
C20 20cd461 nested observations lacked some of the selected keys
C19 2794010 the battery discharge shaper failed when batteries export or charge
C19 7a6d955 the battery discharge shaper returned nan without load
C10 83855de reading the last entry of a component's log (logger_last) failed
C12 57c30a1 writing to the lists that log_dict returns changed the log
C18 3c8c2e8 model predictive control planned imports and exports during outages of the grid
C18 9e5b939 model predictive control failed unless the battery was called 'battery'
C18 346b116 model predictive control priced the emissions of the grid at the mean of the grid's and the genset's cost
C18 8fcc05e model predictive control counted export revenue as a cost
C18 500c6e8 model predictive control planned with internal limits of a battery with losses as if they were external
C24 411b08a nonmodular microgrids without a grid charged the battery by what was asked for, not by what was carried out
C24 56cc19e nonmodular microgrids failed when the load was served exactly without any pv
C24 9f6b1ed nonmodular microgrids reported the grid of the third step after the first
C24 31a4ac5 nonmodular microgrids imported and exported during outages of the grid
C24 1b2d380 running a nonmodular microgrid added entries to the caller's controls
C24 91aa91f nonmodular microgrids did not record controls that were not given, so that records were misaligned
C24 902a5d0 nonmodular microgrids reported the wrong hour
C24 f1a5c0d resetting a nonmodular microgrid to its testing data reported values of the training data
C15 f5a9544 converting to a nonmodular microgrid reported values of the current step, but started at the first
C15 567a328 converting to a nonmodular microgrid lost the size of the load
C15 2fc81ac converting to a nonmodular microgrid reported the wrong energy that the battery can discharge
C15 c78beaa converting to a nonmodular microgrid reseeded the global random number generator
C15 91788db a nonmodular microgrid with a battery emptied to its minimum became a modular one that could not be stepped
C25 9766c90 comparing outputs of controls by cost failed
C25 719f670 showing the output of a control as a frame added nan to its records
C25 6a3f052 the rule based benchmark failed on nonmodular microgrids
C25 e443dc7 the rule based benchmark left out the last step, so that benchmarks could not be described together
C25 bfee6d3 rule based control lost load, or ran the genset at twice its minimum, when the minimum of the genset covered the load
C25 63cb383 sample average approximation recorded and used the load, pv and grid status of the step before
C25 dfe9f1c model predictive control of nonmodular microgrids asked to charge and discharge at once, so that more was generated than used
C23 2b916ac with the same seed, the generator made other microgrids on other file systems
"""
KNOWN = []
out = []
for line in FIXED.strip().splitlines():
    prop, commit, what = line.split(' ', 2)
    out.append(dict(status='fixed', property=prop, commit=commit, what=what, entry=f'fixed: property={prop} {commit} {what}'))
out += KNOWN
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w'), indent=1)
