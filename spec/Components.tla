---------------------------- MODULE Components ----------------------------
(* The microgrid's components as pure functions: what a component may do    *)
(* given its parameters m, its state s and the step t, and what it does     *)
(* when it is asked for energy q (> 0: provide, < 0: absorb).               *)
(*                                                                          *)
(* Component kinds (m.k): "load", "ren", "batt", "gen", "grid", "unb".      *)
(* States:  batt [charge]; gen [cur, goal, up, down]; others [x |-> 0].     *)
(* Time series components carry m.ts, a sequence of rows; the row that is   *)
(* in force in step t (counted from 0) is m.ts[t+1].                        *)
EXTENDS Fix

IsSource(m) == m.k # "load"
IsSink(m)   == m.k \in {"load", "batt", "grid", "unb"}
IsTS(m)     == m.k \in {"load", "ren", "grid"}
Kind3(m)    == IF IsSource(m) /\ IsSink(m) THEN "both"
               ELSE IF IsSource(m) THEN "source" ELSE "sink"

InSeries(m, t) == t >= 0 /\ t < Len(m.ts)
Row(m, t)      == m.ts[t + 1]
LoadAt(m, t)   == IF InSeries(m, t) THEN Abs(Row(m, t)[1]) ELSE 0
RenAt(m, t)    == IF InSeries(m, t) THEN Row(m, t)[1] ELSE 0
StatusAt(m, t) == IF InSeries(m, t) THEN Row(m, t)[4] ELSE 0

----------------------------------------------------------------------------
(* Generator status: a change of status takes the start-up or wind-down     *)
(* time; it can be aborted unless the generator forbids that.               *)
GenIdle(m, x) == [cur |-> x, goal |-> x,
                  up |-> IF x = 1 THEN 0 ELSE m.up,
                  down |-> IF x = 1 THEN m.down ELSE 0]

GenInstant(m, g) == IF g = 1 THEN m.up = 0 ELSE m.down = 0

\* the status the generator works towards when status g is requested
GenTarget(m, s, g) ==
    IF s.goal # s.cur /\ m.abort = 0 /\ ~GenInstant(m, g) THEN s.goal ELSE g

GenUpdate(m, s, g) ==
    LET x == GenTarget(m, s, g) IN
    IF x = s.cur THEN GenIdle(m, s.cur)
    ELSE IF x = 1
         THEN IF s.up = 0 THEN GenIdle(m, 1) ELSE [s EXCEPT !.goal = 1, !.up = s.up - 1]
         ELSE IF s.down = 0 THEN GenIdle(m, 0) ELSE [s EXCEPT !.goal = 0, !.down = s.down - 1]

\* requested status: a number in [0,1], rounded (one half rounds to off)
GoalOf(x) == IF 2 * x > S THEN 1 ELSE 0

----------------------------------------------------------------------------
(* Instantaneous limits.                                                    *)
MaxProd(m, s, t) ==
    CASE m.k = "batt" -> Mul(Min2(m.mdis, s.charge - m.min), m.eff)
      [] m.k = "gen"  -> s.cur * m.rmax
      [] m.k = "grid" -> RDiv(m.imp * StatusAt(m, t), S)
      [] m.k = "ren"  -> RenAt(m, t)
      [] m.k = "unb"  -> INF
      [] m.k = "load" -> 0

MinProd(m, s, t) == IF m.k = "gen" THEN s.cur * m.rmin ELSE 0

MaxCons(m, s, t) ==
    CASE m.k = "batt" -> Div(Min2(m.mch, m.max - s.charge), m.eff)
      [] m.k = "grid" -> RDiv(m.exp * StatusAt(m, t), S)
      [] m.k = "load" -> LoadAt(m, t)
      [] m.k = "unb"  -> INF
      [] OTHER        -> 0

\* Energy that flows when q is requested: q, cut off at the limits.
Flow(m, s, t, q) ==
    IF m.k = "load" THEN -LoadAt(m, t)
    ELSE IF q >= 0 THEN Clamp(q, MinProd(m, s, t), MaxProd(m, s, t))
    ELSE -Min2(-q, MaxCons(m, s, t))

\* q is outside the limits by more than tol / by no less than -tol
Exceeds(m, s, t, q, tol) ==
    /\ m.k # "load"
    /\ IF q >= 0 THEN q > MaxProd(m, s, t) + tol \/ q < MinProd(m, s, t) - tol
                 ELSE -q > MaxCons(m, s, t) + tol
MayExceed(m, s, t, q, tol) ==
    /\ m.k # "load"
    /\ IF q >= 0 THEN q > MaxProd(m, s, t) - tol \/ q < MinProd(m, s, t) + tol
                 ELSE -q > MaxCons(m, s, t) - tol

----------------------------------------------------------------------------
(* Effect of a flow x (> 0 provided, < 0 absorbed) on the component.        *)

\* change of the energy stored in a battery; m.fd, m.fc: efficiency of
\* discharging and charging (both m.eff unless a transition model is given)
Internal(m, x) == IF x >= 0 THEN -Div(x, m.fd) ELSE Mul(-x, m.fc)

PostState(m, s, x) ==
    IF m.k = "batt" THEN [charge |-> s.charge + Internal(m, x)] ELSE s

Co2(m, t, x) ==
    CASE m.k = "gen"  -> Mul(x, m.co2)
      [] m.k = "grid" -> IF x > 0 /\ InSeries(m, t) THEN Mul(x, Row(m, t)[3]) ELSE 0
      [] OTHER        -> 0

Curtailment(m, t, x) == IF m.k = "ren" THEN RenAt(m, t) - x ELSE 0

\* fuel cost: m.ca + m.cb * production (m.ca = 0 for a constant unit cost)
Reward(m, t, x) ==
    CASE m.k = "batt" -> -Mul(Abs(Internal(m, x)), m.ccyc)
      [] m.k = "gen"  -> -(m.ca + Mul(x, m.cb) + Mul(Co2(m, t, x), m.cco2))
      [] m.k = "grid" -> IF ~InSeries(m, t) THEN 0
                         ELSE IF x >= 0 THEN -(Mul(x, Row(m, t)[1]) + Mul(Co2(m, t, x), m.cco2))
                         ELSE Mul(-x, Row(m, t)[2])
      [] m.k = "unb"  -> IF x >= 0 THEN -Mul(x, m.llc) ELSE -Mul(-x, m.ogc)
      [] OTHER        -> 0

\* unit costs that bound the rounding error of Reward
RewardTol(m, t) ==
    CASE m.k = "batt" -> 4 + RDiv(3 * m.ccyc, S)
      [] m.k = "gen"  -> 4 + RDiv(2 * (m.cb + m.cco2), S)
      [] m.k = "grid" -> 4 + IF InSeries(m, t) THEN RDiv(2 * (Row(m, t)[1] + Row(m, t)[2] + m.cco2), S) ELSE 0
      [] m.k = "unb"  -> 4 + RDiv(2 * (m.llc + m.ogc), S)
      [] OTHER        -> 0

\* cost per unit of energy provided / absorbed that the component reports
ProdCost(m, t) ==
    CASE m.k = "batt" -> m.ccyc
      [] m.k = "gen"  -> m.ca + m.cb + Mul(m.co2, m.cco2)
      [] m.k = "grid" -> IF InSeries(m, t) THEN Row(m, t)[1] ELSE 0
      [] m.k = "unb"  -> m.llc
      [] OTHER        -> 0
ConsCost(m, t) ==
    CASE m.k = "batt" -> m.ccyc
      [] m.k = "grid" -> IF InSeries(m, t) THEN Row(m, t)[2] ELSE 0
      [] m.k = "unb"  -> m.ogc
      [] OTHER        -> 0
=============================================================================
