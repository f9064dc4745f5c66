------------------------------- MODULE Trace -------------------------------
(* Validates executions of the implementation against the specification.    *)
(*                                                                          *)
(* The trace is a file of events recorded from the public interface of the  *)
(* library, one JSON object per line, from any number of microgrids at the  *)
(* same time (e.id). The state of the specification, W, maps each of them   *)
(* to what the specification knows about it. Every event is judged by named *)
(* clauses ("C05.reward"): the specification computes what has to follow    *)
(* from its state and the event's arguments and compares it with what was   *)
(* observed. After a violation, the specification adopts the observed state *)
(* and goes on, so that the whole trace is judged.                          *)
EXTENDS Plan, Legacy, Generator, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,     \* next line of the trace
          W      \* microgrid id -> record, see NewWorld

vars == <<l, W>>

TOL == 4         \* rounding of an energy that was computed from others

C(name, ok) == <<name, ok>>

StOf(m, v) ==
    CASE m.k = "batt" -> [charge |-> v[2]]
      [] m.k = "gen"  -> [cur |-> v[1], goal |-> v[2], up |-> v[3], down |-> v[4]]
      [] OTHER        -> [x |-> 0]

ShapeOK(mods, ms) ==
    /\ Len(ms) = Len(mods)
    /\ \A i \in 1..Len(mods) : Len(ms[i].s) = StateLen(mods[i])

Adopt(w, ms) == [w EXCEPT !.st = TLCEval([i \in 1..Len(w.mods) |-> StOf(w.mods[i], ms[i].s)]),
                          !.v  = TLCEval([i \in 1..Len(w.mods) |-> ms[i].s])]

----------------------------------------------------------------------------
(* Clauses about a state vector that was observed in step t.                *)
StateClauses(m, v, t) ==
    CASE m.k = "batt" ->
           << C("C03.soc", Near(v[1], RDiv(Clamp(v[2], -LIM, LIM) * S, m.max), 1 + RDiv(S, m.max))),
              C("C03.bounds", v[2] >= m.min /\ v[2] <= m.max) >>
      [] m.k = "gen" ->
           << C("C04.domain", /\ v[1] \in {0, 1} /\ v[2] \in {0, 1}
                              /\ v[3] \in 0..m.up /\ v[4] \in 0..m.down
                              /\ (v[1] = v[2] => v[3] = (1 - v[1]) * m.up /\ v[4] = v[1] * m.down)) >>
      [] IsTS(m) ->
           << C("C08.current", CurrentOK(m, t, v)),
              C("C08.forecast", ForecastsOK(m, t, v)) >>
      [] OTHER -> <<>>

\* normalized observation o of state v
ObsClauses(m, v, o) ==
    << C("C09.obs_len", Len(o) = Len(v)),
       C("C09.obs", Len(o) = Len(v) =>
            \A p \in 1..Len(v) :
               /\ NormOK(IF m.k = "gen" THEN v[p] * S ELSE v[p], o[p], ObsLow(m, p), ObsHigh(m, p))),
       C("C09.obs_unit", \A p \in 1..Len(o) : o[p] >= 0 /\ o[p] <= S) >>

ObservedClauses(w, e, t) ==
    Concat([i \in 1..Len(w.mods) |->
        StateClauses(w.mods[i], e.m[i].s, t) \o
        (IF "o" \in DOMAIN e.m[i] THEN ObsClauses(w.mods[i], e.m[i].s, e.m[i].o) ELSE <<>>) \o
        (IF "xb" \in DOMAIN e.m[i] THEN << C("C03.exact_bounds", e.m[i].xb = 1) >> ELSE <<>>)])

----------------------------------------------------------------------------
(* A microgrid comes into being: by construction, or as a copy of another.  *)
NewWorld(e) ==
    [mods |-> e.mods,
     st   |-> TLCEval([i \in 1..Len(e.mods) |-> StOf(e.mods[i], e.m[i].s)]),
     v    |-> TLCEval([i \in 1..Len(e.mods) |-> e.m[i].s]),
     t |-> e.t, i0 |-> e.i0, f0 |-> e.f0, tf |-> e.f0, lines |-> <<>>]

InitClauses(e) ==
    << C("C08.shape", ShapeOK(e.mods, e.m)) >> \o
    IF ~ShapeOK(e.mods, e.m) THEN <<>> ELSE
    << C("C07.initial_step", e.t = e.i0 /\ \A i \in 1..Len(e.mods) : e.m[i].t = e.i0),
       C("C07.initial_window", e.ri0 = e.i0 /\ e.rf0 = e.f0) >> \o
    Concat([i \in 1..Len(e.mods) |->
        LET m == e.mods[i]
            v == e.m[i].s IN
        StateClauses(m, v, e.t) \o
        (CASE m.k = "batt" -> << C("C03.initial", Near(v[2], m.init, 1)) >>
           [] m.k = "gen"  -> << C("C04.initial", StOf(m, v) = GenIdle(m, m.init)) >>
           [] OTHER -> <<>>)])

----------------------------------------------------------------------------
(* One step of a microgrid.                                                 *)
Requests(w, e) ==
    IF "pl" \in DOMAIN e THEN PlanRequests(w.mods, w.st, w.t, e.pl) ELSE
    [i \in 1..Len(w.mods) |->
        IF e.norm = 1 /\ w.mods[i].ffc = "controllable"
        THEN [e.req[i] EXCEPT !.q = Denorm(e.req[i].q, ActLow(w.mods[i]), ActHigh(w.mods[i]))]
        ELSE e.req[i]]

FlowOf(x) == IF x.hp = 1 THEN x.prov ELSE -x.abs

(* Reward shaping: what a step returns is computed by a function of what    *)
(* the components report and of their unit costs before the step. "pv":     *)
(* minus the curtailment of components called pv; "battery": the share of   *)
(* the load that came from components called battery, minus the share that  *)
(* was lost, in [-1, 1]; "cost": a function of the user, the energy at the unit costs.  *)
Named(w, name)       == {i \in 1..Len(w.mods) : w.mods[i].name = name}
SumNamed(w, e, name, f) ==
    SumSeq([i \in 1..Len(w.mods) |-> IF i \in Named(w, name) THEN e.m[i][f] ELSE 0])
ShapedOK(w, e) ==
    CASE e.shape = "pv" -> Near(e.reward, -SumNamed(w, e, "pv", "curt"), 2)
      [] e.shape = "battery" ->
            LET load == SumNamed(w, e, "load", "abs")
                got  == SumNamed(w, e, "battery", "prov") - SumNamed(w, e, "unbalanced_energy", "prov")
            IN IF load = 0 THEN e.raw = 0
               ELSE Near(RDiv(Clamp(e.raw, -2 * S, 2 * S) * load, S), Clamp(got, -load, load), 4 + RDiv(load, S))
      [] e.shape = "cost" ->
            Near(e.reward,
                 SumSeq([i \in 1..Len(w.mods) |-> Mul(e.m[i].prov, ProdCost(w.mods[i], w.t))
                                                  - Mul(e.m[i].abs, ConsCost(w.mods[i], w.t))]),
                 2 + SumSeq([i \in 1..Len(w.mods) |->
                       4 + RDiv(3 * (e.m[i].prov + e.m[i].abs), S)
                         + RDiv(ProdCost(w.mods[i], w.t) + ConsCost(w.mods[i], w.t), S)]))
      [] OTHER -> FALSE

StepClauses(w, e) ==
    LET mods == w.mods
        n    == Len(mods)
        t    == w.t
        rq   == TLCEval(Requests(w, e))
        plan == "pl" \in DOMAIN e
        tolq == IF plan THEN TOL + 2 * n ELSE IF e.norm = 1 THEN TOL + 2 ELSE TOL
        x    == TLCEval([i \in 1..n |-> FlowOf(e.m[i])])
        stp  == TLCEval([i \in 1..n |-> PreStep(mods, w.st, rq, i)])
        all  == 1..n
        prov == SumSeq([i \in 1..n |-> e.m[i].prov])
        abs  == SumSeq([i \in 1..n |-> e.m[i].abs])
        P(ffc) == SumSeq([i \in 1..n |-> IF mods[i].ffc = ffc THEN e.m[i].prov ELSE 0])
        A(ffc) == SumSeq([i \in 1..n |-> IF mods[i].ffc = ffc THEN e.m[i].abs ELSE 0])
        order == TLCEval(OrderOf(mods, "flex"))
        fx   == TLCEval(FlexFlows(mods, stp, t, order, NetOf(mods, x),
                          TLCEval([i \in 1..n |-> IF mods[i].ffc = "flex" THEN 0 ELSE x[i]])))
        Mod(i) ==
          LET m == mods[i]
              s == stp[i]
              r == e.m[i] IN
          << C("C01.once", r.hp + r.ha = 1),
             C("C02.nonneg", r.neg = 0),
             C("C02.role", (r.prov # 0 => IsSource(m)) /\ (r.abs # 0 => IsSink(m))),
             C("C07.clock", r.t = t + 1),
             C("C05.reward", Near(r.rew, Reward(m, t, x[i]), RewardTol(m, t))),
             C("C05.co2", Near(r.co2, Co2(m, t, x[i]), 4)),
             C("C06.curtailment", Near(r.curt, Curtailment(m, t, x[i]), 2)) >> \o
          (IF m.k # "unb" THEN << C("C02.limit_" \o m.k,
                                    /\ r.prov <= MaxProd(m, s, t) + TOL
                                    /\ r.prov >= MinProd(m, s, t) - TOL
                                    /\ r.abs <= MaxCons(m, s, t) + TOL) >> ELSE <<>>) \o
          (IF m.ffc = "controllable" /\ m.k # "gen" /\ Abs(rq[i].q) > tolq
           THEN << C("C02.side", IF rq[i].q > 0 THEN r.hp = 1 ELSE r.ha = 1) >> ELSE <<>>) \o
          (IF m.ffc # "flex"
           THEN << C(IF plan /\ m.k # "load" THEN "C13.dispatch" ELSE IF e.norm = 1 THEN "C09.run" ELSE IF m.k = "load" THEN "C02.load" ELSE "C02.clip",
                     Near(x[i], Flow(m, s, t, rq[i].q), tolq)) >>
           ELSE << C("C06.dispatch", Near(x[i], fx[i], TOL + n)) >>) \o
          (CASE m.k = "batt" ->
                  << C("C03.charge", Near(r.s[2], PostState(m, s, x[i]).charge, TOL)) >>
             [] m.k = "gen" ->
                  << C("C04.status", StOf(m, r.s) = s),
                     C("C04.off_means_zero", r.s[1] = 0 => r.prov = 0),
                     C("C04.on_means_running", r.s[1] = 1 => /\ r.prov >= m.rmin - TOL
                                                             /\ r.prov <= m.rmax + TOL) >>
             [] OTHER -> <<>>)
    IN
    << C("C01.balance", Abs(e.imb) <= 1 /\ Near(prov, abs, n + 2)),
       C("C01.infos", e.ninfo = n),
       C("C01.log_overall", Near(e.bal.op, prov, n + 2) /\ Near(e.bal.oa, abs, n + 2)),
       C("C01.log_fixed", Near(e.bal.fp, P("fixed"), n + 2) /\ Near(e.bal.fa, A("fixed"), n + 2)),
       C("C01.log_controllable", Near(e.bal.cp, P("controllable"), n + 2)
                                 /\ Near(e.bal.ca, A("controllable"), n + 2)),
       C("C05.total", Near(e.bal.rew, SumSeq([i \in 1..n |-> e.m[i].rew]), n + 2)),
       C("C05.returned", e.shaped = 1 \/ Near(e.reward, SumSeq([i \in 1..n |-> e.m[i].rew]), n + 2)),
       C("C05.shaped_log", Near(e.bal.srew, e.reward, 1)),
       C("C19.total_kept", e.shaped = 0 \/ Near(e.bal.rew, SumSeq([i \in 1..n |-> Reward(mods[i], t, x[i])]),
                                               SumSeq([i \in 1..n |-> RewardTol(mods[i], t)]) + 2)),
       C("C19.shaped", e.shaped = 0 \/ ShapedOK(w, e)),
       C("C19.logged", Near(e.bal.srew, e.reward, 1)),
       C("C19.plain", e.shaped = 1 \/ e.bal.srew = e.bal.rew),
       C("C07.step", e.t = t + 1),
       C("C07.done", e.done = B2I(StepDone(mods, t, w.tf))),
       C("C10.rows", e.nlog = Len(w.lines) + 1),
       C("C06.one_sided", ~\E i, j \in all : /\ mods[i].k = "unb" /\ mods[j].k = "unb"
                                              /\ x[i] > TOL /\ x[j] < -TOL),
       C("C06.loss_load_last",
         \A i \in all : (mods[i].k = "unb" /\ x[i] > TOL + n) =>
            \A k \in 1..Len(order) :
               LET j == order[k] IN
               (\E k2 \in (k + 1)..Len(order) : order[k2] = i) =>
                   x[j] >= MaxProd(mods[j], stp[j], t) - TOL - n),
       C("C06.overgeneration_last",
         \A i \in all : (mods[i].k = "unb" /\ x[i] < -(TOL + n)) =>
            \A j \in all : (mods[j].k = "ren" /\ mods[j].ffc = "flex") => x[j] <= TOL) >> \o
    Concat([i \in 1..n |-> Mod(i)]) \o
    ObservedClauses(w, e, t + 1)

----------------------------------------------------------------------------
(* A step of model predictive control: nothing it asks for is cut off, and  *)
(* it begins a plan of least cost over the horizon.                         *)
MpcClauses(w, e) ==
    LET bi == Idx(w.mods, "batt") IN
    IF ~Plannable(w.mods, w.v) THEN <<>> ELSE
    << C("C18.optimal", BeginsOptimalPlan(w.mods, w.v, w.v[bi][2], e.m[bi].s[2], -e.reward)) >> \o
    (IF w.mods[bi].eff # S THEN <<>> ELSE
     << C("C18.executable",
          \A i \in 1..Len(w.mods) : w.mods[i].ffc = "controllable" =>
             Near(FlowOf(e.m[i]), e.req[i].q, TOL)) >>)

----------------------------------------------------------------------------
(* A step that was refused with an error because of a component that must   *)
(* not be asked for more than it can do; or that should have been refused.  *)
Refusable(w, rq, stp, t, tol) ==
    \E i \in 1..Len(w.mods) :
        /\ w.mods[i].ffc = "controllable" /\ w.mods[i].raise = 1
        /\ MayExceed(w.mods[i], stp[i], t, rq[i].q, tol)
MustRefuse(w, rq, stp, t, tol) ==
    \E i \in 1..Len(w.mods) :
        /\ w.mods[i].ffc = "controllable" /\ w.mods[i].raise = 1
        /\ Exceeds(w.mods[i], stp[i], t, rq[i].q, tol)

RefusalClauses(w, e, refused) ==
    LET rq  == TLCEval(Requests(w, e))
        stp == TLCEval([i \in 1..Len(w.mods) |-> PreStep(w.mods, w.st, rq, i)])
    IN IF \A i \in 1..Len(w.mods) : w.mods[i].raise = 0 THEN <<>>
       ELSE IF refused THEN
            << C("C02.refused", e.exc = "ValueError" /\ Refusable(w, rq, stp, w.t, TOL)),
               C("C02.refusal_has_no_effect",
                 \A i \in 1..Len(w.mods) :
                    \* asked for too much: did not move. (A generator may have changed its status.)
                    (/\ w.mods[i].k = "batt" /\ w.mods[i].ffc = "controllable" /\ w.mods[i].raise = 1
                     /\ Exceeds(w.mods[i], stp[i], w.t, rq[i].q, TOL)) => e.m[i].s = w.v[i]) >>
       ELSE << C("C02.accepted", ~MustRefuse(w, rq, stp, w.t, TOL)) >>

\* without a balancing component the energy may not balance: the step must fail then
ImbalanceClauses(w, e, failed) ==
    IF \E i \in 1..Len(w.mods) : w.mods[i].k = "unb" THEN <<>>
    ELSE LET rq == TLCEval(Requests(w, e))
             x  == TLCEval(StepFlows(w.mods, w.st, w.t, rq))
             d  == Abs(SumSeq(x))
         IN IF failed THEN << C("C01.unbalanced_fails", e.exc = "RuntimeError" /\ d > 0) >>
            ELSE << C("C01.unbalanced_accepted", d <= TOL + Len(x)) >>

----------------------------------------------------------------------------
(* A new episode.                                                           *)
Window(w, e) ==
    CASE e.traj.k = "none"  -> e.t0 = w.i0 /\ e.tf = w.f0
      [] e.traj.k = "det"   -> e.t0 = e.traj.a /\ e.tf = e.traj.b
      [] e.traj.k = "stoch" -> w.i0 <= e.t0 /\ e.t0 < e.tf /\ e.tf <= w.f0
      [] e.traj.k = "len"   -> w.i0 <= e.t0 /\ e.tf = e.t0 + e.traj.a /\ e.tf <= w.f0
      [] OTHER -> FALSE

ResetClauses(w, e) ==
    << C("C07.window", Window(w, e)),
       C("C07.rewind", e.t = e.t0 /\ \A i \in 1..Len(w.mods) : e.m[i].t = e.t0),
       C("C07.same_steps", \A i \in 1..Len(w.mods) :
                              /\ e.m[i].i0 = e.t0
                              /\ IsTS(w.mods[i]) => e.m[i].f0 = e.tf),
       C("C07.bounds_kept", e.mi0 = w.i0 /\ e.mf0 = w.f0),
       C("C07.keeps_state", \A i \in 1..Len(w.mods) :
                              ~IsTS(w.mods[i]) => e.m[i].s = w.v[i]),
       C("C10.flushed", e.nlog = 0) >> \o
    ObservedClauses(w, e, e.t0)

(* The user moves the first or the last step of the episodes.               *)
WindowClauses(w, e) ==
    << C("C07.set_window", /\ e.ri0 = (IF e.i0 >= 0 THEN e.i0 ELSE w.i0)
                           /\ e.rf0 = (IF e.f0 >= 0 THEN e.f0 ELSE w.f0)),
       C("C07.set_window_keeps", e.t = w.t /\ \A i \in 1..Len(w.mods) : e.m[i].s = w.v[i] /\ e.m[i].t = w.t) >>

(* The user sets the charge of battery e.i.                                 *)
ChargeClauses(w, e) ==
    << C("C03.set_charge", Near(e.m[e.i].s[2], e.v, 1)),
       C("C12.others_keep", \A i \in 1..Len(w.mods) : i # e.i => e.m[i].s = w.v[i]) >> \o
    ObservedClauses(w, e, w.t)

(* The user changes the forecasters; fcs gives the forecasters from now on. *)
WithForecasters(w, fcs) ==
    [w EXCEPT !.mods = TLCEval([i \in 1..Len(w.mods) |->
        IF IsTS(w.mods[i]) THEN [w.mods[i] EXCEPT !.fc = fcs[i]] ELSE w.mods[i]])]

ForecastClauses(w, e) ==
    LET w2 == WithForecasters(w, e.fcs) IN
    << C("C17.shape", ShapeOK(w2.mods, e.m)) >> \o
    (IF ~ShapeOK(w2.mods, e.m) THEN <<>> ELSE
     << C("C17.current_kept", \A i \in 1..Len(w.mods) :
            IF IsTS(w.mods[i]) THEN \A c \in 1..Width(w.mods[i]) : e.m[i].s[c] = w.v[i][c]
            ELSE e.m[i].s = w.v[i]),
        C("C17.takes_effect", \A i \in 1..Len(w.mods) :
            IsTS(w2.mods[i]) => ForecastsOK(w2.mods[i], w.t, e.m[i].s)),
        C("C17.clock", e.t = w.t /\ \A i \in 1..Len(w.mods) : e.m[i].t = w.t),
        C("C17.log_kept", e.nlog = Len(w.lines)) >>)

(* The complete log: one row per step since the episode began, each what    *)
(* was observed when that step was taken.                                   *)
\* forecasts that did not exist in a step are logged as missing
MISSING == 100000000
RowStateOK(r, v) == /\ Len(r) >= Len(v)
                    /\ \A p \in 1..Len(r) : IF p <= Len(v) THEN Near(r[p], v[p], 1) ELSE r[p] = MISSING

LogClauses(w, e) ==
    LET L == w.lines
        n == Len(w.mods)
        RowOK(k) ==
           LET o == Trace[L[k][1]]
               pre == L[k][2]
           IN /\ \A i \in 1..n :
                   LET r == e.rows[k][i] IN
                   /\ Near(r.rew, o.m[i].rew, 1)
                   /\ Near(r.prov, o.m[i].prov, 1) /\ Near(r.abs, o.m[i].abs, 1)
                   /\ Near(r.curt, o.m[i].curt, 1) /\ Near(r.co2, o.m[i].co2, 1)
                   /\ RowStateOK(r.s, IF w.mods[i].k = "gen" THEN o.m[i].s ELSE pre[i])
              /\ \A f \in DOMAIN o.bal : Near(e.bal[k][f], o.bal[f], 1)
    IN << C("C10.length", e.n = Len(L)),
          C("C10.index", e.n > 0 => e.start = w.t - Len(L) /\ e.cont = 1),
          C("C10.module_logs", \A i \in 1..n : e.ml[i] = Len(L)),
          C("C10.rows_match", e.n = Len(L) => \A k \in 1..Len(L) : RowOK(k)) >>

(* A copy of a microgrid is in the same state, except that saving does not  *)
(* keep random forecasts: they may be drawn anew (e.redraw).                *)
SameState(m, t, v, v2, redraw) ==
    IF redraw = 1 /\ IsTS(m) /\ m.fc.k = "gauss"
    THEN (\A c \in 1..Width(m) : v[c] = v2[c]) /\ ForecastsOK(m, t, v2)
    ELSE v = v2

CopyClauses(w, e) ==
    << C(e.tag \o ".shape", ShapeOK(w.mods, e.m)) >> \o
    (IF ~ShapeOK(w.mods, e.m) THEN <<>> ELSE
     << C(e.tag \o ".state", \A i \in 1..Len(w.mods) : SameState(w.mods[i], w.t, w.v[i], e.m[i].s, e.redraw)),
        C(e.tag \o ".clock", e.t = w.t /\ \A i \in 1..Len(w.mods) : e.m[i].t = w.t),
        C(e.tag \o ".window", e.ri0 = w.i0 /\ e.rf0 = w.f0),
        C(e.tag \o ".log", e.nlog = Len(w.lines)),
        C(e.tag \o ".class", e.cls = 1),
        C(e.tag \o ".equal", e.equal = 1 \/
             (e.redraw = 1 /\ \E i \in 1..Len(w.mods) : IsTS(w.mods[i]) /\ w.mods[i].fc.k = "gauss")) >>)

(* What an environment shows: the normalized states of its components, in   *)
(* the order e.order, flattened (or e.pos: the entries that were selected). *)
EnvClauses(w, e) ==
    LET order == e.order
        sel == TLCEval(Concat([k \in 1..Len(order) |->
                 [p \in 1..Len(e.pos[order[k]]) |-> <<order[k], e.pos[order[k]][p]>>]]))
        Is(k, o) == LET m == w.mods[sel[k][1]]
                        p == sel[k][2]
                        v == w.v[sel[k][1]][p]
                    IN NormOK(IF m.k = "gen" THEN v * S ELSE v, o, ObsLow(m, p), ObsHigh(m, p))
        n == Len(sel)
    IN << C("C20.observation_length", Len(e.obs) = Len(sel)),
          \* the order of selected entries in a flat observation is left open
          C("C20.observation", Len(e.obs) = n =>
                IF e.bag = 0 THEN \A k \in 1..n : Is(k, e.obs[k])
                ELSE /\ \A k \in 1..n : \E j \in 1..n : Is(k, e.obs[j])
                     /\ \A j \in 1..n : \E k \in 1..n : Is(k, e.obs[j])),
          C("C20.in_space", e.inspace = 1) >>

(* The priority lists that are offered.                                     *)
ListClauses(w, e) ==
    << C("C13.lists", {e.lists[k] : k \in 1..Len(e.lists)} = ListsOf(w.mods, Deployable(w.mods), e.reduced)),
       C("C13.no_duplicates", Cardinality({e.lists[k] : k \in 1..Len(e.lists)}) = Len(e.lists)),
       C("C13.n_actions", e.n = Len(e.lists)) >>

(* The priority list of a rule based controller: the one that was given, or *)
(* one in which cheaper components come first.                              *)
PriorityClauses(w, e) ==
    << C("C13.complete", Len(e.pl) = Cardinality(Deployable(w.mods))
                         /\ {e.pl[k][1] : k \in 1..Len(e.pl)} = Deployable(w.mods)),
       C("C13.as_given", e.given # <<>> => e.pl = e.given),
       C("C13.cheapest_first", e.given = <<>> =>
            \A k \in 1..(Len(e.pl) - 1) :
               ProdCost(w.mods[e.pl[k][1]], w.t) <= ProdCost(w.mods[e.pl[k + 1][1]], w.t) + 3) >>

(* The views of a microgrid's components: each is the execution order,      *)
(* restricted to a category (a: how components are controlled, b: sources,  *)
(* sinks or both; "*": all).                                                *)
ViewOf(w, a, b) ==
    SelectSeq2(TLCEval(ExecOrder(w.mods)),
               {i \in 1..Len(w.mods) : /\ a \in {"*", w.mods[i].ffc}
                                        /\ b \in {"*", Kind3(w.mods[i])}})
NamesIn(w, order) ==
    LET f == {k \in 1..Len(order) : \A j \in 1..(k - 1) : w.mods[order[j]].name # w.mods[order[k]].name}
        ks == SortSet(f)
    IN [k \in 1..Len(ks) |-> w.mods[order[ks[k]]].name]

ContainerClauses(w, e) ==
    LET order == TLCEval(ExecOrder(w.mods)) IN
    << C("C14.count", e.n = Len(w.mods) /\ e.len = Len(w.mods)),
       C("C14.order", \A k \in 1..Len(e.orders) : e.orders[k] = order),
       C("C14.names", \A k \in 1..Len(e.names) : e.names[k] = NamesIn(w, order)),
       C("C14.views", \A k \in 1..Len(e.views) :
            LET q == e.views[k] IN q.l = ViewOf(w, q.a, q.b)),
       C("C14.by_name", \A k \in 1..Len(e.byname) :
            LET q == e.byname[k] IN
            q.l = SortSet({i \in 1..Len(w.mods) : w.mods[i].name = q.name})),
       C("C14.numbers", \A i \in 1..Len(w.mods) :
            e.ids[i] = <<w.mods[i].name, ToString(NumberOf(w.mods, i))>>),
       C("C14.membership", \A k \in 1..Len(e.member) :
            e.member[k].yes = B2I(\E i \in 1..Len(w.mods) : w.mods[i].name = e.member[k].name)) >>

\* two components of different categories cannot have the same name
NameClash(mods) == \E i, j \in 1..Len(mods) :
    /\ mods[i].name = mods[j].name
    /\ (mods[i].ffc # mods[j].ffc \/ Kind3(mods[i]) # Kind3(mods[j]))

(* A randomly sampled action: for every controllable component, in [0, 1],  *)
(* and if asked for within what the component can do in the coming step.    *)
SampleClauses(w, e) ==
    LET n == Len(w.mods)
        In(i) ==
          LET m == w.mods[i]
              s == IF m.k = "gen" THEN GenUpdate(m, w.st[i], GoalOf(e.a[i].g)) ELSE w.st[i]
              q == Denorm(e.a[i].q, ActLow(m), ActHigh(m))
              tol == TOL + RDiv(Spread(ActLow(m), ActHigh(m)), S)
          IN /\ q <= MaxProd(m, s, w.t) + tol
             /\ q >= (IF IsSink(m) THEN -MaxCons(m, s, w.t) ELSE MinProd(m, s, w.t)) - tol
    IN << C("C21.covers", \A i \in 1..n : e.a[i].has = B2I(w.mods[i].ffc = "controllable" \/
                                                     (e.flex = 1 /\ w.mods[i].k # "load"))),
          C("C21.unit", \A i \in 1..n : e.a[i].has = 1 =>
                e.a[i].g >= 0 /\ e.a[i].g <= S /\ e.a[i].q >= 0 /\ e.a[i].q <= S),
          C("C21.strict", e.strict = 1 => \A i \in 1..n : (e.a[i].has = 1 /\ w.mods[i].k # "unb") => In(i)) >>

(* Conversions to and from normalized form. x: one of several ways to       *)
(* convert; v, nv, bv: a state, its normalized form and that converted      *)
(* back; a, q, ba: a normalized action, its energy and that converted back. *)
Unscaled(m, x) == IF m.k = "gen" THEN x * S ELSE x
NormClauses(w, e) ==
    LET OneOK(x) ==
          LET m == w.mods[x.i] IN
          << C("C09.normalize", /\ Len(x.nv) = Len(x.v)
                                /\ \A p \in 1..Len(x.v) :
                                     NormOK(Unscaled(m, x.v[p]), x.nv[p], ObsLow(m, p), ObsHigh(m, p))),
             C("C09.obs_round_trip", SeqNear(x.v, x.bv, 1)) >> \o
          (IF m.ffc # "controllable" THEN <<>> ELSE
           << C("C09.denormalize", Near(x.q, Denorm(x.a, ActLow(m), ActHigh(m)), 3)),
              C("C09.act_round_trip", Near(x.a, x.ba, 1)),
              C("C09.act_bounds", Near(x.alo, ActLow(m), 1) /\ Near(x.ahi, ActHigh(m), 1)) >>) \o
          << C("C09.obs_bounds", /\ Len(x.olo) = Len(x.v) /\ Len(x.ohi) = Len(x.v)
                                 /\ \A p \in 1..Len(x.v) : /\ Near(Unscaled(m, x.olo[p]), ObsLow(m, p), 1)
                                                            /\ Near(Unscaled(m, x.ohi[p]), ObsHigh(m, p), 1)),
             C("C09.in_space", x.inside = 1) >>
    IN Concat([k \in 1..Len(e.x) |-> OneOK(e.x[k])])

(* Nothing has happened to this microgrid since it was last observed.       *)
SameClauses(w, e) ==
    << C(e.tag \o ".unchanged",
         /\ e.t = w.t
         /\ \A i \in 1..Len(w.mods) : e.m[i].s = w.v[i] /\ e.m[i].t = w.t),
       C(e.tag \o ".log_unchanged", e.nlog = Len(w.lines)) >>

(* Two observations that have to agree, and two that must not.              *)
TwinClauses(e) == << C(e.tag \o "." \o e.what, SeqNear(e.a, e.b, e.tol)) >>

(* Limits that a component reports.                                         *)
LimitClauses(w, e) ==
    Concat([i \in 1..Len(w.mods) |->
        LET m == w.mods[i]
            r == e.m[i] IN
        (IF IsSource(m) /\ m.k # "unb"
         THEN << C("C02.reported_max_production", Near(r.maxp, MaxProd(m, w.st[i], w.t), TOL)),
                 C("C02.reported_min_production", Near(r.minp, MinProd(m, w.st[i], w.t), TOL)) >> ELSE <<>>) \o
        (IF IsSink(m) /\ m.k # "unb"
         THEN << C("C02.reported_max_consumption", Near(r.maxc, MaxCons(m, w.st[i], w.t), TOL)) >> ELSE <<>>) \o
        << C("C05.reported_cost", /\ Near(r.pc, ProdCost(m, w.t), 3)
                                  /\ Near(r.ac, ConsCost(m, w.t), 3)) >> \o
        (IF m.k = "gen" THEN
           << C("C04.predicts", \A g \in {0, 1} :
                  LET nx == GenUpdate(m, w.st[i], g).cur IN
                  /\ r.nxt[g + 1] = nx
                  /\ Near(r.nmax[g + 1], nx * m.rmax, 1)
                  /\ Near(r.nmin[g + 1], nx * m.rmin, 1)) >> ELSE <<>>)])

----------------------------------------------------------------------------
(* Old-style microgrids. p: parameters; lo, n: the rows of the series that  *)
(* are in use; t, charge, hour: state; done; rows: steps recorded.          *)
LegacyWorld(p, charge) == [p |-> p, lo |-> 0, n |-> Len(p.load), t |-> 0, charge |-> charge, hour |-> 0, c0 |-> charge,
                           split |-> 0, rows |-> 0, done |-> 0]

\* what it reports about step x.t, at charge x.charge; loose: rounded to one digit
LStatusClauses(x, s, loose) ==
    LET p == x.p
        j == x.lo + x.t + 1
        tol == IF loose THEN 51 ELSE 1
    IN (IF x.t >= x.n THEN <<>> ELSE
        << C("C24.reports", Near(s.load, p.load[j], tol) /\ Near(s.pv, p.pv[j], tol)) >> \o
        (IF p.grid = 0 THEN <<>> ELSE
         << C("C24.reports_grid", /\ Near(s.st, p.st[j], 1) /\ Near(s.imp, p.imp[j], 1)
                                  /\ Near(s.exp, p.exp[j], 1) /\ Near(s.em, p.em[j], 1)) >>)) \o
       << C("C24.hour", s.hour = x.hour) >> \o
       (IF p.batt = 0 THEN <<>> ELSE
        << C("C24.charge", Near(s.charge, x.charge, 4)),
           C("C24.bounds", s.charge >= p.min - 1 /\ s.charge <= p.max + 1),
           C("C24.can_discharge", Near(s.ctd, Max2(Mul(s.charge - p.min, p.eff), 0), tol + 3)),
           C("C24.can_charge", /\ s.ctc >= Max2(Mul(p.max - s.charge, p.eff), 0) - tol - 3
                               /\ s.ctc <= Max2(Div(p.max - s.charge, p.eff), 0) + tol + 3) >>)

LForecastClauses(x, f) ==
    LET a == x.lo + x.t + 1
        b == x.lo + Min2(x.t + x.p.h, x.n)
    IN << C("C24.forecast", /\ SeqNear(f.load, SubSeq(x.p.load, a, b), 1)
                            /\ SeqNear(f.pv, SubSeq(x.p.pv, a, b), 1)
                            /\ x.p.grid = 1 => /\ SeqNear(f.st, SubSeq(x.p.st, a, b), 1)
                                              /\ SeqNear(f.imp, SubSeq(x.p.imp, a, b), 1)
                                              /\ SeqNear(f.exp, SubSeq(x.p.exp, a, b), 1)
                                              /\ SeqNear(f.em, SubSeq(x.p.em, a, b), 1)) >>

LStepClauses(x, e) ==
    LET p == x.p
        f == e.f
        c == e.c
        k == LCosts(p, x, f)
        tc == LCostTol(p)
        x2 == [x EXCEPT !.t = x.t + 1, !.hour = (x.hour + 1) % 24, !.charge = IF p.batt = 1 THEN LAfter(p, x, f) ELSE 0]
    IN (IF p.batt = 0 THEN <<>> ELSE
        << C("C24.charging", /\ f.bc >= Min2(Max2(c.bc, 0), LChargeSure(p, x)) - TOL
                             /\ f.bc <= Min2(Max2(c.bc, 0), LChargeMost(p, x)) + TOL),
           C("C24.discharging", Near(f.bd, Min2(Max2(c.bd, 0), LDischarge(p, x)), TOL)) >>) \o
       (IF p.grid = 0 THEN <<>> ELSE
        << C("C24.grid", Near(f.gi, LImport(p, x, c.gi), TOL) /\ Near(f.ge, LExport(p, x, c.ge), TOL)) >>) \o
       (IF p.gen = 0 THEN <<>> ELSE << C("C24.genset", Near(f.gen, LGenset(p, c.gen), TOL)) >>) \o
       << C("C24.balance", Near(LLoad(p, x) + f.bc + f.ge + f.over, f.bd + f.gi + f.gen + f.pv + f.loss, TOL + 4)),
          C("C24.renewable", Near(f.pv, LUsed(p, x, f), TOL + 3) /\ Near(f.pv + f.curt, LPv(p, x), 2)),
          C("C24.lost_load", Near(f.loss, LLost(p, x, f), TOL + 3)),
          C("C24.overgeneration", Near(f.over, LOver(p, x, f), TOL + 3)),
          C("C24.co2", Near(e.co2, LCo2(p, x, f), 6)),
          C("C24.costs", \A i \in DOMAIN k : Near(e.k[i], k[i], tc + 4)),
          C("C24.total_cost", Near(e.cost, SumSeq(<<e.k.loss, e.k.over, e.k.gen, e.k.gi, e.k.ge, e.k.batt, e.k.co2>>), 8)),
          C("C24.records", \A i \in 1..Len(e.lens) : e.lens[i] = x.rows + 1) >> \o
       LStatusClauses(x2, e.s, FALSE) \o
       (IF "algo" \in DOMAIN e THEN <<>> ELSE
        << C("C24.done", e.done = B2I(LDone(p, x))),
           C("C24.actions", \A i \in DOMAIN c : Near(e.a[i], c[i], 1)) >> \o
        (IF e.done = 1 THEN <<>> ELSE LForecastClauses(x2, e.fore)))

(* A controller decided e.c in state x, in view of the series e.view (for   *)
(* every sample: what it takes to be coming, from the current step on).     *)
LPlanMods(x) == [ToModular(x.p, x.charge) EXCEPT ![4].mch = Mul(x.p.pch, x.p.eff), ![4].mdis = Div(x.p.pdis, x.p.eff)]
LView(x, mods, y) ==
    [i \in 1..Len(mods) |->
       CASE mods[i].k = "load" -> [j \in 1..x.p.h |-> -y.load[j]]
         [] mods[i].k = "ren"  -> y.pv
         [] mods[i].k = "grid" -> [q \in 1..(4 * x.p.h) |->
              LET r == x.lo + x.t + 1 + (q - 1) \div 4 IN
              CASE q % 4 = 1 -> x.p.imp[r] [] q % 4 = 2 -> x.p.exp[r] [] q % 4 = 3 -> x.p.em[r]
                [] OTHER -> y.st[(q - 1) \div 4 + 1]]
         [] OTHER -> <<>>]
LTruth(x) ==
    LET a == x.lo + x.t + 1
        b == x.lo + x.t + x.p.h
    IN [load |-> SubSeq(x.p.load, a, b), pv |-> SubSeq(x.p.pv, a, b), st |-> IF x.p.grid = 1 THEN SubSeq(x.p.st, a, b) ELSE <<>>]
LOptimal(x, y, c) ==
    LET mods == TLCEval(LPlanMods(x))
        v    == TLCEval(LView(x, mods, y))
        k    == LCosts(x.p, x, c)
        u    == IF x.p.eff = S THEN S ELSE S \div 2
    IN (Plannable(mods, v) /\ x.charge % u \in {0, 1, u - 1}) =>      \* an old-style battery may be off the lattice
       BeginsOptimalPlan(mods, v, x.charge, x.charge + Mul(c.bc, x.p.eff) - Div(c.bd, x.p.eff),
                         k.loss + k.over + k.gen + k.gi + k.ge + k.batt + k.co2)
LControlClauses(x, e) ==
    CASE e.algo = "mpc" -> << C("C25.cheapest_plan", LOptimal(x, LTruth(x), e.c)) >> \o
                           (IF x.p.eff # S THEN <<>> ELSE << C("C25.as_decided", \A i \in DOMAIN e.c : Near(e.f[i], e.c[i], TOL)) >>)
      [] e.algo = "rbc" -> << C("C25.rule", \E must \in LMustRun(x.p, x), first \in LBatteryFirst(x.p, x) :
                                \A i \in DOMAIN e.c : Near(e.c[i], LRule(x.p, x, must, first)[i], TOL + 2)) >>
      [] e.algo = "saa" -> IF Len(e.views) = 0 THEN <<>> ELSE
                           << C("C25.plan_for_a_sample", \E i \in 1..Len(e.views) : LOptimal(x, e.views[i], e.c)) >>
      [] OTHER -> <<>>
LFresh(x) == [x EXCEPT !.t = 0, !.hour = 0, !.charge = x.c0, !.rows = 0, !.done = 0]
\* e.steps: asked for, or -1
LEndClauses(x, e) == << C("C25.all_steps", x.rows = IF e.steps >= 0 THEN e.steps ELSE x.n - x.p.h) >>
\* samples: every row plausible
LSampleClauses(x, e) ==
    << C("C25.sample_rows", \A i \in 1..Len(e.n) : e.n[i] = Len(x.p.load)),
       C("C25.sample_values", \A i \in 1..Len(e.min) : e.min[i] >= 0),
       C("C25.sample_grid", \A i \in 1..Len(e.st) : e.st[i] \in {0, S}) >>
\* costs of the last part of the records of controllers, as described (in hundredths)
Part(cost, a, b) == SumSeq(SubSeq(cost, a + 1, b))
LDescribeClauses(e) ==
    LET T == Len(e.costs[1])
        a == IF e.mode = "index" THEN e.at ELSE T - ((T * e.at) \div 100)
    IN << C("C25.described",
            /\ Len(e.said) = Len(e.costs) * (IF e.mode = "index" THEN 2 ELSE 1)
            /\ \A i \in 1..Len(e.costs) :
                 IF e.mode = "index"
                 THEN /\ Near(e.said[2 * i - 1], Part(e.costs[i], a, T), 6 + T)
                      /\ Near(e.said[2 * i], Part(e.costs[i], 0, a), 6 + T)
                 ELSE Near(e.said[i], Part(e.costs[i], a, T), 6 + T)) >>
LCompareClauses(e) ==
    LET a == SumSeq(e.a)
        b == SumSeq(e.b)
        n == Len(e.a) + Len(e.b)
    IN << C("C25.compared", /\ a < b - n => e.lt = 1 /\ e.gt = 0 /\ e.eq = 0
                            /\ a > b + n => e.lt = 0 /\ e.gt = 1 /\ e.eq = 0
                            /\ e.a = e.b => e.lt + e.gt + e.eq <= 1) >>

LStep(x, e) == [x EXCEPT !.t = IF e.done = 1 THEN x.t ELSE x.t + 1, !.hour = (x.hour + 1) % 24, !.charge = e.s.charge,
                         !.rows = x.rows + 1, !.done = e.done]

\* e.mode: "all", "training" or "testing" data from now on; e.lim: rows of training data
LResetTo(x, e) ==
    LET lim == e.lim
        all == Len(x.p.load)
    IN [x EXCEPT !.t = 0, !.hour = 0, !.charge = x.c0, !.rows = 0, !.done = 0,
                 !.lo = IF e.mode = "testing" THEN lim ELSE 0,
                 !.n  = IF e.mode = "testing" THEN all - lim ELSE IF e.mode = "training" THEN lim ELSE all]
LResetClauses(x, e) ==
    LET x2 == LResetTo(x, e) IN
    << C("C24.reset_done", e.done = 0),
       C("C24.reset_records", \A i \in 1..Len(e.lens) : e.lens[i] = 0),
       C("C24.split", e.mode = "all" \/ e.lim = (Len(x.p.load) * e.pct + 99) \div 100) >> \o
    LStatusClauses(x2, e.s, TRUE) \o LForecastClauses(x2, e.fore)

\* a modular microgrid W[e.from] was converted
LConvertClauses(w, e) ==
    LET p == ToLegacy(w.mods)
        c == IF p.batt = 1 THEN w.st[CHOOSE i \in 1..Len(w.mods) : w.mods[i].k = "batt"].charge ELSE 0
    IN << C("C15.to_nonmodular", SameP(e.p, p)),
          C("C15.original_unchanged", e.same = 1) >> \o
       LStatusClauses(LegacyWorld(p, c), e.s, TRUE) \o LForecastClauses(LegacyWorld(p, c), e.fore)
\* an old-style microgrid W[e.from] was converted
LModular(x, e) == [mods |-> ToModular(x.p, x.charge), m |-> e.m, t |-> e.t, i0 |-> 0, f0 |-> Len(x.p.load), ri0 |-> e.ri0, rf0 |-> e.rf0]
LBackClauses(x, e) ==
    << C("C15.to_modular", SameMods(e.got, ToModular(x.p, x.charge))) >> \o InitClauses(LModular(x, e))

\* a generated microgrid (or one of the benchmark); tag: property
MadeClauses(e) ==
    LET x == e.x IN
    << C(e.tag \o ".year", GYear(x)), C(e.tag \o ".load", GLoads(x) /\ GPeakIsSize(x)), C(e.tag \o ".pv", GPv(x)),
       C(e.tag \o ".battery", GBattery(x)), C(e.tag \o ".charge", GCharge(x)), C(e.tag \o ".genset", GGenset(x)),
       C(e.tag \o ".grid", GGrid(x)), C(e.tag \o ".costs", GCosts(x)), C(e.tag \o ".backup", GBackup(x)),
       C(e.tag \o ".prices", GPrices(x)) >>
\* ... and the modular microgrid that it became
MadeModularClauses(e) == << C("C23.modular", SameMods(e.got, ToModular(e.p, e.c0))) >>

----------------------------------------------------------------------------
Put(id, w) == [k \in (DOMAIN W) \cup {id} |-> IF k = id THEN w ELSE W[k]]

WShape(e) == ShapeOK(W[e.id].mods, e.m)

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "init"  -> InitClauses(e)
      [] e.ev = "step"  ->
            << C("C08.shape", WShape(e)) >> \o
            (IF WShape(e) THEN StepClauses(W[e.id], e) \o RefusalClauses(W[e.id], e, FALSE)
                               \o ImbalanceClauses(W[e.id], e, FALSE)
                               \o (IF "mpc" \in DOMAIN e THEN MpcClauses(W[e.id], e) ELSE <<>>) ELSE <<>>)
      [] e.ev = "refused" -> RefusalClauses(W[e.id], e, TRUE)
      [] e.ev = "imbalance" -> ImbalanceClauses(W[e.id], e, TRUE)
      [] e.ev = "reset" -> << C("C08.shape", WShape(e)) >> \o
                           (IF WShape(e) THEN ResetClauses(W[e.id], e) ELSE <<>>)
      [] e.ev = "snapshot" -> <<>>
      [] e.ev = "copy"  -> CopyClauses(W[e.from], e)
      [] e.ev = "log"   -> LogClauses(W[e.id], e)
      [] e.ev = "window" -> << C("C08.shape", WShape(e)) >> \o
                            (IF WShape(e) THEN WindowClauses(W[e.id], e) ELSE <<>>)
      [] e.ev = "forecast" -> ForecastClauses(W[e.id], e)
      [] e.ev = "charge" -> << C("C08.shape", WShape(e)) >> \o
                            (IF WShape(e) THEN ChargeClauses(W[e.id], e) ELSE <<>>)
      [] e.ev = "same"  -> << C("C08.shape", WShape(e)) >> \o
                           (IF WShape(e) THEN SameClauses(W[e.id], e) ELSE <<>>)
      [] e.ev = "container" -> ContainerClauses(W[e.id], e)
      [] e.ev = "clash" -> << C("C14.clash_refused", (e.exc = "NameError") <=> NameClash(e.mods)) >>
      [] e.ev = "sample" -> SampleClauses(W[e.id], e)
      [] e.ev = "norms" -> NormClauses(W[e.id], e)
      [] e.ev = "env" -> EnvClauses(W[e.id], e)
      [] e.ev = "lists" -> ListClauses(W[e.id], e)
      [] e.ev = "priority" -> PriorityClauses(W[e.id], e)
      [] e.ev = "twin"  -> TwinClauses(e)
      [] e.ev = "limits" -> LimitClauses(W[e.id], e)
      [] e.ev = "linit" -> LStatusClauses(LegacyWorld(e.p, e.c0), e.s, FALSE) \o LForecastClauses(LegacyWorld(e.p, e.c0), e.fore)
      [] e.ev = "lstep" -> LStepClauses(W[e.id], e) \o (IF "algo" \in DOMAIN e THEN LControlClauses(W[e.id], e) ELSE <<>>)
      [] e.ev = "lstart" -> LStatusClauses(LFresh(W[e.from]), e.s, TRUE)
      [] e.ev = "lend" -> LEndClauses(W[e.id], e)
      [] e.ev = "lsamples" -> LSampleClauses(W[e.id], e)
      [] e.ev = "ldescribe" -> LDescribeClauses(e)
      [] e.ev = "lcompare" -> LCompareClauses(e)
      [] e.ev = "lreset" -> LResetClauses(W[e.id], e)
      [] e.ev = "lconvert" -> LConvertClauses(W[e.from], e)
      [] e.ev = "lrefused" -> << C("C15.refused", (e.exc = "none") <=> Convertible(W[e.from].mods)) >>
      [] e.ev = "lback" -> LBackClauses(W[e.from], e)
      [] e.ev = "made" -> MadeClauses(e)
      [] e.ev = "mademod" -> MadeModularClauses(e)
      [] e.ev = "exc"   -> << C("ANY.unexpected_exception", FALSE) >>
      [] OTHER -> << C("ANY.unknown_event", FALSE) >>

NextW(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "init"  -> IF ShapeOK(e.mods, e.m) THEN Put(e.id, NewWorld(e)) ELSE W
      [] e.ev = "snapshot" -> Put(e.id, W[e.from])
      [] e.ev = "copy"  -> Put(e.id, IF ShapeOK(W[e.from].mods, e.m) THEN Adopt(W[e.from], e.m) ELSE W[e.from])
      [] e.ev = "step"  ->
            IF WShape(e)
            THEN Put(e.id, [Adopt(W[e.id], e.m) EXCEPT !.t = e.t,
                              !.lines = Append(W[e.id].lines, <<l, W[e.id].v>>)])
            ELSE W
      [] e.ev = "linit" -> Put(e.id, LegacyWorld(e.p, e.c0))
      [] e.ev = "lstep" -> Put(e.id, LStep(W[e.id], e))
      [] e.ev = "lstart" -> Put(e.id, LFresh(W[e.from]))
      [] e.ev = "lreset" -> Put(e.id, LResetTo(W[e.id], e))
      [] e.ev = "lconvert" ->
            LET w == W[e.from]
                p == TLCEval(ToLegacy(w.mods)) IN
            Put(e.id, LegacyWorld(p, IF p.batt = 1 THEN w.st[CHOOSE i \in 1..Len(w.mods) : w.mods[i].k = "batt"].charge ELSE 0))
      [] e.ev = "lback" ->
            LET e2 == LModular(W[e.from], e) IN
            IF ShapeOK(e2.mods, e.m) THEN Put(e.id, NewWorld(e2))
            ELSE Put(e.id, NewWorld([e2 EXCEPT !.mods = e.got]))
      [] e.ev = "window" ->
            Put(e.id, [W[e.id] EXCEPT !.i0 = IF e.i0 >= 0 THEN e.i0 ELSE @,
                                      !.f0 = IF e.f0 >= 0 THEN e.f0 ELSE @,
                                      !.tf = IF e.f0 >= 0 THEN e.f0 ELSE @])
      [] e.ev = "forecast" ->
            LET w2 == WithForecasters(W[e.id], e.fcs) IN
            Put(e.id, IF ShapeOK(w2.mods, e.m) THEN Adopt(w2, e.m) ELSE w2)
      [] e.ev = "charge" -> IF WShape(e) THEN Put(e.id, Adopt(W[e.id], e.m)) ELSE W
      [] e.ev = "reset" ->
            IF WShape(e)
            THEN Put(e.id, [Adopt(W[e.id], e.m) EXCEPT !.t = e.t, !.tf = e.tf, !.lines = <<>>])
            ELSE W
      [] OTHER -> W

(* Judgements are made by an invariant and not in the action: TLC caches    *)
(* the values of definitions only when it evaluates state predicates.       *)
CountNames(cl) ==
    LET cnt   == TLCGet(1)
        names == {cl[i][1] : i \in 1..Len(cl)} IN
    [k \in DOMAIN cnt \cup names |->
        (IF k \in DOMAIN cnt THEN cnt[k] ELSE 0) +
        Cardinality({i \in 1..Len(cl) : cl[i][1] = k})]

Judge ==
    IF l > Len(Trace)
    THEN PrintT(<<"COUNTS", ToJson(TLCGet(1))>>) /\ PrintT(<<"CONSUMED", l - 1>>)
    ELSE LET cl == TLCEval(Clauses(Trace[l])) IN
         /\ \A i \in 1..Len(cl) : IF cl[i][2] THEN TRUE ELSE PrintT(<<"FAIL", l, cl[i][1]>>)
         /\ TLCSet(1, CountNames(cl))

TraceInit == l = 1 /\ W = <<>> /\ TLCSet(1, <<>>)

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ W' = NextW(Trace[l])

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
