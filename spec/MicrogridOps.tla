--------------------------- MODULE MicrogridOps ---------------------------
(* One step of a whole microgrid, as a function of its components, their    *)
(* states, the step number and the requests for controllable components.    *)
EXTENDS Components

(* Order of components. Components are grouped by category (how they are    *)
(* controlled, then whether they are sources, sinks or both), within a      *)
(* category by name, and within a name by the order in which they were      *)
(* given to the microgrid.                                                  *)
Roles == <<"source", "sink", "both">>

FirstOfName(mods, i) == \A j \in 1..(i - 1) : mods[j].name # mods[i].name

Concat(qs) == FlattenSeq(TLCEval(qs))

InCategory(mods, ffc, role) ==
    LET n == Len(mods)
        leads == TLCEval(SortSet({i \in 1..n : /\ mods[i].ffc = ffc /\ Kind3(mods[i]) = role
                                               /\ FirstOfName(mods, i)}))
    IN Concat([k \in 1..Len(leads) |-> SortSet({j \in 1..n : mods[j].name = mods[leads[k]].name})])

OrderOf(mods, ffc) == Concat([k \in 1..3 |-> InCategory(mods, ffc, Roles[k])])
ExecOrder(mods)    == OrderOf(mods, "fixed") \o OrderOf(mods, "flex") \o OrderOf(mods, "controllable")

\* number of component i among those of the same name, from 0
NumberOf(mods, i) == Cardinality({j \in 1..(i - 1) : mods[j].name = mods[i].name})

----------------------------------------------------------------------------
(* Requests. A request for a generator is [g |-> status, q |-> energy],     *)
(* for any other controllable component [g |-> 0, q |-> energy].            *)
PreStep(mods, st, req, i) ==
    IF mods[i].k = "gen" THEN GenUpdate(mods[i], st[i], GoalOf(req[i].g)) ELSE st[i]

\* net energy of fixed and controllable components
NetOf(mods, x) == SumSeq([i \in 1..Len(mods) |-> IF mods[i].ffc = "flex" THEN 0 ELSE x[i]])

(* Flexible components, in order: each takes as much of the excess (or      *)
(* provides as much of the shortage) as it can.                             *)
RECURSIVE FlexFlows(_, _, _, _, _, _)
FlexFlows(mods, st, t, order, net, acc) ==
    IF order = <<>> THEN acc
    ELSE LET i == Head(order)
             m == mods[i]
             x == IF net > 0
                  THEN IF IsSink(m) THEN -Min2(net, MaxCons(m, st[i], t)) ELSE 0
                  ELSE IF IsSource(m) THEN Min2(-net, MaxProd(m, st[i], t)) ELSE 0
         IN FlexFlows(mods, st, t, Tail(order), net + x, [acc EXCEPT ![i] = x])

StepFlows(mods, st0, t, req) ==
    LET n  == Len(mods)
        st == TLCEval([i \in 1..n |-> PreStep(mods, st0, req, i)])
        x0 == TLCEval([i \in 1..n |-> IF mods[i].ffc = "flex" THEN 0
                              ELSE Flow(mods[i], st[i], t, IF mods[i].ffc = "fixed" THEN 0 ELSE req[i].q)])
    IN FlexFlows(mods, st, t, OrderOf(mods, "flex"), NetOf(mods, x0), x0)

StepPost(mods, st0, req, x) ==
    [i \in 1..Len(mods) |-> PostState(mods[i], PreStep(mods, st0, req, i), x[i])]

Provided(x, I) == SumSeq([i \in 1..Len(x) |-> IF i \in I /\ x[i] > 0 THEN x[i] ELSE 0])
Absorbed(x, I) == SumSeq([i \in 1..Len(x) |-> IF i \in I /\ x[i] < 0 THEN -x[i] ELSE 0])
Cat(mods, ffc) == {i \in 1..Len(mods) : mods[i].ffc = ffc}

StepReward(mods, t, x) == SumSeq([i \in 1..Len(mods) |-> Reward(mods[i], t, x[i])])

----------------------------------------------------------------------------
(* Priority lists. An element <<i, a>> deploys component i; for a generator *)
(* a = 1 also requests it on and a = 0 off. The components are deployed in  *)
(* order, each as far as it can, to cover the net load: the loads minus the *)
(* available renewable power.                                               *)
Deployable(mods) == {i \in 1..Len(mods) : mods[i].ffc = "controllable" /\ IsSource(mods[i])}

NetLoad(mods, t) ==
    SumSeq([i \in 1..Len(mods) |->
        IF mods[i].ffc = "fixed" /\ mods[i].k = "load" THEN LoadAt(mods[i], t)
        ELSE IF mods[i].ffc = "flex" /\ mods[i].k = "ren" THEN -RenAt(mods[i], t) ELSE 0])

\* limits of component i in the coming step, if it is requested with a
NextLimits(mods, st, t, i, a) ==
    LET m == mods[i]
        s == IF m.k = "gen" THEN GenUpdate(m, st[i], a) ELSE st[i]
    IN [lo |-> MinProd(m, s, t), hi |-> MaxProd(m, s, t), abs |-> MaxCons(m, s, t)]

RECURSIVE Deploy(_, _, _, _, _, _)
Deploy(mods, st, t, pl, rem, acc) ==
    IF pl = <<>> THEN acc
    ELSE LET i   == Head(pl)[1]
             a   == Head(pl)[2]
             lim == NextLimits(mods, st, t, i, a)
             q   == IF rem = 0 THEN 0
                    ELSE IF rem > 0 THEN Clamp(rem, lim.lo, lim.hi)
                    ELSE IF IsSink(mods[i]) THEN -Min2(-rem, lim.abs) ELSE 0
         IN Deploy(mods, st, t, Tail(pl), rem - q, [acc EXCEPT ![i] = [g |-> a * S, q |-> q]])

PlanRequests(mods, st, t, pl) ==
    Deploy(mods, st, t, pl, NetLoad(mods, t), [i \in 1..Len(mods) |-> [g |-> 0, q |-> 0]])

(* All priority lists: every order of the deployable components, generators *)
(* on or off; on request without those that turn off a generator that could *)
(* as well run at zero.                                                     *)
Actions(mods, i, reduced) ==
    IF mods[i].k # "gen" THEN {0} ELSE IF reduced = 1 /\ mods[i].rmin = 0 THEN {1} ELSE {0, 1}

RECURSIVE ListsOf(_, _, _)
ListsOf(mods, I, reduced) ==
    IF I = {} THEN {<<>>}
    ELSE UNION {UNION {{<< <<i, a>> >> \o q : q \in ListsOf(mods, I \ {i}, reduced)}
                       : a \in Actions(mods, i, reduced)} : i \in I}

----------------------------------------------------------------------------
\* an episode that ends at step tf is over after the step before tf
StepDone(mods, t, tf) == (\E i \in 1..Len(mods) : IsTS(mods[i])) /\ t >= tf - 1
=============================================================================
