---------------------------- MODULE MCDispatch ----------------------------
(* All sequences of up to MaxN flexible components (renewables, batteries   *)
(* and grids that balance by themselves, in all their states), followed by  *)
(* the balancing component, for every net demand: how the remainder is      *)
(* shared. Every transition is one step of one such microgrid.              *)
EXTENDS MicrogridOps, Json

CONSTANTS MaxN, Demands, Imports

Kinds == {"ren0", "ren2", "bat0", "bat1", "bat2", "net0", "net1"}

Unit(k, n) ==
    CASE k = "ren0" -> [k |-> "ren", name |-> "r" \o n, ffc |-> "flex", ts |-> << <<0>> >>]
      [] k = "ren2" -> [k |-> "ren", name |-> "r" \o n, ffc |-> "flex", ts |-> << <<2000>> >>]
      [] k \in {"bat0", "bat1", "bat2"} ->
            [k |-> "batt", name |-> "b" \o n, ffc |-> "flex", min |-> 0, max |-> 2000, mch |-> 2000, mdis |-> 2000,
             eff |-> 500, fd |-> 500, fc |-> 500, ccyc |-> 100,
             init |-> CASE k = "bat0" -> 0 [] k = "bat1" -> 1000 [] OTHER -> 2000]
      [] OTHER ->
            [k |-> "grid", name |-> "g" \o n, ffc |-> "flex", imp |-> 1000, exp |-> 2000, cco2 |-> 0,
             ts |-> << <<500, 200, 0, IF k = "net1" THEN 1000 ELSE 0>> >>]

VARIABLES ks,      \* the kinds of the flexible components
          d, i     \* demand and request to the feed (-1: not yet chosen)
vars == <<ks, d, i>>

Init == ks = <<>> /\ d = -1 /\ i = -1

Grow == /\ Len(ks) < MaxN /\ d = -1
        /\ \E k \in Kinds : ks' = Append(ks, k)
        /\ UNCHANGED <<d, i>>

Step == /\ ks # <<>> /\ d = -1
        /\ d' \in Demands /\ i' \in Imports /\ ks' = ks

Next == Grow \/ Step
Spec == Init /\ [][Next]_vars

n == Len(ks)
Mods ==
    << [k |-> "load", name |-> "load", ffc |-> "fixed", ts |-> << <<-d * S>> >>],
       [k |-> "grid", name |-> "feed", ffc |-> "controllable", imp |-> 9000, exp |-> 0, cco2 |-> 0,
        ts |-> << <<1000, 0, 0, 1000>> >>] >>
    \o [j \in 1..n |-> Unit(ks[j], ToString(j))]
    \o << [k |-> "unb", name |-> "balancing", ffc |-> "flex", llc |-> 10000, ogc |-> 2000] >>

StateOf(m) == IF m.k = "batt" THEN [charge |-> m.init] ELSE [x |-> 0]
Holds(name, ok) == Assert(ok, name)

\* an invariant, so that TLC evaluates the definitions once
Check ==
    d >= 0 =>
    LET mods == TLCEval(Mods)
        N    == Len(mods)
        st   == TLCEval([j \in 1..N |-> StateOf(mods[j])])
        req  == [j \in 1..N |-> [g |-> 0, q |-> IF j = 2 THEN i * S ELSE 0]]
        x    == TLCEval(StepFlows(mods, st, 0, req))
        net  == x[1] + x[2]                        \* > 0: excess
        flex == 3..N
        order == TLCEval(OrderOf(mods, "flex"))
        cap  == TLCEval([j \in 1..N |-> IF j \notin flex THEN 0
                                         ELSE IF net > 0 THEN MaxCons(mods[j], st[j], 0) ELSE MaxProd(mods[j], st[j], 0)])
    IN /\ Holds("balance", SumSeq(x) = 0)
       /\ Holds("one direction", \A j \in flex : IF net > 0 THEN x[j] <= 0 ELSE x[j] >= 0)
       /\ Holds("within limits", \A j \in flex : Abs(x[j]) <= cap[j])
       \* whoever follows a component that could do more does nothing
       /\ Holds("in order", \A p, q \in 1..Len(order) :
                (p < q /\ Abs(x[order[p]]) < cap[order[p]]) => x[order[q]] = 0)
       /\ Holds("last resort", x[N] # 0 => \A p \in 1..Len(order) :
                (\E q \in (p + 1)..Len(order) : order[q] = N) => Abs(x[order[p]]) = cap[order[p]])
       /\ PrintT(<<"EDGE", ToJson(<<ks, <<d, i>>, x>>)>>)

=============================================================================
