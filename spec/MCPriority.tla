---------------------------- MODULE MCPriority ----------------------------
(* Every priority list in every state of a small microgrid (battery,        *)
(* generator, grid), for every demand, renewable power and outage.          *)
EXTENDS MicrogridOps, Json

CONSTANTS Demands, Suns, Eff, Up, RMin

U == S
Batt == [k |-> "batt", name |-> "battery", ffc |-> "controllable", min |-> 0, max |-> 3 * U, mch |-> 2 * U, mdis |-> 2 * U,
         eff |-> Eff, fd |-> Eff, fc |-> Eff, ccyc |-> 500, init |-> U]
Genr == [k |-> "gen", name |-> "genset", ffc |-> "controllable", rmin |-> RMin, rmax |-> 2 * U, ca |-> 0, cb |-> 3000,
         co2 |-> 2000, cco2 |-> 1000, up |-> Up, down |-> 0, abort |-> 1, init |-> 1]
Mods(row) ==
    << [k |-> "load", name |-> "load", ffc |-> "fixed", ts |-> << <<-(row[1] * U)>> >>],
       [k |-> "ren", name |-> "renewable", ffc |-> "flex", ts |-> << <<row[2] * U>> >>],
       Batt, Genr,
       [k |-> "grid", name |-> "grid", ffc |-> "controllable", imp |-> 2 * U, exp |-> U, cco2 |-> 1000,
        ts |-> << <<2000, 1000, 500, row[3] * S>> >>],
       [k |-> "unb", name |-> "balancing", ffc |-> "flex", llc |-> 10000, ogc |-> 2000] >>

VARIABLES charge, gen,      \* state of the components
          rw, list           \* the step under consideration (list = <<>>: none)
vars == <<charge, gen, rw, list>>

AllLists == ListsOf(Mods(<<0, 0, 1>>), {3, 4, 5}, 0)

Init == charge = Batt.init /\ gen = GenIdle(Genr, 1) /\ rw = <<0, 0, 1>> /\ list = <<>>

StOf == << [x |-> 0], [x |-> 0], [charge |-> charge], gen, [x |-> 0], [x |-> 0] >>

Choose == /\ list = <<>>
          /\ \E d \in Demands, u \in Suns, o \in {0, 1} : rw' = <<d, u, o>>
          /\ list' \in AllLists
          /\ UNCHANGED <<charge, gen>>

Take == /\ list # <<>>
        /\ LET mods == Mods(rw)
               req == TLCEval(PlanRequests(mods, StOf, 0, list))
               x == TLCEval(StepFlows(mods, StOf, 0, req))
               post == TLCEval(StepPost(mods, StOf, req, x))
           IN charge' = post[3].charge /\ gen' = post[4]
        /\ list' = <<>> /\ rw' = <<0, 0, 1>>
        /\ PrintT(<<"EDGE", ToJson(<< <<charge, gen>>, <<rw, list>>, <<charge', gen'>> >>)>>)
Next == Choose \/ Take
Spec == Init /\ [][Next]_vars

(* In every step:                                                           *)
Served ==
    list # <<>> =>
    LET mods == Mods(<<rw[1], rw[2], rw[3]>>)
        st   == TLCEval(StOf)
        req  == TLCEval(PlanRequests(mods, st, 0, list))
        x    == TLCEval(StepFlows(mods, st, 0, req))
        net  == (rw[1] - rw[2]) * U
        lim  == TLCEval([p \in 1..3 |-> NextLimits(mods, st, 0, list[p][1], list[p][2])])
        q    == TLCEval([p \in 1..3 |-> req[list[p][1]].q])
        Forced(p) == lim[p].lo > 0          \* a generator that runs gives at least its minimum
    IN /\ Len(mods) = 6 /\ Len(st) = 6 /\ Len(req) = 6          \* (makes TLC evaluate them here)
       \* what is asked for can be done
       /\ \A p \in 1..3 : list[p][1] # 4 => x[list[p][1]] = q[p]
       /\ \A p \in 1..3 : (list[p][1] = 4 /\ q[p] > 0) => x[4] = q[p]
       \* no one is deployed after someone who could have done more
       /\ \A a, b \in 1..3 : (a < b /\ net > 0 /\ q[a] >= 0 /\ q[a] < lim[a].hi) => (q[b] <= 0 \/ Forced(b))
       \* load is lost only if everyone on the list gives what it can
       /\ x[6] > 0 => \A p \in 1..3 : x[list[p][1]] = lim[p].hi \/ ~(net > 0)
       \* the load is served: exactly what was missing is provided, unless a generator has to give more
       /\ (net > 0 /\ \A p \in 1..3 : ~Forced(p)) =>
              q[1] + q[2] + q[3] = Min2(net, lim[1].hi + lim[2].hi + lim[3].hi)
       /\ (net < 0 /\ \A p \in 1..3 : ~Forced(p)) =>
              -(q[1] + q[2] + q[3]) = Min2(-net, lim[1].abs + lim[2].abs + lim[3].abs)
       \* bounds are kept
       /\ charge >= Batt.min /\ charge <= Batt.max

\* a list for every order of the three components and both requests to the generator
Enumeration == /\ Cardinality(AllLists) = 12
               /\ \A z \in AllLists : {z[p][1] : p \in 1..3} = {3, 4, 5}
=============================================================================
