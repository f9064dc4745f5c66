------------------------------ MODULE MCLegacy ------------------------------
(* An old-style microgrid (PV, battery, genset, grid) in all states it can  *)
(* reach in MaxSteps steps under all combinations of demand, sun, outage    *)
(* and controls from small sets, side by side with the modular microgrid it *)
(* converts to. In every step: energy balances, limits hold, and a step of  *)
(* the modular microgrid with the same flows as requests is the same step.  *)
EXTENDS Legacy, Json

CONSTANTS Demands, Suns, Eff, Flows, GenReqs, MaxSteps

U == S
P(row) == [batt |-> 1, gen |-> 1, grid |-> 1, h |-> 1,
           load |-> <<row[1] * U>>, pv |-> <<row[2] * U>>, st |-> <<row[3] * S>>, imp |-> <<2000>>, exp |-> <<1000>>, em |-> <<500>>,
           min |-> U, max |-> 4 * U, pch |-> 2 * U, pdis |-> 2 * U, eff |-> Eff, ccyc |-> 500, gmin |-> 2 * U, gmax |-> 3 * U,
           fuel |-> 3000, co2 |-> 2000, pimp |-> 2 * U, pexp |-> U, cll |-> 10000, cog |-> 2000, cco2 |-> 1000]

VARIABLES charge, k
vars == <<charge, k>>

Init == charge = 2 * U /\ k = 0

Holds(name, ok) == Assert(ok, name)

Checks(p, x, c, f, after) ==
    /\ Holds("C24 balance", LLoad(p, x) + f.bc + f.ge + LOver(p, x, f) = f.bd + f.gi + f.gen + LUsed(p, x, f) + LLost(p, x, f))
    /\ Holds("C24 one side", LLost(p, x, f) = 0 \/ LOver(p, x, f) = 0)
    /\ Holds("C24 loss", LLost(p, x, f) > 0 => LUsed(p, x, f) = LPv(p, x))
    /\ Holds("C24 overgeneration", LOver(p, x, f) > 0 => LUsed(p, x, f) = 0)
    /\ Holds("C24 bounds", (c.bc = 0 \/ c.bd = 0) => after >= p.min - 1 /\ after <= p.max + 1)
    /\ Holds("C24 outage", p.st[1] = 0 => f.gi = 0 /\ f.ge = 0)
    /\ Holds("C24 nonnegative", f.bc >= 0 /\ f.bd >= 0 /\ f.gi >= 0 /\ f.ge >= 0 /\ f.gen >= 0)
    /\ Holds("C24 genset", f.gen = 0 \/ (f.gen >= p.gmin /\ f.gen <= p.gmax))

\* the same step of the modular microgrid: load, balancing, PV, battery, genset, grid
Modular(p, x, f, after) ==
    LET mods == TLCEval(ToModular(p, x.charge))
        st   == << [x |-> 0], [x |-> 0], [x |-> 0], [charge |-> x.charge], GenIdle(mods[5], 1), [x |-> 0] >>
        none == [g |-> 0, q |-> 0]
        req  == << none, none, none, [g |-> 0, q |-> f.bd - f.bc], [g |-> (IF f.gen > 0 THEN S ELSE 0), q |-> f.gen],
                   [g |-> 0, q |-> f.gi - f.ge] >>
        y    == TLCEval(StepFlows(mods, st, 0, req))
        post == TLCEval(StepPost(mods, st, req, y))
        cost == LCosts(p, x, f)
    IN (/\ f.bc = 0 \/ f.bd = 0
        /\ f.gi = 0 \/ f.ge = 0
        /\ f.bd * S <= p.pdis * p.eff) =>
       /\ Holds("C15 flows", /\ y[4] = f.bd - f.bc /\ y[5] = f.gen /\ y[6] = f.gi - f.ge /\ y[3] = LUsed(p, x, f)
                             /\ y[2] = LLost(p, x, f) - LOver(p, x, f))
       /\ Holds("C15 charge", Near(post[4].charge, after, 1))
       /\ Holds("C15 cost", p.eff = S => Near(StepReward(mods, 0, y),
                -SumSeq(<<cost.loss, cost.over, cost.gen, cost.gi, cost.ge, cost.batt, cost.co2>>), 4))
       \* converting back gives the same parameters
       /\ Holds("C15 there and back", SameP(ToLegacy(mods), p))

Step(row, bc, bd, gi, ge, q) ==
    LET p == TLCEval(P(row))
        x == [lo |-> 0, n |-> 2, t |-> 0, charge |-> charge]
        c == [bc |-> bc * U, bd |-> bd * U, gi |-> gi * U, ge |-> ge * U, gen |-> q * U]
        f == TLCEval(LFlows(p, x, c))
        after == LAfter(p, x, f)
    IN /\ k < MaxSteps
       /\ Checks(p, x, c, f, after)
       /\ Modular(p, x, f, after)
       /\ charge' = Clamp(after, p.min, p.max) /\ k' = k + 1
       /\ PrintT(<<"EDGE", ToJson(<< <<charge, k>>, <<row, bc, bd, gi, ge, q, f>>, <<charge', k'>> >>)>>)

Next == \E d \in Demands, u \in Suns, st \in {0, 1}, bc \in Flows, bd \in Flows, gi \in Flows, ge \in Flows, q \in GenReqs :
            /\ bc = 0 \/ bd = 0 \/ gi = ge
            /\ Step(<<d, u, st>>, bc, bd, gi, ge, q)
Spec == Init /\ [][Next]_vars
=============================================================================
