---------------------------- MODULE MCMicrogrid ----------------------------
(* A small microgrid (load, renewable, battery, generator, grid, balancing  *)
(* component) in all states it can reach, under all combinations of demand, *)
(* renewable power, outage and requests from small sets. In every step, the *)
(* properties below are asserted; they are stated on flows and states and   *)
(* do not refer to how StepFlows works.                                     *)
EXTENDS MicrogridOps, Json

CONSTANTS Demands, Suns, Eff, Charges, Discharges, Exports, Imports, GenReqs, Up, Down

BattReqs == {-a : a \in Charges} \cup Discharges
GridReqs == {-a : a \in Exports} \cup Imports

U == S                       \* one unit of energy

Batt == [k |-> "batt", name |-> "battery", ffc |-> "controllable", raise |-> 0, min |-> U, max |-> 4 * U, mch |-> 2 * U,
         mdis |-> 2 * U, eff |-> Eff, fd |-> Eff, fc |-> Eff, ccyc |-> 500, init |-> 2 * U]
Genr == [k |-> "gen", name |-> "genset", ffc |-> "controllable", raise |-> 0, rmin |-> U, rmax |-> 2 * U, ca |-> 0, cb |-> 3000,
         co2 |-> 2000, cco2 |-> 1000, up |-> Up, down |-> Down, abort |-> 1, init |-> 1]

\* the components in the step described by row: <<demand, sun, grid status>>
Mods(row) ==
    << [k |-> "load", name |-> "load", ffc |-> "fixed", raise |-> 0, ts |-> << <<-(row[1] * U)>> >>],
       [k |-> "ren", name |-> "renewable", ffc |-> "flex", raise |-> 0, ts |-> << <<row[2] * U>> >>],
       Batt, Genr,
       [k |-> "grid", name |-> "grid", ffc |-> "controllable", raise |-> 0, imp |-> 2 * U, exp |-> U, cco2 |-> 1000,
        ts |-> << <<2000, 1000, 500, row[3] * S>> >>],
       [k |-> "unb", name |-> "balancing", ffc |-> "flex", raise |-> 0, llc |-> 10000, ogc |-> 2000] >>

VARIABLES charge, gen
vars == <<charge, gen>>

Init == charge = Batt.init /\ gen = GenIdle(Genr, Genr.init)

St  == << [x |-> 0], [x |-> 0], [charge |-> charge], gen, [x |-> 0], [x |-> 0] >>
Req(b, g, q, i) == << [g |-> 0, q |-> 0], [g |-> 0, q |-> 0], [g |-> 0, q |-> b], [g |-> g * S, q |-> q],
                      [g |-> 0, q |-> i], [g |-> 0, q |-> 0] >>

Holds(name, ok) == Assert(ok, name)

Checks(row, req, x, post) ==
    LET d == post[3].charge - charge
        net == -(x[1] + x[3] + x[4] + x[5])        \* what is left for renewable and balancing component
    IN
    /\ Holds("C01 balance", x[1] + x[2] + x[3] + x[4] + x[5] + x[6] = 0)
    /\ Holds("C02 load", x[1] = -(row[1] * U))
    /\ Holds("C02 sun", x[2] >= 0 /\ x[2] <= row[2] * U)
    /\ Holds("C02 outage", row[3] = 0 => x[5] = 0)
    /\ Holds("C02 grid", x[5] <= 2 * U /\ x[5] >= -U)
    /\ Holds("C02 honoured", (row[3] = 1 /\ req[5].q <= 2 * U /\ req[5].q >= -U) => x[5] = req[5].q)
    /\ Holds("C02 direction", x[3] * req[3].q >= 0 /\ Abs(x[3]) <= Abs(req[3].q))
    /\ Holds("C02 rates", d <= Batt.mch /\ -d <= Batt.mdis)
    /\ Holds("C03 bounds", post[3].charge >= Batt.min /\ post[3].charge <= Batt.max)
    /\ Holds("C03 losses", IF x[3] >= 0 THEN -d * Eff = x[3] * S ELSE d * S = -x[3] * Eff)
    /\ Holds("C03 full use", (Abs(x[3]) < Abs(req[3].q)) =>
                \/ post[3].charge \in {Batt.min, Batt.max} \/ d \in {Batt.mch, -Batt.mdis})
    /\ Holds("C04 off", post[4].cur = 0 => x[4] = 0)
    /\ Holds("C04 on", post[4].cur = 1 => x[4] >= Genr.rmin /\ x[4] <= Genr.rmax)
    /\ Holds("C06 curtailment", x[2] = Clamp(net, 0, row[2] * U))
    /\ Holds("C06 loss", x[6] > 0 => x[2] = row[2] * U)
    /\ Holds("C06 overgeneration", x[6] < 0 => x[2] = 0)
    /\ Holds("C05 no free lunch", StepReward(Mods(row), 0, x) <= Max2(0, -x[5]))

Step(row, b, g, q, i) ==
    LET mods == Mods(row)
        req  == Req(b * U, g, q * U, i * U)
        x    == TLCEval(StepFlows(mods, St, 0, req))
        post == TLCEval(StepPost(mods, St, req, x))
    IN /\ Checks(row, req, x, post)
       /\ charge' = post[3].charge /\ gen' = post[4]
       /\ PrintT(<<"EDGE", ToJson(<< <<charge, gen>>, <<row, b, g, q, i>>, <<charge', gen'>> >>)>>)

Next == \E d \in Demands, u \in Suns, st \in {0, 1}, b \in BattReqs, g \in {0, 1}, q \in GenReqs, i \in GridReqs :
            Step(<<d, u, st>>, b, g, q, i)
Spec == Init /\ [][Next]_vars
=============================================================================
