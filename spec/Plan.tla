-------------------------------- MODULE Plan --------------------------------
(* The cheapest way to run a microgrid over a horizon: what model           *)
(* predictive control has to achieve.                                       *)
(*                                                                          *)
(* A microgrid with one load, one renewable, one battery, at most one       *)
(* genset that starts at once and at most one grid. The horizon is what the *)
(* state vectors v of the components show: the current step and the         *)
(* forecasts. For every amount b that the battery delivers, the best use of *)
(* genset, grid and renewable in a step follows from the merit order; the   *)
(* battery couples the steps, which dynamic programming over its charge     *)
(* takes care of. Charges are taken from a lattice; with integral limits    *)
(* and series and efficiencies of 1 or 1/2 it contains an optimal plan.     *)
EXTENDS Series

NoPlan == 100000000                      \* cost of what cannot be done

Has(mods, k) == \E i \in 1..Len(mods) : mods[i].k = k
Idx(mods, k) == CHOOSE i \in 1..Len(mods) : mods[i].k = k

Horizon(mods) == 1 + mods[Idx(mods, "load")].fc.h

(* The cost function describes the microgrid exactly.                       *)
Plannable(mods, v) ==
    LET b == mods[Idx(mods, "batt")] IN
    /\ b.eff \in {S, S \div 2} /\ b.fd = b.eff /\ b.fc = b.eff
    /\ (b.eff = S \/ b.ccyc = 0)
    /\ b.min % S = 0 /\ b.max % S = 0 /\ b.mch % S = 0 /\ b.mdis % S = 0
    /\ (Has(mods, "gen") =>
          LET g == mods[Idx(mods, "gen")] IN
          /\ g.up = 0 /\ g.down = 0 /\ g.ca = 0
          /\ g.rmin % S = 0 /\ g.rmax % S = 0
          /\ (b.eff # S => g.rmin = 0))
    /\ (Has(mods, "grid") =>
          LET i == Idx(mods, "grid") IN
          /\ mods[i].imp % S = 0 /\ mods[i].exp % S = 0
          /\ \A j \in 0..(Horizon(mods) - 1) :
               /\ v[i][4 * j + 2] <= v[i][4 * j + 1]        \* nobody sells dearer than he buys
               /\ v[i][4 * j + 4] \in {0, S})
    /\ \A k \in {"load", "ren"} :
          \A j \in 1..Horizon(mods) : v[Idx(mods, k)][j] % S = 0

\* cost of step j of the horizon in which the battery delivers b
StepCost(mods, v, j, b) ==
    LET L   == -v[Idx(mods, "load")][j]
        P   == v[Idx(mods, "ren")][j]
        D   == L - b
        gi  == Idx(mods, "grid")
        on  == Has(mods, "grid")
        imp == IF on THEN RDiv(mods[gi].imp * v[gi][4 * (j - 1) + 4], S) ELSE 0
        exp == IF on THEN RDiv(mods[gi].exp * v[gi][4 * (j - 1) + 4], S) ELSE 0
        ci  == IF on THEN v[gi][4 * (j - 1) + 1] + Mul(v[gi][4 * (j - 1) + 3], mods[gi].cco2) ELSE 0
        ce  == IF on THEN v[gi][4 * (j - 1) + 2] ELSE 0
        ni  == Idx(mods, "gen")
        gen == Has(mods, "gen")
        cg  == IF gen THEN mods[ni].cb + Mul(mods[ni].co2, mods[ni].cco2) ELSE 0
        cl  == mods[Idx(mods, "unb")].llc
        Best(M, X) ==                    \* M: must run, X: more on request
          LET lo == Max2(D, M)
              hi == D + exp
              s1 == IF cg <= ci THEN X ELSE imp
              k1 == IF cg <= ci THEN cg ELSE ci
              s2 == IF cg <= ci THEN imp ELSE X
              k2 == IF cg <= ci THEN ci ELSE cg
              Supply(T) ==
                LET r0 == T - M
                    r1 == r0 - Min2(r0, P)
                    x1 == Min2(r1, s1)
                    x2 == Min2(r1 - x1, s2)
                    ls == r1 - x1 - x2
                IN IF ls > L THEN NoPlan ELSE Mul(M, cg) + Mul(x1, k1) + Mul(x2, k2) + Mul(ls, cl)
          IN IF hi < lo THEN NoPlan
             ELSE MinOver({Supply(T) - Mul(T - D, ce) :
                           T \in {x \in {lo, hi, M + P, M + P + s1, M + P + s1 + s2} : lo <= x /\ x <= hi}})
    IN IF gen THEN Min2(Best(0, 0), Best(mods[ni].rmin, mods[ni].rmax - mods[ni].rmin)) ELSE Best(0, 0)

\* charges: the lattice and those that were observed
Charges(m, obs) ==
    LET u == IF m.eff = S THEN S ELSE S \div 2 IN
    {m.min + k * u : k \in 0..((m.max - m.min) \div u)} \cup obs

CanMove(m, c, d) == IF d <= c THEN c - d <= m.mdis ELSE d - c <= m.mch
Delivers(m, c, d) == IF d <= c THEN Mul(c - d, m.eff) ELSE -Div(d - c, m.eff)

(* Cost of the best plan for steps j, j+1, ... of the horizon, by charge.   *)
RECURSIVE BestFrom(_, _, _, _)
BestFrom(mods, v, A, j) ==
    IF j > Horizon(mods) THEN [c \in A |-> 0]
    ELSE LET m    == mods[Idx(mods, "batt")]
             rest == TLCEval(BestFrom(mods, v, A, j + 1))
             now  == TLCEval([b \in {Delivers(m, c, d) : c \in A, d \in A} |-> StepCost(mods, v, j, b)])
         IN TLCEval([c \in A |-> MinOver({now[Delivers(m, c, d)] + Mul(Abs(c - d), m.ccyc) + rest[d] :
                                          d \in {x \in A : CanMove(m, c, x)}})])

(* A step that leads from charge c to charge d at the given cost begins an  *)
(* optimal plan.                                                            *)
BeginsOptimalPlan(mods, v, c, d, cost) ==
    LET A == Charges(mods[Idx(mods, "batt")], {c, d})
        H == Horizon(mods)
    IN cost + BestFrom(mods, v, A, 2)[d] <= BestFrom(mods, v, A, 1)[c] + 8 + 6 * H
=============================================================================
