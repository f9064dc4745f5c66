------------------------------- MODULE Legacy -------------------------------
(* The old-style ("nonmodular") microgrid and the conversions between it    *)
(* and the modular one.                                                     *)
(*                                                                          *)
(* Parameters p of an old-style microgrid: which of battery, genset and     *)
(* grid there are (p.batt, p.gen, p.grid), series from step 0 on (load, pv, *)
(* and st, imp, exp, em: status, import and export price, emissions of the  *)
(* grid), limits and costs, and p.h, the number of steps that forecasts     *)
(* show, including the current one. Its state: the rows lo+1..lo+n of the   *)
(* series that are in use (all, or the part for training or testing), the   *)
(* step t in these, the charge and the hour of the day.                     *)
EXTENDS Series

HasKind(mods, k) == \E i \in 1..Len(mods) : mods[i].k = k
OfKind(mods, k)  == mods[CHOOSE i \in 1..Len(mods) : mods[i].k = k]

----------------------------------------------------------------------------
(* What happens in a step in which c is asked for: c.bc, c.bd charging and  *)
(* discharging, c.gi, c.ge import and export, c.gen the genset.             *)
LStat(p, x)   == p.st[x.lo + x.t + 1]
LLoad(p, x)   == p.load[x.lo + x.t + 1]
LPv(p, x)     == p.pv[x.lo + x.t + 1]

\* An old-style battery takes less than what fills it up, by the efficiency;
\* to take more than that but no more than what fills it up is fine as well.
LChargeSure(p, x) == Min2(p.pch, Max2(Mul(p.max - x.charge, p.eff), 0))
LChargeMost(p, x) == Min2(p.pch, Max2(Div(p.max - x.charge, p.eff), 0))
LDischarge(p, x)  == Min2(p.pdis, Max2(Mul(x.charge - p.min, p.eff), 0))

LGenset(p, q) == IF q <= 0 THEN 0 ELSE Min2(Max2(q, p.gmin), p.gmax)
LImport(p, x, q) == Min2(Max2(q, 0), RDiv(p.pimp * LStat(p, x), S))
LExport(p, x, q) == Min2(Max2(q, 0), RDiv(p.pexp * LStat(p, x), S))

\* what is left for the renewable, given the flows f that were observed
LNeed(p, x, f) == LLoad(p, x) + f.bc + f.ge - f.bd - f.gi - f.gen
LUsed(p, x, f) == Clamp(LNeed(p, x, f), 0, LPv(p, x))
LLost(p, x, f) == Max2(LNeed(p, x, f) - LPv(p, x), 0)
LOver(p, x, f) == Max2(-LNeed(p, x, f), 0)

LAfter(p, x, f) == x.charge + Mul(f.bc, p.eff) - Div(f.bd, p.eff)
LCo2(p, x, f)   == (IF p.gen = 1 THEN Mul(f.gen, p.co2) ELSE 0)
                   + (IF p.grid = 1 THEN Mul(f.gi, p.em[x.lo + x.t + 1]) ELSE 0)

\* components of the cost of a step
LCosts(p, x, f) ==
    [loss |-> Mul(LLost(p, x, f), p.cll), over |-> Mul(LOver(p, x, f), p.cog),
     gen  |-> IF p.gen = 1 THEN Mul(f.gen, p.fuel) ELSE 0,
     gi   |-> IF p.grid = 1 THEN Mul(f.gi, p.imp[x.lo + x.t + 1]) ELSE 0,
     ge   |-> IF p.grid = 1 THEN -Mul(f.ge, p.exp[x.lo + x.t + 1]) ELSE 0,
     batt |-> IF p.batt = 1 THEN Mul(f.bc + f.bd, p.ccyc) ELSE 0,
     co2  |-> Mul(LCo2(p, x, f), p.cco2)]
LCostTol(p) == 4 + RDiv(4 * (p.cll + p.cog + p.cco2), S)

LDone(p, x) == x.t = x.n - p.h \/ x.t = x.n - 1

\* the flows the specification gives for requests within the sure limits
LFlows(p, x, c) ==
    [bc |-> IF p.batt = 1 THEN Min2(Max2(c.bc, 0), LChargeSure(p, x)) ELSE 0,
     bd |-> IF p.batt = 1 THEN Min2(Max2(c.bd, 0), LDischarge(p, x)) ELSE 0,
     gi |-> IF p.grid = 1 THEN LImport(p, x, c.gi) ELSE 0,
     ge |-> IF p.grid = 1 THEN LExport(p, x, c.ge) ELSE 0,
     gen |-> IF p.gen = 1 THEN LGenset(p, c.gen) ELSE 0]

----------------------------------------------------------------------------
(* Rule-based control of an old-style microgrid with a battery: PV serves   *)
(* the load; what is left (or left over) is for the battery and then the    *)
(* grid, or, when selling pays more than buying back later costs, for the   *)
(* grid alone; a genset is for times without a grid and load that PV and    *)
(* battery cannot serve, and then its minimum comes first.                  *)
LOnline(p, x) == p.grid = 1 /\ LStat(p, x) = S
\* choices by comparison of numbers; both when they are equal up to rounding
Below(a, b, tol) == (IF a < b + tol THEN {TRUE} ELSE {}) \cup (IF a >= b - tol THEN {FALSE} ELSE {})
LBatteryFirst(p, x) == IF ~LOnline(p, x) THEN {TRUE}
                       ELSE Below(p.exp[x.lo + x.t + 1] * S, p.imp[x.lo + x.t + 1] * RDiv(p.eff * p.eff, S), 2 * S)
LMustRun(p, x)      == IF p.gen = 0 \/ LOnline(p, x) THEN {FALSE}
                       ELSE Below(LPv(p, x) + LDischarge(p, x), LLoad(p, x), 3)
LRule(p, x, must, first) ==
    LET L    == LLoad(p, x)
        dis  == LDischarge(p, x)
        M    == IF must THEN p.gmin ELSE 0
        D    == L - M                                      \* for the others
        r0   == Max2(D - LPv(p, x), 0)
        e0   == Max2(LPv(p, x) - D, 0)
        ch   == Min2(e0, LChargeMost(p, x))
        ds   == Min2(r0, dis)
    IN IF M > L THEN [bc |-> 0, bd |-> 0, gi |-> 0, ge |-> 0, gen |-> M]
       ELSE IF LOnline(p, x)
       THEN IF first
            THEN [bc |-> ch, bd |-> ds, gi |-> r0 - ds, ge |-> e0 - ch, gen |-> 0]
            ELSE [bc |-> 0, bd |-> 0, gi |-> r0, ge |-> e0, gen |-> 0]
       ELSE [bc |-> ch, bd |-> ds, gi |-> 0, ge |-> 0, gen |-> IF p.gen = 1 THEN r0 - ds + M ELSE 0]

----------------------------------------------------------------------------
(* Conversion of a modular microgrid: the same figures; it starts at the    *)
(* first step with the charge the battery has. There is one price for       *)
(* emissions: the mean. Start-up and wind-down times of gensets and the     *)
(* names of components are not kept.                                        *)
Column(m, c) == [j \in 1..Len(m.ts) |-> m.ts[j][c]]

Convertible(mods) ==
    /\ \A k \in {"load", "ren", "batt", "gen", "grid", "unb"} :
          Cardinality({i \in 1..Len(mods) : mods[i].k = k}) <= 1
    /\ HasKind(mods, "load")

ToLegacy(mods) ==
    LET b == HasKind(mods, "batt")
        g == HasKind(mods, "gen")
        u == HasKind(mods, "grid")
        B == OfKind(mods, "batt")
        G == OfKind(mods, "gen")
        U == OfKind(mods, "grid")
    IN [batt |-> B2I(b), gen |-> B2I(g), grid |-> B2I(u),
        load |-> [j \in 1..Len(OfKind(mods, "load").ts) |-> Abs(OfKind(mods, "load").ts[j][1])],
        pv   |-> Column(OfKind(mods, "ren"), 1),
        st   |-> IF u THEN Column(U, 4) ELSE <<>>, imp |-> IF u THEN Column(U, 1) ELSE <<>>,
        exp  |-> IF u THEN Column(U, 2) ELSE <<>>, em  |-> IF u THEN Column(U, 3) ELSE <<>>,
        min  |-> IF b THEN B.min ELSE 0, max |-> IF b THEN B.max ELSE 0,
        pch  |-> IF b THEN B.mch ELSE 0, pdis |-> IF b THEN B.mdis ELSE 0,
        eff  |-> IF b THEN B.eff ELSE S, ccyc |-> IF b THEN B.ccyc ELSE 0,
        gmin |-> IF g THEN G.rmin ELSE 0, gmax |-> IF g THEN G.rmax ELSE 0,
        fuel |-> IF g THEN G.cb ELSE 0, co2 |-> IF g THEN G.co2 ELSE 0,
        pimp |-> IF u THEN U.imp ELSE 0, pexp |-> IF u THEN U.exp ELSE 0,
        cll  |-> OfKind(mods, "unb").llc, cog |-> OfKind(mods, "unb").ogc,
        cco2 |-> IF g /\ u THEN RDiv(G.cco2 + U.cco2, 2) ELSE IF g THEN G.cco2 ELSE IF u THEN U.cco2 ELSE 0,
        h    |-> 1 + OfKind(mods, "load").fc.h]

\* ... and back: load, balancing, PV, battery, genset, grid, by these names
Oracle(p) == [k |-> "oracle", h |-> p.h - 1, sg |-> 0, inc |-> 0]
ToModular(p, charge) ==
    << [k |-> "load", name |-> "load", ffc |-> "fixed", raise |-> 0, fc |-> Oracle(p),
        ts |-> [j \in 1..Len(p.load) |-> <<-p.load[j]>>]],
       [k |-> "unb", name |-> "unbalanced_energy", ffc |-> "flex", raise |-> 0, llc |-> p.cll, ogc |-> p.cog],
       [k |-> "ren", name |-> "PV", ffc |-> "flex", raise |-> 0, fc |-> Oracle(p),
        ts |-> [j \in 1..Len(p.pv) |-> <<p.pv[j]>>]] >> \o
    (IF p.batt = 0 THEN <<>> ELSE
     << [k |-> "batt", name |-> "battery", ffc |-> "controllable", raise |-> 0, min |-> p.min, max |-> p.max,
         mch |-> p.pch, mdis |-> p.pdis, eff |-> p.eff, fd |-> p.eff, fc |-> p.eff, ccyc |-> p.ccyc, init |-> charge] >>) \o
    (IF p.gen = 0 THEN <<>> ELSE
     << [k |-> "gen", name |-> "genset", ffc |-> "controllable", raise |-> 0, rmin |-> p.gmin, rmax |-> p.gmax,
         ca |-> 0, cb |-> p.fuel, co2 |-> p.co2, cco2 |-> p.cco2, up |-> 0, down |-> 0, abort |-> 1, init |-> 1] >>) \o
    (IF p.grid = 0 THEN <<>> ELSE
     << [k |-> "grid", name |-> "grid", ffc |-> "controllable", raise |-> 0, imp |-> p.pimp, exp |-> p.pexp, cco2 |-> p.cco2,
         fc |-> Oracle(p), ts |-> [j \in 1..Len(p.st) |-> <<p.imp[j], p.exp[j], p.em[j], p.st[j]>>]] >>)

\* parameters that agree up to rounding
SameP(a, b) ==
    /\ \A f \in {"batt", "gen", "grid", "h"} : a[f] = b[f]
    /\ \A f \in {"load", "pv", "st", "imp", "exp", "em"} : SeqNear(a[f], b[f], 1)
    /\ \A f \in {"min", "max", "pch", "pdis", "eff", "ccyc", "gmin", "gmax", "fuel", "co2", "pimp", "pexp", "cll", "cog", "cco2"} :
          Near(a[f], b[f], 1)
NumFields(k) == CASE k = "batt" -> {"min", "max", "mch", "mdis", "eff", "ccyc", "init"}
                  [] k = "gen"  -> {"rmin", "rmax", "cb", "co2", "cco2", "up", "down", "init"}
                  [] k = "grid" -> {"imp", "exp", "cco2"}
                  [] k = "unb"  -> {"llc", "ogc"}
                  [] OTHER      -> {}
SameMods(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) :
          /\ a[i].k = b[i].k /\ a[i].name = b[i].name /\ a[i].raise = b[i].raise
          /\ \A f \in NumFields(a[i].k) : Near(a[i][f], b[i][f], 1)
          /\ IsTS(a[i]) => /\ a[i].fc.h = b[i].fc.h /\ Len(a[i].ts) = Len(b[i].ts)
                           /\ \A j \in 1..Len(a[i].ts) : SeqNear(a[i].ts[j], b[i].ts[j], 1)
=============================================================================
