---------------------------- MODULE MCContainer ----------------------------
(* All sequences of up to MaxN named components: which of them are a        *)
(* microgrid, and the order, categories and numbers of the components.      *)
EXTENDS MicrogridOps, Json

CONSTANTS MaxN, Names

Kinds == {"load", "ren", "batt", "xbatt", "gen"}
Comp(k, n) == [k |-> IF k = "xbatt" THEN "batt" ELSE k, name |-> n,
               ffc |-> CASE k = "load" -> "fixed" [] k \in {"ren", "xbatt"} -> "flex" [] OTHER -> "controllable"]

VARIABLES q
Init == q = <<>>
Next == Len(q) < MaxN /\ \E k \in Kinds, n \in Names : q' = Append(q, <<k, n>>)
Spec == Init /\ [][Next]_q

Clash(mods) == \E i, j \in 1..Len(mods) : mods[i].name = mods[j].name /\ <<mods[i].ffc, Kind3(mods[i])>> # <<mods[j].ffc, Kind3(mods[j])>>

Check ==
    LET mods  == TLCEval([j \in 1..Len(q) |-> Comp(q[j][1], q[j][2])])
        order == TLCEval(ExecOrder(mods))
        n     == Len(q)
        Pos(i) == CHOOSE p \in 1..n : order[p] = i
        rank  == [fixed |-> 1, flex |-> 2, controllable |-> 3]
    IN Clash(mods) \/
       /\ Len(order) = n /\ {order[p] : p \in 1..n} = 1..n                        \* each once
       /\ \A p \in 1..(n - 1) : rank[mods[order[p]].ffc] <= rank[mods[order[p + 1]].ffc]  \* by category
       /\ \A i, j \in 1..n : (i < j /\ mods[i].name = mods[j].name) => Pos(i) < Pos(j)     \* in the order given
       /\ \A p, r \in 1..n : (p < r /\ mods[order[p]].name = mods[order[r]].name) =>       \* names are contiguous
              \A s \in p..r : mods[order[s]].name = mods[order[p]].name
       /\ Cardinality({<<mods[i].name, NumberOf(mods, i)>> : i \in 1..n}) = n              \* unique identity

Emitted == PrintT(<<"EDGE", ToJson(<<q, 0, 0>>)>>)
=============================================================================
