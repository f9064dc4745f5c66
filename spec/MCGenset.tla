----------------------------- MODULE MCGenset -----------------------------
(* All histories of requested statuses, for all generators with start-up    *)
(* and wind-down times up to MaxT, with and without abortions.              *)
(* The properties are stated over the history of requests (last, run,       *)
(* base), independently of how GenUpdate works.                             *)
EXTENDS MicrogridOps, Json

CONSTANT MaxT

VARIABLES m,      \* the generator
          s,      \* its status
          last,   \* the status that was requested last (2: none yet)
          run,    \* for how many steps in a row it has been requested
          base,   \* status when that series of requests began
          age     \* steps since the present change of status began (0: none under way)

vars == <<m, s, last, run, base, age>>

Cap == 2 * MaxT + 3

Gens == {[k |-> "gen", up |-> u, down |-> d, abort |-> a, init |-> i, rmin |-> 1000, rmax |-> 2000] :
            u \in 0..MaxT, d \in 0..MaxT, a \in {0, 1}, i \in {0, 1}}

Init == /\ m \in Gens /\ s = GenIdle(m, m.init)
        /\ last = 2 /\ run = 0 /\ base = m.init /\ age = 0

Node(mm, ss, la, ru, ba, ag) == <<mm.up, mm.down, mm.abort, mm.init, ss.cur, ss.goal, ss.up, ss.down, la, ru, ba, ag>>

Request(g) ==
    /\ m' = m /\ s' = GenUpdate(m, s, g)
    /\ last' = g
    /\ run' = IF g = last THEN Min2(run + 1, Cap) ELSE 1
    /\ base' = IF g = last THEN base ELSE s.cur
    /\ age' = IF s'.goal # s'.cur THEN (IF s.goal # s.cur /\ s.goal = s'.goal THEN age + 1 ELSE 1) ELSE 0
    /\ PrintT(<<"EDGE", ToJson(<<Node(m, s, last, run, base, age), g, Node(m', s', last', run', base', age')>>)>>)

Next == \E g \in {0, 1} : Request(g)
Spec == Init /\ [][Next]_vars

TimeOf(g) == IF g = 1 THEN m.up ELSE m.down

Domain == /\ s.cur \in {0, 1} /\ s.goal \in {0, 1} /\ s.up \in 0..m.up /\ s.down \in 0..m.down
          /\ s.cur = s.goal => s = GenIdle(m, s.cur)

\* with abortions: the status is the requested one exactly when it has been
\* requested for longer than the change takes, and unchanged before
ExactTime == (m.abort = 1 /\ last # 2) => s.cur = (IF run > TimeOf(last) THEN last ELSE base)

\* without: a request that is sustained is met at the latest after a change
\* that was under way and the one back
Eventually == (last # 2 /\ run > m.up + m.down + 1) => s.cur = last

\* a change takes no longer than its time
Bounded == age <= TimeOf(s.goal)

\* without abortions a change that is under way is completed (unless a
\* change takes no time at all)
Completed == [][(m.abort = 0 /\ s.goal # s.cur /\ m.up > 0 /\ m.down > 0)
                  => (s'.cur = s.goal \/ (s'.cur = s.cur /\ s'.goal = s.goal))]_vars

\* the status changes only when a change of full length has been under way
\* (age counts its steps; a change without duration has none)
NotTooEarly == [][s'.cur # s.cur => (age = TimeOf(s'.cur) \/ TimeOf(s'.cur) = 0)]_vars
=============================================================================
