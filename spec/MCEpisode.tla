----------------------------- MODULE MCEpisode -----------------------------
(* The clock of a microgrid with series of N steps: steps, resets with all  *)
(* kinds of trajectories, and the user moving the first and the last step,  *)
(* in every order.                                                          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, MaxLog

Trajectories == {[k |-> "none", a |-> 0, b |-> 0], [k |-> "stoch", a |-> 0, b |-> 0]}
                \cup {[k |-> "det", a |-> a, b |-> b] : a \in 0..(N - 1), b \in 1..N}
                \cup {[k |-> "len", a |-> a, b |-> 0] : a \in 1..N}

VARIABLES traj, t, i0, f0,     \* trajectory, present step, the microgrid's first and last step
          s0, tf,              \* first and last step of the present episode
          log                  \* rows in the log
vars == <<traj, t, i0, f0, s0, tf, log>>
Node == <<traj, t, i0, f0, s0, tf, log>>

Windows(x) == {w \in (0..(N - 1)) \X (1..N) : w[1] < w[2]}

Init == /\ traj \in {x \in Trajectories : x.k = "det" => x.a < x.b}
        /\ t = 0 /\ i0 = 0 /\ f0 = N /\ s0 = 0 /\ tf = N /\ log = 0

Emit(a) == PrintT(<<"EDGE", ToJson(<<Node, a, Node'>>)>>)

Step == /\ t < N /\ log < MaxLog
        /\ t' = t + 1 /\ log' = log + 1 /\ UNCHANGED <<traj, i0, f0, s0, tf>>
        /\ Emit(<<"step">>)

\* the windows a trajectory may choose, given the microgrid's bounds
Choices == CASE traj.k = "none"  -> {<<i0, f0>>}
             [] traj.k = "det"   -> {<<traj.a, traj.b>>}
             [] traj.k = "stoch" -> {w \in Windows(0) : i0 <= w[1] /\ w[2] <= f0}
             [] traj.k = "len"   -> {w \in Windows(0) : i0 <= w[1] /\ w[2] = w[1] + traj.a /\ w[2] <= f0}

Reset == /\ \E w \in Choices : t' = w[1] /\ s0' = w[1] /\ tf' = w[2]
         /\ log' = 0 /\ UNCHANGED <<traj, i0, f0>>
         /\ Emit(<<"reset">>)

\* the user moves the bounds; the end takes effect at once, the beginning with the next episode
Move == /\ \E w \in Windows(0) :
              /\ <<w[1], w[2]>> # <<i0, f0>>
              /\ traj.k = "det" => w[1] <= traj.a /\ traj.b <= w[2]
              /\ traj.k = "len" => w[2] - w[1] >= traj.a
              /\ i0' = w[1] /\ f0' = w[2] /\ tf' = w[2]
         /\ UNCHANGED <<traj, t, s0, log>>
         /\ Emit(<<"window", i0', f0'>>)

Next == Step \/ Reset \/ Move
Spec == Init /\ [][Next]_vars

Bounds == /\ 0 <= i0 /\ i0 < f0 /\ f0 <= N /\ s0 < N /\ tf <= N
          /\ t >= s0 /\ t <= N
Rows   == log = t - s0
\* an episode begins inside the microgrid's bounds (of that moment)
Begins == [][log' = 0 /\ t' # t + 1 /\ i0' = i0 /\ f0' = f0 => i0 <= s0' /\ tf' <= f0 /\ s0' < tf']_vars
\* what a step reports as the end of the episode
Done(x, e) == x >= e - 1
\* an episode that is run to its end has as many steps as its window
Length == (log > 0 /\ Done(t - 1, tf) /\ ~Done(t - 2, tf) /\ tf > s0) => t = tf
=============================================================================
