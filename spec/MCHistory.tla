---------------------------- MODULE MCHistory ----------------------------
(* Two microgrids, the second a copy of the first (made in some way, at any *)
(* time, again and again), used in turn in every possible way. Abstract     *)
(* state per microgrid: step, forecaster, rows in the log.                  *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxT, Casters, Hows

VARIABLES A, B     \* <<t, fc, log>>; <<>>: does not exist
vars == <<A, B>>

Init == A = <<0, "none", 0>> /\ B = <<>>

Emit(a) == PrintT(<<"EDGE", ToJson(<< <<A, B>>, a, <<A', B'>> >>)>>)

Stepped(x)  == <<x[1] + 1, x[2], x[3] + 1>>
Rewound(x)  == <<0, x[2], 0>>
Recast(x,f) == <<x[1], f, x[3]>>

UseA == /\ B' = B
        /\ \/ A[1] < MaxT /\ A' = Stepped(A) /\ Emit(<<"step", "A">>)
           \/ A' = Rewound(A) /\ Emit(<<"reset", "A">>)
           \/ \E f \in Casters : A' = Recast(A, f) /\ Emit(<<"forecaster", "A", f>>)
           \/ \E o \in {"log", "charge", "outputs", "returned"} : A' = A /\ Emit(<<o, "A">>)
UseB == /\ A' = A /\ B # <<>>
        /\ \/ B[1] < MaxT /\ B' = Stepped(B) /\ Emit(<<"step", "B">>)
           \/ B' = Rewound(B) /\ Emit(<<"reset", "B">>)
           \/ \E f \in Casters : B' = Recast(B, f) /\ Emit(<<"forecaster", "B", f>>)
           \/ \E o \in {"log", "charge", "outputs", "returned"} : B' = B /\ Emit(<<o, "B">>)
Copy == \/ A' = A /\ \E h \in Hows : B' = A /\ Emit(<<"copy", "A", "B", h>>)
        \/ B # <<>> /\ B' = B /\ \E h \in Hows : A' = B /\ Emit(<<"copy", "B", "A", h>>)
Next == UseA \/ UseB \/ Copy
Spec == Init /\ [][Next]_vars

\* one row per step of the episode, in both
Rows == A[3] = A[1] /\ (B # <<>> => B[3] = B[1])
\* nobody changes but who is used
Isolated == [][A' = A \/ B' = B]_vars
=============================================================================
