------------------------------ MODULE Series ------------------------------
(* What a component shows to the outside: its state vector, the forecasts   *)
(* that time series components add to it, its bounds, and the normalized    *)
(* form of states and actions.                                              *)
EXTENDS MicrogridOps

Width(m) == IF m.k = "grid" THEN 4 ELSE 1

ColMin(m, c) == MinOver({m.ts[i][c] : i \in 1..Len(m.ts)})
ColMax(m, c) == MaxOver({m.ts[i][c] : i \in 1..Len(m.ts)})

\* bounds of the values in column c: loads and renewables always include zero
LowOf(m, c)  == IF m.k = "grid" THEN ColMin(m, c) ELSE Min2(0, ColMin(m, c))
HighOf(m, c) == IF m.k = "grid" THEN ColMax(m, c) ELSE Max2(0, ColMax(m, c))

\* value shown for steps after the end of the series
FillOf(m, c) == RDiv(LowOf(m, c) + HighOf(m, c), 2)

\* growth of the noise with the distance j of the forecast (1 + ln j)
NoiseGrowth == <<1000, 1693, 2099, 2386, 2609, 2792, 2946, 3079>>

(* Is v an admissible forecast, made in step t, of column c j steps ahead?  *)
(* fc = [k, h, sg, inc]: kind, horizon, noise, growing noise.               *)
ForecastOK(m, fc, t, j, c, v) ==
    LET lo == LowOf(m, c)
        hi == HighOf(m, c)
        x  == Row(m, t + j)[c] IN
    IF ~InSeries(m, t) \/ ~InSeries(m, t + j) THEN Near(v, FillOf(m, c), 2)
    ELSE CASE fc.k = "oracle" -> Near(v, x, 1)
           [] fc.k \in {"half", "halfs"} -> Near(v, Clamp(RDiv(x, 2), lo, hi), 1)
           [] fc.k = "gauss" ->
                 /\ v >= lo - 1 /\ v <= hi + 1
                 /\ LET sig == IF fc.inc = 1 THEN Mul(fc.sg, NoiseGrowth[Min2(j, 8)]) ELSE fc.sg
                    IN Near(v, Clamp(x, lo, hi), 7 * sig + 2)
           [] OTHER -> FALSE

(* Exact part of the state: everything except noisy forecasts.              *)
StateLen(m) == CASE m.k = "batt" -> 2 [] m.k = "gen" -> 4 [] m.k = "unb" -> 0
                 [] OTHER -> Width(m) * (1 + m.fc.h)

CurrentOK(m, t, v) ==
    \A c \in 1..Width(m) :
        IF InSeries(m, t) THEN Near(v[c], Row(m, t)[c], 0) ELSE Near(v[c], FillOf(m, c), 2)

ForecastsOK(m, t, v) ==
    \A j \in 1..m.fc.h : \A c \in 1..Width(m) :
        ForecastOK(m, m.fc, t, j, c, v[j * Width(m) + c])

----------------------------------------------------------------------------
(* Bounds of entry p of the state vector, and of actions.                   *)
ObsLow(m, p) ==
    CASE m.k = "batt" -> IF p = 1 THEN RDiv(m.min * S, m.max) ELSE m.min
      [] m.k = "gen"  -> 0
      [] OTHER        -> LowOf(m, ((p - 1) % Width(m)) + 1)
ObsHigh(m, p) ==
    CASE m.k = "batt" -> IF p = 1 THEN S ELSE m.max
      [] m.k = "gen"  -> IF p <= 2 THEN S ELSE IF p = 3 THEN m.up * S ELSE m.down * S
      [] OTHER        -> HighOf(m, ((p - 1) % Width(m)) + 1)

ActLow(m)  == CASE m.k = "batt" -> -Div(m.mch, m.eff) [] m.k = "grid" -> -m.exp
                [] m.k = "ren" -> LowOf(m, 1) [] OTHER -> 0
ActHigh(m) == CASE m.k = "batt" -> Mul(m.mdis, m.eff) [] m.k = "grid" -> m.imp
                [] m.k = "gen" -> m.rmax [] m.k = "ren" -> HighOf(m, 1) [] OTHER -> 0

Spread(lo, hi) == IF hi = lo THEN S ELSE hi - lo

\* nv (scaled by S) is the normalized form of v
NormOK(v, nv, lo, hi) ==
    LET sp == Clamp(Spread(lo, hi), 1, LIM) IN
    Near(Clamp(nv, -5 * S, 5 * S) * sp, Clamp(v - lo, -LIM, LIM) * S, sp + 2 * S)

Denorm(a, lo, hi) == lo + RDiv(a * Spread(lo, hi), S)
=============================================================================
