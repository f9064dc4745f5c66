---------------------------- MODULE MCForecast ----------------------------
(* A time series component of N steps whose forecaster (kind and horizon)   *)
(* is changed by the user at any time, in any order with steps and resets.  *)
EXTENDS Series, Json

CONSTANTS Values, Horizons

Vals == <<1000, 4000, 0, 2000, 3000, 500>>
N == Values
M0 == [k |-> "ren", ts |-> [j \in 1..N |-> << Vals[j] >>]]

Casters == {[k |-> "none", h |-> 0, sg |-> 0, inc |-> 0]}
           \cup {[k |-> k, h |-> h, sg |-> IF k = "gauss" THEN 51 ELSE 0, inc |-> 0] : k \in {"oracle", "gauss", "half"}, h \in Horizons}

VARIABLES t, fc
vars == <<t, fc>>
Init == t = 0 /\ fc \in Casters

Emit(a) == PrintT(<<"EDGE", ToJson(<< <<t, fc.k, fc.h>>, a, <<t', fc'.k, fc'.h>> >>)>>)

Step  == t < N /\ t' = t + 1 /\ fc' = fc /\ Emit(<<"step">>)
Reset == t' = 0 /\ fc' = fc /\ Emit(<<"reset">>)
Set   == t' = t /\ fc' \in Casters /\ Emit(<<"set", fc'.k, fc'.h>>)
Next  == Step \/ Reset \/ Set
Spec  == Init /\ [][Next]_vars

Mod == [k |-> M0.k, ts |-> M0.ts, fc |-> fc]
\* the values that a perfect forecast shows in step x, h ahead
Perfect(x, h) == [j \in 1..h |-> IF InSeries(M0, x) /\ InSeries(M0, x + j) THEN Row(M0, x + j)[1] ELSE FillOf(M0, 1)]
Vector(x, h) == << IF InSeries(M0, x) THEN Row(M0, x)[1] ELSE FillOf(M0, 1) >> \o Perfect(x, h)

\* the specification of forecasts admits the perfect one, and if nothing is
\* random or distorted, only that
Admits == /\ fc.k \in {"oracle", "gauss"} => CurrentOK(Mod, t, Vector(t, fc.h)) /\ ForecastsOK(Mod, t, Vector(t, fc.h))
          /\ Len(Vector(t, fc.h)) = StateLen(Mod)
          /\ fc.k = "oracle" => \A j \in 1..fc.h : \A e \in {-100, 100} :
                ~ForecastsOK(Mod, t, [Vector(t, fc.h) EXCEPT ![j + 1] = @ + e])
\* a step ahead, every value has moved up by one place
Moves == (fc.k = "oracle" /\ t + 1 < N) =>
            \A j \in 1..(fc.h - 1) : t + j + 1 < N => Perfect(t + 1, fc.h)[j] = Perfect(t, fc.h)[j + 1]
\* what is shown lies within the bounds
Inside == \A j \in 1..Len(Vector(t, fc.h)) : Vector(t, fc.h)[j] >= LowOf(M0, 1) /\ Vector(t, fc.h)[j] <= HighOf(M0, 1)
=============================================================================
