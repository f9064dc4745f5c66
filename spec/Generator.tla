----------------------------- MODULE Generator ------------------------------
(* What microgrids made by the generator, and those of the benchmark that   *)
(* was made with it, look like. Powers and energies are whole numbers here, *)
(* or hundredths (peak, mean, pvpeak); x.size is the size of the load that  *)
(* was drawn, and peak and mean, pvpeak those of the series; prices and     *)
(* the like are in fixed point.                                             *)
EXTENDS Fix

GPeakIsSize(x) == Near(x.peak, 100 * x.size, 2)
GLoads(x)      == x.minload >= 0 /\ x.size >= 100 /\ x.size <= 100000

\* peak PV is 30 % to 150 % of the peak load
GPv(x)      == /\ \E k \in 30..150 : Near(x.pvpeak * 100, k * x.peak, 200 + k)
               /\ x.minpv >= 0
\* the battery lasts 3 to 5 hours at mean load, and can be charged and discharged in 4 hours
GBattery(x) == /\ \E k \in 3..5 : 100 * x.capa >= k * x.mean - 5 /\ 100 * x.capa <= k * x.mean + 105
               /\ x.pch = (x.capa + 3) \div 4 /\ x.pdis = (x.capa + 3) \div 4
GCharge(x)  == x.socmin = 200 /\ x.socmax = 1000 /\ x.soc >= x.socmin /\ x.soc <= x.socmax /\ x.eff = 900 /\ x.ccyc = 20
\* a genset can serve the peak load at 90 % of its rated power
GGenset(x)  == x.gen = 1 => /\ 9 * x.rated >= 10 * x.size - 1 /\ 9 * x.rated <= 10 * x.size + 18
                            /\ x.gmin = 50 /\ x.gmax = 900 /\ x.fuel = 400 /\ x.co2 = 2000
GGrid(x)    == x.grid = 1 => x.imp \in {2 * x.size - 1, 2 * x.size} /\ x.exp = x.imp
GCosts(x)   == x.cll = 10000 /\ x.cog = 1000 /\ x.cco2 = 100
\* there is a genset or a grid, and a genset if the grid has outages
GBackup(x)  == /\ x.gen = 1 \/ x.grid = 1
               /\ (x.grid = 1 /\ (x.weak = 1 \/ x.outages > 0)) => x.gen = 1
               /\ x.grid = 1 => x.st01 = 1 /\ (x.outages > 0 => x.weak = 1)
\* a year of hourly values
GYear(x)    == \A i \in 1..Len(x.rows) : x.rows[i] = 8760

\* tariffs by the hour of the day
Tariff(s, h) == IF s = 1 THEN (IF h >= 12 /\ h < 18 THEN 590 ELSE IF h < 8 \/ h >= 21 THEN 220 ELSE 290)
                ELSE (IF h < 5 \/ (h >= 14 /\ h < 17) THEN 80 ELSE 110)
\* the prices of the rows x.lo+1.. (x.lo counts hours from the beginning of the year)
GPrices(x)  == x.grid = 1 => /\ \E s \in {1, 2} : \A j \in 1..Len(x.price) : x.price[j] = Tariff(s, (x.lo + j - 1) % 24)
                             /\ \A j \in 1..Len(x.rev) : x.rev[j] = 0
=============================================================================
