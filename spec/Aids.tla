-------------------------------- MODULE Aids --------------------------------
(***************************************************************************)
(* What stands beside the calculation: the comfort index by itself (ISO     *)
(* 7730), the size of a room air conditioner for a room, the airtightness   *)
(* of a house from its insulation.                                          *)
(***************************************************************************)
EXTENDS Comfort

(* ---- the comfort index --------------------------------------------------*)
(* c: met, eff (met), ta, tr (degrees), clo, var (m/s), rh (%)              *)
HeatMade(c) == (c.met \ominus c.eff) \otimes Met                  \* W/m2
Kelvin4(t) == LET x == t \oplus N("273.0") IN (x \otimes x) \otimes (x \otimes x)
Film(c, t) == Max2(N("12.1") \otimes Sqrt(c.var), N("2.38") \otimes Sqrt(Sqrt(Abs(t \ominus c.ta))))
ByRadiation(c, t)  == (N("3.96e-8") \otimes Fcl(c.clo)) \otimes (Kelvin4(t) \ominus Kelvin4(c.tr))
ByConvection(c, t) == (Fcl(c.clo) \otimes Film(c, t)) \otimes (t \ominus c.ta)
(* what flows through the clothing at surface temperature t, less what      *)
(* leaves it: it falls as t rises, and is nought at the clothing's own      *)
(* temperature                                                              *)
Surplus(c, t) == ((N("35.7") \ominus (N("0.028") \otimes HeatMade(c))) \ominus t)
                 \ominus (Icl(c.clo) \otimes (ByRadiation(c, t) \oplus ByConvection(c, t)))
RECURSIVE Between(_, _, _, _)
Between(c, lo, hi, n) ==
  IF n = 0 THEN lo
  ELSE LET m == (lo \oplus hi) \otimes Half IN
       IF Zero \prec Surplus(c, m) THEN Between(c, m, hi, n - 1) ELSE Between(c, lo, m, n - 1)
Clothing(c) == Between(c, N("-150.0"), N("150.0"), 56)
(* vapour pressure: over water, whatever the temperature                    *)
Vapour(c) == (c.rh \oslash N("100.0")) \otimes
   PvsForm(c.ta \oplus N("273.15"), N("-6096.9385"), N("21.2409642"), N("-0.02711193"), N("0.00001673952"), N("2.433502"))
Index(c) ==
  LET M == c.met \otimes Met  W == HeatMade(c)  pa == Vapour(c)  t == Clothing(c) IN
  ((N("0.303") \otimes Exp(N("-0.036") \otimes M)) \oplus N("0.028")) \otimes
  (W \ominus (N("3.05e-3") \otimes ((N("5733.0") \ominus (N("6.99") \otimes W)) \ominus pa))
     \ominus Max2(N("0.42") \otimes (W \ominus N("58.15")), Zero)
     \ominus ((N("1.7e-5") \otimes M) \otimes (N("5867.0") \ominus pa))
     \ominus ((N("0.0014") \otimes M) \otimes (N("34.0") \ominus c.ta))
     \ominus ByRadiation(c, t) \ominus ByConvection(c, t))
Dissatisfied(pmv) == LET s == pmv \otimes pmv IN
  N("100.0") \ominus (N("95.0") \otimes Exp((N("-0.03353") \otimes (s \otimes s)) \ominus (N("0.2179") \otimes s)))

(* ---- a room air conditioner for a floor area ----------------------------*)
RatedCooling(a) == Min2((N("190.5") \otimes a) \oplus N("45.6"), N("5600.0"))
RatedHeating(a) == (N("1.209") \otimes RatedCooling(a)) \ominus N("85.1")
MostCooling(rc)     == Max2((N("0.8462") \otimes rc) \oplus N("1205.9"), rc)
MostHeating(rh, rc) == Max2((N("1.7597") \otimes MostCooling(rc)) \ominus N("413.7"), rh)
Least == N("500.0")
MostAir(rc) == N("11.076") \otimes Pow(rc \oslash N("1000.0"), N("0.3432"))
LeastAir(most) == N("0.55") \otimes most
(* from here on the least output is less than the rated one                 *)
RoomEnough == N("2.5")

(* ---- airtightness -------------------------------------------------------*)
Structures == {"rc", "src", "wooden", "steel"}
CValue(ua, s) == (IF s \in {"rc", "src"} THEN N("4.16") ELSE N("8.28")) \otimes ua
=============================================================================
