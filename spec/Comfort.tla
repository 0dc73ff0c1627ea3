------------------------------ MODULE Comfort ------------------------------
(***************************************************************************)
(* Thermal comfort (PMV), the operation-mode automaton it drives, and the  *)
(* operative temperature each mode aims at.                                *)
(***************************************************************************)
EXTENDS Air

Modes == {"COOLING", "HEATING", "STOP_OPEN", "STOP_CLOSE"}

(* heat transfer around a person: fixed values *)
HcHum == N("4.0")
HrHum == N("4.0") \otimes N("3.96e-8") \otimes Pow(N("293.15"), N("3.0"))
HHum  == HcHum \oplus HrHum
Kc    == HcHum \oslash HHum
Kr    == HrHum \oslash HHum

CloHeavy  == N("1.1")
CloMiddle == N("0.7")
CloLight  == N("0.3")
Met == N("58.15")                               \* 1 met, W/m2

Icl(clo) == clo \otimes N("0.155")              \* m2K/W
Fcl(clo) == IF Icl(clo) \preceq N("0.078") THEN One \oplus (N("1.29") \otimes Icl(clo))
                                           ELSE N("1.05") \oplus (N("0.645") \otimes Icl(clo))
(* heat conductance of clothing and surface together, W/m2K *)
Gcl(clo) == (Fcl(clo) \otimes HHum) \oslash (One \oplus (Icl(clo) \otimes Fcl(clo) \otimes HHum))
PmvCoef  == (N("0.303") \otimes Exp(N("-0.036") \otimes Met)) \oplus N("0.028")
TSkin    == N("35.7") \ominus (N("0.028") \otimes Met)

(* heat lost by diffusion through the skin and by latent respiration, W/m2 *)
LatentLoss(pv) ==
  (N("3.05e-3") \otimes (N("5733.0") \ominus (N("6.99") \otimes Met) \ominus pv))
  \oplus (N("1.7e-5") \otimes Met \otimes (N("5867.0") \ominus pv))

OperTemp(tr, mrt) == (Kc \otimes tr) \oplus (Kr \otimes mrt)

Pmv(tr, mrt, pv, clo) ==
  PmvCoef \otimes (Met \ominus LatentLoss(pv)
     \ominus (N("0.0014") \otimes Met \otimes (N("34.0") \ominus tr))
     \ominus (Gcl(clo) \otimes (TSkin \ominus OperTemp(tr, mrt))))

(* The operative temperature at which PMV has the given value, when air     *)
(* and radiant temperature are equal: the solution t of Pmv(t, t, pv, clo). *)
TargetOT(pv, clo, pmv) ==
  ((pmv \oslash PmvCoef) \ominus Met \oplus LatentLoss(pv)
     \oplus (N("0.0476") \otimes Met) \oplus (Gcl(clo) \otimes TSkin))
  \oslash ((N("0.0014") \otimes Met) \oplus Gcl(clo))

-----------------------------------------------------------------------------
(* The automaton.  It sees the PMV only through six comparisons, so its     *)
(* input is a record of booleans: heavy, middle and light clothing against  *)
(* the thresholds.  demand: is air conditioning asked for at all?           *)
(*   hiH: heavy > 0.7     loH: heavy <= -0.7                                *)
(*   hiL: light >= 0.7    loL: light < -0.7                                 *)
(*   m0: middle <= 0      m1: middle >= 0                                   *)
Observe(h, m, l) ==
  [hiH |-> N("0.7") \prec h, loH |-> h \preceq N("-0.7"),
   hiL |-> N("0.7") \preceq l, loL |-> l \prec N("-0.7"),
   m0 |-> m \preceq Zero, m1 |-> Zero \preceq m]

NextMode(mode, demand, o) ==
  IF ~demand THEN "STOP_CLOSE"
  ELSE CASE mode = "HEATING" ->
              IF ~o.hiH THEN "HEATING" ELSE IF o.hiL THEN "COOLING" ELSE "STOP_CLOSE"
         [] mode = "COOLING" ->
              IF ~o.loL THEN "COOLING" ELSE IF o.loH THEN "HEATING" ELSE "STOP_CLOSE"
         [] mode = "STOP_OPEN" ->
              IF o.hiL THEN "COOLING" ELSE IF o.loH THEN "HEATING"
              ELSE IF o.m0 THEN "STOP_CLOSE" ELSE "STOP_OPEN"
         [] mode = "STOP_CLOSE" ->
              IF o.hiL THEN "COOLING" ELSE IF o.loH THEN "HEATING"
              ELSE IF o.m1 THEN "STOP_OPEN" ELSE "STOP_CLOSE"

(* Where a PMV lies within eps of a threshold, rounding may put it on       *)
(* either side: the set of modes the automaton may then take.               *)
NextModes(mode, demand, h, m, l, eps) ==
  { NextMode(mode, demand, Observe(h \oplus dh, m \oplus dm, l \oplus dl)) :
       dh \in {Neg(eps), eps}, dm \in {Neg(eps), eps}, dl \in {Neg(eps), eps} }

ModeClo(mode)    == CASE mode = "HEATING" -> CloHeavy [] mode = "COOLING" -> CloLight [] OTHER -> CloMiddle
ModePmv(mode)    == CASE mode = "HEATING" -> N("-0.5") [] mode = "COOLING" -> Half [] OTHER -> Zero
AirSpeed(mode, radH, radC) ==
  CASE mode = "HEATING" /\ ~radH -> N("0.2")
    [] mode = "COOLING" /\ ~radC -> N("0.2")
    [] mode = "STOP_OPEN" -> N("0.1")
    [] OTHER -> Zero
=============================================================================
