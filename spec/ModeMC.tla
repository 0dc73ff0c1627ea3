------------------------------- MODULE ModeMC -------------------------------
(***************************************************************************)
(* The operation-mode automaton on its own, in every climate a person can  *)
(* meet: the room (air and radiant temperature alike) and its vapour       *)
(* pressure move over a grid, demand comes and goes, and the automaton     *)
(* takes the step Comfort says.  TLC visits all of it.                     *)
(***************************************************************************)
EXTENDS Comfort
CONSTANTS Temps, Vapours        \* grid: whole degrees, hundreds of Pa
VARIABLES mode, t, pv, demand, kept
vars == <<mode, t, pv, demand, kept>>

TheTemps == {2 * x : x \in 2..20}
TheVapours == {5, 15, 25}
(* PMVs of the grid, computed once                                          *)
Pm == [tt \in Temps |-> [v \in Vapours |-> [c \in {"h", "m", "l"} |->
        Pmv(FromInt(tt), FromInt(tt), FromInt(100 * v), CASE c = "h" -> CloHeavy [] c = "m" -> CloMiddle [] c = "l" -> CloLight)]]]
Ob(tt, v) == Observe(Pm[tt][v]["h"], Pm[tt][v]["m"], Pm[tt][v]["l"])

Init == mode = "STOP_CLOSE" /\ t \in Temps /\ pv \in Vapours /\ demand \in BOOLEAN /\ kept = 0
Step(tt, v, dd) == /\ mode' = NextMode(mode, dd, Ob(tt, v))
                   /\ t' = tt /\ pv' = v /\ demand' = dd
                   /\ kept' = IF tt = t /\ v = pv /\ dd = demand THEN (IF kept = 3 THEN 3 ELSE kept + 1) ELSE 0
Next == \E tt \in Temps, v \in Vapours, dd \in BOOLEAN : Step(tt, v, dd)
Hold == Step(t, pv, demand)
Spec == Init /\ [][Next]_vars

TypeOK == mode \in Modes
NoDemandNoService == kept >= 1 /\ ~demand => mode = "STOP_CLOSE"
(* conditions that stay lead to a mode that stays, after one change at most: *)
(* nothing hunts                                                            *)
Settled(m, tt, v, dd) == NextMode(m, dd, Ob(tt, v)) = m
Settles == [][kept >= 2 => mode' = mode \/ kept' < 3]_vars
(* heating goes on only below the upper threshold of heavy clothing, cooling only above that of light *)
HeatWhenCold == [][mode' = "HEATING" /\ demand' => ~Ob(t', pv').hiH]_vars
CoolWhenWarm == [][mode' = "COOLING" /\ demand' => ~Ob(t', pv').loL]_vars
(* windows open only from rest, in a climate in which light clothing is not hot nor heavy cold *)
WindowsFromRest == [][mode' = "STOP_OPEN" => mode \in {"STOP_OPEN", "STOP_CLOSE"} /\ ~Ob(t', pv').hiL /\ ~Ob(t', pv').loH]_vars
(* from heating to cooling at once only by a jump of the climate, never when it stays *)
NoFlip == [][kept' >= 1 => ~(mode = "HEATING" /\ mode' = "COOLING") /\ ~(mode = "COOLING" /\ mode' = "HEATING")]_vars
(* warmer never feels colder; clothes keep warm below skin temperature      *)
Monotone == \A v \in Vapours : \A c \in {"h", "m", "l"} : (t + 2) \in Temps => Pm[t][v][c] \prec Pm[t + 2][v][c]
Clothes == t <= 30 => /\ Pm[t][pv]["l"] \preceq Pm[t][pv]["m"] /\ Pm[t][pv]["m"] \preceq Pm[t][pv]["h"]
(* the target of a mode is where the PMV has its value                      *)
TargetLaw == \A m \in {"HEATING", "COOLING"} : LET x == TargetOT(FromInt(100 * pv), ModeClo(m), ModePmv(m)) IN
   Near(Pmv(x, x, FromInt(100 * pv), ModeClo(m)), ModePmv(m), N("1e-9"), N("1e-9"))
(* the heating target is below the cooling target, and each lies where its mode is kept *)
TargetOrder == LET h == TargetOT(FromInt(100 * pv), CloHeavy, N("-0.5"))  c == TargetOT(FromInt(100 * pv), CloLight, Half) IN
   /\ h \prec c
   /\ ~(Observe(Pmv(h, h, FromInt(100 * pv), CloHeavy), Pmv(h, h, FromInt(100 * pv), CloMiddle), Pmv(h, h, FromInt(100 * pv), CloLight))).hiH
   /\ ~(Observe(Pmv(c, c, FromInt(100 * pv), CloHeavy), Pmv(c, c, FromInt(100 * pv), CloMiddle), Pmv(c, c, FromInt(100 * pv), CloLight))).loL
(* exactly the changes of mode that exist                                   *)
Changes == {<<"HEATING", "STOP_CLOSE">>, <<"STOP_CLOSE", "HEATING">>, <<"COOLING", "STOP_CLOSE">>, <<"STOP_CLOSE", "COOLING">>,
            <<"HEATING", "COOLING">>, <<"COOLING", "HEATING">>, <<"STOP_OPEN", "COOLING">>, <<"STOP_OPEN", "HEATING">>,
            <<"STOP_OPEN", "STOP_CLOSE">>, <<"STOP_CLOSE", "STOP_OPEN">>}
OnlyThese == [][mode' # mode => <<mode, mode'>> \in Changes]_vars
=============================================================================
