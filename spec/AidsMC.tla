------------------------------- MODULE AidsMC -------------------------------
(* The comfort index over a grid of surroundings: the walk goes one step in  *)
(* one quantity at a time.                                                   *)
EXTENDS Aids
VARIABLES ta, tr, rh, clo, met, var
vars == <<ta, tr, rh, clo, met, var>>
R(x, scale) == FromInt(x) \oslash FromInt(scale)
At(a, r, h) == [met |-> R(met, 10), eff |-> Zero, ta |-> FromInt(a), tr |-> FromInt(r), clo |-> R(clo, 10), var |-> R(var, 10), rh |-> FromInt(h)]
Here == At(ta, tr, rh)
Init == ta = -5 /\ tr = 0 /\ rh = 0 /\ clo \in {0, 5, 11} /\ met \in {8, 11, 20} /\ var \in {0, 1, 6}
Next == \/ ta < 40 /\ ta' = ta + 5 /\ UNCHANGED <<tr, rh, clo, met, var>>
        \/ tr < 50 /\ tr' = tr + 10 /\ UNCHANGED <<ta, rh, clo, met, var>>
        \/ rh < 100 /\ rh' = rh + 50 /\ UNCHANGED <<ta, tr, clo, met, var>>
Spec == Init /\ [][Next]_vars
tiny == N("1e-9")
(* the clothing is warmer than nothing and colder than nothing              *)
Clothed == LET t == Clothing(Here)  lo == Min2(Min2(Here.ta, Here.tr), N("20.0"))  hi == Max2(Max2(Here.ta, Here.tr), N("36.0")) IN
   lo \preceq t /\ t \preceq hi /\ Near(Surplus(Here, t), Zero, Zero, tiny)
(* warmer air, warmer surroundings, moister air: warmer                     *)
Warmer == \/ ta = 40 \/ tr = 50 \/ rh = 100
          \/ /\ Index(Here) \preceq (Index(At(ta + 5, tr, rh)) \oplus tiny)
             /\ Index(Here) \preceq (Index(At(ta, tr + 10, rh)) \oplus tiny)
             /\ Index(Here) \preceq (Index(At(ta, tr, rh + 50)) \oplus tiny)
Percent == LET q == Dissatisfied(Index(Here)) IN N("4.999999999") \preceq q /\ q \preceq N("100.0")
ASSUME \A a \in 3..60 : LET c == RatedCooling(FromInt(a))  h == RatedHeating(FromInt(a)) IN
   /\ Least \preceq c /\ Least \preceq h /\ c \preceq MostCooling(c) /\ h \preceq MostHeating(h, c)
   /\ c \preceq RatedCooling(FromInt(a + 1)) /\ MostCooling(c) \preceq MostCooling(RatedCooling(FromInt(a + 1)))
=============================================================================
