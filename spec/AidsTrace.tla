------------------------------ MODULE AidsTrace ------------------------------
(* The comfort index (C26), sizes of units and airtightness (C27) the code   *)
(* gave for chosen arguments.                                                *)
EXTENDS Aids, Json, IOUtils, TLC, FiniteSets

Tr == LoadReals(IOEnv.TRACE)
VARIABLES k, bad, dev, seen
vars == <<k, bad, dev, seen>>
V(p, c, n, e, ok, v) == IF ok THEN {} ELSE {[p |-> p, c |-> c, n |-> n, e |-> e, v |-> v]}
Eq(a, b) == Near(a, b, N("1e-9"), N("1e-12"))
Eqs(a, b) == Show(a) \o " / " \o Show(b)

Comfortable(c) == LET x == Index(c) IN UNION {
   V("C26", "the index of the heat balance", k, 0, Near(c.pmv, x, N("1e-6"), N("1e-6")), Eqs(c.pmv, x)),
   V("C26", "dissatisfied by the index", k, 0, Near(c.ppd, Dissatisfied(c.pmv), N("1e-9"), N("1e-9")), Eqs(c.ppd, Dissatisfied(c.pmv))),
   V("C26", "between five and a hundred per cent", k, 0, N("4.999999999") \preceq c.ppd /\ c.ppd \preceq N("100.0"), Show(c.ppd)) }
Unit(c) == UNION { LET a == c.areas[i] IN UNION {
   V("C27", "rated output", k, i, Eq(c.rc[i], RatedCooling(a)) /\ Eq(c.rh[i], RatedHeating(a)), Eqs(c.rc[i], RatedCooling(a))),
   V("C27", "greatest output", k, i, Eq(c.mc[i], MostCooling(c.rc[i])) /\ Eq(c.mh[i], MostHeating(c.rh[i], c.rc[i])), Eqs(c.mh[i], MostHeating(c.rh[i], c.rc[i]))),
   V("C27", "least output", k, i, Eq(c.leastc, Least) /\ Eq(c.leasth, Least), Show(c.leastc)),
   V("C27", "air flow", k, i, Eq(c.vmax[i], MostAir(c.rc[i])) /\ Eq(c.vmin[i], LeastAir(c.vmax[i])), Eqs(c.vmax[i], MostAir(c.rc[i]))),
   V("C27", "least, rated and greatest in order", k, i,
     /\ c.rc[i] \preceq c.mc[i] /\ c.rh[i] \preceq c.mh[i] /\ c.vmin[i] \preceq c.vmax[i]
     /\ RoomEnough \preceq a => c.leastc \preceq c.rc[i] /\ c.leasth \preceq c.rh[i], Show(a)),
   V("C27", "a larger room has no smaller unit", k, i,
     i = 1 \/ (c.areas[i - 1] \preceq a => /\ c.rc[i - 1] \preceq c.rc[i] /\ c.rh[i - 1] \preceq c.rh[i]
                                           /\ c.mc[i - 1] \preceq c.mc[i] /\ c.vmax[i - 1] \preceq c.vmax[i]), Show(a)) } : i \in 1..Len(c.areas) }
Tightness(c) == V("C27", "airtightness from insulation", k, 0, Eq(c.c, CValue(c.ua, c.structure)), Eqs(c.c, CValue(c.ua, c.structure)))

Judge(c) == IF c.error # "" THEN V(IF c.kind = "pmv" THEN "C26" ELSE "C27", "an answer", k, 0, FALSE, c.error)
            ELSE CASE c.kind = "pmv" -> Comfortable(c) [] c.kind = "unit" -> Unit(c) [] OTHER -> Tightness(c)
Situation(c) == IF c.error # "" THEN <<c.kind, "error">>
  ELSE CASE c.kind = "pmv" -> <<"pmv", IF c.pmv \prec Zero THEN "cool" ELSE "warm",
                               IF (N("12.1") \otimes Sqrt(c.var)) \prec (N("2.38") \otimes Sqrt(Sqrt(Abs(Clothing(c) \ominus c.ta)))) THEN "still air" ELSE "draught",
                               IF Icl(c.clo) \preceq N("0.078") THEN "light" ELSE "dressed",
                               IF HeatMade(c) \preceq Met THEN "at rest" ELSE "active">>
         [] c.kind = "unit" -> <<"unit", IF c.rc[Len(c.rc)] \prec N("5600.0") THEN "below the limit" ELSE "at the limit">>
         [] OTHER -> <<"structure", c.structure>>

Init == k = 1 /\ bad = {} /\ dev = {} /\ seen = {}
Next == \/ /\ k <= Len(Tr.cases)
           /\ bad' = IF Cardinality(bad) > 60 THEN bad ELSE bad \cup Judge(Tr.cases[k])
           /\ dev' = dev
           /\ seen' = seen \cup {Situation(Tr.cases[k])}
           /\ k' = k + 1
        \/ /\ k = Len(Tr.cases) + 1
           /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, dev |-> dev, seen |-> seen, steps |-> k - 1])
           /\ k' = k + 1 /\ UNCHANGED <<bad, dev, seen>>
Spec == Init /\ [][Next]_vars
=============================================================================
