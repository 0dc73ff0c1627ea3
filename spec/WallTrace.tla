----------------------------- MODULE WallTrace -----------------------------
(* Response factors made by the code, one wall per step, in the order in    *)
(* which they were asked for.                                               *)
EXTENDS Wall, FiniteSets, Json, IOUtils

Tr == LoadReals(IOEnv.TRACE)
VARIABLES k, bad, seen
vars == <<k, bad, seen>>
V(c, e, ok, v) == IF ok THEN {} ELSE {[p |-> "C13", c |-> c, n |-> k, e |-> e, v |-> v]}

Ok(f) == VAllFinite(<<f.a0, f.t0>>) /\ VAllFinite(f.a1) /\ VAllFinite(f.t1) /\ VAllFinite(f.row)
         /\ Len(f.a1) = 12 /\ Len(f.t1) = 12 /\ Len(f.row) = 12
SameRf(f, g) == f = g

Layered(c, f) ==
  LET al == Alpha(c.ground)  M == Len(al)  pts == Points(al)
      L == c.layers
      A == Amp(al, f.a1)  T == Amp(al, f.t1)
      ga == Tup([i \in 1..Len(pts) |-> GA(L, pts[i])])
      gt == Tup([i \in 1..Len(pts) |-> GT(L, pts[i])])
      la == LeastSquares(al, A, ga)  lt == LeastSquares(al, T, gt)
      big == N("1e-9") \otimes (One \oplus SumAbs(A) \oplus SumAbs(T))
      fitTol == N("1e-6")
  IN UNION {
    V("decay ratios", 0, \A m \in 1..12 : IF m <= M THEN Near(f.row[m], Exp(Neg(al[m] \otimes DT)), N("1e-12"), Zero)
                                          ELSE f.row[m] = Zero /\ Abs(f.a1[m]) = Zero /\ Abs(f.t1[m]) = Zero, Show(f.row[1])),
    V("steady absorption is the resistance", 0, Near(Steady(f.a0, f.a1, f.row), TotalR(L), N("1e-8"), big),
       Show(Steady(f.a0, f.a1, f.row)) \o " / " \o Show(TotalR(L))),
    V("steady transmission is one", 0, Near(Steady(f.t0, f.t1, f.row), One, N("1e-8"), big), Show(Steady(f.t0, f.t1, f.row))),
    V("first absorption factor", 0, Near(f.a0, First(al, TotalR(L), A), N("1e-8"), big), Show(f.a0)),
    V("first transmission factor", 0, Near(f.t0, First(al, One, T), N("1e-8"), big), Show(f.t0)),
    V("absorption fits the wall", 0, \A m \in 1..M : la[m] \preceq fitTol, ToString([m \in 1..M |-> Show(la[m])])),
    V("transmission fits the wall", 0, \A m \in 1..M : lt[m] \preceq fitTol, ToString([m \in 1..M |-> Show(lt[m])])) }

Massless(c, f) == UNION {
    V("pure resistance", 0, Near(f.a0, c.res, N("1e-9"), N("1e-12")), Show(f.a0) \o " / " \o Show(c.res)),
    V("pure transmission", 0, f.t0 = One, Show(f.t0)),
    V("no memory", 0, \A m \in 1..12 : Abs(f.a1[m]) = Zero /\ Abs(f.t1[m]) = Zero /\ Zero \preceq f.row[m] /\ f.row[m] \prec One,
       Show(f.a1[1])) }

Given(c, f) == V("factors given are used as given", 0, SameRf(f, c.given), "-")

Judge(c) == UNION {
   IF ~Ok(c.first) THEN V("finite factors of twelve terms", 0, FALSE, ToString(c.kind))
   ELSE CASE c.kind = "layers" -> Layered(c, c.first)
          [] c.kind = "steady" -> Massless(c, c.first)
          [] c.kind = "given" -> Given(c, c.first),
   V("asking again gives the same factors", 0, SameRf(c.first, c.again), "-"),
   V("a new request for the same wall gives the same factors", 0, SameRf(c.first, c.anew), "-"),
   V("the description is left as it was", 0, c.untouched, "-") }

Init == k = 1 /\ bad = {} /\ seen = {}
Next == \/ /\ k <= Len(Tr.cases)
           /\ bad' = IF Cardinality(bad) > 40 THEN bad ELSE bad \cup Judge(Tr.cases[k])
           /\ seen' = seen \cup {<<Tr.cases[k].kind, Tr.cases[k].type>>}
           /\ k' = k + 1
        \/ /\ k = Len(Tr.cases) + 1
           /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, dev |-> {}, seen |-> seen, steps |-> k - 1])
           /\ k' = k + 1 /\ UNCHANGED <<bad, seen>>
Spec == Init /\ [][Next]_vars
=============================================================================
