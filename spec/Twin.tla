-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* Two runs of the calculation side by side.                               *)
(*                                                                         *)
(* A hyperproperty speaks of pairs of runs: the same run twice, the same   *)
(* house with rooms and boundaries in another order, the same run cut      *)
(* short, the same house beside another one, a main step and the run-up    *)
(* step it repeats.  Each says: step n + offA of run a and step n + offB   *)
(* of run b show the same, where room i of a is room rooms[i] of b and     *)
(* boundary j of a is boundary bds[j] of b (0: not in b).                  *)
(***************************************************************************)
EXTENDS Air, TLC, FiniteSets, Json, IOUtils

Tr == LoadReals(IOEnv.TRACE)
Pairs == Tr.pairs
RoomFields == {"tr", "rh", "xr", "mrt", "ot", "qhs", "qhl", "lc", "lr", "ll", "tf", "qsf", "qssf", "xf", "qlf", "vl",
               "vn", "hc", "hr", "occ", "qsolt", "qse", "qle"}
BdFields == {"ts", "te", "tb", "hir", "hic", "qir", "qic", "qis", "q"}

VARIABLES k, n, bad
vars == <<k, n, bad>>
P == Pairs[k]
V(c, e, ok, v) == IF ok THEN {} ELSE {[p |-> P.prop, c |-> P.name \o ": " \o c, n |-> n, e |-> e, v |-> v]}
Same(x, y) == IF P.exact THEN x = y \/ (Abs(x) = Zero /\ Abs(y) = Zero) ELSE Near(x, y, N("1e-6"), N("1e-6"))
SameX(x, y) == IF P.exact THEN x = y ELSE Near(x, y, N("1e-6"), N("1e-11"))   \* humidity ratios, moisture flows
Moist == {"xr", "xf", "qhl", "qlf", "qle"}

Compare(a, b) ==
  UNION {
   V("outdoor air", 0, ~P.outdoor \/ (Same(a.outT, b.outT) /\ SameX(a.outX, b.outX)), Show(a.outT)),
   UNION { UNION {
      V("mode", i, a.mode[i] = b.mode[P.rooms[i]], a.mode[i] \o " / " \o b.mode[P.rooms[i]]),
      UNION { V(f, i, IF f \in Moist THEN SameX(a[f][i], b[f][P.rooms[i]]) ELSE Same(a[f][i], b[f][P.rooms[i]]),
                Show(a[f][i]) \o " / " \o Show(b[f][P.rooms[i]])) : f \in RoomFields }}
      : i \in {i \in 1..Len(P.rooms) : P.rooms[i] # 0} },
   UNION { UNION { V(f, j, Same(a[f][j], b[f][P.bds[j]]), Show(a[f][j]) \o " / " \o Show(b[f][P.bds[j]])) : f \in BdFields }
      : j \in {j \in 1..Len(P.bds) : P.bds[j] # 0} } }

Init == k = 1 /\ n = 0 /\ bad = {}
Lengths == V("number of steps", 0, Len(Tr.runs[P.a]) = P.lenA /\ Len(Tr.runs[P.b]) = P.lenB,
             ToString(Len(Tr.runs[P.a])) \o " " \o ToString(Len(Tr.runs[P.b])))
Step == /\ k <= Len(Pairs) /\ n < P.steps
        /\ LET va == Lengths IN
           bad' = IF Cardinality(bad) > 60 THEN bad
                  ELSE bad \cup (IF va # {} THEN va ELSE Compare(Tr.runs[P.a][n + 1 + P.offA], Tr.runs[P.b][n + 1 + P.offB]))
        /\ n' = n + 1 /\ k' = k
NextPair == k <= Len(Pairs) /\ n = P.steps /\ k' = k + 1 /\ n' = 0 /\ UNCHANGED bad
Report == /\ k = Len(Pairs) + 1 /\ n = 0
          /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, seen |-> {<<Pairs[i].name>> : i \in 1..Len(Pairs)}, dev |-> {},
                                       steps |-> Len(Pairs)])
          /\ n' = 1 /\ UNCHANGED <<k, bad>>
Next == Step \/ NextPair \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
