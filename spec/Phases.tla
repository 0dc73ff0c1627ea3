------------------------------- MODULE Phases -------------------------------
(***************************************************************************)
(* The clock of a calculation.  Given days of data, a run-up of G days of  *)
(* which the last K take the whole house, and M days to report, it goes    *)
(* day by day through                                                      *)
(*   ground run-up -> whole-house run-up -> main period,                   *)
(* the data being read as a cycle that ends where the main period begins.  *)
(* Every history reachable is handed over together with the plain run (no  *)
(* whole-house run-up) whose data, laid out along the history, must lead   *)
(* to the same results.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxDays
VARIABLES d, g, k, m, day, hist
vars == <<d, g, k, m, day, hist>>

Init == /\ d \in 1..MaxDays /\ g \in 0..MaxDays /\ k \in 0..MaxDays /\ m \in 1..MaxDays
        /\ k <= g /\ g <= d /\ m <= d
        /\ day = -g /\ hist = <<>>
PhaseOf(x) == IF x < -k THEN "ground" ELSE IF x < 0 THEN "house" ELSE "main"
Next == day < m /\ hist' = Append(hist, [phase |-> PhaseOf(day), data |-> day % d]) /\ day' = day + 1 /\ UNCHANGED <<d, g, k, m>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == day = m

Of(p) == SelectSeq(hist, LAMBDA h: h.phase = p)
Data(s) == [i \in 1..Len(s) |-> s[i].data]
Rank(p) == CASE p = "ground" -> 1 [] p = "house" -> 2 [] p = "main" -> 3

(* one continuous history *)
Continuous == \A i \in 1..Len(hist) - 1 : hist[i + 1].data = (hist[i].data + 1) % d
Ordered == \A i \in 1..Len(hist) - 1 : Rank(hist[i].phase) <= Rank(hist[i + 1].phase)
MainFromTheFirstDay == \A i \in 1..Len(hist) : hist[i].phase = "main" /\ (i = 1 \/ hist[i - 1].phase # "main") => hist[i].data = 0
Complete == Done => Len(Of("ground")) = g - k /\ Len(Of("house")) = k /\ Len(Of("main")) = m
Ends == <>Done
Only == [][Len(hist') = Len(hist) + 1]_vars

(* the plain run: its data, in days of the original                         *)
Laid == Data(Of("house") \o Of("main") \o Of("ground"))
(* deep ground has the mean temperature of the data: alike only if every day occurs equally often *)
Times(x) == Cardinality({i \in 1..Len(Laid) : Laid[i] = x})
Even == \A x \in 0..d - 1 : Times(x) = Times(0)
(* read as a cycle with a run-up of g - k ground days, it has the same history, whole-house days being reported *)
Plain == LET len == Len(Laid) IN [i \in 1..Len(hist) |-> Laid[((i - 1 - (g - k)) % len) + 1]]
LaidRight == Done => Plain = Data(hist)

Keep == IF Done THEN TLCSet(1, TLCGet(1) \cup {[d |-> d, g |-> g, k |-> k, m |-> m, laid |-> Laid, even |-> Even]}) ELSE TRUE
ASSUME TLCSet(1, {})
HandOver == JsonSerialize(IOEnv.OUT, [states |-> TLCGet(1)])
=============================================================================
