------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What a run hands back: a detailed table with one row a quarter of an    *)
(* hour, a digest of it with one row an hour, and, when asked for, a file  *)
(* of each.  One action per hour of the digest, one per column of a file.  *)
(***************************************************************************)
EXTENDS Air, TLC, FiniteSets, Json, IOUtils

Tr == LoadReals(IOEnv.TRACE)
Detail == Tr.tables.detail
Digest == Tr.tables.digest
Rooms == 1..Len(Tr.bds)
Hours == Tr.days * 24
Steps == Hours * 4

Pre(i) == "rm" \o ToString(i - 1) \o "_"
RoomCols == {"ac_operate", "occupancy", "hc_hum", "hr_hum", "t_r", "rh_r", "x_r", "mrt", "ot", "q_sol_t",
             "q_s_except_hum", "q_l_except_hum", "q_hum_s", "q_hum_l", "l_s_c", "l_s_r", "l_l_c", "t_fun", "q_s_fun",
             "q_s_sol_fun", "x_fun", "q_l_fun", "v_reak", "v_ntrl", "remarks"}
BdCols == {"t_s", "t_e", "t_b", "hir_s", "qir_s", "hic_s", "qic_s", "qisol_s", "qiall_s"}
DetailCols == {"out_temp", "out_abs_humid"}
  \cup {Pre(i) \o c : i \in Rooms, c \in RoomCols}
  \cup UNION {{Pre(i) \o "b" \o ToString(j - 1) \o "_" \o c : j \in 1..Tr.bds[i], c \in BdCols} : i \in Rooms}
(* hourly means, to the given number of decimals *)
Means == {<<"out_temp", 2>>, <<"out_abs_humid", 4>>}
  \cup UNION {{<<Pre(i) \o "t_r", 2>>, <<Pre(i) \o "x_r", 4>>, <<Pre(i) \o "ot", 2>>} : i \in Rooms}
(* hourly sums, to the watt *)
Sums == UNION {{<<Pre(i) \o c, 0>> : c \in {"l_s_c", "l_s_r", "l_l_c"}} : i \in Rooms}
Modes == {Pre(i) \o "ac_operate" : i \in Rooms}
DigestCols == {x[1] : x \in Means \cup Sums} \cup Modes

VARIABLES k, bad
vars == <<k, bad>>
V(c, e, ok, v) == IF ok THEN {} ELSE {[p |-> "C20", c |-> c, n |-> k, e |-> e, v |-> v]}

Hour(c, h) == <<Detail.cols[c][4 * h + 1], Detail.cols[c][4 * h + 2], Detail.cols[c][4 * h + 3], Detail.cols[c][4 * h + 4]>>
Unit(d) == Pow(N("10.0"), FromInt(-d))
(* x is v rounded to d decimals *)
Rounded(x, v, d) ==
  /\ Near(x, v, Zero, (Half \otimes Unit(d)) \oplus N("1e-9"))
  /\ Near(x, RoundTo(x, d), N("1e-12"), N("1e-12"))
Mode3(c, h) == Digest.cols[c][h + 1] = Detail.cols[c][4 * h + 1]

(* shape of the two tables *)
Shape == UNION {
  V("columns of the detailed table", "-", {Detail.names[i] : i \in 1..Len(Detail.names)} = DetailCols
      /\ Len(Detail.names) = Cardinality(DetailCols), ToString(Len(Detail.names))),
  V("columns of the digest", "-", {Digest.names[i] : i \in 1..Len(Digest.names)} = DigestCols
      /\ Len(Digest.names) = Cardinality(DigestCols), ToString(Digest.names)),
  V("a row for every quarter of an hour", "-", Detail.first = "1989-01-01 00:00:00"
      /\ Detail.minutes = [i \in 1..Steps |-> 15 * (i - 1)], Detail.first),
  V("a row for every hour", "-", Digest.first = "1989-01-01 00:00:00"
      /\ Digest.minutes = [i \in 1..Hours |-> 60 * (i - 1)], Digest.first),
  V("files written are those asked for", "-",
      {Tr.written[i] : i \in 1..Len(Tr.written)} =
        {f \in {"result_digest.csv", "result_detail.csv"} :
            (f = "result_digest.csv" /\ Tr.asked.digest) \/ (f = "result_detail.csv" /\ Tr.asked.detail)},
      ToString(Tr.written))}
ShapeOk == Shape = {}

HourOk(h) == UNION {
  UNION {LET m == Sum(Hour(c[1], h)) \oslash N("4.0")  x == Digest.cols[c[1]][h + 1] IN
      V("hourly mean of " \o c[1], "-", Rounded(x, m, c[2]), Show(x) \o " / " \o Show(m)) : c \in Means},
  UNION {LET m == Sum(Hour(c[1], h))  x == Digest.cols[c[1]][h + 1] IN
      V("hourly sum of " \o c[1], "-", Rounded(x, m, c[2]), Show(x) \o " / " \o Show(m)) : c \in Sums},
  UNION {V("mode at the hour, " \o c, "-", Mode3(c, h), ToString(Digest.cols[c][h + 1])) : c \in Modes}}

(* A file holds the table: same columns, same rows, same values.            *)
Kinds == <<"detail", "digest">>
FileOk(f) == IF f \notin DOMAIN Tr.files THEN {} ELSE
  LET a == Tr.files[f]  t == Tr.tables[f] IN
  UNION {V("columns of file " \o f, "-", a.names = t.names, ToString(Len(a.names))),
         V("rows of file " \o f, "-", a.first = t.first /\ a.minutes = t.minutes, a.first),
         UNION {V("file " \o f, c, c \in DOMAIN a.cols /\ a.cols[c] = t.cols[c], "-") : c \in DOMAIN t.cols}}

Init == k = 0 /\ bad = Shape
DigestHour == /\ k < Hours
              /\ bad' = IF ShapeOk THEN bad \cup HourOk(k) ELSE bad
              /\ k' = k + 1
Files == /\ k = Hours
         /\ bad' = bad \cup FileOk("detail") \cup FileOk("digest")
         /\ k' = k + 1
Report == /\ k = Hours + 1
          /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, dev |-> {}, steps |-> Hours,
                seen |-> {<<"file", f>> : f \in DOMAIN Tr.files} \cup {<<"rooms", Len(Tr.bds)>>}])
          /\ k' = k + 1 /\ UNCHANGED bad
Next == DigestHour \/ Files \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
