---------------------------- MODULE WeatherTrace ----------------------------
(* A weather table made by the code, read forward in time: each step is one *)
(* recorded row, at step n of the year (n = 0 is 0:00 of 1 January).        *)
EXTENDS Sun, FiniteSets, Json, IOUtils, TLC

Tr == LoadReals(IOEnv.TRACE)
per == Tr.per
region == Tr.region
VARIABLES k, bad, seen
vars == <<k, bad, seen>>
V(c, n, e, ok, v) == IF ok THEN {} ELSE {[p |-> "C14", c |-> c, n |-> n, e |-> e, v |-> v]}

(* source rows are recorded for the hours around the rows: src[h] for hour h *)
Src(hour, col) == Tr.src[SourceAt(hour)][col]

Row(r, orbit) ==
  LET n == r.n
      hour == n \div per
      part == n % per
      t == FromInt(hour % 24) \oplus (FromInt(part) \oslash FromInt(per))
      w == HourAngle(region, orbit, t)
      Want(col) == Between(Src(hour, col), Src(hour + 1, col), part, per)
  IN UNION {
    V("temperature", n, region, Near(r.t, Want(1), Zero, N("5.01e-4")), Show(r.t) \o " / " \o Show(Want(1))),
    V("direct radiation", n, region, Near(r.dn, Want(2), N("1e-9"), N("1e-9")), Show(r.dn) \o " / " \o Show(Want(2))),
    V("sky radiation", n, region, Near(r.sky, Want(3), N("1e-9"), N("1e-9")), Show(r.sky) \o " / " \o Show(Want(3))),
    V("night radiation", n, region, Near(r.rn, Want(4), N("1e-9"), N("1e-9")), Show(r.rn) \o " / " \o Show(Want(4))),
    V("humidity ratio in kg/kg", n, region, Near(r.x, Want(5) \oslash N("1000.0"), Zero, N("5.01e-7")), Show(r.x) \o " / " \o Show(Want(5))),
    V("position of the sun", n, region,
       /\ VAllFinite(<<r.h, r.a>>) /\ AngleInRange(r.h, r.a)
       /\ SameDirection(r.h, r.a, SinAlt(region, orbit, w), West(region, orbit, w), South(region, orbit, w), N("1e-9")),
       Show(r.h) \o " " \o Show(r.a)) }

Day(d) == LET orbit == Orbit(d.day) IN UNION {Row(d.rows[i], orbit) : i \in 1..Len(d.rows)}

Table == UNION {
    V("a year of rows", 0, region, Tr.length = 8760 * per, ToString(Tr.length)),
    V("rows are stamped with their time", 0, region, Tr.stamps, "-"),
    V("the file written is the table returned", 0, region, Tr.same_file, "-"),
    V("making the table again gives the same table", 0, region, Tr.same_again, "-") }

Init == k = 1 /\ bad = Table /\ seen = {}
Next == \/ /\ k <= Len(Tr.days)
           /\ bad' = IF Cardinality(bad) > 40 THEN bad ELSE bad \cup Day(Tr.days[k])
           /\ seen' = seen \cup {<<"region", region, "steps/h", per>>}
           /\ k' = k + 1
        \/ /\ k = Len(Tr.days) + 1
           /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, dev |-> {}, seen |-> seen, steps |-> Tr.steps])
           /\ k' = k + 1 /\ UNCHANGED <<bad, seen>>
Spec == Init /\ [][Next]_vars
=============================================================================
