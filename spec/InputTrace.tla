----------------------------- MODULE InputTrace -----------------------------
(* What the initializer made of a description: the house (C18), the rows of *)
(* sunlight (C15) and acting temperature (C16) for chosen instants of the   *)
(* weather, the schedules of chosen days (C17); or that it refused (C19).   *)
EXTENDS Description, Json, IOUtils

Tr == LoadReals(IOEnv.TRACE)
VARIABLES k, bad, dev, seen
vars == <<k, bad, dev, seen>>
V(p, c, n, e, ok, v) == IF ok THEN {} ELSE {[p |-> p, c |-> c, n |-> n, e |-> e, v |-> v]}
DD(p, name, cond) == IF cond THEN {<<p, name>>} ELSE {}
Eq(a, b) == Near(a, b, N("1e-9"), N("1e-12"))
Eqs(a, b) == Show(a) \o " / " \o Show(b)
Nothing == [bad |-> {}, dev |-> {}]
Join(S) == [bad |-> UNION {x.bad : x \in S}, dev |-> UNION {x.dev : x \in S}]
Bad(S) == [bad |-> S, dev |-> {}]

(* ---- C18 -------------------------------------------------------------- *)
Room(D, o, i) == LET r == D.rooms[i]  s == o.spaces[i] IN UNION {
   V("C18", "room identity", k, i, s.id = r.id /\ s.name = r.name, s.name),
   V("C18", "volume", k, i, Eq(s.vol, r.vol), Eqs(s.vol, r.vol)),
   V("C18", "no convective share of radiant heating", k, i, Abs(s.beta) = Zero, Show(s.beta)),
   V("C18", "mechanical ventilation per second", k, i, Eq(s.mech, r.vent \oslash H), Eqs(s.mech, r.vent \oslash H)),
   V("C18", "window ventilation from air changes", k, i, Eq(s.nat, (r.vol \otimes r.nat) \oslash H), Eqs(s.nat, (r.vol \otimes r.nat) \oslash H)),
   V("C18", "air from other rooms", k, i, Len(s.next) = Len(D.rooms) /\ \A m \in 1..Len(D.rooms) : Eq(s.next[m], NextFlow(D, i, m)), ToString(Len(s.next))),
   V("C18", "furniture from volume", k, i, /\ Eq(s.cf, FrtHeat(r)) /\ Eq(s.gf, N("0.00022") \otimes FrtHeat(r))
                                             /\ Eq(s.cw, FrtMoist(r)) /\ Eq(s.gw, N("0.0018") \otimes FrtMoist(r)), Show(s.cf)),
   V("C18", "heating equipment", k, i, /\ s.radh = (r.heat.type = "radiative") /\ s.convh = (r.heat.type = "convective")
                                        /\ (s.radh => Eq(s.caph, r.heat.cap \otimes r.heat.area)), Show(s.caph)),
   V("C18", "cooling equipment", k, i, /\ s.radc = (r.cool.type = "radiative") /\ s.convc = (r.cool.type = "convective")
                                        /\ (s.radc => Eq(s.capc, r.cool.cap \otimes r.cool.area))
                                        /\ (s.convc => /\ Eq(s.qmin, r.cool.qmin) /\ Eq(s.qmax, r.cool.qmax)
                                                       /\ Eq(s.vmin, r.cool.vmin) /\ Eq(s.vmax, r.cool.vmax)), Show(s.capc)) }
Bd(D, o, j) == LET b == D.bds[j]  s == o.bds[j] IN UNION {
   V("C18", "boundary identity", k, j, s.id = b.id /\ s.name = b.name /\ s.room = b.room, s.name),
   V("C18", "area and coefficients", k, j, Eq(s.area, b.area) /\ Eq(s.hi, One \oslash b.ri) /\ Eq(s.hc, b.hc), Eqs(s.hi, One \oslash b.ri)),
   V("C18", "ground or not", k, j, s.ground = (b.type = "ground"), ToString(s.ground)),
   V("C18", "absorbs sunlight or not", k, j, s.abs = b.abs, ToString(s.abs)),
   V("C18", "weight around the person", k, j, Eq(s.fmh, PersonWeight(D, j)), Eqs(s.fmh, PersonWeight(D, j))),
   V("C18", "share of the emitter", k, j, Eq(s.flr, EmitterShare(D, j)), Eqs(s.flr, EmitterShare(D, j))),
   V("C18", "weight of the outside", k, j, Eq(s.kout, OutWeight(b)), Eqs(s.kout, OutWeight(b))),
   V("C18", "rear side", k, j, s.kin[1] = RearOf(b) /\ Eq(s.kin[2], RearWeight(b)), ToString(s.kin[1])),
   V("C18", "weights behind add up to one", k, j, Eq(s.kout \oplus s.kin[2], One), Show(s.kout)),
   V("C18", "construction", k, j,
      /\ s.spec.method = SpecMethod(b) /\ s.spec.type = b.type
      /\ (SpecMethod(b) = "u_value" => Eq(s.spec.u, b.u) /\ Eq(s.spec.ri, b.ri))
      /\ (SpecMethod(b) = "layers" => Eq(s.spec.ro, b.ro))
      /\ (SpecMethod(b) # "u_value" => /\ Len(s.spec.layers) = Len(b.layers)
                                       /\ \A m \in 1..Len(b.layers) : Eq(s.spec.layers[m].r, b.layers[m].r) /\ Eq(s.spec.layers[m].c, b.layers[m].c)),
      s.spec.method) }
House(D, o) == Bad(UNION {
   V("C18", "building", k, 0, o.story = D.story /\ o.pressure = D.pressure /\ Eq(o.cvalue, D.cvalue) /\ o.method = "balance_residential", o.pressure),
   V("C18", "every room once", k, 0, Len(o.spaces) = Len(D.rooms), ToString(Len(o.spaces))),
   V("C18", "every boundary once", k, 0, Len(o.bds) = Len(D.bds), ToString(Len(o.bds))) }
   \cup (IF Len(o.spaces) = Len(D.rooms) THEN UNION {Room(D, o, i) : i \in 1..Len(D.rooms)} ELSE {})
   \cup (IF Len(o.bds) = Len(D.bds) THEN UNION {Bd(D, o, j) : j \in 1..Len(D.bds)} ELSE {})
   \cup UNION {V("C18", "weights around the person add up to one", k, i,
        Near(Sum([j \in 1..Len(o.bds) |-> IF o.bds[j].room = i - 1 THEN o.bds[j].fmh ELSE Zero]), One, N("1e-9"), Zero), "-") : i \in 1..Len(D.rooms)})

(* ---- C15, C16 --------------------------------------------------------- *)
Window(b) == [depth |-> b.shade.depth, de |-> b.shade.de, dh |-> b.shade.dh]
Lit(b) == b.type = "external_transparent_part" /\ b.sun
Enters(s, b, bare) ==
  IF ~Lit(b) THEN Zero
  ELSE IF b.shade.has THEN Entering(s, b, ShadedDirect(s, b.dir, Window(b)), ShadedSky(Window(b)))
  ELSE Entering(s, b, bare, Zero)
SunRow(D, x) == Join({ LET s == x.w
       in(bare) == Sum([j \in 1..Len(D.bds) |-> IF D.bds[j].room = i - 1 THEN Enters(s, D.bds[j], bare) ELSE Zero])
       ok(v) == Near(x.q[i], v, N("1e-8"), N("1e-7"))
       right == ok(in(Zero))
       known == ~right /\ ok(in(One))
   IN [bad |-> V("C15", "sunlight entering the room", x.n, i, right \/ known, Eqs(x.q[i], in(Zero)))
               \cup V("C15", "sunlight never negative", x.n, i, N("-1e-7") \preceq x.q[i], Show(x.q[i])),
       dev |-> DD("C15", "no-overhang-shades-all", known)] : i \in 1..Len(D.rooms) })
TempRow(D, x, mean) == Bad(UNION { LET v == EqvTemp(x.w, D.bds[j], mean) IN
   V("C16", "acting temperature of a " \o D.bds[j].type, x.n, j, Near(x.tos[j], v, N("1e-9"), N("1e-7")), Eqs(x.tos[j], v))
   : j \in 1..Len(D.bds) })

(* ---- C17 -------------------------------------------------------------- *)
(* a day of a schedule for np people                                        *)
Mix(name, day, col, np) ==
  LET lo == Lower(np)
      w == np \ominus FromInt(lo)
      A == Tr.sched[lo][name][day][col]  B == Tr.sched[lo + 1][name][day][col]
  IN VAdd(VScale(One \ominus w, A), VScale(w, B))
SchedDay(rooms, np, d) == Join({ LET name == rooms[i].name  day == Tr.calendar[d.day]
      S(col) == Mix(name, day, col, np)
      got == d.rooms[i]
      ok(a, b) == VNear(a, b, N("1e-9"), N("1e-12"))
      base == VAdd(S("heat_generation_appliances"), VScale(rooms[i].area, S("heat_generation_lighting")))
      qg == VAdd(base, S("heat_generation_cooking"))
      xg == VScale(N("1e-3") \oslash H, S("vapor_generation_cooking"))
      qgS == VAdd(base, S("vapor_generation_cooking"))
      xgS == VScale(N("1e-3") \oslash H, S("heat_generation_cooking"))
      right == ok(got.qg, qg) /\ ok(got.xg, xg)
      known == ~right /\ ok(got.qg, qgS) /\ ok(got.xg, xgS)
   IN [bad |-> UNION {
         V("C17", "people", d.day, i, ok(got.nh, S("number_of_people")), VGap(got.nh, S("number_of_people"))),
         V("C17", "conditioning demand", d.day, i, ok(got.dem, S("is_temp_limit_set")), VGap(got.dem, S("is_temp_limit_set"))),
         V("C17", "local ventilation", d.day, i, ok(got.lv, VScale(One \oslash H, S("local_vent_amount"))), VGap(got.lv, VScale(One \oslash H, S("local_vent_amount")))),
         V("C17", "heat and moisture generated", d.day, i, right \/ known, VGap(got.qg, qg) \o " ; " \o VGap(got.xg, xg)) },
       dev |-> DD("C17", "cooking-swapped", known)] : i \in 1..Len(rooms) })

(* ---- one case ---------------------------------------------------------- *)
Described(c) ==
  LET D == c.desc  ok == Valid(D) IN
  IF c.what = "edited" /\ c.expected # ok THEN Assert(FALSE, <<"the harness does not say what Faults generated", D>>)
  ELSE IF c.refused THEN
    [bad |-> V("C19", "a valid description is accepted", k, 0, ~ok \/ NeedsDetailShading(D), c.what \o ": " \o c.error)
             \cup V("C19", "nothing is computed from a refused description", k, 0, ~c.written, c.what),
     dev |-> DD("C19", "detail-shading", ok /\ NeedsDetailShading(D))]
  ELSE IF ~ok THEN Bad(V("C19", "an invalid description is refused", k, 0, FALSE, c.what))
  ELSE Join({House(D, c.out)} \cup {SunRow(D, c.rows[x]) : x \in 1..Len(c.rows)}
            \cup {TempRow(D, c.rows[x], c.mean) : x \in 1..Len(c.rows)}
            \cup {SchedDay(D.rooms, Residents(Sum([i \in 1..Len(D.rooms) |-> D.rooms[i].area])), c.days[x]) : x \in 1..Len(c.days)}
            \cup {Bad(V("C17", "a value for every quarter of an hour", k, 0, c.lengths, "-"))})
Schedules(c) ==
  IF c.refused THEN Bad(V("C19", "a valid number of residents is accepted", k, 0, ~PeopleAllowed(c.np), Show(c.np)))
  ELSE IF ~PeopleAllowed(c.np) THEN Bad(V("C19", "a number of residents out of range is refused", k, 0, FALSE, Show(c.np)))
  ELSE Join({SchedDay(c.rooms, c.np, c.days[x]) : x \in 1..Len(c.days)} \cup {Bad(V("C17", "a year of values", k, 0, c.lengths, "-"))})
(* a calculation asked for on an input and on periods                      *)
CalcValid(c) == /\ c.method = "balance_residential" /\ c.story \in {1, 2} /\ c.pressure \in Pressures
                /\ \A j \in 1..Len(c.walls) : c.walls[j] \in BoundaryTypes \cup {"-"}
                /\ c.build <= c.run
Calculation(c) ==
  IF c.refused THEN Bad(V("C19", "a valid calculation is accepted", k, 0, ~CalcValid(c), c.what \o ": " \o c.error))
  ELSE Bad(V("C19", "an invalid calculation is refused", k, 0, CalcValid(c), c.what))
Floors(c) == Bad(UNION { V("C17", "residents by floor area", k, i, Eq(c.people[i], Residents(c.floors[i])), Eqs(c.people[i], Residents(c.floors[i]))) :
                          i \in 1..Len(c.floors) })
Judge(c) == CASE c.kind = "residents" -> Floors(c) [] c.kind = "house" -> Described(c) [] c.kind = "calc" -> Calculation(c) [] OTHER -> Schedules(c)
Situation(c) == IF c.kind = "residents" THEN <<"residents", ToString(Len(c.floors)), c.what>> ELSE IF c.kind = "calc" THEN <<"calculation", IF c.refused THEN "refused" ELSE "accepted", c.what>> ELSE IF c.kind = "house" THEN <<"house", IF c.refused THEN "refused" ELSE "accepted", c.what>>
                ELSE <<"schedules", IF c.refused THEN "refused" ELSE "accepted", "np " \o ToString(FloorInt(c.np))>>

Init == k = 1 /\ bad = {} /\ dev = {} /\ seen = {}
Next == \/ /\ k <= Len(Tr.cases)
           /\ LET v == Judge(Tr.cases[k]) IN
                /\ bad' = IF Cardinality(bad) > 60 THEN bad ELSE bad \cup v.bad
                /\ dev' = dev \cup v.dev
           /\ seen' = seen \cup {Situation(Tr.cases[k])}
           /\ k' = k + 1
        \/ /\ k = Len(Tr.cases) + 1
           /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, dev |-> dev, seen |-> seen, steps |-> k - 1])
           /\ k' = k + 1 /\ UNCHANGED <<bad, dev, seen>>
Spec == Init /\ [][Next]_vars
=============================================================================
