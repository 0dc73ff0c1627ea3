--------------------------- MODULE EnvelopeTrace ---------------------------
(* What the conversions made of envelopes: coefficients, losses, gains and  *)
(* constructions of parts (C23), houses from indices (C22), division over   *)
(* rooms (C21), the model house (C24).                                      *)
EXTENDS Envelope, Json, IOUtils

Tr == LoadReals(IOEnv.TRACE)
VARIABLES k, bad, seen
vars == <<k, bad, seen>>
V(p, c, e, ok, v) == IF ok THEN {} ELSE {[p |-> p, c |-> c, n |-> k, e |-> e, v |-> v]}
Eq(a, b) == Near(a, b, N("1e-9"), N("1e-9"))
Eqs(a, b) == Show(a) \o " / " \o Show(b)
Num(c, what, e, a, b) == V(c, what, e, Eq(a, b), Eqs(a, b))
Every(s, G(_)) == UNION {G(i) : i \in 1..Len(s)}

(* ---- C23 -------------------------------------------------------------- *)
Computable(s) == ~s.is_defined \/ s.input \in {"not_input", "simple"}
Gains(c, e, p, o, g(_, _)) ==       \* o = [mh, mc]; g is what they should be
  IF ~Computable(p.sunshade) /\ Exposed(p) THEN {}
  ELSE (IF c.region = 8 THEN {} ELSE Num("C23", "solar gain, heating season", e, o.mh, g(p, "heating")))
       \cup Num("C23", "solar gain, cooling season", e, o.mc, g(p, "cooling"))
ShadeHanded(s, d) ==
  IF ~s.is_defined \/ s.input = "not_exist" THEN d.existence = FALSE
  ELSE CASE s.input = "simple" -> d.existence /\ d.input_method = "simple" /\ Eq(d.depth, s.depth) /\ Eq(d.d_h, s.d_h) /\ Eq(d.d_e, s.d_e)
         [] s.input = "complex" -> /\ d.existence /\ d.input_method = "detailed"
                                   /\ \A x \in {"x1","x2","x3","y1","y2","y3","z_x_pls","z_x_mns","z_y_pls","z_y_mns"} : Eq(d[x], s[x])
         [] OTHER -> TRUE
Handover(c, e, p, d) ==            \* common to all parts
  UNION {V("C23", "room it belongs to", e, d.connected = SpaceId(p.space_type), p.name),
         Num("C23", "adjacency factor handed over", e, d.temp_dif_coef, H(p.next_space, c.region)),
         V("C23", "struck by the sun or not", e, d.is_sun_striked_outside = Exposed(p), p.name),
         V("C23", "orientation handed over", e, Exposed(p) => d.direction = p.direction, p.name),
         V("C23", "overhang handed over", e, ShadeHanded(p.sunshade, d.solar_shading_part), p.name)}
General(c, i) ==
  LET p == c.E.general_parts[i]  o == c.o.gps[i]  e == p.name  S == Sections(p)  add == Surcharge(p, c.uadd)
      g(q, season) == GeneralGain(q, c.region, season)
  IN UNION {
     Num("C23", "heat transmission coefficient", e, o.u, UOfSpec(p.spec)),
     Num("C23", "solar coefficient", e, o.eta, Emits \otimes UOfSpec(p.spec)),
     Num("C23", "heat loss", e, o.q, GeneralLoss(p, c.region)),
     Gains(c, e, p, o, g),
     V("C23", "one element per section", e, Len(o.init) = Len(S), ToString(Len(o.init))) }
   \cup IF Len(o.init) # Len(S) THEN {} ELSE UNION {
     LET d == o.init[m]  L == Tup(Handed(S[m], add)) IN
       Handover(c, e, p, d) \cup UNION {
       Num("C23", "area of the section", e, d.area, p.area \otimes S[m].ratio),
       V("C23", "kind of element", e, d.boundary_type = "external_general_part" /\ d.is_solar_absorbed_inside = AbsorbsInside(p), d.boundary_type),
       Num("C23", "inner surface resistance", e, d.inside_heat_transfer_resistance, S[m].ri),
       Num("C23", "outer surface resistance", e, d.outside_heat_transfer_resistance, S[m].ro),
       V("C23", "radiative properties", e, Eq(d.outside_emissivity, N("0.9")) /\ Eq(d.outside_solar_absorption, N("0.8")), "-"),
       V("C23", "one layer per layer", e, Len(d.layers) = Len(L), ToString(Len(d.layers))) }
       \cup (IF Len(d.layers) # Len(L) THEN {} ELSE UNION {
             Num("C23", "layer resistance", e, d.layers[n].thermal_resistance, L[n][1])
             \cup Num("C23", "layer capacity", e, d.layers[n].thermal_capacity, L[n][2]) : n \in 1..Len(L)})
       \cup (IF p.spec.structure = "other" /\ Bare(Kind(p)) \prec p.spec.u_value_other \otimes N("1.5") THEN {}   \* may be beyond the bare construction
             ELSE Num("C23", "total resistance is that of the coefficient", e,
                 (d.inside_heat_transfer_resistance \oplus Sum([n \in 1..Len(d.layers) |-> d.layers[n].thermal_resistance])) \oplus d.outside_heat_transfer_resistance,
                 N("1.0") \oslash (add \oplus (N("1.0") \oslash (S[m].ri \oplus Sum([n \in 1..Len(S[m].layers) |-> S[m].layers[n][1]]) \oplus S[m].ro)))))
     : m \in 1..Len(S)}
Opening(c, e, p, o, window) ==
  LET g(q, season) == IF window THEN WindowGain(q, c.region, season) ELSE DoorGain(q, c.region, season)
      d == o.init
  IN UNION {
     Num("C23", "heat transmission coefficient", e, o.u, p.spec.u_value),
     Num("C23", "heat loss", e, o.q, OpeningLoss(p, c.region)),
     Gains(c, e, p, o, g), Handover(c, e, p, d),
     Num("C23", "area", e, d.area, p.area),
     Num("C23", "coefficient handed over", e, d.u_value, p.spec.u_value),
     V("C23", "kind of element", e, d.boundary_type = (IF window THEN "external_transparent_part" ELSE "external_opaque_part")
                                    /\ ~d.is_solar_absorbed_inside, d.boundary_type),
     V("C23", "glass handed over", e, window => d.incident_angle_characteristics = p.spec.glass_type /\ Eq(d.eta_d_c_value, p.spec.eta_d_c_value)
                                                /\ (c.region # 8 => Eq(d.eta_d_h_value, p.spec.eta_d_h_value)), p.name),
     V("C23", "surface resistances", e, Eq(d.inside_heat_transfer_resistance, N("0.13")) /\ Eq(d.outside_heat_transfer_resistance, N("0.04")), "-")}
Evaluated(c) ==     \* the evaluation function on the document
  IF c.ev = <<>> THEN {} ELSE LET ev == c.ev[1] IN UNION {
    Num("C22", "mean transmission coefficient of an envelope", "-", ev.ua, UA(c.E, c.region)),
    Num("C22", "cooling solar coefficient of an envelope", "-", ev.ec, EtaA(c.E, c.region, "cooling")),
    IF c.region = 8 THEN V("C22", "no heating season in region 8", "-", ev.eh = <<>>, "-")
    ELSE Num("C22", "heating solar coefficient of an envelope", "-", ev.eh, EtaA(c.E, c.region, "heating"))}
Parts(c) ==
  LET gp(i) == General(c, i)
      w(i) == Opening(c, c.E.windows[i].name, c.E.windows[i], c.o.ws[i], TRUE)
      d(i) == Opening(c, c.E.doors[i].name, c.E.doors[i], c.o.ds[i], FALSE)
      hb(i) == LET p == c.E.heat_bridges[i]  o == c.o.hbs[i] IN
         Num("C23", "heat loss of a thermal bridge", p.name, o.q, BridgeLoss(p, c.region))
         \cup (IF c.region = 8 THEN {} ELSE Num("C23", "solar gain of a thermal bridge, heating season", p.name, o.mh, BridgeGain(p, c.region, "heating")))
         \cup Num("C23", "solar gain of a thermal bridge, cooling season", p.name, o.mc, BridgeGain(p, c.region, "cooling"))
      ep(i) == LET p == c.E.earthfloor_perimeters[i] IN Num("C23", "heat loss of an earth floor edge", p.name, c.o.eps[i].q, EdgeLoss(p, c.region))
  IN UNION {Every(c.E.general_parts, gp), Every(c.E.windows, w), Every(c.E.doors, d), Every(c.E.heat_bridges, hb),
            Every(c.E.earthfloor_perimeters, ep), Evaluated(c),
            V("C23", "a part written is the part read", "-", c.E = c.back, "-")}

(* ---- C22 -------------------------------------------------------------- *)
Index(c) ==
  LET E == c.E  R == c.region
      co == Tup(Coefficients(E))  f == CommonFactor(co, R)
      ua == UA(E, R)
      full == \A i \in 1..Len(co) : Eq(co[i][2], Bare(co[i][1]))
      opq(s) == OpaqueGains(E, R, s)
      win(s) == LET w(p) == WindowFactor(p, R, s) IN SumOver(E.windows, w)
      target(s) == (IF s = "heating" THEN c.eta_a_h ELSE c.eta_a_c)
      wanted(s) == (((target(s) \oslash N("100.0")) \otimes EnvelopeArea(E)) \ominus opq(s)) \oslash win(s)
      eta(s) == Min2(N("0.88"), Max2(N("0.0"), wanted(s)))
      got(i, s) == IF s = "heating" THEN E.windows[i].spec.eta_d_h_value ELSE E.windows[i].spec.eta_d_c_value
  IN UNION {
     V("C22", "one factor for all coefficients", "-", \A i \in 1..Len(co) : Eq(co[i][2], Scaled(co[i][1], R, f)),
       ToString([i \in 1..Len(co) |-> <<co[i][1], Show(co[i][2]), Show(Scaled(co[i][1], R, f))>>])),
     V("C22", "the coefficient asked for", "-", Eq(ua, c.u_a) \/ (full /\ ua \prec c.u_a), Eqs(ua, c.u_a)),
     Num("C22", "evaluated coefficient", "-", c.ev.ua, ua),
     Num("C22", "evaluated cooling solar coefficient", "-", c.ev.ec, EtaA(E, R, "cooling")),
     V("C22", "a heating coefficient where there is heating", "-", (R = 8) = (c.ev.eh = <<>>), "-"),
     UNION {Num("C22", "glass for the cooling season", E.windows[i].name, got(i, "cooling"), eta("cooling")) : i \in 1..Len(E.windows)},
     IF R = 8 THEN {} ELSE
       Num("C22", "evaluated heating solar coefficient", "-", c.ev.eh, EtaA(E, R, "heating"))
       \cup UNION {Num("C22", "glass for the heating season", E.windows[i].name, got(i, "heating"), eta("heating")) : i \in 1..Len(E.windows)},
     UNION {LET w == wanted(s) IN
            IF N("0.0") \preceq w /\ w \preceq N("0.88") THEN Num("C22", "the solar coefficient asked for, " \o s, "-", EtaA(E, R, s), target(s)) ELSE {}
            : s \in {x \in Seasons : SeasonExists(R, x)}} }

(* every kind of part, in use or not *)
Calibrated(c) ==
  LET co == Tup(Coefficients(c.E))  f == CommonFactor(co, c.region)
      full == \A i \in 1..Len(co) : Eq(co[i][2], Bare(co[i][1]))
  IN V("C22", "every kind of part", "-", {c.upsi[i][1] : i \in 1..Len(c.upsi)} = {"roof", "ceiling", "wall", "floor", "boundary_ceiling",
         "boundary_wall", "boundary_floor", "window", "door", "earthfloor_perimeter"}, "-")
     \cup UNION {Num("C22", "one factor for all kinds", c.upsi[i][1], c.upsi[i][2],
              IF full THEN Bare(c.upsi[i][1]) ELSE Scaled(c.upsi[i][1], c.region, f)) : i \in 1..Len(c.upsi)}

(* ---- C21 -------------------------------------------------------------- *)
Same(a, b, fields) == \A x \in fields : a[x] = b[x]
Total(s, size) == Sum([i \in 1..Len(s) |-> s[i][size]])
Divided(c, what, s2, s3, size, fields) ==
  LET piece(q, p, t) == q.space_type = t /\ q.name = p.name \o "_" \o t /\ Same(q, p, fields)
      sized(q, p, t) == piece(q, p, t) /\ Eq(q[size], p[size] \otimes Share(c.common, t))
      twins(p) == {m \in 1..Len(s2) : s2[m].name = p.name /\ Same(s2[m], p, fields)}        \* parts may be alike
      equals(p, t) == {m \in twins(p) : Eq(s2[m][size] \otimes Share(c.common, t), p[size] \otimes Share(c.common, t))}
      rooms == {Occupied[r] : r \in 1..3}
  IN V("C21", what \o ": one in every room", "-", Len(s3) = 3 * Len(s2), ToString(Len(s3)))
     \cup UNION {V("C21", what \o ": the same part in every room", <<s2[i].name, t>>,
            Cardinality({j \in 1..Len(s3) : piece(s3[j], s2[i], t)}) = Cardinality(twins(s2[i])), "-") : i \in 1..Len(s2), t \in rooms}
     \cup UNION {V("C21", what \o ": size by floor area", <<s2[i].name, t>>,
            Cardinality({j \in 1..Len(s3) : sized(s3[j], s2[i], t)}) = Cardinality(equals(s2[i], t)),
            Show(s2[i][size] \otimes Share(c.common, t))) : i \in 1..Len(s2), t \in rooms}
     \cup Num("C21", what \o ": total size", "-", Total(s3, size), Total(s2, size))
Crawl(what, s2, s3, fields) ==
  V("C21", what, "-", Len(s2) = Len(s3) /\ \A i \in 1..Len(s2) : Same(s3[i], s2[i], fields) /\ s3[i].space_type = "underfloor", ToString(Len(s3)))
Split(c, lv2) == UNION {
   Divided(c, "walls and floors", lv2.general_parts, c.lv3.general_parts, "area", {"general_part_type", "next_space", "direction", "spec", "sunshade"}),
   Divided(c, "windows", lv2.windows, c.lv3.windows, "area", {"next_space", "direction", "spec", "sunshade"}),
   Divided(c, "doors", lv2.doors, c.lv3.doors, "area", {"next_space", "direction", "spec", "sunshade"}),
   Divided(c, "thermal bridges", lv2.heat_bridges, c.lv3.heat_bridges, "length", {"next_spaces", "directions", "spec"}),
   Crawl("earth floor edges go to the crawl space", lv2.earthfloor_perimeters, c.lv3.earthfloor_perimeters, {"name", "next_space", "length", "spec"}),
   Crawl("earth floors go to the crawl space", lv2.earthfloor_centers, c.lv3.earthfloor_centers, {"name", "area", "spec"}) }
RoomSet == {Occupied[i] : i \in 1..3}
(* a claim that only holds while a crawl space is not larger than the inner floors over it *)
Fits(C, E) == Earth(E, "underfloor") \preceq InnerFloors(C, E) \oplus N("1e-9")
Inner(c) ==
  LET C == c.common  E == c.lv3  X == c.lv4
      fl(t, u) == {j \in 1..Len(X.inner_floors) : X.inner_floors[j].upper_space_type = t /\ X.inner_floors[j].lower_space_type = u}
      wl(t, u) == {j \in 1..Len(X.inner_walls) : {X.inner_walls[j].space_type_1, X.inner_walls[j].space_type_2} = {t, u}}
      due(t, u) == IF u = "underfloor" THEN OverCrawl(C, E, t) ELSE OverRoom(C, E, t, u)
      sumF(P(_)) == Where(X.inner_floors, P, AreaOf)
      sumW(P(_)) == Where(X.inner_walls, P, AreaOf)
  IN UNION {
     V("C21", "the envelope is left as it is", "-", \A x \in {"general_parts", "windows", "doors", "heat_bridges", "earthfloor_perimeters", "earthfloor_centers"} : X[x] = E[x], "-"),
     V("C21", "inner floors lie between two different spaces", "-", \A j \in 1..Len(X.inner_floors) :
         LET f == X.inner_floors[j] IN f.upper_space_type \in RoomSet /\ f.lower_space_type \in RoomSet \cup {"underfloor"} /\ f.upper_space_type # f.lower_space_type
             /\ N("0.0") \prec f.area, "-"),
     V("C21", "inner walls stand between two different rooms", "-", \A j \in 1..Len(X.inner_walls) :
         LET w == X.inner_walls[j] IN w.space_type_1 \in RoomSet /\ w.space_type_2 \in RoomSet /\ w.space_type_1 # w.space_type_2 /\ N("0.0") \prec w.area, "-"),
     UNION {LET a == due(t, u)  S == fl(t, u) IN
            IF S = {} THEN V("C21", "a missing inner floor", <<t, u>>, a \preceq N("1e-9"), Show(a))
            ELSE V("C21", "an inner floor twice", <<t, u>>, Cardinality(S) = 1, "-")
                 \cup UNION {Num("C21", "area of an inner floor", <<t, u>>, X.inner_floors[j].area, a) : j \in S}
            : t \in RoomSet, u \in RoomSet \cup {"underfloor"}},
     UNION {LET a == Partition(C, E, p[1], p[2])  S == wl(p[1], p[2]) IN
            IF S = {} THEN V("C21", "a missing inner wall", p, a \preceq N("1e-9"), Show(a))
            ELSE V("C21", "an inner wall twice", p, Cardinality(S) = 1, "-")
                 \cup UNION {Num("C21", "area of an inner wall", p, X.inner_walls[j].area, a) : j \in S}
            : p \in {<<Occupied[1], Occupied[2]>>, <<Occupied[1], Occupied[3]>>, <<Occupied[2], Occupied[3]>>}},
     UNION {IF Exists(C, t) /\ Others(C, t) # {} /\ Fits(C, E)
            THEN LET P(f) == f.upper_space_type = t IN
                 Num("C21", "floors of a room add up to its floor area", t, sumF(P), InnerFloor(C, E, t)) ELSE {} : t \in RoomSet},
     LET P(f) == f.lower_space_type = "underfloor" IN
     IF N("0.0") \prec InnerFloors(C, E) THEN Num("C21", "the crawl space is covered", "-", sumF(P), Earth(E, "underfloor")) ELSE {},
     UNION {LET a == InnerWall(C, E, t)  o == Others(C, t)
                P(w) == t \in {w.space_type_1, w.space_type_2}
            IN IF Exists(C, t) /\ Cardinality(o) = 2 /\ a \preceq Sum([r \in 1..3 |-> IF Occupied[r] = t THEN N("0.0") ELSE InnerWall(C, E, Occupied[r])])
                  /\ \A u \in o : InnerWall(C, E, u) \preceq Sum([r \in 1..3 |-> IF Occupied[r] = u THEN N("0.0") ELSE InnerWall(C, E, Occupied[r])])
               THEN Num("C21", "inner walls of a room", t, sumW(P), a) ELSE {} : t \in RoomSet},
     V("C21", "construction of inner floors", "-", \A j \in 1..Len(X.inner_floors) : LET l == X.inner_floors[j].spec.layers IN
         Len(l) = 1 /\ Eq(LayerR(l[1]), N("0.15")) /\ Eq(LayerC(l[1]), N("17.28")), "-"),
     V("C21", "construction of inner walls", "-", \A j \in 1..Len(X.inner_walls) : LET l == X.inner_walls[j].spec.layers IN
         /\ Len(l) = 3 /\ Eq(LayerR(l[1]), N("0.0125") \oslash N("0.22")) /\ Eq(LayerR(l[3]), LayerR(l[1])) /\ Eq(LayerR(l[2]), N("0.09"))
         /\ Eq(LayerC(l[1]), N("10.375")) /\ Eq(LayerC(l[3]), N("10.375")) /\ Eq(LayerC(l[2]), N("0.0")), "-") }
Rooms(c) ==
  IF c.refused THEN V("C21", "a house with a main room is divided", "-", ~Exists(c.common, Occupied[1]), c.error)
  ELSE V("C21", "a house without a main room is refused", "-", Exists(c.common, Occupied[1]), "-")
       \cup (IF c.lv2 = <<>> THEN {} ELSE Split(c, c.lv2[1])) \cup Inner(c)

(* ---- C24 -------------------------------------------------------------- *)
V4(what, a, b) == V("C24", what, "-", Len(a) = 4 /\ VNear(a, b, N("1e-9"), N("1e-9")), ToString([i \in 1..Len(a) |-> Show(a[i])]))
At(m, x) == [i \in 1..4 |-> IF i = m THEN x ELSE N("0.0")]
Plus(v, w) == Tup([i \in 1..4 |-> v[i] \oplus w[i]])
Times(x, v) == Tup([i \in 1..4 |-> x \otimes v[i]])
Box(c) ==
  LET I == c.inp  o == c.out  M == House(I)  S == Len(M.floors)
      det == I.house_type = "detached"
      (* the earth-floored entrance and bath have two sides outdoors (90 and 180 degrees)
         and, over a crawl space, two sides inside *)
      edges(a) == IF det THEN <<N("0.0"), a[2], a[1], N("0.0")>> ELSE Z4
      etrcOut == edges(M.entrance)
      bathOut == IF M.bathOnGround THEN edges(M.bath) ELSE Z4
      inner(a, there) == IF there /\ det /\ ~M.base THEN a[1] \oplus a[2] ELSE N("0.0")
      etrcIn == inner(M.entrance, TRUE)  bathIn == inner(M.bath, M.bathOnGround)
      rect(a) == a[1] \otimes a[2]
      gross(f) == Sum([s \in 1..S |-> M.heights[s] \otimes (IF f % 2 = 1 THEN o.l_ms[s] ELSE o.l_os[s])])
      plan == IF M.base THEN <<o.l_ms[1], o.l_os[1], o.l_ms[1], o.l_os[1]>> ELSE Plus(etrcOut, bathOut)
      otherOut == IF M.base THEN Tup([i \in 1..4 |-> (plan[i] \ominus etrcOut[i]) \ominus bathOut[i]]) ELSE Z4
      baseOut == Plus(Plus(Times(M.hEntrance, etrcOut), Times(M.hBath, bathOut)), Times(M.hOther, otherOut))
      baseIn == (M.hEntrance \otimes etrcIn) \oplus (M.hBath \otimes bathIn)
      faces == Sum([f \in 1..4 |-> gross(f)])
      notBase == ((N("2.0") \otimes M.floors[1]) \oplus faces)
      total == notBase \oplus Sum(baseOut) \oplus baseIn
      openings == I.r_open \otimes notBase
      ef == IF ~det THEN N("0.0") ELSE IF M.base THEN M.floors[1] ELSE rect(M.entrance) \oplus (IF M.bathOnGround THEN rect(M.bath) ELSE N("0.0"))
      win == Times(openings \ominus Sum(M.doors), M.windows)
  IN UNION {
     V("C24", "floor areas", "-", Len(o.a_f) = S /\ VNear(o.a_f, M.floors, N("1e-9"), N("1e-9")) /\ Eq(Sum(o.a_f), I.a_f_total), Show(Sum(o.a_f))),
     UNION {Num("C24", "perimeter of a storey", s, o.l_prm[s], N("2.0") \otimes (o.l_ms[s] \oplus o.l_os[s]))
            \cup V("C24", "a storey has its floor area", s, (o.f_s[s] \prec N("1.0")) \/ Eq(o.l_ms[s] \otimes o.l_os[s], M.floors[s]), Show(o.l_ms[s] \otimes o.l_os[s]))
            \cup Num("C24", "shape of a storey", s, o.l_prm[s], N("4.0") \otimes Sqrt(M.floors[s]) \otimes o.f_s[s])
            \cup V("C24", "the longer side of a storey", s, IF det THEN o.l_os[s] \preceq o.l_ms[s] ELSE o.l_ms[s] \preceq o.l_os[s], Eqs(o.l_ms[s], o.l_os[s])) : s \in 1..S},
     V("C24", "proportion of the storeys' shapes", "-", \A s \in 1..S : Eq(o.f_s[s] \otimes M.shape[1], o.f_s[1] \otimes M.shape[s]), "-"),
     IF I.a_env_input = <<>> THEN V("C24", "shape when no envelope area is given", "-", VNear(o.f_s, M.shape, N("1e-9"), N("1e-9")), "-")
     ELSE V("C24", "the envelope area asked for", "-", Eq(o.a_evp_total, I.a_env_input)
              \/ (Eq(o.f_s[S], N("1.0")) /\ I.a_env_input \prec o.a_evp_total), Eqs(o.a_evp_total, I.a_env_input)),
     V("C24", "faces of every storey", "-", \A f \in 1..4 : Eq(Sum(o.a_evp_srf[f]), gross(f)), "-"),
     V4("a face is its wall, windows and doors", Plus(Plus(o.a_evp_wall, o.a_evp_window), o.a_evp_door), [f \in 1..4 |-> gross(f)]),
     V4("doors", o.a_evp_door, M.doors),
     V4("windows", o.a_evp_window, win),
     Num("C24", "opening ratio", "-", o.a_evp_open_total, openings),
     Num("C24", "openings are windows and doors", "-", Sum(o.a_evp_window) \oplus Sum(o.a_evp_door), o.a_evp_open_total),
     Num("C24", "roof", "-", o.a_evp_roof, M.floors[1]),
     Num("C24", "earth floor", "-", o.a_evp_ef_total, ef),
     Num("C24", "ground floor is earth floor and floor", "-", o.a_evp_ef_total \oplus o.a_evp_f_total, M.floors[1]),
     V4("earth floor edges outdoors", o.l_base_total_outside, plan),
     Num("C24", "earth floor edges inside", "-", o.l_base_total_inside, etrcIn \oplus bathIn),
     V4("bases outdoors", o.a_evp_base_total_outside, baseOut),
     Num("C24", "bases inside", "-", o.a_evp_base_total_inside, baseIn),
     Num("C24", "envelope without bases", "-", o.a_evp_total_not_base, notBase),
     Num("C24", "envelope area", "-", o.a_evp_total, total),
     IF ~c.admissible THEN {} ELSE
       V("C24", "nothing negative", "-", \A x \in {"a_evp_wall", "a_evp_window", "a_evp_door", "l_base_total_outside", "a_evp_base_total_outside", "l_base_other_outside"} :
           \A f \in 1..4 : N("-1e-9") \preceq o[x][f], "-")
       \cup V("C24", "nothing negative", "-", N("-1e-9") \preceq o.a_evp_f_total /\ N("-1e-9") \preceq o.a_evp_ef_other, "-") }
(* the parts of the model house: <<sort, kind, next, direction, size>>      *)
P5(s, kd, nx, dr, a) == [sort |-> s, kind |-> kd, next |-> nx, dir |-> dr, size |-> a]
Points == <<"sw", "nw", "ne", "se">>
HouseParts(I, o) ==
  LET det == I.house_type = "detached"  base == det /\ I.floor_ins_type = "base"
      dirs == IF det THEN Points ELSE <<"sw", "nw", "horizontal", "horizontal">>
      nxt == IF det THEN <<"outdoor", "outdoor", "outdoor", "outdoor">> ELSE <<"outdoor", "outdoor", "open_space", "air_conditioned">>
      wallKind(f) == IF ~det /\ f = 4 THEN "boundary_wall" ELSE "wall"
      bases == IF ~det THEN {} ELSE IF base THEN 1..4 ELSE {2, 3}
  IN {IF det THEN P5("gp", "ceiling", "outdoor", "top", o.a_evp_roof) ELSE P5("gp", "upward_boundary_floor", "air_conditioned", "upward", o.a_evp_roof)}
     \cup {P5("gp", wallKind(f), nxt[f], dirs[f], o.a_evp_wall[f]) : f \in 1..4}
     \cup (IF base THEN {} ELSE {IF det THEN P5("gp", "floor", "open_underfloor", "downward", o.a_evp_f_total)
                                 ELSE P5("gp", "downward_boundary_floor", "air_conditioned", "downward", o.a_evp_f_total)})
     \cup {P5("gp", "wall", "outdoor", Points[f], o.a_evp_base_total_outside[f]) : f \in bases}
     \cup (IF det /\ ~base THEN {P5("gp", "wall", "open_underfloor", "horizontal", o.a_evp_base_total_inside)} ELSE {})
     \cup {P5("win", "-", nxt[f], dirs[f], o.a_evp_window[f]) : f \in IF det THEN 1..4 ELSE 1..3}
     \cup {P5("door", "-", nxt[f], dirs[f], o.a_evp_door[f]) : f \in IF det THEN {2, 3} ELSE {3}}
     \cup {P5("edge", "-", "outdoor", "-", o.l_base_total_outside[f]) : f \in bases}
     \cup (IF det /\ ~base THEN {P5("edge", "-", "open_underfloor", "-", o.l_base_total_inside)} ELSE {})
     \cup (IF det THEN {P5("earth", "-", "-", "-", o.a_evp_ef_total)} ELSE {})
Like(a, b) == a.sort = b.sort /\ a.kind = b.kind /\ a.next = b.next /\ a.dir = b.dir /\ Eq(a.size, b.size)
Assembled(I, o, parts) ==
  LET due == HouseParts(I, o) IN UNION {
   V("C24", "a part of the model house is missing", "-", \A d \in due : \E i \in 1..Len(parts) : Like(d, parts[i]),
     ToString({<<d.sort, d.kind, d.next, d.dir, Show(d.size)>> : d \in {x \in due : ~\E i \in 1..Len(parts) : Like(x, parts[i])}})),
   V("C24", "a part that is not of the model house", "-", \A i \in 1..Len(parts) : \E d \in due : Like(d, parts[i]), "-"),
   Num("C24", "the parts make up the envelope", "-", Sum([i \in 1..Len(parts) |-> IF parts[i].sort = "edge" THEN N("0.0") ELSE parts[i].size]), o.a_evp_total),
   Num("C24", "the edges make up the plan", "-", Sum([i \in 1..Len(parts) |-> IF parts[i].sort = "edge" THEN parts[i].size ELSE N("0.0")]), Sum(o.l_base_total_outside) \oplus o.l_base_total_inside) }
Model(c) == Box(c) \cup Assembled(c.inp, c.out, c.parts)
            \cup (IF c.kind = "index" THEN V("C22", "the envelope area asked for", "-", Eq(EnvelopeArea(c.E), c.out.a_evp_total), Eqs(EnvelopeArea(c.E), c.out.a_evp_total)) ELSE {})

(* ---- C25: from the house to its rooms ---------------------------------- *)
SurfaceKnown(kd, nx) == CASE kd = "ceiling" -> nx # "outdoor"
                          [] kd \in {"boundary_wall", "upward_boundary_floor", "downward_boundary_floor"} -> nx = "air_conditioned"
                          [] OTHER -> TRUE
InsideOf(kd) == CASE kd \in {"roof", "ceiling", "upward_boundary_floor"} -> N("0.09")
                  [] kd \in {"wall", "boundary_wall"} -> N("0.11")
                  [] OTHER -> N("0.15")
Surfaces(c) == UNION {LET s == c.surfaces[i] IN
   V("C25", "surface resistances that exist", <<s.kind, s.next>>, s.given = SurfaceKnown(s.kind, s.next), "-")
   \cup (IF ~s.given THEN {} ELSE Num("C25", "surface resistance inside", <<s.kind, s.next>>, s.ri, InsideOf(s.kind))
            \cup Num("C25", "surface resistance outside", <<s.kind, s.next>>, s.ro, IF s.next = "outdoor" THEN N("0.04") ELSE InsideOf(s.kind)))
   : i \in 1..Len(c.surfaces)}
RoomAir(c) ==
  LET main == c.common.main_occupant_room_floor_area
      other == c.common.other_occupant_room_floor_area
      air == (c.common.total_floor_area \otimes N("2.4")) \otimes (c.rate \otimes N("1.1"))
      area(t) == CASE t = "main_occupant_room" -> main [] t = "other_occupant_room" -> other
                   [] t = "non_occupant_room" -> c.non [] t = "underfloor" -> c.uf
      high(t) == IF t = "underfloor" THEN N("0.4") ELSE N("2.4")
      due == {t \in RoomSet \cup {"underfloor"} : N("0.0") \prec area(t)}
      fresh(t) == IF t \in {"main_occupant_room", "other_occupant_room"} THEN (air \otimes area(t)) \oslash (main \oplus other) ELSE N("0.0")
      from(t) == IF t = "main" THEN "main_occupant_room" ELSE "other_occupant_room"
      room(t) == CHOOSE i \in 1..Len(c.rooms) : c.rooms[i].room_type = t
      P(x) == x.space_type = "underfloor"
  IN Num("C25", "area of the crawl space", "-", c.uf, Where(c.earths, P, AreaOf)) \cup
     IF c.no_main THEN V("C25", "rooms of a house without a main room are refused", "-", c.refused, "-")
     ELSE IF c.refused THEN V("C25", "rooms of a house with a main room", "-", FALSE, "refused")
     ELSE V("C25", "a room for every space that has an area, once", "-",
              {c.rooms[i].room_type : i \in 1..Len(c.rooms)} = due /\ Len(c.rooms) = Cardinality(due), ToString(due))
     \cup UNION {LET r == c.rooms[i]  t == r.room_type  nv == r.next_vent IN UNION {
          Num("C25", "volume", t, r.volume, area(t) \otimes high(t)),
          Num("C25", "outdoor air", t, r.vent, fresh(t)),
          V("C25", "window air", t, Eq(r.natural_vent_time, CASE t = "main_occupant_room" -> c.natural[1]
              [] t = "other_occupant_room" -> c.natural[2] [] OTHER -> N("0.0")), Show(r.natural_vent_time)),
          V("C25", "air tightness", t, Eq(r.c_value, N("5.0")), Show(r.c_value)),
          V("C25", "air from rooms that exist, only into the rest of the house", t,
              {nv[m].upstream_room_name : m \in 1..Len(nv)} =
                 (IF t # "non_occupant_room" THEN {} ELSE {x \in {"main", "other"} : from(x) \in due})
              /\ \A m, q \in 1..Len(nv) : m # q => nv[m].upstream_room_name # nv[q].upstream_room_name, "-"),
          UNION {Num("C25", "air passed on is the air taken in", t, nv[m].volume, fresh(from(nv[m].upstream_room_name))) : m \in 1..Len(nv)} }
          : i \in 1..Len(c.rooms)}
     \cup Num("C25", "outdoor air of the whole house", "-", Sum([i \in 1..Len(c.rooms) |-> c.rooms[i].vent]), air)
Kept(c) == UNION {
   Num("C25", "transmission coefficient at every level", l, c.ev[l].ua, UA(c.lv2, c.region))
   \cup Num("C25", "cooling solar coefficient at every level", l, c.ev[l].ec, EtaA(c.lv2, c.region, "cooling"))
   \cup (IF c.region = 8 THEN V("C25", "no heating season in region 8", l, c.ev[l].eh = <<>>, "-")
         ELSE Num("C25", "heating solar coefficient at every level", l, c.ev[l].eh, EtaA(c.lv2, c.region, "heating")))
   : l \in 1..3}
Chained(c) == Kept(c) \cup RoomAir(c) \cup Surfaces(c)

(* ---- *)
Judge(c) == CASE c.kind = "parts" -> Parts(c) [] c.kind = "index" -> Index(c) \cup Model(c)
              [] c.kind = "calib" -> Index(c) \cup Calibrated(c)
              [] c.kind = "rooms" -> Rooms(c) [] c.kind = "box" -> Model(c)
              [] c.kind = "chain" -> Chained(c)
Situation(c) == CASE c.kind = "parts" -> {<<"region", c.region, c.E.general_parts[i].spec.structure, c.E.general_parts[i].general_part_type>> : i \in 1..Len(c.E.general_parts)}
                                         \cup {<<"window", c.E.windows[i].direction, IF c.E.windows[i].sunshade.is_defined THEN c.E.windows[i].sunshade.input ELSE "none">> : i \in 1..Len(c.E.windows)}
                  [] c.kind = "index" -> {<<"index", c.region, c.inp.house_type>>}
                  [] c.kind = "calib" -> {<<"calibrated", c.region, Len(c.E.doors) > 0, Len(c.E.earthfloor_perimeters) > 0>>}
                  [] c.kind = "rooms" -> {<<"rooms", Cardinality({t \in RoomSet : Exists(c.common, t)}), IF c.refused THEN "refused" ELSE "divided">>}
                  [] c.kind = "chain" -> {<<"chain", c.region, Cardinality({c.rooms[i].room_type : i \in 1..Len(c.rooms)}), c.no_main>>}
                  [] c.kind = "box" -> {<<"box", c.inp.house_type, c.inp.floor_ins_type, c.inp.bath_ins_type, IF c.inp.a_env_input = <<>> THEN "free" ELSE "given">>}
Init == k = 1 /\ bad = {} /\ seen = {}
Next == \/ /\ k <= Len(Tr.cases)
           /\ bad' = IF Cardinality(bad) > 60 THEN bad ELSE bad \cup Judge(Tr.cases[k])
           /\ seen' = seen \cup Situation(Tr.cases[k])
           /\ k' = k + 1
        \/ /\ k = Len(Tr.cases) + 1
           /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, dev |-> {}, seen |-> seen, steps |-> k - 1])
           /\ k' = k + 1 /\ UNCHANGED <<bad, seen>>
Spec == Init /\ [][Next]_vars
=============================================================================
