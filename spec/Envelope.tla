------------------------------ MODULE Envelope ------------------------------
(***************************************************************************)
(* The envelope of a house as the energy standard describes it: parts and  *)
(* their heat loss and solar gain, the indices of an envelope, the model   *)
(* house (a box with the areas asked for), its division over rooms, and    *)
(* the construction handed to the calculation.                             *)
(*                                                                         *)
(* Parts are records with the field names of the JSON documents:           *)
(*  general part [name, general_part_type, next_space, direction, area,    *)
(*                space_type, spec, sunshade]                              *)
(*  window, door [name, next_space, direction, area, space_type, spec,     *)
(*                sunshade]                                                *)
(*  heat bridge  [name, next_spaces, directions, length, space_type, spec] *)
(*  earth floor edge [name, next_space, length, space_type, spec]          *)
(*  earth floor  [name, area, space_type, spec]                            *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Regions == 1..8
Seasons == {"heating", "cooling"}
SeasonExists(region, season) == ~(region = 8 /\ season = "heating")

(* how much of the indoor-outdoor difference acts on a part                *)
H(next, region) ==
  CASE next \in {"outdoor", "open_space"} -> N("1.0")
    [] next \in {"closed_space", "open_underfloor"} -> N("0.7")
    [] next \in {"air_conditioned", "closed_underfloor"} -> IF region <= 3 THEN N("0.05") ELSE N("0.15")
(* relative sunshine on an orientation                                     *)
NuHeating ==
  [top |-> <<N("1.000"), N("1.000"), N("1.000"), N("1.000"), N("1.000"), N("1.000"), N("1.000")>>,
   n |-> <<N("0.260"), N("0.263"), N("0.284"), N("0.256"), N("0.238"), N("0.261"), N("0.227")>>,
   ne |-> <<N("0.333"), N("0.341"), N("0.348"), N("0.330"), N("0.310"), N("0.325"), N("0.281")>>,
   e |-> <<N("0.564"), N("0.554"), N("0.540"), N("0.531"), N("0.568"), N("0.579"), N("0.543")>>,
   se |-> <<N("0.823"), N("0.766"), N("0.751"), N("0.724"), N("0.846"), N("0.833"), N("0.843")>>,
   s |-> <<N("0.935"), N("0.856"), N("0.851"), N("0.815"), N("0.983"), N("0.936"), N("1.023")>>,
   sw |-> <<N("0.790"), N("0.753"), N("0.750"), N("0.723"), N("0.815"), N("0.763"), N("0.848")>>,
   w |-> <<N("0.535"), N("0.544"), N("0.542"), N("0.527"), N("0.538"), N("0.523"), N("0.548")>>,
   nw |-> <<N("0.325"), N("0.341"), N("0.351"), N("0.326"), N("0.297"), N("0.317"), N("0.284")>>,
   bottom |-> <<N("0.000"), N("0.000"), N("0.000"), N("0.000"), N("0.000"), N("0.000"), N("0.000")>>]
NuCooling ==
  [top |-> <<N("1.000"), N("1.000"), N("1.000"), N("1.000"), N("1.000"), N("1.000"), N("1.000"), N("1.000")>>,
   n |-> <<N("0.329"), N("0.341"), N("0.335"), N("0.322"), N("0.373"), N("0.341"), N("0.307"), N("0.325")>>,
   ne |-> <<N("0.430"), N("0.412"), N("0.390"), N("0.426"), N("0.437"), N("0.431"), N("0.415"), N("0.414")>>,
   e |-> <<N("0.545"), N("0.503"), N("0.468"), N("0.518"), N("0.500"), N("0.512"), N("0.509"), N("0.515")>>,
   se |-> <<N("0.560"), N("0.527"), N("0.487"), N("0.508"), N("0.500"), N("0.498"), N("0.490"), N("0.528")>>,
   s |-> <<N("0.502"), N("0.507"), N("0.476"), N("0.437"), N("0.472"), N("0.434"), N("0.412"), N("0.480")>>,
   sw |-> <<N("0.526"), N("0.548"), N("0.550"), N("0.481"), N("0.520"), N("0.491"), N("0.479"), N("0.517")>>,
   w |-> <<N("0.508"), N("0.529"), N("0.553"), N("0.481"), N("0.518"), N("0.504"), N("0.495"), N("0.505")>>,
   nw |-> <<N("0.411"), N("0.428"), N("0.447"), N("0.401"), N("0.442"), N("0.427"), N("0.406"), N("0.411")>>,
   bottom |-> <<N("0.000"), N("0.000"), N("0.000"), N("0.000"), N("0.000"), N("0.000"), N("0.000"), N("0.000")>>]
Nu(dir, region, season) == IF season = "heating" THEN NuHeating[dir][region] ELSE NuCooling[dir][region]
South == {"sw", "s", "se"}
(* how much of it passes the overhang and the angle of incidence            *)
Overhang(s, near, far, wd) ==   \* near + far (wd de + dh) / depth, in percent
  N("0.01") \otimes (near \oplus ((far \otimes ((wd \otimes s.d_e) \oplus s.d_h)) \oslash s.depth))
F(s, dir, region, season) ==
  IF s.input = "not_input" THEN IF season = "heating" THEN N("0.51") ELSE N("0.93")
  ELSE IF dir = "top" THEN N("1.0") ELSE IF dir = "bottom" THEN N("0.0")
  ELSE IF season = "heating" THEN
       Min2(N("0.72"), IF dir \in South THEN Overhang(s, N("5.0"), N("20.0"), N("3.0")) ELSE Overhang(s, N("10.0"), N("15.0"), N("2.0")))
  ELSE Min2(N("0.93"),
       IF region = 8 /\ dir \in South THEN Overhang(s, N("16.0"), N("19.0"), N("2.0"))
       ELSE IF region # 8 /\ dir = "s" THEN Overhang(s, N("24.0"), N("9.0"), N("3.0"))
       ELSE Overhang(s, N("16.0"), N("24.0"), N("2.0")))
Exposed(p) == p.next_space = "outdoor"

(***************************************************************************)
(* Heat transmission.                                                      *)
(***************************************************************************)
LayerR(l) == IF l.heat_resistance_input_method = "conductivity" THEN l.thickness \oslash l.thermal_conductivity
             ELSE l.thermal_resistance
LayerC(l) == l.thickness \otimes l.volumetric_specific_heat
SectionR(s) == Sum([i \in 1..Len(s.layers) |-> LayerR(s.layers[i])])
SectionU(sp, s) == N("1.0") \oslash (sp.r_srf_in \oplus SectionR(s) \oplus sp.r_srf_ex)
UOfSpec(sp) ==
  IF sp.structure = "other" THEN sp.u_value_other
  ELSE Sum([i \in 1..Len(sp.parts) |-> sp.parts[i].part_area_ratio \otimes SectionU(sp, sp.parts[i])])
       \oplus (IF sp.structure = "steel" THEN sp.u_r_value_steel ELSE N("0.0"))
Emits == N("0.034")             \* solar gain of an opaque part per unit of its transmission

GeneralLoss(p, region) == p.area \otimes UOfSpec(p.spec) \otimes H(p.next_space, region)
OpeningLoss(p, region) == p.area \otimes p.spec.u_value \otimes H(p.next_space, region)
EdgeLoss(p, region) == p.length \otimes p.spec.psi_value \otimes H(p.next_space, region)
Mean(v) == Sum(v) \oslash FromInt(Len(v))
BridgeLoss(p, region) == p.length \otimes p.spec.psi_value \otimes Mean([i \in 1..Len(p.next_spaces) |-> H(p.next_spaces[i], region)])

OpaqueGain(p, u, region, season) ==
  IF Exposed(p) THEN p.area \otimes Emits \otimes u \otimes Nu(p.direction, region, season) ELSE N("0.0")
GeneralGain(p, region, season) == OpaqueGain(p, UOfSpec(p.spec), region, season)
DoorGain(p, region, season) == OpaqueGain(p, p.spec.u_value, region, season)
WindowFactor(p, region, season) ==
  IF Exposed(p) THEN p.area \otimes F(p.sunshade, p.direction, region, season) \otimes Nu(p.direction, region, season) ELSE N("0.0")
WindowGain(p, region, season) ==
  IF Exposed(p) THEN WindowFactor(p, region, season) \otimes (IF season = "heating" THEN p.spec.eta_d_h_value ELSE p.spec.eta_d_c_value)
  ELSE N("0.0")
BridgeGain(p, region, season) == p.length \otimes Emits \otimes p.spec.psi_value \otimes
  Mean([i \in 1..Len(p.next_spaces) |-> IF p.next_spaces[i] = "outdoor" THEN Nu(p.directions[i], region, season) ELSE N("0.0")])

(* The indices of an envelope: loss per area and kelvin, gain in percent.   *)
SumOver(s, G(_)) == Sum([i \in 1..Len(s) |-> G(s[i])])
AreaOf(p) == p.area
EnvelopeArea(E) == SumOver(E.general_parts, AreaOf) \oplus SumOver(E.windows, AreaOf) \oplus SumOver(E.doors, AreaOf)
                   \oplus SumOver(E.earthfloor_centers, AreaOf)
Loss(E, region) ==
  LET g(p) == GeneralLoss(p, region)  o(p) == OpeningLoss(p, region)  e(p) == EdgeLoss(p, region)
  IN SumOver(E.general_parts, g) \oplus SumOver(E.windows, o) \oplus SumOver(E.doors, o) \oplus SumOver(E.earthfloor_perimeters, e)
OpaqueGains(E, region, season) ==
  LET g(p) == GeneralGain(p, region, season)  d(p) == DoorGain(p, region, season)
  IN SumOver(E.general_parts, g) \oplus SumOver(E.doors, d)
Gain(E, region, season) == LET w(p) == WindowGain(p, region, season)
  IN OpaqueGains(E, region, season) \oplus SumOver(E.windows, w)
UA(E, region) == Loss(E, region) \oslash EnvelopeArea(E)
EtaA(E, region, season) == (N("100.0") \otimes Gain(E, region, season)) \oslash EnvelopeArea(E)

(***************************************************************************)
(* A house with given indices.  Every part type starts from its standard   *)
(* coefficient; one common factor scales them all, but none beyond the     *)
(* coefficient of the bare construction.                                   *)
(***************************************************************************)
Kind(p) == CASE p.general_part_type = "upward_boundary_floor" -> "boundary_ceiling"
             [] p.general_part_type = "downward_boundary_floor" -> "boundary_floor"
             [] OTHER -> p.general_part_type
StdRows ==
  [roof   |-> <<"0.17","0.17","0.24","0.24","0.24","0.24","0.24","0.24">>,
   wall   |-> <<"0.35","0.35","0.53","0.53","0.53","0.53","0.53","4.10">>,
   floor  |-> <<"0.34","0.34","0.34","0.48","0.48","0.48","0.48","3.52">>,
   window |-> <<"2.33","2.33","3.49","4.65","4.65","4.65","4.65","6.51">>,
   edge   |-> <<"0.53","0.53","0.53","0.76","0.76","0.76","0.76","1.80">>]
StdRow(kind) == CASE kind \in {"roof", "ceiling", "boundary_ceiling"} -> StdRows.roof
                  [] kind \in {"wall", "boundary_wall"} -> StdRows.wall
                  [] kind \in {"floor", "boundary_floor"} -> StdRows.floor
                  [] kind \in {"window", "door"} -> StdRows.window
                  [] kind = "earthfloor_perimeter" -> StdRows.edge
Std(kind, region) == N(StdRow(kind)[region])
Board == N("0.0095") \oslash N("0.22")
Ply == N("0.012") \oslash N("0.16")
Bare(kind) ==
  LET u(a, r, b) == N("1.0") \oslash (N(a) \oplus r \oplus N(b)) IN
  CASE kind = "roof" -> u("0.09", Board, "0.04")          [] kind = "ceiling" -> u("0.09", Board, "0.09")
    [] kind = "wall" -> u("0.11", Board, "0.04")          [] kind = "floor" -> u("0.15", Ply, "0.04")
    [] kind = "boundary_ceiling" -> u("0.09", Board, "0.09")
    [] kind = "boundary_wall" -> u("0.11", Board, "0.11")
    [] kind = "boundary_floor" -> u("0.15", Ply, "0.15")
    [] kind \in {"window", "door"} -> N("6.51")           [] kind = "earthfloor_perimeter" -> N("100.0")
Scaled(kind, region, f) == Min2(Std(kind, region) \otimes f, Bare(kind))
(* <<kind, coefficient, length or area, adjacency>> of every part           *)
Coefficients(E) ==
  [i \in 1..Len(E.general_parts) |-> <<Kind(E.general_parts[i]), E.general_parts[i].spec.u_value_other>>]
  \o [i \in 1..Len(E.windows) |-> <<"window", E.windows[i].spec.u_value>>]
  \o [i \in 1..Len(E.doors) |-> <<"door", E.doors[i].spec.u_value>>]
  \o [i \in 1..Len(E.earthfloor_perimeters) |-> <<"earthfloor_perimeter", E.earthfloor_perimeters[i].spec.psi_value>>]
CommonFactor(c, region) ==      \* the largest factor in use
  LET fs == {c[i][2] \oslash Std(c[i][1], region) : i \in 1..Len(c)} IN CHOOSE f \in fs : \A g \in fs : g \preceq f

(***************************************************************************)
(* The model house: storeys are rectangles; faces are numbered from the    *)
(* main orientation clockwise (0, 90, 180, 270 degrees).                   *)
(***************************************************************************)
Z4 == <<N("0.0"), N("0.0"), N("0.0"), N("0.0")>>
House(I) ==        \* I = [house_type, a_f_total, r_open, floor_ins_type, bath_ins_type]
  LET det == I.house_type = "detached"
      base == det /\ I.floor_ins_type = "base"
      bathOnGround == det /\ (base \/ I.bath_ins_type = "base")
  IN [heights   |-> IF det THEN <<N("2.9"), N("2.7")>> ELSE <<N("2.8")>>,
      shape     |-> IF det THEN <<N("1.08"), N("1.04")>> ELSE <<N("1.048215")>>,
      floors    |-> IF det THEN <<I.a_f_total \oslash N("1.77"), I.a_f_total \otimes (N("0.77") \oslash N("1.77"))>> ELSE <<I.a_f_total>>,
      base      |-> base,
      bathOnGround |-> bathOnGround,
      entrance  |-> IF det THEN <<N("1.365"), N("1.82")>> ELSE <<N("1.0"), N("1.0")>>,
      bath      |-> IF det THEN <<N("1.82"), N("1.82")>> ELSE <<N("2.1"), N("1.365")>>,
      hEntrance |-> IF det THEN N("0.18") ELSE N("0.0"),
      hBath     |-> IF bathOnGround THEN N("0.5") ELSE N("0.0"),
      hOther    |-> IF base THEN N("0.5") ELSE N("0.0"),
      windows   |-> IF det THEN <<N("0.6862"), N("0.0721"), N("0.1097"), N("0.1320")>> ELSE <<N("0.6330"), N("0.1517"), N("0.2153"), N("0.0")>>,
      doors     |-> IF det THEN <<N("0.0"), N("1.89"), N("1.62"), N("0.0")>> ELSE <<N("0.0"), N("0.0"), N("1.755"), N("0.0")>>]

(***************************************************************************)
(* The construction handed to the calculation.                             *)
(***************************************************************************)
SpaceId(t) == CASE t = "main_occupant_room" -> 0 [] t = "other_occupant_room" -> 1
                [] t = "non_occupant_room" -> 2 [] t = "underfloor" -> 3
AbsorbsInside(p) == p.general_part_type \in {"floor", "downward_boundary_floor"}
(* a part given by its coefficient alone gets a typical construction        *)
InsideR(kind) == CASE kind \in {"roof", "ceiling", "boundary_ceiling"} -> N("0.09")
                   [] kind \in {"wall", "boundary_wall"} -> N("0.11")
                   [] kind \in {"floor", "boundary_floor"} -> N("0.15")
OutsideR(kind) == CASE kind \in {"roof", "wall"} -> N("0.04") [] kind \in {"ceiling", "boundary_ceiling"} -> N("0.09")
                    [] kind = "boundary_wall" -> N("0.11") [] kind \in {"floor", "boundary_floor"} -> N("0.15")
Sheet(x) ==      \* <<resistance, capacity>>
  CASE x = "board" -> <<N("0.0095") \oslash N("0.221"), N("0.0095") \otimes N("830.0")>>
    [] x = "ply12" -> <<N("0.012") \oslash N("0.16"), N("0.012") \otimes N("720.0")>>
    [] x = "ply24" -> <<N("0.024") \oslash N("0.16"), N("0.024") \otimes N("720.0")>>
    [] x = "concrete" -> <<N("0.12") \oslash N("1.6"), N("0.12") \otimes N("2000.0")>>
    [] x = "insulation" -> <<N("0.0"), N("0.0")>>
Typical(kind, weight) ==
  IF kind = "boundary_wall" THEN <<"board", "insulation", "board">>
  ELSE IF weight = "light" THEN
    CASE kind \in {"roof", "ceiling"} -> <<"board", "insulation">>        [] kind = "wall" -> <<"board", "insulation", "ply12">>
      [] kind = "floor" -> <<"ply24", "insulation">>                      [] kind = "boundary_ceiling" -> <<"board", "insulation", "ply24">>
      [] kind = "boundary_floor" -> <<"ply24", "insulation", "board">>
  ELSE
    CASE kind \in {"roof", "ceiling", "wall"} -> <<"board", "insulation", "concrete">>
      [] kind = "floor" -> <<"ply24", "insulation", "concrete">>
      [] kind = "boundary_ceiling" -> <<"board", "concrete", "insulation", "ply24">>
      [] kind = "boundary_floor" -> <<"ply24", "insulation", "concrete", "board">>
TypicalLayers(kind, weight, u) ==
  LET t == Typical(kind, weight)
      rest == Sum([i \in 1..Len(t) |-> Sheet(t[i])[1]]) \oplus InsideR(kind) \oplus OutsideR(kind)
      r == Max2(N("0.0"), (N("1.0") \oslash u) \ominus rest)      \* uninsulated at most
  IN [i \in 1..Len(t) |-> IF t[i] = "insulation" THEN <<r, r \otimes N("0.045") \otimes N("13.0")>> ELSE Sheet(t[i])]
(* sections of a part: [ratio, layers: seq of <<r, c>>, ri, ro]             *)
Sections(p) ==
  LET sp == p.spec IN
  IF sp.structure = "other"
  THEN <<[ratio |-> N("1.0"), layers |-> TypicalLayers(Kind(p), sp.weight, sp.u_value_other),
          ri |-> InsideR(Kind(p)), ro |-> OutsideR(Kind(p))]>>
  ELSE [i \in 1..Len(sp.parts) |-> [ratio |-> sp.parts[i].part_area_ratio, ri |-> sp.r_srf_in, ro |-> sp.r_srf_ex,
          layers |-> [m \in 1..Len(sp.parts[i].layers) |-> <<LayerR(sp.parts[i].layers[m]), LayerC(sp.parts[i].layers[m])>>]]]
(* linear thermal bridges raise the transmission of every section by add: its
   layers resist less, all in the same proportion                           *)
Handed(s, add) ==
  LET r == Sum([m \in 1..Len(s.layers) |-> s.layers[m][1]])
      u == N("1.0") \oslash (s.ri \oplus r \oplus s.ro)
      less == ((N("1.0") \oslash (u \oplus add)) \ominus (s.ri \oplus s.ro)) \oslash r
  IN [m \in 1..Len(s.layers) |-> <<s.layers[m][1] \otimes less, s.layers[m][2]>>]
Surcharge(p, add) == IF p.spec.structure = "steel" THEN add \oplus p.spec.u_r_value_steel ELSE add

(***************************************************************************)
(* Division over rooms.                                                    *)
(***************************************************************************)
Occupied == <<"main_occupant_room", "other_occupant_room", "non_occupant_room">>
FloorOf(C, t) == CASE t = "main_occupant_room" -> C.main_occupant_room_floor_area
                   [] t = "other_occupant_room" -> C.other_occupant_room_floor_area
                   [] t = "non_occupant_room" -> (C.total_floor_area \ominus C.main_occupant_room_floor_area) \ominus C.other_occupant_room_floor_area
Share(C, t) == FloorOf(C, t) \oslash C.total_floor_area
Where(s, P(_), G(_)) == Sum([i \in 1..Len(s) |-> IF P(s[i]) THEN G(s[i]) ELSE N("0.0")])
Envelope3(E) == E.general_parts \o E.windows \o E.doors
Horizontally == {"n", "ne", "e", "se", "s", "sw", "w", "nw", "horizontal"}
Below(E, t) == LET P(p) == p.space_type = t /\ p.direction \in {"bottom", "downward"} IN Where(Envelope3(E), P, AreaOf)
Sides(E, t) == LET P(p) == p.space_type = t /\ p.direction \in Horizontally IN Where(Envelope3(E), P, AreaOf)
Earth(E, t) == LET P(p) == p.space_type = t IN Where(E.earthfloor_centers, P, AreaOf)
Pos(x) == Max2(N("0.0"), x)
(* floor of a room that lies neither on the envelope nor on the earth       *)
InnerFloor(C, E, t) == Pos((FloorOf(C, t) \ominus Below(E, t)) \ominus Earth(E, t))
InnerFloors(C, E) == Sum([i \in 1..3 |-> InnerFloor(C, E, Occupied[i])])
(* of which over the crawl space                                            *)
OverCrawl(C, E, t) == LET all == InnerFloors(C, E) IN
  IF N("0.0") \prec all THEN Earth(E, "underfloor") \otimes (InnerFloor(C, E, t) \oslash all) ELSE N("0.0")
Exists(C, t) == N("0.0") \prec FloorOf(C, t)
Others(C, t) == {u \in {Occupied[i] : i \in 1..3} : u # t /\ Exists(C, u)}
(* the rest lies in equal parts over the other rooms there are              *)
OverRoom(C, E, t, u) ==
  IF u \in Others(C, t) /\ Exists(C, t)
  THEN Pos(InnerFloor(C, E, t) \ominus OverCrawl(C, E, t)) \oslash FromInt(Cardinality(Others(C, t))) ELSE N("0.0")
(* walls of a room: around its floor, less what faces outwards              *)
Around(t) == IF t = "main_occupant_room" THEN N("1.2") ELSE N("1.4")
InnerWall(C, E, t) == Pos((N("4.0") \otimes Around(t) \otimes N("2.8") \otimes Sqrt(Pos(FloorOf(C, t)))) \ominus Sides(E, t))
Third(t, u) == CHOOSE x \in {Occupied[i] : i \in 1..3} : x \notin {t, u}
Partition(C, E, t, u) ==      \* between t and u
  IF ~Exists(C, t) \/ ~Exists(C, u) THEN N("0.0")
  ELSE IF ~Exists(C, Third(t, u)) THEN (InnerWall(C, E, t) \oplus InnerWall(C, E, u)) \oslash N("2.0")
  ELSE Pos(((InnerWall(C, E, t) \oplus InnerWall(C, E, u)) \ominus InnerWall(C, E, Third(t, u))) \oslash N("2.0"))
=============================================================================
