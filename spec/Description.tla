---------------------------- MODULE Description ----------------------------
(***************************************************************************)
(* A building description, which descriptions are valid, and the input of  *)
(* the calculation that a valid one stands for.                            *)
(*                                                                         *)
(* D = [story, pressure, cvalue, rooms, bds]                               *)
(*   room  [id, name, type, area, vol, vent, nat, next: seq of [up, q],    *)
(*          heat: [type, cap, area], cool: [type, qmin, qmax, vmin, vmax,  *)
(*          cap, area]]                                                    *)
(*   bd    [id, name, room, type, area, sun, htd, dir, floor, abs, ri, hc, *)
(*          ro, eps, as, u, eta, glass, next, rear, layers, shade]         *)
(* Rooms and boundaries are numbered from 0, in order.                     *)
(***************************************************************************)
EXTENDS Sky, FiniteSets

RoomTypes == {"main_occupant_room", "other_occupant_room", "non_occupant_room", "underfloor"}
BoundaryTypes == External \cup {"internal", "ground"}
EquipmentTypes == {"not_installed", "convective", "radiative"}
Pressures == {"positive", "negative", "balanced"}
Scheduled == {"main_occupant_room", "other_occupant_room", "non_occupant_room"}

Count(S, P(_)) == Cardinality({x \in S : P(x)})
RoomsOf(D, t) == {i \in 1..Len(D.rooms) : D.rooms[i].type = t}

ValidRoom(D, i) == LET r == D.rooms[i] IN
  /\ r.id = i - 1
  /\ r.type \in RoomTypes
  /\ r.name \in Scheduled
  /\ r.heat.type \in EquipmentTypes
  /\ r.cool.type \in EquipmentTypes
SunStruckExternal(b) == b.type \in External /\ b.sun
ValidBoundary(D, b) ==
  /\ b.type \in BoundaryTypes
  /\ (b.type = "internal" => b.next \in RoomTypes)
  /\ (SunStruckExternal(b) => b.dir \in Directions)
  /\ (b.type = "external_transparent_part" /\ b.sun => b.glass \in {"single", "multiple"})
  /\ (SunStruckExternal(b) /\ b.shade.has => b.shade.method \in {"simple", "detail"})
(* radiant equipment is in the floor                                        *)
HasFloor(D, i) == \E j \in 1..Len(D.bds) : D.bds[j].floor /\ D.bds[j].room = i - 1
Radiant(r) == r.heat.type = "radiative" \/ r.cool.type = "radiative"
Valid(D) ==
  /\ D.story \in {1, 2}
  /\ D.pressure \in Pressures
  /\ Cardinality(RoomsOf(D, "main_occupant_room")) = 1
  /\ \A t \in RoomTypes : Cardinality(RoomsOf(D, t)) <= 1
  /\ \A i \in 1..Len(D.rooms) : ValidRoom(D, i)
  /\ \A i \in 1..Len(D.rooms) : Radiant(D.rooms[i]) => HasFloor(D, i)
  /\ \A j \in 1..Len(D.bds) : ValidBoundary(D, D.bds[j])
  /\ D.missing = ""
(* what the code says it does not do yet                                    *)
NeedsDetailShading(D) == \E j \in 1..Len(D.bds) : LET b == D.bds[j] IN
   b.type = "external_transparent_part" /\ b.sun /\ b.shade.has /\ b.shade.method = "detail"

(***************************************************************************)
(* The input of the calculation.                                           *)
(***************************************************************************)
H == N("3600.0")
FrtHeat(r) == N("12600.0") \otimes r.vol
FrtMoist(r) == N("16.8") \otimes r.vol
NextFlow(D, i, k) == Sum([c \in 1..Len(D.rooms[i].next) |->
                          IF D.rooms[i].next[c].up = k - 1 THEN D.rooms[i].next[c].q \oslash H ELSE Zero])
Mine(D, j) == {l \in 1..Len(D.bds) : D.bds[l].room = D.bds[j].room}
AreaWhere(D, S) == Sum([l \in 1..Len(D.bds) |-> IF l \in S THEN D.bds[l].area ELSE Zero])
(* weights of the surfaces around the person: floors share 0.45, the rest 0.55, in a room that has both *)
PersonWeight(D, j) ==
  LET same == {l \in Mine(D, j) : D.bds[l].floor = D.bds[j].floor} IN
  (IF same = Mine(D, j) THEN One ELSE IF D.bds[j].floor THEN N("0.45") ELSE N("0.55")) \otimes (D.bds[j].area \oslash AreaWhere(D, same))
(* a radiant emitter is in the floor                                        *)
EmitterShare(D, j) ==
  IF D.bds[j].floor /\ Radiant(D.rooms[D.bds[j].room + 1])
  THEN D.bds[j].area \oslash AreaWhere(D, {l \in Mine(D, j) : D.bds[l].floor}) ELSE Zero
OutWeight(b) == IF b.type \in External THEN b.htd ELSE IF b.type = "ground" THEN One ELSE Zero
RearOf(b) == IF b.type = "internal" THEN b.rear
             ELSE IF b.type \in External /\ b.htd \prec One THEN b.id ELSE -1
RearWeight(b) == IF b.type = "internal" THEN One
                 ELSE IF b.type \in External /\ b.htd \prec One THEN One \ominus b.htd ELSE Zero
SpecMethod(b) == CASE b.type \in {"external_general_part", "internal"} -> "layers"
                   [] b.type = "ground" -> "layers_ground" [] OTHER -> "u_value"

(* Residents by floor area, and the schedules they stand for.               *)
Residents(total) == IF total \prec N("30.0") THEN One
                    ELSE IF total \prec N("120.0") THEN total \oslash N("30.0") ELSE N("4.0")
Lower(np) == IF np \prec N("2.0") THEN 1 ELSE IF np \prec N("3.0") THEN 2 ELSE 3
PeopleAllowed(np) == One \preceq np /\ np \preceq N("4.0")
=============================================================================
