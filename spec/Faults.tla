------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Descriptions under an editor: every house that can be reached from a    *)
(* plain one by at most MaxEdits changes of one field, with correct values *)
(* and wrong ones, and every list of up to MaxRooms rooms of any kinds.    *)
(* Each state reached is handed to the real initializer, which must take   *)
(* exactly the valid ones (InputTrace).                                    *)
(***************************************************************************)
EXTENDS Description, Json, IOUtils, TLC
CONSTANTS MaxEdits, MaxRooms
VARIABLES d, n
vars == <<d, n>>

Room(t) == [type |-> t, name |-> IF t \in Scheduled THEN t ELSE "non_occupant_room", heat |-> "convective", cool |-> "not_installed", floor |-> TRUE]
Bd(t, r) == [type |-> t, room |-> r, sun |-> TRUE, dir |-> "s", glass |-> "single", shade |-> "none", next |-> "other_occupant_room"]
House(types) == [rooms |-> [i \in 1..Len(types) |-> Room(types[i])], ids |-> [i \in 1..Len(types) |-> i - 1],
                 bds |-> <<>>, story |-> 1, pressure |-> "balanced", missing |-> "", where |-> 0]
Base == [House(<<"main_occupant_room", "other_occupant_room">>) EXCEPT !.rooms[2].heat = "radiative", !.bds =
   <<Bd("external_general_part", 1), [Bd("external_transparent_part", 1) EXCEPT !.shade = "simple"],
     [Bd("external_transparent_part", 2) EXCEPT !.sun = FALSE], Bd("external_opaque_part", 2), Bd("internal", 1), Bd("ground", 2)>>]

SeqsOf(S, m) == UNION {[1..k -> S] : k \in 1..m}
AnyHouse == {House(s) : s \in SeqsOf(RoomTypes \cup {"living"}, MaxRooms)}

(* what can be changed, and to what                                         *)
RoomValues == [type |-> RoomTypes \cup {"living", ""}, name |-> Scheduled \cup {"kitchen", "underfloor"},
               heat |-> EquipmentTypes \cup {"floor"}, cool |-> EquipmentTypes \cup {"Convective", ""}, floor |-> BOOLEAN]
BdValues == [type |-> BoundaryTypes \cup {"wall", "external"}, dir |-> Directions \cup {"south", "S", ""}, sun |-> BOOLEAN,
             glass |-> {"single", "multiple", "double", "triple", "Single"}, shade |-> {"none", "simple", "detail", "complex", "Simple"},
             next |-> RoomTypes \cup {"bath", ""}]
RoomKeys == {"name", "room_type", "volume", "vent", "floor_area", "next_vent", "natural_vent_time", "heating_equipment", "cooling_equipment"}
BdKeys == {"id", "name", "connected_room_id", "boundary_type", "area", "is_floor", "is_solar_absorbed_inside",
           "inside_heat_transfer_resistance", "h_c", "solar_shading_part"}
BuildingKeys == {"story", "c_value", "inside_pressure"}
Edit(f) == n < MaxEdits /\ n' = n + 1 /\ d.missing = "" /\ d' = f
EditRoom == \E i \in 1..Len(d.rooms) : \E k \in DOMAIN RoomValues : \E v \in RoomValues[k] : Edit([d EXCEPT !.rooms[i][k] = v])
EditId == \E i \in 1..Len(d.rooms) : \E v \in 0..3 : Edit([d EXCEPT !.ids[i] = v])
EditBd == \E j \in 1..Len(d.bds) : \E k \in DOMAIN BdValues : \E v \in BdValues[k] : Edit([d EXCEPT !.bds[j][k] = v])
EditBuilding == \/ \E v \in {-1, 0, 1, 2, 3} : Edit([d EXCEPT !.story = v])
                \/ \E v \in Pressures \cup {"Positive", "none", ""} : Edit([d EXCEPT !.pressure = v])
Lose == \/ \E k \in BuildingKeys : Edit([d EXCEPT !.missing = k])
        \/ \E i \in 1..Len(d.rooms) : \E k \in RoomKeys : Edit([d EXCEPT !.missing = "room " \o k, !.where = i])
        \/ \E j \in 1..Len(d.bds) : \E k \in BdKeys : Edit([d EXCEPT !.missing = "boundary " \o k, !.where = j])

Init == n = 0 /\ d \in {Base} \cup AnyHouse
Next == d.bds # <<>> /\ (EditRoom \/ EditId \/ EditBd \/ EditBuilding \/ Lose)
Spec == Init /\ [][Next]_vars

(* in the words of Description                                              *)
Said(x) == [story |-> x.story, pressure |-> x.pressure, missing |-> x.missing,
  rooms |-> [i \in 1..Len(x.rooms) |-> LET r == x.rooms[i] IN
     [id |-> x.ids[i], type |-> r.type, name |-> r.name, heat |-> [type |-> r.heat], cool |-> [type |-> r.cool]]],
  bds |-> [j \in 1..Len(x.bds) |-> LET b == x.bds[j] IN
     [type |-> b.type, next |-> b.next, sun |-> b.sun, dir |-> b.dir, glass |-> b.glass, room |-> b.room - 1, floor |-> FALSE,
      shade |-> [has |-> b.shade # "none", method |-> b.shade]]]
     \o [i \in 1..Len(x.rooms) |-> LET b == Bd("ground", i) IN        \* and what lies under every room
     [type |-> b.type, next |-> b.next, sun |-> FALSE, dir |-> b.dir, glass |-> b.glass, room |-> i - 1, floor |-> x.rooms[i].floor,
      shade |-> [has |-> FALSE, method |-> "none"]]]]
(* overhangs are for upright surfaces                                       *)
Meaningful(x) == \A j \in 1..Len(x.bds) : x.bds[j].shade # "none" => x.bds[j].dir \notin {"top", "bottom"}

(* ---- laws of validity itself ------------------------------------------- *)
(* rooms: a house is valid in its rooms iff they are distinct known kinds, the main one among them *)
RoomLaw == (n = 0 /\ d.bds = <<>>) =>
   (Valid(Said(d)) <=> /\ \A i \in 1..Len(d.rooms) : d.rooms[i].type \in RoomTypes
                       /\ \A i, j \in 1..Len(d.rooms) : i # j => d.rooms[i].type # d.rooms[j].type
                       /\ \E i \in 1..Len(d.rooms) : d.rooms[i].type = "main_occupant_room")
(* nothing lost is ever valid; every change that breaks can be undone by one *)
LossLaw == d.missing # "" => ~Valid(Said(d))
(* what nobody looks at does not matter: direction and glass of a surface the sun does not strike, glass of a wall, neighbour of an outer wall *)
Ignored(x) == [x EXCEPT !.bds = [j \in 1..Len(x.bds) |-> LET b == x.bds[j] IN
   [b EXCEPT !.dir = IF b.type \in External /\ b.sun THEN @ ELSE "s",
             !.shade = IF b.type \in External /\ b.sun THEN @ ELSE "none",
             !.glass = IF b.type = "external_transparent_part" /\ b.sun THEN @ ELSE "single",
             !.next = IF b.type = "internal" THEN @ ELSE "underfloor"]]]
(* a floor is needed where something radiates from it, and there only *)
FloorLaw == \A i \in 1..Len(d.rooms) : LET on == [d EXCEPT !.rooms[i].floor = TRUE] off == [d EXCEPT !.rooms[i].floor = FALSE] IN
   /\ Valid(Said(off)) => Valid(Said(on))
   /\ (Valid(Said(on)) /\ ~Valid(Said(off))) <=> (Valid(Said(on)) /\ (d.rooms[i].heat = "radiative" \/ d.rooms[i].cool = "radiative"))
IgnoredLaw == Valid(Said(d)) <=> Valid(Said(Ignored(d)))

(* ---- hand over --------------------------------------------------------- *)
Keep == IF Meaningful(d) THEN TLCSet(1, TLCGet(1) \cup {d}) ELSE TRUE
Seqd(S) == LET RECURSIVE F(_)
               F(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o F(X \ {x})
           IN F(S)
ASSUME TLCSet(1, {})
HandOver == JsonSerialize(IOEnv.OUT, [states |-> {[d |-> x, valid |-> Valid(Said(x)), detail |-> NeedsDetailShading(Said(x))] : x \in TLCGet(1)}])
=============================================================================
