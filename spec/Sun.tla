-------------------------------- MODULE Sun --------------------------------
(***************************************************************************)
(* The sky of a site: where the sun is at an instant of the year 1989, and *)
(* the weather table of a region.                                          *)
(*                                                                         *)
(* Angles are radians; azimuth is zero at south, positive to the west.     *)
(***************************************************************************)
EXTENDS Air

Pi == N("3.141592653589793")
Rad(d) == (d \otimes Pi) \oslash N("180.0")
Sq(x) == x \otimes x

(* Sites of the eight regions: latitude and longitude, degrees             *)
Site == << <<N("43.82"), N("143.91")>>, <<N("43.21"), N("141.79")>>, <<N("39.70"), N("141.17")>>,
           <<N("36.66"), N("138.20")>>, <<N("36.55"), N("139.87")>>, <<N("34.66"), N("133.92")>>,
           <<N("31.94"), N("131.42")>>, <<N("26.21"), N("127.685")>> >>
Latitude(r)  == Rad(Site[r][1])
Longitude(r) == Rad(Site[r][2])
Meridian == Rad(N("135.0"))

(* The earth's orbit: day d of the year (1 January is 1).                  *)
YearsSince1968 == 21
Perihelion == (N("3.71") \oplus (N("0.2596") \otimes FromInt(YearsSince1968))) \ominus FromInt((YearsSince1968 + 3) \div 4)
MeanAnomaly(d) == ((N("2.0") \otimes Pi) \otimes (FromInt(d) \ominus Perihelion)) \oslash N("365.2596")
Solstice(M) == Rad(N("12.3901") \oplus (N("0.0172") \otimes (FromInt(YearsSince1968) \oplus (M \oslash (N("2.0") \otimes Pi)))))
TrueAnomaly(M) == M \oplus Rad((N("1.914") \otimes Sin(M)) \oplus (N("0.02") \otimes Sin(N("2.0") \otimes M)))
(* what the position of the sun depends on, for a day                      *)
Orbit(d) ==
  LET M == MeanAnomaly(d)
      v == TrueAnomaly(M)
      w == v \oplus Solstice(M)
      k == N("0.043")
      w2 == N("2.0") \otimes w
  IN [decl |-> ASin(Cos(w) \otimes Sin(Rad(N("-23.4393")))),
      eot  |-> (M \ominus v) \ominus ATan2(k \otimes Sin(w2), One \ominus (k \otimes Cos(w2)))]

(* Hour angle at standard time t (hours)                                   *)
HourAngle(r, orbit, t) ==
  (Rad((t \ominus N("12.0")) \otimes N("15.0")) \oplus (Longitude(r) \ominus Meridian)) \oplus orbit.eot

SinAlt(r, orbit, w) == (Sin(Latitude(r)) \otimes Sin(orbit.decl))
                       \oplus ((Cos(Latitude(r)) \otimes Cos(orbit.decl)) \otimes Cos(w))
(* the horizontal components of the direction to the sun: to the west and to the south *)
West(r, orbit, w)  == Cos(orbit.decl) \otimes Sin(w)
South(r, orbit, w) == (Sin(Latitude(r)) \otimes (Cos(orbit.decl) \otimes Cos(w)))
                      \ominus (Cos(Latitude(r)) \otimes Sin(orbit.decl))

(* The same direction, whatever the branch of the angle                    *)
SameDirection(h, a, z, wst, sth, tol) ==
  /\ Near(Sin(h), z, Zero, tol)
  /\ Near(Cos(h) \otimes Sin(a), wst, Zero, tol)
  /\ Near(Cos(h) \otimes Cos(a), sth, Zero, tol)
AngleInRange(h, a) == /\ Neg(Pi \oslash N("2.0")) \preceq h /\ h \preceq (Pi \oslash N("2.0"))
                      /\ Neg(Pi) \preceq a /\ a \preceq Pi

(***************************************************************************)
(* The weather table: hourly source rows 1..8760, row h of day d being the *)
(* h-th hour of that day (hour 24 is midnight at its end), give the table  *)
(* at per steps an hour, linear in between and closed over the year.       *)
(***************************************************************************)
SourceAt(hour) == IF hour % 8760 = 0 THEN 8760 ELSE hour % 8760     \* hours since 0:00 of 1 January -> source row
Between(a, b, num, den) == ((a \otimes FromInt(den - num)) \oplus (b \otimes FromInt(num))) \oslash FromInt(den)
=============================================================================
