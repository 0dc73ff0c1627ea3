------------------------------- MODULE SkyMC --------------------------------
(* Sunlight on surfaces over a grid of suns, skies, surfaces and overhangs:  *)
(* the sun goes round the sky and the laws about bounds, signs and monotone  *)
(* dependence hold for every surface.  Also the orbit over the year.         *)
EXTENDS Sky
CONSTANTS Step            \* grid step of the sun, degrees
VARIABLES alt, az, day
vars == <<alt, az, day>>

deg(x) == Rad(FromInt(x))
S(dn, sky, rn) == [dn |-> dn, sky |-> sky, rn |-> rn, h |-> deg(alt), a |-> deg(az), to |-> N("10.0")]
Skies == {<<Zero, Zero, Zero>>, <<N("800.0"), N("100.0"), N("50.0")>>, <<Zero, N("200.0"), N("100.0")>>}
Depths == {Zero, N("0.3"), N("2.0")}
Gaps == {Zero, N("0.5")}
Window(depth, de) == [depth |-> depth, de |-> de, dh |-> N("1.5")]

Init == /\ alt \in {x \in -30..90 : x % Step = 0} /\ az = -180 /\ day = 1
Next == \/ /\ az < 180 /\ az' = az + Step /\ UNCHANGED <<alt, day>>
        \/ /\ alt = 0 /\ az = -180 /\ day < 365 /\ day' = day + 1 /\ UNCHANGED <<alt, az>>
Spec == Init /\ [][Next]_vars

tiny == N("1e-12")
Bounds == \A d \in Directions : \A sk \in Skies : LET s == S(sk[1], sk[2], sk[3]) IN
   /\ Zero \preceq Direct(s, d) /\ Direct(s, d) \preceq s.dn
   /\ Zero \preceq Diffuse(s, d) /\ Diffuse(s, d) \preceq (s.sky \oplus tiny)
   /\ Neg(tiny) \preceq Reflected(s, d)
   /\ (CosIncidence(s, d) = Zero => Direct(s, d) = Zero)
(* on a horizontal surface the three parts are the global radiation          *)
TopIsHorizontal == \A sk \in Skies : LET s == S(sk[1], sk[2], sk[3]) IN
   alt >= 0 => Near(Global(s, "top"), Horizontal(s), N("1e-12"), N("1e-9"))
(* opposite walls cannot both be struck                                      *)
OneSide == \A p \in {<<"s", "n">>, <<"e", "w">>, <<"sw", "ne">>, <<"se", "nw">>} : LET s == S(N("800.0"), Zero, Zero) IN
   Near(Min2(Direct(s, p[1]), Direct(s, p[2])), Zero, Zero, N("1e-9"))
Shading == \A d \in Directions \ {"top", "bottom"} : \A e \in Gaps : LET s == S(N("800.0"), Zero, Zero) IN
   /\ \A z \in Depths : /\ Zero \preceq ShadedDirect(s, d, Window(z, e)) /\ ShadedDirect(s, d, Window(z, e)) \preceq One
                        /\ Neg(tiny) \preceq ShadedSky(Window(z, e)) /\ ShadedSky(Window(z, e)) \preceq One
   /\ ShadedDirect(s, d, Window(Zero, e)) = Zero
   /\ Near(ShadedSky(Window(Zero, e)), Zero, Zero, tiny)
   (* a deeper overhang shades no less, a higher one no more *)
   /\ (Zero \prec CosIncidence(s, d) => ShadedDirect(s, d, Window(N("0.3"), e)) \preceq ShadedDirect(s, d, Window(N("2.0"), e)))
   /\ ShadedSky(Window(N("0.3"), e)) \preceq ShadedSky(Window(N("2.0"), e))
   /\ ShadedSky(Window(N("2.0"), N("0.5"))) \preceq ShadedSky(Window(N("2.0"), Zero))
(* the sun moving off normal lets less through (to 8 in a thousand of the    *)
(* fitted polynomials)                                                       *)
Glass == LET c == Max2(Zero, Sin(deg(alt)))  c2 == Max2(Zero, Sin(deg(alt - Step))) IN
   \A g \in {"single", "multiple"} : (alt >= Step) =>
     /\ Neg(tiny) \preceq Tau(g, c) /\ Tau(g, c) \preceq N("1.02")
     /\ Tau(g, c2) \preceq (Tau(g, c) \oplus N("0.008"))
Part(ty, d, sun) == [type |-> ty, sun |-> sun, dir |-> d, eps |-> N("0.9"), as |-> N("0.8"), ro |-> N("0.04")]
(* more sunlight never lowers the acting temperature, more night radiation   *)
(* never raises it                                                           *)
Acting == \A d \in Directions : \A ty \in External : \A sun \in BOOLEAN :
   LET b == Part(ty, d, sun)
       T(dn, sky, rn) == EqvTemp(S(dn, sky, rn), b, N("15.0")) IN
   /\ T(Zero, Zero, Zero) = N("10.0")
   /\ T(Zero, N("100.0"), N("50.0")) \preceq (T(N("500.0"), N("100.0"), N("50.0")) \oplus tiny)
   /\ T(N("500.0"), N("100.0"), N("50.0")) \preceq (T(N("500.0"), N("200.0"), N("50.0")) \oplus tiny)
   /\ T(N("500.0"), N("100.0"), N("80.0")) \preceq T(N("500.0"), N("100.0"), N("50.0"))
   /\ (~sun => T(N("500.0"), N("100.0"), N("80.0")) = N("10.0"))
(* the year: tilt of the axis, equation of time, solstices and equinoxes     *)
Year == LET o == Orbit(day) IN
   /\ Abs(o.decl) \preceq Rad(N("23.44"))
   /\ Abs(o.eot) \preceq Rad(N("4.2"))                  \* 17 minutes
   /\ (day \in 90..250 => Zero \prec o.decl) /\ (day \in (1..75) \cup (275..365) => o.decl \prec Zero)
   /\ (day \in 168..176 => Rad(N("23.3")) \prec o.decl)
   (* at local solar noon the sun stands in the south at 90 - latitude + declination *)
   /\ \A r \in 1..8 : /\ Near(SinAlt(r, o, Zero), Cos(Latitude(r) \ominus o.decl), Zero, tiny)
                      /\ West(r, o, Zero) = Zero
   (* a direction has length one *)
   /\ \A r \in 1..8 : \A w \in {-150, -60, 30, 100, 170} :
        Near(Sq(SinAlt(r, o, deg(w))) \oplus (Sq(West(r, o, deg(w))) \oplus Sq(South(r, o, deg(w)))), One, Zero, tiny)
=============================================================================
