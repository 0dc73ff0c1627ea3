-------------------------------- MODULE Sky --------------------------------
(***************************************************************************)
(* Sunlight and night radiation on a surface, overhangs and glass.         *)
(***************************************************************************)
EXTENDS Sun, TLC

Directions == {"s", "sw", "w", "nw", "n", "ne", "e", "se", "top", "bottom"}
Azimuth(d) == Rad(CASE d = "s" -> N("0.0") [] d = "sw" -> N("45.0") [] d = "w" -> N("90.0") [] d = "nw" -> N("135.0")
                    [] d = "n" -> N("180.0") [] d = "ne" -> N("-135.0") [] d = "e" -> N("-90.0") [] d = "se" -> N("-45.0")
                    [] OTHER -> Zero)
Slope(d) == Rad(CASE d = "top" -> Zero [] d = "bottom" -> N("180.0") [] OTHER -> N("90.0"))

(* a sky: direct normal, horizontal diffuse and night radiation, the sun    *)
(* [dn, sky, rn, h, a]                                                      *)
CosIncidence(s, d) ==
  LET al == Azimuth(d)  be == Slope(d) IN
  Max2(Zero, (Sin(s.h) \otimes Cos(be)) \oplus ((Cos(s.h) \otimes Sin(be)) \otimes Cos(s.a \ominus al)))
SkyShare(d) == (One \oplus Cos(Slope(d))) \otimes Half
Albedo == N("0.1")
Direct(s, d) == s.dn \otimes CosIncidence(s, d)
Diffuse(s, d) == s.sky \otimes SkyShare(d)
Horizontal(s) == (IF Zero \prec s.h THEN Sin(s.h) \otimes s.dn ELSE Zero) \oplus s.sky
Reflected(s, d) == (Albedo \otimes (One \ominus SkyShare(d))) \otimes Horizontal(s)
Global(s, d) == Direct(s, d) \oplus (Diffuse(s, d) \oplus Reflected(s, d))

(* An overhang of infinite length before a window: it stands out by depth,  *)
(* de above the window of height dh.                                        *)
ShadedDirect(s, d, w) ==
  IF ~(Zero \prec s.h) THEN Zero
  ELSE LET tanProfile == Tan(s.h) \oslash Cos(s.a \ominus Azimuth(d))
           drop == (w.depth \otimes tanProfile) \ominus w.de
       IN Min2(One, Max2(Zero, drop \oslash w.dh))
ShadedSky(w) ==
  LET hyp(x) == Sqrt(Sq(x) \oplus Sq(w.depth)) IN
  (((w.de \oplus w.dh) \oplus hyp(w.de)) \ominus (w.de \oplus hyp(w.de \oplus w.dh))) \oslash (N("2.0") \otimes w.dh)

(* Glass: transmittance by angle of incidence, relative to normal incidence *)
Poly(c, a0, a1, a2, a3, a4, a5) ==
  a0 \oplus (c \otimes (a1 \oplus (c \otimes (a2 \oplus (c \otimes (a3 \oplus (c \otimes (a4 \oplus (c \otimes a5)))))))))
TauSingle(c) == Poly(c, Zero, N("2.552"), N("1.364"), N("-11.388"), N("13.617"), N("-5.146"))
RhoSingle(c) == Poly(c, One, N("-5.189"), N("12.392"), N("-16.593"), N("11.851"), N("-3.461"))
Tau(glass, c) == IF Abs(c) \preceq N("1e-12") THEN Zero ELSE IF glass = "single" THEN TauSingle(c) ELSE Sq(TauSingle(c)) \oslash (One \ominus Sq(RhoSingle(c)))
TauDiffuse(glass) == IF glass = "single" THEN N("0.9") ELSE N("0.832")

(* Sunlight entering through a window b under the sky s, W                  *)
Entering(s, b, fd, fs) ==
  (b.area \otimes b.eta) \otimes
  ((((One \ominus fd) \otimes Tau(b.glass, CosIncidence(s, b.dir))) \otimes Direct(s, b.dir))
   \oplus (TauDiffuse(b.glass) \otimes (((One \ominus fs) \otimes Diffuse(s, b.dir)) \oplus Reflected(s, b.dir))))

(* The temperature that acts behind a surface.                              *)
External == {"external_general_part", "external_opaque_part", "external_transparent_part"}
EqvTemp(s, b, mean) ==
  CASE b.type = "internal" -> Zero
    [] b.type = "ground" -> mean
    [] ~b.sun -> s.to
    [] b.type = "external_transparent_part" -> s.to \ominus ((b.eps \otimes (SkyShare(b.dir) \otimes s.rn)) \otimes b.ro)
    [] OTHER -> s.to \oplus (((b.as \otimes Global(s, b.dir)) \ominus (b.eps \otimes (SkyShare(b.dir) \otimes s.rn))) \otimes b.ro)
=============================================================================
