-------------------------------- MODULE Air --------------------------------
(* Moist air and the physical constants of the simulation.                  *)
EXTENDS Num

Zero == N("0.0")
One  == N("1.0")
Half == N("0.5")

CAir == N("1005.0")      \* specific heat of air, J/kgK
Rho  == N("1.2")         \* density of air, kg/m3
LWtr == N("2501000.0")   \* latent heat of vaporisation, J/kg
PAtm == N("101325.0")    \* atmospheric pressure, Pa
Sigma == N("5.67e-8")    \* Stefan-Boltzmann
Emiss == N("0.9")        \* emissivity of indoor surfaces
RhoC == CAir \otimes Rho

(* Saturation vapour pressure over water (theta >= 0) and over ice, Pa      *)
PvsForm(t, a1, a2, a3, a4, a5) ==
  Exp((a1 \oslash t) \oplus a2 \oplus (a3 \otimes t) \oplus (a4 \otimes t \otimes t) \oplus (a5 \otimes Ln(t)))
Coldest == N("-100.0")  \* from here on the formula holds; saturated air has next to no water
Pvs(theta) ==
  LET t == theta \oplus N("273.15") IN
  IF Zero \preceq theta
  THEN PvsForm(t, N("-6096.9385"), N("21.2409642"), N("-0.02711193"), N("0.00001673952"), N("2.433502"))
  ELSE PvsForm(t, N("-6024.5282"), N("29.32707"), N("0.010613863"), N("-0.000013198825"), N("-0.49382577"))

(* Humidity ratio at vapour pressure p, and back.  The two directions use   *)
(* 0.622 and 0.62198: the code's own constants.                             *)
HumRatio(p) == (N("0.622") \otimes p) \oslash (PAtm \ominus p)
VapPress(x) == (PAtm \otimes x) \oslash (x \oplus N("0.62198"))
RelHum(theta, x) == (VapPress(x) \oslash Pvs(theta)) \otimes N("100.0")
=============================================================================
