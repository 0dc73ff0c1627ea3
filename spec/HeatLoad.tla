------------------------------ MODULE HeatLoad ------------------------------
(***************************************************************************)
(* The heat-load calculation as a state machine.                           *)
(*                                                                         *)
(* A house is a set of rooms and of boundaries (wall surfaces); each       *)
(* boundary faces one room.  Time advances in steps of B.dt seconds,       *)
(* through three phases:                                                   *)
(*    "ground"  only the earth under the house is followed,                *)
(*    "build"   the whole house is run up from a fixed start,              *)
(*    "main"    the period whose results are reported.                     *)
(* One action per phase step: GroundTick, HandOver, Tick.                  *)
(*                                                                         *)
(* What a Tick may do is given by laws, relations between the state before *)
(* (s), the inputs of the step (u) and the outcome (e).  Each law carries  *)
(* the name of the listed property it belongs to.                          *)
(***************************************************************************)
EXTENDS Comfort, TLC, FiniteSets

CONSTANTS B,         \* the building (a record, see harness/core_driver.py)
          InpAt(_)   \* inputs of step n: a record

R == Len(B.rooms)
J == Len(B.bds)
Rooms == 1..R
Bds == 1..J
dt == B.dt

Rm(i) == B.rooms[i]
Bd(j) == B.bds[j]
Hi(j) == Bd(j).hc \oplus Bd(j).hr

BdsOfF == Tup([i \in Rooms |-> SelectSeq([k \in Bds |-> k], LAMBDA j: Bd(j).room = i)])
BdsOf(i) == BdsOfF[i]

OfBds(i, f(_)) == [k \in 1..Len(BdsOf(i)) |-> f(BdsOf(i)[k])]
SumBds(i, f(_)) == Sum(OfBds(i, f))

(* weights of the surfaces of a room in its mean radiant temperature *)
AhF == Tup([j \in Bds |-> Bd(j).area \otimes Bd(j).hr])
AhSumF == Tup([i \in Rooms |-> SumBds(i, LAMBDA j: AhF[j])])
FmrtF == Tup([j \in Bds |-> AhF[j] \oslash AhSumF[Bd(j).room]])
FmrtVec == Tup([i \in Rooms |-> Tup([j \in Bds |-> IF Bd(j).room = i THEN FmrtF[j] ELSE Zero])])
FmhVec  == Tup([i \in Rooms |-> Tup([j \in Bds |-> IF Bd(j).room = i THEN Bd(j).fmh ELSE Zero])])

AbsArea == Tup([i \in Rooms |-> SumBds(i, LAMBDA j: IF Bd(j).abs THEN Bd(j).area ELSE Zero)])
HcA == Tup([j \in Bds |-> Bd(j).hc \otimes Bd(j).area])

CRoom(i) == Rm(i).vol \otimes RhoC                \* J/K
FrtDen(i) == Rm(i).cf \oplus (dt \otimes Rm(i).gf)
FrtDenW(i) == Rm(i).cw \oplus (dt \otimes Rm(i).gw)

HasRear(j) == Bd(j).kin[1] # 0
RearOf(j) == Bd(j).kin[1]

(* Does the building contain the situations in which the implementation is *)
(* known to depart from the laws (see known_findings.json)?                *)
HasInterzone == \E i \in Rooms : \E k \in Rooms : Rm(i).vnext[k] # Zero
RearDiffers(j) == HasRear(j) /\ LET k == RearOf(j) IN
   \/ Bd(j).hc # Bd(k).hc \/ Bd(j).hr # Bd(k).hr \/ Bd(j).area # Bd(k).area
HasRearDiffers == \E j \in Bds : RearDiffers(j)

-----------------------------------------------------------------------------
(* Phase "ground": the earth, driven by the outdoor air.                    *)
GroundBds == {j \in Bds : Bd(j).ground}
ThetaOAve == Sum(B.to) \oslash FromInt(Len(B.to))

Zero12 == VConst(12, Zero)
GroundInit == [ta |-> Tup([j \in Bds |-> Zero12]), q |-> VConst(J, Zero)]

GroundNext(g, to) ==
  LET ta == Tup([j \in Bds |-> IF Bd(j).ground
                 THEN VAdd(VScale(g.q[j], Bd(j).phia1), VMul(Bd(j).r, g.ta[j])) ELSE g.ta[j]])
      ts(j) == ((Bd(j).phia0 \otimes Hi(j) \otimes to) \oplus Sum(ta[j]) \oplus ThetaOAve)
               \oslash (One \oplus (Bd(j).phia0 \otimes Hi(j)))
  IN [ta |-> ta, q |-> Tup([j \in Bds |-> IF Bd(j).ground THEN Hi(j) \otimes (to \ominus ts(j)) ELSE g.q[j]])]

(* The house at the start of its own run: everything at 15 C, air stopped,  *)
(* windows closed, except that the ground keeps what it has learnt, and is  *)
(* in balance with the constant temperature deep below.                     *)
DeepGround(j) == VDiv(VScale(ThetaOAve, Bd(j).phit1), VSub(VConst(12, One), Bd(j).r))
XStart == HumRatio(Pvs(N("20.0")) \otimes N("0.4"))
BuildInit(g) ==
  [mode |-> Tup([i \in Rooms |-> "STOP_CLOSE"]),
   tr |-> VConst(R, N("15.0")), mrt |-> VConst(R, N("15.0")), tf |-> VConst(R, N("15.0")),
   xr |-> VConst(R, XStart), xf |-> VConst(R, XStart),
   te |-> VConst(J, N("15.0")), q |-> g.q, ta |-> g.ta,
   tt |-> Tup([j \in Bds |-> IF Bd(j).ground THEN DeepGround(j) ELSE Zero12])]

-----------------------------------------------------------------------------
(* Quantities of one step, computed from the state before it.               *)
RearTemp(s, u, j) ==
  (u.tos[j] \otimes Bd(j).kout)
  \oplus (IF HasRear(j) THEN Bd(j).kin[2] \otimes s.te[RearOf(j)] ELSE Zero)

NextTa(s, j) == VAdd(VScale(s.q[j], Bd(j).phia1), VMul(Bd(j).r, s.ta[j]))
NextTt(s, u, j) == VAdd(VScale(RearTemp(s, u, j), Bd(j).phit1), VMul(Bd(j).r, s.tt[j]))

QHumPerson(tr) == Min2(N("63.0") \ominus (N("4.0") \otimes (tr \ominus N("24.0"))), N("119.0"))
QHum(s, u, i) == QHumPerson(s.tr[i]) \otimes u.nh[i]
XHum(s, u, i) == ((N("119.0") \ominus QHumPerson(s.tr[i])) \oslash LWtr) \otimes u.nh[i]

TotVol == Sum([i \in Rooms |-> Rm(i).vol])
LeakA == IF B.story = 1 THEN N("0.022") ELSE N("0.020")
LeakB == CASE B.pressure = "balanced" -> Zero
           [] B.pressure = "positive" -> IF B.story = 1 THEN N("0.26") ELSE N("0.14")
           [] B.pressure = "negative" -> IF B.story = 1 THEN N("0.28") ELSE N("0.13")
AvgTemp(s) == Dot([i \in Rooms |-> Rm(i).vol], s.tr) \oslash TotVol
LeakRate(s, u) == Max2((LeakA \otimes B.cvalue \otimes Sqrt(Abs(AvgTemp(s) \ominus u.to))) \ominus LeakB, Zero)
VLeak(s, u, i) == (LeakRate(s, u) \otimes Rm(i).vol) \oslash N("3600.0")
VNtrl(mode, i) == IF mode = "STOP_OPEN" THEN Rm(i).vnat ELSE Zero
VOut(s, u, mode, i) == VLeak(s, u, i) \oplus Rm(i).vmech \oplus u.lv[i] \oplus VNtrl(mode, i)

(* where no surface absorbs light, the furniture takes it all                *)
QSolFrt(u, i) == IF AbsArea[i] = Zero THEN u.qt[i] ELSE Half \otimes u.qt[i]
QSolSrf(u, j) == IF Bd(j).abs THEN (Half \otimes u.qt[Bd(j).room]) \oslash AbsArea[Bd(j).room] ELSE Zero
RadOn(lr, j) == (Bd(j).flr \otimes (One \ominus Rm(Bd(j).room).beta) \otimes lr[Bd(j).room]) \oslash Bd(j).area

EquivTemp(tr, mrts, u, lr, j) ==
  ((Bd(j).hc \otimes tr[Bd(j).room]) \oplus (Bd(j).hr \otimes mrts[Bd(j).room])
     \oplus QSolSrf(u, j) \oplus RadOn(lr, j)) \oslash Hi(j)
SurfMrt(ts) == Tup([i \in Rooms |-> Dot(FmrtVec[i], ts)])

(* Rear temperature within the new step, implicit in the new temperatures.  *)
RearNew(u, te, j) ==
  (u.tos[j] \otimes Bd(j).kout)
  \oplus (IF HasRear(j) THEN Bd(j).kin[2] \otimes te[RearOf(j)] ELSE Zero)
(* DEVIATION rear-coefficients: the implementation divides the rear         *)
(* surface's gains by the coefficients and area of the near surface.        *)
RearNewDev(u, e, mrts, j) ==
  (u.tos[j] \otimes Bd(j).kout)
  \oplus (IF ~HasRear(j) THEN Zero ELSE LET k == RearOf(j) IN
     Bd(j).kin[2] \otimes
       (((Bd(j).hc \otimes e.tr[Bd(k).room]) \oplus (Bd(j).hr \otimes mrts[Bd(k).room])
         \oplus QSolSrf(u, k)
         \oplus ((Bd(k).flr \otimes (One \ominus Rm(Bd(k).room).beta) \otimes e.lr[Bd(k).room]) \oslash Bd(j).area))
        \oslash Hi(j)))

-----------------------------------------------------------------------------
(* The sensible heat of the air of room i, W: what comes in must be stored. *)
AirTerms(s, u, e, i) ==
  << Neg((CRoom(i) \oslash dt) \otimes (e.tr[i] \ominus s.tr[i])),
     SumBds(i, LAMBDA j: HcA[j] \otimes (e.ts[j] \ominus e.tr[i])),
     RhoC \otimes VOut(s, u, e.mode[i], i) \otimes (u.to \ominus e.tr[i]),
     u.qg[i], QHum(s, u, i),
     Rm(i).gf \otimes (e.tf[i] \ominus e.tr[i]),
     e.lc[i], Rm(i).beta \otimes e.lr[i] >>
InterIdeal(f, i) == Sum([k \in Rooms |-> Rm(i).vnext[k] \otimes (f[k] \ominus f[i])])
(* DEVIATION interzone: air from the next room counts with the wrong sign   *)
(* (heat), and nothing leaves for it (heat and moisture).                   *)
InterDevT(f, i) == Neg(Sum([k \in Rooms |-> Rm(i).vnext[k] \otimes f[k]]))
InterDevX(f, i) == Sum([k \in Rooms |-> Rm(i).vnext[k] \otimes f[k]])

(* Moisture of the air of room i, kg/s.                                     *)
MoistTerms(s, u, e, i) ==
  << Neg(Rho \otimes (Rm(i).vol \oslash dt) \otimes (e.xr[i] \ominus s.xr[i])),
     Rho \otimes VOut(s, u, e.mode[i], i) \otimes (u.xo \ominus e.xr[i]),
     u.xg[i], XHum(s, u, i),
     Rm(i).gw \otimes (e.xf[i] \ominus e.xr[i]),
     e.ll[i] \oslash LWtr >>

(* The natural operative temperature: where the rooms would drift in this   *)
(* step with no conditioning.  Unknowns: room temperatures, then surface    *)
(* temperatures.  dev selects the implementation's known deviations.        *)
Unknowns == 1..(R + J)
SurfRow(j, dev) ==
  LET b == Bd(j)  k == RearOf(j)  rear == HasRear(j)
      nb == IF rear THEN (IF dev THEN b ELSE Bd(k)) ELSE b
      f == IF rear THEN (b.phit0 \otimes b.kin[2]) \oslash (nb.hc \oplus nb.hr) ELSE Zero
  IN Tup([z \in Unknowns |->
       IF z <= R
       THEN Neg((IF b.room = z THEN b.phia0 \otimes b.hc ELSE Zero)
            \oplus (IF rear /\ Bd(k).room = z THEN f \otimes nb.hc ELSE Zero))
       ELSE LET m == z - R IN
            (IF m = j THEN One \oplus (b.phia0 \otimes (b.hc \oplus b.hr)) ELSE Zero)
            \ominus (b.phia0 \otimes b.hr \otimes FmrtVec[b.room][m])
            \ominus (IF rear THEN f \otimes nb.hr \otimes FmrtVec[Bd(k).room][m] ELSE Zero)])
RoomRow(i, dev) ==
  Tup([z \in Unknowns |->
     IF z = i THEN (CRoom(i) \oslash dt) \oplus SumBds(i, LAMBDA j: HcA[j])
                   \oplus ((Rm(i).gf \otimes Rm(i).cf) \oslash FrtDen(i))
                   \oplus (IF dev THEN RhoC \otimes Rm(i).vnext[i]
                                  ELSE RhoC \otimes (Sum(Rm(i).vnext) \ominus Rm(i).vnext[i]))
     ELSE IF z <= R THEN (IF dev THEN RhoC \otimes Rm(i).vnext[z] ELSE Neg(RhoC \otimes Rm(i).vnext[z]))
     ELSE IF Bd(z - R).room = i THEN Neg(HcA[z - R]) ELSE Zero])
Matrix(dev) == Tup([z \in Unknowns |-> IF z <= R THEN RoomRow(z, dev) ELSE SurfRow(z - R, dev)])
MIdeal == Matrix(FALSE)
MDev   == Matrix(TRUE)
WithVent(M, vout) == Tup([z \in Unknowns |-> IF z <= R THEN [M[z] EXCEPT ![z] = @ \oplus (RhoC \otimes vout[z])] ELSE M[z]])

NaturalOT(s, u, mode, ta, tt, dev) ==
  LET vout == Tup([i \in Rooms |-> VOut(s, u, mode[i], i)])
      rhs == Tup([z \in Unknowns |->
         IF z <= R
         THEN ((CRoom(z) \oslash dt) \otimes s.tr[z]) \oplus (RhoC \otimes vout[z] \otimes u.to)
              \oplus u.qg[z] \oplus QHum(s, u, z)
              \oplus ((Rm(z).gf \otimes ((Rm(z).cf \otimes s.tf[z]) \oplus (QSolFrt(u, z) \otimes dt))) \oslash FrtDen(z))
         ELSE LET j == z - R  b == Bd(z - R) IN
              (b.phia0 \otimes QSolSrf(u, j)) \oplus Sum(ta[j]) \oplus Sum(tt[j])
              \oplus (b.phit0 \otimes u.tos[j] \otimes b.kout)
              \oplus (IF HasRear(j) THEN (b.phit0 \otimes b.kin[2] \otimes QSolSrf(u, RearOf(j)))
                                         \oslash (IF dev THEN Hi(j) ELSE Hi(RearOf(j))) ELSE Zero)])
      sol == Solve(WithVent(IF dev THEN MDev ELSE MIdeal, vout), rhs)
      ts == Tup([j \in Bds |-> sol[R + j]])
  IN Tup([i \in Rooms |-> (Kc \otimes sol[i]) \oplus (Kr \otimes Dot(FmhVec[i], ts))])
=============================================================================
