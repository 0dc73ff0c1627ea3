--------------------------- MODULE HeatLoadTrace ---------------------------
(***************************************************************************)
(* A recorded run of the calculation, checked step by step against         *)
(* HeatLoad.  The trace gives the inputs and, for each main step, the      *)
(* logged outcome; the wall-response and ground components, which are not  *)
(* logged, are computed by the specification's own actions.  Every law     *)
(* that fails is recorded in bad with the property it belongs to; known    *)
(* deviations of the implementation are recorded in dev.                   *)
(***************************************************************************)
EXTENDS HeatLoad, TLCExt, Json, IOUtils

Tr == LoadReals(IOEnv.TRACE)
Prop == IOEnv.PROP
TB == Tr.b
Cyc(n, len) == (n % len) + 1
TInp(n) == LET k == Cyc(n, Len(Tr.b.to)) IN
  [to |-> Tr.b.to[k], xo |-> Tr.b.xo[k], lv |-> Tr.inp.lv[k], qg |-> Tr.inp.qg[k], xg |-> Tr.inp.xg[k],
   nh |-> Tr.inp.nh[k], dem |-> Tr.inp.dem[k], qt |-> Tr.inp.qt[k], tos |-> Tr.inp.tos[k]]

VARIABLES phase, n, g, s, bad, dev, seen
vars == <<phase, n, g, s, bad, dev, seen>>

Limit == 60
(* A run whose own run-up is not reported: the state of the walls before    *)
(* the first step is not known, that of the rooms from the second step on.  *)
Blind == Tr.build > 0
Want(p) == Prop = "ALL" \/ Prop = p
(* a verdict: the empty set, or the failed clause *)
V(p, c, e, ok, v) == IF ok THEN {} ELSE {[p |-> p, c |-> c, n |-> n, e |-> e, v |-> v]}
Over(S, f(_)) == UNION {f(x) : x \in S}

Tight == N("1e-8")
RelT == N("1e-7")
Eq(a, b) == Near(a, b, Tight, N("1e-9"))
EqW(a, b) == Near(a, b, N("1e-7"), N("1e-6"))      \* heat flows, W
ShowEq(a, b) == Show(a) \o " / " \o Show(b)

-----------------------------------------------------------------------------
(* C01  sensible heat of the room air *)
LawAir(u, e) == Over(Rooms, LAMBDA i:
  LET t == AirTerms(s, u, e, i)
      full == Append(t, RhoC \otimes InterIdeal(e.tr, i))
  IN V("C01", "air heat balance", i, Balanced(full, RelT, N("1e-5")), Show(Sum(full))))
AirIsDev(u, e, i) == Balanced(Append(AirTerms(s, u, e, i), RhoC \otimes InterDevT(e.tr, i)), RelT, N("1e-5"))

(* C02  walls *)
SurfTerms(u, e, ta, tt, rear, j) ==
  << Neg(e.ts[j]), Bd(j).phia0 \otimes e.q[j], Sum(ta[j]), Bd(j).phit0 \otimes rear, Sum(tt[j]) >>
SurfOk(t) == Balanced(t, N("1e-8"), N("1e-7"))
LawWall(u, e, ta, tt, mrts) == Over(Bds, LAMBDA j:
  LET t == SurfTerms(u, e, ta, tt, RearNew(u, e.te, j), j)
      lin == EquivTemp(e.tr, mrts, u, e.lr, j)
  IN UNION {V("C02", "wall response", j, SurfOk(t), Show(Sum(t))),
            V("C02", "rear temperature", j, Eq(e.tb[j], RearTemp(s, u, j)), ShowEq(e.tb[j], RearTemp(s, u, j))),
            V("C02", "equivalent room-side temperature", j, Eq(e.te[j], lin), ShowEq(e.te[j], lin)),
            V("C02", "surface heat flow", j, EqW(e.q[j], (e.te[j] \ominus e.ts[j]) \otimes Hi(j)),
                    ShowEq(e.q[j], (e.te[j] \ominus e.ts[j]) \otimes Hi(j))),
            V("C02", "surface energy balance", j,
                Balanced(<<Neg(e.q[j] \otimes Bd(j).area), e.qic[j], e.qir[j], e.qis[j],
                           RadOn(e.lr, j) \otimes Bd(j).area>>, RelT, N("1e-5")),
                ShowEq(e.q[j] \otimes Bd(j).area, e.qic[j]))})
WallIsDev(u, e, ta, tt, mrts, j) ==
  RearDiffers(j) /\ SurfOk(SurfTerms(u, e, ta, tt, RearNewDev(u, e, mrts, j), j))

(* C03  furniture and the split of the sun that comes in *)
LawFurniture(u, e) == Over(Rooms, LAMBDA i:
  UNION {
   V("C03", "furniture heat balance", i,
      Balanced(<<Neg((Rm(i).cf \oslash dt) \otimes (e.tf[i] \ominus s.tf[i])),
                 Rm(i).gf \otimes (e.tr[i] \ominus e.tf[i]), QSolFrt(u, i)>>, RelT, N("1e-6")),
      Show(e.tf[i])),
   V("C03", "reported furniture heat gain", i, EqW(e.qsf[i], Rm(i).gf \otimes (e.tr[i] \ominus e.tf[i])), Show(e.qsf[i])),
   V("C03", "sun absorbed by furniture", i, EqW(e.qssf[i], QSolFrt(u, i)), ShowEq(e.qssf[i], QSolFrt(u, i))),
   V("C03", "sun conserved", i,
      EqW(u.qt[i], e.qssf[i] \oplus SumBds(i, LAMBDA j: e.qis[j])),
      ShowEq(u.qt[i], e.qssf[i] \oplus SumBds(i, LAMBDA j: e.qis[j]))),
   Over({j \in Bds : Bd(j).room = i}, LAMBDA j:
     V("C03", "sun on surfaces by area", j, EqW(e.qis[j], QSolSrf(u, j) \otimes Bd(j).area),
        ShowEq(e.qis[j], QSolSrf(u, j) \otimes Bd(j).area)))})

(* C04  moisture *)
XTol == N("1e-13")
LawMoisture(u, e) == Over(Rooms, LAMBDA i:
  LET full == Append(MoistTerms(s, u, e, i), Rho \otimes InterIdeal(e.xr, i)) IN
  UNION {
   V("C04", "air moisture balance", i, Balanced(full, RelT, XTol), Show(Sum(full))),
   V("C04", "furniture moisture balance", i,
      Balanced(<<Neg((Rm(i).cw \oslash dt) \otimes (e.xf[i] \ominus s.xf[i])),
                 Rm(i).gw \otimes (e.xr[i] \ominus e.xf[i])>>, RelT, XTol), Show(e.xf[i])),
   V("C04", "humidity ratio is positive", i, (Zero \prec e.xr[i]) /\ (Zero \prec e.xf[i]), Show(e.xr[i])),
   V("C04", "reported furniture moisture gain", i,
      Near(e.qlf[i], Rm(i).gw \otimes (e.xr[i] \ominus e.xf[i]), N("1e-7"), N("1e-14")), Show(e.qlf[i]))})
MoistIsDev(u, e, i) == Balanced(Append(MoistTerms(s, u, e, i), Rho \otimes InterDevX(e.xr, i)), RelT, XTol)

(* C05  operation mode *)
LawMode(u, e) == Over(Rooms, LAMBDA i:
  LET pv == VapPress(s.xr[i])
      h == Pmv(s.tr[i], s.mrt[i], pv, CloHeavy)
      m == Pmv(s.tr[i], s.mrt[i], pv, CloMiddle)
      l == Pmv(s.tr[i], s.mrt[i], pv, CloLight)
      d == Zero \prec u.dem[i]
      ok == \/ e.mode[i] = NextMode(s.mode[i], d, Observe(h, m, l))
            \/ e.mode[i] \in NextModes(s.mode[i], d, h, m, l, N("1e-9"))
  IN V("C05", "operation mode", i, ok,
        s.mode[i] \o " -> " \o e.mode[i] \o " PMV " \o Show(h) \o " " \o Show(m) \o " " \o Show(l)))

(* C06  set point, loads and capacities *)
Active(mode, nat, tgt) == \/ mode = "HEATING" /\ nat \prec tgt
                          \/ mode = "COOLING" /\ tgt \prec nat
(* does one room behave as asked, given its natural temperature? *)
LoadsOk(u, e, i, nat) ==
  LET mode == e.mode[i]
      tgt == TargetOT(VapPress(s.xr[i]), ModeClo(mode), ModePmv(mode))
      set == (tgt \otimes u.dem[i]) \oplus (nat \otimes (One \ominus u.dem[i]))
      heat == mode = "HEATING"
      rad == IF heat THEN Rm(i).radh ELSE Rm(i).radc
      cap == IF heat THEN Rm(i).caph ELSE Rm(i).capc
      counter == IF heat THEN (IF Rm(i).radc THEN Rm(i).capc ELSE Zero) ELSE (IF Rm(i).radh THEN Rm(i).caph ELSE Zero)
      (* radiant output, positive when it does what the mode asks *)
      out == IF heat THEN e.lr[i] ELSE Neg(e.lr[i])
      border == (mode \in {"HEATING", "COOLING"}) /\ Near(nat, tgt, Zero, N("1e-6"))
  IN \/ border
     \/ ~Active(mode, nat, tgt) /\ EqW(e.lc[i], Zero) /\ EqW(e.lr[i], Zero)
     \/ /\ Active(mode, nat, tgt)
        /\ Near(e.ot[i], set, N("1e-8"), N("1e-6"))
        /\ IF ~rad THEN EqW(e.lr[i], Zero)
           ELSE /\ out \preceq (cap \oplus (Tight \otimes cap) \oplus N("1e-9"))
                /\ EqW(e.lc[i], Zero) \/ EqW(out, cap)
                   (* warmer neighbours may turn the load round: then the    *)
                   (* opposite capacity limits the emitter                   *)
                   \/ (out \preceq Zero /\ EqW(Neg(out), counter))
LawLoad(u, e, ta, tt) ==
  LET nat == NaturalOT(s, u, e.mode, ta, tt, FALSE)
      natd == IF HasInterzone \/ HasRearDiffers THEN NaturalOT(s, u, e.mode, ta, tt, TRUE) ELSE nat
  IN Over(Rooms, LAMBDA i:
    LET rem == e.rem[i]  ot == OperTemp(e.tr[i], e.mrt[i]) IN
    UNION {
     V("C06", "loads and set point", i, LoadsOk(u, e, i, nat[i]) \/ LoadsOk(u, e, i, natd[i]),
        e.mode[i] \o " ot " \o Show(e.ot[i]) \o " natural " \o Show(natd[i]) \o " target "
          \o Show(TargetOT(VapPress(s.xr[i]), ModeClo(e.mode[i]), ModePmv(e.mode[i])))
          \o " lc " \o Show(e.lc[i]) \o " lr " \o Show(e.lr[i])),
     V("C06", "operative temperature", i, Eq(e.ot[i], ot), ShowEq(e.ot[i], ot)),
     V("C06", "coefficients around the person", i, Eq(e.hc[i], HcHum) /\ Eq(e.hr[i], HrHum), ShowEq(e.hc[i], e.hr[i])),
     V("C06", "reported comfort settings", i,
        /\ Eq(rem.pmv, ModePmv(e.mode[i])) /\ Eq(rem.clo, ModeClo(e.mode[i]))
        /\ Eq(rem.v, AirSpeed(e.mode[i], Rm(i).radh, Rm(i).radc)),
        e.mode[i] \o " " \o Show(rem.pmv) \o " " \o Show(rem.clo) \o " " \o Show(rem.v))})

(* C07  latent load: dehumidification by the cooling coil *)
Bypass == N("0.2")
CoilFlow(i, q) ==   \* m3/s through the coil at sensible output q, W; none where the unit's data give none
  (Max2(Zero, Rm(i).vmin \oplus (((Rm(i).vmax \ominus Rm(i).vmin) \oslash (Rm(i).qmax \ominus Rm(i).qmin))
       \otimes (q \ominus Rm(i).qmin))) \oslash N("60.0")) \otimes (One \ominus Bypass)
Flows(i, q) == Zero \prec CoilFlow(i, q)
CoilTemp(i, q, tr) == tr \ominus (q \oslash (RhoC \otimes CoilFlow(i, q)))
CoilHum(i, q, tr) == HumRatio(Pvs(Max2(CoilTemp(i, q, tr), Coldest)))
(* the humidity the room would have without the coil, from the logged       *)
(* outcome: adding the coil moves the balance by ll only                    *)
LawLatent(u, e) ==
  LET q(i) == Neg(e.lc[i])
      cools(i) == Rm(i).rac /\ N("1e-3") \prec q(i)
      (* without the coil: solve the moisture balance of all rooms *)
      diag(i) == (Rho \otimes ((Rm(i).vol \oslash dt) \oplus VOut(s, u, e.mode[i], i)))
                 \oplus ((Rm(i).cw \otimes Rm(i).gw) \oslash FrtDenW(i))
      mat(d) == Tup([i \in Rooms |-> Tup([k \in Rooms |->
           (IF i = k THEN diag(i) \oplus (IF d THEN Zero ELSE Rho \otimes Sum(Rm(i).vnext)) ELSE Zero)
           \ominus (Rho \otimes Rm(i).vnext[k])])])
      rhs == Tup([i \in Rooms |->
           (Rho \otimes (((Rm(i).vol \oslash dt) \otimes s.xr[i]) \oplus (VOut(s, u, e.mode[i], i) \otimes u.xo)))
           \oplus (((Rm(i).cw \otimes Rm(i).gw) \oslash FrtDenW(i)) \otimes s.xf[i])
           \oplus u.xg[i] \oplus XHum(s, u, i)])
      dryI == Solve(mat(FALSE), rhs)
      dryD == IF HasInterzone THEN Solve(mat(TRUE), rhs) ELSE dryI
      ok(i, dry) ==
        IF ~cools(i) THEN Abs(e.ll[i]) = Zero
        ELSE IF ~Flows(i, q(i)) THEN EqW(e.ll[i], Zero)
        ELSE LET xe == CoilHum(i, q(i), e.tr[i])
                 want == Neg(Rho \otimes CoilFlow(i, q(i)) \otimes (e.xr[i] \ominus xe) \otimes LWtr)
             IN IF Near(xe, dry[i], N("1e-9"), Zero) THEN TRUE
                ELSE IF dry[i] \prec xe THEN EqW(e.ll[i], Zero)
                ELSE Near(e.ll[i], want, N("1e-6"), N("1e-5"))
  IN Over(Rooms, LAMBDA i:
       UNION {
       V("C07", "latent load", i, ok(i, dryI) \/ ok(i, dryD),
          "ll " \o Show(e.ll[i]) \o " lc " \o Show(e.lc[i]) \o " x " \o Show(e.xr[i])),
       V("C07", "the coil only removes water", i, e.ll[i] \preceq N("1e-6"), Show(e.ll[i])),
       V("C07", "coil and room humidity", i,
          (cools(i) /\ Flows(i, q(i)) /\ e.ll[i] \prec N("-1e-3"))
             => CoilHum(i, q(i), e.tr[i]) \preceq (e.xr[i] \oplus N("1e-9")), Show(e.xr[i]))})

(* C08  people *)
LawPeople(u, e) == Over(Rooms, LAMBDA i:
  UNION {
   V("C08", "sensible heat of people", i, EqW(e.qhs[i], QHum(s, u, i)), ShowEq(e.qhs[i], QHum(s, u, i))),
   V("C08", "moisture of people", i, Near(e.qhl[i], XHum(s, u, i), N("1e-8"), N("1e-15")), ShowEq(e.qhl[i], XHum(s, u, i))),
   V("C08", "119 W a person", i,
      EqW(e.qhs[i] \oplus (e.qhl[i] \otimes LWtr), N("119.0") \otimes u.nh[i]),
      Show(e.qhs[i] \oplus (e.qhl[i] \otimes LWtr))),
   V("C08", "people give off no negative moisture", i, Neg(N("1e-15")) \preceq e.qhl[i], Show(e.qhl[i]))})

(* C09  outside air *)
LawVent(u, e) == Over(Rooms, LAMBDA i:
  UNION {
   V("C09", "infiltration", i, Near(e.vl[i], VLeak(s, u, i), N("1e-8"), N("1e-12")), ShowEq(e.vl[i], VLeak(s, u, i))),
   V("C09", "infiltration is not negative", i, Zero \preceq e.vl[i], Show(e.vl[i])),
   V("C09", "window ventilation", i, Eq(e.vn[i], VNtrl(e.mode[i], i)), ShowEq(e.vn[i], VNtrl(e.mode[i], i))),
   (* the logged air flows are the ones that act on heat and on moisture *)
   V("C09", "outside air in the moisture balance", i,
      LET full == Append(MoistTerms(s, u, e, i), Rho \otimes InterIdeal(e.xr, i)) IN
      Balanced(full, RelT, XTol) \/ (HasInterzone /\ MoistIsDev(u, e, i)), "flow " \o Show(VOut(s, u, e.mode[i], i))),
   V("C09", "outside air in the heat balance", i,
      LET full == Append(AirTerms(s, u, e, i), RhoC \otimes InterIdeal(e.tr, i)) IN
      Balanced(full, RelT, N("1e-5")) \/ (HasInterzone /\ AirIsDev(u, e, i)), "flow " \o Show(VOut(s, u, e.mode[i], i)))})

(* C11  radiation between the surfaces of a room *)
T293 == N("4.0") \otimes Sigma \otimes Pow(N("293.15"), N("3.0"))
(* view factor of a surface from a small sphere, from its radiative coefficient *)
FView == Tup([j \in Bds |-> (One \ominus ((Emiss \otimes T293) \oslash Bd(j).hr)) \oslash Emiss])
RArea(j) == Bd(j).area \oslash SumBds(Bd(j).room, LAMBDA k: Bd(k).area)
(* Nagata: r = fbar * F (1 - F) below one half, fbar (1 + (2F-1)^2)/4 above *)
FBar(j) == LET f == FView[j] IN
  IF f \preceq Half THEN RArea(j) \oslash (f \otimes (One \ominus f))
  ELSE (N("4.0") \otimes RArea(j)) \oslash (One \oplus Pow((N("2.0") \otimes f) \ominus One, N("2.0")))
StaticRadiation == Over(Rooms, LAMBDA i:
  UNION {
   V("C11", "view factors sum to one", i,
      Near(SumBds(i, LAMBDA j: FView[j]), One, Zero, N("1e-6")), Show(SumBds(i, LAMBDA j: FView[j]))),
   V("C11", "view factors are probabilities", i,
      \A j \in Bds : Bd(j).room = i => Zero \prec FView[j] /\ FView[j] \preceq (One \oplus N("1e-9")), "-"),
   V("C11", "one mean view parameter for the room", i,
      \A j, k \in Bds : (Bd(j).room = i /\ Bd(k).room = i) => Near(FBar(j), FBar(k), N("1e-5"), Zero),
      ToString([k \in 1..Len(BdsOf(i)) |-> Show(FBar(BdsOf(i)[k]))]))})
LawRadiation(u, e, mrts) == Over(Rooms, LAMBDA i:
  UNION {
   V("C11", "radiation within a room cancels", i,
      Balanced(OfBds(i, LAMBDA j: e.qir[j]), N("1e-9"), N("1e-6")), Show(SumBds(i, LAMBDA j: e.qir[j]))),
   V("C11", "mean radiant temperature of the person", i, Eq(e.mrt[i], Dot(FmhVec[i], e.ts)),
      ShowEq(e.mrt[i], Dot(FmhVec[i], e.ts))),
   Over({j \in Bds : Bd(j).room = i}, LAMBDA j:
     UNION {V("C11", "surface radiation", j,
        EqW(e.qir[j], Bd(j).hr \otimes Bd(j).area \otimes (mrts[i] \ominus e.ts[j])), Show(e.qir[j])),
      V("C11", "radiation in the surface balance", j,
         Balanced(<<Neg(e.q[j] \otimes Bd(j).area), HcA[j] \otimes (e.tr[i] \ominus e.ts[j]),
              Bd(j).hr \otimes Bd(j).area \otimes (mrts[i] \ominus e.ts[j]),
              QSolSrf(u, j) \otimes Bd(j).area, RadOn(e.lr, j) \otimes Bd(j).area>>, RelT, N("1e-5")),
         Show(e.q[j])),
      V("C11", "coefficients do not change", j, Eq(e.hir[j], Bd(j).hr) /\ Eq(e.hic[j], Bd(j).hc), ShowEq(e.hir[j], e.hic[j]))})})

(* C20  the detailed report repeats inputs and relations faithfully *)
LawReport(u, e) == UNION {
  V("C20", "outdoor air", 0, Eq(e.outT, u.to) /\ Near(e.outX, u.xo, N("1e-9"), N("1e-12")), ShowEq(e.outT, u.to)),
  Over(Rooms, LAMBDA i: UNION {
    V("C20", "inputs repeated", i, Eq(e.occ[i], u.dem[i]) /\ EqW(e.qsolt[i], u.qt[i])
         /\ EqW(e.qse[i], u.qg[i]) /\ Near(e.qle[i], u.xg[i], N("1e-9"), N("1e-15")), "-"),
    V("C20", "relative humidity", i, Near(e.rh[i], RelHum(e.tr[i], e.xr[i]), N("1e-8"), N("1e-9")),
         ShowEq(e.rh[i], RelHum(e.tr[i], e.xr[i]))),
    V("C20", "operative temperature", i, Eq(e.ot[i], OperTemp(e.tr[i], e.mrt[i])), Show(e.ot[i])),
    V("C20", "furniture flows", i, EqW(e.qsf[i], Rm(i).gf \otimes (e.tr[i] \ominus e.tf[i]))
         /\ Near(e.qlf[i], Rm(i).gw \otimes (e.xr[i] \ominus e.xf[i]), N("1e-7"), N("1e-14")), "-"),
    Over({j \in Bds : Bd(j).room = i}, LAMBDA j: UNION {
      V("C20", "convective flow at the surface", j, EqW(e.qic[j], HcA[j] \otimes (e.tr[i] \ominus e.ts[j])), Show(e.qic[j])),
      V("C20", "sun at the surface", j, EqW(e.qis[j], QSolSrf(u, j) \otimes Bd(j).area), Show(e.qis[j])),
      V("C20", "flows at the surface add up", j,
          Balanced(<<Neg(e.q[j] \otimes Bd(j).area), e.qic[j], e.qir[j], e.qis[j],
                     RadOn(e.lr, j) \otimes Bd(j).area>>, RelT, N("1e-5")), Show(e.q[j]))})})}

(* C10  the first reported step continues from the run-up                   *)
LawFirst(u, e, ta, tt, mrts) == IF n # 0 \/ Blind \/ ~Want("C10") THEN {} ELSE UNION {
  Over(Bds, LAMBDA j: V("C10", "walls and ground at the first step", j,
     SurfOk(SurfTerms(u, e, ta, tt, RearNew(u, e.te, j), j))
       \/ WallIsDev(u, e, ta, tt, mrts, j), Show(Sum(SurfTerms(u, e, ta, tt, RearNew(u, e.te, j), j))))),
  Over(Rooms, LAMBDA i: UNION {
     V("C10", "air at the first step", i,
        Balanced(Append(AirTerms(s, u, e, i), RhoC \otimes InterIdeal(e.tr, i)), RelT, N("1e-5"))
        \/ (HasInterzone /\ AirIsDev(u, e, i)), "-"),
     V("C10", "moisture at the first step", i,
        Balanced(Append(MoistTerms(s, u, e, i), Rho \otimes InterIdeal(e.xr, i)), RelT, XTol)
        \/ (HasInterzone /\ MoistIsDev(u, e, i)), "-"),
     V("C10", "furniture at the first step", i,
        Balanced(<<Neg((Rm(i).cf \oslash dt) \otimes (e.tf[i] \ominus s.tf[i])),
                 Rm(i).gf \otimes (e.tr[i] \ominus e.tf[i]), QSolFrt(u, i)>>, RelT, N("1e-6"))
        /\ Balanced(<<Neg((Rm(i).cw \oslash dt) \otimes (e.xf[i] \ominus s.xf[i])),
                 Rm(i).gw \otimes (e.xr[i] \ominus e.xf[i])>>, RelT, XTol), "-")}),
  LET m == LawMode(u, e) IN {[v EXCEPT !.p = "C10", !.c = "operation mode at the first step"] : v \in m},
  LET m == LawVent(u, e) IN {[v EXCEPT !.p = "C10"] : v \in m},
  Over(Bds, LAMBDA j: V("C10", "rear temperature at the first step", j, Eq(e.tb[j], RearTemp(s, u, j)), Show(e.tb[j])))}

(* Nothing is reported that is not a number. *)
LawFinite(e) == IF ~Want("C20") THEN {} ELSE
  V("C20", "all results are finite numbers", 0,
     \A f \in {"tr", "xr", "mrt", "ot", "lc", "lr", "ll", "tf", "xf", "ts", "te", "tb", "q", "rh"} : VAllFinite(e[f]), "-")

-----------------------------------------------------------------------------
(* Known deviations: a failed clause the deviation explains exactly is      *)
(* moved from the verdicts to dev.                                          *)
Explained(v, u, e, ta, tt, mrts) ==
  \/ v.c = "air heat balance" /\ HasInterzone /\ AirIsDev(u, e, v.e)
  \/ v.c = "air moisture balance" /\ HasInterzone /\ MoistIsDev(u, e, v.e)
  \/ v.c = "wall response" /\ WallIsDev(u, e, ta, tt, mrts, v.e)
DevName(v) == CASE v.c = "wall response" -> "rear-coefficients"
                [] v.c = "air heat balance" -> "interzone-heat"
                [] v.c = "air moisture balance" -> "interzone-moisture"

Verdicts(u, e, ta, tt) ==
  LET mrts == SurfMrt(e.ts) IN
  UNION { IF Want("C01") THEN LawAir(u, e) ELSE {},
          IF Want("C02") /\ ~Blind THEN LawWall(u, e, ta, tt, mrts) ELSE {},
          IF Want("C03") THEN LawFurniture(u, e) ELSE {},
          IF Want("C04") THEN LawMoisture(u, e) ELSE {},
          IF Want("C05") THEN LawMode(u, e) ELSE {},
          IF Want("C06") /\ ~Blind THEN LawLoad(u, e, ta, tt) ELSE {},
          (* the loads are those that hold the temperatures *)
          IF Prop = "C06" /\ ~Blind THEN {[v EXCEPT !.p = "C06"] : v \in LawAir(u, e) \cup LawWall(u, e, ta, tt, mrts)} ELSE {},
          IF Prop = "C07" THEN {[v EXCEPT !.p = "C07"] : v \in LawMoisture(u, e)} ELSE {},
          IF Want("C07") THEN LawLatent(u, e) ELSE {},
          IF Want("C08") THEN LawPeople(u, e) ELSE {},
          IF Want("C09") THEN LawVent(u, e) ELSE {},
          IF Want("C11") THEN LawRadiation(u, e, mrts) ELSE {},
          IF Want("C20") THEN LawReport(u, e) ELSE {},
          LawFirst(u, e, ta, tt, mrts), LawFinite(e) }

-----------------------------------------------------------------------------
Init == /\ phase = IF Blind \/ Tr.g = 0 THEN "handover" ELSE "ground"
        /\ n = (IF Blind THEN 0 ELSE -Tr.g) /\ g = GroundInit /\ s = <<>>
        /\ bad = IF Want("C11") THEN StaticRadiation ELSE {}
        /\ dev = {} /\ seen = {}

GroundTick == /\ phase = "ground"
              /\ g' = GroundNext(g, InpAt(n).to)
              /\ n' = n + 1
              /\ phase' = IF n + 1 = 0 THEN "handover" ELSE "ground"
              /\ UNCHANGED <<s, bad, dev, seen>>

HandOver == /\ phase = "handover"
            /\ s' = BuildInit(g) /\ phase' = "main" /\ n' = 0
            /\ UNCHANGED <<g, bad, dev, seen>>

(* Situations the run went through: what the verdicts are worth.            *)
Situations(u, e) == UNION {
  {<<"mode", s.mode[i], e.mode[i]>> : i \in Rooms},
  Over(Rooms, LAMBDA i:
    LET lab(c, t) == IF c THEN {<<t>>} ELSE {}
        cap == IF e.mode[i] = "HEATING" THEN Rm(i).caph ELSE Rm(i).capc IN UNION {
      lab(Abs(e.lr[i]) # Zero /\ e.lc[i] = Zero, "radiant below capacity"),
      lab(Abs(e.lr[i]) # Zero /\ Near(Abs(e.lr[i]), cap, N("1e-9"), Zero), "radiant at capacity"),
      lab(Zero \prec e.lc[i] /\ Abs(e.lr[i]) = Zero, "convective heating"),
      lab(e.lc[i] \prec Zero /\ Abs(e.lr[i]) = Zero, "convective cooling"),
      lab(Zero \prec u.dem[i] /\ u.dem[i] \prec One, "partial demand"),
      lab(e.mode[i] \in {"HEATING", "COOLING"} /\ Abs(e.lc[i]) = Zero /\ Abs(e.lr[i]) = Zero, "on but idle"),
      lab(Abs(e.ll[i]) # Zero, "coil removes water"),
      lab(Rm(i).rac /\ e.lc[i] \prec N("-1e-3") /\ ~Flows(i, Neg(e.lc[i])), "no air through the coil"),
      lab(Rm(i).rac /\ e.lc[i] \prec N("-1e-3") /\ Flows(i, Neg(e.lc[i])) /\ CoilTemp(i, Neg(e.lc[i]), e.tr[i]) \prec Coldest, "coil colder than the formulas"),
      lab(Abs(e.ll[i]) = Zero /\ e.lc[i] \prec N("-1.0") /\ Rm(i).rac, "coil stays dry"),
      lab(Zero \prec e.vn[i], "windows open"),
      lab(Zero \prec u.nh[i] /\ s.tr[i] \prec N("10.0"), "cold people"),
      lab(Zero \prec u.nh[i] /\ N("24.0") \prec s.tr[i], "warm people"),
      lab(Zero \prec u.nh[i] /\ N("39.75") \prec s.tr[i], "people hotter than themselves"),
      lab(e.tr[i] \prec Zero, "frost indoors"),
      lab(Zero \prec Rm(i).beta /\ Abs(e.lr[i]) # Zero, "radiant emitter also convects")}),
  IF LeakRate(s, u) = Zero THEN {<<"no leakage">>} ELSE {<<"leakage", B.pressure, B.story>>},
  IF HasInterzone THEN {<<"interzone air">>} ELSE {},
  IF \E j \in Bds : HasRear(j) /\ RearOf(j) = j THEN {<<"floor over crawl space">>} ELSE {},
  IF \E j \in Bds : Bd(j).ground THEN {<<"ground floor">>} ELSE {} }

(* In very long runs the laws are looked at on the first day, on the last,  *)
(* and every so many steps between; the state is followed all the way.      *)
Due == ~(Blind /\ n = 0) /\ (n < 96 \/ n \geq Len(Tr.rows) - 96 \/ n % Tr.every = 0)

Tick == /\ phase = "main" /\ n < Len(Tr.rows)
        /\ LET u == InpAt(n)
               e == Tr.rows[n + 1]
               ta == Tup([j \in Bds |-> NextTa(s, j)])
               tt == Tup([j \in Bds |-> NextTt(s, u, j)])
               vs == IF Due THEN Verdicts(u, e, ta, tt) ELSE {}
               mrts == SurfMrt(e.ts)
               ex == {v \in vs : Explained(v, u, e, ta, tt, mrts)}
           IN /\ bad' = IF Cardinality(bad) > Limit THEN bad ELSE bad \cup (vs \ ex)
              /\ seen' = IF Due THEN seen \cup Situations(u, e) ELSE seen
              /\ dev' = dev \cup {<<v.p, DevName(v)>> : v \in {v \in ex : v.p \in {"C01", "C02", "C04"}}}
              /\ s' = [mode |-> e.mode, tr |-> e.tr, mrt |-> e.mrt, tf |-> e.tf, xr |-> e.xr,
                       xf |-> e.xf, te |-> e.te, q |-> e.q, ta |-> ta, tt |-> tt]
        /\ n' = n + 1
        /\ UNCHANGED <<phase, g>>

Report == /\ phase = "main" /\ n = Len(Tr.rows)
          /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, dev |-> dev, seen |-> seen \cup (IF Blind THEN {<<"after a run-up">>} ELSE {}), steps |-> n, ground |-> Tr.g])
          /\ phase' = "done"
          /\ UNCHANGED <<n, g, s, bad, dev, seen>>

Next == GroundTick \/ HandOver \/ Tick \/ Report
Spec == Init /\ [][Next]_vars

(* the property proper: no law is broken *)
Conforms == bad = {}
=============================================================================
