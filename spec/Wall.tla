-------------------------------- MODULE Wall --------------------------------
(***************************************************************************)
(* Heat conduction through a layered wall, and what it means for response  *)
(* factors to represent it.                                                *)
(*                                                                         *)
(* A wall is a sequence of layers [r, c], from the room outwards, r in     *)
(* m2K/W and c in J/m2K, its outer surface resistance (or the earth) being *)
(* the last layer.  Response factors rf are [a0, a1, t0, t1, row], for     *)
(* absorption (a) and transmission (t), with 12 terms.                     *)
(***************************************************************************)
EXTENDS Air, TLC

DT == N("900.0")
AlphaWall == << N("2.0e-6"), N("7.9e-6"), N("3.1205e-5"), N("1.2325e-4"), N("4.8687e-4"), N("1.9231e-3"),
                N("7.5964e-3"), N("3.0006e-2") >>
AlphaGround == << N("1.0597e-9"), N("4.2389e-9"), N("1.6956e-8"), N("6.7806e-8"), N("2.7128e-7"), N("1.085e-6"),
                  N("4.3417e-6"), N("1.7361e-5"), N("6.94444e-5"), N("2.77778e-4") >>
Alpha(ground) == IF ground THEN AlphaGround ELSE AlphaWall

(* Where the fit looks: every decay rate, one point below the first, and    *)
(* the geometric mean between neighbours.                                   *)
Points(al) == Tup([i \in 1..(2 * Len(al)) |->
   LET m == (i + 1) \div 2 IN
   IF i % 2 = 0 THEN al[m]
   ELSE IF i = 1 THEN al[1] \oslash Sqrt(al[2] \oslash al[1])
   ELSE al[m] \oslash Sqrt(al[m] \oslash al[m - 1])])

(* The four-terminal matrix of one layer at Laplace variable z, as the      *)
(* tuple of its entries, and of the layers from k on.                       *)
LayerMatrix(l, z) ==
  IF l.c \prec N("0.001") THEN <<One, l.r, Zero, One>>
  ELSE LET q == Sqrt(l.r \otimes l.c \otimes z) IN
       <<Cosh(q), (l.r \oslash q) \otimes Sinh(q), (q \oslash l.r) \otimes Sinh(q), Cosh(q)>>
MMul(A, B) == << (A[1] \otimes B[1]) \oplus (A[2] \otimes B[3]), (A[1] \otimes B[2]) \oplus (A[2] \otimes B[4]),
                 (A[3] \otimes B[1]) \oplus (A[4] \otimes B[3]), (A[3] \otimes B[2]) \oplus (A[4] \otimes B[4]) >>
RECURSIVE Chain(_, _, _)
Chain(layers, k, z) == IF k = Len(layers) THEN LayerMatrix(layers[k], z)
                       ELSE MMul(LayerMatrix(layers[k], z), Chain(layers, k + 1, z))
TotalR(layers) == Sum([k \in 1..Len(layers) |-> layers[k].r])

(* Exact transfer functions, less their steady values.                      *)
GA(layers, z) == LET F == Chain(layers, 1, z) IN (F[2] \oslash F[4]) \ominus TotalR(layers)
GT(layers, z) == LET F == Chain(layers, 1, z) IN (One \oslash F[4]) \ominus One

(* The amplitudes of the decaying parts that a set of factors stands for.   *)
E1(al, m) == One \ominus Exp(Neg(al[m] \otimes DT))
Amp(al, f1) == Tup([m \in 1..Len(al) |-> Neg((f1[m] \otimes al[m] \otimes DT) \oslash (E1(al, m) \otimes E1(al, m)))])
(* first factor belonging to a steady value and amplitudes                  *)
First(al, steady, A) == steady \oplus Sum([m \in 1..Len(al) |-> (A[m] \otimes E1(al, m)) \oslash (al[m] \otimes DT)])

(* A fits G in the least-squares sense: the error at the points is          *)
(* orthogonal to each of the functions z/(z+alpha).                         *)
LeastSquares(al, A, G) ==
  LET pts == Points(al)
      Fn(i, m) == pts[i] \oslash (pts[i] \oplus al[m])
      err == Tup([i \in 1..Len(pts) |-> Sum([m \in 1..Len(al) |-> A[m] \otimes Fn(i, m)]) \ominus G[i]])
      size == (SumAbs(G) \oplus (SumAbs(A) \otimes N("1e-3"))) \oplus N("1e-6")
  IN [m \in 1..Len(al) |-> Abs(Sum([i \in 1..Len(pts) |-> err[i] \otimes Fn(i, m)])) \oslash size]

Steady(f0, f1, row) == f0 \oplus Sum([m \in 1..12 |-> f1[m] \oslash (One \ominus row[m])])
=============================================================================
