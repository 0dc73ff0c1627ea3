-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.                                                *)
(*                                                                         *)
(* TLC has 32-bit integers and no fractions, and the system specified here *)
(* is a numerical one.  A real is the pair <<hi, lo>> of the two 32-bit    *)
(* words of an IEEE-754 double.  Every operator below has the meaning its  *)
(* comment gives over the reals, rounded to the nearest double; TLC        *)
(* evaluates it with java/hlc/NumImpl.java.  The bodies written here only  *)
(* give the type of the result: they are never evaluated.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Word == -2147483647..2147483647
Real == Word \X Word
Some(S) == CHOOSE x \in S : TRUE

(* N("0.25") is the number written in the string; FromInt(3) is 3.0        *)
N(s)        == Some(Real)
FromInt(i)  == Some(Real)
a \oplus b  == Some(Real)      \* a + b
a \ominus b == Some(Real)      \* a - b
a \otimes b == Some(Real)      \* a * b
a \oslash b == Some(Real)      \* a / b
a \prec b   == Some(BOOLEAN)   \* a < b
a \preceq b == Some(BOOLEAN)   \* a <= b
Neg(a)  == Some(Real)
Abs(a)  == Some(Real)
Sqrt(a) == Some(Real)
Exp(a)  == Some(Real)
Ln(a)   == Some(Real)
Pow(a, b) == Some(Real)
Sin(a)  == Some(Real)
Cos(a)  == Some(Real)
Tan(a)  == Some(Real)
ASin(a) == Some(Real)
ACos(a) == Some(Real)
ATan2(y, x) == Some(Real)
Sinh(a) == Some(Real)
Cosh(a) == Some(Real)
FloorInt(a) == Some(Word)      \* greatest integer <= a
CeilInt(a)  == Some(Word)
RoundTo(a, d) == Some(Real)    \* nearest multiple of 10^-d, ties to even
Min2(a, b) == Some(Real)
Max2(a, b) == Some(Real)
IsNaN(a) == Some(BOOLEAN)
IsFinite(a) == Some(BOOLEAN)
Show(a) == Some(STRING)        \* decimal string, for verdicts
Near(a, b, rel, abs) == Some(BOOLEAN)  \* |a-b| <= abs + rel*max(|a|,|b|)

(* Vectors are sequences of reals.                                         *)
Tup(f)  == f                  \* the same sequence, evaluated once
Sum(v)  == Some(Real)
SumAbs(v) == Some(Real)
VMaxAbs(v) == Some(Real)
Dot(v, w) == Some(Real)
VAdd(v, w) == Some(Seq(Real))
VSub(v, w) == Some(Seq(Real))
VMul(v, w) == Some(Seq(Real))
VDiv(v, w) == Some(Seq(Real))
VScale(k, v) == Some(Seq(Real))
VConst(n, x) == Some(Seq(Real))
VNear(v, w, rel, abs) == Some(BOOLEAN)
VAllFinite(v) == Some(BOOLEAN)
VGap(v, w) == Some(STRING)     \* where two vectors differ most
VFirstGap(v, w, rel, abs) == Some(Nat) \* first index where they are not Near; 0 = none
Balanced(v, rel, abs) == Some(BOOLEAN) \* |sum v| <= abs + rel * sum |v|
Solve(M, b) == Some(Seq(Real)) \* x with M x = b

(* A JSON file as a value: objects are records, arrays are sequences,      *)
(* numbers written with a fraction or an exponent are reals, other numbers *)
(* integers, null is the string "null".                                    *)
LoadReals(path) == Some({})
=============================================================================
