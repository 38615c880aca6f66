------------------------------- MODULE Real64 -------------------------------
(* Real numbers for TLC: IEEE-754 binary64, represented as <<hi, lo>>, the    *)
(* two signed 32-bit halves of the bit pattern.  That is also how the         *)
(* recorded traces carry them, so no digit is lost between the code and the   *)
(* specification.  TLC has no built-in reals: every operator of this module   *)
(* is evaluated by the override in java/Real64.java (the mechanism TLC itself *)
(* uses for Naturals or Sequences).  The right-hand sides below only say      *)
(* what the operator stands for.                                              *)
EXTENDS Integers

Override == CHOOSE x \in {} : TRUE

RLit(s)      == Override     \* the double nearest to the decimal literal s
RInt(n)      == Override     \* the integer n
RNorm(a)     == Override     \* a itself (forces evaluation)
RAdd(a, b)   == Override
RSub(a, b)   == Override
RMul(a, b)   == Override
RDiv(a, b)   == Override
RNeg(a)      == Override
RAbs(a)      == Override
RSqrt(a)     == Override
RPow(a, b)   == Override
RExp(a)      == Override
RLn(a)       == Override
RSin(a)      == Override
RCos(a)      == Override
RAtan2(a, b) == Override     \* angle of the vector (b, a)
RMod(a, b)   == Override     \* remainder with the sign of a
RMin(a, b)   == Override
RMax(a, b)   == Override
RRound(a)    == Override     \* to nearest, halves away from zero
RFloor(a)    == Override
RCeil(a)     == Override
IRound(a)    == Override     \* the same, as (saturating) TLA+ integers
IFloor(a)    == Override
ICeil(a)     == Override
RLt(a, b)    == Override
RLe(a, b)    == Override
REq(a, b)    == Override
RFinite(a)   == Override     \* neither infinite nor not-a-number
\* sequences of reals
RPrefix(s)   == Override     \* running sums
IFirstMin(s) == Override     \* index of the first smallest
ILastMax(s)  == Override     \* index of the last largest
IFirstAtLeast(s, x, from) == Override  \* first index >= from of an element >= x, or 0
IFirsts(s)   == Override     \* of integers: positions of first occurrences, increasing
ITimes(s)    == Override     \* of integers: how often each distinct one occurs, in that order
RStr(a)      == Override     \* decimal text, for messages

a \oplus b  == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b   == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b   == RLt(b, a)
a \succeq b == RLe(b, a)

R0   == RLit("0")
R1   == RLit("1")
R2   == RLit("2")
R100 == RLit("100")
R180 == RLit("180")
R360 == RLit("360")
Pi   == RLit("3.141592653589793")

RClamp(lo, hi, x) == IF x \prec lo THEN lo ELSE IF x \succ hi THEN hi ELSE x
RSign(x) == IF x \prec R0 THEN RLit("-1") ELSE IF REq(x, R0) THEN R0 ELSE R1
RBetween(lo, x, hi) == lo \preceq x /\ x \preceq hi
\* |a - b| <= eps (false for NaN)
Near(a, b, eps) == RAbs(a \ominus b) \preceq eps
\* a = b up to a relative-plus-absolute rounding slack eps
NearRel(a, b, eps) ==
    RAbs(a \ominus b) \preceq (eps \otimes (R1 \oplus RMax(RAbs(a), RAbs(b))))
=============================================================================
