-------------------------------- MODULE Dislike --------------------------------
(* Universally disliked colours: dark yellow-greens that are not neutral.     *)
EXTENDS Hct
\* rounding boundaries are as good on either side
AtLeast(x, n) == x \succeq (RInt(n) \ominus RLit("0.5"))       \* rounds to at least n
NearHalf(x, n) == Near(x, RInt(n) \ominus RLit("0.5"), RLit("1e-7"))
Disliked(o) == AtLeast(o.hue, 90) /\ ~AtLeast(o.hue, 112) /\ AtLeast(o.chroma, 17) /\ ~AtLeast(o.tone, 65)
Borderline(o) == NearHalf(o.hue, 90) \/ NearHalf(o.hue, 112) \/ NearHalf(o.chroma, 17) \/ NearHalf(o.tone, 65)
\* a disliked colour is lightened to tone 70
IsFixOf(d, c) == LET o == HctOf(c) IN IF Disliked(o) THEN Solved(d, o.hue, o.chroma, RLit("70")) ELSE d = c
FixDisliked(c) == LET o == HctOf(c) IN IF Disliked(o) THEN Solve(o.hue, o.chroma, RLit("70")) ELSE c
=============================================================================
