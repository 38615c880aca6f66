------------------------------- MODULE Contrast -------------------------------
(* Contrast of two tones, the tone finders, and contrast curves.              *)
EXTENDS ColorMath

RatioOfYs(a, b) == (RMax(a, b) \oplus RLit("5")) \oslash (RMin(a, b) \oplus RLit("5"))
RatioOfTones(a, b) == RatioOfYs(YFromLstar(RClamp(R0, R100, a)), YFromLstar(RClamp(R0, R100, b)))

None == RLit("-1")
Margin == RLit("0.4")
\* the tone just lighter / darker than `tone` with the given contrast, before
\* asking whether such a tone exists
LighterRaw(tone, ratio) ==
    LstarFromY((ratio \otimes (YFromLstar(tone) \oplus RLit("5"))) \ominus RLit("5")) \oplus Margin
DarkerRaw(tone, ratio) ==
    LstarFromY(((YFromLstar(tone) \oplus RLit("5")) \oslash ratio) \ominus RLit("5")) \ominus Margin
Achievable(x) == RBetween(R0, x, R100)
Lighter(tone, ratio) ==
    IF ~RBetween(R0, tone, R100) THEN None
    ELSE LET x == LighterRaw(tone, ratio) IN IF Achievable(x) THEN x ELSE None
Darker(tone, ratio) ==
    IF ~RBetween(R0, tone, R100) THEN None
    ELSE LET x == DarkerRaw(tone, ratio) IN IF Achievable(x) THEN x ELSE None
LighterUnsafe(tone, ratio) == LET x == Lighter(tone, ratio) IN IF x \prec R0 THEN R100 ELSE x
DarkerUnsafe(tone, ratio)  == LET x == Darker(tone, ratio) IN IF x \prec R0 THEN R0 ELSE x

\* a curve <<low, normal, medium, high>> over contrast levels -1, 0, 1/2, 1
Curve(a, b, c, d) == <<RLit(a), RLit(b), RLit(c), RLit(d)>>
CurveAt(c, level) ==
    IF level \preceq RLit("-1") THEN c[1]
    ELSE IF level \prec R0 THEN Lerp(c[1], c[2], level \oplus R1)
    ELSE IF level \prec RLit("0.5") THEN Lerp(c[2], c[3], level \oslash RLit("0.5"))
    ELSE IF level \prec R1 THEN Lerp(c[3], c[4], (level \ominus RLit("0.5")) \oslash RLit("0.5"))
    ELSE c[4]
=============================================================================
