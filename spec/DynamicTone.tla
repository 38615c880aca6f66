----------------------------- MODULE DynamicTone -----------------------------
(* How a dynamic colour finds its tone: from the tone it would like to have,  *)
(* the tones of its backgrounds, its contrast curve, and, for pairs, the      *)
(* distance that has to be kept.                                              *)
EXTENDS Contrast

PrefersLight(t) == IRound(t) < 60
AllowsLight(t) == IRound(t) <= 49
EnableLight(t) == IF PrefersLight(t) /\ ~AllowsLight(t) THEN RLit("49") ELSE t

\* the tone to put on a background so that the contrast is `ratio`, or as much
\* as can be had
ForegroundTone(bg, ratio) ==
    LET lt == LighterUnsafe(bg, ratio)
        dt == DarkerUnsafe(bg, ratio)
        lr == RatioOfTones(lt, bg)
        dr == RatioOfTones(dt, bg)
        negligible == RAbs(lr \ominus dr) \prec RLit("0.1") /\ lr \prec ratio /\ dr \prec ratio
    IN IF PrefersLight(bg)
       THEN IF lr \succeq ratio \/ lr \succeq dr \/ negligible THEN lt ELSE dt
       ELSE IF dr \succeq ratio \/ dr \succeq lr THEN dt ELSE lt

\* keep the wished tone if it is good enough; with reduced contrast (level < 0)
\* go down to the bare minimum
Adjusted(level, bg, wish, ratio) ==
    IF level \succeq R0 /\ RatioOfTones(bg, wish) \succeq ratio THEN wish ELSE ForegroundTone(bg, ratio)

Awkward(t) == RLit("50") \preceq t /\ t \prec RLit("60")

\* one colour on one or two backgrounds
SoloTone(level, wish, isBg, bgs, curve) ==
    IF bgs = <<>> THEN wish ELSE
    LET ratio == CurveAt(curve, level)
        a0 == Adjusted(level, bgs[1], wish, ratio)
        a1 == IF isBg /\ Awkward(a0)
              THEN IF RatioOfTones(RLit("49"), bgs[1]) \succeq ratio THEN RLit("49") ELSE RLit("60")
              ELSE a0
    IN IF Len(bgs) = 1 THEN a1 ELSE
       LET upper == RMax(bgs[1], bgs[2])
           lower == RMin(bgs[1], bgs[2])
           light == Lighter(upper, ratio)
           dark  == Darker(lower, ratio)
       IN IF RatioOfTones(upper, a1) \succeq ratio /\ RatioOfTones(lower, a1) \succeq ratio THEN a1
          ELSE IF PrefersLight(bgs[1]) \/ PrefersLight(bgs[2])
               THEN IF light \prec R0 THEN R100 ELSE light
          ELSE IF dark \prec R0 /\ ~(light \prec R0) THEN light
          ELSE IF dark \prec R0 THEN R0 ELSE dark

\* a pair: `nearer` and `farther` from the background's tone, at least delta
\* apart; dark schemes expand upwards, light schemes downwards.
\* Result: <<tone of nearer, tone of farther>>
PairTones(level, dark, bg, nwish, ncurve, fwish, fcurve, delta, together) ==
    LET dir == IF dark THEN R1 ELSE RLit("-1")
        step == delta \otimes dir
        n0 == Adjusted(level, bg, nwish, CurveAt(ncurve, level))
        f0 == Adjusted(level, bg, fwish, CurveAt(fcurve, level))
        apart(n, f) == ((f \ominus n) \otimes dir) \succeq delta
        f1 == IF apart(n0, f0) THEN f0 ELSE RClamp(R0, R100, n0 \oplus step)
        n1 == IF apart(n0, f1) THEN n0 ELSE RClamp(R0, R100, f1 \ominus step)
        edge == IF dark THEN RLit("60") ELSE RLit("49")
        beyond(f) == IF dark THEN RMax(f, edge \oplus step) ELSE RMin(f, edge \oplus step)
    IN IF Awkward(n1) THEN <<edge, beyond(f1)>>
       ELSE IF Awkward(f1) THEN IF together THEN <<edge, beyond(f1)>> ELSE <<n1, edge>>
       ELSE <<n1, f1>>
AIsNearer(polarity, dark) ==
    polarity = "nearer" \/ (polarity = "lighter" /\ ~dark) \/ (polarity = "darker" /\ dark)

\* the most contrast any tone has with this background
BestRatio(bg) == RMax(RatioOfTones(bg, R0), RatioOfTones(bg, R100))
\* contrast as promised: the wished ratio, or (nearly) all there is
Promised(bg, tone, ratio) ==
    RatioOfTones(bg, tone) \succeq (RMin(ratio, BestRatio(bg) \ominus RLit("0.1")) \ominus RLit("1e-9"))
=============================================================================
