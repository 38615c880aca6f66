------------------------------ MODULE DynamicLaws ------------------------------
(* What users of dynamic colours rely on, said of tones alone: these are      *)
(* properties of the specification (checked on it by M_Dynamic) and of every  *)
(* recorded answer (checked by T_Dynamic).                                    *)
EXTENDS MaterialRoles, TLC
Law(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"CLAUSE", name>>) /\ FALSE

Enough(bg, t, ratio) == RatioOfTones(bg, t) \succeq (ratio \ominus RLit("1e-9"))
\* a tone t on two backgrounds
DualLaw(name, ratio, b1, b2, t) ==
    LET light == Lighter(RMax(b1, b2), ratio)
        dark == Darker(RMin(b1, b2), ratio)
        some == IF PrefersLight(b1) \/ PrefersLight(b2) THEN ~(light \prec R0)
                ELSE ~(light \prec R0) \/ ~(dark \prec R0)
    IN Law("contrast with both backgrounds where it can be had" \o name,
           some => Enough(b1, t, ratio) /\ Enough(b2, t, ratio))
SoloLaw(level, wish, isBg, bgs, curve, t) ==
    /\ Law("without a background, the tone wished for", bgs = <<>> => REq(t, wish))
    /\ (bgs # <<>> /\ ~isBg) =>
         LET ratio == CurveAt(curve, level) IN
         IF Len(bgs) = 1
         THEN /\ Law("the contrast of the curve, or all there is", Promised(bgs[1], t, ratio))
              /\ Law("a tone that is good enough is kept",
                     (level \succeq R0 /\ RatioOfTones(bgs[1], wish) \succeq (ratio \oplus RLit("1e-9"))) => REq(t, wish))
         ELSE DualLaw("", ratio, bgs[1], bgs[2], t)
    /\ Law("a background is never awkward to write on", (isBg /\ Len(bgs) = 1) => ~Awkward(t))

\* T(nm): the tone of role nm
ContrastLaw(s, T(_)) == \A k \in 1..NumRoles :
    LET row == Rows[k] IN
    (row[3] # "" /\ PairOf[row[1]] = 0) =>
       IF row[4] = ""
       THEN Law("contrast of " \o row[1] \o ", or all there is",
                Promised(T(BackgroundOf(s, row[3])), T(row[1]), CurveAt(row[5], s.level)))
       ELSE DualLaw(": " \o row[1], CurveAt(row[5], s.level), T(row[3]), T(row[4]), T(row[1]))

\* a pair keeps its distance and stays out of the awkward tones
PairLaw(name, dark, n, f, delta) ==
    /\ Law("the pair keeps its distance" \o name,
           ((f \ominus n) \otimes (IF dark THEN R1 ELSE RLit("-1"))) \succeq (delta \ominus RLit("1e-9")))
    /\ Law("neither tone is awkward to write on" \o name, ~Awkward(n) /\ ~Awkward(f))
RolePairLaw(s, T(_)) == \A p \in 1..7 :
    LET aNear == AIsNearer(Pairs[p][3], s.dark)
        n == IF aNear THEN Pairs[p][1] ELSE Pairs[p][2]
        f == IF aNear THEN Pairs[p][2] ELSE Pairs[p][1]
    IN PairLaw(": " \o n \o ", " \o f, s.dark, T(n), T(f), Delta)
=============================================================================
