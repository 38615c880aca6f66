------------------------------ MODULE HctObject ------------------------------
(* The mutable HCT object: its abstract state is the displayed colour.        *)
EXTENDS Hct

HUE == 1
CHROMA == 2
TONE == 3

\* the colour after setting one coordinate of colour c to v
AfterSet(c, kind, v) ==
    LET o == HctOf(c) IN
    IF kind = HUE THEN Solve(v, o.chroma, o.tone)
    ELSE IF kind = CHROMA THEN Solve(o.hue, v, o.tone)
    ELSE Solve(o.hue, o.chroma, v)
\* setting a coordinate may move c to d
MayBecome(c, kind, v, d) ==
    LET o == HctOf(c) IN
    IF kind = HUE THEN Solved(d, v, o.chroma, o.tone)
    ELSE IF kind = CHROMA THEN Solved(d, o.hue, v, o.tone)
    ELSE Solved(d, o.hue, o.chroma, v)

\* What setting one coordinate promises about the others.
KeepsTone(c, kind, v, d) ==
    LET t == IF kind = TONE THEN RClamp(R0, R100, v) ELSE LstarFromArgb(c)
    IN Near(LstarFromArgb(d), t, RLit("0.5"))
KeepsHue(c, kind, v, d) ==
    LET o == HctOf(c)
        k == HctOf(d)
        h == IF kind = HUE THEN SanitizeDeg(v) ELSE o.hue
        asked == IF kind = CHROMA THEN v ELSE o.chroma
    IN (k.chroma \succeq RLit("16") /\ RBetween(RLit("10"), k.tone, RLit("95")) /\ ~IsGrayRequest(asked, k.tone))
       => DiffDeg(k.hue, h) \preceq RLit("4")
HctText(o) == "H" \o ToString(IRound(o.hue)) \o " C" \o ToString(IRound(o.chroma)) \o " T" \o ToString(IRound(o.tone))
=============================================================================
