--------------------------------- MODULE Blend ---------------------------------
(* Blending colours in HCT and in CAM16-UCS.                                  *)
EXTENDS Hct
HarmonyHue(a, b) ==
    SanitizeDeg(a.hue \oplus (RMin(DiffDeg(a.hue, b.hue) \otimes RLit("0.5"), RLit("15")) \otimes RotationDir(a.hue, b.hue)))
\* both ways round are as short
Opposite(a, b) == Near(DiffDeg(a.hue, b.hue), R180, RLit("1e-7"))
Mix(a, b, t) == a \oplus ((b \ominus a) \otimes t)
UcsMix(c, d, t) ==
    LET k == Cam(c)
        m == Cam(d)
    IN FromUcs(Mix(k.jstar, m.jstar, t), Mix(k.astar, m.astar, t), Mix(k.bstar, m.bstar, t), DefaultVC)
UcsBlend(c, d, t) == LET u == UcsMix(c, d, t) IN ViewedIn(u.j, u.chroma, u.hue, DefaultVC)
Harmonize(c, d) == LET a == HctOf(c) IN Solve(HarmonyHue(a, HctOf(d)), a.chroma, a.tone)
HueBlend(c, d, t) == LET a == HctOf(c) IN Solve(Cam(UcsBlend(c, d, t)).hue, a.chroma, a.tone)
=============================================================================
