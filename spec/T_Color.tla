------------------------------- MODULE T_Color -------------------------------
(* Conformance of ARGB packing and hex text (C01), luminance scales (C02),    *)
(* XYZ and L*a*b* (C03), contrast (C08, C09), angles and interpolation (C28)  *)
(* and contrast curves (C29).                                                 *)
EXTENDS TraceBase, Contrast

Eps == RLit("1e-9")
Tight == RLit("1e-7")

\* ------------------------------------------------------------------- C01
\* `t` is text as character codes
HexDigit(c) == IF c >= 48 /\ c <= 57 THEN c - 48
               ELSE IF c >= 65 /\ c <= 70 THEN c - 55
               ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
RECURSIVE SkipHash(_)
SkipHash(t) == IF t # <<>> /\ Head(t) = 35 THEN SkipHash(Tail(t)) ELSE t
AllHex(t) == \A k \in DOMAIN t : HexDigit(t[k]) >= 0
\* value of at most eight hex digits as a signed 32-bit integer
RECURSIVE HexValue(_, _, _)
HexValue(t, k, acc) ==
    IF k > Len(t) THEN acc
    ELSE LET d == HexDigit(t[k]) IN
         \* the eighth digit shifts into the sign bit
         IF acc >= 134217728 THEN HexValue(t, k + 1, (acc - 268435456) * 16 + d)
         ELSE HexValue(t, k + 1, acc * 16 + d)
AcceptC01(e) ==
    CASE e.op = "pack" ->
           /\ Chk("packing keeps the low eight bits of each component",
                  e.argb = Pack(e.ir % 256, e.ig % 256, e.ib % 256))
           /\ Chk("packed colours are opaque", e.opaque /\ Alpha(e.argb) = 255)
           /\ Chk("components come back", e.r = e.ir % 256 /\ e.g = e.ig % 256 /\ e.b = e.ib % 256 /\ e.a = 255)
      [] e.op = "unpack" ->
           /\ Chk("components of a 32-bit colour",
                  e.a = Alpha(e.argb) /\ e.r = Red(e.argb) /\ e.g = Green(e.argb) /\ e.b = Blue(e.argb))
           /\ Chk("opaque means alpha 255", e.opaque <=> Alpha(e.argb) = 255)
      [] e.op = "hex" ->
           /\ Chk("hex text is RRGGBB in capitals", e.plain = HexText(e.argb))
           /\ Chk("with a leading hash on request and by default",
                  e.hash = "#" \o HexText(e.argb) /\ e.dflt = e.hash)
           /\ Chk("hex text reads back as the same red, green and blue",
                  e.ok1 /\ e.ok2 /\ e.back1 = (e.argb % 16777216) /\ e.back2 = e.back1)
      [] e.op = "parse" ->
           LET t == SkipHash(e.text) IN
           IF t = <<>> \/ (\E k \in DOMAIN t : HexDigit(t[k]) < 0 /\ t[k] \notin {43, 45})
           THEN Chk("text that is no hex number is refused", ~e.ok)
           ELSE IF AllHex(t) /\ Len(t) <= 8
                THEN Chk("hex digits are read as a number", e.ok /\ e.value = HexValue(t, 1, 0))
                ELSE TRUE
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C02
AcceptC02(e) ==
    CASE e.op = "lstar" ->    \* a pair of neighbouring lightnesses 0 <= l <= m <= 100
           LET g == Green(e.grey) IN
           /\ Chk("Y of L*", Near(e.y, YFromLstar(e.l), Tight))
           /\ Chk("L* -> Y -> L* is the identity", Near(e.lback, e.l, Tight))
           /\ Chk("Y grows with L*", e.l \prec e.m => e.y \prec e.ym)
           /\ Chk("0 and 100 are fixed points", (REq(e.l, R0) => Near(e.y, R0, Eps)) /\ (REq(e.l, R100) => Near(e.y, R100, Eps)))
           /\ Chk("the colour of a lightness is an opaque grey", IsOpaque(e.grey) /\ IsGray(e.grey))
           /\ Chk("the nearest grey", IAbs(g - Green(ArgbFromLstar(e.l))) <= 1)
           /\ Chk("its lightness is the requested one to 8-bit accuracy", Near(e.lgrey, e.l, RLit("0.3")))
           /\ Chk("the greys grow with L*", g <= Green(e.greym))
      [] e.op = "yl" -> /\ Chk("L* of Y", Near(e.l, LstarFromY(e.y), Tight))
                        /\ Chk("Y -> L* -> Y is the identity", Near(e.yback, e.y, Tight))
      [] e.op = "comp" ->
           /\ Chk("linear value of a component", Near(e.lin, LinTable[e.n], Tight))
           /\ Chk("component -> linear -> component is the identity", e.back = e.n)
           /\ Chk("linear values grow", e.n > 0 => e.prev \prec e.lin)
           /\ Chk("0 and 255 map to 0 and 100", (e.n = 0 => REq(e.lin, R0)) /\ (e.n = 255 => Near(e.lin, R100, Eps)))
      [] e.op = "delin" ->    \* v <= w
           /\ Chk("a component in 0..255", e.n >= 0 /\ e.n <= 255)
           /\ Chk("the nearest component, clamped",
                  \/ e.n = Delinearized(e.v)
                  \* on a rounding boundary either neighbour will do
                  \/ e.n \in {Delinearized(e.v \oplus Eps), Delinearized(e.v \ominus Eps)})
           /\ Chk("components do not decrease with the linear value", e.n <= e.m)
      [] e.op = "tone" ->
           /\ Chk("L* of a colour", Near(e.l, LstarFromArgb(e.argb), Tight))
           /\ Chk("L* is Lab's L", Near(e.l, e.lab, Tight))
           /\ Chk("L* is that of Y", Near(e.l, LstarFromY(e.y), Tight))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C03
Near3(a, b) == \A k \in 1..3 : NearRel(a[k], b[k], Tight)
AcceptC03(e) ==
    CASE e.op = "space" ->
           /\ Chk("XYZ of a colour", Near3(e.xyz, XyzFromArgb(e.argb)))
           /\ Chk("L*a*b* of a colour", Near3(e.lab, LabFromArgb(e.argb)))
           /\ Chk("colour -> XYZ -> colour is the identity", IsOpaque(e.argb) => e.xback = e.argb)
           /\ Chk("colour -> L*a*b* -> colour is the identity", IsOpaque(e.argb) => e.lback = e.argb)
           /\ Chk("colour -> linear RGB -> colour is the identity", IsOpaque(e.argb) => e.linback = e.argb)
           /\ Chk("greys have no a* and b*",
                  IsGray(e.argb) => Near(e.lab[2], R0, RLit("0.05")) /\ Near(e.lab[3], R0, RLit("0.05")))
      [] e.op = "fromxyz" -> Chk("colour of an XYZ", ShownXyz(e.argb, e.xyz))
      [] e.op = "fromlab" -> Chk("colour of an L*a*b*", ShownXyz(e.argb, XyzFromLab(e.lab)))
      [] e.op = "fromlin" -> Chk("colour of a linear RGB", Shown(e.argb, e.lin))
      [] e.op = "white" -> /\ Chk("D65 white point", Near3(e.wp, WhiteD65))
                           /\ Chk("white is at the white point", \A k \in 1..3 : Near(e.xyz[k], e.wp[k], RLit("0.01")))
      [] OTHER -> Chk("known operation", FALSE)

\* -------------------------------------------------------------- C08, C09
AcceptC08(e) ==
    CASE e.op = "ratio" ->     \* e.c is on the far side of e.b as seen from e.a
           /\ Chk("contrast is between 1 and 21", RBetween(R1 \ominus Eps, e.r, RLit("21") \oplus Eps))
           /\ Chk("contrast as WCAG defines it", NearRel(e.r, RatioOfTones(e.a, e.b), Eps))
           /\ Chk("contrast is symmetric", Near(e.r, e.s, Eps))
           /\ Chk("no contrast with itself", Near(e.self, R1, Eps))
           /\ Chk("contrast grows with distance", e.r \preceq (e.far \oplus Eps))
           /\ Chk("tones outside 0..100 are clamped",
                  Near(e.r, RatioOfTones(RClamp(R0, R100, e.a), RClamp(R0, R100, e.b)), Eps))
      [] OTHER -> Chk("known operation", FALSE)
\* x is the answer of a finder whose unconstrained answer is raw
Found(x, raw, valid) ==
    \/ valid /\ Achievable(x) /\ Near(x, raw, Tight)
    \/ REq(x, None) /\ (~valid \/ raw \preceq Tight \/ raw \succeq (R100 \ominus Tight))
AcceptC09(e) ==
    CASE e.op = "find" ->
           LET valid == RBetween(R0, e.t, R100)
               lr == LighterRaw(e.t, e.r)
               dr == DarkerRaw(e.t, e.r)
           IN /\ Chk("lighter: a tone in 0..100, or -1", REq(e.lighter, None) \/ RBetween(R0, e.lighter, R100))
              /\ Chk("darker: a tone in 0..100, or -1", REq(e.darker, None) \/ RBetween(R0, e.darker, R100))
              /\ Chk("an invalid tone gives -1", ~valid => REq(e.lighter, None) /\ REq(e.darker, None))
              /\ Chk("a lighter tone is lighter", ~REq(e.lighter, None) => e.lighter \succeq e.t)
              /\ Chk("a darker tone is darker", ~REq(e.darker, None) => e.darker \preceq e.t)
              /\ Chk("a lighter tone has the contrast",
                     ~REq(e.lighter, None) => RatioOfTones(e.lighter, e.t) \succeq (e.r \ominus Eps))
              /\ Chk("a darker tone has the contrast",
                     ~REq(e.darker, None) => RatioOfTones(e.darker, e.t) \succeq (e.r \ominus Eps))
              /\ Chk("lighter: the closest such tone, -1 only if there is none", Found(e.lighter, lr, valid))
              /\ Chk("darker: the closest such tone, -1 only if there is none", Found(e.darker, dr, valid))
              /\ Chk("unsafe lighter is the same or 100",
                     e.ulighter = (IF e.lighter \prec R0 THEN R100 ELSE e.lighter))
              /\ Chk("unsafe darker is the same or 0",
                     e.udarker = (IF e.darker \prec R0 THEN R0 ELSE e.darker))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C28
\* a and b name the same direction
SameAngle(a, b) ==
    LET d == RAbs(RMod(a \ominus b, R360)) IN d \preceq Eps \/ d \succeq (R360 \ominus Eps)
AcceptC28(e) ==
    CASE e.op = "angle" ->
           /\ Chk("a clean angle is in [0, 360)", R0 \preceq e.sa /\ e.sa \prec R360)
           /\ Chk("the same direction", SameAngle(e.sa, e.a))
           /\ Chk("cleaning twice changes nothing", REq(e.ssa, e.sa))
           /\ Chk("clean whole angle", e.si >= 0 /\ e.si < 360 /\ e.si = SanitizeInt(e.i))
           /\ Chk("angular distance is in 0..180", RBetween(R0, e.diff, R180))
           /\ Chk("angular distance is symmetric", REq(e.diff, e.diffr))
           /\ Chk("angular distance",
                  LET d == RAbs(e.sa \ominus e.sb) IN Near(e.diff, RMin(d, R360 \ominus d), Eps))
           /\ Chk("direction is 1 or -1", REq(e.dir, R1) \/ REq(e.dir, RLit("-1")))
           /\ Chk("turning by the distance in that direction arrives",
                  SameAngle(e.sa \oplus (e.dir \otimes e.diff), e.sb))
           /\ Chk("opposite directions give 1", Near(e.diff, R180, Eps) \/ e.dir = RotationDir(e.sa, e.sb))
           /\ Chk("exactly opposite directions give 1",
                  REq(SanitizeDeg(e.sb \ominus e.sa), R180) => REq(e.dir, R1))
      [] e.op = "calc" ->
           /\ Chk("sign", e.sign = (IF e.x \prec R0 THEN -1 ELSE IF REq(e.x, R0) THEN 0 ELSE 1))
           /\ Chk("interpolation starts at start", REq(e.l0, e.x) /\ REq(e.l1, e.y))
           /\ Chk("interpolation", NearRel(e.lt, Lerp(e.x, e.y, e.t), Eps))
           /\ Chk("interpolation stays between", RBetween(RMin(e.x, e.y) \ominus Eps, e.lt, RMax(e.x, e.y) \oplus Eps))
           /\ Chk("clamping reals", REq(e.cd, RClamp(e.lo, e.hi, e.x)))
           /\ Chk("clamping integers", e.ci = (IF e.n < e.ilo THEN e.ilo ELSE IF e.n > e.ihi THEN e.ihi ELSE e.n))
      [] e.op = "matrix" -> Chk("matrix product", Near3(e.p, MatVec(e.m, e.v)))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C29
AcceptC29(e) ==
    CASE e.op = "curve" ->
           LET lo == RMin(RMin(e.c[1], e.c[2]), RMin(e.c[3], e.c[4]))
               hi == RMax(RMax(e.c[1], e.c[2]), RMax(e.c[3], e.c[4]))
           IN /\ Chk("value at a contrast level", NearRel(e.v, CurveAt(e.c, e.level), Eps))
              /\ Chk("between the given values", RBetween(lo \ominus Eps, e.v, hi \oplus Eps))
              /\ Chk("a growing curve grows",
                     (e.c[1] \preceq e.c[2] /\ e.c[2] \preceq e.c[3] /\ e.c[3] \preceq e.c[4] /\ e.level \preceq e.level2)
                     => e.v \preceq (e.v2 \oplus Eps))
              /\ Chk("the four given values are met", REq(e.at[1], e.c[1]) /\ REq(e.at[2], e.c[2])
                                                       /\ REq(e.at[3], e.c[3]) /\ REq(e.at[4], e.c[4]))
              /\ Chk("continuous", NearRel(e.v, e.vnear, RLit("1e-4")))
      [] OTHER -> Chk("known operation", FALSE)
=============================================================================
