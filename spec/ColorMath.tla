------------------------------ MODULE ColorMath ------------------------------
(* ARGB integers, angles, and the sRGB / CIE XYZ / CIE L*a*b* colour spaces.  *)
(* An ARGB colour 0xAARRGGBB is a signed 32-bit integer; the opaque colours   *)
(* are -16777216 .. -1.                                                       *)
EXTENDS Real64, Sequences, TLC

\* ------------------------------------------------------------------ ARGB
Opaque      == -16777216 .. -1
IsOpaque(c) == c >= -16777216 /\ c < 0
Alpha(c) == (c \div 16777216) % 256
Red(c)   == (c \div 65536) % 256
Green(c) == (c \div 256) % 256
Blue(c)  == c % 256
Pack(r, g, b) == (r % 256) * 65536 + (g % 256) * 256 + (b % 256) - 16777216
RGB(n) == n - 16777216          \* 0..2^24-1 as an opaque colour
Black == Pack(0, 0, 0)
White == Pack(255, 255, 255)
IsGray(c) == Red(c) = Green(c) /\ Green(c) = Blue(c)
IAbs(n) == IF n < 0 THEN -n ELSE n
IMax(a, b) == IF a < b THEN b ELSE a
IMin(a, b) == IF a < b THEN a ELSE b
\* largest difference between two colours in any 8-bit channel
ChannelGap(c, d) == IMax(IAbs(Red(c) - Red(d)), IMax(IAbs(Green(c) - Green(d)), IAbs(Blue(c) - Blue(d))))

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Hex2(n) == HexDigits[(n \div 16) + 1] \o HexDigits[(n % 16) + 1]
HexText(c) == Hex2(Red(c)) \o Hex2(Green(c)) \o Hex2(Blue(c))

\* ---------------------------------------------------------------- angles
SanitizeInt(d) == d % 360
SanitizeDeg(d) ==
    LET m == RMod(d, R360) IN
    IF m \prec R0
    THEN LET t == m \oplus R360 IN IF t \succeq R360 THEN R0 ELSE t
    ELSE m
DiffDeg(a, b) == R180 \ominus RAbs(RAbs(a \ominus b) \ominus R180)
RotationDir(from, to) ==
    IF SanitizeDeg(to \ominus from) \preceq R180 THEN R1 ELSE RLit("-1")
Lerp(a, b, t) == ((R1 \ominus t) \otimes a) \oplus (t \otimes b)
ToRad(d) == (d \otimes Pi) \oslash R180

\* -------------------------------------------------------- sRGB components
Linearized(n) ==
    LET x == RInt(n) \oslash RLit("255") IN
    IF x \preceq RLit("0.040449936")
    THEN (x \oslash RLit("12.92")) \otimes R100
    ELSE RPow((x \oplus RLit("0.055")) \oslash RLit("1.055"), RLit("2.4")) \otimes R100
\* the companded value on the 0..255 scale, before rounding
TrueDelinearized(v) ==
    LET x == v \oslash R100 IN
    (IF x \preceq RLit("0.0031308")
     THEN x \otimes RLit("12.92")
     ELSE (RLit("1.055") \otimes RPow(x, R1 \oslash RLit("2.4"))) \ominus RLit("0.055"))
    \otimes RLit("255")
Delinearized(v) ==
    LET n == IRound(TrueDelinearized(v)) IN IF n < 0 THEN 0 ELSE IF n > 255 THEN 255 ELSE n
LinTable == TLCEval([n \in 0..255 |-> Linearized(n)])
LinRGB(c) == <<LinTable[Red(c)], LinTable[Green(c)], LinTable[Blue(c)]>>
\* c is the linear RGB colour v rounded to 8 bits per channel and clamped; where
\* rounding is a toss-up either way is right
NearestTo(n, v) == RAbs(RInt(n) \ominus RClamp(R0, RLit("255"), TrueDelinearized(v))) \preceq RLit("0.501")
Shown(c, v) == IsOpaque(c) /\ NearestTo(Red(c), v[1]) /\ NearestTo(Green(c), v[2]) /\ NearestTo(Blue(c), v[3])
\* each component is that of u or that of v
ShownBetween(c, u, v) ==
    LET of(n, k) == NearestTo(n, u[k]) \/ NearestTo(n, v[k])
    IN IsOpaque(c) /\ of(Red(c), 1) /\ of(Green(c), 2) /\ of(Blue(c), 3)
ArgbFromLin(v) == Pack(Delinearized(v[1]), Delinearized(v[2]), Delinearized(v[3]))

\* --------------------------------------------------------- CIE XYZ, L*a*b*
Dot(u, v) == ((u[1] \otimes v[1]) \oplus (u[2] \otimes v[2])) \oplus (u[3] \otimes v[3])
MatVec(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Lits(ss) == <<RLit(ss[1]), RLit(ss[2]), RLit(ss[3])>>
SrgbToXyz == << Lits(<<"0.41233895", "0.35762064", "0.18051042">>),
                Lits(<<"0.2126", "0.7152", "0.0722">>),
                Lits(<<"0.01932141", "0.11916382", "0.95034478">>) >>
XyzToSrgb == << Lits(<<"3.2413774792388685", "-1.5376652402851851", "-0.49885366846268053">>),
                Lits(<<"-0.9691452513005321", "1.8758853451067872", "0.04156585616912061">>),
                Lits(<<"0.05562093689691305", "-0.20395524564742123", "1.0571799111220335">>) >>
YFromLin  == SrgbToXyz[2]
WhiteD65  == Lits(<<"95.047", "100.0", "108.883">>)

XyzFromArgb(c) == MatVec(SrgbToXyz, LinRGB(c))
ArgbFromXyz(v) == ArgbFromLin(MatVec(XyzToSrgb, v))
ShownXyz(c, v) == Shown(c, MatVec(XyzToSrgb, v))

LabE     == RLit("216") \oslash RLit("24389")
LabKappa == RLit("24389") \oslash RLit("27")
LabF(t) == IF t \succ LabE THEN RPow(t, R1 \oslash RLit("3"))
           ELSE ((LabKappa \otimes t) \oplus RLit("16")) \oslash RLit("116")
LabInvF(f) ==
    LET f3 == (f \otimes f) \otimes f IN
    IF f3 \succ LabE THEN f3
    ELSE ((RLit("116") \otimes f) \ominus RLit("16")) \oslash LabKappa

YFromLstar(l) == R100 \otimes LabInvF((l \oplus RLit("16")) \oslash RLit("116"))
LstarFromY(y) == (LabF(y \oslash R100) \otimes RLit("116")) \ominus RLit("16")
LstarFromArgb(c) == LstarFromY(Dot(YFromLin, LinRGB(c)))
ArgbFromLstar(l) ==
    LET n == Delinearized(YFromLstar(l)) IN Pack(n, n, n)

LabFromArgb(c) ==
    LET xyz == XyzFromArgb(c)
        fx == LabF(xyz[1] \oslash WhiteD65[1])
        fy == LabF(xyz[2] \oslash WhiteD65[2])
        fz == LabF(xyz[3] \oslash WhiteD65[3])
    IN << (RLit("116") \otimes fy) \ominus RLit("16"),
          RLit("500") \otimes (fx \ominus fy),
          RLit("200") \otimes (fy \ominus fz) >>
XyzFromLab(lab) ==
    LET fy == (lab[1] \oplus RLit("16")) \oslash RLit("116")
        fx == (lab[2] \oslash RLit("500")) \oplus fy
        fz == fy \ominus (lab[3] \oslash RLit("200"))
    IN << LabInvF(fx) \otimes WhiteD65[1], LabInvF(fy) \otimes WhiteD65[2], LabInvF(fz) \otimes WhiteD65[3] >>
ArgbFromLab(lab) == ArgbFromXyz(XyzFromLab(lab))
=============================================================================
