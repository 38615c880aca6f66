-------------------------------- MODULE Cam16 --------------------------------
(* The CAM16 colour appearance model and its UCS, under arbitrary viewing     *)
(* conditions.                                                                *)
EXTENDS ColorMath

\* ----------------------------------------------------- viewing conditions
M16 == << Lits(<<"0.401288", "0.650173", "-0.051461">>),
          Lits(<<"-0.250268", "1.204414", "0.045854">>),
          Lits(<<"-0.002079", "0.048952", "0.953127">>) >>
M16Inv == << Lits(<<"1.86206786", "-1.01125463", "0.14918677">>),
             Lits(<<"0.38752654", "0.62144744", "-0.00897398">>),
             Lits(<<"-0.01584150", "-0.03412294", "1.04996444">>) >>

\* post-adaptation compression of a non-negative, already scaled response
Compress(x) == LET f == RPow(x, RLit("0.42"))
               IN (RLit("400") \otimes f) \oslash (f \oplus RLit("27.13"))

\* wp: XYZ white, al: adapting luminance, bg: background L*, sur: surround 0..2,
\* disc: discount the illuminant?
MakeVC(wp, al, bg, sur, disc) ==
    LET bgl == RMax(RLit("0.1"), bg)
        w   == MatVec(M16, wp)
        f   == RLit("0.8") \oplus (sur \oslash RLit("10"))
        c   == IF f \succeq RLit("0.9")
               THEN Lerp(RLit("0.59"), RLit("0.69"), (f \ominus RLit("0.9")) \otimes RLit("10"))
               ELSE Lerp(RLit("0.525"), RLit("0.59"), (f \ominus RLit("0.8")) \otimes RLit("10"))
        d0  == IF disc THEN R1
               ELSE f \otimes (R1 \ominus ((R1 \oslash RLit("3.6")) \otimes
                        RExp((RNeg(al) \ominus RLit("42")) \oslash RLit("92"))))
        d   == RClamp(R0, R1, d0)
        dk(q) == ((d \otimes (R100 \oslash w[q])) \oplus R1) \ominus d
        rgbd == <<dk(1), dk(2), dk(3)>>
        k   == R1 \oslash ((RLit("5") \otimes al) \oplus R1)
        k4  == ((k \otimes k) \otimes k) \otimes k
        k4f == R1 \ominus k4
        fl  == (k4 \otimes al) \oplus
               (((RLit("0.1") \otimes k4f) \otimes k4f) \otimes RPow(RLit("5") \otimes al, R1 \oslash RLit("3")))
        n   == YFromLstar(bgl) \oslash wp[2]
        z   == RLit("1.48") \oplus RSqrt(n)
        nbb == RLit("0.725") \oslash RPow(n, RLit("0.2"))
        aq(q) == Compress(((fl \otimes rgbd[q]) \otimes w[q]) \oslash R100)
        a   == <<aq(1), aq(2), aq(3)>>
        aw  == ((((RLit("40") \otimes a[1]) \oplus (RLit("20") \otimes a[2])) \oplus a[3]) \oslash RLit("20")) \otimes nbb
    IN [n |-> n, aw |-> aw, nbb |-> nbb, ncb |-> nbb, c |-> c, nc |-> f, rgbd |-> rgbd,
        fl |-> fl, flroot |-> RPow(fl, RLit("0.25")), z |-> z]

DefaultAL == ((RLit("200") \oslash Pi) \otimes YFromLstar(RLit("50"))) \oslash R100
DefaultVC == MakeVC(WhiteD65, DefaultAL, RLit("50"), R2, FALSE)

\* ------------------------------------------------------------ XYZ -> CAM16
Adapt(x, fl) == RSign(x) \otimes Compress((fl \otimes RAbs(x)) \oslash R100)
HueOfAB(a, b) ==
    LET deg == (RAtan2(b, a) \otimes R180) \oslash Pi
    IN SanitizeDeg(deg)
AlphaCoeff(vc) == RPow(RLit("1.64") \ominus RPow(RLit("0.29"), vc.n), RLit("0.73"))
UcsJ(j) == (RLit("1.7") \otimes j) \oslash (R1 \oplus (RLit("0.007") \otimes j))
UcsM(m) == RLn(R1 \oplus (RLit("0.0228") \otimes m)) \oslash RLit("0.0228")

\* All correlates from lightness, chroma and hue.
FromJCH(j, c, h, vc) ==
    LET sj == RSqrt(j \oslash R100)
        m  == c \otimes vc.flroot
        alpha == c \oslash sj
        ms == UcsM(m)
        hr == ToRad(h)
    IN [hue |-> h, chroma |-> c, j |-> j,
        q |-> (((RLit("4") \oslash vc.c) \otimes sj) \otimes (vc.aw \oplus RLit("4"))) \otimes vc.flroot,
        m |-> m,
        s |-> RLit("50") \otimes RSqrt((alpha \otimes vc.c) \oslash (vc.aw \oplus RLit("4"))),
        jstar |-> UcsJ(j), astar |-> ms \otimes RCos(hr), bstar |-> ms \otimes RSin(hr)]

\* Opponent responses of an XYZ stimulus.
Opponent(xyz, vc) ==
    LET cone == MatVec(M16, xyz)
        ra == Adapt(vc.rgbd[1] \otimes cone[1], vc.fl)
        ga == Adapt(vc.rgbd[2] \otimes cone[2], vc.fl)
        ba == Adapt(vc.rgbd[3] \otimes cone[3], vc.fl)
    IN [a  |-> (((RLit("11") \otimes ra) \oplus (RLit("-12") \otimes ga)) \oplus ba) \oslash RLit("11"),
        b  |-> ((ra \oplus ga) \ominus (R2 \otimes ba)) \oslash RLit("9"),
        u  |-> (((RLit("20") \otimes ra) \oplus (RLit("20") \otimes ga)) \oplus (RLit("21") \otimes ba)) \oslash RLit("20"),
        p2 |-> (((RLit("40") \otimes ra) \oplus (RLit("20") \otimes ga)) \oplus ba) \oslash RLit("20")]

EHue(hr) == RLit("0.25") \otimes (RCos(hr \oplus R2) \oplus RLit("3.8"))
P1(hr, vc) == ((EHue(hr) \otimes (RLit("50000") \oslash RLit("13"))) \otimes vc.nc) \otimes vc.ncb

FromXyz(xyz, vc) ==
    LET o   == Opponent(xyz, vc)
        hue == HueOfAB(o.a, o.b)
        ac  == o.p2 \otimes vc.nbb
        j   == R100 \otimes RPow(ac \oslash vc.aw, vc.c \otimes vc.z)
        hp  == IF hue \prec RLit("20.14") THEN hue \oplus R360 ELSE hue
        t   == (P1(ToRad(hp), vc) \otimes RSqrt((o.a \otimes o.a) \oplus (o.b \otimes o.b)))
               \oslash (o.u \oplus RLit("0.305"))
        alpha == RPow(t, RLit("0.9")) \otimes AlphaCoeff(vc)
        c   == alpha \otimes RSqrt(j \oslash R100)
        base == FromJCH(j, c, hue, vc)
    IN [base EXCEPT !.s = RLit("50") \otimes RSqrt((alpha \otimes vc.c) \oslash (vc.aw \oplus RLit("4")))]

Cam(c) == FromXyz(XyzFromArgb(c), DefaultVC)
CamIn(c, vc) == FromXyz(XyzFromArgb(c), vc)

\* ------------------------------------------------------------ CAM16 -> XYZ
Expand(x) == \* inverse of Adapt up to the factor 100/fl
    LET ax == RAbs(x)
        base == RMax(R0, (RLit("27.13") \otimes ax) \oslash (RLit("400") \ominus ax))
    IN RSign(x) \otimes RPow(base, R1 \oslash RLit("0.42"))
\* adapted cone responses from hue (radians), t, achromatic response p2
ConesOf(hr, t, p2, p1) ==
    LET hs == RSin(hr)
        hc == RCos(hr)
        gamma == ((RLit("23") \otimes (p2 \oplus RLit("0.305"))) \otimes t) \oslash
                 (((RLit("23") \otimes p1) \oplus ((RLit("11") \otimes t) \otimes hc)) \oplus ((RLit("108") \otimes t) \otimes hs))
        a == gamma \otimes hc
        b == gamma \otimes hs
        p == RLit("460") \otimes p2
    IN << ((p \oplus (RLit("451") \otimes a)) \oplus (RLit("288") \otimes b)) \oslash RLit("1403"),
          ((p \ominus (RLit("891") \otimes a)) \ominus (RLit("261") \otimes b)) \oslash RLit("1403"),
          ((p \ominus (RLit("220") \otimes a)) \ominus (RLit("6300") \otimes b)) \oslash RLit("1403") >>

XyzOf(j, c, h, vc) ==
    LET alpha == IF REq(c, R0) \/ REq(j, R0) THEN R0 ELSE c \oslash RSqrt(j \oslash R100)
        t  == RPow(alpha \oslash AlphaCoeff(vc), R1 \oslash RLit("0.9"))
        hr == ToRad(h)
        ac == vc.aw \otimes RPow(j \oslash R100, (R1 \oslash vc.c) \oslash vc.z)
        cones == ConesOf(hr, t, ac \oslash vc.nbb, P1(hr, vc))
        f(k) == ((R100 \oslash vc.fl) \otimes Expand(cones[k])) \oslash vc.rgbd[k]
    IN MatVec(M16Inv, <<f(1), f(2), f(3)>>)
ViewedIn(j, c, h, vc) == ArgbFromXyz(XyzOf(j, c, h, vc))
ShownIn(argb, j, c, h, vc) == ShownXyz(argb, XyzOf(j, c, h, vc))

\* ------------------------------------------------------------- CAM16-UCS
FromUcs(js, as, bs, vc) ==
    LET ms == RSqrt((as \otimes as) \oplus (bs \otimes bs))
        m  == (RExp(ms \otimes RLit("0.0228")) \ominus R1) \oslash RLit("0.0228")
        h0 == RAtan2(bs, as) \otimes (R180 \oslash Pi)
        h  == SanitizeDeg(h0)
        j  == js \oslash (R1 \ominus ((js \ominus R100) \otimes RLit("0.007")))
    IN FromJCH(j, m \oslash vc.flroot, h, vc)

UcsDistance(x, y) ==
    LET dj == x.jstar \ominus y.jstar
        da == x.astar \ominus y.astar
        db == x.bstar \ominus y.bstar
        e  == RSqrt(((dj \otimes dj) \oplus (da \otimes da)) \oplus (db \otimes db))
    IN RLit("1.41") \otimes RPow(e, RLit("0.63"))
=============================================================================
