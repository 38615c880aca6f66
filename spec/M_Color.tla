-------------------------------- MODULE M_Color --------------------------------
(* The specified conversions, contrast and curves have the properties C01,    *)
(* C02, C03, C08, C09, C28, C29 by themselves, on grids of inputs.            *)
EXTENDS DesignBase, Contrast
Eps == RLit("1e-9")

Lev == <<0, 1, 10, 11, 32, 64, 100, 128, 200, 254, 255>>
Grid(n) == Pack(Lev[(n % 11) + 1], Lev[((n \div 11) % 11) + 1], Lev[((n \div 121) % 11) + 1])

CasesC01 == 1331
HoldsC01(n) ==
    LET c == Grid(n) IN
    /\ Chk("packing", Pack(Red(c), Green(c), Blue(c)) = c /\ Alpha(c) = 255 /\ IsOpaque(c))
    /\ Chk("numbering", RGB(c % 16777216) = c)
    /\ Chk("hex has six digits", Len(HexText(c)) = 6)

\* lightness in steps of 0.1, then the 256 components
CasesC02 == 1001 + 256
HoldsC02(n) ==
    IF n <= 1001
    THEN LET l == RInt(n - 1) \oslash RLit("10")
             m == l \oplus RLit("0.1")
         IN /\ Chk("inverse", Near(LstarFromY(YFromLstar(l)), l, Eps))
            /\ Chk("monotone", YFromLstar(l) \prec YFromLstar(m))
            /\ Chk("grey", Near(LstarFromArgb(ArgbFromLstar(l)), l, RLit("0.3")))
            /\ Chk("monotone greys", Green(ArgbFromLstar(l)) <= Green(ArgbFromLstar(m)))
    ELSE LET k == n - 1002 IN
         /\ Chk("component", Delinearized(LinTable[k]) = k)
         /\ Chk("component monotone", k > 0 => LinTable[k - 1] \prec LinTable[k])

CasesC03 == 1331
HoldsC03(n) ==
    LET c == Grid(n) IN
    /\ Chk("XYZ", ArgbFromXyz(XyzFromArgb(c)) = c)
    /\ Chk("Lab", ArgbFromLab(LabFromArgb(c)) = c)
    /\ Chk("lightness", Near(LabFromArgb(c)[1], LstarFromArgb(c), Eps))

CasesC08 == 51 * 51
HoldsC08(n) ==
    LET a == RInt(2 * (n % 51))
        b == RInt(2 * ((n \div 51) % 51))
        r == RatioOfTones(a, b)
    IN /\ Chk("range", RBetween(R1, r, RLit("21.000001")))
       /\ Chk("symmetry", REq(r, RatioOfTones(b, a)))
       /\ Chk("self", REq(RatioOfTones(a, a), R1))
       /\ Chk("monotone", (a \preceq b => r \preceq RatioOfTones(a, b \oplus R1))
                          /\ (b \preceq a => r \preceq RatioOfTones(a, b \ominus R1)))

CasesC09 == 101 * 41
HoldsC09(n) ==
    LET t == RInt(n % 101)
        r == R1 \oplus (RInt((n \div 101) % 41) \oslash R2)
        l == Lighter(t, r)
        d == Darker(t, r)
    IN /\ Chk("lighter", REq(l, None) \/ (Achievable(l) /\ l \succeq t /\ RatioOfTones(l, t) \succeq r))
       /\ Chk("darker", REq(d, None) \/ (Achievable(d) /\ d \preceq t /\ RatioOfTones(d, t) \succeq r))
       \* -1 only if even the extreme tone, short of the margin, misses the ratio
       /\ Chk("lighter exists", RatioOfTones(R100 \ominus Margin, t) \succ (r \oplus Eps) /\ t \prec (R100 \ominus Margin) => ~REq(l, None))
       /\ Chk("darker exists", RatioOfTones(Margin, t) \succ (r \oplus Eps) /\ t \succ Margin => ~REq(d, None))

CasesC28 == 145 * 145
HoldsC28(n) ==
    LET a == RInt(5 * (n % 145) - 360)
        b == RInt(5 * ((n \div 145) % 145) - 360)
        s == SanitizeDeg(a)
        t == SanitizeDeg(b)
        w == SanitizeDeg(s \oplus (RotationDir(s, t) \otimes DiffDeg(s, t)))
    IN /\ Chk("clean", R0 \preceq s /\ s \prec R360 /\ REq(SanitizeDeg(s), s))
       /\ Chk("whole", REq(s, RInt(SanitizeInt(5 * (n % 145) - 360))))
       /\ Chk("distance", RBetween(R0, DiffDeg(s, t), R180) /\ REq(DiffDeg(s, t), DiffDeg(t, s)))
       /\ Chk("turn", REq(w, t))

Curves == << <<"1", "1", "3", "4.5">>, <<"3", "4.5", "7", "7">>, <<"4.5", "7", "11", "21">>, <<"3", "4.5", "7", "11">>,
             <<"87", "87", "80", "75">>, <<"4", "4", "2", "0">> >>
CasesC29 == 6 * 301
HoldsC29(n) ==
    LET q == Curves[(n % 6) + 1]
        c == Curve(q[1], q[2], q[3], q[4])
        x == (RInt((n \div 6) % 301) \ominus RLit("150")) \oslash RLit("100")
        v == CurveAt(c, x)
    IN /\ Chk("continuous", Near(v, CurveAt(c, x \oplus RLit("1e-7")), RLit("1e-4")))
       /\ Chk("between", RBetween(RMin(c[1], c[4]), v, RMax(c[1], c[4])))
       /\ Chk("met", REq(CurveAt(c, RLit("-1")), c[1]) /\ REq(CurveAt(c, R0), c[2])
                     /\ REq(CurveAt(c, RLit("0.5")), c[3]) /\ REq(CurveAt(c, R1), c[4]))
=============================================================================
