--------------------------------- MODULE Hct ---------------------------------
(* Hue, chroma, tone: coordinates of a colour, and the solver that finds the  *)
(* displayable colour for requested coordinates.                              *)
EXTENDS Cam16, SequencesExt

\* Coordinates of a colour.
HctOf(c) == LET k == Cam(c) IN [argb |-> c, hue |-> k.hue, chroma |-> k.chroma, tone |-> LstarFromArgb(c)]

\* -------------------------------------------------- the solver's geometry
ScaledDiscountFromLin ==
    << Lits(<<"0.001200833568784504", "0.002389694492170889", "0.0002795742885861124">>),
       Lits(<<"0.0005891086651375999", "0.0029785502573438758", "0.0003270666104008398">>),
       Lits(<<"0.00010146692491640572", "0.0005364214359186694", "0.0032979401770712076">>) >>
LinFromScaledDiscount ==
    << Lits(<<"1373.2198709594231", "-1100.4251190754821", "-7.278681089101213">>),
       Lits(<<"-271.815969077903", "559.6580465940733", "-32.46047482791194">>),
       Lits(<<"1.9622899599665666", "-57.173814538844006", "308.7233197812385">>) >>
\* linear value at the boundary between two neighbouring 8-bit components
CriticalPlane == TLCEval([n \in 0..254 |->
    LET x == (RInt(n) \oplus RLit("0.5")) \oslash RLit("255") IN
    IF x \preceq RLit("0.040449936") THEN (x \oslash RLit("12.92")) \otimes R100
    ELSE RPow((x \oplus RLit("0.055")) \oslash RLit("1.055"), RLit("2.4")) \otimes R100])

\* CAM16 hue, in radians, of a linear RGB colour
AdaptScaled(x) == RSign(x) \otimes Compress(RAbs(x))
HueRad(lin) ==
    LET s == MatVec(ScaledDiscountFromLin, lin)
        ra == AdaptScaled(s[1])
        ga == AdaptScaled(s[2])
        ba == AdaptScaled(s[3])
    IN RAtan2(((ra \oplus ga) \ominus (R2 \otimes ba)) \oslash RLit("9"),
              (((RLit("11") \otimes ra) \oplus (RLit("-12") \otimes ga)) \oplus ba) \oslash RLit("11"))
SanRad(x) == RMod(x \oplus (Pi \otimes RLit("8")), Pi \otimes R2)
\* b lies on the arc from a up to, not including, c.  Angles are compared, not
\* rounded differences of angles: so an arc is always cut into two that share
\* no hue and miss none, however close the hue is to a corner.
InCyclicOrder(x, y, z) ==
    LET a == SanRad(x)
        b == SanRad(y)
        c == SanRad(z)
    IN IF a \preceq c THEN a \preceq b /\ b \prec c ELSE a \preceq b \/ b \prec c

\* the (at most six) corners of the polygon { Y = y } of the RGB cube
Vertex(y, n) ==
    LET kr == YFromLin[1]
        kg == YFromLin[2]
        kb == YFromLin[3]
        ca == IF n % 4 <= 1 THEN R0 ELSE R100
        cb == IF n % 2 = 0 THEN R0 ELSE R100
        ok(x) == RBetween(R0, x, R100)
    IN IF n < 4 THEN LET r == ((y \ominus (ca \otimes kg)) \ominus (cb \otimes kb)) \oslash kr
                     IN IF ok(r) THEN <<r, ca, cb>> ELSE <<>>
       ELSE IF n < 8 THEN LET g == ((y \ominus (cb \otimes kr)) \ominus (ca \otimes kb)) \oslash kg
                          IN IF ok(g) THEN <<cb, g, ca>> ELSE <<>>
       ELSE LET b == ((y \ominus (ca \otimes kr)) \ominus (cb \otimes kg)) \oslash kb
            IN IF ok(b) THEN <<ca, cb, b>> ELSE <<>>

RECURSIVE Segment(_, _, _, _)
Segment(y, hue, n, s) ==        \* s: [l, r, lh, rh, init, uncut]
    IF n = 12 THEN s ELSE
    LET mid == Vertex(y, n) IN
    IF mid = <<>> THEN Segment(y, hue, n + 1, s)
    ELSE LET mh == HueRad(mid) IN
      IF ~s.init THEN Segment(y, hue, n + 1, [l |-> mid, r |-> mid, lh |-> mh, rh |-> mh, init |-> TRUE, uncut |-> TRUE])
      ELSE IF (s.uncut /\ ~REq(SanRad(mh), SanRad(s.lh))) \/ InCyclicOrder(s.lh, mh, s.rh)
           THEN IF InCyclicOrder(s.lh, hue, mh)
                THEN Segment(y, hue, n + 1, [s EXCEPT !.r = mid, !.rh = mh, !.uncut = FALSE])
                ELSE Segment(y, hue, n + 1, [s EXCEPT !.l = mid, !.lh = mh, !.uncut = FALSE])
           ELSE Segment(y, hue, n + 1, s)

RECURSIVE BisectAxis(_, _, _, _, _)
BisectAxis(axis, hue, i, s, p) ==  \* s: [l, r, lh]   p: <<lplane, rplane>>
    IF i = 8 \/ IAbs(p[2] - p[1]) <= 1 THEN s
    ELSE LET m == (p[1] + p[2]) \div 2
             t == (CriticalPlane[m] \ominus s.l[axis]) \oslash (s.r[axis] \ominus s.l[axis])
             mk(k) == s.l[k] \oplus ((s.r[k] \ominus s.l[k]) \otimes t)
             mid == <<mk(1), mk(2), mk(3)>>
             mh == HueRad(mid)
         IN IF InCyclicOrder(s.lh, hue, mh)
            THEN BisectAxis(axis, hue, i + 1, [s EXCEPT !.r = mid], <<p[1], m>>)
            ELSE BisectAxis(axis, hue, i + 1, [l |-> mid, r |-> s.r, lh |-> mh], <<m, p[2]>>)
Below(x) == IFloor(x \ominus RLit("0.5"))
Above(x) == ICeil(x \ominus RLit("0.5"))
RECURSIVE BisectAxes(_, _, _)
BisectAxes(axis, hue, s) ==
    IF axis = 4 THEN s
    ELSE IF REq(s.l[axis], s.r[axis]) THEN BisectAxes(axis + 1, hue, s)
    ELSE LET dl == TrueDelinearized(s.l[axis])
             dr == TrueDelinearized(s.r[axis])
             p  == IF s.l[axis] \prec s.r[axis] THEN <<Below(dl), Above(dr)>> ELSE <<Above(dl), Below(dr)>>
         IN BisectAxes(axis + 1, hue, BisectAxis(axis, hue, 0, s, p))

\* the most colourful displayable colour with luminance y and the given hue
BisectToLimit(y, hue) ==
    LET s0 == Segment(y, hue, 0, [l |-> <<>>, r |-> <<>>, lh |-> R0, rh |-> R0, init |-> FALSE, uncut |-> TRUE])
        s1 == BisectAxes(1, hue, [l |-> s0.l, r |-> s0.r, lh |-> HueRad(s0.l)])
        m(k) == (s1.l[k] \oplus s1.r[k]) \oslash R2
    IN <<m(1), m(2), m(3)>>

\* Newton search for a displayable colour with exactly these coordinates;
\* the result is a linear RGB triple, or <<>> when out of gamut.
RECURSIVE FindByJ(_, _, _, _, _, _, _, _)
FindByJ(hr, chroma, y, p1, slack, how, j, i) ==   \* slack: how far out of gamut still counts as in
    \* how: [rounds, tol], when to stop
    LET jn == j \oslash R100
        alpha == IF REq(chroma, R0) \/ REq(j, R0) THEN R0 ELSE chroma \oslash RSqrt(jn)
        t == RPow(alpha \otimes (R1 \oslash AlphaCoeff(DefaultVC)), R1 \oslash RLit("0.9"))
        ac == DefaultVC.aw \otimes RPow(jn, (R1 \oslash DefaultVC.c) \oslash DefaultVC.z)
        cones == ConesOf(hr, t, ac \oslash DefaultVC.nbb, p1)
        lin == MatVec(LinFromScaledDiscount, <<Expand(cones[1]), Expand(cones[2]), Expand(cones[3])>>)
        fnj == Dot(YFromLin, lin)
    IN IF \E k \in 1..3 : (lin[k] \oplus slack) \prec R0 THEN <<>>
       ELSE IF fnj \preceq R0 THEN <<>>
       ELSE IF i = how.rounds - 1 \/ RAbs(fnj \ominus y) \prec how.tol
            THEN IF \E k \in 1..3 : lin[k] \succ (RLit("100.01") \oplus slack) THEN <<>> ELSE lin
            ELSE FindByJ(hr, chroma, y, p1, slack, how, j \ominus (((fnj \ominus y) \otimes j) \oslash (R2 \otimes fnj)), i + 1)

NewtonStop == [rounds |-> 5, tol |-> RLit("0.002")]      \* the reference: luminance to 0.002
NewtonLimit == [rounds |-> 12, tol |-> RLit("1e-7")]  \* the limit of the same search

IsGrayRequest(chroma, tone) ==
    chroma \prec RLit("0.0001") \/ tone \prec RLit("0.0001") \/ tone \succ RLit("99.9999")
\* linear RGB of the solution, and whether the request was in gamut
SolveLin(hue, chroma, tone) ==
    LET hr == (SanitizeDeg(hue) \oslash R180) \otimes Pi
        y  == YFromLstar(tone)
        f  == FindByJ(hr, chroma, y, P1(hr, DefaultVC), R0, NewtonStop, RSqrt(y) \otimes RLit("11"), 0)
    IN IF f # <<>> THEN [lin |-> f, inGamut |-> TRUE]
       ELSE [lin |-> BisectToLimit(y, hr), inGamut |-> FALSE]
Solve(hue, chroma, tone) ==
    IF IsGrayRequest(chroma, tone) THEN ArgbFromLstar(tone)
    ELSE ArgbFromLin(SolveLin(hue, chroma, tone).lin)
\* c is the solution to 8 bits.  On the very surface of the gamut it does not
\* matter whether the request counts as inside (Newton) or outside (bisection),
\* and searching on to the limit is as good as stopping at 0.002.  At a corner
\* of the gamut the edges on both sides of it are as good as each other.
AtCorner == RLit("1e-10")   \* radians
Solved(c, hue, chroma, tone) ==
    IF IsGrayRequest(chroma, tone) THEN LET y == YFromLstar(tone) IN Shown(c, <<y, y, y>>)
    ELSE \/ Shown(c, SolveLin(hue, chroma, tone).lin)
         \/ LET hr == (SanitizeDeg(hue) \oslash R180) \otimes Pi
                y  == YFromLstar(tone)
            IN /\ ~SolveLin(hue, chroma, tone).inGamut
               /\ \/ Shown(c, BisectToLimit(y, hr \oplus AtCorner))
                  \/ Shown(c, BisectToLimit(y, hr \ominus AtCorner))
         \/ /\ ChannelGap(c, Solve(hue, chroma, tone)) <= 1
            /\ LET hr == (SanitizeDeg(hue) \oslash R180) \otimes Pi
                   y  == YFromLstar(tone)
                   f(how) == FindByJ(hr, chroma, y, P1(hr, DefaultVC), RLit("1e-6"), how, RSqrt(y) \otimes RLit("11"), 0)
                   rough == f(NewtonStop)
                   fine  == f(NewtonLimit)
               IN \/ Shown(c, BisectToLimit(y, hr))
                  \/ rough # <<>> /\ Shown(c, rough)
                  \/ fine # <<>> /\ Shown(c, fine)
                  \/ rough # <<>> /\ fine # <<>> /\ ShownBetween(c, rough, fine)
=============================================================================
