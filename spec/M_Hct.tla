--------------------------------- MODULE M_Hct ---------------------------------
(* The specified colour model has the properties C04, C05, C06 by itself, on  *)
(* grids of colours, viewing conditions and requests.                         *)
EXTENDS DesignBase, Hct

\* ------------------------------------------------- C04: a grid of 9^3 colours
Lev == <<0, 1, 10, 32, 64, 128, 200, 254, 255>>
GridColour(n) == Pack(Lev[(n % 9) + 1], Lev[((n \div 9) % 9) + 1], Lev[((n \div 81) % 9) + 1])
CasesC04 == 729
HoldsC04(n) ==
    LET c == GridColour(n)
        k == Cam(c)
        u == FromUcs(k.jstar, k.astar, k.bstar, DefaultVC)
        d == GridColour(n + 1)
    IN /\ Chk("CAM16 round trip", ViewedIn(k.j, k.chroma, k.hue, DefaultVC) = c)
       /\ Chk("UCS round trip", ViewedIn(u.j, u.chroma, u.hue, DefaultVC) = c)
       /\ Chk("hue range", R0 \preceq k.hue /\ k.hue \prec R360)
       /\ Chk("J range", RBetween(R0, k.j, RLit("100.000001")))
       /\ Chk("tone range", RBetween(RLit("-1e-9"), LstarFromArgb(c), RLit("100.000001")))
       /\ Chk("distance", REq(UcsDistance(k, k), R0) /\ (c # d => UcsDistance(k, Cam(d)) \succ R0))
       /\ Chk("greys have little chroma", IsGray(c) => k.chroma \preceq RLit("3"))

\* ------------------------------- C05: viewing conditions x corner colours
ALs == <<"0.5", "11.725676537", "100", "400">>
BGs == <<"0", "10", "50", "100">>
SURs == <<"0", "1", "2">>
VcCase(n) == MakeVC(WhiteD65, RLit(ALs[(n % 4) + 1]), RLit(BGs[((n \div 4) % 4) + 1]),
                    RLit(SURs[((n \div 16) % 3) + 1]), (n \div 48) % 2 = 0)
CasesC05 == 96 * 12
HoldsC05(n) ==
    LET v == VcCase(n)
        c == GridColour(61 * (n \div 96) + 5)
        k == CamIn(c, v)
    IN /\ Chk("same conditions in and out", ViewedIn(k.j, k.chroma, k.hue, v) = c)
       /\ Chk("finite", RFinite(v.aw) /\ RFinite(v.fl) /\ v.fl \succ R0 /\ v.aw \succ R0)
       /\ Chk("white has lightness 100", Near(CamIn(White, v).j, R100, RLit("0.001")))
       /\ Chk("black has lightness 0", Near(CamIn(Black, v).j, R0, RLit("1e-9")))

\* --------------------------------------------------- C06: requests on a grid
Hs == <<"0", "27", "57.5", "90", "111", "142", "180", "209.5", "240", "282", "317", "359.9">>
Cs == <<"0", "2", "8", "16", "24", "48", "80", "120", "200">>
Ts == <<"0", "1", "6", "10", "25", "40", "50", "60", "75", "90", "95", "98", "99", "100">>
CasesC06 == 12 * 9 * 14
HoldsC06(n) ==
    LET h == RLit(Hs[(n % 12) + 1])
        c == RLit(Cs[((n \div 12) % 9) + 1])
        t == RLit(Ts[((n \div 108) % 14) + 1])
        argb == Solve(h, c, t)
        o == HctOf(argb)
        own == GridColour(n)
        k == HctOf(own)
    IN /\ Chk("opaque", IsOpaque(argb))
       /\ Chk("tone", Near(o.tone, t, RLit("0.5")))
       /\ Chk("hue", (RBetween(RLit("10"), t, RLit("95")) /\ o.chroma \succeq RLit("16") /\ ~IsGrayRequest(c, t))
                     => DiffDeg(o.hue, h) \preceq RLit("4"))
       /\ Chk("chroma", RBetween(RLit("6"), t, RLit("98")) => o.chroma \preceq (c \oplus RLit("3")))
       /\ Chk("grey", IsGrayRequest(c, t) => IsGray(argb))
       /\ Chk("in gamut means delivered", (~IsGrayRequest(c, t) /\ RBetween(RLit("10"), t, RLit("95"))
                                            /\ SolveLin(h, c, t).inGamut) => Near(o.chroma, c, RLit("3")))
       /\ Chk("a colour's own coordinates give it back", Solve(k.hue, k.chroma, k.tone) = own)
=============================================================================
