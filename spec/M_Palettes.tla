------------------------------ MODULE M_Palettes ------------------------------
(* Palettes, key colours, core palettes and legacy schemes as specified have  *)
(* the properties C10, C12, C13 on grids; so do disliked colours (C26) and    *)
(* blending (C27).                                                            *)
EXTENDS DesignBase, Palettes, Dislike, Blend
Hs == <<"0", "27", "90", "111", "142", "180", "209.5", "260", "282.5", "317">>
Cs == <<"0", "2", "8", "16", "24", "36", "48", "84", "120", "200">>
H(n) == RLit(Hs[(n % 10) + 1])
C(n) == RLit(Cs[((n \div 10) % 10) + 1])
CasesC10 == 100
HoldsC10(n) ==
    LET p == Pal(H(n), C(n))
        k == KeyColour(p.hue, p.chroma)
        tones == {"0", "10", "33", "50", "61.5", "80", "95", "100"}
    IN /\ Chk("tones", \A t \in tones : Near(LstarFromArgb(ColourAt(p, RLit(t))), RLit(t), RLit("0.5")))
       /\ Chk("key chroma is the best of the common tones",
              \/ RoundsTo(k.chroma, p.chroma)
              \/ \A t \in 1..13 : LET o == HctOf(ColourAt(p, RInt(CommonTones[t])))
                                  IN CommonTones[t] \in {0, 100} \/
                                     RAbs(k.chroma \ominus p.chroma) \preceq RAbs(o.chroma \ominus p.chroma))
       /\ Chk("key hue", (k.chroma \succeq RLit("16")) => DiffDeg(k.hue, p.hue) \preceq RLit("4"))
       /\ Chk("greys", n % 100 < 10 => \A t \in tones : IsGray(ColourAt(p, RLit(t))))

CasesC12 == 100
HoldsC12(n) ==
    LET p == Pal(H(n), C(n))
        list == [k \in 1..13 |-> ColourAt(p, RInt(CommonTones[k]))]
        q == FromList(list)
    IN /\ Chk("list comes back", \A k \in 1..13 : ColourAt(q, RInt(CommonTones[k])) = list[k])
       /\ Chk("deduced hue", q.chroma \succeq RLit("16") => DiffDeg(q.hue, p.hue) \preceq RLit("4"))
       /\ Chk("deduced chroma", q.chroma \preceq (p.chroma \oplus RLit("9")))

Colour(n) == Pack((n * 37) % 256, (n * 101 + 11) % 256, (n * 197 + 60) % 256)
CasesC13 == 40
HoldsC13(n) ==
    LET c == Colour(n)
        core == IF n % 2 = 0 THEN CoreOf(c) ELSE CoreContentOf(c)
        light(k) == ColourAt(core[LegacyRoles[k][2]], RInt(LegacyRoles[k][3]))
        dark(k) == ColourAt(core[LegacyRoles[k][2]], RInt(LegacyRoles[k][4]))
        y(x) == Dot(YFromLin, LinRGB(x))
        contrast(a, b) == (RMax(y(a), y(b)) \oplus RLit("5")) \oslash (RMin(y(a), y(b)) \oplus RLit("5"))
    \* roles come in (colour, on-colour) pairs: text on them is legible
    IN \A k \in 1..29 : (SubSeq(LegacyRoles[k][1], 1, 3) = "on_" /\ LegacyRoles[k][1] # "on_background") =>
          /\ Chk("legible in light mode", contrast(light(k), light(k - 1)) \succeq RLit("4.5"))
          /\ Chk("legible in dark mode", contrast(dark(k), dark(k - 1)) \succeq RLit("4.5"))

Lev == <<0, 40, 90, 130, 170, 210, 255>>
Grid(n) == Pack(Lev[(n % 7) + 1], Lev[((n \div 7) % 7) + 1], Lev[((n \div 49) % 7) + 1])
CasesC26 == 343 * 3
HoldsC26(n) ==
    LET c == IF n <= 343 THEN Grid(n) ELSE Pack(40 + (n % 90), 60 + ((n * 7) % 100), (n * 13) % 60)
        o == HctOf(c)
        f == HctOf(FixDisliked(c))
    IN /\ Chk("fixed", ~Disliked(f))
       /\ Chk("kept", Disliked(o) => Near(f.tone, RLit("70"), RLit("0.5")) /\ DiffDeg(f.hue, o.hue) \preceq RLit("4")
                                      /\ Near(f.chroma, o.chroma, RLit("3")))
CasesC27 == 600
HoldsC27(n) ==
    LET c == Grid(n * 17)
        d == Grid(n * 31 + 5)
        a == HctOf(c)
        b == HctOf(d)
        o == HctOf(Harmonize(c, d))
    IN /\ Chk("tone", Near(o.tone, a.tone, RLit("0.5")))
       /\ Chk("turn", DiffDeg(HarmonyHue(a, b), a.hue) \preceq RLit("15.000001"))
       /\ Chk("closer", DiffDeg(HarmonyHue(a, b), b.hue) \preceq (DiffDeg(a.hue, b.hue) \oplus RLit("1e-9")))
       /\ Chk("self", Harmonize(c, c) = c)
       /\ Chk("ends", UcsBlend(c, d, R0) = c /\ UcsBlend(c, d, R1) = d)
       /\ Chk("hue ends", HueBlend(c, d, R0) = c)
=============================================================================
