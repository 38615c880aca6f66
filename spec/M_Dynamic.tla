------------------------------ MODULE M_Dynamic ------------------------------
(* Dynamic colours as specified have the properties C14, C15, C16, C18, C19   *)
(* on grids of tones, curves, levels, modes, variants and source colours.     *)
EXTENDS DesignBase, DynamicLaws, Schemes
Lv == <<"-1", "-0.5", "-0.2", "0", "0.3", "0.5", "0.8", "1">>
L(n) == RLit(Lv[(n % 8) + 1])
Curves == <<CText, CSub, CMain, CCont, Curve("1.5", "3", "4.5", "7"), Curve("3", "3", "4.5", "7"), Curve("1", "1", "1", "21")>>
In01(t) == RBetween(R0, t, R100)

\* ------------------------------------------------------------------- C14
\* background tones 0..100 in halves; then two backgrounds
CasesC14 == 201 + 441
HoldsC14(n) ==
    IF n <= 201
    THEN LET bg == RInt(n - 1) \oslash R2 IN
         /\ \A q \in 2..42 : LET ratio == RInt(q) \oslash R2
                                 t == ForegroundTone(bg, ratio)
                             IN Chk("foreground", In01(t) /\ Promised(bg, t, ratio))
         /\ \A c \in 1..7 : \A k \in 0..7 : \A w \in {"0", "30", "50", "55", "80", "100"} : \A b \in BOOLEAN :
              LET t == SoloTone(L(k), RLit(w), b, <<bg>>, Curves[c])
              IN Chk("range", In01(t)) /\ SoloLaw(L(k), RLit(w), b, <<bg>>, Curves[c], t)
    ELSE LET b1 == RInt(5 * (n % 21))
             b2 == RInt(5 * ((n \div 21) % 21))
         IN \A c \in 1..7 : \A k \in 0..7 : \A w \in {"10", "50", "90"} :
              LET t == SoloTone(L(k), RLit(w), FALSE, <<b1, b2>>, Curves[c])
              IN Chk("range", In01(t)) /\ SoloLaw(L(k), RLit(w), FALSE, <<b1, b2>>, Curves[c], t)

\* ------------------------------------------------------------------- C15
CasesC15 == 2 * 21 * 8
HoldsC15(n) ==
    LET dark == n % 2 = 0
        bg == RInt(5 * ((n \div 2) % 21))
        lv == L(n \div 42)
    IN \A a \in {"0", "20", "45", "50", "59", "60", "85", "100"} : \A b \in {"0", "30", "49", "55", "60", "70", "100"} :
       \A c \in {2, 3, 4, 7} : \A d \in {"0", "10", "30"} : \A tog \in BOOLEAN :
         LET r == PairTones(lv, dark, bg, RLit(a), Curves[c], RLit(b), Curves[5], RLit(d), tog)
         IN Chk("range", In01(r[1]) /\ In01(r[2])) /\ PairLaw("", dark, r[1], r[2], RLit(d))

\* ------------------------------------------------------------- whole schemes
Sources == << Pack(66, 133, 244), Pack(255, 0, 0), Pack(140, 122, 0), Pack(8, 8, 8), Pack(250, 250, 235), Pack(0, 255, 128) >>
SchemeFor(v, c, dark, level) ==
    LET o == HctOf(c)
        third == HctOf(FixDisliked(Solve(SanitizeDeg(o.hue \oplus R180), o.chroma, o.tone)))
        pals == PalettesOf(v, o, third)
    IN [variant |-> v, dark |-> dark, level |-> level, src |-> o, pal |-> pals,
        key |-> [nm \in DOMAIN pals |-> KeyColour(pals[nm].hue, pals[nm].chroma).tone]]
CasesC16 == 9 * 2 * 8 * 3
Sch(n) == SchemeFor(Variants[(n % 9) + 1], Sources[((((n \div 144) * 2) + (n % 2)) % 6) + 1], (n \div 9) % 2 = 0, L(n \div 18))
HoldsC16(n) ==
    LET s == Sch(n)
        ts == Tones(s)
    IN /\ \A nm \in DOMAIN ts : Chk("range", In01(ts[nm]))
       /\ ContrastLaw(s, LAMBDA nm : ts[nm])
       /\ RolePairLaw(s, LAMBDA nm : ts[nm])
       \* surfaces are ordered by elevation
       /\ LET c == <<"surface_container_lowest", "surface_container_low", "surface_container", "surface_container_high", "surface_container_highest">>
          IN \A k \in 1..4 : Chk("surface containers are ordered",
               IF s.dark THEN ts[c[k]] \preceq ts[c[k + 1]] ELSE ts[c[k]] \succeq ts[c[k + 1]])

\* ------------------------------------------------------------------- C18
CasesC18 == 9 * 120
HoldsC18(n) ==
    LET v == Variants[(n % 9) + 1]
        h == RInt(3 * ((n \div 9) % 120)) \oplus RLit("0.25")
        o == HctOf(Solve(h, RInt(8 + ((n * 7) % 60)), RInt(30 + ((n * 11) % 50))))
        p == PalettesOf(v, o, o)
    IN /\ \A nm \in DOMAIN p : Chk("hue is a hue", RBetween(R0, p[nm].hue, R360) /\ ~REq(p[nm].hue, R360))
       /\ \A nm \in DOMAIN p : Chk("chroma is not negative", p[nm].chroma \succeq R0)
       /\ Chk("neutral is the least colourful", \A nm \in DOMAIN p : nm = "error" \/ p["neutral"].chroma \preceq p[nm].chroma)
       /\ Chk("error palette is the same in all", p["error"] = ErrorPal)
       \* every hue that is no breakpoint lies in a stretch and is turned
       /\ Chk("turned", ~REq(Rotated(o.hue, VibrantHues, VibrantSecond), o.hue) /\ ~REq(Rotated(o.hue, ExpressiveHues, ExpressiveThird), o.hue))

\* ------------------------------------------------------------------- C19
CasesC19 == 2 * 8 * 3
HoldsC19(n) ==
    LET s == SchemeFor("Monochrome", Sources[(n % 3) + 1], (n \div 3) % 2 = 0, L(n \div 6))
        z == SchemeFor("Monochrome", Sources[4], (n \div 3) % 2 = 0, L(n \div 6))
    IN /\ \A k \in 6..NumRoles : Chk("tones do not depend on the source", ToneOf(s, Names[k]) = ToneOf(z, Names[k]))
       /\ \A nm \in {"primary", "secondary", "tertiary", "neutral", "neutralv"} : \A t \in {"0", "10", "49", "90", "100"} :
            Chk("grey", IsGray(ColourAt(s.pal[nm], RLit(t))))
=============================================================================
