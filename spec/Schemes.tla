------------------------------- MODULE Schemes -------------------------------
(* The palettes of the scheme variants, from the source colour.               *)
EXTENDS Palettes, Dislike
Variants == <<"Monochrome", "Neutral", "TonalSpot", "Vibrant", "Expressive", "Content", "Fidelity", "Rainbow", "FruitSalad">>

\* rotation that belongs to the stretch of hues (strictly) containing the hue;
\* on a breakpoint there is none
Rotated(hue, hues, rots) ==
    IF Len(rots) = 1 THEN SanitizeDeg(hue \oplus rots[1])
    ELSE IF \E k \in 1..(Len(hues) - 1) : hues[k] \prec hue /\ hue \prec hues[k + 1]
         THEN LET k == CHOOSE k \in 1..(Len(hues) - 1) :
                          /\ hues[k] \prec hue /\ hue \prec hues[k + 1]
                          /\ \A j \in 1..(k - 1) : ~(hues[j] \prec hue /\ hue \prec hues[j + 1])
              IN SanitizeDeg(hue \oplus rots[k])
         ELSE hue
Ints(v) == [k \in DOMAIN v |-> RInt(v[k])]
VibrantHues == Ints(<<0, 41, 61, 101, 131, 181, 251, 301, 360>>)
VibrantSecond == Ints(<<18, 15, 10, 12, 15, 18, 15, 12, 12>>)
VibrantThird == Ints(<<35, 30, 20, 25, 30, 35, 30, 25, 25>>)
ExpressiveHues == Ints(<<0, 21, 51, 121, 151, 191, 271, 321, 360>>)
ExpressiveSecond == Ints(<<45, 95, 45, 20, 45, 90, 45, 45, 45>>)
ExpressiveThird == Ints(<<120, 120, 20, 45, 20, 15, 20, 120, 120>>)

\* o: coordinates of the source colour; t: for Content and Fidelity the colour
\* (coordinates) the tertiary palette is taken from
PalettesOf(variant, o, t) ==
    LET h == o.hue
        c == o.chroma
        turn(d) == SanitizeDeg(h \oplus RInt(d))
        five(p, s, ter, n, nv) == [primary |-> p, secondary |-> s, tertiary |-> ter, neutral |-> n, neutralv |-> nv, error |-> ErrorPal]
        P(hue, chroma) == Pal(hue, RLit(chroma))
        faithful == five(Pal(h, c), Pal(h, RMax(c \ominus RLit("32"), c \otimes RLit("0.5"))), Pal(t.hue, t.chroma),
                         Pal(h, c \oslash RLit("8")), Pal(h, (c \oslash RLit("8")) \oplus RLit("4")))
    IN CASE variant = "Monochrome" -> five(P(h, "0"), P(h, "0"), P(h, "0"), P(h, "0"), P(h, "0"))
         [] variant = "Neutral" -> five(P(h, "12"), P(h, "8"), P(h, "16"), P(h, "2"), P(h, "2"))
         [] variant = "TonalSpot" -> five(P(h, "36"), P(h, "16"), P(turn(60), "24"), P(h, "6"), P(h, "8"))
         [] variant = "Vibrant" -> five(P(h, "200"), P(Rotated(h, VibrantHues, VibrantSecond), "24"),
                                        P(Rotated(h, VibrantHues, VibrantThird), "32"), P(h, "10"), P(h, "12"))
         [] variant = "Expressive" -> five(P(turn(240), "40"), P(Rotated(h, ExpressiveHues, ExpressiveSecond), "24"),
                                        P(Rotated(h, ExpressiveHues, ExpressiveThird), "32"), P(turn(15), "8"), P(turn(15), "12"))
         [] variant \in {"Content", "Fidelity"} -> faithful
         [] variant = "Rainbow" -> five(P(h, "48"), P(h, "16"), P(turn(60), "24"), P(h, "0"), P(h, "0"))
         [] variant = "FruitSalad" -> five(P(turn(-50), "48"), P(turn(-50), "36"), P(h, "36"), P(h, "10"), P(h, "16"))
=============================================================================
