------------------------------- MODULE Palettes -------------------------------
(* Tonal palettes (constant hue and chroma, varying tone), key colours, core  *)
(* palettes and the legacy light / dark schemes built from them.              *)
EXTENDS Hct

CommonTones == <<0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100>>
CommonSet == {CommonTones[k] : k \in 1..13}
IndexOfTone(t) == CHOOSE k \in 1..13 : CommonTones[k] = t

\* A palette: hue, chroma, and for palettes made from a list the given colours
\* (<<>> otherwise).  Its colour at a tone is a function of these alone.
Pal(h, c) == [hue |-> h, chroma |-> c, given |-> <<>>]
IsWhole(x) == REq(RFloor(x), x)
ColourAt(p, tone) ==      \* tone is a real
    IF p.given # <<>> /\ IsWhole(tone) /\ RBetween(R0, tone, R100) /\ IRound(tone) \in CommonSet
    THEN p.given[IndexOfTone(IRound(tone))]
    ELSE Solve(p.hue, p.chroma, tone)
IsAt(c, p, tone) ==       \* c is the palette's colour at that tone
    IF p.given # <<>> /\ IsWhole(tone) /\ RBetween(R0, tone, R100) /\ IRound(tone) \in CommonSet
    THEN c = p.given[IndexOfTone(IRound(tone))]
    ELSE Solved(c, p.hue, p.chroma, tone)

\* The key colour: starting from tone 50 and moving outwards (lighter first),
\* the first tone whose chroma rounds to the requested one; failing that the
\* tone with the chroma closest to it.
RoundsTo(a, b) == REq(RRound(a), RRound(b))
RECURSIVE KeySearch(_, _, _, _)
KeySearch(hue, chroma, delta, best) ==
    IF delta = 50 \/ RoundsTo(chroma, best.chroma) THEN best
    ELSE LET d(o) == RAbs(o.chroma \ominus chroma)
             up   == HctOf(Solve(hue, chroma, RInt(50 + delta)))
             b1   == IF d(up) \prec d(best) THEN up ELSE best
             down == HctOf(Solve(hue, chroma, RInt(50 - delta)))
             b2   == IF d(down) \prec d(b1) THEN down ELSE b1
         IN KeySearch(hue, chroma, delta + 1, b2)
KeyColour(hue, chroma) == KeySearch(hue, chroma, 1, HctOf(Solve(hue, chroma, RLit("50"))))

\* Hue and chroma deduced from a list of colours: those of its most colourful
\* member that is not nearly white.
RECURSIVE Deduce(_, _, _)
Deduce(list, k, best) ==
    IF k > Len(list) THEN best
    ELSE LET o == HctOf(list[k]) IN
         Deduce(list, k + 1,
                IF o.tone \preceq RLit("98") /\ o.chroma \succ best.chroma
                THEN [hue |-> o.hue, chroma |-> o.chroma] ELSE best)
FromList(list) ==
    LET d == Deduce(list, 1, [hue |-> R0, chroma |-> R0])
    IN [hue |-> d.hue, chroma |-> d.chroma, given |-> list]

\* ---------------------------------------------------------- core palettes
ErrorPal == Pal(RLit("25"), RLit("84"))
CoreOf(c) ==
    LET k == Cam(c) IN
    [primary   |-> Pal(k.hue, RMax(RLit("48"), k.chroma)),
     secondary |-> Pal(k.hue, RLit("16")),
     tertiary  |-> Pal(k.hue \oplus RLit("60"), RLit("24")),
     neutral   |-> Pal(k.hue, RLit("4")),
     neutralv  |-> Pal(k.hue, RLit("8")),
     error     |-> ErrorPal]
CoreContentOf(c) ==
    LET k == Cam(c) IN
    [primary   |-> Pal(k.hue, k.chroma),
     secondary |-> Pal(k.hue, k.chroma \oslash RLit("3")),
     tertiary  |-> Pal(k.hue \oplus RLit("60"), k.chroma \oslash RLit("2")),
     neutral   |-> Pal(k.hue, RMin(k.chroma \oslash RLit("12"), RLit("4"))),
     neutralv  |-> Pal(k.hue, RMin(k.chroma \oslash RLit("6"), RLit("8"))),
     error     |-> ErrorPal]

\* ---------------------------------- legacy schemes: role -> palette and tone
\* <<role, palette, tone in light mode, tone in dark mode>>
LegacyRoles ==
  << <<"primary", "primary", 40, 80>>, <<"on_primary", "primary", 100, 20>>,
     <<"primary_container", "primary", 90, 30>>, <<"on_primary_container", "primary", 10, 90>>,
     <<"secondary", "secondary", 40, 80>>, <<"on_secondary", "secondary", 100, 20>>,
     <<"secondary_container", "secondary", 90, 30>>, <<"on_secondary_container", "secondary", 10, 90>>,
     <<"tertiary", "tertiary", 40, 80>>, <<"on_tertiary", "tertiary", 100, 20>>,
     <<"tertiary_container", "tertiary", 90, 30>>, <<"on_tertiary_container", "tertiary", 10, 90>>,
     <<"error", "error", 40, 80>>, <<"on_error", "error", 100, 20>>,
     <<"error_container", "error", 90, 30>>, <<"on_error_container", "error", 10, 80>>,
     <<"background", "neutral", 99, 10>>, <<"on_background", "neutral", 10, 90>>,
     <<"surface", "neutral", 99, 10>>, <<"on_surface", "neutral", 10, 90>>,
     <<"surface_variant", "neutralv", 90, 30>>, <<"on_surface_variant", "neutralv", 30, 80>>,
     <<"outline", "neutralv", 50, 60>>, <<"outline_variant", "neutralv", 80, 30>>,
     <<"shadow", "neutral", 0, 0>>, <<"scrim", "neutral", 0, 0>>,
     <<"inverse_surface", "neutral", 20, 90>>, <<"inverse_on_surface", "neutral", 95, 20>>,
     <<"inverse_primary", "primary", 80, 40>> >>
=============================================================================
