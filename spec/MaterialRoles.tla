---------------------------- MODULE MaterialRoles ----------------------------
(* The Material colour roles: for each role its palette, wished tone,         *)
(* backgrounds, contrast curve and tone-delta pair; and the tone and colour   *)
(* that result in a scheme.                                                   *)
(* A scheme s: [variant, dark, level, src (coordinates of the source colour), *)
(* pal (palette name -> palette), key (palette name -> tone of its key        *)
(* colour)].                                                                  *)
EXTENDS DynamicTone, Palettes, Dislike

Mono(s) == s.variant = "Monochrome"
Fid(s) == s.variant \in {"Fidelity", "Content"}

NoCurve == <<>>
CText == Curve("4.5", "7", "11", "21")
CSub  == Curve("3", "4.5", "7", "11")
CMain == Curve("3", "4.5", "7", "7")
CCont == Curve("1", "1", "3", "4.5")

\* <<role, palette, background, second background, curve, is a background>>
\* background "highest": the lightest (dark mode) or darkest (light mode) surface
Rows ==
 << <<"primary_palette_key_color", "primary", "", "", NoCurve, FALSE>>,
    <<"secondary_palette_key_color", "secondary", "", "", NoCurve, FALSE>>,
    <<"tertiary_palette_key_color", "tertiary", "", "", NoCurve, FALSE>>,
    <<"neutral_palette_key_color", "neutral", "", "", NoCurve, FALSE>>,
    <<"neutral_variant_palette_key_color", "neutralv", "", "", NoCurve, FALSE>>,
    <<"background", "neutral", "", "", NoCurve, TRUE>>,
    <<"on_background", "neutral", "background", "", Curve("3", "3", "4.5", "7"), FALSE>>,
    <<"surface", "neutral", "", "", NoCurve, TRUE>>,
    <<"surface_dim", "neutral", "", "", NoCurve, TRUE>>,
    <<"surface_bright", "neutral", "", "", NoCurve, TRUE>>,
    <<"surface_container_lowest", "neutral", "", "", NoCurve, TRUE>>,
    <<"surface_container_low", "neutral", "", "", NoCurve, TRUE>>,
    <<"surface_container", "neutral", "", "", NoCurve, TRUE>>,
    <<"surface_container_high", "neutral", "", "", NoCurve, TRUE>>,
    <<"surface_container_highest", "neutral", "", "", NoCurve, TRUE>>,
    <<"on_surface", "neutral", "highest", "", CText, FALSE>>,
    <<"surface_variant", "neutralv", "", "", NoCurve, TRUE>>,
    <<"on_surface_variant", "neutralv", "highest", "", CSub, FALSE>>,
    <<"inverse_surface", "neutral", "", "", NoCurve, FALSE>>,
    <<"inverse_on_surface", "neutral", "inverse_surface", "", CText, FALSE>>,
    <<"outline", "neutralv", "highest", "", Curve("1.5", "3", "4.5", "7"), FALSE>>,
    <<"outline_variant", "neutralv", "highest", "", CCont, FALSE>>,
    <<"shadow", "neutral", "", "", NoCurve, FALSE>>,
    <<"scrim", "neutral", "", "", NoCurve, FALSE>>,
    <<"surface_tint", "primary", "", "", NoCurve, TRUE>>,
    <<"primary", "primary", "highest", "", CMain, TRUE>>,
    <<"on_primary", "primary", "primary", "", CText, FALSE>>,
    <<"primary_container", "primary", "highest", "", CCont, TRUE>>,
    <<"on_primary_container", "primary", "primary_container", "", CText, FALSE>>,
    <<"inverse_primary", "primary", "inverse_surface", "", CMain, FALSE>>,
    <<"secondary", "secondary", "highest", "", CMain, TRUE>>,
    <<"on_secondary", "secondary", "secondary", "", CText, FALSE>>,
    <<"secondary_container", "secondary", "highest", "", CCont, TRUE>>,
    <<"on_secondary_container", "secondary", "secondary_container", "", CText, FALSE>>,
    <<"tertiary", "tertiary", "highest", "", CMain, TRUE>>,
    <<"on_tertiary", "tertiary", "tertiary", "", CText, FALSE>>,
    <<"tertiary_container", "tertiary", "highest", "", CCont, TRUE>>,
    <<"on_tertiary_container", "tertiary", "tertiary_container", "", CText, FALSE>>,
    <<"error", "error", "highest", "", CMain, TRUE>>,
    <<"on_error", "error", "error", "", CText, FALSE>>,
    <<"error_container", "error", "highest", "", CCont, TRUE>>,
    <<"on_error_container", "error", "error_container", "", CText, FALSE>>,
    <<"primary_fixed", "primary", "highest", "", CCont, TRUE>>,
    <<"primary_fixed_dim", "primary", "highest", "", CCont, TRUE>>,
    <<"on_primary_fixed", "primary", "primary_fixed_dim", "primary_fixed", CText, FALSE>>,
    <<"on_primary_fixed_variant", "primary", "primary_fixed_dim", "primary_fixed", CSub, FALSE>>,
    <<"secondary_fixed", "secondary", "highest", "", CCont, TRUE>>,
    <<"secondary_fixed_dim", "secondary", "highest", "", CCont, TRUE>>,
    <<"on_secondary_fixed", "secondary", "secondary_fixed_dim", "secondary_fixed", CText, FALSE>>,
    <<"on_secondary_fixed_variant", "secondary", "secondary_fixed_dim", "secondary_fixed", CSub, FALSE>>,
    <<"tertiary_fixed", "tertiary", "highest", "", CCont, TRUE>>,
    <<"tertiary_fixed_dim", "tertiary", "highest", "", CCont, TRUE>>,
    <<"on_tertiary_fixed", "tertiary", "tertiary_fixed_dim", "tertiary_fixed", CText, FALSE>>,
    <<"on_tertiary_fixed_variant", "tertiary", "tertiary_fixed_dim", "tertiary_fixed", CSub, FALSE>> >>
NumRoles == 54
Names == [k \in 1..NumRoles |-> Rows[k][1]]
RowOf == TLCEval([nm \in {Names[k] : k \in 1..NumRoles} |-> Rows[CHOOSE k \in 1..NumRoles : Names[k] = nm]])
NumberOf == TLCEval([nm \in DOMAIN RowOf |-> CHOOSE k \in 1..NumRoles : Names[k] = nm])

\* pairs <<nearer-or-named role a, role b, polarity, stay together>>, all 10 apart
Pairs ==
 << <<"primary_container", "primary", "nearer", FALSE>>, <<"secondary_container", "secondary", "nearer", FALSE>>,
    <<"tertiary_container", "tertiary", "nearer", FALSE>>, <<"error_container", "error", "nearer", FALSE>>,
    <<"primary_fixed", "primary_fixed_dim", "lighter", TRUE>>, <<"secondary_fixed", "secondary_fixed_dim", "lighter", TRUE>>,
    <<"tertiary_fixed", "tertiary_fixed_dim", "lighter", TRUE>> >>
Delta == RLit("10")
PairOf == TLCEval([nm \in DOMAIN RowOf |->
    IF \E k \in 1..7 : nm \in {Pairs[k][1], Pairs[k][2]}
    THEN CHOOSE k \in 1..7 : nm \in {Pairs[k][1], Pairs[k][2]} ELSE 0])
BackgroundOf(s, nm) == IF nm = "highest" THEN IF s.dark THEN "surface_bright" ELSE "surface_dim" ELSE nm

\* walk from a tone towards the middle until the palette's chroma is reached
\* (or no longer grows)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(hue, chroma, tone, step, best, peak) ==
    IF ~(best \prec chroma) THEN tone ELSE
    LET t == tone \oplus step
        c == HctOf(Solve(hue, chroma, t)).chroma
    IN IF peak \succ c \/ RAbs(c \ominus chroma) \prec RLit("0.4") THEN t
       ELSE Walk(hue, chroma, t, step,
                 IF RAbs(c \ominus chroma) \prec RAbs(best \ominus chroma) THEN c ELSE best, RMax(peak, c))
DesiredChromaTone(hue, chroma, tone, down) ==
    LET c == HctOf(Solve(hue, chroma, tone)).chroma
    IN Walk(hue, chroma, tone, IF down THEN RLit("-1") ELSE R1, c, c)

D(s, darkTone, lightTone) == RInt(IF s.dark THEN darkTone ELSE lightTone)
DC(s, darkCurve, lightCurve) == CurveAt(IF s.dark THEN darkCurve ELSE lightCurve, s.level)
Flat(a) == Curve(a, a, a, a)

RECURSIVE Wish(_, _), ToneOf(_, _)
Wish(s, nm) ==
    CASE nm = "primary_palette_key_color" -> s.key["primary"]
      [] nm = "secondary_palette_key_color" -> s.key["secondary"]
      [] nm = "tertiary_palette_key_color" -> s.key["tertiary"]
      [] nm = "neutral_palette_key_color" -> s.key["neutral"]
      [] nm = "neutral_variant_palette_key_color" -> s.key["neutralv"]
      [] nm \in {"background", "surface"} -> D(s, 6, 98)
      [] nm = "surface_dim" -> DC(s, Flat("6"), Curve("87", "87", "80", "75"))
      [] nm = "surface_bright" -> DC(s, Curve("24", "24", "29", "34"), Flat("98"))
      [] nm = "surface_container_lowest" -> DC(s, Curve("4", "4", "2", "0"), Flat("100"))
      [] nm = "surface_container_low" -> DC(s, Curve("10", "10", "11", "12"), Curve("96", "96", "96", "95"))
      [] nm = "surface_container" -> DC(s, Curve("12", "12", "16", "20"), Curve("94", "94", "92", "90"))
      [] nm = "surface_container_high" -> DC(s, Curve("17", "17", "21", "25"), Curve("92", "92", "88", "85"))
      [] nm = "surface_container_highest" -> DC(s, Curve("22", "22", "26", "30"), Curve("90", "90", "84", "80"))
      [] nm \in {"on_background", "on_surface"} -> D(s, 90, 10)
      [] nm = "surface_variant" -> D(s, 30, 90)
      [] nm = "on_surface_variant" -> D(s, 80, 30)
      [] nm = "inverse_surface" -> D(s, 90, 20)
      [] nm = "inverse_on_surface" -> D(s, 20, 95)
      [] nm = "outline" -> D(s, 60, 50)
      [] nm = "outline_variant" -> D(s, 30, 80)
      [] nm \in {"shadow", "scrim"} -> R0
      [] nm = "surface_tint" -> D(s, 80, 40)
      [] nm = "primary" -> IF Mono(s) THEN D(s, 100, 0) ELSE D(s, 80, 40)
      [] nm = "on_primary" -> IF Mono(s) THEN D(s, 10, 90) ELSE D(s, 20, 100)
      [] nm = "primary_container" -> IF Fid(s) THEN s.src.tone ELSE IF Mono(s) THEN D(s, 85, 25) ELSE D(s, 30, 90)
      [] nm = "on_primary_container" ->
            IF Fid(s) THEN ForegroundTone(ToneOf(s, "primary_container"), RLit("4.5"))
            ELSE IF Mono(s) THEN D(s, 0, 100) ELSE D(s, 90, 10)
      [] nm = "inverse_primary" -> D(s, 40, 80)
      [] nm \in {"secondary", "error"} -> D(s, 80, 40)
      [] nm = "on_secondary" -> IF Mono(s) THEN D(s, 10, 100) ELSE D(s, 20, 100)
      [] nm = "secondary_container" ->
            IF Mono(s) THEN D(s, 30, 85)
            ELSE IF Fid(s) THEN DesiredChromaTone(s.pal["secondary"].hue, s.pal["secondary"].chroma, D(s, 30, 90), ~s.dark)
            ELSE D(s, 30, 90)
      [] nm = "on_secondary_container" ->
            IF Fid(s) THEN ForegroundTone(ToneOf(s, "secondary_container"), RLit("4.5")) ELSE D(s, 90, 10)
      [] nm = "tertiary" -> IF Mono(s) THEN D(s, 90, 25) ELSE D(s, 80, 40)
      [] nm = "on_tertiary" -> IF Mono(s) THEN D(s, 10, 90) ELSE D(s, 20, 100)
      [] nm = "tertiary_container" ->
            IF Mono(s) THEN D(s, 60, 49)
            ELSE IF Fid(s) THEN HctOf(FixDisliked(ColourAt(s.pal["tertiary"], s.src.tone))).tone
            ELSE D(s, 30, 90)
      [] nm = "on_tertiary_container" ->
            IF Mono(s) THEN D(s, 0, 100)
            ELSE IF Fid(s) THEN ForegroundTone(ToneOf(s, "tertiary_container"), RLit("4.5")) ELSE D(s, 90, 10)
      [] nm = "on_error" -> D(s, 20, 100)
      [] nm = "error_container" -> D(s, 30, 90)
      [] nm = "on_error_container" -> D(s, 90, 10)
      [] nm \in {"primary_fixed", "tertiary_fixed"} -> RInt(IF Mono(s) THEN 40 ELSE 90)
      [] nm \in {"primary_fixed_dim", "tertiary_fixed_dim"} -> RInt(IF Mono(s) THEN 30 ELSE 80)
      [] nm \in {"on_primary_fixed", "on_tertiary_fixed"} -> RInt(IF Mono(s) THEN 100 ELSE 10)
      [] nm \in {"on_primary_fixed_variant", "on_tertiary_fixed_variant"} -> RInt(IF Mono(s) THEN 90 ELSE 30)
      [] nm = "secondary_fixed" -> RInt(IF Mono(s) THEN 80 ELSE 90)
      [] nm = "secondary_fixed_dim" -> RInt(IF Mono(s) THEN 70 ELSE 80)
      [] nm = "on_secondary_fixed" -> RInt(10)
      [] nm = "on_secondary_fixed_variant" -> RInt(IF Mono(s) THEN 25 ELSE 30)

ToneOf(s, nm) ==
    LET row == RowOf[nm]
        p == PairOf[nm]
    IN IF p # 0
       THEN LET a == Pairs[p][1]
                b == Pairs[p][2]
                aNear == AIsNearer(Pairs[p][3], s.dark)
                n == IF aNear THEN a ELSE b
                f == IF aNear THEN b ELSE a
                r == PairTones(s.level, s.dark, ToneOf(s, BackgroundOf(s, row[3])),
                               Wish(s, n), RowOf[n][5], Wish(s, f), RowOf[f][5], Delta, Pairs[p][4])
            IN IF nm = n THEN r[1] ELSE r[2]
       ELSE SoloTone(s.level, Wish(s, nm), row[6],
                     IF row[3] = "" THEN <<>>
                     ELSE IF row[4] = "" THEN <<ToneOf(s, BackgroundOf(s, row[3]))>>
                     ELSE <<ToneOf(s, row[3]), ToneOf(s, row[4])>>, row[5])
\* all tones of a scheme, as a function
Tones(s) == [nm \in DOMAIN RowOf |-> ToneOf(s, nm)]
=============================================================================
