------------------------------ MODULE T_Dynamic ------------------------------
(* Conformance of dynamic colours: contrast (C14), pairs (C15), the Material  *)
(* roles (C16), scheme variants (C18), monochrome schemes (C19).              *)
EXTENDS TraceBase, MaterialRoles, DynamicLaws, Schemes
Eps == RLit("1e-6")
Same(a, b) == Near(a, b, Eps)
\* interpolation between the named contrast levels may round either way
Levels(level) ==
    IF \E x \in {"-1", "-0.5", "0", "0.5", "1"} : REq(level, RLit(x)) THEN {level}
    ELSE {level, level \oplus RLit("1e-9"), level \ominus RLit("1e-9")}
PalNames == <<"primary", "secondary", "tertiary", "neutral", "neutralv", "error">>
PalSet == {PalNames[k] : k \in 1..6}
PalNo == TLCEval([nm \in PalSet |-> CHOOSE k \in 1..6 : PalNames[k] = nm])
\* the scheme of a recorded event, with the palettes it was observed to have
SchemeOf(e, level) ==
    [variant |-> e.variant, dark |-> e.dark, level |-> level, src |-> [tone |-> e.srctone],
     pal |-> [nm \in PalSet |-> Pal(e.hues[PalNo[nm]], e.chromas[PalNo[nm]])],
     key |-> [nm \in PalSet |-> e.keytones[PalNo[nm]]]]
Fits(e, k) == \E l \in Levels(e.level) : Same(e.tones[k], ToneOf(SchemeOf(e, l), Names[k]))
T(e, nm) == e.tones[NumberOf[nm]]
\* what is observed of a scheme is well formed
Whole(e) ==
    /\ Chk("every role has a tone and a colour", Len(e.tones) = NumRoles /\ Len(e.colours) = NumRoles
             /\ Len(e.direct) = NumRoles /\ Len(e.hcts) = NumRoles)
    /\ \A k \in 1..NumRoles : Chk("a tone is from 0 to 100: " \o Names[k], RBetween(R0, e.tones[k], R100))
\* the colour shown has the tone (only the solver's half unit of slack)
ShowsTone(e) == \A k \in 1..NumRoles :
    Chk("the colour shown has the role's tone: " \o Names[k],
        IsOpaque(e.colours[k]) /\ Near(LstarFromArgb(e.colours[k]), e.tones[k], RLit("0.5")))

\* ------------------------------------------------------------------- C14
AcceptC14(e) ==
    CASE e.op = "fg" ->
           /\ Chk("a foreground tone is from 0 to 100", RBetween(R0, e.t, R100))
           /\ Chk("the contrast asked for, or all there is", Promised(e.bg, e.t, e.ratio))
           /\ Chk("the foreground tone", Same(e.t, ForegroundTone(e.bg, e.ratio)))
           /\ Chk("light foreground enabled", REq(e.enable, EnableLight(e.bg)))
           /\ Chk("light foreground preferred", e.prefers = PrefersLight(e.bg))
           /\ Chk("light foreground allowed", e.allows = AllowsLight(e.bg))
      [] e.op = "solo" ->
           /\ Chk("a tone is from 0 to 100", RBetween(R0, e.t, R100))
           /\ SoloLaw(e.level, e.wish, e.isbg, e.bgs, e.curve, e.t)
           /\ Chk("the tone", \E l \in Levels(e.level) : Same(e.t, SoloTone(l, e.wish, e.isbg, e.bgs, e.curve)))
           /\ Chk("both ways of making it", Same(e.t2, e.t))
           /\ Chk("the colour has the tone", IsOpaque(e.argb) /\ Near(LstarFromArgb(e.argb), e.t, RLit("0.5")))
      [] e.op = "roles" ->
           /\ Whole(e)
           /\ ShowsTone(e)
           /\ ContrastLaw(SchemeOf(e, e.level), LAMBDA nm : T(e, nm))
           /\ \A k \in 1..NumRoles : (Rows[k][3] # "" /\ PairOf[Names[k]] = 0) =>
                 Chk("tone of " \o Names[k], Fits(e, k))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C15
AcceptC15(e) ==
    CASE e.op = "pair" ->
           LET aNear == AIsNearer(e.polarity, e.dark)
               n == IF aNear THEN e.a ELSE e.b
               f == IF aNear THEN e.b ELSE e.a
               want(l) == IF aNear
                          THEN PairTones(l, e.dark, e.bg, e.wishes[1], e.ca, e.wishes[2], e.cb, e.delta, e.together)
                          ELSE PairTones(l, e.dark, e.bg, e.wishes[2], e.cb, e.wishes[1], e.ca, e.delta, e.together)
           IN /\ Chk("tones are from 0 to 100", RBetween(R0, n, R100) /\ RBetween(R0, f, R100))
              /\ PairLaw("", e.dark, n, f, e.delta)
              /\ Chk("the tones of the pair", \E l \in Levels(e.level) : LET w == want(l) IN Same(n, w[1]) /\ Same(f, w[2]))
      [] e.op = "roles" ->
           /\ Whole(e)
           /\ RolePairLaw(SchemeOf(e, e.level), LAMBDA nm : T(e, nm))
           /\ \A k \in 1..NumRoles : PairOf[Names[k]] # 0 => Chk("tone of " \o Names[k], Fits(e, k))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C16
AcceptC16(e) ==
    CASE e.op = "roles" ->
           /\ Whole(e)
           /\ Chk("asking the scheme, the colour and the HCT colour give the same", e.colours = e.direct /\ e.hcts = e.direct)
           /\ \A k \in 1..NumRoles :
                /\ Chk("tone of " \o Names[k], Fits(e, k))
                /\ Chk("colour of " \o Names[k], IsAt(e.colours[k], SchemeOf(e, e.level).pal[Rows[k][2]], e.tones[k]))
      [] e.op = "kinds" ->
           /\ Chk("each role goes by its name", e.names = [k \in 1..NumRoles |-> Names[k]])
           /\ \A k \in 1..NumRoles : Chk("backgrounds say that they are: " \o Names[k], (e.isbg[k] = 1) <=> Rows[k][6])
           /\ Chk("the surface to contrast with", e.highest = <<e.dim, e.bright>>)
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C18
HueNear(a, b, chroma) == DiffDeg(SanitizeDeg(a), SanitizeDeg(b)) \otimes RMin(R1, chroma) \preceq Eps
NearBreak(h, hues) == \E k \in DOMAIN hues : Near(h, hues[k], RLit("1e-6"))
AcceptC18(e) ==
    CASE e.op = "variant" ->
           LET o == HctOf(e.argb)
               t == HctOf(e.fixed)
               want == PalettesOf(e.variant, o, t)
               tie == (e.variant = "Vibrant" /\ NearBreak(o.hue, VibrantHues))
                      \/ (e.variant = "Expressive" /\ NearBreak(o.hue, ExpressiveHues))
           IN /\ Chk("the scheme knows its variant", e.is = e.variant)
              /\ Chk("mode, level and source as given", e.isdark = e.dark /\ REq(e.islevel, e.level) /\ e.issrc = e.argb /\ e.ishct = e.argb)
              /\ Chk("the third colour is not a disliked one",
                     e.variant \in {"Content", "Fidelity"} =>
                       Borderline(HctOf(e.third)) \/ IsFixOf(e.fixed, e.third))
              /\ \A nm \in PalSet : LET k == PalNo[nm] IN
                   /\ Chk("hue of the " \o nm \o " palette",
                          (tie /\ nm \in {"secondary", "tertiary"}) \/
                          HueNear(e.hues[k], want[nm].hue, IF nm = "error" THEN R1 ELSE IF nm = "tertiary" /\ e.variant \in {"Content", "Fidelity"} THEN t.chroma ELSE o.chroma))
                   /\ Chk("chroma of the " \o nm \o " palette", NearRel(e.chromas[k], want[nm].chroma, Eps))
                   /\ Chk("key colour of the " \o nm \o " palette",
                          IF nm = "tertiary" /\ e.variant \in {"Content", "Fidelity"} THEN e.keys[k] = e.fixed
                          ELSE ChannelGap(e.keys[k], KeyColour(e.hues[k], e.chromas[k]).argb) <= 1)
      [] e.op = "rotated" ->
           LET o == HctOf(e.argb) IN
           /\ Chk("hue of the source", HueNear(e.hue, o.hue, o.chroma))
           /\ Chk("the rotated hue is a hue", RBetween(R0, e.turned, R360) /\ ~REq(e.turned, R360))
           /\ Chk("rotated by what belongs to its stretch of hues",
                  DiffDeg(e.turned, Rotated(e.hue, e.hues, e.rots)) \preceq RLit("1e-6"))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C19
ErrorRoles == 39..42
AcceptC19(e) ==
    CASE e.op = "roles" ->
           /\ Whole(e)
           /\ ShowsTone(e)
           /\ \A k \in (1..NumRoles) \ ErrorRoles : Chk("grey: " \o Names[k], IsGray(e.colours[k]))
           /\ \A k \in 1..5 : Chk("palettes without chroma", e.chromas[k] \prec RLit("0.0001"))
           \* the tones are those of any other monochrome scheme of this mode and level
           /\ \A k \in 6..NumRoles : Chk("tone does not depend on the source: " \o Names[k], Fits(e, k))
      [] OTHER -> Chk("known operation", FALSE)
=============================================================================
