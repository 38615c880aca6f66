------------------------------ MODULE T_Palettes ------------------------------
(* Conformance of tonal palettes and key colours (C10), lists and equality    *)
(* (C12), core palettes and legacy schemes (C13), disliked colours (C26) and  *)
(* blending (C27).                                                            *)
EXTENDS TraceBase, Palettes, Blend, Dislike
Eps == RLit("1e-6")
HueNear(a, b, chroma) == DiffDeg(SanitizeDeg(a), SanitizeDeg(b)) \otimes RMin(R1, chroma) \preceq Eps

\* ------------------------------------------------------------------- C10
\* a colour a palette may show at a tone
Shows(p, tone, c) ==
    LET o == HctOf(c) IN
    /\ Chk("opaque", IsOpaque(c))
    /\ Chk("the tone asked for", Near(o.tone, RClamp(R0, R100, tone), RLit("0.5")))
    /\ Chk("the palette's hue",
           (o.chroma \succeq RLit("16") /\ RBetween(RLit("10"), tone, RLit("95")) /\ ~IsGrayRequest(p.chroma, tone))
           => DiffDeg(o.hue, SanitizeDeg(p.hue)) \preceq RLit("4"))
    /\ Chk("no more chroma than the palette's",
           RBetween(RLit("6"), tone, RLit("98")) => o.chroma \preceq (p.chroma \oplus RLit("3")))
    /\ Chk("grey if the palette has no chroma", p.chroma \prec RLit("0.0001") => IsGray(c))
    /\ Chk("the colour at that tone", Solved(c, p.hue, p.chroma, tone))
AcceptC10(e) ==
    CASE e.op = "tones" ->
           LET p == Pal(e.h, e.c) IN
           /\ Chk("hue and chroma as given", REq(e.hue, e.h) /\ REq(e.chroma, e.c))
           /\ \A k \in DOMAIN e.whole : Shows(p, RInt(e.whole[k]), e.colours[k])
           /\ \A k \in DOMAIN e.reals : Shows(p, e.reals[k], e.hcts[k])
      [] e.op = "key" ->
           LET k == KeyColour(e.h, e.c) IN
           /\ Chk("the key colour", ChannelGap(e.argb, k.argb) <= 1)
           /\ Chk("key colour's chroma is the requested one or the closest the hue has",
                  Near(e.kc, k.chroma, R1))
           /\ Chk("key colour's coordinates", LET o == HctOf(e.argb) IN
                  HueNear(e.kh, o.hue, o.chroma) /\ NearRel(e.kc, o.chroma, Eps) /\ Near(e.kt, o.tone, Eps))
      [] e.op = "hctpal" ->
           LET o == HctOf(e.argb) IN
           /\ Chk("hue and chroma of the colour", HueNear(e.hue, o.hue, o.chroma) /\ NearRel(e.chroma, o.chroma, Eps))
           /\ Chk("the colour is the key colour", e.key = e.argb)
           /\ Chk("at the colour's own tone, the colour", ChannelGap(e.own, e.argb) <= 1)
           /\ Shows(Pal(e.hue, e.chroma), RInt(e.tone), e.colour)
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C12
AcceptC12(e) ==
    CASE e.op = "list" ->
           LET p == FromList(e.list) IN
           /\ Chk("the list comes back", e.back = e.list)
           /\ Chk("given colours at the common tones", e.got = e.list)
           /\ Chk("HCT of the given colours", e.hct = e.list)
           /\ Chk("deduced hue and chroma", HueNear(e.hue, p.hue, p.chroma) /\ NearRel(e.chroma, p.chroma, Eps))
           /\ Chk("other tones are generated", Solved(e.other, e.hue, e.chroma, RInt(e.tone)))
           /\ Chk("equal to, and hashing as, itself from its list", e.eqself /\ e.hashself)
           /\ Chk("equal exactly if the lists are", e.eqother = (e.list = e.list2))
           /\ Chk("equal palettes hash the same", e.eqother => e.hashother)
           /\ Chk("text names the list", e.text = e.list)
           /\ Chk("key colour", ChannelGap(e.key, KeyColour(e.hue, e.chroma).argb) <= 1)
      [] e.op = "eq" ->
           /\ Chk("equal exactly if hue and chroma are", e.eq = (REq(e.h, e.h2) /\ REq(e.c, e.c2)))
           /\ Chk("equality is symmetric", e.eq = e.eqr)
           /\ Chk("equal palettes hash the same", e.eq => e.hash)
           /\ Chk("a palette equals the list made from it, both ways", e.eqlist /\ e.eqlistr)
           /\ Chk("and equals that list only if every colour agrees", e.eqodd = (e.lista = e.listb))
           /\ Chk("equal palettes hash the same, however made", e.hashlist /\ (e.eqodd => e.hashodd))
           /\ Chk("text names hue and chroma", Len(e.text) = 2 /\ NearRel(e.text[1], e.h, Eps) /\ NearRel(e.text[2], e.c, Eps))
           /\ Chk("palettes of HCT colours are equal exactly if hue and chroma are",
                  e.hcteq = (REq(e.hct[1], e.hct[3]) /\ REq(e.hct[2], e.hct[4])) /\ e.hcteqr = e.hcteq /\ (e.hcteq => e.hcthash))
           /\ Chk("the palette of an HCT colour equals the one of its hue and chroma", e.hcteqof)
           /\ Chk("text of an HCT colour's palette names hue and chroma",
                  Len(e.hcttext) = 2 /\ NearRel(e.hcttext[1], e.hct[1], Eps) /\ NearRel(e.hcttext[2], e.hct[2], Eps))
      [] e.op = "corelist" ->
           /\ Chk("65 colours: primary, secondary, tertiary, neutral, neutral variant",
                  Len(e.list) = 65 /\ e.list = e.parts)
           /\ Chk("from the list and back", e.back = e.list)
           /\ Chk("a core palette equals the one made from its list", e.eq)
           /\ Chk("read back in the same places", e.parts2 = e.list)
           /\ Chk("the text names the six palettes", e.texts = e.tonal)
      [] e.op = "corefrom" ->
           /\ Chk("any list comes back", e.back = e.list /\ e.parts = e.list)
           /\ Chk("equal exactly if the lists are", e.eq /\ e.eqother = (e.list = e.list2))
           /\ Chk("the text names the six palettes", e.texts = e.tonal)
           /\ Chk("the error palette is the usual one", REq(e.error[1], RLit("25")) /\ REq(e.error[2], RLit("84")))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C13
PalIs(e, name, p) ==
    /\ Chk("hue of the " \o name \o " palette", HueNear(e[name][1], p.hue, RMax(p.chroma, R1)))
    /\ Chk("chroma of the " \o name \o " palette", NearRel(e[name][2], p.chroma, Eps))
CorePals == {"primary", "secondary", "tertiary", "neutral", "neutralv", "error"}
AcceptC13(e) ==
    CASE e.op = "core" ->
           LET core == IF e.content THEN CoreContentOf(e.argb) ELSE CoreOf(e.argb)
           IN \A name \in CorePals : PalIs(e, name, core[name])
      [] e.op = "legacy" ->
           LET core == IF e.content THEN CoreContentOf(e.argb) ELSE CoreOf(e.argb)
           IN \A k \in 1..29 :
                LET r == LegacyRoles[k]
                    t == IF e.dark THEN r[4] ELSE r[3]
                IN Chk("legacy role " \o r[1], IsAt(e.roles[k], core[r[2]], RInt(t)))
      [] e.op = "fromcore" ->      \* every tone a legacy scheme uses is a common one
           \A k \in 1..29 :
                LET r == LegacyRoles[k]
                    t == IF e.dark THEN r[4] ELSE r[3]
                    at == CHOOSE q \in 1..6 : <<"primary", "secondary", "tertiary", "neutral", "neutralv", "error">>[q] = r[2]
                IN Chk("role of a given core palette: " \o r[1],
                       IF at = 6 THEN Solved(e.roles[k], RLit("25"), RLit("84"), RInt(t))
                       ELSE e.roles[k] = e.list[13 * (at - 1) + IndexOfTone(t)])
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C26
AcceptC26(e) ==
    CASE e.op = "dislike" ->
           LET o == HctOf(e.argb)
               f == HctOf(e.fixed)
           IN /\ Chk("disliked: dark yellow-green, not neutral", e.bad = Disliked(o) \/ Borderline(o))
              /\ Chk("a colour that is not disliked is left alone", ~e.bad => e.fixed = e.argb)
              /\ Chk("a fixed colour is not disliked", ~e.still)
              /\ Chk("a disliked colour is lightened to tone 70", e.bad => Near(f.tone, RLit("70"), RLit("0.5")))
              /\ Chk("keeping its hue", e.bad => DiffDeg(f.hue, o.hue) \preceq RLit("4"))
              /\ Chk("keeping its chroma", e.bad => Near(f.chroma, o.chroma, RLit("3")))
              /\ Chk("the colour at tone 70", e.bad => Solved(e.fixed, o.hue, o.chroma, RLit("70")))
              /\ Chk("fixing twice changes nothing more", e.again = e.fixed)
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C27
AcceptC27(e) ==
    CASE e.op = "blend" ->
           LET a == HctOf(e.a)
               b == HctOf(e.b)
               o == HctOf(e.harm)
               colourful == o.chroma \succeq RLit("16") /\ RBetween(RLit("10"), a.tone, RLit("95"))
           IN /\ Chk("harmonising keeps the tone", Near(o.tone, a.tone, RLit("0.5")))
              /\ Chk("harmonising adds no chroma", RBetween(RLit("6"), a.tone, RLit("98")) => o.chroma \preceq (a.chroma \oplus RLit("3")))
              /\ Chk("harmonising turns the hue by at most 15 degrees",
                     colourful => DiffDeg(o.hue, a.hue) \preceq RLit("19"))
              /\ Chk("towards the other hue, by half the distance up to 15 degrees",
                     \/ Opposite(a, b) \/ RMin(a.chroma, b.chroma) \prec RLit("1e-3")
                     \/ Solved(e.harm, HarmonyHue(a, b), a.chroma, a.tone))
              /\ Chk("harmonising with itself changes nothing", e.selfharm = e.a)
              /\ Chk("no blend is the first colour", e.ucs0 = e.a)
              /\ Chk("full blend is the second colour", e.ucs1 = e.b)
              /\ Chk("blend in CAM16-UCS", LET m == UcsMix(e.a, e.b, e.t) IN ShownIn(e.ucs, m.j, m.chroma, m.hue, DefaultVC))
              /\ Chk("hue blend keeps the tone", Near(LstarFromArgb(e.hue), a.tone, RLit("0.5")))
              /\ Chk("no hue blend is the first colour", e.hue0 = e.a)
              /\ Chk("hue blend: hue of the blend, chroma and tone of the first",
                     LET u == Cam(e.ucs) IN
                     u.chroma \prec RLit("1e-3") \/ Solved(e.hue, u.hue, a.chroma, a.tone))
              /\ Chk("full hue blend: hue of the second",
                     b.chroma \prec RLit("1e-3") \/ Solved(e.hue1, b.hue, a.chroma, a.tone))
      [] OTHER -> Chk("known operation", FALSE)
=============================================================================
