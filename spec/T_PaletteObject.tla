--------------------------- MODULE T_PaletteObject ---------------------------
(* C11: recorded histories of real palettes against PaletteObject.            *)
EXTENDS HistBase, PaletteObject
Eps == RLit("1e-6")
PalOf(e) == [hue |-> e.hue, chroma |-> e.chroma, given |-> e.given]
StartC11(e) == Fresh(PalOf(e))
\* hue and chroma of a list palette are the deduced ones
StartOkC11(e) == e.given = <<>> \/
    LET p == FromList(e.given) IN
    Chk("deduced hue and chroma", Near(e.chroma, p.chroma, Eps) /\ DiffDeg(e.hue, p.hue) \otimes RMin(R1, p.chroma) \preceq Eps)
StepsC11(e) == Len(e.ops)
\* The abstract state needs no colours: only which tones are cached matters to
\* it, and the promise is that this does not show.
AfterC11(s, e, k) == s
Right(s, tone, c) == IsAt(c, s.pal, tone)
StepOkC11(s, e, k) ==
    LET o == e.obs[k] IN
    /\ Chk("the answer does not depend on earlier questions", o.ans = o.fresh)
    /\ Chk("the palette's colour at that tone", e.ops[k] \in {GET, HCT} => Right(s, e.tones[k], o.ans[1]))
    /\ Chk("the list is the palette's colours at the common tones",
           e.ops[k] = LIST => Len(o.ans) = 13 /\ \A q \in 1..13 : Right(s, RInt(CommonTones[q]), o.ans[q]))
    /\ Chk("hue and chroma do not change", REq(o.hue, e.hue) /\ REq(o.chroma, e.chroma))
    /\ Chk("the key colour does not change", o.key = e.key)
    /\ Chk("still equal to, and hashing as, a fresh palette", o.eq)
    /\ Chk("equal to, and different from, the palettes a fresh one is", o.likes = o.freshlikes)
    /\ Chk("same text as a fresh palette", o.text)
=============================================================================
