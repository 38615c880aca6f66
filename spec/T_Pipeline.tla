----------------------------- MODULE T_Pipeline -----------------------------
(* Conformance of the whole pipeline (C30).                                   *)
EXTENDS T_Dynamic, Quantize
Ranking == INSTANCE Score
AcceptC30(e) ==
    /\ Chk("known operation", e.op = "pipeline")
    /\ Chk("quantizing accounts for the pixels", Total(e.counts) = Len(e.px) /\ \A k \in DOMAIN e.counts : e.counts[k] >= 1)
    /\ Chk("between one and as many opaque colours as asked for", Len(e.cols) \in 1..e.want /\ \A k \in DOMAIN e.cols : IsOpaque(e.cols[k]))
    /\ LET known == Ranking!Known(e.cols, e.counts) IN
       /\ Chk("chosen from the quantized colours, or the fallback alone", e.out = <<Ranking!Google>> \/ Range(e.out) \subseteq Range(e.cols))
       /\ Chk("suitable colours, best first", Ranking!AnswerLaw(known, e.desired, Ranking!Google, TRUE, e.out))
       /\ Chk("repeating it gives the same theme",
              (e.againcols = e.cols /\ e.againcounts = e.counts /\ e.againout = e.out /\ e.againcolours = e.colours)
              \/ ~Ranking!Clear(known, TRUE))
    /\ Chk("the theme is built from a chosen colour", e.argb = e.out[e.pick + 1] /\ Near(e.srctone, LstarFromArgb(e.argb), Eps))
    /\ Whole(e)
    /\ ShowsTone(e)
    /\ ContrastLaw(SchemeOf(e, e.level), LAMBDA nm : T(e, nm))
    /\ RolePairLaw(SchemeOf(e, e.level), LAMBDA nm : T(e, nm))
=============================================================================
