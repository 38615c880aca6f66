------------------------------- MODULE T_Score -------------------------------
(* Conformance of scoring (C24).                                              *)
EXTENDS TraceBase, Score
Scored(e) ==
    LET known == KnownBy(e.cols, e.pops)
    IN /\ Chk("between one and as many colours as asked for", Len(e.out) \in 1..e.desired)
       /\ IF e.cols = <<>> THEN Chk("the fallback", e.out = <<e.fallback>>)
          ELSE /\ Chk("suitable, best first, apart", AnswerLaw(known, e.desired, e.fallback, e.filter, e.out))
               /\ Chk("the best colours at the widest separation",
                      e.out = Chosen(known, e.desired, e.fallback, e.filter) \/ ~Clear(known, e.filter))
AcceptC24(e) == /\ e.op = "score"
                /\ Scored(e)
                /\ Chk("the same again", e.again = e.out \/ (e.cols # <<>> /\ ~Clear(KnownBy(e.cols, e.pops), e.filter)))
=============================================================================
