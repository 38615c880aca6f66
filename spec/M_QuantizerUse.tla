---------------------------- MODULE M_QuantizerUse ----------------------------
(* All sequences of Depth uses of one quantizer, over three images and two    *)
(* budgets; each is printed and replayed on real quantizers (C21).            *)
EXTENDS QuantizerUse
CONSTANT Depth
VARIABLES zObj, zHist, zFresh
Init == zObj = New /\ zHist = "" /\ zFresh = Nothing
Next == \E i \in 1..3, b \in 1..2 :
          /\ TLCGet("level") <= Depth
          /\ zObj' = Use(zObj, i, b)
          /\ zFresh' = Result(Use(New, i, b))
          /\ zHist' = zHist \o " " \o ToString(i) \o " " \o ToString(b)
OneSource == Consistent(zObj)
LikeNew == Result(zObj) = zFresh
Emit == TLCGet("level") = Depth + 1 => PrintT("HIST" \o zHist)
=============================================================================
