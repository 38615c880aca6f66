----------------------------- MODULE QuantizerUse -----------------------------
(* A quantizer as an object: what it keeps from one use to the next.  Each    *)
(* part remembers which image (and budget) it was made from.                  *)
EXTENDS Integers, Sequences, TLC
Parts == {"histogram", "moments", "boxes"}
Nothing == <<0, 0>>
New == [p \in Parts |-> Nothing]
\* using it rebuilds every part before the result is read off the boxes
Use(obj, image, budget) == [p \in Parts |-> <<image, budget>>]
Result(obj) == obj["boxes"]
Consistent(obj) == \A p, q \in Parts : obj[p] = obj[q]
=============================================================================
