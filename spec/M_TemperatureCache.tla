------------------------- MODULE M_TemperatureCache -------------------------
(* All sequences of Depth questions to a temperature cache (C25); each is     *)
(* printed and replayed on real caches.                                       *)
EXTENDS TemperatureCache
CONSTANT Depth
VARIABLES zFilled, zHist, zLast
vars == <<zFilled, zHist, zLast>>
Init == zFilled = {} /\ zHist = "" /\ zLast = "none"
Ask(x) == /\ TLCGet("level") <= Depth
          /\ zFilled' = Asked(zFilled, x)
          /\ zHist' = zHist \o " " \o x
          /\ zLast' = x
Next == \E x \in DOMAIN Questions : Ask(x)
\* a part is never there without what it was made from, and a question leaves
\* everything it reads filled
Closed == \A p \in zFilled : From[p] \subseteq zFilled
Answered == zLast # "none" => Questions[zLast] \subseteq zFilled
Emit == TLCGet("level") = Depth + 1 => PrintT("HIST" \o zHist)
=============================================================================
