--------------------------- MODULE M_PaletteObject ---------------------------
(* All histories of Depth questions to a palette and its clone (C11): the     *)
(* cache never changes an answer.  Every complete history is printed and      *)
(* replayed on the real palette.                                              *)
EXTENDS PaletteObject, TLCExt
CONSTANT Depth
VARIABLES zState, zHist, zAns, zWant
vars == <<zState, zHist, zAns, zWant>>

\* of(270, 36); of(100, 60); a list that is no tonal palette at all
Odd == [k \in 1..13 |-> Pack((k * 71) % 256, (k * 29 + 90) % 256, (k * 151) % 256)]
Pals == <<Pal(RLit("270"), RLit("36")), Pal(RLit("100.5"), RLit("60")), FromList(Odd)>>
Ops == { <<GET, "40">>, <<GET, "41">>, <<HCT, "40">>, <<HCT, "40.4">>, <<HCT, "41.6">>, <<LIST, "0">>, <<CLONE, "0">>, <<TEXT, "0">> }

Init == \E k \in 1..3 : zState = Fresh(Pals[k]) /\ zHist = ToString(k) /\ zAns = 0 /\ zWant = 0
Ask(who, o) ==
    /\ TLCGet("level") <= Depth
    /\ who = 2 => zState.cloned
    /\ o[1] = CLONE => who = 1
    /\ zState' = AfterOp(zState, o[1], who, RLit(o[2]))
    /\ zAns' = IF o[1] \in {GET, HCT} THEN Lookup(zState, who, RLit(o[2])) ELSE 0
    /\ zWant' = IF o[1] \in {GET, HCT} THEN ColourAt(zState.pal, RLit(o[2])) ELSE 0
    /\ zHist' = zHist \o " " \o ToString(o[1]) \o ":" \o ToString(who) \o ":" \o o[2]
Next == \E who \in 1..2 : \E o \in Ops : Ask(who, o)
Spec == Init /\ [][Next]_vars
Sound == CacheSound(zState) /\ zAns = zWant
Emit == (TLCGet("level") = Depth + 1) => PrintT("HIST " \o zHist)
=============================================================================
