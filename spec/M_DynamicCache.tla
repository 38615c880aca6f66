---------------------------- MODULE M_DynamicCache ----------------------------
(* All ways (up to renaming) to ask one dynamic colour about schemes Depth    *)
(* times (C17): the object with its cache refines the plain function.  Every  *)
(* complete history is printed and replayed on real dynamic colours.          *)
EXTENDS DynamicCache, TLC
CONSTANTS Depth, MaxSchemes
VARIABLES zCache, zHist, zUsed, zAns
vars == <<zCache, zHist, zUsed, zAns>>
Answer(x) == x * x + 7
RECURSIVE Text(_)
Text(h) == IF h = <<>> THEN "" ELSE ToString(Head(h)) \o (IF Len(h) = 1 THEN "" ELSE " " \o Text(Tail(h)))

Init == zCache = Empty /\ zHist = <<>> /\ zUsed = 0 /\ zAns = 0
Ask(x) ==
    /\ Len(zHist) < Depth
    /\ zAns' = Lookup(zCache, x, Answer)
    /\ zCache' = Remember(zCache, x, Answer)
    /\ zHist' = Append(zHist, x)
    /\ zUsed' = IF x > zUsed THEN x ELSE zUsed
\* schemes are numbered in order of appearance
Next == \E x \in 1..MaxSchemes : x <= zUsed + 1 /\ Ask(x)
Spec == Init /\ [][Next]_vars
Right == zHist # <<>> => zAns = Answer(zHist[Len(zHist)])
Sound == \A x \in DOMAIN zCache : zCache[x] = Answer(x)
Bounded == Size(zCache) <= Capacity
JustAsked == zHist # <<>> => zHist[Len(zHist)] \in DOMAIN zCache
Emit == Len(zHist) = Depth => PrintT("HIST " \o Text(zHist))
=============================================================================
