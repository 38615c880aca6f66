----------------------------- MODULE DynamicCache -----------------------------
(* A dynamic colour as the implementation builds it: an object that remembers *)
(* its answers for up to Capacity schemes and forgets all of them when one    *)
(* more would have to be remembered.  The promise: whatever it was asked      *)
(* before, the answer for a scheme is the one a fresh object gives.           *)
EXTENDS Integers, Sequences, FiniteSets
Capacity == 5
\* a cache is a function from schemes to answers
Empty == <<>>
Lookup(cache, s, answer(_)) == IF s \in DOMAIN cache THEN cache[s] ELSE answer(s)
Size(cache) == Cardinality(DOMAIN cache)
Remember(cache, s, answer(_)) ==
    IF s \in DOMAIN cache THEN cache
    ELSE LET kept == IF Size(cache) >= Capacity THEN {} ELSE DOMAIN cache
         IN [x \in kept \cup {s} |-> IF x = s THEN answer(s) ELSE cache[x]]
=============================================================================
