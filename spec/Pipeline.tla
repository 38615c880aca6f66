------------------------------- MODULE Pipeline -------------------------------
(* From an image to a theme: quantize, rank, build a scheme, read off roles.  *)
EXTENDS Quantize, DynamicLaws, Schemes
Rank == INSTANCE Score
\* the table of an image: k-means from Wu's colours; `extra` are the pixels
\* taken where there are fewer of those than clusters
QuantizedFrom(s, want, start) ==
    LET f == KRun(KStart(s, IMin(want, Len(Distinct(s))), start), 5)
        to == [i \in DOMAIN f.px |-> KColour(f, i)]
        cols == SetToSortSeq(Range(to), LAMBDA x, y : x < y)
    IN [cols |-> cols,
        counts |-> [q \in DOMAIN cols |-> Total([i \in DOMAIN to |-> IF to[i] = cols[q] THEN f.cnt[i] ELSE 0])]]
Ordered(set) == SetToSortSeq(set, LAMBDA x, y : x < y)
Starts(s, want) ==
    LET w == Ordered(WuColours(s, want))
        u == Distinct(s)
        m == IMin(want, Len(u)) - Len(w)
    IN IF m <= 0 THEN {w}
       ELSE {w \o [q \in 1..m |-> u[g[q]]] : g \in {g \in [1..m -> DOMAIN u] : \A a \in 1..m, b \in 1..m : a # b => g[a] # g[b]}}
\* the colour schemes Content and Fidelity take from the temperature circle is
\* left open here: any colour stands for it
ThemeOf(v, c, dark, level, third) ==
    LET o == HctOf(c)
        pals == PalettesOf(v, o, HctOf(FixDisliked(third)))
    IN [variant |-> v, dark |-> dark, level |-> level, src |-> o, pal |-> pals,
        key |-> [nm \in DOMAIN pals |-> KeyColour(pals[nm].hue, pals[nm].chroma).tone]]
=============================================================================
