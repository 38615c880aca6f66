-------------------------------- MODULE Score --------------------------------
(* Ranking colours for a theme by use and chroma.  A table of colours is two  *)
(* sequences: colours `cs` and how often each occurs `ns`.                    *)
EXTENDS Hct, FiniteSets, SequencesExt, TLC

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN R0 ELSE s[k] \oplus SumTo(s, k - 1)
SumAll(s) == SumTo(s, Len(s))
\* hues whose whole degree is up to 14 below to 15 above count for hue h: the
\* use of degree f excites the degrees f - 14 .. f + 15
Excites(f, h) == ((h - f) + 14) % 360 < 30
Noise == RLit("1e-9")
Google == Pack(66, 133, 244)
\* all that is known about each colour of a table (populations as reals: they may
\* exceed what TLC counts in)
KnownBy(cs, ns) ==
    LET o == [k \in DOMAIN cs |-> HctOf(cs[k])]
        deg == [k \in DOMAIN cs |-> IFloor(o[k].hue)]
        all == SumAll(ns)
        one(k) ==
          LET h == IRound(o[k].hue) % 360
              near == SelectSeq([q \in DOMAIN cs |-> q], LAMBDA q : Excites(deg[q], h) /\ ns[q] \succ R0)
              used == SumAll([q \in DOMAIN near |-> ns[near[q]]])
              share == used \oslash all
              single == Cardinality({deg[near[q]] : q \in DOMAIN near}) <= 1
              c == o[k].chroma
              w == IF c \prec RLit("48") THEN RLit("0.1") ELSE RLit("0.3")
              much == share \succ RLit("0.01")
              colourful == c \succeq RLit("5")
              \* whether a share sum is above 1% may depend on how it is added up
              unsure == (~single /\ Near(share, RLit("0.01"), Noise)) \/ Near(c, RLit("5"), Noise)
                        \/ Near(RFloor(o[k].hue \oplus RLit("0.5")), o[k].hue \oplus RLit("0.5"), Noise)
                        \/ Near(RRound(o[k].hue), o[k].hue, Noise)
          IN [argb |-> cs[k], hue |-> o[k].hue, chroma |-> c, share |-> share,
              score |-> (share \otimes RLit("70")) \oplus ((c \ominus RLit("48")) \otimes w),
              fit |-> much /\ colourful, unsure |-> unsure]
    IN [k \in DOMAIN cs |-> one(k)]
Known(cs, ns) == KnownBy(cs, [k \in DOMAIN ns |-> RInt(ns[k])])
Candidates(known, filter) == SelectSeq(known, LAMBDA x : ~filter \/ x.fit)
Ranked(cand) == SortSeq(cand, LAMBDA x, y : x.score \succ y.score)
\* the best colours that are at least d degrees from all better chosen ones
RECURSIVE Spread(_, _, _, _, _)
Spread(r, k, d, n, acc) ==
    IF k > Len(r) \/ Len(acc) >= n THEN acc
    ELSE Spread(r, k + 1, d, n,
                IF \E q \in DOMAIN acc : DiffDeg(r[k].hue, acc[q].hue) \prec RInt(d) THEN acc ELSE Append(acc, r[k]))
RECURSIVE Widest(_, _, _)
Widest(r, d, n) == LET s == Spread(r, 1, d, n, <<>>) IN IF Len(s) >= n \/ d = 15 THEN s ELSE Widest(r, d - 1, n)
Chosen(known, n, fallback, filter) ==
    LET s == Widest(Ranked(Candidates(known, filter)), 90, n)
    IN IF s = <<>> THEN <<fallback>> ELSE [k \in DOMAIN s |-> s[k].argb]
\* no decision is so close that rounding noise could turn it
Clear(known, filter) ==
    LET c == Candidates(known, filter)
        r == Ranked(c)
    IN /\ \A k \in DOMAIN known : ~known[k].unsure
       /\ \A k \in 1..(Len(r) - 1) : ~Near(r[k].score, r[k + 1].score, Noise)
       /\ \A k \in DOMAIN r, q \in DOMAIN r : k < q =>
            LET d == DiffDeg(r[k].hue, r[q].hue) IN ~Near(d, RRound(d), Noise)
\* what holds of the answer without looking at how it is found
AnswerLaw(known, n, fallback, filter, out) ==
    LET at(c) == CHOOSE k \in DOMAIN known : known[k].argb = c
        maybe(x) == ~filter \/ x.fit \/ x.unsure
        surely(x) == ~x.unsure /\ (~filter \/ x.fit)
        from == \A q \in DOMAIN out : \E k \in DOMAIN known : known[k].argb = out[q] /\ maybe(known[k])
    IN /\ Len(out) \in 1..n
       /\ from \/ (out = <<fallback>> /\ ~\E k \in DOMAIN known : surely(known[k]))
       /\ from =>
            /\ \A p, q \in DOMAIN out : p < q =>
                 /\ DiffDeg(known[at(out[p])].hue, known[at(out[q])].hue) \succeq RLit("14.999999")
                 /\ known[at(out[p])].score \succeq (known[at(out[q])].score \ominus Noise)
            /\ \A k \in DOMAIN known : surely(known[k]) =>
                 /\ known[k].score \preceq (known[at(out[1])].score \oplus Noise)
                 /\ Len(out) < n => \E q \in DOMAIN out : DiffDeg(known[k].hue, known[at(out[q])].hue) \prec RLit("15.000001")
=============================================================================
