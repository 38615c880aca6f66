------------------------------ MODULE M_Quantize ------------------------------
(* Counting, Wu's cuts and k-means as specified have the properties C20, C22  *)
(* and C23 on all images made of up to two pixels of each of six colours.     *)
EXTENDS DesignBase, Quantize
\* two of the colours share a cell; greys and saturated ones
Paint == << Pack(0, 0, 0), Pack(250, 10, 10), Pack(253, 8, 12), Pack(20, 200, 40), Pack(128, 128, 128), Pack(255, 255, 255) >>
RECURSIVE Image(_, _)
Image(n, k) == IF k > 6 THEN <<>> ELSE [i \in 1..(n % 3) |-> Paint[k]] \o Image(n \div 3, k + 1)
Budget(n) == ((n \div 729) % 4) + 1
Picture(n) == Image(n % 729, 1)
CasesC20 == 4 * 729
CasesC22 == 4 * 729
CasesC23 == 4 * 729
Range2(s) == {s[k] : k \in DOMAIN s}
HoldsC22(n) ==
    LET s == Picture(n)
        want == Budget(n)
        bs == WuBoxes(s, want)
        inside(b, p) == \A d \in 1..3 : b.lo[d] < Cell(p, d) /\ Cell(p, d) <= b.hi[d]
        px == WuPixels(s)
    IN /\ Chk("no more boxes than colours", Len(bs) <= want)
       /\ Chk("every pixel in exactly one box", \A k \in DOMAIN px : \E q \in DOMAIN bs :
              inside(bs[q], px[k]) /\ \A r \in DOMAIN bs \ {q} : ~inside(bs[r], px[k]))
       /\ Chk("boxes hold the pixels in them", \A q \in DOMAIN bs : Range2(bs[q].mem) = {p \in Range2(px) : inside(bs[q], p)})
       /\ Chk("the first of equals is one way to choose", WuMayGive(px, want, {MeanOf(bs[q].mem) : q \in DOMAIN bs}))
       /\ Chk("no box is empty", \A q \in DOMAIN bs : bs[q].mem # <<>>)
       /\ Chk("enough colours: one box per cell used", Cardinality(CellsUsed(s)) <= want => Len(bs) = Cardinality(CellsUsed(s)))
Start(s, k) == LET u == Distinct(s) IN [j \in 1..k |-> u[(((j * 2) - 1) % Len(u)) + 1]]
HoldsC23(n) ==
    LET s == Picture(n)
        k == IMin(Budget(n), Len(Distinct(s)))
        st0 == KStart(s, k, Start(s, k))
        st(r) == KRun(st0, r)
    IN s # <<>> => LET a == st(1)
                       b == st(2)
                       c == st(5)
                   IN /\ Chk("iterating never makes it worse", Cost(b) \preceq (Cost(a) \oplus RLit("1e-9")) /\ Cost(c) \preceq (Cost(b) \oplus RLit("1e-9")))
                      /\ Chk("centres are means", \A j \in 1..k : MembersOf(c.of, j) # <<>> => Dist(c.cl[j], Centre(c, c.of, j)) \preceq RLit("1e-9"))
                      /\ Chk("as many colours as allowed: colours kept when started from them",
                             LET u == Distinct(s)
                                 f == KRun(KStart(s, Len(u), u), 5)
                             IN \A i \in DOMAIN u : ChannelGap(KColour(f, i), u[i]) = 0)
HoldsC20(n) ==
    LET s == Picture(n)
        k == IMin(Budget(n), Len(Distinct(s)))
        f == KRun(KStart(s, k, Start(s, k)), 5)
        cols == {KColour(f, i) : i \in DOMAIN f.px}
        pop(c) == Total([i \in DOMAIN f.px |-> IF KColour(f, i) = c THEN f.cnt[i] ELSE 0])
    IN /\ Chk("occurrences add up", Total(Times(s)) = Len(s))
       /\ s # <<>> => /\ Chk("one to budget colours", Cardinality(cols) \in 1..Budget(n))
                      /\ Chk("populations add up", MapThenSumSet(pop, cols) = Len(s))
=============================================================================
