------------------------------ MODULE T_Quantize ------------------------------
(* Conformance of the quantizers (C20, C21, C22, C23).  A recorded call has   *)
(* the image `px`, the budget `want`, the result's colours `cols` with their  *)
(* `counts` and, for k-means, the colour `to[k]` the distinct pixel k of the  *)
(* image is mapped to.  A large image is recorded as its distinct colours     *)
(* `px` and how often each occurs, `times`.                                   *)
EXTENDS TraceBase, Quantize
Compact(e) == "times" \in DOMAIN e
UOf(e) == IF Compact(e) THEN e.px ELSE Distinct(e.px)
NOf(e) == IF Compact(e) THEN e.times ELSE Times(e.px)
SizeOf(e) == IF Compact(e) THEN Total(e.times) ELSE Len(e.px)
PixelsOf(e) == IF Compact(e)
               THEN LET o == SelectSeq([k \in DOMAIN e.px |-> k], LAMBDA k : IsOpaque(e.px[k]))
                    IN [q \in DOMAIN o |-> <<Red(e.px[o[q]]), Green(e.px[o[q]]), Blue(e.px[o[q]]), e.times[o[q]]>>]
               ELSE WuPixels(e.px)

Opaques(l) == \A k \in DOMAIN l : IsOpaque(l[k])
NoRepeats(l) == Cardinality(Range(l)) = Len(l)
\* ---------------------------------------------------------------------- C20
CountsRight(e) ==
    LET u == UOf(e)
        n == NOf(e)
        want == IF Compact(e) THEN [c \in {u[k] : k \in {k \in DOMAIN u : IsOpaque(u[k])}} |-> n[CHOOSE k \in DOMAIN u : u[k] = c]]
                ELSE CountOf(e.px)
    IN
    /\ Chk("counting: exactly the opaque colours", Range(e.cols) = DOMAIN want /\ NoRepeats(e.cols))
    /\ Chk("counting: exactly their occurrences", \A k \in DOMAIN e.cols : e.counts[k] = want[e.cols[k]])
BoxLaws(e) ==
    /\ Chk("at most as many colours as asked for", Len(e.cols) <= e.want)
    /\ Chk("opaque colours, none twice", Opaques(e.cols) /\ NoRepeats(e.cols))
    /\ Chk("at least one colour if there is a pixel", OpaqueOf(e.px) # <<>> => e.cols # <<>>)
    /\ Chk("nothing from nothing", OpaqueOf(e.px) = <<>> => e.cols = <<>>)
Accounts(e) ==
    LET u == UOf(e)
        n == NOf(e)
        mapped(c) == Total([k \in DOMAIN u |-> IF e.to[k] = c THEN n[k] ELSE 0])
    IN /\ BoxLaws(e)
       /\ Chk("counts are positive", \A k \in DOMAIN e.counts : e.counts[k] >= 1)
       /\ Chk("counts add up to the number of pixels", Total(e.counts) = SizeOf(e))
       /\ Chk("one count per colour", Len(e.counts) = Len(e.cols))
       /\ Chk("every distinct pixel is mapped, and nothing else", e.keys = Len(u) /\ Len(e.to) = Len(u))
       /\ Chk("pixels are mapped to the result's colours", Range(e.to) = Range(e.cols))
       /\ Chk("a colour's count is the number of pixels mapped to it", \A k \in DOMAIN e.cols : e.counts[k] = mapped(e.cols[k]))
       /\ Chk("no mapping unless asked for", e.plainkeys = 0)
       /\ Chk("asking for the mapping changes nothing else", e.plaincols = e.cols /\ e.plaincounts = e.counts)
\* an image of very many colours, told by totals
Motley(e) ==
    /\ Chk("between one and as many opaque colours as asked for",
           Len(e.cols) \in 1..e.want /\ Opaques(e.cols) /\ NoRepeats(e.cols) /\ e.wu \in 1..e.want)
    /\ Chk("counts are positive and add up", Total(e.counts) = e.size /\ \A k \in DOMAIN e.counts : e.counts[k] >= 1)
    /\ Chk("every pixel is mapped to one of the result's colours", e.stray = 0 /\ e.keys = e.distinct)
    /\ Chk("a colour's count is the number of pixels mapped to it", e.mapped = e.counts)
    /\ Chk("counting counts every pixel under its colour", e.counted = e.distinct /\ e.countsum = e.size)
AcceptC20(e) ==
    CASE e.op = "map" -> CountsRight(e)
      [] e.op = "wu" -> BoxLaws(e)
      [] e.op \in {"means", "celebi"} -> Accounts(e)
      [] e.op = "motley" -> Motley(e)
      [] e.op = "bulk" ->
           /\ Chk("between one and as many opaque colours as asked for", Len(e.cols) \in 1..e.want /\ Opaques(e.cols) /\ NoRepeats(e.cols))
           /\ Chk("counts are positive and add up", Total(e.counts) = Total(e.times) /\ \A k \in DOMAIN e.counts : e.counts[k] >= 1)
      [] OTHER -> Chk("known operation", FALSE)
\* ---------------------------------------------------------------------- C21
\* `ways`: the same image quantized again in other ways
AcceptC21(e) ==
    CASE e.op = "again" ->
           \A k \in DOMAIN e.ways : LET w == e.ways[k] IN
             /\ Chk("same colours: " \o w.how, w.cols = e.cols)
             /\ Chk("same counts: " \o w.how, w.counts = e.counts)
             /\ Chk("same mapping: " \o w.how, w.to = e.to)
      [] e.op = "uses" ->      \* one quantizer used for several images
           /\ Chk("every use was recorded", Len(e.uses) = Len(e.plan) \div 2)
           /\ \A k \in DOMAIN e.uses : LET u == e.uses[k] IN
             Chk("a use does not depend on earlier ones", u.cols = u.freshcols /\ u.counts = u.freshcounts)
      [] OTHER -> Chk("known operation", FALSE)
\* ---------------------------------------------------------------------- C22
AcceptC22(e) ==
    /\ Chk("distinct opaque colours", Opaques(e.cols) /\ NoRepeats(e.cols))
    /\ Chk("no counts are claimed", \A k \in DOMAIN e.counts : e.counts[k] = 0)
    /\ LET px == PixelsOf(e)
           used == CellsOf(px)
           mean(c) == MeanOf(SelectSeq(px, LAMBDA p : <<Cell(p, 1), Cell(p, 2), Cell(p, 3)>> = c))
       IN /\ Chk("the means of the boxes of successive best cuts", 
                 Range(e.cols) = WuColoursOf(px, e.want) \/ WuMayGive(px, e.want, Range(e.cols)))
          /\ Chk("enough colours: every cell keeps its mean", Cardinality(used) <= e.want => Range(e.cols) = {mean(c) : c \in used})
\* ---------------------------------------------------------------------- C23
\* does k-means from these starting clusters end in what was recorded?
Explains(e, start) ==
    LET k == IMin(e.want, Len(UOf(e)))
        f == KRun(KStartOf(UOf(e), NOf(e), k, start), e.iters)
        n == Len(f.px)
    IN \/ /\ \A i \in 1..n : ChannelGap(KColour(f, i), e.to[i]) <= 1
          /\ \A i \in 1..n, j \in 1..n : (i < j /\ f.of[i] = f.of[j]) => e.to[i] = e.to[j]
       \/ KFuzzy(KStartOf(UOf(e), NOf(e), k, start), e.iters)
\* clusters beyond the given ones are distinct pixels of the image, whichever
Extended(e, start, m) ==
    LET u == UOf(e)
    IN {start \o [q \in 1..m |-> u[g[q]]] : g \in {g \in [1..m -> DOMAIN u] : \A a \in 1..m, b \in 1..m : a # b => g[a] # g[b]}}
Explained(e, start) ==
    LET n == Len(UOf(e))
        missing == IMin(e.want, n) - Len(start)
    IN IF missing <= 0 THEN Explains(e, start)
       ELSE IF (missing = 1 /\ n <= 30) \/ (missing = 2 /\ n <= 9) \/ (missing = 3 /\ n <= 5)
            THEN \E x \in Extended(e, start, missing) : Explains(e, x)
       ELSE TRUE
\* the mean of the pixels mapped to a colour is that colour
MeansRight(e) ==
    LET u == UOf(e)
        n == NOf(e)
        lab == [k \in DOMAIN u |-> LabFromArgb(u[k])]
        mean(c) == LET m == SelectSeq([k \in DOMAIN u |-> k], LAMBDA k : e.to[k] = c)
                       w == RInt(Total([q \in DOMAIN m |-> n[m[q]]]))
                   IN [d \in 1..3 |-> RealSum([q \in DOMAIN m |-> lab[m[q]][d] \otimes RInt(n[m[q]])]) \oslash w]
    IN \A c \in Range(e.cols) : ChannelGap(ArgbFromLab(mean(c)), c) <= 1
AcceptC23(e) ==
    /\ Chk("each colour is the mean of the pixels mapped to it",
           IF e.op = "motley"
           THEN \A k \in DOMAIN e.cols :
                    /\ e.mapped[k] >= 1
                    /\ ChannelGap(ArgbFromLab([d \in 1..3 |-> e.sums[k][d] \oslash RInt(e.mapped[k])]), e.cols[k]) <= 1
           ELSE MeansRight(e))
    /\ CASE e.op = "motley" -> TRUE
         [] e.op = "means" -> Chk("k-means from the given clusters", Explained(e, e.start))
         [] e.op = "celebi" ->
              LET w == Range(e.wu)
                  px == PixelsOf(e)
              IN /\ Chk("k-means from Wu's colours", Explained(e, SetToSortSeq(w, LAMBDA x, y : x < y)))
                 /\ Chk("Wu's colours", w = WuColoursOf(px, e.want) \/ WuMayGive(px, e.want, w))
         [] OTHER -> Chk("known operation", FALSE)
=============================================================================
