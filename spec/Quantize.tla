------------------------------- MODULE Quantize -------------------------------
(* Quantizers: counting, Wu's box cuts, k-means in L*a*b*.                    *)
(* An image is a sequence of ARGB colours.                                    *)
EXTENDS ColorMath, FiniteSets, FiniteSetsExt, SequencesExt, TLC

\* distinct elements in order of first appearance, and how often each occurs
Distinct(s) == LET f == IFirsts(s) IN [k \in DOMAIN f |-> s[f[k]]]
Times(s) == ITimes(s)
Occurrences(s, c) == Len(SelectSeq(s, LAMBDA x : x = c))
OpaqueOf(s) == SelectSeq(s, IsOpaque)
\* counting: how often each opaque colour occurs
CountOf(s) == LET o == OpaqueOf(s) IN [c \in {o[k] : k \in DOMAIN o} |-> Occurrences(o, c)]

RECURSIVE SumInts(_, _)
SumInts(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + SumInts(s, k + 1)
Total(s) == SumInts(s, 1)

RealSum(s) == IF s = <<>> THEN R0 ELSE LET p == RPrefix(s) IN p[Len(p)]

\* ---------------------------------------------------------------- Wu's boxes
\* a distinct pixel: <<r, g, b, count>>; its cell in the 32 x 32 x 32 cube
Cell(p, d) == (p[d] \div 8) + 1
WuPixels(s) == LET o == OpaqueOf(s)
                   u == Distinct(o)
                   t == Times(o)
               IN [k \in DOMAIN u |-> <<Red(u[k]), Green(u[k]), Blue(u[k]), t[k]>>]
Weight(m) == Total([k \in DOMAIN m |-> m[k][4]])
Moment(m, d) == RealSum([k \in DOMAIN m |-> RInt(m[k][4]) \otimes RInt(m[k][d])])     \* exact
Sq(x) == x \otimes x
\* squared length of the sum over the mean: what a cut tries to make large
Merit(m) == ((Sq(Moment(m, 1)) \oplus Sq(Moment(m, 2))) \oplus Sq(Moment(m, 3))) \oslash RInt(Weight(m))
Variance(m) ==
    LET sq(p) == RInt((p[1] * p[1]) + (p[2] * p[2]) + (p[3] * p[3])) \otimes RInt(p[4])
    IN RealSum([k \in DOMAIN m |-> sq(m[k])]) \ominus Merit(m)
\* a box: cells lo < c <= hi in each direction, and the pixels in it
WholeBox(px) == [lo |-> <<0, 0, 0>>, hi |-> <<32, 32, 32>>, mem |-> px]
Vol(b) == (b.hi[1] - b.lo[1]) * (b.hi[2] - b.lo[2]) * (b.hi[3] - b.lo[3])
Below(b, d, i) == SelectSeq(b.mem, LAMBDA p : Cell(p, d) <= i)
Above(b, d, i) == SelectSeq(b.mem, LAMBDA p : Cell(p, d) > i)
\* Of several equally good cuts the first counts.
RECURSIVE BestAt(_, _, _, _)
BestAt(b, d, cells, best) ==
    IF cells = {} THEN best
    ELSE LET i == CHOOSE i \in cells : \A j \in cells : i <= j
             v == Merit(Below(b, d, i)) \oplus Merit(Above(b, d, i))
         IN BestAt(b, d, cells \ {i}, IF v \succ best[1] THEN <<v, i>> ELSE best)
BestCut(b, d) ==
    LET all == {Cell(b.mem[k], d) : k \in DOMAIN b.mem}
        cells == {i \in all : \E j \in all : i < j}
    IN BestAt(b, d, cells, <<R0, -1>>)
\* <<direction, cell>> of the cut, direction 0 if there is none
CutOf(b) ==
    LET c == [d \in 1..3 |-> BestCut(b, d)]
        ge(x, y) == c[x][1] \succeq c[y][1]
    IN IF ge(1, 2) /\ ge(1, 3) THEN IF c[1][2] < 0 THEN <<0, 0>> ELSE <<1, c[1][2]>>
       ELSE IF ge(2, 1) /\ ge(2, 3) THEN <<2, c[2][2]>>
       ELSE <<3, c[3][2]>>
Spread(b) == IF Vol(b) > 1 THEN Variance(b.mem) ELSE R0
RECURSIVE Widest(_, _, _)
Widest(vs, k, best) ==
    IF k > Len(vs) THEN best ELSE Widest(vs, k + 1, IF vs[k] \succ vs[best] THEN k ELSE best)
\* boxes, the variance recorded for each, the one to cut next, boxes wanted
RECURSIVE CutAll(_, _, _, _)
CutAll(bs, vs, next, want) ==
    IF Len(bs) >= want THEN bs ELSE
    LET c == CutOf(bs[next])
        b == bs[next]
        one == [b EXCEPT !.hi[c[1]] = c[2], !.mem = Below(b, c[1], c[2])]
        two == [b EXCEPT !.lo[c[1]] = c[2], !.mem = Above(b, c[1], c[2])]
        bs2 == IF c[1] = 0 THEN bs ELSE Append([bs EXCEPT ![next] = one], two)
        vs2 == IF c[1] = 0 THEN [vs EXCEPT ![next] = R0] ELSE Append([vs EXCEPT ![next] = Spread(one)], Spread(two))
        w == Widest(vs2, 1, 1)
    IN IF vs2[w] \preceq R0 THEN bs2 ELSE CutAll(bs2, vs2, w, want)
WuBoxesOf(px, want) ==
    IF px = <<>> THEN <<>> ELSE CutAll(<<WholeBox(px)>>, <<R0>>, 1, want)
WuBoxes(s, want) == WuBoxesOf(WuPixels(s), want)
MeanOf(m) == LET avg(d) == IRound(Moment(m, d) \oslash RInt(Weight(m))) IN Pack(avg(1), avg(2), avg(3))
WuColoursOf(px, want) == LET bs == WuBoxesOf(px, want) IN {MeanOf(bs[k].mem) : k \in DOMAIN bs}
WuColours(s, want) == WuColoursOf(WuPixels(s), want)
\* The same with every choice left open between equally good cuts and between
\* boxes of equal variance: all the sets of colours successive best cuts may end
\* in.  A piece is the pixels of a box that may still be cut; boxes within one
\* cell are finished.  Ties multiply, so beyond TieLimit partitions at a time
\* nothing is decided.
TieLimit == 40
SquaresOf(m) == RealSum([k \in DOMAIN m |-> RInt((m[k][1] * m[k][1]) + (m[k][2] * m[k][2]) + (m[k][3] * m[k][3])) \otimes RInt(m[k][4])])
Cuttable(m) == \E d \in 1..3 : \E k \in DOMAIN m : Cell(m[k], d) # Cell(m[1], d)
Piece(m) == [mem |-> m, spread |-> Variance(m)]
RMaxOf(S) == CHOOSE x \in S : \A y \in S : y \preceq x
TiedCuts(m) ==
    LET b == [mem |-> m]
        at(d) == LET all == {Cell(m[k], d) : k \in DOMAIN m} IN {i \in all : \E j \in all : i < j}
        cuts == UNION {{<<d, i>> : i \in at(d)} : d \in 1..3}
        v == [c \in cuts |-> Merit(Below(b, c[1], c[2])) \oplus Merit(Above(b, c[1], c[2]))]
        best == RMaxOf({v[c] : c \in cuts})
    IN {<<Below(b, c[1], c[2]), Above(b, c[1], c[2])>> : c \in {c \in cuts : v[c] \succeq (best \otimes RLit("0.999999999999"))}}
\* a partition: [n |-> how many boxes, open |-> pieces, done |-> mean colours of the finished boxes]
Plus(p, m) == IF Cuttable(m) THEN [p EXCEPT !.open = @ \union {Piece(m)}] ELSE [p EXCEPT !.done = @ \union {MeanOf(m)}]
CutsOf(p, tol) ==
    LET top == RMaxOf({q.spread : q \in p.open})
        tied == {q \in p.open : (q.spread \oplus tol) \succeq top}
    IN UNION {{Plus(Plus([p EXCEPT !.open = @ \ {q}, !.n = @ + 1], c[1]), c[2]) : c \in TiedCuts(q.mem)} : q \in tied}
RECURSIVE MayEndIn(_, _, _, _)
MayEndIn(ps, want, tol, cols) ==
    LET ended == {p \in ps : p.n >= want \/ p.open = {}}
        going == ps \ ended
    IN \/ \E p \in ended : cols = p.done \union {MeanOf(q.mem) : q \in p.open}
       \/ Cardinality(going) > TieLimit
       \/ /\ going # {}
          /\ MayEndIn({p \in UNION {CutsOf(p, tol) : p \in going} : p.done \subseteq cols}, want, tol, cols)
WuMayGive(px, want, cols) ==
    IF px = <<>> THEN cols = {}
    ELSE MayEndIn({Plus([n |-> 1, open |-> {}, done |-> {}], px)}, want, SquaresOf(px) \otimes RLit("1e-12"), cols)
\* a rounded mean on the boundary between two values may go either way
CellsOf(px) == {<<Cell(px[k], 1), Cell(px[k], 2), Cell(px[k], 3)>> : k \in DOMAIN px}
CellsUsed(s) == CellsOf(WuPixels(s))

\* ------------------------------------------------------------------ k-means
Dist(p, q) == LET a == p[1] \ominus q[1]
                  b == p[2] \ominus q[2]
                  c == p[3] \ominus q[3]
              IN ((a \otimes a) \oplus (b \otimes b)) \oplus (c \otimes c)
Origin == <<R0, R0, R0>>
\* state: pts (points), cnt (their counts), cl (cluster centres), of (cluster
\* of each point), near (per cluster, sorted distances kept for pruning)
KStartOf(u, times, k, start) ==       \* distinct pixels and how often each occurs
    [px |-> u, pts |-> [i \in DOMAIN u |-> LabFromArgb(u[i])], cnt |-> times,
     cl |-> [j \in 1..k |-> LabFromArgb(start[j])], of |-> [i \in DOMAIN u |-> ((i - 1) % k) + 1],
     near |-> [j \in 1..k |-> [i \in 1..k |-> R0]], done |-> FALSE, round |-> 0]
KStart(s, k, start) == KStartOf(Distinct(s), Times(s), k, start)
\* distances from each cluster, sorted, one place of each row being left from
\* the round before: what the implementation prunes with
Sorted(row) == SortSeq(row, LAMBDA x, y : x \prec y)
NearRows(st) == LET k == Len(st.cl) IN
    [j \in 1..k |-> Sorted([i \in 1..k |-> IF i = j THEN st.near[j][j] ELSE Dist(st.cl[i], st.cl[j])])]
RECURSIVE Closest(_, _, _, _, _, _)
Closest(p, cl, row, limit, j, best) ==      \* best = <<distance, cluster>>
    IF j > Len(cl) THEN best[2]
    ELSE IF row[j] \succeq limit THEN Closest(p, cl, row, limit, j + 1, best)
    ELSE LET d == Dist(p, cl[j]) IN Closest(p, cl, row, limit, j + 1, IF d \prec best[1] THEN <<d, j>> ELSE best)
Assigned(st, rows) == [i \in DOMAIN st.pts |->
    LET prev == st.of[i]
        d == Dist(st.pts[i], st.cl[prev])
    IN Closest(st.pts[i], st.cl, rows[prev], RLit("4") \otimes d, 1, <<d, prev>>)]
MembersOf(of, j) == SelectSeq([i \in DOMAIN of |-> i], LAMBDA i : of[i] = j)
Centre(st, of, j) ==
    LET m == MembersOf(of, j)
        n == Total([q \in DOMAIN m |-> st.cnt[m[q]]])
    IN IF n = 0 THEN Origin
       ELSE [d \in 1..3 |-> RealSum([q \in DOMAIN m |-> st.pts[m[q]][d] \otimes RInt(st.cnt[m[q]])]) \oslash RInt(n)]
KStep(st) ==
    LET rows == NearRows(st)
        of == Assigned(st, rows)
    IN IF of = st.of /\ st.round > 0 THEN [st EXCEPT !.done = TRUE, !.near = rows]
       ELSE [st EXCEPT !.of = of, !.near = rows, !.round = @ + 1,
                       !.cl = [j \in DOMAIN st.cl |-> Centre(st, of, j)]]
RECURSIVE KRun(_, _)
KRun(st, rounds) == IF rounds = 0 \/ st.done THEN st ELSE KRun(KStep(st), rounds - 1)
\* Was some decision so close that rounding noise could turn it?
Close(x, y) == ~REq(x, y) /\ NearRel(x, y, RLit("1e-9"))
KFuzzyStep(st) ==
    \E rows \in {NearRows(st)}, all \in {[j \in DOMAIN st.cl |-> R0]} :      \* `all': no cluster skipped
      \E i \in DOMAIN st.pts :
        \E d \in {[j \in DOMAIN st.cl |-> Dist(st.pts[i], st.cl[j])]}, prev \in {st.of[i]} :
          \/ \E b \in {Closest(st.pts[i], st.cl, all, R1, 1, <<d[prev], prev>>)} :
               \E j \in DOMAIN st.cl : NearRel(d[j], d[b], RLit("1e-9")) /\ st.cl[j] # st.cl[b]
          \/ \E j \in DOMAIN st.cl : Close(rows[prev][j], RLit("4") \otimes d[prev])
RECURSIVE KFuzzy(_, _)
KFuzzy(st, rounds) == rounds > 0 /\ ~st.done /\ (KFuzzyStep(st) \/ KFuzzy(KStep(st), rounds - 1))
\* colour each distinct pixel ends up in
KColour(st, i) == ArgbFromLab(st.cl[st.of[i]])
\* how far the pixels are from the centres they are assigned to
Cost(st) == RealSum([i \in DOMAIN st.pts |-> Dist(st.pts[i], st.cl[st.of[i]]) \otimes RInt(st.cnt[i])])
=============================================================================
