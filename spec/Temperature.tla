----------------------------- MODULE Temperature -----------------------------
(* Colour temperature: raw temperature of a colour, the circle of colours of  *)
(* the input's chroma and tone, and the complement and analogues on it.       *)
(* A circle is a sequence of 361 colours, for hues 0 to 360.                  *)
EXTENDS Hct
RawTemp(c) ==
    LET lab == LabFromArgb(c)
        hue == SanitizeDeg((RAtan2(lab[3], lab[2]) \otimes R180) \oslash Pi)
        chroma == RSqrt((lab[2] \otimes lab[2]) \oplus (lab[3] \otimes lab[3]))
    IN RLit("-0.5") \oplus ((RLit("0.02") \otimes RPow(chroma, RLit("1.07")))
         \otimes RCos((SanitizeDeg(hue \ominus RLit("50")) \otimes Pi) \oslash R180))
\* is the angle on the clockwise way from a to b?
IsBetween(x, a, b) == IF a \prec b THEN a \preceq x /\ x \preceq b ELSE a \preceq x \/ x \preceq b

Circle(c) == LET o == HctOf(c) IN [k \in 1..361 |-> Solve(RInt(k - 1), o.chroma, o.tone)]

\* everything about an input colour c and its circle
View(c, circle) ==
    LET temps == [k \in 1..362 |-> RawTemp(IF k = 362 THEN c ELSE circle[k])]
        lo == IFirstMin(temps)
        hi == ILastMax(temps)
        at(k) == IF k = 362 THEN c ELSE circle[k]
    IN [input |-> c, o |-> HctOf(c), circle |-> circle, temps |-> temps, cold |-> temps[lo], range |-> temps[hi] \ominus temps[lo],
        coldest |-> at(lo), warmest |-> at(hi)]
Rel(v, temp) == IF REq(v.range, R0) THEN RLit("0.5") ELSE (temp \ominus v.cold) \oslash v.range
InputRel(v) == Rel(v, v.temps[362])

\* The complement lies on the other side of the line from coldest to warmest,
\* its relative temperature being as close as possible to 1 - the input's.
Across(v) ==    \* the hues <<k-th of the other arc>> as indices of the circle
    LET ch == HctOf(v.coldest).hue
        wh == HctOf(v.warmest).hue
        rising == IsBetween(v.o.hue, ch, wh)
        from == IF rising THEN wh ELSE ch
        to == IF rising THEN ch ELSE wh
        h(k) == SanitizeDeg(from \oplus RInt(k))
    IN { IRound(h(k)) + 1 : k \in {j \in 0..359 : IsBetween(h(j), from, to)} }
ComplementError(v, k) == RAbs((R1 \ominus InputRel(v)) \ominus Rel(v, v.temps[k]))
\* is c the complement? (of equally good ones any)
IsComplement(v, c) ==
    IF REq(v.range, R0) THEN c = v.circle[IRound(v.o.hue) + 1]
    ELSE LET arc == Across(v)
             err == [k \in 1..361 |-> IF k \in arc THEN ComplementError(v, k) ELSE RLit("1000")]
             best == err[IFirstMin(err)] \oplus RLit("1e-9")
         IN \E k \in arc : v.circle[k] = c /\ err[k] \preceq best

\* Analogous colours: the circle is cut into `divisions` equal shares of the
\* total change of temperature on the way round, starting at the input's hue.
\* A colour that uses up several shares is repeated; shares left over at the
\* end of the way are given the last colour.
Index(v, a) == ((IRound(v.o.hue) + a) % 360) + 1
RECURSIVE Repeat(_, _, _, _, _, _)
Repeat(acc, colour, way, e, step, divisions) ==
    LET more == Append(acc, colour) IN
    IF Len(more) < divisions /\ way \succeq (RInt(Len(more) + e) \otimes step)
    THEN Repeat(more, colour, way, e + 1, step, divisions) ELSE more
RECURSIVE Place(_, _, _, _, _, _)
Place(v, acc, a, total, step, divisions) ==
    IF Len(acc) >= divisions THEN acc ELSE
    LET b == IFirstAtLeast(total, RInt(Len(acc)) \otimes step, a + 1) IN
    IF b = 0 THEN acc \o [k \in 1..(divisions - Len(acc)) |-> v.circle[Index(v, 360)]]
    ELSE Place(v, Repeat(acc, v.circle[Index(v, b)], total[b], 1, step, divisions), b, total, step, divisions)
Divided(v, divisions, slack) ==
    LET rel == [k \in 1..361 |-> Rel(v, v.temps[k])]
        total == RPrefix([a \in 1..360 |-> RAbs(rel[Index(v, a)] \ominus rel[Index(v, a - 1)])])
        \* measured without the step that closes the circle
        step == (total[359] \oslash RInt(divisions)) \otimes slack
    IN Place(v, <<v.circle[IRound(v.o.hue) + 1]>>, 0, total, step, divisions)
\* `count` of them around the input: half before, half after
Analogous(v, count, divisions, slack) ==
    LET all == Divided(v, divisions, slack)
        n == Len(all)
        before == (count - 1) \div 2
    IN [k \in 1..count |-> IF k = before + 1 THEN v.input ELSE all[((k - before - 1) % n) + 1]]
Slacks == {R1, RLit("1.000000001"), RLit("0.999999999")}
=============================================================================
