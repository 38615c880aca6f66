---------------------------- MODULE T_Temperature ----------------------------
(* Conformance of colour temperature (C25).                                   *)
EXTENDS TraceBase, Temperature
Eps == RLit("1e-6")
InCircle(v, c) == c = v.input \/ \E k \in 1..361 : v.circle[k] = c
Nondecreasing(t) == \A k \in 1..(Len(t) - 1) : t[k] \preceq (t[k + 1] \oplus RLit("1e-9"))
\* the answers of a cache, in whatever order they were asked for
Answer(v, q, a) ==
    CASE q = "warmest" -> Chk("the warmest", InCircle(v, a[1]) /\ Near(RawTemp(a[1]), v.cold \oplus v.range, RLit("1e-9")))
      [] q = "coldest" -> Chk("the coldest", InCircle(v, a[1]) /\ Near(RawTemp(a[1]), v.cold, RLit("1e-9")))
      [] q = "complement" -> Chk("the complement", IsComplement(v, a[1]))
      [] q = "hues" -> Chk("the circle of hues", a = v.circle)
      [] q = "order" -> /\ Chk("ordered by temperature", Len(a) = 362 /\ Nondecreasing([k \in 1..362 |-> RawTemp(a[k])]))
                        /\ Chk("the circle and the input", {a[k] : k \in 1..362} = {v.circle[k] : k \in 1..361} \cup {v.input})
      [] OTHER -> TRUE
AcceptC25(e) ==
    CASE e.op = "raw" -> Chk("raw temperature", Near(e.t, RawTemp(e.argb), Eps))
      [] e.op = "between" -> Chk("between two angles", e.yes = IsBetween(e.x, e.a, e.b))
      [] e.op = "temp" ->
           LET v == View(e.argb, e.circle)
               o == v.o
           IN /\ Chk("a circle has 361 hues", Len(e.circle) = 361 /\ e.circle[361] = e.circle[1])
              /\ \A k \in {1, 2, 45, 90, 123, 180, 222, 270, 300, 345, 360, 361} :
                   Chk("colours of the circle: chroma and tone of the input", Solved(e.circle[k], RInt(k - 1), o.chroma, o.tone))
              /\ Answer(v, "warmest", <<e.warmest>>)
              /\ Answer(v, "coldest", <<e.coldest>>)
              /\ Answer(v, "complement", <<e.complement>>)
              /\ Chk("the input's relative temperature", Near(e.rel, InputRel(v), Eps) /\ RBetween(R0, e.rel, R1))
              /\ Chk("relative temperatures", \A k \in DOMAIN e.rels :
                     Near(e.rels[k], Rel(v, v.temps[e.at[k] + 1]), Eps) /\ RBetween(R0, e.rels[k], R1))
              /\ Chk("temperatures by colour", Len(e.temps) = 362 /\ \A k \in 1..362 : Near(e.temps[k], v.temps[k], Eps))
              /\ Answer(v, "order", e.order)
              /\ \A k \in DOMAIN e.analogues : LET q == e.analogues[k] IN
                   /\ Chk("as many analogues as asked for", Len(q.list) = q.count)
                   /\ Chk("the input among them", q.list[((q.count - 1) \div 2) + 1] = e.argb)
                   /\ Chk("evenly spaced in temperature", \E s \in Slacks : q.list = Analogous(v, q.count, q.divisions, s))
      [] e.op = "order" ->     \* questions in some order, answers compared with those of fresh caches
           /\ \A k \in DOMAIN e.obs :
                /\ Chk("the answer does not depend on earlier questions", e.obs[k].c = e.obs[k].freshc /\ e.obs[k].r = e.obs[k].freshr)
                /\ Chk("the question was asked", e.obs[k].q = e.questions[k])
           /\ LET v == View(e.argb, e.circle) IN \A k \in DOMAIN e.obs : Answer(v, e.obs[k].q, e.obs[k].c)
      [] OTHER -> Chk("known operation", FALSE)
=============================================================================
