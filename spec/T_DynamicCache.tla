---------------------------- MODULE T_DynamicCache ----------------------------
(* C17: recorded histories of real dynamic colours.  The abstract state is    *)
(* what has been answered so far, per scheme.                                 *)
EXTENDS HistBase, ColorMath
StartC17(e) == [asked |-> [x \in {} |-> 0], cleared |-> 0]
StartOkC17(e) ==
    /\ Chk("different schemes are not equal", \A k \in DOMAIN e.same : e.same[k] = 0)
    /\ Chk("a scheme equals its clone and its twin", e.again)
    /\ Chk("an equal scheme hashes the same", e.like)
StepsC17(e) == Len(e.order)
AfterC17(s, e, k) ==
    LET x == e.order[k] IN
    [s EXCEPT !.asked = [y \in (DOMAIN @) \cup {x} |-> IF y = x THEN <<e.obs[k].c, e.obs[k].t>> ELSE @[y]]]
StepOkC17(s, e, k) ==
    LET o == e.obs[k]
        x == e.order[k]
    IN /\ Chk("the answer does not depend on earlier questions", o.c = o.fresh)
       /\ Chk("the scheme gives the same colour", o.getter = o.fresh)
       /\ Chk("asked again, answered the same", x \in DOMAIN s.asked => s.asked[x][1] = o.c /\ REq(s.asked[x][2], o.t))
       /\ Chk("the colour has the tone", IsOpaque(o.c) /\ Near(LstarFromArgb(o.c), o.t, RLit("0.5")))
=============================================================================
