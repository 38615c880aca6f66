------------------------------- MODULE M_Score -------------------------------
(* Scoring as specified has the property C24 on a family of tables.           *)
EXTENDS DesignBase, Score
Paint == << Pack(200, 30, 30), Pack(210, 120, 20), Pack(120, 130, 128), Pack(20, 160, 60), Pack(30, 60, 220),
            Pack(150, 40, 170), Pack(190, 60, 40) >>
Use == <<0, 1, 60>>
Table(n) == LET d(k) == (n \div (3 ^ (k - 1))) % 3 IN SelectSeq([k \in 1..7 |-> k], LAMBDA k : d(k) > 0)
Uses(n) == LET t == Table(n) IN [q \in DOMAIN t |-> Use[((n \div (3 ^ (t[q] - 1))) % 3) + 1]]
Wanted(n) == ((n \div 2187) % 4) + 1
CasesC24 == 4 * 2187
HoldsC24(n) ==
    LET m == n % 2187
        t == Table(m)
        known == Known([q \in DOMAIN t |-> Paint[t[q]]], Uses(m))
        out(f) == Chosen(known, Wanted(n), Google, f)
    IN IF t = <<>> THEN Chk("the fallback", out(TRUE) = <<Google>>)
       ELSE /\ Chk("filtered", AnswerLaw(known, Wanted(n), Google, TRUE, out(TRUE)))
            /\ Chk("all", AnswerLaw(known, Wanted(n), Google, FALSE, out(FALSE)))
            /\ Chk("fallback only if none fits", (out(TRUE) = <<Google>>) = (\A k \in DOMAIN known : ~known[k].fit))
            /\ Chk("no spread wider than the one chosen gives enough",
                   LET r == Ranked(Candidates(known, TRUE))
                   IN \A d \in {90, 60, 30} : Len(Spread(r, 1, d, Wanted(n), <<>>)) = Wanted(n) => Len(out(TRUE)) = Wanted(n))
=============================================================================
