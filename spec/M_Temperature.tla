---------------------------- MODULE M_Temperature ----------------------------
(* Temperatures, complements and analogues as specified have the property C25 *)
(* on a set of input colours.                                                 *)
EXTENDS DesignBase, Temperature
Lev == <<0, 64, 128, 255>>
Colour(n) == IF n <= 64 THEN Pack(Lev[(n % 4) + 1], Lev[((n \div 4) % 4) + 1], Lev[((n \div 16) % 4) + 1])
             ELSE Pack((n * 37) % 256, (n * 101 + 11) % 256, (n * 197 + 60) % 256)
CasesC25 == 80
HoldsC25(n) ==
    LET c == Colour(n)
        v == View(c, Circle(c))
    IN /\ Chk("relative temperatures from 0 to 1", \A k \in 1..362 : RBetween(R0, Rel(v, v.temps[k]), R1))
       /\ Chk("there is a complement, and it balances the input",
              \E k \in 1..361 : IsComplement(v, v.circle[k]))
       /\ \A d \in {1, 3, 6, 12, 24} : LET l == Divided(v, d, R1) IN
            /\ Chk("as many as divisions", Len(l) = d)
            /\ Chk("all on the circle", \A k \in 1..d : \E q \in 1..361 : l[k] = v.circle[q])
       /\ \A m \in 1..7 : LET l == Analogous(v, m, 12, R1) IN
            Chk("the input in the middle", Len(l) = m /\ l[((m - 1) \div 2) + 1] = c)
       /\ Chk("raw temperatures are bounded", \A k \in 1..362 : RBetween(RLit("-9.7"), v.temps[k], RLit("8.7")))
=============================================================================
