------------------------------ MODULE DesignBase ------------------------------
(* Checks a predicate of the specification itself on every case of a finite    *)
(* family.  Cases are numbered 1..NumCases; each is a state of its own, so    *)
(* TLC's workers share them.  `Holds` is bound in the property's .cfg.        *)
EXTENDS Integers, TLC
CONSTANTS NumCases, Holds(_)
VARIABLES zBlock, zCase
dvars == <<zBlock, zCase>>
Blocks == 64
\* a clause of a property; a false clause says which one it is
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"CLAUSE", name>>) /\ FALSE
DInit == zBlock \in 0..(Blocks - 1) /\ zCase = 0
DNext == /\ zCase = 0
         /\ zCase' \in {k \in 1..NumCases : k % Blocks = zBlock}
         /\ UNCHANGED zBlock
Property == zCase # 0 => Holds(zCase)
=============================================================================
