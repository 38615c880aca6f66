-------------------------- MODULE TemperatureCache --------------------------
(* The temperature cache as the implementation builds it: parts are computed  *)
(* when first needed and kept.  `filled` is the set of parts already kept.    *)
(* The promise: no question finds a part it needs missing, so the answers do  *)
(* not depend on the questions asked before.                                  *)
EXTENDS Integers, Sequences, TLC
Parts == {"hues", "temps", "order", "input", "complement"}
\* what each part is computed from
From == [hues |-> {}, temps |-> {"hues"}, order |-> {"hues", "temps"}, input |-> {"order", "temps"},
         complement |-> {"order", "temps", "hues", "input"}]
RECURSIVE Fill(_, _)
Fill(filled, p) == IF p \in filled THEN filled
                   ELSE LET RECURSIVE all(_, _)
                            all(f, s) == IF s = {} THEN f ELSE LET q == CHOOSE q \in s : TRUE IN all(Fill(f, q), s \ {q})
                        IN all(filled, From[p]) \cup {p}
\* questions and the parts they read
Questions == [warmest |-> {"order"}, coldest |-> {"order"}, analogous |-> {"hues", "temps", "order"},
              complement |-> {"complement"}, relative |-> {"temps", "order"}, input |-> {"input"},
              order |-> {"order"}, temps |-> {"temps"}, hues |-> {"hues"}]
RECURSIVE FillAll(_, _)
FillAll(f, s) == IF s = {} THEN f ELSE LET q == CHOOSE q \in s : TRUE IN FillAll(Fill(f, q), s \ {q})
Asked(filled, q) == FillAll(filled, Questions[q])
=============================================================================
