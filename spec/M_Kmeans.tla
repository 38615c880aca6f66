------------------------------- MODULE M_Kmeans -------------------------------
(* K-means as a state machine: an image and starting clusters are chosen      *)
(* (any distinct pixels of the image, which is how missing clusters are       *)
(* filled up; or any two given colours), then rounds are run one after the    *)
(* other.  Whatever was chosen: nothing is lost, rounds never make the result *)
(* worse, and a finished run stays as it is.                                  *)
EXTENDS Quantize
CONSTANTS Colours, Rounds
Paint == << Pack(0, 0, 0), Pack(250, 10, 10), Pack(253, 8, 12), Pack(20, 200, 40), Pack(128, 128, 128),
            Pack(255, 255, 255), Pack(10, 20, 240), Pack(120, 130, 128) >>
VARIABLES zRun, zCost, zSize
Images == UNION {[1..n -> 1..Colours] : n \in 1..4}
Init == \E im \in Images :
          LET s == [k \in DOMAIN im |-> Paint[im[k]]]
              u == Distinct(s)
          IN \E k \in 1..Len(u) : \E f \in [1..k -> DOMAIN u] :
               /\ \A a, b \in 1..k : a < b => f[a] # f[b]
               /\ \A a \in 1..(Len(im) - 1) : im[a] <= im[a + 1] + 2
               /\ zRun = KStart(s, k, [j \in 1..k |-> u[f[j]]])
               /\ zCost = RLit("1e9")
               /\ zSize = Len(s)
Next == /\ ~zRun.done
        /\ zRun.round < Rounds
        /\ zRun' = KStep(zRun)
        /\ zCost' = (IF zRun.round = 0 THEN RLit("1e9") ELSE Cost(zRun))
        /\ UNCHANGED zSize
NothingLost == Total(zRun.cnt) = zSize /\ \A i \in DOMAIN zRun.of : zRun.of[i] \in DOMAIN zRun.cl
NeverWorse == zRun.round > 0 => Cost(zRun) \preceq (zCost \oplus RLit("1e-9"))
MeansOnly == zRun.round > 0 => \A j \in DOMAIN zRun.cl :
               zRun.cl[j] = Origin \/ Dist(zRun.cl[j], Centre(zRun, zRun.of, j)) \preceq RLit("1e-12")
=============================================================================
