----------------------------- MODULE M_HctObject -----------------------------
(* Behaviours of the mutable HCT object: all histories of Depth setter calls  *)
(* over a small set of colours and values.  TLC checks the promises on every  *)
(* step and prints every complete history; the harness replays them on the    *)
(* real object (C07).                                                         *)
EXTENDS HctObject, TLCExt
CONSTANT Depth
VARIABLES zCur, zPrev, zLast, zHist
vars == <<zCur, zPrev, zLast, zHist>>

Starts == {Pack(66, 133, 244), Pack(152, 64, 97), White, Black, Pack(255, 255, 0), Pack(119, 119, 119)}
Values == (HUE :> {"0", "120.25", "275"}) @@ (CHROMA :> {"0", "30.5", "150"}) @@ (TONE :> {"0", "35.5", "99"})

Init == zCur \in Starts /\ zPrev = zCur /\ zLast = <<0, "0">> /\ zHist = ToString(zCur)
Set(kind, v) ==
    /\ TLCGet("level") <= Depth
    /\ zCur' = AfterSet(zCur, kind, RLit(v))
    /\ zPrev' = zCur
    /\ zLast' = <<kind, v>>
    /\ zHist' = zHist \o " " \o ToString(kind) \o ":" \o v
Next == \E kind \in {HUE, CHROMA, TONE} : \E v \in Values[kind] : Set(kind, v)
Spec == Init /\ [][Next]_vars

Promises == zLast[1] # 0 =>
    /\ IsOpaque(zCur)
    /\ KeepsTone(zPrev, zLast[1], RLit(zLast[2]), zCur)
    /\ KeepsHue(zPrev, zLast[1], RLit(zLast[2]), zCur)
Emit == (TLCGet("level") = Depth + 1) => PrintT("HIST " \o zHist)
=============================================================================
