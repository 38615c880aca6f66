------------------------------ MODULE M_Pipeline ------------------------------
(* The pipeline as a state machine (C30): an image is painted, quantized,     *)
(* ranked, one of the ranked colours is picked and a theme is built.  At each *)
(* stage the choices are open; the promises hold at every stage.              *)
EXTENDS Pipeline
CONSTANTS Colours, Modes
Paint == << Pack(200, 30, 30), Pack(128, 128, 128), Pack(204, 28, 26), Pack(20, 160, 60), Pack(0, 0, 0), Pack(30, 60, 220) >>
VARIABLES zStage, zImage, zWant, zTable, zRanked, zTheme
vars == <<zStage, zImage, zWant, zTable, zRanked, zTheme>>
Blank == <<>>
Init == /\ zStage = "painted"
        /\ zImage \in {[k \in DOMAIN im |-> Paint[im[k]]] : im \in UNION {[1..n -> 1..Colours] : n \in 1..3}}
        /\ zWant \in {1, 2, 8}
        /\ zTable = Blank /\ zRanked = Blank /\ zTheme = Blank
QuantizeStep == /\ zStage = "painted"
                /\ zStage' = "quantized"
                /\ \E st \in Starts(zImage, zWant) : zTable' = QuantizedFrom(zImage, zWant, st)
                /\ UNCHANGED <<zImage, zWant, zRanked, zTheme>>
RankStep == /\ zStage = "quantized"
            /\ zStage' = "ranked"
            /\ zRanked' = Rank!Chosen(Rank!Known(zTable.cols, zTable.counts), 4, Rank!Google, TRUE)
            \* where an image came from no longer matters
            /\ zImage' = Blank /\ zWant' = 0
            /\ UNCHANGED <<zTable, zTheme>>
ThemeStep == /\ zStage = "ranked"
             /\ zStage' = "themed"
             /\ \E m \in 1..Modes : \E k \in DOMAIN zRanked :
                  zTheme' = ThemeOf(Variants[((m + k) % 9) + 1], zRanked[k], m % 2 = 0,
                                    RLit(<<"-1", "0", "0.5", "1">>[(m % 4) + 1]), zRanked[1])
             /\ zRanked' = Blank /\ zTable' = Blank
             /\ UNCHANGED <<zImage, zWant>>
Next == QuantizeStep \/ RankStep \/ ThemeStep
TableLaw == zStage = "quantized" =>
    /\ Total(zTable.counts) = Len(zImage)
    /\ Len(zTable.cols) \in 1..zWant
    /\ \A k \in DOMAIN zTable.cols : IsOpaque(zTable.cols[k]) /\ zTable.counts[k] >= 1
RankLaw == zStage = "ranked" =>
    /\ Len(zRanked) \in 1..4
    /\ zRanked = <<Rank!Google>> \/ Range(zRanked) \subseteq Range(zTable.cols)
ThemeLaw == zStage = "themed" =>
    LET ts == Tones(zTheme) IN
    /\ \A nm \in DOMAIN ts : RBetween(R0, ts[nm], R100)
    /\ ContrastLaw(zTheme, LAMBDA nm : ts[nm])
    /\ RolePairLaw(zTheme, LAMBDA nm : ts[nm])
=============================================================================
