---------------------------- MODULE PaletteObject ----------------------------
(* The palette as the implementation builds it: an object with a cache of     *)
(* colours already computed.  Two copies of the object may exist (a clone is  *)
(* independent of its original).  The promise: whatever was asked before, the *)
(* answer is the colour the palette has at that tone.                         *)
EXTENDS Palettes

\* st = [pal, caches: <<cache of the original, cache of the clone>>, cloned]
Fresh(p) == [pal |-> p, cloned |-> FALSE,
             caches |-> << IF p.given = <<>> THEN <<>> ELSE [t \in CommonSet |-> p.given[IndexOfTone(t)]], <<>> >>]
\* an operation [op, who, tone]; who = 1 original, 2 clone
GET == 1       \* colour at a whole tone
HCT == 2       \* HCT colour at a real tone
LIST == 3      \* colours at the common tones
CLONE == 4     \* clone the original
TEXT == 5      \* text form
Lookup(st, who, tone) ==     \* answer of the implementation for a real tone
    IF IsWhole(tone) /\ IRound(tone) \in DOMAIN st.caches[who]
    THEN st.caches[who][IRound(tone)] ELSE Solve(st.pal.hue, st.pal.chroma, tone)
Insert(st, who, tones) ==
    [st EXCEPT !.caches[who] = [t \in (DOMAIN @) \cup tones |->
        IF t \in DOMAIN @ THEN @[t] ELSE Solve(st.pal.hue, st.pal.chroma, RInt(t))]]
AfterOp(st, op, who, tone) ==
    CASE op = GET   -> Insert(st, who, {IRound(tone)})
      [] op = LIST  -> Insert(st, who, CommonSet)
      [] op = CLONE -> [st EXCEPT !.cloned = TRUE, !.caches[2] = st.caches[1]]
      [] OTHER      -> st
\* the cache only ever holds the palette's own colours
CacheSound(st) == \A w \in 1..2 : \A t \in DOMAIN st.caches[w] : st.caches[w][t] = ColourAt(st.pal, RInt(t))
=============================================================================
