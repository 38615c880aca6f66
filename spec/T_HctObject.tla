----------------------------- MODULE T_HctObject -----------------------------
(* C07: recorded histories of the real object against HctObject.  State: the  *)
(* history being replayed, the position in it, the object's colour.           *)
EXTENDS HctObject, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES zHist, zPos, zCur, zOk
vars == <<zHist, zPos, zCur, zOk>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"CLAUSE", name>>) /\ FALSE
Eps == RLit("1e-6")

\* what may be observed of an object whose colour is c
Observed(o, c) ==
    LET k == HctOf(c) IN
    /\ Chk("reported hue is the colour's", DiffDeg(o.oh, k.hue) \otimes RMin(R1, k.chroma) \preceq Eps)
    /\ Chk("hue in [0, 360)", R0 \preceq o.oh /\ o.oh \prec R360)
    /\ Chk("reported chroma is the colour's", NearRel(o.oc, k.chroma, Eps))
    /\ Chk("reported tone is the colour's", Near(o.ot, k.tone, Eps))
    /\ Chk("equal to, and hashing as, a fresh object of that colour", o.eqfresh)
    /\ Chk("text form", o.text = HctText([hue |-> o.oh, chroma |-> o.oc, tone |-> o.ot]))

Bad(e) == "panic" \in DOMAIN e \/ e.op # "setters"
Init == /\ zHist \in 1..N
        /\ zPos = 0
        /\ IF Bad(Trace[zHist]) THEN zCur = 0 /\ zOk = Chk("the call returns", FALSE)
           ELSE /\ zCur = Trace[zHist].start
                /\ zOk = (/\ Chk("starts as given", Trace[zHist].obs[1].argb = Trace[zHist].start)
                         /\ Observed(Trace[zHist].obs[1], Trace[zHist].start))
Step == /\ zOk
        /\ zPos < Len(Trace[zHist].kinds)
        /\ LET e == Trace[zHist]
               kind == e.kinds[zPos + 1]
               v == e.vals[zPos + 1]
               o == e.obs[zPos + 2]
           IN /\ zCur' = o.argb
              /\ zOk' = (/\ Chk("the setter moves to the colour the solver finds", MayBecome(zCur, kind, v, o.argb))
                        /\ Chk("tone kept or set", KeepsTone(zCur, kind, v, o.argb))
                        /\ Chk("hue kept or set", KeepsHue(zCur, kind, v, o.argb))
                        /\ Observed(o, o.argb)
                        /\ Chk("an earlier clone does not move", o.was = zCur)
                        /\ Chk("equality is colour equality", o.eqwas = (o.argb = zCur))
                        /\ Chk("equality with the start", o.eqfirst = (o.argb = e.start)))
        /\ zPos' = zPos + 1
        /\ UNCHANGED zHist
Spec == Init /\ [][Step]_vars
Conforms == zOk
=============================================================================
