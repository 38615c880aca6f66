-------------------------------- MODULE T_Hct --------------------------------
(* Conformance of colour coordinates (C04), viewing conditions (C05) and the  *)
(* HCT solver (C06) with the specification.                                   *)
EXTENDS TraceBase, Hct

Eps == RLit("1e-6")
\* hue loses its meaning as chroma vanishes
HueNear(a, b, chroma) == DiffDeg(a, b) \otimes RMin(R1, chroma) \preceq Eps
CamNear(e, k) ==
    /\ Chk("hue as in the model", HueNear(e.hue, k.hue, k.chroma))
    /\ Chk("chroma as in the model", NearRel(e.chroma, k.chroma, Eps))
    /\ Chk("lightness J as in the model", NearRel(e.j, k.j, Eps))
    /\ Chk("brightness Q as in the model", NearRel(e.q, k.q, Eps))
    /\ Chk("colourfulness M as in the model", NearRel(e.m, k.m, Eps))
    /\ Chk("saturation s as in the model", NearRel(e.s, k.s, Eps))
    /\ Chk("UCS J* as in the model", NearRel(e.jstar, k.jstar, Eps))
    /\ Chk("UCS a* as in the model", NearRel(e.astar, k.astar, Eps))
    /\ Chk("UCS b* as in the model", NearRel(e.bstar, k.bstar, Eps))

\* ------------------------------------------------------------------- C04
WellFormed(e) ==
    /\ Chk("hue in [0, 360)", R0 \preceq e.hue /\ e.hue \prec R360)
    /\ Chk("chroma is not negative", R0 \preceq e.chroma)
    /\ Chk("lightness in 0..100", RBetween(R0, e.j, RLit("100.000001")))
    /\ Chk("all correlates finite", RFinite(e.q) /\ RFinite(e.m) /\ RFinite(e.s) /\ RFinite(e.jstar)
                                    /\ RFinite(e.astar) /\ RFinite(e.bstar))
AcceptC04(e) ==
    CASE e.op = "coords" ->
           /\ WellFormed(e)
           /\ CamNear(e, Cam(e.argb))
           /\ Chk("colour -> CAM16 -> colour is the identity", e.back = e.argb)
           /\ Chk("colour -> HCT -> colour is the identity", e.hint = e.argb)
           /\ Chk("colour -> CAM16-UCS -> colour is the identity", e.ub = e.argb)
           /\ Chk("colour -> JCH -> colour is the identity", e.jb = e.argb)
           /\ Chk("HCT hue is the CAM16 hue", REq(e.hh, e.hue))
           /\ Chk("HCT chroma is the CAM16 chroma", REq(e.hc, e.chroma))
           /\ Chk("HCT tone is L*", Near(e.ht, LstarFromArgb(e.argb), Eps))
           /\ Chk("tone in 0..100", RBetween(RLit("-1e-9"), e.ht, RLit("100.000001")))
      [] e.op = "jch" -> /\ CamNear(e, FromJCH(e.ij, e.ic, e.ih, DefaultVC))
                         /\ Chk("JCH to colour", ShownIn(e.argb, e.ij, e.ic, e.ih, DefaultVC))
      [] e.op = "ucs" -> LET k == FromUcs(e.ij, e.ia, e.ib, DefaultVC) IN
                         /\ CamNear(e, k)
                         /\ Chk("hue in [0, 360)", R0 \preceq e.hue /\ e.hue \prec R360)
                         /\ Chk("UCS to colour", ShownIn(e.argb, k.j, k.chroma, k.hue, DefaultVC))
      [] e.op = "dist" -> /\ Chk("distance is symmetric", REq(e.d, e.e))
                          /\ Chk("distance is zero exactly for equal colours", (e.a = e.b) <=> REq(e.d, R0))
                          /\ Chk("distance as in CAM16-UCS", NearRel(e.d, UcsDistance(Cam(e.a), Cam(e.b)), Eps))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C05
VcNear(e, v) ==
    /\ Chk("n", NearRel(e.n, v.n, Eps)) /\ Chk("aw", NearRel(e.aw, v.aw, Eps))
    /\ Chk("nbb", NearRel(e.nbb, v.nbb, Eps)) /\ Chk("ncb", NearRel(e.ncb, v.ncb, Eps))
    /\ Chk("c", NearRel(e.c, v.c, Eps)) /\ Chk("nc", NearRel(e.nc, v.nc, Eps))
    /\ Chk("fl", NearRel(e.fl, v.fl, Eps)) /\ Chk("flroot", NearRel(e.flroot, v.flroot, Eps))
    /\ Chk("z", NearRel(e.z, v.z, Eps))
    /\ Chk("degree of adaptation", \A k \in 1..3 : NearRel(e.rgbd[k], v.rgbd[k], Eps))
\* a non-positive adapting luminance stands for the default one
VcOf(e) == MakeVC(e.wp, IF e.al \succ R0 THEN e.al ELSE DefaultAL, e.bg, e.sur, e.disc)
Recast(c, vc) ==   \* seen under vc, expressed as HCT under the default conditions
    LET k == Cam(c)
        xyz == XyzOf(k.j, k.chroma, k.hue, vc)
        d == FromXyz(xyz, DefaultVC)
    IN [hue |-> d.hue, chroma |-> d.chroma, tone |-> LstarFromY(xyz[2])]
AcceptC05(e) ==
    CASE e.op = "dvc" -> VcNear(e, DefaultVC)
      [] e.op = "vc"  -> VcNear(e, VcOf(e))
      [] e.op = "seen" ->
           LET v == VcOf(e)
               k == Cam(e.argb)
           IN /\ CamNear(e, CamIn(e.argb, v))
              /\ Chk("seen and shown under the same conditions is the identity", e.back = e.argb)
              /\ Chk("UCS under the same conditions is the identity", e.ub = e.argb)
              /\ Chk("XYZ under given conditions",
                     LET xyz == XyzOf(k.j, k.chroma, k.hue, v) IN \A q \in 1..3 : NearRel(e.xyz[q], xyz[q], Eps))
              /\ Chk("shown under given conditions", ShownIn(e.viewed, k.j, k.chroma, k.hue, v))
              /\ Chk("recast colour", LET r == Recast(e.argb, v) IN Solved(e.recast, r.hue, r.chroma, r.tone))
      [] e.op = "stimulus" ->   \* an XYZ stimulus, not necessarily that of an 8-bit colour
           LET v == VcOf(e) IN
           /\ Chk("hue in [0, 360)", R0 \preceq e.hue /\ e.hue \prec R360)
           /\ CamNear(e, FromXyz(e.in, v))
           /\ Chk("seen and shown under the same conditions is the same stimulus",
                  \A q \in 1..3 : Near(e.xyz[q], e.in[q], RLit("1e-4")))
      [] e.op = "jchin" ->
           LET v == VcOf(e) IN
           /\ CamNear(e, FromJCH(e.ij, e.ic, e.ih, v))
           /\ Chk("shown under given conditions", ShownIn(e.argb, e.ij, e.ic, e.ih, v))
      [] OTHER -> Chk("known operation", FALSE)

\* ------------------------------------------------------------------- C06
\* What a user may expect of the answer to a request (h, c, t), given the
\* coordinates o of the answer.
Tone(t) == RClamp(R0, R100, t)
GoodAnswer(h, c, t, o) ==
    /\ Chk("tone as requested", Near(o.tone, Tone(t), RLit("0.5")))
    /\ Chk("hue as requested",
           (RBetween(RLit("10"), t, RLit("95")) /\ o.chroma \succeq RLit("16") /\ ~IsGrayRequest(c, t))
           => DiffDeg(o.hue, SanitizeDeg(h)) \preceq RLit("4"))
    /\ Chk("chroma never much above the request",
           RBetween(RLit("6"), t, RLit("98")) => o.chroma \preceq (c \oplus RLit("3")))
    /\ Chk("no chroma requested, grey returned", IsGrayRequest(c, t) => IsGray(o.argb))
AcceptC06(e) ==
    CASE e.op = "solve" ->
           LET o == [argb |-> e.argb, hue |-> e.oh, chroma |-> e.oc, tone |-> e.ot]
               k == HctOf(e.argb)
           IN /\ Chk("an opaque colour", IsOpaque(e.argb))
              /\ GoodAnswer(e.h, e.c, e.t, o)
              /\ Chk("reported hue is the colour's", HueNear(e.oh, k.hue, k.chroma))
              /\ Chk("reported chroma is the colour's", NearRel(e.oc, k.chroma, Eps))
              /\ Chk("reported tone is the colour's", Near(e.ot, k.tone, Eps))
              /\ Chk("the colour the reference solver finds", Solved(e.argb, e.h, e.c, e.t))
      [] OTHER -> Chk("known operation", FALSE)
=============================================================================
