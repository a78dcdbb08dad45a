------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* One call of the library, as recorded at its return: an event `e` names  *)
(* the entry point (e.c indexes the catalogue), its scalar arguments, the  *)
(* description of every plane (strides e.ss/e.ds, lengths e.sl/e.dl), the  *)
(* visible samples of the source (e.src) and, for every distinguishable    *)
(* outcome r in e.res, the backends that produced it (r.b), the verdict    *)
(* (r.v), the destination cells written (r.ft) and the visible samples     *)
(* of the destination (r.d).                                               *)
(***************************************************************************)
EXTENDS Catalog, Colour, TLC

Cat(e) == Catalog[e.c]

\* Sample depths; some calls take them as an argument
SDep(c, bd) == IF c.sd = 0 \/ (c.fam = "tof16" /\ c.st = "u16") THEN bd ELSE c.sd
DDep(c, bd) == IF c.dd = 0 \/ (c.fam = "fromf16" /\ c.dt = "u16") THEN bd ELSE c.dd

\* Size of the destination picture
DSize(c, w, h, op) == IF c.fam = "rotate" /\ op # 1 THEN <<h, w>> ELSE <<w, h>>
SShapes(c, w, h) == Shapes(c.sl, c.ssub, w, h)
DShapes(c, w, h) == Shapes(c.dl, c.dsub, w, h)

\* Does the call receive the size of the picture with the destination too?
TwoSizes(c) == c.dl \in {"p3", "nv", "y", "y422"} /\ c.sl \in {"p3", "y422"}

Yuvs == {"p3", "p3a", "nv", "y", "ya", "y422", "p444"}
Comps(l, sub, ord, w) ==
  IF l \in Yuvs THEN YuvComps(l, sub, ord, w)
  ELSE RgbComps(l, IF ord = "" THEN "rgba" ELSE ord, w)

Swap16(v) == (v % 256) * 256 + v \div 256
\* stored bits -> sample value
Val(v, be, p2) == (IF be = 1 THEN Swap16(v) ELSE v) \div p2
SDiv(c) == IF c.smsb = 1 THEN Pow2(16 - c.sd) ELSE 1
DDiv(c) == IF c.dmsb = 1 THEN Pow2(16 - c.dd) ELSE 1

Pixels(e) == 0 .. e.w * e.h - 1

\* Undetermined, untouched or not finite samples have codes below every sample value
Defined(x) == x > -1999999990
Clean(r) == r.v = "ok" /\ \A k \in 1..Len(r.d) : \A i \in 1..Len(r.d[k]) : Defined(r.d[k][i])
RECURSIVE CountBackends(_, _)
CountBackends(res, k) == IF k > Len(res) THEN 0 ELSE Len(res[k].b) + CountBackends(res, k + 1)
AllClean(e) == \A k \in 1..Len(e.res) : Clean(e.res[k])

Near(g, a, b, top, t) ==
  LET x == Clip(a, 0, top)
      y == Clip(b, 0, top)
  IN  Min2(x, y) - t <= g /\ g <= Max2(x, y) + t

Has(s, x) == \E k \in 1..Len(s) : s[k] = x
=============================================================================
