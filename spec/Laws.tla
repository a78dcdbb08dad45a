-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of the specification's own building blocks, over every value of    *)
(* small domains: what the obligations of Props rest on.                   *)
(***************************************************************************)
EXTENDS Ideal

CONSTANTS Law,      \* which law
          N         \* size of the domain
VARIABLES v         \* a point of the domain, or a picture
Lays == { <<"p3", 420, "">>, <<"p3", 422, "">>, <<"p3", 444, "">>, <<"p3a", 420, "">>, <<"p3a", 422, "">>, <<"p3a", 444, "">>,
          <<"nv", 420, "uv">>, <<"nv", 420, "vu">>, <<"nv", 422, "uv">>, <<"nv", 422, "vu">>, <<"nv", 444, "uv">>, <<"nv", 444, "vu">>,
          <<"y", 444, "">>, <<"ya", 444, "">>, <<"y422", 422, "yuyv">>, <<"y422", 422, "uyvy">>, <<"y422", 422, "yvyu">>,
          <<"y422", 422, "vyuy">>, <<"p444", 444, "ayuv">>, <<"p444", 444, "vyua">>,
          <<"i3", 444, "rgb">>, <<"i3", 444, "bgr">>, <<"i4", 444, "rgba">>, <<"i4", 444, "bgra">>, <<"i4", 444, "argb">>, <<"i4", 444, "abgr">> }
Bytes == {0, 1, 4, 63, 64, 170, 192, 255} \union {b \in {2, 3, 15, 16, 127, 128, 240, 252} : N > 0}
Elems == {<<a, b, c>> : a, b, c \in BOOLEAN}
Pic(w, h) == [i \in 1 .. w * h |-> i]
Turn_(t, p) ==   \* p = <<w, h, cells>>
  LET dw == IF t[1] THEN p[2] ELSE p[1]
      dh == IF t[1] THEN p[1] ELSE p[2]
  IN  <<dw, dh, [i \in 1 .. dw * dh |-> LET q == From(t, dw, dh, (i - 1) % dw, (i - 1) \div dw) IN p[3][q[2] * p[1] + q[1] + 1]]>>
Gens == {Elem([fam |-> "rotate"], 0), Elem([fam |-> "rotate"], 1), Elem([fam |-> "rotate"], 2), Elem([fam |-> "mirror"], 0), Elem([fam |-> "mirror"], 1)}

Init ==
  CASE Law = "layout" -> v \in {<<l, w, h>> : l \in Lays, w \in 1..N, h \in 1..N}
    [] Law = "fits" -> v \in {<<st, ln, w, h>> : st \in 0 .. N + 2, ln \in 0 .. (N + 2) * N + 1, w \in 1..N, h \in 1..N}
    [] Law = "bits" -> v \in {<<o, a, b, c, d>> : o \in {"ar30", "ab30", "ra30", "ba30"}, a \in Bytes, b \in Bytes, c \in Bytes, d \in Bytes}
    [] Law = "turns" -> v \in {<<w, h, Pic(w, h), Ident, w, h>> : w \in 1..N, h \in 1..N}
    [] Law = "light" -> v \in {<<o, x>> : o \in 0 .. Len(GammaTab) - 1, x \in 0..255}
    [] Law = "colour" -> v \in {<<mx, rg, sd, r, g, b>> : mx \in 0..5, rg \in 0..1, sd \in {8, 10, 12, 16}, r, g, b \in 0..N}
    [] Law = "half" -> v \in {<<sd, x>> : sd \in {8, 10, 12, 16}, x \in 0..N}
\* the turns are a machine: any sequence of rotations and mirrorings
Next == /\ Law = "turns"
        /\ \E t \in Gens : LET p == Turn_(t, <<v[1], v[2], v[3]>>)
                           IN  v' = <<p[1], p[2], p[3], Compose(t, v[4]), v[5], v[6]>>
Spec == Init /\ [][Next]_v

\* The components of a layout occupy different cells, all inside their plane, and together all of it
\* but the second luma of an odd packed row
LayoutOk ==
  LET l == v[1]
      w == v[2]
      h == v[3]
      cs == Comps(l[1], l[2], l[3], w)
      sh == Shapes(l[1], l[2], w, h)
      Px == {<<x, y>> : x \in 0 .. w - 1, y \in 0 .. h - 1}
      At(n) == {<<cs[n][1], Cell(cs[n], p[1], p[2])>> : p \in Px}
      Ns == {n \in 1..4 : cs[n][1] # 0}
      all == UNION {At(n) : n \in Ns}
      room == UNION {{<<k, i>> : i \in 1 .. sh[k][1] * sh[k][2]} : k \in 1..Len(sh)}
      odd == IF l[1] = "y422" /\ w % 2 = 1 THEN {<<1, Cell(cs[1], w, y)>> : y \in 0 .. h - 1} ELSE {}
  IN  /\ all \union odd = room /\ all \intersect odd = {}
      /\ \A n \in Ns : \A m \in Ns \ {n} : At(n) \intersect At(m) = {}
      /\ \A n \in Ns : \A p, q \in Px :
           (Cell(cs[n], p[1], p[2]) = Cell(cs[n], q[1], q[2]))
             <=> (p[1] \div cs[n][4] = q[1] \div cs[n][4] /\ p[2] \div cs[n][3] = q[2] \div cs[n][3])
\* A description is admissible exactly if every visible cell lies in the buffer and rows do not overlap
FitsOk ==
  LET st == v[1]
      ln == v[2]
      w == v[3]
      h == v[4]
      Row(y) == {y * st + x : x \in 0 .. w - 1}
      inside == \A y \in 0 .. h - 1 : Row(y) \subseteq 0 .. ln - 1
      apart == \A y, z \in 0 .. h - 1 : y # z => Row(y) \intersect Row(z) = {}
  IN  /\ Fits(st, ln, <<w, h>>) => inside /\ apart
      /\ inside /\ apart /\ st >= w => Fits(st, ln, <<w, h>>)
      /\ Exact(st, ln, <<w, h>>) => Fits(st, ln, <<w, h>>)
      /\ Fits(st, ln, <<w, h>>) <=> FitsBig(st, ln, <<w, h>>)
      /\ OverPlane(st, ln, <<w, h>>) => ~TightPlane(st, ln, <<w, h>>)
      /\ Fits(st, ln, <<w, h>>) => Exact(st, ln, <<w, h>>) \/ OverPlane(st, ln, <<w, h>>) \/ TightPlane(st, ln, <<w, h>>)
\* Thirty bits: unpacking and packing are inverse; network order is the same bytes backwards
BitsOk ==
  LET u == Unpack30(v[1], v[2], v[3], v[4], v[5]) IN
  /\ PackBytes(v[1], u) = <<v[2], v[3], v[4], v[5]>>
  /\ \A k \in 1..3 : u[k] \in 0..1023
  /\ u[4] \in 0..3
  /\ Pix30(<<v[2], v[3], v[4], v[5]>>, v[1], 0, 0) = u /\ Pix30(<<v[5], v[4], v[3], v[2]>>, v[1], 1, 0) = u
\* Every sequence of turns is one element of the group of eight: applied at once it gives the same picture
TurnsOk ==
  LET one == Turn_(v[4], <<v[5], v[6], Pic(v[5], v[6])>>) IN
  /\ one = <<v[1], v[2], v[3]>>
  /\ {v[3][i] : i \in DOMAIN v[3]} = 1 .. v[5] * v[6]
  /\ v[4] \in Elems
\* A sample's light gives the sample back up to the truncation of the tables, and light never decreases
LightOk == /\ (v[2] >= 8 => Sample(v[1], Light(v[1], v[2])) \in v[2] - 1 .. v[2])
           /\ v[2] < 255 => Light(v[1], v[2]) <= GammaTab[v[1] + 1][v[2] + 2]
\* Encoding and decoding in exact arithmetic are inverse, grays have no chroma, white is the top, black the bottom
ColourOk ==
  LET sd == v[3]
      top == Pow2(sd) - 1
      S(x) == (x * top) \div N
      r == S(v[4])
      g == S(v[5])
      b == S(v[6])
      kr == KrTab[v[1] + 1]
      kb == KbTab[v[1] + 1]
      e == EncodeCoef(kr, kb, sd, v[2], top)
      d == DecodeCoef(kr, kb, sd, v[2], top)
      y == (LumaOf(e, r, g, b) + 128) \div 256
      u == (CbOf(e, 1, r, g, b) + 128) \div 256
      w == (CrOf(e, 1, r, g, b) + 128) \div 256
      p == KrDecode(d, y, u, w)
      rg == RangeOf(sd, v[2])
      yc == YcgcoEncodeCoef(sd, v[2], top)
      yd == YcgcoDecodeCoef(sd, v[2], top)
      q == YcgcoDecode(yd, (LumaOf(yc, r, g, b) + 128) \div 256, (CbOf(yc, 1, r, g, b) + 128) \div 256, (CrOf(yc, 1, r, g, b) + 128) \div 256)
      t == IF v[2] = 1 THEN 480 ELSE 520
      off == IF sd = 16 THEN 60 ELSE 8
  IN  /\ Abs(p[1] - 256 * r) <= t /\ Abs(p[2] - 256 * g) <= t /\ Abs(p[3] - 256 * b) <= t
      /\ Abs(q[1] - 256 * r) <= t /\ Abs(q[2] - 256 * g) <= t /\ Abs(q[3] - 256 * b) <= t
      /\ r = g /\ g = b => u = rg[2] /\ w = rg[2]
      /\ r = top /\ g = top /\ b = top => Abs(LumaOf(e, r, g, b) - 256 * (rg[1] + rg[3])) <= off
      /\ y \in rg[1] .. rg[1] + rg[3]
\* The recording of half floats: the sample's own float reads back as the sample
HalfLaw == LET m == Pow2(v[1]) - 1
               x == (v[2] * m) \div N
           IN  Abs(F16(Half(256 * x, v[1]), v[1]) - 256 * x) <= 2 /\ (x = m => Half(256 * x, v[1]) = 16777216) /\ Half(0, v[1]) = 0
Ok == CASE Law = "layout" -> LayoutOk [] Law = "fits" -> FitsOk [] Law = "bits" -> BitsOk [] Law = "turns" -> TurnsOk
        [] Law = "light" -> LightOk [] Law = "colour" -> ColourOk [] Law = "half" -> HalfLaw
=============================================================================
