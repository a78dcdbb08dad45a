------------------------------ MODULE Accuracy ------------------------------
(***************************************************************************)
(* Colour: what a destination sample may be, given the source picture.     *)
(* Tolerances are in 1/256 of a destination step.                          *)
(***************************************************************************)
EXTENDS Calls

Custom(mx) == mx = 6
Kr(e) == IF Custom(e.mx) THEN e.kr ELSE KrTab[e.mx + 1]
Kb(e) == IF Custom(e.mx) THEN e.kb ELSE KbTab[e.mx + 1]

\* Full scale of the destination.  Half floats hold 0..1: they are compared on the source's scale.
DFull(c, bd) == Pow2(IF c.dt = "f16" THEN SDep(c, bd) ELSE DDep(c, bd)) - 1

DecCoef(e, c) ==
  LET sd == SDep(c, e.bd)
      mo == DFull(c, e.bd)
      k  == DecodeCoef(Kr(e), Kb(e), sd, e.rg, mo)
  IN  IF c.mx = "kr" THEN (IF c.mode = 1 /\ e.md = 1 /\ c.sd = 8 THEN FastDecodeCoef(k) ELSE k)
      ELSE YcgcoDecodeCoef(sd, e.rg, mo)
\* The other coefficients an entry point may use: its samples lie between the two results (or near them)
DecCoef2(e, c, k) ==
  CASE c.mx = "kr" /\ c.sl = "y422" /\ c.sd = 8 -> CoarseDecodeCoef(k)
    [] c.mx = "kr" /\ c.dt # "f16" /\ DDep(c, e.bd) < SDep(c, e.bd) -> ShiftDecodeCoef(k, SDep(c, e.bd), DDep(c, e.bd))
    [] OTHER -> k
DecIdeal(c, k, y, u, v) ==
  CASE c.mx = "kr"    -> KrDecode(k, y, u, v)
    [] c.mx = "ycgco" -> YcgcoDecode(k, y, u, v)
    [] c.mx = "gbr"   -> GbrDecode(k, y, u, v)

\* half float (1/2^24) on the scale of depth sd, in 1/256
F16(x, sd) == x \div Pow2(16 - sd) - x \div 65536
\* R, G, B of a decoded pixel in 1/256 steps
RgbOf(e, c, m, r, i) ==
  IF c.dl = "ar30" THEN LET p == Pix30(r.d[1], c.dord, e.bo, i) IN <<256 * p[1], 256 * p[2], 256 * p[3]>>
  ELSE LET n == m[1][5]
           b == i * n + 1
           d == r.d[1]
       IN IF c.dt = "f16" THEN LET sd == SDep(c, e.bd)
                               IN <<F16(d[b + m[1][6]], sd), F16(d[b + m[2][6]], sd), F16(d[b + m[3][6]], sd)>>
          ELSE <<256 * d[b + m[1][6]], 256 * d[b + m[2][6]], 256 * d[b + m[3][6]]>>

\* Premultiplication of an ideal colour
Premul(p, a, m) == <<Scale(Max2(p[1],0), a, m), Scale(Max2(p[2],0), a, m), Scale(Max2(p[3],0), a, m)>>
ClipT(p, top) == <<Clip(p[1],0,top), Clip(p[2],0,top), Clip(p[3],0,top)>>

Least(p, q) == <<Min2(p[1], q[1]), Min2(p[2], q[2]), Min2(p[3], q[3])>>
Most(p, q) == <<Max2(p[1], q[1]), Max2(p[2], q[2]), Max2(p[3], q[3])>>

\* Every pixel of every result is within tol[k] of the ideal colour
DecodeOk(e, tol) ==
  LET c   == Cat(e)
      w   == e.w
      sd  == SDep(c, e.bd)
      k   == TLCEval(DecCoef(e, c))
      k2  == TLCEval(DecCoef2(e, c, k))
      two == k2 # k
      sc  == TLCEval(YuvComps(c.sl, c.ssub, c.sord, w))
      m   == TLCEval(IF c.dl = "ar30" THEN <<>> ELSE RgbComps(c.dl, c.dord, w))
      mid == Pow2(sd - 1)
      dv  == SDiv(c)
      be  == c.sbe
      top == 256 * DFull(c, e.bd)
      sm  == Pow2(sd) - 1
      hf  == c.dt = "f16"
      pm  == c.premul = 1 /\ e.pm = 1
      mono == sc[2][1] = 0
      plain == be = 0 /\ dv = 1
      S(q, x, y) == IF plain THEN e.src[q[1]][Cell(q, x, y)] ELSE Val(e.src[q[1]][Cell(q, x, y)], be, dv)
  IN  \A i \in 0 .. w * e.h - 1 :
        LET x == i % w
            y == i \div w
            Y == S(sc[1], x, y)
            U == IF mono THEN mid ELSE S(sc[2], x, y)
            V == IF mono THEN mid ELSE S(sc[3], x, y)
            a0 == DecIdeal(c, k, Y, U, V)
            b0 == IF Y < k[1] THEN DecIdeal(c, k, k[1], U, V) ELSE a0
            a1 == DecIdeal(c, k2, Y, U, V)
            b1 == IF Y < k[1] THEN DecIdeal(c, k2, k[1], U, V) ELSE a1
            p0 == IF two THEN Least(Least(a0, b0), Least(a1, b1)) ELSE a0
            q0 == IF two THEN Most(Most(a0, b0), Most(a1, b1)) ELSE b0
            A == IF pm THEN S(sc[4], x, y) ELSE 0
            p == IF pm THEN Premul(ClipT(p0, top), A, sm) ELSE p0
            q == IF pm THEN Premul(ClipT(q0, top), A, sm) ELSE q0
        IN  \A j \in 1..Len(e.res) :
              LET g == RgbOf(e, c, m, e.res[j], i)
                  t == tol[j]
              IN  \A ch \in 1..3 : Near(g[ch], p[ch], q[ch], top,
                                        IF hf THEN t + Clip(p[ch], 0, top) \div 1024
                                        ELSE IF ch = 2 \/ t < 600 THEN t ELSE t - t \div 5)   \* two products, not three

EncCoef(e, c) ==
  LET dd == DDep(c, e.bd)
      mi == Pow2(SDep(c, e.bd)) - 1
  IN  CASE c.mx = "kr"    -> EncodeCoef(Kr(e), Kb(e), dd, e.rg, mi)
        [] c.mx = "ycgco" -> YcgcoEncodeCoef(dd, e.rg, mi)
        [] c.mx = "gbr"   -> GbrEncodeCoef(dd, e.rg, mi)

\* Luma of every pixel within tol[j]
LumaOk(e, tol) ==
  LET c   == Cat(e)
      w   == e.w
      k   == TLCEval(EncCoef(e, c))
      m   == TLCEval(RgbComps(c.sl, c.sord, w))
      n   == m[1][5]
      dv  == DDiv(c)
      be  == c.dbe
      plain == be = 0 /\ dv = 1
      top == 256 * (Pow2(DDep(c, e.bd)) - 1)
      s   == e.src[1]
  IN  \A i \in 0 .. w * e.h - 1 :
        LET b == i * n + 1
            z == LumaOf(k, s[b + m[1][6]], s[b + m[2][6]], s[b + m[3][6]])
        IN  \A j \in 1..Len(e.res) :
              LET g == IF plain THEN e.res[j].d[1][i + 1] ELSE Val(e.res[j].d[1][i + 1], be, dv)
              IN  Near(256 * g, z, z, top, tol[j])

\* Chroma of every block within tol[j] of that of the mean of the block's pixels
ChromaOk(e, tol) ==
  LET c   == Cat(e)
      w   == e.w
      h   == e.h
      k   == TLCEval(EncCoef(e, c))
      m   == TLCEval(RgbComps(c.sl, c.sord, w))
      dc  == TLCEval(YuvComps(c.dl, c.dsub, c.dord, w))
      n   == m[1][5]
      bw  == SubH(c.dsub)
      bh  == SubV(c.dsub)
      cw  == ChromaW(c.dsub, w)
      ch  == ChromaH(c.dsub, h)
      dv  == DDiv(c)
      be  == c.dbe
      top == 256 * (Pow2(DDep(c, e.bd)) - 1)
      s   == e.src[1]
      At(o, x, y) == s[(y * w + x) * n + 1 + o]
  IN  \A i \in 0 .. cw * ch - 1 :
        LET x0 == (i % cw) * bw
            y0 == (i \div cw) * bh
            x1 == Min2(x0 + bw - 1, w - 1)
            y1 == Min2(y0 + bh - 1, h - 1)
            cnt == (x1 - x0 + 1) * (y1 - y0 + 1)
            Sum(o) == At(o, x0, y0) + (IF x1 > x0 THEN At(o, x1, y0) ELSE 0)
                      + (IF y1 > y0 THEN At(o, x0, y1) + (IF x1 > x0 THEN At(o, x1, y1) ELSE 0) ELSE 0)
            r == Sum(m[1][6])
            g == Sum(m[2][6])
            b == Sum(m[3][6])
            zu == CbOf(k, cnt, r, g, b)
            zv == CrOf(k, cnt, r, g, b)
        IN  \A j \in 1..Len(e.res) :
              LET d == e.res[j].d
                  u == Val(d[dc[2][1]][Cell(dc[2], x0, y0)], be, dv)
                  v == Val(d[dc[3][1]][Cell(dc[3], x0, y0)], be, dv)
              IN  Near(256 * u, zu, zu, top, tol[j]) /\ Near(256 * v, zv, zv, top, tol[j])
=============================================================================
