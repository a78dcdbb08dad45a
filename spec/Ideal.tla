------------------------------- MODULE Ideal -------------------------------
(***************************************************************************)
(* The library as a function: the outcome of one call with exact           *)
(* arithmetic and one rounding.  Props states what a call may do as a      *)
(* relation; Ideal is one library that does it.  The design model (Design) *)
(* composes it with the client machine.                                    *)
(***************************************************************************)
EXTENDS Props

Round256(z, top) == Clip((z + 128) \div 256, 0, top)
Stored(v, be, p2) == LET x == v * p2 IN IF be = 1 THEN Swap16(x) ELSE x

\* the pixel and component of the cell at (column col, row row) of plane p
CompOf(m, p, col) == m[1] = p /\ col >= m[6] /\ (col - m[6]) % m[5] = 0
\* plane p of shape sh, value V(component, x, y) in every cell that holds a component, else 0
PlaneOf(cs, p, sh, V(_, _, _)) ==
  [i \in 1 .. sh[1] * sh[2] |->
     LET col == (i - 1) % sh[1]
         row == (i - 1) \div sh[1]
         ns == {n \in 1..Len(cs) : cs[n][1] # 0 /\ CompOf(cs[n], p, col)}
         n == CHOOSE n \in ns : TRUE
         m == cs[n]
     IN  IF ns = {} THEN 0 ELSE V(n, ((col - m[6]) \div m[5]) * m[4], row * m[3])]

PackBytes(ord, p) ==
  LET c(a, b, d, t) == <<a % 256, a \div 256 + 4 * (b % 64), b \div 64 + 16 * (d % 16), d \div 16 + 64 * t>>
      e(a, b, d, t) == <<t + 4 * (a % 64), a \div 64 + 16 * (b % 16), b \div 16 + 64 * (d % 4), d \div 4>>
  IN  CASE ord = "ar30" -> c(p[1], p[2], p[3], p[4])
        [] ord = "ab30" -> c(p[3], p[2], p[1], p[4])
        [] ord = "ra30" -> e(p[3], p[2], p[1], p[4])
        [] ord = "ba30" -> e(p[1], p[2], p[3], p[4])
Plane30(ord, net, n, V(_)) ==   \* n pixels, V(i) = <<r, g, b, a>>
  [k \in 1 .. 4 * n |-> LET i == (k - 1) \div 4
                            j == (k - 1) % 4
                        IN  PackBytes(ord, V(i))[IF net = 1 THEN 4 - j ELSE j + 1]]

\* half float of z (1/256 of a step of depth sd), in 1/2^24
Half(z, sd) == z * Pow2(16 - sd) + (z * Pow2(16 - sd)) \div Pow2(sd) + (IF z = 256 * (Pow2(sd) - 1) THEN 256 \div Pow2(sd - 8) - (z * Pow2(16 - sd) + (z * Pow2(16 - sd)) \div Pow2(sd) + 256 \div Pow2(sd - 8) - 16777216) ELSE 0)

\* alpha of a source of depth sd at destination depth dd
AlphaTo(a, sd, dd) == a \div Pow2(sd - dd)

DecRgba(e, c, sc, k, x, y) ==
  LET sd == SDep(c, e.bd)
      mid == Pow2(sd - 1)
      S(n) == SrcAt(c, e, sc, n, x, y)
      mono == sc[2][1] = 0
      p == DecIdeal(c, k, S(1), IF mono THEN mid ELSE S(2), IF mono THEN mid ELSE S(3))
      top == 256 * DFull(c, e.bd)
      q == IF c.premul = 1 /\ e.pm = 1 THEN Premul(ClipT(p, top), S(4), Pow2(sd) - 1) ELSE ClipT(p, top)
      hf == c.dt = "f16"
      F(z) == IF hf THEN Half(z, sd) ELSE Round256(z, DFull(c, e.bd))
      a == IF sc[4][1] = 0 THEN Opaque(c, e.bd)
           ELSE IF hf THEN Half(256 * S(4), sd) ELSE AlphaTo(S(4), sd, DDep(c, e.bd))
  IN  <<F(q[1]), F(q[2]), F(q[3]), a>>

\* sum of component n over the block of `sub` that begins at (x, y); number of its pixels
BlockX(c, e, x) == Min2(x + SubH(c.dsub) - 1, e.w - 1)
BlockY(c, e, y) == Min2(y + SubV(c.dsub) - 1, e.h - 1)
BlockN(c, e, x, y) == (BlockX(c, e, x) - x + 1) * (BlockY(c, e, y) - y + 1)
BlockSum(c, e, sc, n, x, y) ==
  LET x1 == BlockX(c, e, x)
      y1 == BlockY(c, e, y)
      S(u, v) == SrcAt(c, e, sc, n, u, v)
  IN  S(x, y) + (IF x1 > x THEN S(x1, y) ELSE 0) + (IF y1 > y THEN S(x, y1) + (IF x1 > x THEN S(x1, y1) ELSE 0) ELSE 0)

\* linear-light mean of component n over the block at (x, y)
LightMean(c, e, sc, n, x, y) ==
  LET x1 == x + 1
      y1 == Min2(y + 1, e.h - 1)
      L(u, v) == Light(e.op, SrcAt(c, e, sc, n, u, v))
  IN  IF SubV(c.dsub) = 1
      THEN IF x1 < e.w THEN Sample(e.op, (12 * L(x, y) + 4 * L(x1, y) + 8) \div 16) ELSE SrcAt(c, e, sc, n, x, y)
      ELSE IF x1 < e.w THEN Sample(e.op, (9 * L(x, y) + 3 * L(x1, y) + 3 * L(x, y1) + L(x1, y1) + 8) \div 16)
           ELSE Sample(e.op, (12 * L(x, y) + 4 * L(x, y1) + 8) \div 16)

\* visible samples of the destination picture of the call e (with its source picture e.src)
Picture(e) ==
  LET c  == Cat(e)
      w  == e.w
      h  == e.h
      dh == DShapes(c, e.dw, e.dh)
      raw == c.fam \in {"rotate", "mirror", "tof16", "fromf16", "check", "alloc"}
      sc == TLCEval(IF raw \/ c.sl = "ar30" THEN <<>> ELSE SrcComps(c, e))
      dc == TLCEval(IF raw \/ c.dl = "ar30" THEN <<>> ELSE DstComps(c, e))
      dd == DDep(c, e.bd)
      sd == SDep(c, e.bd)
      S(n, x, y) == SrcAt(c, e, sc, n, x, y)
      Out(V(_, _, _)) == [p \in 1..Len(dh) |-> PlaneOf(dc, p, dh[p], LAMBDA n, x, y : Stored(V(n, x, y), c.dbe, DDiv(c)))]
  IN  CASE c.fam = "check" -> <<>>
        [] c.fam = "alloc" ->
             LET sh == AllocPlanes(c, e.dw, e.dh)
                 D(p, k) == IF p > Len(sh) THEN 0 ELSE IF k = 1 THEN sh[p][1] ELSE sh[p][1] * sh[p][2]
                 V(k) == IF PlanesOk(Exact, [p \in 1..Len(sh) |-> sh[p][1]], [p \in 1..Len(sh) |-> sh[p][1] * sh[p][2]],
                                     Shapes(c.sord, Subs[k], e.dw, e.dh)) THEN 1 ELSE 0
             IN  << <<e.dw, e.dh, D(1,1), D(1,2), D(2,1), D(2,2), D(3,1), D(3,2), V(1), V(2), V(3), V(1), V(2), V(3), 1, 1>> >>
        [] c.fam = "dec" ->
             LET k == TLCEval(DecCoef(e, c)) IN
             IF c.dl = "ar30" THEN << Plane30(c.dord, e.bo, w * h, LAMBDA i : DecRgba(e, c, sc, k, i % w, i \div w)) >>
             ELSE Out(LAMBDA n, x, y : DecRgba(e, c, sc, k, x, y)[n])
        [] c.fam = "enc" ->
             LET k == TLCEval(EncCoef(e, c))
                 top == Pow2(dd) - 1
                 B(n, x, y) == BlockSum(c, e, sc, n, x, y)
                 N(x, y) == BlockN(c, e, x, y)
             IN  Out(LAMBDA n, x, y :
                       Round256(CASE n = 1 -> LumaOf(k, S(1, x, y), S(2, x, y), S(3, x, y))
                                  [] n = 2 -> CbOf(k, N(x, y), B(1, x, y), B(2, x, y), B(3, x, y))
                                  [] n = 3 -> CrOf(k, N(x, y), B(1, x, y), B(2, x, y), B(3, x, y)), top))
        [] c.fam = "sharp" ->
             LET k == TLCEval(EncodeCoef(Kr(e), Kb(e), 8, e.rg, 255))
                 M(n, x, y) == LightMean(c, e, sc, n, x, y)
             IN  Out(LAMBDA n, x, y :
                       Round256(CASE n = 1 -> LumaOf(k, S(1, x, y), S(2, x, y), S(3, x, y))
                                  [] n = 2 -> CbOf(k, 1, M(1, x, y), M(2, x, y), M(3, x, y))
                                  [] n = 3 -> CrOf(k, 1, M(1, x, y), M(2, x, y), M(3, x, y)), 255))
        [] c.fam = "shuffle" -> Out(LAMBDA n, x, y : IF sc[n][1] # 0 THEN S(n, x, y) ELSE 255)
        [] c.fam = "pack" ->
             Out(LAMBDA n, x, y : IF n = 1 THEN (IF x < w THEN S(1, x, y) ELSE 0)
                                  ELSE IF c.ssub = 444 /\ x + 1 < w THEN RUp(S(n, x, y), S(n, x + 1, y)) ELSE S(n, x, y))
        [] c.fam = "unpack" -> Out(LAMBDA n, x, y : S(n, x, y))
        [] c.fam = "pk30" ->
             << Plane30(c.dord, e.bo, w * h, LAMBDA i :
                  LET V(n) == S(n, i % w, i \div w) IN
                  <<To10(V(1), c.sd), To10(V(2), c.sd), To10(V(3), c.sd), IF sc[4][1] # 0 THEN To2(V(4), c.sd) ELSE 3>>) >>
        [] c.fam = "unpk30" -> Out(LAMBDA n, x, y : IF n = 4 THEN 85 * S(4, x, y) ELSE S(n, x, y) \div 4)
        [] c.fam \in {"rotate", "mirror"} ->
             LET n == Channels(c.sl)
                 t == Elem(c, e.op)
             IN  << [i \in 1 .. n * e.dw * e.dh |->
                       LET q == From(t, e.dw, e.dh, ((i - 1) \div n) % e.dw, ((i - 1) \div n) \div e.dw)
                       IN  e.src[1][n * (q[2] * w + q[1]) + 1 + ((i - 1) % n)]] >>
        [] c.fam = "tof16" ->
             LET mx == Pow2(sd) - 1
                 q == TLCEval(Q24(1, mx))
             IN  << [i \in 1..Len(e.src[1]) |-> IF e.src[1][i] = mx THEN 16777216
                                                ELSE e.src[1][i] * q + (e.src[1][i] * (16777216 - q * mx)) \div mx] >>
        [] c.fam = "fromf16" ->
             << [i \in 1..Len(e.src[1]) |-> Round256(F16(e.src[1][i], dd), IF c.dt = "u8" THEN 255 ELSE 65535)] >>
        [] c.fam = "rdpenc" ->
             Out(LAMBDA n, x, y :
                   LET r == S(1, x, y)
                       g == S(2, x, y)
                       l == S(3, x, y)
                   IN  (CASE n = 1 -> (((299 * r + 587 * g + 114 * l) * 8192) \div 1000 - 1048576)
                          [] n = 2 -> (((500590 * l - 168935 * r - 331665 * g) \div 125) * 1024) \div 1000
                          [] n = 3 -> (((499813 * r - 418531 * g - 81282 * l) \div 125) * 1024) \div 1000) \div 256)
        [] c.fam = "rdpdec" ->
             LET MulS(x, k) == (x * (k \div 512)) \div 16 + (x * (k % 512)) \div 8192
             IN  Out(LAMBDA n, x, y :
                   LET yy == 8 * (S(1, x, y) + 4096)
                       u == S(2, x, y)
                       v == S(3, x, y)
                   IN  IF n = 4 THEN 255
                       ELSE Round256(CASE n = 1 -> yy + MulS(v, 91916)
                                       [] n = 2 -> yy - MulS(u, 22527) - MulS(v, 46819)
                                       [] n = 3 -> yy + MulS(u, 115993), 255))

\* the outcome: refuse what does not hold its picture, else write the picture and nothing else
Accepts1(e) == ~MustReject(e)
Outcome(e, names) ==
  LET sh == DShapes(Cat(e), e.dw, e.dh) IN
  IF ~Accepts1(e) THEN [b |-> names, v |-> "err", ft |-> [k \in 1..Len(e.ds) |-> <<>>], d |-> <<>>]
  ELSE [b |-> names, v |-> "ok", ft |-> [k \in 1..Len(sh) |-> VisibleRuns(e.ds[k], sh[k])], d |-> Picture(e)]
=============================================================================
