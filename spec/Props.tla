------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, as obligations on recorded calls.                       *)
(*                                                                         *)
(* Holds(P, e, past): the call e, made after the calls `past` of the same  *)
(* chain (the first is the chain's original), does what property P says.   *)
(***************************************************************************)
EXTENDS Accuracy, Gamma

----------------------------------------------------------------------------
\* C01  Admission
Huge(e) == \E v \in {e.w, e.h, e.dw, e.dh} : v < 0 \/ v > 60000
PlanesOk(Rel(_, _, _), st, ln, sh) == Len(st) = Len(sh) /\ \A k \in 1..Len(sh) : Rel(st[k], ln[k], sh[k])
\* `stride` may be 2^31 or more (negative here); the comparison must not overflow
FitsBig(st, ln, s) ==
  /\ st < 0 \/ st >= s[1]
  /\ IF st < 0 \/ st > 60000 THEN s[2] <= 1 /\ ln >= s[1] ELSE Fits(st, ln, s)
SizesAgree(e, c) == ~TwoSizes(c) \/ (e.w = e.dw /\ e.h = e.dh)
MustAccept(e) ==
  LET c == Cat(e) IN
  /\ ~Huge(e) /\ e.w > 0 /\ e.h > 0 /\ SizesAgree(e, c)
  /\ \A k \in 1..Len(e.ss) : e.ss[k] \in 0..60000
  /\ \A k \in 1..Len(e.ds) : e.ds[k] \in 0..60000
  /\ PlanesOk(Exact, e.ss, e.sl, SShapes(c, e.w, e.h))
  /\ PlanesOk(Exact, e.ds, e.dl, DShapes(c, e.dw, e.dh))
MustReject(e) ==
  LET c == Cat(e) IN
  \/ Huge(e) \/ e.w = 0 \/ e.h = 0 \/ ~SizesAgree(e, c)
  \/ ~PlanesOk(FitsBig, e.ss, e.sl, SShapes(c, e.w, e.h))
  \/ ~PlanesOk(FitsBig, e.ds, e.dl, DShapes(c, e.dw, e.dh))
\* turning or mirroring an empty picture may be a success that does nothing
Empty(e) == Cat(e).fam \in {"rotate", "mirror"} /\ (e.w = 0 \/ e.h = 0)
Admission(e) ==
  \A j \in 1..Len(e.res) :
    LET r == e.res[j] IN
    /\ r.v \in {"ok", "err"}
    /\ r.v = "err" => \A k \in 1..Len(r.ft) : r.ft[k] = <<>>
    /\ IF MustReject(e) THEN r.v = "err" \/ (Empty(e) /\ \A k \in 1..Len(r.ft) : r.ft[k] = <<>>) ELSE MustAccept(e) => r.v = "ok"

----------------------------------------------------------------------------
\* C02  Footprint
Footprint(e) ==
  LET c == Cat(e)
      sh == DShapes(c, e.dw, e.dh)
  IN  \A j \in 1..Len(e.res) :
        LET r == e.res[j] IN
        \/ r.v = "err" /\ ~MustAccept(e)
        \/ r.v = "ok" /\ Len(r.ft) = Len(sh) /\ \A k \in 1..Len(sh) : r.ft[k] = VisibleRuns(e.ds[k], sh[k])

\* The two kinds of buffer the crate does not handle although it accepts them (see known_findings.jsonl):
\* a plane that ends with the last sample of its picture, and a plane with room for more rows.
TightPlane(st, ln, s) == (st < 0 \/ st > s[1]) /\ FitsBig(st, ln, s) /\ (st < 0 \/ st > 60000 \/ ln < st * s[2])
OverPlane(st, ln, s) == st \in 0..60000 /\ Fits(st, ln, s) /\ ln > st * s[2]
AnyPlane(e, Rel(_, _, _)) ==
  LET c == Cat(e)
      a == SShapes(c, e.w, e.h)
      b == DShapes(c, e.dw, e.dh)
  IN  \/ \E k \in 1..Len(a) : Rel(e.ss[k], e.sl[k], a[k])
      \/ \E k \in 1..Len(b) : Rel(e.ds[k], e.dl[k], b[k])
KindOf(e) == IF MustReject(e) THEN "bad" ELSE IF AnyPlane(e, OverPlane) THEN "over" ELSE IF AnyPlane(e, TightPlane) THEN "tight" ELSE "exact"
\* cells before `lim` of a list of runs
RECURSIVE Before(_, _, _, _)
Before(runs, k, lim, acc) ==
  IF k > Len(runs) \/ runs[k] >= lim THEN acc
  ELSE Before(runs, k + 2, lim, acc \o <<runs[k], Min2(runs[k + 1], lim - runs[k])>>)
\* what such a call may do: return, or panic; and write the rows before the last row pair as it should
EndSymptom(e) ==
  LET c == Cat(e)
      sh == DShapes(c, e.dw, e.dh)
  IN  \A j \in 1..Len(e.res) :
        LET r == e.res[j] IN
        \/ r.v \in {"err", "panic"}
        \/ r.v = "ok" /\ \A k \in 1..Len(sh) :
             LET lim == e.ds[k] * (sh[k][2] - 2)
             IN  Before(r.ft[k], 1, lim, <<>>) = Before(VisibleRuns(e.ds[k], sh[k]), 1, lim, <<>>)

\* C03  Confinement and determinism
SamePicture(a, b) == a.v = b.v /\ a.d = b.d
Confined(e, past) ==
  /\ AllClean(e)
  /\ Len(past) > 0 => e.src = past[1].src /\ Len(e.res) = 1 /\ SamePicture(e.res[1], past[1].res[1])

----------------------------------------------------------------------------
(***************************************************************************)
(* Rounding allowed by kind of entry point, in 1/256 of a destination step *)
(* (DESIGN.md gives the origin of every number).  The portable path keeps  *)
(* 13 bits of every coefficient and rounds once; vector paths keep fewer   *)
(* bits of intermediate results.                                           *)
(***************************************************************************)
Portable(r) == Has(r.b, "scalar")
DecTol(c, e, r) ==
  LET sd == SDep(c, e.bd)
      dd == DDep(c, e.bd)
      p  == Portable(r)
      hf == c.dt = "f16"
      mono == c.sl \in {"y", "ya"}
      t  == CASE mono \/ c.mx = "gbr" ->
                   IF e.rg = 1 THEN (IF mono \/ hf THEN 110 ELSE 0)
                   ELSE (CASE sd = 8 -> (IF p THEN 140 ELSE 400) [] sd = 10 -> 150 [] sd = 12 -> 180 [] OTHER -> 400)
              [] c.mx = "ycgco" ->
                   IF e.rg = 1 THEN 110 ELSE (CASE sd = 8 -> 150 [] sd = 10 -> 165 [] OTHER -> 190)
              [] c.sl = "y422" ->
                   (CASE sd = 8 -> 145 [] sd = 10 -> 165 [] sd = 12 -> 190 [] OTHER -> 1300)
              [] sd = 8 -> IF p \/ (c.mode = 1 /\ e.md = 2) THEN 160
                           ELSE IF c.mode = 1 /\ e.md = 1 THEN 280 ELSE 704
              [] hf -> (CASE sd = 10 -> 160 [] sd = 12 -> 200 [] OTHER -> 420)
              [] dd < sd -> IF p \/ c.dl = "ar30" THEN 155 ELSE 310
              [] c.dl = "ar30" -> 160
              [] sd = 10 -> IF p THEN 165 ELSE 704
              [] sd = 12 -> IF p THEN 220 ELSE 704
              [] sd = 14 -> 640
              [] OTHER   -> 1300
  IN  IF c.premul = 1 /\ e.pm = 1 THEN (IF p THEN t ELSE Max2(t, 704)) + 140 ELSE t
DecTols(e) == TLCEval([j \in 1..Len(e.res) |-> DecTol(Cat(e), e, e.res[j])])
LumaTol(c, e, r) ==
  LET dd == DDep(c, e.bd)
      p  == Portable(r)
      fast == c.mode = 1 /\ e.md = 1
  IN  CASE c.mx = "ycgco" -> 150
        [] dd = 8 -> IF fast THEN 750 ELSE IF p \/ (c.mode = 1 /\ e.md = 2) THEN 150 ELSE 360
        [] dd = 10 -> 160 [] dd = 12 -> 190 [] dd = 14 -> 280 [] OTHER -> 690
ChromaTol(c, e, r) ==
  LET dd == DDep(c, e.bd)
      p  == Portable(r)
      fast == c.mode = 1 /\ e.md = 1
  IN  CASE c.mx = "ycgco" -> 250
        [] dd = 8 -> IF fast THEN 690 ELSE IF p \/ (c.mode = 1 /\ e.md = 2) THEN 250 ELSE 360
        [] dd \in {10, 12} -> 280 [] dd = 14 -> 320 [] OTHER -> 690
GbrTol(c, e) == IF e.rg = 1 THEN 0 ELSE (CASE DDep(c, e.bd) = 8 -> 145 [] DDep(c, e.bd) = 10 -> 160 [] DDep(c, e.bd) = 12 -> 190 [] OTHER -> 420)
LumaTols(e) == TLCEval([j \in 1..Len(e.res) |-> LumaTol(Cat(e), e, e.res[j])])
ChromaTols(e) == TLCEval([j \in 1..Len(e.res) |-> ChromaTol(Cat(e), e, e.res[j])])
Colour_(e) ==
  LET c == Cat(e) IN
  /\ AllClean(e)
  /\ IF c.fam = "dec" THEN DecodeOk(e, DecTols(e))
     ELSE LumaOk(e, LumaTols(e)) /\ (c.dl = "y" \/ ChromaOk(e, ChromaTols(e)))

----------------------------------------------------------------------------
\* Samples of pictures by component: Y U V A or R G B A
SrcComps(c, e) == Comps(c.sl, c.ssub, c.sord, e.w)
DstComps(c, e) == Comps(c.dl, c.dsub, c.dord, e.dw)
\* component n of the pixel (x, y) of the destination (ar30: unpacked)
DstAt(c, e, d, dc, n, x, y) ==
  IF c.dl = "ar30" THEN Pix30(d[1], c.dord, e.bo, y * e.dw + x)[n]
  ELSE LET m == dc[n] IN Val(d[m[1]][Cell(m, x, y)], c.dbe, DDiv(c))
SrcAt(c, e, sc, n, x, y) ==
  IF c.sl = "ar30" THEN Pix30(e.src[1], c.sord, e.bo, y * e.w + x)[n]
  ELSE LET m == sc[n] IN Val(e.src[m[1]][Cell(m, x, y)], c.sbe, SDiv(c))
HasComp(c, cs, n) == c.dl = "ar30" \/ cs[n][1] # 0

\* C09, C19  The same picture through another entry point: equal components
SameComponents(e, p) ==
  LET a == Cat(e)
      b == Cat(p)
      da == TLCEval(IF a.dl = "ar30" THEN <<>> ELSE DstComps(a, e))
      db == TLCEval(IF b.dl = "ar30" THEN <<>> ELSE DstComps(b, p))
      SrcAlpha(c, f) == c.sl = "ar30" \/ SrcComps(c, f)[4][1] # 0
      ns == {n \in 1..4 : /\ (a.dl = "ar30" \/ da[n][1] # 0) /\ (b.dl = "ar30" \/ db[n][1] # 0)
                          /\ n = 4 => SrcAlpha(a, e) = SrcAlpha(b, p)}
      x0 == e.res[1].d
      y0 == p.res[1].d
  IN  \A i \in 0 .. e.dw * e.dh - 1 :
        LET x == i % e.dw
            y == i \div e.dw
        IN  \A n \in ns : DstAt(a, e, x0, da, n, x, y) = DstAt(b, p, y0, db, n, x, y)
Relabeled(e, past) == AllClean(e) /\ (Len(past) > 0 => SameComponents(e, past[1]))

\* C10  Distance between the outcomes of different instruction sets, in steps
\* (half floats: in steps of the source's depth, besides their own precision).
\* Vector paths take luma below black for black; such pixels are not compared.
Spread(e, t) ==
  LET c == Cat(e)
      n == Len(e.res)
      sd == SDep(c, e.bd)
      foot == c.fam = "dec" /\ e.rg = 0
      sc == TLCEval(IF foot THEN YuvComps(c.sl, c.ssub, c.sord, e.w) ELSE <<>>)
      black == IF foot THEN 16 * Pow2(sd - 8) ELSE 0
      Below(i) == foot /\ SrcAt(c, e, sc, 1, i % e.w, i \div e.w) < black
      ch == IF c.dl \in {"i1", "i2", "i3", "i4"} THEN Channels(c.dl) ELSE 0
      Dif(u, v) == IF c.dl = "ar30"
                   THEN \A i \in 0 .. e.w * e.h - 1 :
                          LET a == Pix30(u[1], c.dord, e.bo, i)
                              b == Pix30(v[1], c.dord, e.bo, i)
                          IN  Below(i) \/ (Abs(a[4] - b[4]) <= Min2(t, 1) /\ \A k \in 1..3 : Abs(a[k] - b[k]) <= t)
                   ELSE IF c.dt = "f16"
                   THEN \A i \in 1..Len(u[1]) :
                          Abs(F16(u[1][i], sd) - F16(v[1][i], sd)) <= 256 * t + (IF t = 0 THEN 0 ELSE u[1][i] \div Pow2(26 - sd))
                             \/ Below((i - 1) \div ch)
                   ELSE \A p \in 1..Len(u) : \A i \in 1..Len(u[p]) :
                          Abs(Val(u[p][i], c.dbe, DDiv(c)) - Val(v[p][i], c.dbe, DDiv(c))) <= t
                             \/ (foot /\ Below((i - 1) \div ch))
  IN  \A a \in 1..n : \A b \in a+1..n : Dif(e.res[a].d, e.res[b].d)
SpreadTol(c, e) ==
  CASE c.fam \in {"shuffle", "mirror", "rotate", "pack", "unpack", "pk30", "unpk30", "rdpenc", "rdpdec", "sharp"} -> 0
    [] c.mx = "gbr" /\ e.rg = 1 /\ c.dt # "f16" -> 0
    [] c.fam = "dec" /\ c.mx = "kr" /\ c.sl \notin {"y", "ya"} -> 3
    [] OTHER -> 2
Agree(e) == AllClean(e) /\ (Len(e.res) > 1 => Spread(e, SpreadTol(Cat(e), e)))

\* C11  Alpha
Opaque(c, bd) == CASE c.dl = "ar30" -> 3 [] c.dt = "f16" -> 16777216 [] OTHER -> Pow2(DDep(c, bd)) - 1
AlphaOk(c, e, got, a, srcA) ==
  IF ~srcA THEN got = Opaque(c, e.bd)
  ELSE LET sd == SDep(c, e.bd)
           dd == DDep(c, e.bd)
       IN  IF c.dt = "f16" THEN Near(F16(got, sd), 256 * a, 256 * a, 256 * (Pow2(sd) - 1), 3 + (256 * a) \div 1024)
           ELSE IF sd = dd THEN got = a
           ELSE Abs(got - a \div Pow2(sd - dd)) <= 1 /\ (a = 0 => got = 0) /\ (a = Pow2(sd) - 1 => got = Pow2(dd) - 1)
Alpha(e) ==
  LET c == Cat(e)
      sc == TLCEval(SrcComps(c, e))
      dc == TLCEval(IF c.dl = "ar30" THEN <<>> ELSE DstComps(c, e))
      srcA == sc[4][1] # 0
      dstA == c.dl = "ar30" \/ dc[4][1] # 0
  IN  /\ AllClean(e)
      /\ dstA => \A i \in 0 .. e.w * e.h - 1 :
                   LET x == i % e.w
                       y == i \div e.w
                       a == IF srcA THEN SrcAt(c, e, sc, 4, x, y) ELSE 0
                   IN  \A j \in 1..Len(e.res) : AlphaOk(c, e, DstAt(c, e, e.res[j].d, dc, 4, x, y), a, srcA)
      /\ c.premul = 1 /\ e.pm = 1 => DecodeOk(e, DecTols(e))

----------------------------------------------------------------------------
\* C08  A destination sample is a function of the source samples of the pixels it covers: two calls
\* on pictures that agree on those pixels agree on it.
Local(e, past) ==
  /\ AllClean(e)
  /\ Len(past) > 0 =>
       LET p == past[1]
           c == Cat(e)
           sc == TLCEval(SrcComps(c, e))
           dc == TLCEval(IF c.dl = "ar30" THEN <<>> ELSE DstComps(c, e))
           u == e.res[1].d
           v == p.res[1].d
           has == {n \in 1..4 : sc[n][1] # 0}
           \* pixels on which the two source pictures agree
           same == TLCEval([i \in 0 .. e.w * e.h - 1 |->
                              \A n \in has : LET q == Cell(sc[n], i % e.w, i \div e.w)
                                             IN  e.src[sc[n][1]][q] = p.src[sc[n][1]][q]])
           Block(m, x, y) == \A i \in 0 .. m[3] - 1 : \A j \in 0 .. m[4] - 1 :
                               LET yy == (y \div m[3]) * m[3] + i
                                   xx == (x \div m[4]) * m[4] + j
                               IN  yy >= e.h \/ xx >= e.w \/ same[yy * e.w + xx]
       IN  IF c.dl = "ar30"
           THEN \A i \in 0 .. e.w * e.h - 1 : same[i] => \A b \in 1..4 : u[1][4*i+b] = v[1][4*i+b]
           ELSE \A n \in {n \in 1..4 : dc[n][1] # 0} :
                  \A i \in 0 .. e.w * e.h - 1 :
                    LET x == i % e.w
                        y == i \div e.w
                    IN  Block(dc[n], x, y) => u[dc[n][1]][Cell(dc[n], x, y)] = v[dc[n][1]][Cell(dc[n], x, y)]

----------------------------------------------------------------------------
\* C12  Packed 4:2:2
RUp(a, b) == (a + b + 1) \div 2
Yuy2Exact(e) ==
  LET c == Cat(e)
      sc == TLCEval(SrcComps(c, e))
      dc == TLCEval(DstComps(c, e))
      w == e.w
      h == e.h
      cw == CD2(w)
  IN  \A j \in 1..Len(e.res) :
        LET d == e.res[j].d
            s == e.src
            SY(x, y) == s[sc[1][1]][Cell(sc[1], x, y)]
            SCh(n, x, y) == s[sc[n][1]][Cell(sc[n], x, y)]
            DYv(x, y) == d[dc[1][1]][Cell(dc[1], x, y)]
            DCh(n, x, y) == d[dc[n][1]][Cell(dc[n], x, y)]
        IN  /\ \A i \in 0 .. w * h - 1 : DYv(i % w, i \div w) = SY(i % w, i \div w)
            /\ c.fam = "pack" =>
                 /\ w % 2 = 1 => \A y \in 0 .. h - 1 : DYv(w, y) = 0   \* the missing second luma of an odd row
                 /\ \A i \in 0 .. cw * h - 1 :
                      LET x == 2 * (i % cw)
                          y == i \div cw
                      IN  \A n \in 2..3 :
                            DCh(n, x, y) = IF c.ssub = 444 /\ x + 1 < w THEN RUp(SCh(n, x, y), SCh(n, x + 1, y)) ELSE SCh(n, x, y)
            /\ c.fam = "unpack" =>
                 LET kw == ChromaW(c.dsub, w)
                     kh == ChromaH(c.dsub, h)
                     bw == SubH(c.dsub)
                     bh == SubV(c.dsub)
                 IN  \A i \in 0 .. kw * kh - 1 :
                       LET x == bw * (i % kw)
                           y == bh * (i \div kw)
                       IN  \A n \in 2..3 : DCh(n, x, y) = SCh(n, x, y)
Yuy2(e, past) == AllClean(e) /\ Yuy2Exact(e)

\* C13  GBR
Planes3(e, d) == d
GbrBack(e, past) ==   \* the chain's last picture against its first
  (Len(past) = 1 /\ Cat(e).fam = "dec" /\ Cat(past[1]).fam = "enc" /\ Cat(e).dt # "f16" /\ e.rg = 1) =>
    LET p == past[1]
        a == TLCEval(SrcComps(Cat(p), p))
        b == TLCEval(DstComps(Cat(e), e))
    IN  \A i \in 0 .. e.w * e.h - 1 : \A n \in 1..3 :
          e.res[1].d[1][Cell(b[n], i % e.w, i \div e.w)] = p.src[1][Cell(a[n], i % e.w, i \div e.w)]
Gbr3Ok(e) ==
  LET c == Cat(e)
      k == TLCEval(EncCoef(e, c))
      m == TLCEval(RgbComps(c.sl, c.sord, e.w))
      n == m[1][5]
      top == 256 * (Pow2(DDep(c, e.bd)) - 1)
      s == e.src[1]
      t == GbrTol(c, e)
  IN  \A i \in 0 .. e.w * e.h - 1 :
        LET b == i * n + 1
            r == s[b + m[1][6]]
            g == s[b + m[2][6]]
            bl == s[b + m[3][6]]
        IN  \A j \in 1..Len(e.res) :
              LET d == e.res[j].d IN
              IF e.rg = 1 THEN d[1][i + 1] = g /\ d[2][i + 1] = bl /\ d[3][i + 1] = r
              ELSE Near(256 * d[1][i + 1], LumaOf(k, r, g, bl), LumaOf(k, r, g, bl), top, t)
                   /\ Near(256 * d[2][i + 1], CbOf(k, 1, r, g, bl), CbOf(k, 1, r, g, bl), top, t)
                   /\ Near(256 * d[3][i + 1], CrOf(k, 1, r, g, bl), CrOf(k, 1, r, g, bl), top, t)
Gbr(e, past) ==
  /\ AllClean(e)
  /\ IF Cat(e).fam = "enc" THEN Gbr3Ok(e) ELSE DecodeOk(e, DecTols(e))
  /\ GbrBack(e, past)

\* C15  Shuffles
ShuffleExact(e) ==
  LET c == Cat(e)
      a == TLCEval(SrcComps(c, e))
      b == TLCEval(DstComps(c, e))
  IN  \A i \in 0 .. e.w * e.h - 1 :
        LET x == i % e.w
            y == i \div e.w
        IN  \A j \in 1..Len(e.res) : \A n \in {n \in 1..4 : b[n][1] # 0} :
              e.res[j].d[1][Cell(b[n], x, y)] = IF a[n][1] # 0 THEN e.src[1][Cell(a[n], x, y)] ELSE 255
Shuffle(e, past) ==
  /\ AllClean(e) /\ ShuffleExact(e)
  \* along a chain the colour channels stay those of the original
  /\ Len(past) > 0 =>
       LET p == past[1]
           a == TLCEval(SrcComps(Cat(p), p))
           b == TLCEval(DstComps(Cat(e), e))
       IN  \A i \in 0 .. e.w * e.h - 1 : \A n \in 1..3 :
             e.res[1].d[1][Cell(b[n], i % e.w, i \div e.w)] = p.src[1][Cell(a[n], i % e.w, i \div e.w)]

\* C16  Rotation and mirroring as elements of the dihedral group: <<transpose?, flip x?, flip y?>>
\* applied to a picture: first transpose, then flips
\* Rotate90 is the counterclockwise quarter turn, Rotate270 the clockwise one
Ident == <<FALSE, FALSE, FALSE>>
Elem(c, op) ==
  IF c.fam = "rotate" THEN (CASE op = 0 -> <<TRUE, FALSE, TRUE>> [] op = 1 -> <<FALSE, TRUE, TRUE>> [] OTHER -> <<TRUE, TRUE, FALSE>>)
  ELSE IF op = 0 THEN <<FALSE, FALSE, TRUE>> ELSE <<FALSE, TRUE, FALSE>>
\* first g, then f
Xor(a, b) == a # b
Compose(f, g) == IF f[1] THEN <<~g[1], Xor(g[3], f[2]), Xor(g[2], f[3])>> ELSE <<g[1], Xor(g[2], f[2]), Xor(g[3], f[3])>>
\* where the pixel that ends at (x, y) of the w x h result comes from
From(t, w, h, x, y) ==
  LET u == IF t[2] THEN w - 1 - x ELSE x
      v == IF t[3] THEN h - 1 - y ELSE y
  IN  IF t[1] THEN <<v, u>> ELSE <<u, v>>
Moved(t, src, sw, dst, dw, dh, n) ==
  \A i \in 0 .. dw * dh - 1 :
    LET q == From(t, dw, dh, i % dw, i \div dw)
    IN  \A k \in 1..n : dst[n * i + k] = src[n * (q[2] * sw + q[1]) + k]
RECURSIVE Total(_, _, _)
Total(past, k, acc) == IF k > Len(past) THEN acc ELSE Total(past, k + 1, Compose(Elem(Cat(past[k]), past[k].op), acc))
Turned(e, past) ==
  LET c == Cat(e)
      n == Channels(c.sl)
  IN  /\ AllClean(e)
      /\ \A j \in 1..Len(e.res) : Moved(Elem(c, e.op), e.src[1], e.w, e.res[j].d[1], e.dw, e.dh, n)
      /\ Len(past) > 0 => Moved(Compose(Elem(c, e.op), Total(past, 1, Ident)), past[1].src[1], past[1].w, e.res[1].d[1], e.dw, e.dh, n)

\* C17  30-bit pixels
To10(v, sd) == IF sd = 8 THEN 4 * v + v \div 64 ELSE v \div Pow2(sd - 10)
To2(v, sd) == v \div Pow2(sd - 2)
Bits30(e, past) ==
  LET c == Cat(e) IN
  /\ AllClean(e)
  /\ IF c.fam = "pk30"
     THEN LET m == TLCEval(RgbComps(c.sl, c.sord, e.w))
              a == m[4][1] # 0
              n == m[1][5]
              s == e.src[1]
          IN  \A i \in 0 .. e.w * e.h - 1 :
                LET want == <<To10(s[n*i+1+m[1][6]], c.sd), To10(s[n*i+1+m[2][6]], c.sd), To10(s[n*i+1+m[3][6]], c.sd),
                              IF a THEN To2(s[n*i+1+m[4][6]], c.sd) ELSE 3>>
                IN  \A j \in 1..Len(e.res) : Pix30(e.res[j].d[1], c.dord, e.bo, i) = want
     ELSE LET m == TLCEval(RgbComps(c.dl, c.dord, e.w))
              n == m[1][5]
          IN  \A i \in 0 .. e.w * e.h - 1 :
                LET p == Pix30(e.src[1], c.sord, e.bo, i)
                IN  \A j \in 1..Len(e.res) :
                      LET d == e.res[j].d[1] IN
                      /\ \A k \in 1..3 : d[n*i+1+m[k][6]] = p[k] \div 4
                      /\ m[4][1] # 0 => d[n*i+1+m[4][6]] = 85 * p[4]
  /\ (Len(past) = 1 /\ c.fam = "unpk30" /\ Cat(past[1]).sd = 8) =>
        LET p == past[1]
            a == TLCEval(RgbComps(Cat(p).sl, Cat(p).sord, e.w))
            b == TLCEval(RgbComps(c.dl, c.dord, e.w))
        IN  \A i \in 0 .. e.w * e.h - 1 : \A k \in 1..3 :
              e.res[1].d[1][b[1][5]*i+1+b[k][6]] = p.src[1][a[1][5]*i+1+a[k][6]]

\* C18  Half floats
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
\* one unit in the last place of a half float near x (both in 1/2^24)
Ulp(x) == IF x < 2048 THEN 1 ELSE Pow2(BitLen(x) - 11)
HalfOk(e, past) ==
  LET c == Cat(e)
      sd == SDep(c, e.bd)
      dd == DDep(c, e.bd)
  IN  /\ AllClean(e)
      /\ IF c.fam = "tof16"
         THEN LET q == TLCEval(Q24(1, Pow2(sd) - 1))   \* 2^24 / max, rounded down
                  mx == Pow2(sd) - 1
              IN  \A i \in {i \in 1..Len(e.src[1]) : e.src[1][i] <= 110 * mx} :   \* what the recording can hold
                    LET v == e.src[1][i]
                        want == v * q + (v * (16777216 - q * mx)) \div mx
                    IN  \A j \in 1..Len(e.res) : Abs(e.res[j].d[1][i] - want) <= Ulp(want) /\ (v = mx => e.res[j].d[1][i] = 16777216)
         ELSE \A i \in 1..Len(e.src[1]) :
                LET v == e.src[1][i]                     \* 2^24 * x
                    want == F16(v, dd)                   \* 256 * x * max
                    top == 256 * (IF c.dt = "u8" THEN 255 ELSE 65535)   \* values beyond 0..1 saturate at the type
                IN  \A j \in 1..Len(e.res) : Near(256 * e.res[j].d[1][i], want, want, top, 140)
      /\ (Len(past) = 1 /\ c.fam = "fromf16" /\ SDep(Cat(past[1]), e.bd) <= 10) =>
            \A j \in 1..Len(e.res) : \A i \in 1..Len(e.src[1]) :
              past[1].src[1][i] < Pow2(dd) => e.res[j].d[1][i] = past[1].src[1][i]

\* C19  Containers
LowBitsClear(e) ==
  LET c == Cat(e)
      q == Pow2(16 - c.dd)
      top == Pow2(DDep(c, e.bd))
  IN  \A j \in 1..Len(e.res) : \A k \in 1..Len(e.res[j].d) : \A i \in 1..Len(e.res[j].d[k]) :
        LET v == IF c.dbe = 1 THEN Swap16(e.res[j].d[k][i]) ELSE e.res[j].d[k][i]
        IN  IF c.dmsb = 1 THEN v % q = 0 ELSE c.dt = "u16" => v < top
Containers(e, past) == AllClean(e) /\ LowBitsClear(e) /\ (Len(past) > 0 => SameComponents(e, past[1]))

\* C24  Monochrome
MonoOk(e) ==
  LET c == Cat(e) IN
  /\ Colour_(e)
  /\ c.fam = "dec" =>
       LET m == TLCEval(RgbComps(c.dl, c.dord, e.w))
           n == m[1][5]
           sc == TLCEval(SrcComps(c, e))
       IN  \A j \in 1..Len(e.res) :
             LET d == e.res[j].d[1] IN
             \A i \in 0 .. e.w * e.h - 1 :
               /\ d[n*i+1+m[1][6]] = d[n*i+1+m[2][6]] /\ d[n*i+1+m[2][6]] = d[n*i+1+m[3][6]]
               /\ m[4][1] # 0 => d[n*i+1+m[4][6]] = IF sc[4][1] # 0 THEN e.src[2][i + 1] ELSE Opaque(c, e.bd)

----------------------------------------------------------------------------
\* C20  Sharp YUV
\* The light of a gamma-encoded sample, and the sample whose light is L: the greatest one not brighter
Light(op, v) == LET t == GammaTab[op + 1][v + 1] IN IF v = 0 \/ v = 255 THEN t ELSE t - 1
RECURSIVE Search(_, _, _, _)
Search(t, lum, a, b) == IF a = b THEN a ELSE LET m == (a + b + 1) \div 2 IN IF t[m + 1] <= lum THEN Search(t, lum, m, b) ELSE Search(t, lum, a, m - 1)
Sample(op, lum) == Search(GammaTab[op + 1], lum, 0, 255)
SharpOk(e, ty, tc) ==
  LET c   == Cat(e)
      w   == e.w
      h   == e.h
      k   == TLCEval(EncodeCoef(Kr(e), Kb(e), 8, e.rg, 255))
      m   == TLCEval(RgbComps(c.sl, c.sord, w))
      n   == m[1][5]
      cw  == ChromaW(c.dsub, w)
      ch  == ChromaH(c.dsub, h)
      bv  == SubV(c.dsub)
      s   == e.src[1]
      At(o, x, y) == s[(y * w + x) * n + 1 + o]
      Mixed(o, x0, y0) ==
        LET x1 == x0 + 1
            y1 == Min2(y0 + 1, h - 1)
            L(x, y) == Light(e.op, At(o, x, y))
        IN  IF bv = 1
            THEN IF x1 < w THEN Sample(e.op, (12 * L(x0, y0) + 4 * L(x1, y0) + 8) \div 16) ELSE At(o, x0, y0)
            ELSE IF x1 < w THEN Sample(e.op, (9 * L(x0, y0) + 3 * L(x1, y0) + 3 * L(x0, y1) + L(x1, y1) + 8) \div 16)
                 ELSE Sample(e.op, (12 * L(x0, y0) + 4 * L(x0, y1) + 8) \div 16)
  IN  /\ \A i \in 0 .. w * h - 1 :
           LET b == i * n + 1
               z == LumaOf(k, s[b + m[1][6]], s[b + m[2][6]], s[b + m[3][6]])
           IN  \A j \in 1..Len(e.res) : Near(256 * e.res[j].d[1][i + 1], z, z, 65280, ty)
      /\ \A i \in 0 .. cw * ch - 1 :
           LET x0 == 2 * (i % cw)
               y0 == bv * (i \div cw)
               r == Mixed(m[1][6], x0, y0)
               g == Mixed(m[2][6], x0, y0)
               b == Mixed(m[3][6], x0, y0)
               zu == CbOf(k, 1, r, g, b)
               zv == CrOf(k, 1, r, g, b)
           IN  \A j \in 1..Len(e.res) :
                 /\ Near(256 * e.res[j].d[2][i + 1], zu, zu, 65280, tc)
                 /\ Near(256 * e.res[j].d[3][i + 1], zv, zv, 65280, tc)
Sharp(e) == AllClean(e) /\ SharpOk(e, 150, 400)

----------------------------------------------------------------------------
\* C21  RemoteFX planes: signed, 1/32 of an 8-bit step, luma around -128
RdpEncOk(e, t) ==
  LET c == Cat(e)
      m == TLCEval(RgbComps(c.sl, c.sord, e.w))
      n == m[1][5]
      s == e.src[1]
  IN  \A i \in 0 .. e.w * e.h - 1 :
        LET b == i * n + 1
            r == s[b + m[1][6]]
            g == s[b + m[2][6]]
            l == s[b + m[3][6]]
            \* 1/256 of a unit
            y == ((299 * r + 587 * g + 114 * l) * 8192) \div 1000 - 1048576
            u == (((500590 * l - 168935 * r - 331665 * g) \div 125) * 1024) \div 1000
            v == (((499813 * r - 418531 * g - 81282 * l) \div 125) * 1024) \div 1000
        IN  \A j \in 1..Len(e.res) :
              LET d == e.res[j].d IN
              /\ Abs(256 * d[1][i + 1] - y) <= t
              /\ Abs(256 * d[2][i + 1] - u) <= t
              /\ Abs(256 * d[3][i + 1] - v) <= t
RdpDecOk(e, t) ==
  LET c == Cat(e)
      m == TLCEval(RgbComps(c.dl, c.dord, e.w))
      n == m[1][5]
      MulS(x, k) == (x * (k \div 512)) \div 16 + (x * (k % 512)) \div 8192   \* 8 * x * k / 65536
  IN  \A i \in 0 .. e.w * e.h - 1 :
        LET y == 8 * (e.src[1][i + 1] + 4096)
            u == e.src[2][i + 1]
            v == e.src[3][i + 1]
            r == y + MulS(v, 91916)
            g == y - MulS(u, 22527) - MulS(v, 46819)
            b == y + MulS(u, 115993)
        IN  \A j \in 1..Len(e.res) :
              LET d == e.res[j].d[1]
                  k == i * n + 1
              IN  /\ Near(256 * d[k + m[1][6]], r, r, 65280, t)
                  /\ Near(256 * d[k + m[2][6]], g, g, 65280, t)
                  /\ Near(256 * d[k + m[3][6]], b, b, 65280, t)
                  /\ m[4][1] # 0 => d[k + m[4][6]] = 255
RdpTripOk(e, p, t) ==
  LET a == TLCEval(SrcComps(Cat(p), p))
      b == TLCEval(DstComps(Cat(e), e))
  IN  \A i \in 0 .. e.w * e.h - 1 : \A k \in 1..3 :
        Abs(e.res[1].d[1][Cell(b[k], i % e.w, i \div e.w)] - p.src[1][Cell(a[k], i % e.w, i \div e.w)]) <= t
Rdp(e, past) ==
  /\ AllClean(e)
  /\ IF Cat(e).fam = "rdpenc" THEN RdpEncOk(e, 420) ELSE RdpDecOk(e, 290)
  /\ (Len(past) = 1 => RdpTripOk(e, past[1], 1))

----------------------------------------------------------------------------
\* C23  Round trips and grays
GrayPicture(e, c, sc) == \A i \in 0 .. e.w * e.h - 1 :
   LET x == i % e.w y == i \div e.w IN
   SrcAt(c, e, sc, 1, x, y) = SrcAt(c, e, sc, 2, x, y) /\ SrcAt(c, e, sc, 2, x, y) = SrcAt(c, e, sc, 3, x, y)
FlatPicture(e, c, sc) == \A i \in 1 .. e.w * e.h - 1 : \A n \in 1..3 :
   SrcAt(c, e, sc, n, i % e.w, i \div e.w) = SrcAt(c, e, sc, n, 0, 0)
\* neutral chroma, in steps
GrayEnc(e, t) ==
  LET c == Cat(e)
      sc == TLCEval(SrcComps(c, e))
  IN  (c.mx # "gbr" /\ GrayPicture(e, c, sc)) =>
         LET dc == TLCEval(DstComps(c, e))
             mid == Pow2(DDep(c, e.bd) - 1)
         IN  \A i \in 0 .. e.w * e.h - 1 : \A n \in 2..3 : \A j \in 1..Len(e.res) :
               Abs(DstAt(c, e, e.res[j].d, dc, n, i % e.w, i \div e.w) - mid) <= t
\* pixels of neutral chroma are gray, in steps
GrayDec(e, t) ==
  LET c == Cat(e)
      sc == TLCEval(SrcComps(c, e))
      dc == TLCEval(IF c.dl = "ar30" THEN <<>> ELSE DstComps(c, e))
      mid == Pow2(SDep(c, e.bd) - 1)
  IN  c.mx # "gbr" => \A i \in 0 .. e.w * e.h - 1 :
        LET x == i % e.w
            y == i \div e.w
        IN  (SrcAt(c, e, sc, 2, x, y) = mid /\ SrcAt(c, e, sc, 3, x, y) = mid) =>
               \A j \in 1..Len(e.res) :
                 LET r == DstAt(c, e, e.res[j].d, dc, 1, x, y)
                     g == DstAt(c, e, e.res[j].d, dc, 2, x, y)
                     b == DstAt(c, e, e.res[j].d, dc, 3, x, y)
                 IN  Abs(r - g) <= t /\ Abs(b - g) <= t /\ Abs(r - b) <= t
\* the first picture comes back, in 1/256 of a step of the last one
TripOk(e, p, t) ==
  LET a == Cat(p)
      c == Cat(e)
      sc == TLCEval(SrcComps(a, p))
      dc == TLCEval(IF c.dl = "ar30" THEN <<>> ELSE DstComps(c, e))
      q == TLCEval(Q24(Pow2(DDep(c, e.bd)) - 1, Pow2(SDep(a, p.bd)) - 1))
  IN  (a.dsub = 444 \/ FlatPicture(p, a, sc)) =>
        \A i \in 0 .. e.w * e.h - 1 :
          LET x == i % e.w
              y == i \div e.w
          IN  \A n \in 1..3 :
                LET want == Mul(SrcAt(a, p, sc, n, x, y), q)
                IN  \A j \in 1..Len(e.res) : Abs(256 * DstAt(c, e, e.res[j].d, dc, n, x, y) - want) <= t
TripTol(e, p) ==
  LET c == Cat(e)
      a == Cat(p)
      sd == SDep(a, p.bd)
      b == Portable(e.res[1])
      fast == p.md = 1 /\ (a.mode = 1 \/ c.mode = 1)
  IN  CASE c.mx = "gbr" -> IF e.rg = 1 THEN (IF c.dt = "f16" THEN 256 ELSE 110) ELSE IF sd = 14 THEN 600 ELSE 300
        [] c.mx = "ycgco" -> 600
        [] sd = 8 /\ c.mode = 1 /\ e.md = 1 -> IF e.rg = 1 THEN 1200 ELSE 6000   \* fast decoding: chroma coefficients below 2
        [] sd = 8 /\ fast -> 1700
        [] sd = 8 -> IF b \/ (c.mode = 1 /\ e.md = 2) THEN 600 ELSE 1200
        [] sd \in {10, 12} -> IF b THEN 600 ELSE 1000
        [] sd = 14 -> 1000
        [] OTHER -> 2400
\* largest distance of a gray picture's chroma from neutral
GrayTol(c, e) == IF DDep(c, e.bd) = 16 \/ (c.mode = 1 /\ e.md = 1) THEN 2
                 ELSE IF ~Custom(e.mx) THEN 0 ELSE IF DDep(c, e.bd) = 14 THEN 2 ELSE 1
RoundTrip(e, past) ==
  /\ AllClean(e)
  /\ IF Cat(e).fam = "enc" THEN GrayEnc(e, GrayTol(Cat(e), e)) ELSE GrayDec(e, 0)
  /\ (Len(past) = 1 => TripOk(e, past[1], TripTol(e, past[1])))

----------------------------------------------------------------------------
\* C22  All thread counts give one picture, the one the specification allows
\* ("scalar", "par1" ...: portable kernels; "vec1" ...: vector kernels; each with so many threads)
Same(e, names) == \E j \in 1..Len(e.res) : \A n \in names : Has(e.res[j].b, n)
OnePicture(e) == AllClean(e) /\ Same(e, {"scalar", "par1", "par2", "par3", "par8"}) /\ Same(e, {"vec1", "vec2", "vec3", "vec8"})

----------------------------------------------------------------------------
\* C25  Samples that exceed the depth of their picture: the call still returns, and writes its picture
Survives(e) == Footprint(e)

----------------------------------------------------------------------------
\* C26  The image structures.  An allocated image is as large as its picture, and zero; its own check
\* and that of its views tell for which subsamplings it holds the picture; views show its samples.
AllocPlanes(c, w, h) == Shapes(c.sord, IF c.sord = "y" THEN 400 ELSE c.ssub, w, h)
Subs == <<420, 422, 444>>
FactsOk(e, r) ==
  LET c  == Cat(e)
      f  == r.d[1]
      sh == AllocPlanes(c, e.dw, e.dh)
      need(k) == Shapes(c.sord, Subs[k], e.dw, e.dh)
      st == [p \in 1..Len(sh) |-> sh[p][1]]
      ln == [p \in 1..Len(sh) |-> sh[p][1] * sh[p][2]]
      Verdict(v, k) == /\ v \in {0, 1}
                       /\ PlanesOk(Exact, st, ln, need(k)) => v = 1
                       /\ ~PlanesOk(Fits, st, ln, need(k)) => v = 0
  IN  /\ f[1] = e.dw /\ f[2] = e.dh
      /\ \A p \in 1..3 : IF p <= Len(sh) THEN f[2*p + 1] = st[p] /\ f[2*p + 2] = ln[p] ELSE f[2*p + 1] = 0 /\ f[2*p + 2] = 0
      /\ \A k \in 1..3 : Verdict(f[8 + k], k) /\ f[11 + k] = f[8 + k]
      /\ f[15] = 1 /\ f[16] = 1
Images(e, past) ==
  CASE Cat(e).fam = "check" -> Admission(e)
    [] Cat(e).fam = "alloc" -> AllClean(e) /\ \A j \in 1..Len(e.res) : FactsOk(e, e.res[j])
    [] OTHER -> Confined(e, past)

----------------------------------------------------------------------------
\* C27  A call made first thing by a new process, again after other calls, and again at the same time
\* as other calls, is one call: the verdict, the footprint and the picture are those of the first time.
EqOf(e) == IF "eq" \in DOMAIN e THEN e.eq ELSE 0
Independent(e, past) ==
  /\ IF MustReject(e) THEN \A j \in 1..Len(e.res) : e.res[j].v = "err" ELSE AllClean(e)
  /\ EqOf(e) > 0 => LET a == e.res[1]
                        b == past[EqOf(e)].res[1]
                    IN  a.v = b.v /\ a.ft = b.ft /\ a.d = b.d

----------------------------------------------------------------------------
\* C28  An error is about something that is wrong with the call, and its numbers are the call's
Role(l, k) == CASE l \in {"y", "ya"} -> "luma" [] l = "y422" -> "packed"
                [] l \in {"p3", "p3a", "nv"} -> (IF k \in {1, 4} THEN "luma" ELSE "chroma")
                [] OTHER -> "rgb"
\* the two numbers of an error about a plane: the length it must have (or would have up to its last
\* sample) and the one it has; the least stride and its own; or the least size and stride times rows
Inexact(st, ln, s) == ~Exact(st, ln, s)
TooShort(ex, rc, st, ln, s) == rc = ln /\ ~Exact(st, ln, s) /\ ex \in {st * s[2], st * (s[2] - 1) + s[1]} \ {rc}
TooNarrow(ex, rc, st, ln, s) == st < s[1] /\ rc = st /\ ex = s[1]
TooSmall(ex, rc, st, ln, s) == \/ st < s[1] /\ rc = st * s[2] /\ ex = s[1] * s[2]
                               \/ rc = ln /\ ex = st * (s[2] - 1) + s[1] /\ ln < ex
About(e, roles, Shows(_, _, _, _, _), er) ==
  LET c == Cat(e) IN
  \/ \E k \in 1..Len(e.ss) : Role(c.sl, k) \in roles /\ Shows(er[2], er[3], e.ss[k], e.sl[k], SShapes(c, e.w, e.h)[k])
  \/ \E k \in 1..Len(e.ds) : Role(c.dl, k) \in roles /\ Shows(er[2], er[3], e.ds[k], e.dl[k], DShapes(c, e.dw, e.dh)[k])
Truthful(e, er) ==
  LET turns == Cat(e).fam \in {"rotate", "mirror"} IN
  CASE er[1] = 1 -> About(e, {"rgb", "packed", "luma", "chroma"}, TooShort, er)
    [] er[1] = 2 -> About(e, {"rgb", "packed", "luma", "chroma"}, TooNarrow, er)
    [] er[1] = 5 -> About(e, {"luma"}, TooShort, er)
    [] er[1] = 6 -> About(e, {"luma"}, TooSmall, er)
    [] er[1] = 7 -> About(e, {"chroma"}, TooSmall, er)
    [] er[1] = 8 -> About(e, {"chroma"}, TooShort, er)
    [] er[1] = 9 -> About(e, {"packed"}, TooShort, er)
    [] er[1] = 4 -> 0 \in {e.w, e.h, e.dw, e.dh}
    [] er[1] = 10 -> ~SizesAgree(e, Cat(e)) \/ (turns /\ (Empty(e) \/ AnyPlane(e, Inexact)))
    [] er[1] = 11 -> turns /\ (Empty(e) \/ AnyPlane(e, Inexact))
    [] OTHER -> FALSE
Errors(e) == \A j \in 1..Len(e.res) : LET r == e.res[j] IN r.v = "err" => ~MustAccept(e) /\ r.er[4] = 1 /\ (Truthful(e, r.er) = TRUE)

----------------------------------------------------------------------------
\* C29  A band of rows gives these rows of the whole picture
Bands(e, past) ==
  /\ AllClean(e)
  /\ Len(past) > 0 =>
       LET a == e.res[1].d
           b == past[1].res[1].d
           sh == DShapes(Cat(e), e.dw, e.dh)
       IN  /\ e.dw = past[1].dw
           /\ \A p \in 1..Len(sh) : a[p] = SubSeq(b[p], e.rd[p] * sh[p][1] + 1, e.rd[p] * sh[p][1] + sh[p][1] * sh[p][2])

Holds(P, e, past) ==
  CASE P = "C01" -> Admission(e)
    [] P = "C02" -> Footprint(e)
    [] P = "C03" -> Confined(e, past)
    [] P \in {"C04", "C05", "C06", "C07", "C14"} -> Colour_(e)
    [] P = "C08" -> Local(e, past)
    [] P = "C09" -> Relabeled(e, past)
    [] P = "C10" -> Agree(e)
    [] P = "C11" -> Alpha(e)
    [] P = "C12" -> Yuy2(e, past)
    [] P = "C13" -> Gbr(e, past)
    [] P = "C15" -> Shuffle(e, past)
    [] P = "C16" -> Turned(e, past)
    [] P = "C17" -> Bits30(e, past)
    [] P = "C18" -> HalfOk(e, past)
    [] P = "C19" -> Containers(e, past)
    [] P = "C20" -> Sharp(e)
    [] P = "C21" -> Rdp(e, past)
    [] P = "C22" -> OnePicture(e)
    [] P = "C23" -> RoundTrip(e, past)
    [] P = "C24" -> MonoOk(e)
    [] P = "C25" -> Survives(e)
    [] P = "C26" -> Images(e, past)
    [] P = "C27" -> Independent(e, past)
    [] P = "C28" -> Errors(e)
    [] P = "C29" -> Bands(e, past)
=============================================================================
