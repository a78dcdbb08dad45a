------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Where every sample of every image format lives.                         *)
(*                                                                         *)
(* An image is a sequence of planes; a plane is a sequence of samples, row *)
(* after row, `stride` samples apart, of which the first `width` of every  *)
(* row are visible.  A component (Y, U, V, R, G, B, A) of a picture is an  *)
(* affine map from pixel coordinates to a cell of one plane; chroma        *)
(* subsampling is the integer division in that map.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CD2(x) == (x + 1) \div 2
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

ChromaW(sub, w) == IF sub = 420 \/ sub = 422 THEN CD2(w) ELSE w
ChromaH(sub, h) == IF sub = 420 THEN CD2(h) ELSE h
SubH(sub) == IF sub = 420 \/ sub = 422 THEN 2 ELSE 1   \* pixels per chroma sample, across
SubV(sub) == IF sub = 420 THEN 2 ELSE 1                \* and down

\* <<samples per row, rows>> of each plane of a w x h picture
Shapes(l, sub, w, h) ==
  LET cw == ChromaW(sub, w)
      ch == ChromaH(sub, h)
  IN  CASE l = "p3"   -> << <<w, h>>, <<cw, ch>>, <<cw, ch>> >>
        [] l = "p3a"  -> << <<w, h>>, <<cw, ch>>, <<cw, ch>>, <<w, h>> >>
        [] l = "nv"   -> << <<w, h>>, <<2 * cw, ch>> >>
        [] l = "y"    -> << <<w, h>> >>
        [] l = "ya"   -> << <<w, h>>, <<w, h>> >>
        [] l = "y422" -> << <<4 * CD2(w), h>> >>
        [] l = "p444" -> << <<4 * w, h>> >>
        [] l = "ar30" -> << <<4 * w, h>> >>
        [] l = "i1"   -> << <<w, h>> >>
        [] l = "i2"   -> << <<2 * w, h>> >>
        [] l = "i3"   -> << <<3 * w, h>> >>
        [] l = "i4"   -> << <<4 * w, h>> >>
        [] l = "none" -> <<>>
        [] l = "facts" -> << <<16, 1>> >>   \* a row of numbers about an image, not a picture

\* A component: <<plane, samples per row, rows per sample, columns per sample, step, offset>>
NoComp == <<0, 0, 1, 1, 0, 0>>
Cell(c, x, y) == c[6] + (y \div c[3]) * c[2] + (x \div c[4]) * c[5] + 1

\* Y, U, V, A of a YUV picture (visible samples only, rows packed)
YuvComps(l, sub, ord, w) ==
  LET cw == ChromaW(sub, w)
      rv == SubV(sub)
      rh == SubH(sub)
  IN  CASE l = "p3"  -> << <<1,w,1,1,1,0>>, <<2,cw,rv,rh,1,0>>, <<3,cw,rv,rh,1,0>>, NoComp >>
        [] l = "p3a" -> << <<1,w,1,1,1,0>>, <<2,cw,rv,rh,1,0>>, <<3,cw,rv,rh,1,0>>, <<4,w,1,1,1,0>> >>
        [] l = "nv"  -> IF ord = "vu"
                        THEN << <<1,w,1,1,1,0>>, <<2,2*cw,rv,rh,2,1>>, <<2,2*cw,rv,rh,2,0>>, NoComp >>
                        ELSE << <<1,w,1,1,1,0>>, <<2,2*cw,rv,rh,2,0>>, <<2,2*cw,rv,rh,2,1>>, NoComp >>
        [] l = "y"   -> << <<1,w,1,1,1,0>>, NoComp, NoComp, NoComp >>
        [] l = "ya"  -> << <<1,w,1,1,1,0>>, NoComp, NoComp, <<2,w,1,1,1,0>> >>
        [] l = "y422" ->
             LET p == 4 * CD2(w)
                 c(yo, uo, vo) == << <<1,p,1,1,2,yo>>, <<1,p,1,2,4,uo>>, <<1,p,1,2,4,vo>>, NoComp >>
             IN  (CASE ord = "yuyv" -> c(0, 1, 3)
                   [] ord = "uyvy" -> c(1, 0, 2)
                   [] ord = "yvyu" -> c(0, 3, 1)
                   [] ord = "vyuy" -> c(1, 2, 0))
        [] l = "p444" ->
             IF ord = "ayuv"
             THEN << <<1,4*w,1,1,4,1>>, <<1,4*w,1,1,4,2>>, <<1,4*w,1,1,4,3>>, <<1,4*w,1,1,4,0>> >>
             ELSE << <<1,4*w,1,1,4,2>>, <<1,4*w,1,1,4,1>>, <<1,4*w,1,1,4,0>>, <<1,4*w,1,1,4,3>> >>

\* R, G, B, A of an interleaved RGB picture
RgbOffsets(ord) ==
  CASE ord = "rgb"  -> <<0, 1, 2, -1>>
    [] ord = "bgr"  -> <<2, 1, 0, -1>>
    [] ord = "rgba" -> <<0, 1, 2, 3>>
    [] ord = "bgra" -> <<2, 1, 0, 3>>
    [] ord = "argb" -> <<1, 2, 3, 0>>
    [] ord = "abgr" -> <<3, 2, 1, 0>>
Channels(l) == CASE l = "i1" -> 1 [] l = "i2" -> 2 [] l = "i3" -> 3 [] l = "i4" -> 4
RgbComps(l, ord, w) ==
  LET n == Channels(l)
      o == RgbOffsets(ord)
  IN  [k \in 1..4 |-> IF o[k] < 0 THEN NoComp ELSE <<1, n * w, 1, 1, n, o[k]>>]

(***************************************************************************)
(* 30-bit packed pixels: three 10-bit channels and a 2-bit alpha in four   *)
(* bytes b1..b4, least significant first.  (Never assembled into one word: *)
(* TLC integers have 32 bits.)                                             *)
(***************************************************************************)
Unpack30(ord, b1, b2, b3, b4) ==
  LET c0 == b1 + 256 * (b2 % 4)          \* bits  0..9
      c1 == (b2 \div 4) + 64 * (b3 % 16)   \* bits 10..19
      c2 == (b3 \div 16) + 16 * (b4 % 64)  \* bits 20..29
      ct == b4 \div 64                     \* bits 30..31
      d0 == (b1 \div 4) + 64 * (b2 % 16)   \* bits  2..11
      d1 == (b2 \div 16) + 16 * (b3 % 64)  \* bits 12..21
      d2 == (b3 \div 64) + 4 * b4          \* bits 22..31
      dt == b1 % 4
  IN  CASE ord = "ar30" -> <<c0, c1, c2, ct>>
        [] ord = "ab30" -> <<c2, c1, c0, ct>>
        [] ord = "ra30" -> <<d2, d1, d0, dt>>
        [] ord = "ba30" -> <<d0, d1, d2, dt>>
Pix30(plane, ord, network, i) ==   \* i-th pixel (from 0) of a plane of bytes
  IF network = 1
  THEN Unpack30(ord, plane[4*i+4], plane[4*i+3], plane[4*i+2], plane[4*i+1])
  ELSE Unpack30(ord, plane[4*i+1], plane[4*i+2], plane[4*i+3], plane[4*i+4])

(***************************************************************************)
(* Memory footprint                                                        *)
(***************************************************************************)
\* The cells of a plane that hold visible samples, as maximal runs start, length, start, length ...
RECURSIVE RunList(_, _, _, _)
RunList(stride, n, row, rows) ==
  IF row = rows THEN <<>>
  ELSE <<row * stride, n>> \o RunList(stride, n, row + 1, rows)
VisibleRuns(stride, shape) ==
  IF shape[1] = 0 \/ shape[2] = 0 THEN <<>>
  ELSE IF stride = shape[1] THEN <<0, shape[1] * shape[2]>>
  ELSE RunList(stride, shape[1], 0, shape[2])

\* A plane description that holds its picture: every row fits its stride and every row is in the buffer
Fits(stride, len, shape) == stride >= shape[1] /\ len >= stride * (shape[2] - 1) + shape[1]
\* ... and is exactly `rows` strides long
Exact(stride, len, shape) == stride >= shape[1] /\ len = stride * shape[2]
=============================================================================
