------------------------------- MODULE Colour -------------------------------
(***************************************************************************)
(* The colour arithmetic of ITU-T H.273 in exact fixed point.              *)
(*                                                                         *)
(* Matrices are given by kr and kb in 1/10000.  Coefficients are computed  *)
(* here, by long division, in 1/2^24 (never copied from the code); a       *)
(* product of a sample and a coefficient is in 1/256 of a destination      *)
(* step.  All intermediate values stay below 2^31.                         *)
(***************************************************************************)
EXTENDS Layout

Pow2(n) == 2 ^ n
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

\* 0 BT.601, 1 BT.709, 2 BT.2020 (ncl), 3 SMPTE 240M, 4 BT.470 as the crate defines it, 5 FCC
KrTab == <<2990, 2126, 2627, 2120, 2220, 3000>>
KbTab == <<1140,  722,  593,  870,  713, 1100>>

\* <<luma bias, chroma bias, luma range, chroma range>> at depth d
RangeOf(d, full) ==
  IF full = 1 THEN <<0, Pow2(d - 1), Pow2(d) - 1, Pow2(d) - 1>>
  ELSE <<16 * Pow2(d - 8), Pow2(d - 1), 219 * Pow2(d - 8), 224 * Pow2(d - 8)>>

RECURSIVE LongDiv(_, _, _, _)
LongDiv(q, rem, den, n) ==
  IF n = 0 THEN q
  ELSE IF 2 * rem >= den THEN LongDiv(2 * q + 1, 2 * rem - den, den, n - 1)
       ELSE LongDiv(2 * q, 2 * rem, den, n - 1)
Q24(num, den) == LongDiv(num \div den, num % den, den, 24)
\* c * num / den for den <= 20000
MulRat(c, num, den) == (c \div den) * num + ((c % den) * num) \div den
\* sample * coefficient, in 1/256
Mul(x, c) == (x * (c \div 4096)) \div 16 + (x * (c % 4096)) \div 65536

\* A coefficient kept with `bits` fractional bits and capped (the 6-bit fast mode)
Coarse(c, bits, cap) ==
  LET u == Pow2(24 - bits) IN Min2(((c + u \div 2) \div u), cap) * u

----------------------------------------------------------------------------
\* YUV -> RGB: <<bias_y, bias_c, y, cr, cb, g_u, g_v>>; result in steps of M = 2^dd - 1
DecodeCoef(kr, kb, sd, full, mo) ==
  LET r == RangeOf(sd, full)
      kg == 10000 - kr - kb
      cy == Q24(mo, r[3])
      cc == Q24(mo, r[4])
      cr == MulRat(cc, 2 * (10000 - kr), 10000)
      cb == MulRat(cc, 2 * (10000 - kb), 10000)
  IN  <<r[1], r[2], cy, cr, cb, MulRat(cb, kb, kg), MulRat(cr, kr, kg)>>
\* Fast mode: 6 fractional bits, chroma coefficients below 2
FastDecodeCoef(k) ==
  <<k[1], k[2], Coarse(k[3], 6, 255), Coarse(k[4], 6, 127), Coarse(k[5], 6, 127),
    Coarse(k[6], 6, 127), Coarse(k[7], 6, 127)>>
\* Packed 4:2:2: 6 fractional bits throughout
CoarseDecodeCoef(k) == <<k[1], k[2]>> \o [i \in 1..5 |-> Coarse(k[i + 2], 6, 255)]
\* Scaling by a power of two instead of by the ratio of the largest values of the depths
ShiftDecodeCoef(k, sd, dd) ==
  LET q == ((Pow2(dd) - 1) * Pow2(sd - dd)) \div (Pow2(sd - dd) - 1)
  IN  <<k[1], k[2]>> \o [i \in 1..5 |-> k[i + 2] + k[i + 2] \div q]
KrDecode(k, y, u, v) ==
  LET yy == Mul(y - k[1], k[3])
  IN  <<yy + Mul(v - k[2], k[4]), yy - Mul(u - k[2], k[6]) - Mul(v - k[2], k[7]), yy + Mul(u - k[2], k[5])>>

\* YCgCo -> RGB: <<bias_y, bias_c, y, c>>
YcgcoDecodeCoef(sd, full, mo) ==
  LET r == RangeOf(sd, full) IN <<r[1], r[2], Q24(mo, r[3]), Q24(mo, r[4])>>
YcgcoDecode(k, y, cg, co) ==
  LET yy == Mul(y - k[1], k[3])
      g  == Mul(cg - k[2], k[4])
      o  == Mul(co - k[2], k[4])
  IN  <<yy - g + o, yy + g, yy - g - o>>

\* GBR planes -> RGB
GbrDecode(k, g, b, r) == <<Mul(r - k[1], k[3]), Mul(g - k[1], k[3]), Mul(b - k[1], k[3])>>

----------------------------------------------------------------------------
\* RGB -> YUV: <<bias_y, bias_c, yr, yg, yb, ur, ug, ub, vr, vg, vb>>, source steps of mi
EncodeCoef(kr, kb, d, full, mi) ==
  LET r  == RangeOf(d, full)
      kg == 10000 - kr - kb
      cy == Q24(r[3], mi)
      cc == Q24(r[4], mi)
      h  == cc \div 2
  IN  <<r[1], r[2], MulRat(cy, kr, 10000), MulRat(cy, kg, 10000), MulRat(cy, kb, 10000),
        -MulRat(h, kr, 10000 - kb), -MulRat(h, kg, 10000 - kb), h,
        h, -MulRat(h, kg, 10000 - kr), -MulRat(h, kb, 10000 - kr)>>
YcgcoEncodeCoef(d, full, mi) ==
  LET r  == RangeOf(d, full)
      cy == Q24(r[3], mi)
      cc == Q24(r[4], mi)
  IN  <<r[1], r[2], cy \div 4, cy \div 2, cy \div 4,
        -(cc \div 4), cc \div 2, -(cc \div 4), cc \div 2, 0, -(cc \div 2)>>
\* GBR: the planes are G, B, R, all treated as luma
GbrEncodeCoef(d, full, mi) ==
  LET r  == RangeOf(d, full)
      cy == Q24(r[3], mi)
  IN  <<r[1], r[1], 0, cy, 0, 0, 0, cy, cy, 0, 0>>
LumaOf(k, r, g, b) == 256 * k[1] + Mul(r, k[3]) + Mul(g, k[4]) + Mul(b, k[5])
\* of n summed pixels, n in {1, 2, 4}
CbOf(k, n, r, g, b) == 256 * k[2] + (Mul(r, k[6]) + Mul(g, k[7]) + Mul(b, k[8])) \div n
CrOf(k, n, r, g, b) == 256 * k[2] + (Mul(r, k[9]) + Mul(g, k[10]) + Mul(b, k[11])) \div n

----------------------------------------------------------------------------
\* v * a / m for 0 <= v < 2^24, 0 <= a <= m < 2^16
Scale(v, a, m) ==
  IF m < 32768 THEN (v \div m) * a + ((v % m) * a) \div m
  ELSE (v \div m) * a + ((v % m) * (a \div 2)) \div (m \div 2)
=============================================================================
