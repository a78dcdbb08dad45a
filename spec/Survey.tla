------------------------------- MODULE Survey -------------------------------
(* Development aid: prints the smallest tolerance of a ladder each result needs. *)
EXTENDS Props, Json, IOUtils, Sequences
Log == ndJsonDeserialize(IOEnv.TRACE)
Ladder == <<90, 100, 105, 110, 118, 124, 128, 132, 136, 140, 145, 150, 156, 165, 172, 180, 190, 200, 212, 225, 240, 256, 270, 290, 310, 330, 345, 360, 384, 400, 420, 448, 480, 512, 545, 576, 600, 620, 640, 660, 680, 704, 730, 768, 800, 830, 860, 900, 930, 960, 1024, 1100, 1200, 1300, 1400, 1500, 2000, 3000, 5000, 10000, 100000, 100000000>>
VARIABLE l
One(e, j) == [e EXCEPT !.res = <<e.res[j]>>]
RECURSIVE Bisect(_, _, _)
\* the smallest k in a..b with Ok(Ladder[k]) (Ok holds at b)
Bisect(Ok(_), a, b) == IF a = b THEN Ladder[a] ELSE LET m == (a + b) \div 2 IN IF Ok(<<Ladder[m]>>) THEN Bisect(Ok, a, m) ELSE Bisect(Ok, m + 1, b)
S(c, e, b, kind, val) == PrintT("S" \o ToJson(<<c.fn, e.rg, e.md, e.mx, e.bd, e.pm, e.w, e.h, b, kind, val, e.id>>))
Small == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 32, 64, 128, 256, 1024, 65536>>
RECURSIVE Bis(_, _, _)
Bis(Ok(_), a, b) == IF a = b THEN Small[a] ELSE LET m == (a + b) \div 2 IN IF Ok(Small[m]) THEN Bis(Ok, a, m) ELSE Bis(Ok, m + 1, b)
Rep(e, past) ==
  LET c == Cat(e)
      K == IOEnv.KIND IN
  IF K = "holds" THEN
      (IF (Holds(IOEnv.PROP, e, past) = TRUE) THEN TRUE
       ELSE PrintT("S" \o ToJson(<<c.fn, c.file, IF "tag" \in DOMAIN e THEN e.tag ELSE "-", e.res[1].v, KindOf(e), e.id, e.w, e.h, e.dw, e.dh, e.ss, e.sl, e.ds, e.dl, e.op, [j \in 1..Len(e.res) |-> <<e.res[j].b, e.res[j].v>>]>>))) ELSE
  IF ~AllClean(e) THEN S(c, e, e.res[1].b, "unclean", 0) ELSE
  IF K = "spread" THEN
      (IF Len(e.res) = 1 THEN S(c, e, e.res[1].b, "s", 0) ELSE LET O(t) == Spread(e, t) IN S(c, e, e.res[1].b, "s", Bis(O, 1, Len(Small)))) ELSE
  \A j \in 1..Len(e.res) :
    LET f == One(e, j)
        b == e.res[j].b
        D(t) == DecodeOk(f, t)
        L(t) == LumaOk(f, t)
        C(t) == ChromaOk(f, t)
        ShY(t) == SharpOk(f, t[1], 100000000)
        ShC(t) == SharpOk(f, 100000000, t[1])
        RE(t) == RdpEncOk(f, t[1])
        RD(t) == RdpDecOk(f, t[1])
        RT(t) == RdpTripOk(f, past[1], t)
        GE(t) == GrayEnc(f, t)
        GD(t) == GrayDec(f, t)
        TR(t) == TripOk(f, past[1], t[1])
        n == Len(Ladder)
        z == Len(Small)
    IN CASE K = "colour" ->
              (IF c.fam = "dec" THEN S(c, e, b, "d", Bisect(D, 1, n))
               ELSE S(c, e, b, "y", Bisect(L, 1, n)) /\ (c.dl = "y" \/ c.mx = "gbr" \/ S(c, e, b, "c", Bisect(C, 1, n))))
         [] K = "sharp" -> S(c, e, b, "y", Bisect(ShY, 1, n)) /\ S(c, e, b, "c", Bisect(ShC, 1, n))
         [] K = "rdp" -> IF c.fam = "rdpenc" THEN S(c, e, b, "y", Bisect(RE, 1, n))
                         ELSE S(c, e, b, "d", Bisect(RD, 1, n)) /\ (Len(past) = 0 \/ S(c, e, b, "t", Bis(RT, 1, z)))
         [] K = "trip" -> IF c.fam = "enc" THEN S(c, e, b, "g", Bis(GE, 1, z))
                          ELSE S(c, e, b, "g", Bis(GD, 1, z)) /\ (Len(past) = 0 \/ S(c, e, b, "t", Bisect(TR, 1, n)))
VARIABLE past
Init == l = 1 /\ past = <<>>
Next == /\ l <= Len(Log)
        /\ (Rep(Log[l], IF Log[l].step = 2 THEN [k \in 1..Len(past) |-> Log[past[k]]] ELSE <<>>) = TRUE)
        /\ l' = l + 1
        /\ past' = IF Log[l].step = 2 THEN Append(past, l) ELSE <<l>>
Spec == Init /\ [][Next]_<<l, past>>
=============================================================================
