-------------------------------- MODULE Plans --------------------------------
(***************************************************************************)
(* The client of the library: for every property a plan of chains of       *)
(* calls.  Start(g) is the first call of chain g, Follow(s) the calls that *)
(* may follow s.  All choices come from the chain's number, the step and   *)
(* Seed, so the same constants give the same calls.                        *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils, SequencesExt

CONSTANTS Plan,      \* property whose obligations are to be exercised
          Seed,
          Budget,    \* about how many chains
          Small      \* pictures of a few pixels (for the design model) or of hundreds

Mix(x) == ((x % 999983) * 2017 + 7919) % 999983
\* a number in 0..n-1 for chain g, purpose s
Hash(g, s) == Mix(Mix(Mix(Seed % 999983) + g) + 31 * s + 7)
Rnd(g, s, n) == (Hash(g, s) \div 3) % n
Pick(g, s, t) == t[Rnd(g, s, Len(t)) + 1]

----------------------------------------------------------------------------
\* Which entry points a plan concerns
Gray(c) == c.sl \in {"y", "ya"} \/ c.dl = "y"
Structs == {"check", "alloc"}     \* the image structures themselves
Ownable(l) == l \in {"p3", "nv", "y", "y422"}   \* layouts whose images can own their planes
Selects(c) == IF c.fam \in Structs THEN Plan \in {"C26"} \/ (Plan = "C28" /\ c.fam = "check") ELSE
  CASE Plan \in {"C01", "C02", "C03", "C10", "C22", "C27", "C28"} -> TRUE
    [] Plan = "C29" -> c.fam \notin {"rotate", "mirror"}
    [] Plan = "C04" -> c.fam = "dec" /\ c.mx = "kr" /\ c.sd = 8 /\ ~Gray(c)
    [] Plan = "C05" -> c.fam = "dec" /\ c.mx = "kr" /\ c.sd # 8 /\ ~Gray(c)
    [] Plan = "C06" -> c.fam = "enc" /\ c.mx = "kr" /\ c.sd = 8 /\ ~Gray(c)
    [] Plan = "C07" -> c.fam = "enc" /\ c.mx = "kr" /\ c.sd # 8 /\ ~Gray(c)
    [] Plan = "C08" -> c.fam \in {"dec", "enc", "pack", "unpack", "rdpenc", "rdpdec"}
    [] Plan = "C09" -> c.fam \in {"dec", "enc", "pack", "unpack", "sharp", "rdpdec", "rdpenc", "pk30", "unpk30"}
    [] Plan = "C11" -> c.fam = "dec" /\ (c.dl \in {"i4", "ar30"} \/ c.premul = 1)
    [] Plan = "C12" -> c.fam \in {"pack", "unpack"}
    [] Plan = "C13" -> c.mx = "gbr"
    [] Plan = "C14" -> c.mx = "ycgco"
    [] Plan = "C15" -> c.fam = "shuffle"
    [] Plan = "C16" -> c.fam \in {"rotate", "mirror"}
    [] Plan = "C17" -> c.fam \in {"pk30", "unpk30"}
    [] Plan = "C18" -> c.fam \in {"tof16", "fromf16"}
    [] Plan = "C19" -> c.sbe = 1 \/ c.dbe = 1 \/ c.smsb = 1 \/ c.dmsb = 1 \/ (c.dt = "u16" /\ c.dd \in {10, 12, 14})
    [] Plan = "C20" -> c.fam = "sharp"
    [] Plan = "C21" -> c.fam \in {"rdpdec", "rdpenc"}
    [] Plan = "C23" -> c.fam = "enc" /\ c.dl # "y"
    [] Plan = "C24" -> Gray(c)
    [] Plan = "C26" -> Ownable(c.sl) \/ Ownable(c.dl)
    [] Plan = "C25" -> c.st # "u8" /\ c.smsb = 0
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Sel == TLCEval(LET all == SelectSeq([i \in 1..Len(Catalog) |-> i], LAMBDA i : Selects(Catalog[i]))
               IN  IF Plan = "C26" THEN all \o Times(SelectSeq(all, LAMBDA i : Catalog[i].fam \in Structs), 19) ELSE all)
NSel == Len(Sel)
\* every selected entry point gets the same number of chains
PerFn == Max2(1, Budget \div NSel)
Chains == 1 .. NSel * PerFn
FnOf(g) == Sel[((g - 1) % NSel) + 1]
Turn(g) == (g - 1) \div NSel

----------------------------------------------------------------------------
\* Layout of component numbers in memory, so that a seed gives the same picture in every layout
SP(l) == CASE l = "p3" -> <<1,1,1>> [] l = "p3a" -> <<1,1,1,1>> [] l = "nv" -> <<1,2>>
           [] l = "y" -> <<1>> [] l = "ya" -> <<1,1>> [] l = "y422" -> <<4>> [] l = "p444" -> <<4>>
           [] l = "ar30" -> <<4>> [] l = "i1" -> <<1>> [] l = "i2" -> <<2>> [] l = "i3" -> <<3>> [] l = "i4" -> <<4>>
           [] l = "none" -> <<>>
SC(l, ord) ==
  CASE l = "p3" -> <<0,1,2>> [] l = "p3a" -> <<0,1,2,3>>
    [] l = "nv" -> (IF ord = "vu" THEN <<0,2,1>> ELSE <<0,1,2>>)
    [] l = "y" -> <<0>> [] l = "ya" -> <<0,3>>
    [] l = "y422" -> (CASE ord = "yuyv" -> <<0,1,4,2>> [] ord = "uyvy" -> <<1,0,2,4>>
                        [] ord = "yvyu" -> <<0,2,4,1>> [] ord = "vyuy" -> <<2,0,1,4>>)
    [] l = "p444" -> (IF ord = "ayuv" THEN <<3,0,1,2>> ELSE <<2,1,0,3>>)
    [] l = "ar30" -> <<0,1,2,3>> [] l = "i1" -> <<0>> [] l = "i2" -> <<0,1>>
    [] l = "i3" -> (IF ord = "bgr" THEN <<2,1,0>> ELSE <<0,1,2>>)
    [] l = "none" -> <<>>
    [] l = "i4" -> (CASE ord = "bgra" -> <<2,1,0,3>> [] ord = "argb" -> <<3,0,1,2>>
                      [] ord = "abgr" -> <<3,2,1,0>> [] OTHER -> <<0,1,2,3>>)
\* a gray picture: all colour components alike
GrayOf(sc) == [i \in 1..Len(sc) |-> IF sc[i] = 3 THEN 3 ELSE 0]

Widths == << <<1, 8>>, <<9, 17>>, <<18, 34>>, <<33, 66>>, <<65, 131>>, <<129, 257>> >>
UsualWidth(g) == IF Small THEN 1 + Rnd(g, 2, 5) ELSE
              LET s == Widths[((Turn(g) + Rnd(FnOf(g), 1, 6)) % 6) + 1]
              IN  IF Rnd(g, 2, 5) = 0 /\ s[1] > 8
                  THEN Pick(g, 3, << s[1] - (s[1] % 8), s[1] + 7 - (s[1] % 8), 8 * (s[2] \div 8), 8 * (s[2] \div 8) - 1, 8 * (s[2] \div 8) + 1 >>)
                  ELSE s[1] + Rnd(g, 3, s[2] - s[1] + 1)
\* now and then many rows, or a row of many blocks
Shape(g) == IF Small THEN 2 ELSE Rnd(g, 6, 20)
WidthOf(g) == CASE Shape(g) = 0 -> 1 + Rnd(g, 7, 20)
                [] Shape(g) = 1 -> 258 + Rnd(g, 7, IF Rnd(g, 8, 3) = 0 THEN 1500 ELSE 400)
                [] OTHER -> UsualWidth(g)
HeightOf(g, w) == CASE Small -> 1 + Rnd(g, 4, 4)
                    [] w > 257 -> 1 + Rnd(g, 4, 2)
                    [] Shape(g) = 0 -> 7 + Rnd(g, 4, 60)
                    [] Plan = "C22" /\ w <= 60 -> 1 + Rnd(g, 4, 18)
                    [] OTHER -> 1 + Rnd(g, 4, IF w > 128 THEN 3 ELSE IF w > 60 THEN 4 ELSE 6)
PadTab == <<1, 2, 3, 5, 16, 64, 4, 0>>
PadOf(g, k) == IF Rnd(g, 5, 3) = 0 THEN 0 ELSE PadTab[Rnd(g, 60 + k, 8) + 1]

Strides(g, sh, z) == [k \in 1..Len(sh) |-> sh[k][1] + PadOf(g, z + k)]
Lens(st, sh) == [k \in 1..Len(sh) |-> st[k] * sh[k][2]]

\* The scenario of an entry point on a picture of size w x h
Depths == <<10, 12, 16>>
Matrix(g) == LET m == Rnd(g, 12, 10) IN IF m > 6 THEN 6 ELSE m % 6
Fill(c, g, rg) ==
  LET sd == SDep(c, Pick(g, 14, Depths))
      u == Pow2(sd - 8)
  IN  CASE c.st \in {"f16", "i16"} \/ c.sl = "ar30" -> [fill |-> ""]
        [] OTHER ->
           (CASE (Turn(g) + Rnd(FnOf(g), 6, 8)) % 4 = 0 -> [fill |-> ""]
              [] (Turn(g) + Rnd(FnOf(g), 6, 8)) % 4 = 1 ->
                   IF rg = 0 /\ c.fam = "dec" THEN [fill |-> "rnd", lo |-> 16 * u, hi |-> 235 * u]
                   ELSE [fill |-> "rnd", lo |-> 0, hi |-> Pow2(sd) - 1]
              [] (Turn(g) + Rnd(FnOf(g), 6, 8)) % 4 = 2 -> [fill |-> "mid"]
              [] OTHER -> (IF Rnd(g, 9, 3) = 0 THEN [fill |-> "flat"] ELSE [fill |-> ""]))

Scenario(ci, g, step, w, h) ==
  LET c  == Catalog[ci]
      bd == IF c.fam \in {"tof16", "fromf16"} THEN Pick(g, 14, <<8, 10, 12, 14, 16>>) ELSE Pick(g, 14, Depths)
      z  == IF Plan = "C16" THEN 15 + 100 * step ELSE 15
      op == CASE c.fam = "rotate" -> Rnd(g, z, 3) [] c.fam = "mirror" -> Rnd(g, z, 2)
              [] c.fam = "sharp" -> Rnd(g, 15, 4) [] OTHER -> 0
      ds == DSize(c, w, h, op)
      sh == SShapes(c, w, h)
      dh == DShapes(c, ds[1], ds[2])
      ss == Strides(g + 1000 * step, sh, 0)
      dt == Strides(g + 1000 * step, dh, 10)
      sd == SDep(c, bd)
      rg == Rnd(g, 11, 2)
      base == [g |-> g, k |-> step, fn |-> c.fn, c |-> ci, w |-> w, h |-> h, dw |-> ds[1], dh |-> ds[2],
               st |-> c.st, dt |-> c.dt, ss |-> ss, sl |-> Lens(ss, sh),
               sw |-> [j \in 1..Len(sh) |-> sh[j][1]], sr |-> [j \in 1..Len(sh) |-> sh[j][2]],
               ds |-> dt, dl |-> Lens(dt, dh),
               dv |-> [j \in 1..Len(dh) |-> dh[j][1]], dr |-> [j \in 1..Len(dh) |-> dh[j][2]],
               rg |-> rg, mx |-> Matrix(g), kr |-> 1500 + Rnd(g, 16, 2000), kb |-> 500 + Rnd(g, 17, 1000),
               md |-> IF c.mode = 1 THEN (Turn(g) + Rnd(ci, 18, 3)) % 3 ELSE 0,
               bo |-> IF c.bo = 1 THEN Rnd(g, 19, 2) ELSE 0, pm |-> 0, bd |-> bd, op |-> op,
               smax |-> IF c.sl = "ar30" THEN 255 ELSE Pow2(IF c.st \in {"f16", "i16"} THEN 15 ELSE sd) - 1,
               sshift |-> IF c.smsb = 1 THEN 16 - sd ELSE 0, sbe |-> c.sbe,
               seed |-> Hash(g, 20), sp |-> SP(c.sl), sc |-> SC(c.sl, c.sord)]
  IN  Fill(c, g, rg) @@ base

First(g) == Scenario(FnOf(g), g, 0, WidthOf(g), HeightOf(g, WidthOf(g)) + (IF Plan = "C29" THEN 2 ELSE 0))

----------------------------------------------------------------------------
\* Plans
EndsOnly == "ENDS" \in DOMAIN IOEnv   \* development: only the buffers of known_findings.jsonl
\* C01: a description with one thing wrong (or just unusual)
\* a kind of description, and the plane it is about (0: any)
Kinds == << <<"good", 0>>, <<"short", 1>>, <<"narrow", 2>>, <<"w0", 0>>, <<"short", 3>>, <<"narrow", 4>>, <<"size", 0>>, <<"narrow", 1>>,
            <<"short", 2>>, <<"h0", 0>>, <<"narrow", 3>>, <<"short", 4>>, <<"wide", 0>>, <<"tall", 0>>, <<"hugestride", 0>>,
            <<"tight", 0>>, <<"over", 0>>, <<"stride0", 0>>, <<"off1", 0>>, <<"empty", 0>> >>
Lists(s) == <<s.ss, s.ds>>
Mutate(s, g) ==
  LET kp == IF EndsOnly THEN << <<"tight", "over", "hugestride", "size">>[(Turn(g) % 4) + 1], 0>> ELSE IF Plan = "C26" THEN Kinds[Rnd(g, 29, Len(Kinds)) + 1]
              ELSE Kinds[(Turn(g) % Len(Kinds)) + 1]
      kind == kp[1]
      ns == Len(s.ss)
      n == ns + Len(s.ds)
      p == IF kp[2] = 0 THEN Rnd(g, 30, n) + 1 ELSE ((kp[2] - 1) % n) + 1
      IsS == p <= ns
      q == IF IsS THEN p ELSE p - ns
      row == IF IsS THEN s.sw[q] ELSE s.dv[q]
      rows == IF IsS THEN s.sr[q] ELSE s.dr[q]
      st == IF IsS THEN s.ss[q] ELSE s.ds[q]
      SetSt(v) == IF IsS THEN [s EXCEPT !.ss[q] = v] ELSE [s EXCEPT !.ds[q] = v]
      SetLen(v) == IF IsS THEN [s EXCEPT !.sl[q] = v] ELSE [s EXCEPT !.dl[q] = v]
      nd == [nd |-> 1, tag |-> kind]
      \* a call that takes one size takes it for both pictures
      Resize(w, h, dw, dh) ==
        LET d == IF TwoSizes(Cat(s)) THEN <<dw, dh>> ELSE DSize(Cat(s), w, h, s.op)
        IN  [s EXCEPT !.w = w, !.h = h, !.dw = d[1], !.dh = d[2]]
      big == IF Plan = "C28" THEN Pick(g, 31, <<65536, 40000>>) ELSE Pick(g, 31, <<-1, 2147483647, 1073741824, 65536, 1000000>>)
  IN  CASE kind = "good"   -> [tag |-> kind] @@ s
        [] kind = "w0"     -> nd @@ Resize(0, s.h, Pick(g, 32, <<0, s.dw>>), s.dh)
        [] kind = "h0"     -> nd @@ Resize(s.w, 0, s.dw, Pick(g, 32, <<0, s.dh>>))
        [] kind = "narrow" -> nd @@ SetSt(IF Rnd(g, 33, 2) = 0 THEN row - 1 ELSE (row + 1) \div 2)
        [] kind = "stride0" -> nd @@ SetSt(0)
        [] kind = "short"  -> nd @@ SetLen(Max2(0, IF Rnd(g, 34, 2) = 0 THEN st * (rows - 1) + row - 1 ELSE st * (rows - 1) - 1))
        [] kind = "off1"   -> nd @@ SetLen(st * (rows - 1) + row - 1)
        [] kind = "empty"  -> nd @@ SetLen(0)
        [] kind = "size"   -> nd @@ (CASE Rnd(g, 35, 4) = 0 -> Resize(s.w + 1, s.h, s.dw, s.dh)
                                        [] Rnd(g, 35, 4) = 1 -> Resize(Max2(1, s.w - 1), s.h, s.dw, s.dh)
                                        [] Rnd(g, 35, 4) = 2 -> Resize(s.w, s.h + 1, s.dw, s.dh)
                                        [] OTHER -> Resize(s.w, Max2(1, s.h - 1), s.dw, s.dh))
        [] kind = "wide"   -> nd @@ Resize(big, s.h, big, s.dh)
        [] kind = "tall"   -> nd @@ Resize(s.w, big, s.dw, big)
        [] kind = "hugestride" -> nd @@ SetSt(big)
        [] kind = "tight"  -> [nd |-> 1, tag |-> kind] @@ SetLen(st * (rows - 1) + row)
        [] kind = "over"   -> [nd |-> 1, tag |-> kind] @@ SetLen(st * rows + Pick(g, 37, <<1, row, st, 2 * st, 3>>))

\* C02: now and then a plane that ends with its last sample, or has room to spare
Ends(s, g) ==
  CASE (IF EndsOnly THEN 5 + 2 * (Turn(g) % 2) ELSE Turn(g) % 8) = 5 -> [tag |-> "tight"] @@ [s EXCEPT !.sl = [j \in 1..Len(s.ss) |-> s.ss[j] * (s.sr[j] - 1) + s.sw[j]],
                                                       !.dl = [j \in 1..Len(s.ds) |-> s.ds[j] * (s.dr[j] - 1) + s.dv[j]]]
    [] EndsOnly \/ Turn(g) % 8 = 7 -> [tag |-> "over"] @@ [s EXCEPT !.sl = [j \in 1..Len(s.ss) |-> s.ss[j] * s.sr[j] + Pick(g, 40, <<0, s.ss[j]>>)],
                                                      !.dl = [j \in 1..Len(s.ds) |-> s.ds[j] * s.dr[j] + Pick(g, 41, <<1, s.ds[j]>>)]]
    [] OTHER -> s

\* Pixels across (or down) per group of components, for every plane
Spans(l, sub, n) ==
  CASE l = "p3" -> <<1, n, n>> [] l = "p3a" -> <<1, n, n, 1>> [] l = "nv" -> <<1, n>>
    [] l = "ya" -> <<1, 1>> [] OTHER -> <<n>>
\* C08: one sample with another value
OneSample(s, g, step) ==
  LET p == Rnd(g, 50 + 10 * step, Len(s.ss)) + 1
      \* positions near the ends of rows and of vector blocks are as likely as all others together
      x == IF Rnd(g, 51 + 10 * step, 2) = 0 THEN s.sw[p] - 1 - Rnd(g, 52 + 10 * step, Min2(s.sw[p], 9)) ELSE Rnd(g, 52 + 10 * step, s.sw[p])
      y == IF Rnd(g, 53 + 10 * step, 3) = 0 THEN s.sr[p] - 1 ELSE Rnd(g, 54 + 10 * step, s.sr[p])
      v == Pick(g, 55 + 10 * step, <<0, s.smax, Rnd(g, 56 + 10 * step, s.smax + 1)>>)
  IN  [px |-> <<p - 1, y, x, v>>] @@ [s EXCEPT !.k = step]
\* ... or other values everywhere inside (or everywhere outside) a box of whole chroma blocks <<x0, y0, x1, y1, outside?, seed>>
Boxed(s, g, step) ==
  LET z == 50 + 10 * step
      cw == CD2(s.w)
      ch == CD2(s.h)
      x0 == IF step = 2 \/ Rnd(g, z, 3) = 0 THEN 2 * (cw - 1 - (IF Rnd(g, z + 1, 3) = 0 THEN Rnd(g, z + 2, Min2(cw, 5)) ELSE 0)) ELSE 2 * Rnd(g, z + 2, cw)
      x1 == IF step = 2 \/ Rnd(g, z + 3, 2) = 0 THEN s.w ELSE Min2(s.w, x0 + 2 * (1 + Rnd(g, z + 4, Pick(g, z + 5, <<1, 4, 16, cw>>))))
      y0 == IF Rnd(g, z + 6, 2) = 0 THEN 0 ELSE 2 * Rnd(g, z + 7, ch)
      y1 == IF y0 = 0 \/ Rnd(g, z + 8, 2) = 0 THEN s.h ELSE Min2(s.h, y0 + 2)
      c == Cat(s)
  IN  [bx |-> <<x0, y0, x1, y1, IF step = 2 THEN 1 ELSE Rnd(g, z + 9, 2), Hash(g, z)>>,
       ph |-> Spans(c.sl, c.ssub, SubH(c.ssub)), pv |-> Spans(c.sl, c.ssub, SubV(c.ssub))] @@ [s EXCEPT !.k = step]
Without(s, names) == [f \in DOMAIN s \ names |-> s[f]]

\* C09, C19: the entry points that differ from ci only in the order in which channels are stored
Core(c) == <<c.fam, c.ssub, c.sd, c.dsub, c.dd, c.st, c.dt, c.mx, c.smsb, c.dmsb, c.mode, c.file>>
SrcClass(l) == l
DstClass(l) == IF l \in {"i3", "i4"} THEN "rgb" ELSE l
Sibling(a, b) ==
  /\ Core(a) = Core(b)
  /\ a.sbe = b.sbe /\ a.dbe = b.dbe
  /\ DstClass(a.sl) = DstClass(b.sl)
  /\ DstClass(a.dl) = DstClass(b.dl)
  /\ a.alpha = b.alpha
  /\ a.sl = "ar30" => a.sord = b.sord   \* packed words are random: another order reads another picture
SiblingsOf(ci) == SelectSeq([i \in 1..Len(Catalog) |-> i], LAMBDA i : i # ci /\ Sibling(Catalog[ci], Catalog[i]))
EndianTwin(a, b) == a.fam = b.fam /\ a.sl = b.sl /\ a.dl = b.dl /\ a.ssub = b.ssub /\ a.dsub = b.dsub /\ a.sd = b.sd /\ a.dd = b.dd
                    /\ a.sord = b.sord /\ a.dord = b.dord /\ a.st = b.st /\ a.dt = b.dt /\ a.mx = b.mx /\ a.smsb = b.smsb /\ a.dmsb = b.dmsb
                    /\ a.alpha = b.alpha /\ (a.sbe # b.sbe \/ a.dbe # b.dbe)
TwinsOf(ci) == SelectSeq([i \in 1..Len(Catalog) |-> i], LAMBDA i : EndianTwin(Catalog[ci], Catalog[i]))
\* the same picture and arguments through another entry point
Through(s, ci, step) ==
  LET c == Catalog[ci]
      n == Scenario(ci, s.g, step, s.w, s.h)
      F(x) == [x EXCEPT !.rg = s.rg, !.mx = s.mx, !.kr = s.kr, !.kb = s.kb, !.md = s.md, !.bo = s.bo, !.pm = s.pm, !.bd = s.bd,
                        !.op = s.op, !.seed = s.seed, !.fill = s.fill]
      L(x) == IF "lo" \in DOMAIN s THEN [lo |-> s.lo, hi |-> s.hi] @@ x ELSE x
  IN  L(F(n))

\* Chains: the destination picture of the last call is the source of the next
Accepts(prev, c) ==   \* c reads what prev wrote
  LET p == Cat(prev) IN
  c.sl = p.dl /\ c.ssub = p.dsub /\ c.sord = p.dord /\ c.st = p.dt /\ c.sd = p.dd /\ c.sbe = p.dbe /\ c.smsb = p.dmsb
Then(prev, ci, step) ==
  LET n == Scenario(ci, prev.g, step, prev.dw, prev.dh)
  IN  [ch |-> 1] @@ [n EXCEPT !.rg = prev.rg, !.mx = prev.mx, !.kr = prev.kr, !.kb = prev.kb, !.bd = prev.bd, !.bo = prev.bo,
                              !.md = IF Catalog[ci].mode = 1 THEN prev.md ELSE 0]
NextFns(prev, Want(_)) == SelectSeq([i \in 1..Len(Catalog) |-> i], LAMBDA i : Want(Catalog[i]) /\ Accepts(prev, Catalog[i]))
Choose(s, step, seq) == seq[Rnd(s.g, 70 + step, Len(seq)) + 1]

Start(g) ==
  LET s == First(g)
      c == Catalog[FnOf(g)]
  IN  CASE Plan \in {"C01", "C28"} -> Mutate(s, g)
        [] Plan = "C27" -> [fr |-> 1] @@ s
        [] Plan = "C02" -> Ends(s, g)
        [] Plan = "C11" -> IF c.premul = 1 THEN [s EXCEPT !.pm = Turn(g) % 2] ELSE s
        [] Plan \in {"C03", "C10", "C22", "C29"} -> IF c.premul = 1 THEN [s EXCEPT !.pm = Rnd(g, 42, 2)] ELSE s
        [] Plan = "C22" -> s
        [] Plan = "C26" -> IF c.fam = "check" THEN Mutate(s, g) ELSE s
        [] Plan = "C25" -> [gz |-> 1] @@ s
        [] Plan = "C23" -> IF Turn(g) % 3 = 0 THEN [s EXCEPT !.sc = GrayOf(s.sc)]
                           ELSE IF c.dsub # 444 THEN [s EXCEPT !.fill = "flat"] ELSE s
        [] Plan = "C20" -> IF Turn(g) % 5 = 0 THEN [s EXCEPT !.fill = "flat"] ELSE s
        [] OTHER -> s

\* C27: between two calls that must agree, the same entry point with other arguments and another one
\* with its own; then the first call again, alone and at the same time as all of them
Other(g, ci, step) ==
  LET s == First(g)
      h == Scenario(ci, g + NSel * (1 + Rnd(g, 90, 50)), step, WidthOf(g + Rnd(g, 91, 2) * NSel), HeightOf(g, s.w))
      n == IF Rnd(g, 92, 3) > 0 THEN h ELSE [h EXCEPT !.rg = s.rg, !.mx = s.mx, !.md = s.md, !.bd = s.bd]
  IN  [n EXCEPT !.g = g, !.pm = IF Catalog[ci].premul = 1 THEN Rnd(g, 93, 2) ELSE 0]
Later(g, k) ==
  CASE k = 1 -> Other(g, FnOf(g), 1)
    [] k = 2 -> LET o == Other(g, FnOf(1 + Rnd(g, 94, NSel)), 2)
                    s == IF Rnd(g, 95, 2) = 0 THEN o ELSE [Other(g, FnOf(g), 1) EXCEPT !.k = 2]
                \* now and then a call that is refused
                IN  IF Rnd(g, 96, 3) > 0 THEN s
                    ELSE [s EXCEPT !.dl[1] = s.ds[1] * (s.dr[1] - 1) + s.dv[1] - 1]
    [] k = 3 -> [eq |-> 1] @@ [Without(Start(g), {"fr"}) EXCEPT !.k = 3]
    [] k = 4 -> [eq |-> 1, th |-> 1] @@ [Without(Start(g), {"fr"}) EXCEPT !.k = 4]

\* C29: some rows of the same picture, from a row that starts a chroma block; whole blocks of rows, or up to the end
Band(s, k) ==
  LET c == Cat(s)
      z == 100 + 5 * k
      v == Max2(SubV(c.ssub), SubV(c.dsub))
      y == v * Rnd(s.g, z, (s.h + v - 1) \div v)
      \* sharp encoding looks at the next row
      h == IF c.fam = "sharp" \/ Rnd(s.g, z + 1, 3) = 0 THEN s.h - y
           ELSE Min2(s.h - y, v * (1 + Rnd(s.g, z + 2, Pick(s.g, z + 3, <<1, 2, 8>>))))
      a == Spans(c.sl, c.ssub, SubV(c.ssub))
      b == Spans(c.dl, c.dsub, SubV(c.dsub))
  IN  [ro |-> [p \in 1..Len(a) |-> y \div a[p]], rd |-> [p \in 1..Len(b) |-> y \div b[p]]] @@ Through([s EXCEPT !.h = h], s.c, k)

\* The calls that may follow (none: the chain ends)
Follow(s) ==
  LET c == Cat(s)
      k == s.k + 1
      Chain(Want(_)) == LET f == NextFns(s, Want) IN IF Len(f) = 0 THEN <<>> ELSE <<Then(s, Choose(s, k, f), k)>>
  IN  CASE Plan = "C29" -> IF k <= 3 THEN <<Band(Start(s.g), k)>> ELSE <<>>
        [] Plan = "C27" -> IF k <= 4 THEN <<Later(s.g, k)>> ELSE <<>>
        [] Plan = "C26" -> IF k < 2 /\ c.fam \notin Structs THEN <<[ow |-> 1] @@ Through(s, s.c, k)>> ELSE <<>>
        [] Plan = "C03" -> IF k < 2 THEN <<Through(s, s.c, k)>> ELSE <<>>
        [] Plan = "C08" -> IF k > 3 THEN <<>>
                           ELSE LET b == Without(s, {"px", "bx", "ph", "pv"})
                                IN  <<IF k = 1 THEN OneSample(b, s.g, k) ELSE Boxed(b, s.g, k)>>
        [] Plan = "C09" -> LET sib == SiblingsOf(First(s.g).c)
                           IN  IF k <= Min2(Len(sib), 2) THEN <<Through(First(s.g), sib[((Rnd(s.g, 80, Len(sib)) + k) % Len(sib)) + 1], k)>> ELSE <<>>
        [] Plan = "C19" -> \* the byte-swapped twin, then the same with garbage below the samples
                           LET t == TwinsOf(First(s.g).c)
                               n == IF k = 1 /\ Len(t) > 0 THEN Through(First(s.g), Choose(s, k, t), k) ELSE s
                           IN  IF k = 1 /\ Len(t) > 0 THEN <<n>>
                               ELSE IF k <= 2 /\ Cat(s).smsb = 1 /\ "nz" \notin DOMAIN s THEN <<[nz |-> 1] @@ [s EXCEPT !.k = k]>>
                               ELSE <<>>
        [] Plan = "C12" -> IF k < 3 THEN Chain(LAMBDA n : n.fam \in {"pack", "unpack"}) ELSE <<>>
        [] Plan = "C13" -> IF k < 2 THEN Chain(LAMBDA n : n.mx = "gbr") ELSE <<>>
        [] Plan = "C14" -> IF k < 2 THEN Chain(LAMBDA n : n.mx = "ycgco") ELSE <<>>
        [] Plan = "C15" -> IF k < 3 THEN Chain(LAMBDA n : n.fam = "shuffle") ELSE <<>>
        [] Plan = "C16" -> IF k < 4 THEN Chain(LAMBDA n : n.fam \in {"rotate", "mirror"}) ELSE <<>>
        [] Plan = "C17" -> IF k < 2 THEN Chain(LAMBDA n : n.fam \in {"pk30", "unpk30"}) ELSE <<>>
        [] Plan = "C21" -> IF k < 2 /\ Cat(s).fam = "rdpenc" THEN Chain(LAMBDA n : n.fam = "rdpdec") ELSE <<>>
        [] Plan = "C23" -> IF k < 2 THEN Chain(LAMBDA n : n.fam = "dec" /\ n.mx = Catalog[FnOf(s.g)].mx /\ n.dt # "f16") ELSE <<>>
        [] Plan = "C18" -> IF k < 2 /\ Cat(s).fam = "tof16"
                           THEN LET f == SelectSeq([i \in 1..Len(Catalog) |-> i],
                                                   LAMBDA i : Catalog[i].fam = "fromf16" /\ Catalog[i].sl = c.dl /\ Catalog[i].dt = c.st)
                                IN  <<Then(s, Choose(s, k, f), k)>>
                           ELSE <<>>
        [] OTHER -> <<>>
=============================================================================
