------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* The whole system in small: the client machine of Plans making its       *)
(* chains of calls to the ideal library of Ideal.  Two things are checked: *)
(*                                                                         *)
(* Keeps     every call of every chain satisfies the property, for the     *)
(*           result the ideal library gives (the property is satisfiable   *)
(*           and the tolerances admit exact arithmetic), and               *)
(* Notices   a call whose result is wrong in one sample, one footprint     *)
(*           cell or its verdict does not (the property constrains every   *)
(*           part of the result it speaks of).                             *)
(***************************************************************************)
EXTENDS Plans, Ideal

CONSTANT Cells     \* wrong samples tried per call

VARIABLES call,    \* the last call of the chain, with its result
          hist,    \* the earlier calls
          wrong    \* <<>> or the place of a deliberate error
vars == <<call, hist, wrong>>

\* The samples of the source picture, by component as the driver fills them
Sam(t, k, row0, col) ==
  LET row == row0 + (IF "ro" \in DOMAIN t THEN t.ro[k] ELSE 0)
      sp == t.sp
      boxed == "bx" \in DOMAIN t /\
               LET x == (col \div sp[k]) * t.ph[k]
                   y == row * t.pv[k]
                   b == t.bx
               IN  (x >= b[1] /\ x < b[3] /\ y >= b[2] /\ y < b[4]) <=> b[5] = 0
      s == IF boxed THEN [t EXCEPT !.seed = t.bx[6]] ELSE t
      first == CASE k = 1 -> 0 [] k = 2 -> sp[1] [] k = 3 -> sp[1] + sp[2] [] k = 4 -> sp[1] + sp[2] + sp[3]
      n == sp[k]
      cp == s.sc[first + (col % n) + 1]
      flat == s.fill = "flat"
      z == Mix(Mix(Mix((s.seed % 999983) + 101 * cp) + (IF flat THEN 0 ELSE 977 * row)) + (IF flat THEN 0 ELSE 31 * (col \div n)))
      v == CASE (z \div 5) % 6 = 0 -> s.smax
             [] (z \div 5) % 6 = 1 -> 0
             [] OTHER -> (z * 7) % (s.smax + 1)
  IN  IF "lo" \in DOMAIN s THEN s.lo + (v % (s.hi - s.lo + 1)) ELSE v
InFile(s, v) ==
  CASE s.st = "i16" -> v \div 4 - 4096
    [] s.st = "f16" -> (v % 256) * 65536 + (v % 256) * 257 + (IF v % 256 = 255 THEN 1 ELSE 0)
    [] OTHER -> LET q == v * Pow2(s.sshift) IN IF s.sbe = 1 THEN Swap16(q) ELSE q
Source(s) ==
  LET sh == [k \in 1..Len(s.sw) |-> <<s.sw[k], s.sr[k]>>] IN
  [k \in 1..Len(sh) |-> [i \in 1 .. sh[k][1] * sh[k][2] |->
     LET row == (i - 1) \div sh[k][1]
         col == (i - 1) % sh[k][1]
         px == "px" \in DOMAIN s /\ s.px[1] = k - 1 /\ s.px[2] = row /\ s.px[3] = col
     IN  InFile(s, IF px THEN s.px[4] ELSE Sam(s, k, row, col))]]

Names == IF Plan = "C22" THEN << <<"scalar", "par1", "par2", "par3", "par8">>, <<"vec1", "vec2", "vec3", "vec8">> >>
         ELSE IF Plan = "C10" THEN << <<"scalar">>, <<"avx">> >> ELSE << <<"scalar">> >>
\* the call s made to the ideal library
Perform(s, src) ==
  LET e == [src |-> src, step |-> IF s.k = 0 THEN 1 ELSE 2] @@ s
  IN  TLCEval([res |-> [j \in 1..Len(Names) |-> Outcome(e, Names[j])]] @@ e)
Make(s, prev) == Perform(s, IF "ch" \in DOMAIN s THEN prev.res[1].d ELSE Source(s))
\* C01 and C28 only look at the verdict, the footprint and what the error says
PlaneWhy(l, k, st, ln, s) ==
  LET r == Role(l, k)
      narrow == st >= 0 /\ st < s[1]
  IN  CASE r = "luma" -> IF narrow THEN <<6, s[1] * s[2], st * s[2], 1>> ELSE <<5, st * s[2], ln, 1>>
        [] r = "chroma" -> IF narrow THEN <<7, s[1] * s[2], st * s[2], 1>> ELSE <<8, st * s[2], ln, 1>>
        [] r = "packed" -> IF narrow THEN <<2, s[1], st, 1>> ELSE <<9, st * s[2], ln, 1>>
        [] r = "rgb" -> IF narrow THEN <<2, s[1], st, 1>> ELSE <<1, st * s[2], ln, 1>>
Why(s) ==
  LET c == Cat(s)
      a == SShapes(c, s.w, s.h)
      b == DShapes(c, s.dw, s.dh)
      A == {k \in 1..Len(s.ss) : ~FitsBig(s.ss[k], s.sl[k], a[k])}
      B == {k \in 1..Len(s.ds) : ~FitsBig(s.ds[k], s.dl[k], b[k])}
  IN  IF 0 \in {s.w, s.h, s.dw, s.dh} THEN <<4, 0, 0, 1>>
      ELSE IF ~SizesAgree(s, c) THEN <<10, 0, 0, 1>>
      ELSE IF A # {} THEN LET k == CHOOSE k \in A : TRUE IN PlaneWhy(c.sl, k, s.ss[k], s.sl[k], a[k])
      ELSE IF B # {} THEN LET k == CHOOSE k \in B : TRUE IN PlaneWhy(c.dl, k, s.ds[k], s.dl[k], b[k])
      ELSE <<3, 0, 0, 1>>
Verdicts == {"C01", "C28"}
Verdict(s) == LET r == [b |-> <<"scalar">>, d |-> <<>>, v |-> IF MustReject(s) THEN "err" ELSE "ok",
                        er |-> IF Plan = "C28" /\ MustReject(s) THEN Why(s) ELSE <<0, 0, 0, 0>>,
                        ft |-> [k \in 1..Len(s.ds) |-> <<>>]]
              IN  [src |-> <<>>, step |-> 0, res |-> <<r>>] @@ s

Shards == atoi(IOEnv.SHARDS)
Shard == atoi(IOEnv.SHARD)
Init == /\ call \in {IF Plan \in Verdicts \/ (Plan = "C26" /\ Catalog[FnOf(g)].fam = "check") THEN Verdict(Start(g)) ELSE Make(Start(g), <<>>) : g \in {x \in Chains : x % Shards = Shard}}
        /\ hist = <<>> /\ wrong = <<>>

\* the scenario a call was made from
Plain(e) == [f \in DOMAIN e \ {"src", "res", "step"} |-> e[f]]
Again == /\ wrong = <<>> /\ Plan \notin Verdicts
         /\ \E ii \in 1..Len(Follow(Plain(call))) :
              /\ hist' = Append(hist, call)
              /\ call' = Make(Follow(Plain(call))[ii], call)
         /\ wrong' = wrong

----------------------------------------------------------------------------
\* Deliberate errors, in the last result of the call
NRes == Len(call.res)
Final(e) == e.res[NRes]
\* a sample well off: farther than any tolerance
Far(c, e, v) ==
  CASE c.dl = "ar30" -> (v + 128) % 256
    [] c.dt = "f16" -> IF v > 8388608 THEN v - 1677721 ELSE v + 1677721
    [] c.dt = "i16" -> v + 64
    [] OTHER -> LET be == c.dbe = 1
                    top == Pow2(IF c.dt = "u8" THEN 8 ELSE 16)
                    x == IF be THEN Swap16(v) ELSE v
                    d == 40 * DDiv(c)
                    y == IF x + d < top /\ 2 * x < top THEN x + d ELSE x - d
                IN  IF be THEN Swap16(y) ELSE y
\* which samples of the result the property speaks of: is cell i (from 1) of plane p one of them?
CompAt(c, e, p, i) ==
  IF c.dl = "ar30" \/ c.fam \in {"rotate", "mirror", "tof16", "fromf16"} THEN {}
  ELSE LET sh == DShapes(c, e.dw, e.dh)[p]
           cs == DstComps(c, e)
       IN  {n \in 1..4 : cs[n][1] # 0 /\ CompOf(cs[n], p, (i - 1) % sh[1])}
Speaks(e, p, i) ==
  LET c == Cat(e)
      n == CompAt(c, e, p, i)
      sh == DShapes(c, e.dw, e.dh)[p]
      \* the unused second luma of an odd packed row
      pad == c.dl = "y422" /\ e.w % 2 = 1 /\ n = {1} /\ ((i - 1) % sh[1]) \div 2 >= e.w
      shared == Len(hist) > 0 /\ n \subseteq 1..3 /\ ~pad
      \* luma below black: two answers are right
      ch == CASE c.dl = "i3" -> 3 [] OTHER -> 4
      dark == c.fam = "dec" /\ e.rg = 0 /\
              LET px == (i - 1) \div ch
                  sc == SrcComps(c, e)
              IN  SrcAt(c, e, sc, 1, px % e.w, px \div e.w) < RangeOf(SDep(c, e.bd), 0)[1]
  IN  ~(dark /\ Plan \in {"C05", "C04", "C14", "C10", "C11"}) /\ CASE Plan \in {"C04", "C05", "C06", "C07", "C14"} -> c.dl # "ar30" /\ n # {4}
        [] Plan \in {"C12", "C15", "C16", "C17", "C24"} -> TRUE
        [] Plan = "C18" -> TRUE
        [] Plan \in {"C13", "C20"} -> n # {4}
        [] Plan = "C21" -> TRUE
        [] Plan = "C11" -> (c.dl # "ar30" /\ n = {4}) \/ (c.dl = "i4" /\ c.premul = 1 /\ e.pm = 1)
        [] Plan = "C10" -> c.dl # "ar30"
        [] Plan = "C22" -> TRUE
        [] Plan \in {"C09"} -> shared /\ c.dl # "ar30"
        [] Plan = "C19" -> shared /\ e.seed = hist[1].seed
        [] Plan = "C03" -> Len(hist) > 0
        [] Plan = "C26" -> c.fam = "alloc" \/ Len(hist) > 0
        [] Plan = "C27" -> EqOf(e) > 0
        [] Plan = "C29" -> Len(hist) > 0
        [] Plan = "C08" -> \* a sample that the changed one does not reach
             Len(hist) > 0 /\ c.dl # "ar30" /\ n # {} /\ ~pad /\
             LET m == DstComps(c, e)[CHOOSE k \in n : TRUE]
                 sc == SrcComps(c, e)
                 x == ((((i - 1) % sh[1]) - m[6]) \div m[5]) * m[4]
                 y == ((i - 1) \div sh[1]) * m[3]
             IN  \A yy \in y .. Min2(y + m[3], e.h) - 1 : \A xx \in x .. Min2(x + m[4], e.w) - 1 : \A k \in 1..4 :
                   sc[k][1] # 0 => e.src[sc[k][1]][Cell(sc[k], xx, yy)] = hist[1].src[sc[k][1]][Cell(sc[k], xx, yy)]
        [] Plan = "C23" -> c.fam = "enc" /\ c.mx # "gbr" /\ n \subseteq 2..3 /\ GrayPicture(e, c, SrcComps(c, e))
        [] OTHER -> FALSE
Err(kind) ==
  /\ wrong = <<>> /\ Final(call).v = "ok"
  /\ CASE kind = "sample" ->
            /\ Plan \notin Verdicts
            /\ \E p \in 1..Len(Final(call).d) : \E q \in 1..Cells :
                 LET n == Len(Final(call).d[p])
                     i == 1 + Rnd(call.g, 200 + 7 * q + p, n)
                 IN  /\ Speaks(call, p, i)
                     /\ wrong' = <<"sample", p, i>>
                     /\ call' = IF Plan = "C22"   \* one thread count gives another picture
                                THEN [call EXCEPT !.res[2].b = <<"vec1", "vec2", "vec3">>,
                                                  !.res = Append(@, [@[2] EXCEPT !.b = <<"vec8">>, !.d[p][i] = Far(Cat(call), call, @)])]
                                ELSE [call EXCEPT !.res[NRes].d[p][i] = Far(Cat(call), call, @)]
       [] kind = "cell" ->   \* one cell too many, or one too few
            /\ Plan \in {"C02", "C25"}
            /\ \E p \in 1..Len(Final(call).ft) : \E d \in {-1, 1} :
                 /\ wrong' = <<"cell", p, d>>
                 /\ call' = [call EXCEPT !.res[NRes].ft[p][Len(call.res[NRes].ft[p])] = @ + d]
       [] kind = "verdict" ->
            /\ Plan \in {"C01", "C02", "C03", "C25", "C27"} \/ (Plan = "C26" /\ Cat(call).fam = "check")
            /\ \E v \in {"panic", "oob", "crash", "err"} :
                 /\ v = "err" => MustAccept(call)
                 /\ wrong' = <<"verdict", v>>
                 /\ call' = [call EXCEPT !.res[NRes].v = v]
  /\ hist' = hist
Admit == /\ wrong = <<>> /\ Plan \in {"C01", "C26"} /\ Final(call).v = "err" /\ (MustReject(call) = TRUE) /\ ~Empty(call)
         /\ wrong' = <<"admitted">> /\ hist' = hist
         /\ call' = [call EXCEPT !.res[NRes].v = "ok"]
\* an error that blames another kind of plane, or whose numbers are not the call's
Faults(e) == Cardinality({k \in 1..Len(e.ss) : ~Exact(e.ss[k], e.sl[k], SShapes(Cat(e), e.w, e.h)[k])}) +
             Cardinality({k \in 1..Len(e.ds) : ~Exact(e.ds[k], e.dl[k], DShapes(Cat(e), e.dw, e.dh)[k])})
Lie == /\ wrong = <<>> /\ Plan = "C28" /\ Final(call).v = "err"
       /\ \E er \in LET t == Final(call).er IN
            {<<t[1], t[2], t[3] + 1, 1>>, <<t[1], t[2] + 1, t[3], 1>>, <<t[1], t[2], t[2], 1>>, <<t[1], t[3], t[2], 1>>, <<t[1], t[2], t[3], 0>>,
             <<CASE t[1] = 5 -> 8 [] t[1] = 8 -> 5 [] t[1] = 6 -> 7 [] t[1] = 7 -> 6 [] OTHER -> 3, t[2], t[3], 1>>} :
            /\ Final(call).er[1] \notin {4, 10} \/ er[1] # Final(call).er[1] \/ er[4] = 0
            \* (with two planes at fault an untrue error about one could be a true one about the other)
            /\ er[4] = 0 \/ Final(call).er[1] \in {4, 10} \/ Faults(call) = 1
            /\ wrong' = <<"error", er>>
            /\ call' = [call EXCEPT !.res[NRes].er = er]
       /\ hist' = hist
Next == Again \/ Lie \/ Err("sample") \/ Err("cell") \/ Err("verdict") \/ Admit
Spec == Init /\ [][Next]_vars

Ok == Holds(Plan, call, hist) = TRUE
Keeps == wrong = <<>> => Ok
Notices == wrong # <<>> => ~Ok
=============================================================================
