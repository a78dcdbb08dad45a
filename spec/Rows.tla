-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* How a conversion divides its rows among threads (C22, C02).             *)
(*                                                                         *)
(* A picture of h rows is converted by tasks.  A task owns `Luma` rows of  *)
(* the full planes and one row of the subsampled planes: one row of each   *)
(* where the chroma is not subsampled down the picture, two luma rows and  *)
(* one chroma row where it is.  The pairs are dealt to workers in any      *)
(* order (a worker takes half of what another has left, as a work stealing *)
(* pool does); an odd last row is converted by the caller after the        *)
(* parallel part has joined.  A task writes its rows one at a time, other  *)
(* tasks' steps in between.                                                *)
(*                                                                         *)
(* The picture is abstract: the value of a destination row is the set of   *)
(* source rows it was computed from.  The result must be the sequential    *)
(* one, and no row may be written twice.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxH,     \* rows: 1 .. MaxH
          Workers   \* number of workers

VARIABLES h,        \* rows of the picture
          sv, dv,   \* luma rows per chroma row, in the source and in the destination (1 or 2)
          queue,    \* work of each worker: an interval <<first, last>> of tasks, or <<>>
          at,       \* writes of the worker's current task already made
          tail,     \* "wait" until the join, then "run", then "done"
          full,     \* row of the full destination planes -> source rows it was made of
          sub,      \* row of the subsampled destination planes -> source rows
          twice     \* rows written more than once
vars == <<h, sv, dv, queue, at, tail, full, sub, twice>>
W == 1 .. Workers

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CD(a, b) == (a + b - 1) \div b
P(a, b) == Max2(a, b)                 \* rows per task
Pairs == h \div P(sv, dv)             \* tasks of the parallel part
Rest == h % P(sv, dv)                 \* 1: an odd last row
None == {-1}

\* What each row must be made of.  A chroma row of a 4:2:0 destination takes both rows of a pair
\* (all rows that exist); a luma row takes its own row and its block's chroma row.
FullOf(y) == {<<"l", y>>, <<"c", y \div sv>>}
SubOf(k) == IF dv = 1 THEN {<<"l", k>>, <<"c", k \div sv>>}
            ELSE UNION {{<<"l", y>>, <<"c", y \div sv>>} : y \in 2 * k .. Min2(2 * k + 1, h - 1)}
\* The writes of task t (from 0), in order: <<plane kind, row, value>>
Writes(t, rows) ==
  LET y0 == t * P(sv, dv)
      luma == [k \in 1..rows |-> <<"full", y0 + k - 1, FullOf(y0 + k - 1)>>]
      chroma == IF dv = 2 THEN << <<"sub", t, SubOf(t)>> >>
                ELSE [k \in 1..rows |-> <<"sub", y0 + k - 1, SubOf(y0 + k - 1)>>]
  IN  luma \o chroma

Init ==
  /\ h \in 1..MaxH /\ sv \in {1, 2} /\ dv \in {1, 2}
  /\ queue = [w \in W |-> IF w = 1 /\ h \div P(sv, dv) > 0 THEN <<0, h \div P(sv, dv) - 1>> ELSE <<>>]
  /\ at = [w \in W |-> 0]
  /\ tail = "wait"
  /\ full = [y \in 0 .. h - 1 |-> None]
  /\ sub = [k \in 0 .. CD(h, dv) - 1 |-> None]
  /\ twice = {}

Put(x) ==
  /\ IF x[1] = "full" THEN full' = [full EXCEPT ![x[2]] = x[3]] /\ sub' = sub
     ELSE sub' = [sub EXCEPT ![x[2]] = x[3]] /\ full' = full
  /\ twice' = IF (IF x[1] = "full" THEN full[x[2]] ELSE sub[x[2]]) = None THEN twice ELSE twice \union {<<x[1], x[2]>>}

\* a worker makes the next write of its first task
Step(w) ==
  /\ queue[w] # <<>>
  /\ LET q == queue[w]
         ws == Writes(q[1], P(sv, dv))
     IN  /\ Put(ws[at[w] + 1])
         /\ IF at[w] + 1 < Len(ws) THEN at' = [at EXCEPT ![w] = @ + 1] /\ queue' = queue
            ELSE /\ at' = [at EXCEPT ![w] = 0]
                 /\ queue' = [queue EXCEPT ![w] = IF q[1] = q[2] THEN <<>> ELSE <<q[1] + 1, q[2]>>]
  /\ UNCHANGED <<h, sv, dv, tail>>
\* an idle worker takes the last part of another's work (not the task under way)
Steal(w, v, n) ==
  /\ queue[w] = <<>> /\ queue[v] # <<>> /\ n \in queue[v][1] + 1 .. queue[v][2]
  /\ queue' = [queue EXCEPT ![w] = <<n, queue[v][2]>>, ![v] = <<queue[v][1], n - 1>>]
  /\ UNCHANGED <<h, sv, dv, at, tail, full, sub, twice>>
\* all workers are idle: the caller goes on with the odd last row
Join == /\ tail = "wait" /\ \A w \in W : queue[w] = <<>>
        /\ tail' = IF Rest = 0 THEN "done" ELSE "run"
        /\ UNCHANGED <<h, sv, dv, queue, at, full, sub, twice>>
Last == /\ tail = "run"
        /\ LET ws == Writes(Pairs, Rest) IN
             /\ Put(ws[at[1] + 1])
             /\ IF at[1] + 1 < Len(ws) THEN at' = [at EXCEPT ![1] = @ + 1] /\ tail' = tail
                ELSE at' = [at EXCEPT ![1] = 0] /\ tail' = "done"
        /\ UNCHANGED <<h, sv, dv, queue>>
Next == (\E w \in W : Step(w)) \/ (\E w, v \in W : \E n \in 1..MaxH : Steal(w, v, n)) \/ Join \/ Last
Spec == Init /\ [][Next]_vars /\ WF_vars((\E w \in W : Step(w)) \/ Join \/ Last)

TypeOK ==
  /\ \A w \in W : queue[w] = <<>> \/ (queue[w][1] <= queue[w][2] /\ queue[w][2] < Pairs)
  /\ tail \in {"wait", "run", "done"}
\* no two tasks ever own the same row
Disjoint == twice = {}
\* rows written so far are already the final ones
Partial == /\ \A y \in DOMAIN full : full[y] \in {None, FullOf(y)}
           /\ \A k \in DOMAIN sub : sub[k] \in {None, SubOf(k)}
\* when the call returns, every row is there and is the sequential result
Whole == tail = "done" => /\ \A y \in DOMAIN full : full[y] = FullOf(y)
                          /\ \A k \in DOMAIN sub : sub[k] = SubOf(k)
Returns == <>(tail = "done")
=============================================================================
