------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: is the recorded sequence of calls a behaviour of a library *)
(* that keeps property P?  Every line of the log is one call of the real   *)
(* crate; every action consumes one line and takes the step the            *)
(* specification allows for it.  Acceptance is a postcondition: all lines  *)
(* were consumed.                                                          *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

CONSTANTS P,         \* the property
          NB         \* number of backends that performed every call
Log == ndJsonDeserialize(IOEnv.TRACE)
\* listed findings: [prop, file, kind]
Known == ndJsonDeserialize(IOEnv.KNOWN)

VARIABLES l,        \* next line
          past      \* earlier lines of the current chain

Init == l = 1 /\ past = <<>>
E == Log[l]
Past == [k \in 1..Len(past) |-> Log[past[k]]]

\* a call on its own, or the first of a chain
Call == /\ l <= Len(Log) /\ E.step = 0
        /\ CountBackends(E.res, 1) = NB
        /\ (Holds(P, E, <<>>) = TRUE)
        /\ l' = l + 1 /\ past' = <<>>
Begin == /\ l <= Len(Log) /\ E.step = 1 /\ Len(E.res) = 1
         /\ (Holds(P, E, <<>>) = TRUE)
         /\ l' = l + 1 /\ past' = <<l>>
\* a later call of a chain
Follow == /\ l <= Len(Log) /\ E.step = 2 /\ past # <<>> /\ Len(E.res) = 1
          /\ (Holds(P, E, Past) = TRUE)
          /\ l' = l + 1 /\ past' = Append(past, l)
\* a call that does what a listed finding describes
Listed(e, kind) == \E k \in 1..Len(Known) : Known[k].prop = P /\ Known[k].kind = kind /\ Known[k].file = Cat(e).file
Deviate == /\ l <= Len(Log) /\ E.step = 0
           /\ P \in {"C01", "C02"}
           /\ KindOf(E) \in {"tight", "over"}
           /\ Listed(E, KindOf(E))
           /\ (EndSymptom(E) = TRUE)
           /\ ~(Holds(P, E, <<>>) = TRUE)
           /\ PrintT("K" \o ToJson([file |-> Cat(E).file, kind |-> KindOf(E)]))
           /\ l' = l + 1 /\ past' = <<>>
Next == Call \/ Begin \/ Follow \/ Deviate
Spec == Init /\ [][Next]_<<l, past>>

TypeOK == l \in 1 .. Len(Log) + 1 /\ Len(past) < 10
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
