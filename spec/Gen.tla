-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The client of the library, as a state machine: a state is the last call *)
(* of a chain.  The initial states are the first calls of the chains of a  *)
(* plan, the next-state relation appends the calls that may follow.  TLC   *)
(* explores the machine and prints every call as a scenario for the        *)
(* conformance driver.                                                     *)
(***************************************************************************)
EXTENDS Plans

VARIABLES chain   \* the last call of the chain
Shards == atoi(IOEnv.SHARDS)
Shard == atoi(IOEnv.SHARD)
Init == chain \in {Start(g) : g \in {x \in Chains : x % Shards = Shard}}
Next == \E n \in {Follow(chain)[i] : i \in 1..Len(Follow(chain))} : chain' = n
Spec == Init /\ [][Next]_chain
Emit == PrintT("@" \o ToJson(chain))
=============================================================================
