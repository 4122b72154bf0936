-------------------------------- MODULE DefMap --------------------------------
(* Concurrent histories of the definition store: every history of Set and    *)
(* Get operations, each with the times of its invocation and its return, has *)
(* to be explained by some order of atomic operations that respects the real *)
(* time order (linearizability). TLC searches for that order.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, at, map
vars == <<tr, at, map>>
T == Traces[tr].thr
Next1(k) == T[k][at[k]]
Pending(k) == at[k] <= Len(T[k])
\* nothing that is still to come had returned before this operation was invoked
Free(k) == \A j \in 1..Len(T) : (j # k /\ Pending(j)) => ~(Next1(j).t1 < Next1(k).t0)
Init == /\ tr \in 1..Len(Traces) /\ at = [k \in 1..Len(T) |-> 1]
        /\ map = [x \in {"a", "b", "c"} |-> <<>>]
Do(k) == /\ Pending(k) /\ Free(k)
         /\ LET o == Next1(k)
            IN CASE o.k = "set" -> map' = [map EXCEPT ![o.key] = <<o.v>>]
                 [] o.k = "get" -> o.r = map[o.key] /\ map' = map
                 [] OTHER -> map' = map
         /\ at' = [at EXCEPT ![k] = @ + 1] /\ tr' = tr
Done == /\ at # <<>>
        /\ \A k \in 1..Len(T) : ~Pending(k)
        /\ PrintT("DONE " \o ToString(tr)) /\ at' = <<>> /\ UNCHANGED <<tr, map>>
Next == (at # <<>> /\ \E k \in 1..Len(T) : Do(k)) \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
