-------------------------------- MODULE MC_Env --------------------------------
(* Requests against the environment: single rounds, batches, re-reading of a   *)
(* batch handed out earlier (possibly abandoned half way).                     *)
EXTENDS EnvStream, TLC, Json, IOUtils, FiniteSets
CONSTANTS Horizon, MaxReads
VARIABLES src, out, reqs, held, reads
vars == <<src, out, reqs, held, reads>>
Init == src = Fresh /\ out = <<>> /\ reqs = <<>> /\ held = <<>> /\ reads = 0
Emitted == Len(out)
One == /\ Emitted < Horizon
       /\ out' = out \o Rows(src, 1) /\ src' = Take(src, 1)
       /\ reqs' = Append(reqs, [op |-> "one", n |-> 1, k |-> 0]) /\ UNCHANGED <<held, reads>>
Batch == \E n \in 1 .. Horizon - Emitted :
       /\ held' = Append(held, Rows(src, n))
       /\ out' = out \o Rows(src, n) /\ src' = Take(src, n)
       /\ reqs' = Append(reqs, [op |-> "batch", n |-> n, k |-> 0]) /\ UNCHANGED reads
(* read the first m rounds of held batch k: nothing is consumed *)
Read == \E k \in 1 .. Len(held) : \E m \in 1 .. Len(held[k]) :
       /\ reads < MaxReads /\ reads' = reads + 1
       /\ reqs' = Append(reqs, [op |-> "read", n |-> m, k |-> k]) /\ UNCHANGED <<src, out, held>>
Next == One \/ Batch \/ Read
InStep == src = [s \in DOMAIN Fresh |-> Len(out)]
AlignedStream == Aligned(out)
(* a held batch is the contiguous piece of the stream that was emitted for it *)
HeldIsStream == LET bs == SelectSeq(reqs, LAMBDA r : r.op # "read")
                    at == SelectSeq([i \in 1 .. Len(bs) |-> i], LAMBDA i : bs[i].op = "batch")
                IN /\ Len(at) = Len(held)
                   /\ \A k \in 1 .. Len(held) : held[k] = SubSeq(out, Offset(bs, at[k]) + 1, Offset(bs, at[k]) + bs[at[k]].n)
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Emitted = Horizon => Serialize(ToJson([reqs |-> reqs]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
