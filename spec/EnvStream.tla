------------------------------ MODULE EnvStream ------------------------------
(***************************************************************************)
(* A simulated environment.  It emits a stream of rounds on request, one   *)
(* at a time or in batches.  Four sources are consumed in step: contexts,  *)
(* drifting coefficients, expected rewards and delays; the t-th round of   *)
(* the stream carries the t-th item of each, whatever the requests were.   *)
(* A batch can be read any number of times and never changes.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
Fresh == [ctx |-> 0, coef |-> 0, delay |-> 0]                  \* items taken from each source
Take(src, n) == [s \in DOMAIN src |-> src[s] + n]
Rows(src, n) == [k \in 1 .. n |-> [s \in DOMAIN src |-> src[s] + k]]
Aligned(out) == \A t \in 1 .. Len(out) : \A s \in DOMAIN out[t] : out[t][s] = t
RECURSIVE Offset(_, _)
Offset(reqs, k) == IF k = 1 THEN 0 ELSE Offset(reqs, k - 1) + reqs[k - 1].n   \* rounds emitted before request k
=============================================================================
