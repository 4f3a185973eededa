------------------------------- MODULE Repro -------------------------------
(* Seeded components and the world around them.  A life is one component      *)
(* built with one seed and taken through its own fixed sequence of calls; the *)
(* world interleaves several lives and disturbs the process-wide random       *)
(* state.  What a call returns may depend on the component's kind, seed and   *)
(* its own earlier calls only.                                                *)
EXTENDS Integers, Sequences, FiniteSets
\* an event: [life, kind, seed, k (which call of the life), result, before, after]
\* two lives of the same kind and seed answer alike, call by call
Alike(e, f) == (e.kind = f.kind /\ e.seed = f.seed /\ e.k = f.k) => e.result = f.result
\* the caller's data are as they were
Untouched(e) == e.before = e.after
=============================================================================
