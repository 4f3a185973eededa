------------------------------- MODULE Delays -------------------------------
(***************************************************************************)
(* Simulated interaction with delayed feedback.                            *)
(*                                                                         *)
(* State: played  - rounds played so far (0, 1, ...)                       *)
(*        pending - set of [round, due] whose feedback was not delivered   *)
(*        out     - sequence of rounds whose feedback was delivered        *)
(* Step(d) plays a round whose feedback is due d rounds later (None = 0)   *)
(* and delivers everything due in this round, earlier rounds first;        *)
(* Flush delivers all that is pending.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Entry(r, due) == [round |-> r, due |-> due]
Empty == [played |-> 0, pending |-> {}, out |-> <<>>]
RoundsOf(S) == {e.round : e \in S}
SortedRounds(S) == SetToSortSeq(RoundsOf(S), LAMBDA a, b : a < b)

(* result of playing one round: new state and the rounds delivered by it *)
StepOf(st, d) ==
  LET all == st.pending \cup {Entry(st.played, st.played + d)}
      now == {e \in all : e.due = st.played}
      dl == SortedRounds(now)
  IN [state |-> [played |-> st.played + 1, pending |-> all \ now, out |-> st.out \o dl], delivered |-> dl]
FlushOf(st, order) == [played |-> st.played, pending |-> {}, out |-> st.out \o order]
=============================================================================
