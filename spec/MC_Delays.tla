------------------------------ MODULE MC_Delays ------------------------------
(* All interleavings of steps (every delay assignment, or no delay at all)    *)
(* and flushes up to MaxOps operations.                                       *)
EXTENDS Delays, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxDelay
VARIABLES st, hist
Init == st = Empty /\ hist = <<>>
Step == \E d \in -1 .. MaxDelay :
          /\ st' = StepOf(st, IF d < 0 THEN 0 ELSE d).state
          /\ hist' = Append(hist, [op |-> "step", d |-> d])
Flush == /\ Len(hist) > 0 => hist[Len(hist)].op # "flush"
         /\ \E order \in {SortedRounds(st.pending)} : st' = FlushOf(st, order)
         /\ hist' = Append(hist, [op |-> "flush", d |-> 0])
Next == Len(hist) < MaxOps /\ (Step \/ Flush)
Spec == Init /\ [][Next]_<<st, hist>>

Delivered == ToSet(st.out)
Played == 0 .. st.played - 1
ExactlyOnce == /\ Cardinality(Delivered) = Len(st.out)
               /\ Delivered \cap RoundsOf(st.pending) = {}
               /\ Delivered \cup RoundsOf(st.pending) = Played
NeverLate == \A e \in st.pending : e.due >= st.played
NeverEarly == [][\A r \in ToSet(st'.out) \ Delivered :
                  \/ hist'[Len(hist')].op = "flush"
                  \/ \E e \in st.pending \cup {Entry(st.played, st.played)} : e.round = r /\ e.due <= st.played]_<<st, hist>>
OnlyAppends == [][IsPrefix(st.out, st'.out)]_<<st, hist>>
FlushEmpties == hist # <<>> /\ hist[Len(hist)].op = "flush" => st.pending = {}
NoDelayIsImmediate == (\A i \in 1 .. Len(hist) : hist[i].d <= 0) => st.pending = {} /\ st.out = [i \in 1 .. st.played |-> i - 1]

Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(hist) = MaxOps => Serialize(ToJson(hist) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
