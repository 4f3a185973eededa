----------------------------- MODULE MC_Repro -----------------------------
(* Lives with private streams in a world with one shared stream.  With        *)
(* Private = FALSE (a component drawing from the shared stream) Reproducible  *)
(* fails: the checked configuration is the documented one.                    *)
EXTENDS Repro, TLC, Json, IOUtils
CONSTANTS Kinds, Seeds, Calls, MaxNoise, Private
VARIABLES sched, lives, pos, shared, noise, events
vars == <<sched, lives, pos, shared, noise, events>>
Lives == {1, 2}
Init == /\ lives \in [Lives -> [kind : Kinds, seed : Seeds]]
        /\ sched = <<>> /\ pos = [l \in Lives |-> 0] /\ shared = 0 /\ noise = 0 /\ events = <<>>
\* the stream of a seed is some function of the position; here the pair stands for the drawn value
Draw(l) == IF Private THEN <<lives[l].seed, pos[l]>> ELSE <<"shared", shared>>
Call(l) == /\ pos[l] < Calls
           /\ events' = Append(events, [life |-> l, kind |-> lives[l].kind, seed |-> lives[l].seed, k |-> pos[l], result |-> Draw(l), before |-> 0, after |-> 0])
           /\ pos' = [pos EXCEPT ![l] = @ + 1]
           /\ shared' = IF Private THEN shared ELSE shared + 1
           /\ sched' = Append(sched, l) /\ UNCHANGED <<lives, noise>>
Noise == /\ noise < MaxNoise /\ noise' = noise + 1 /\ shared' = shared + 1
         /\ sched' = Append(sched, 0) /\ UNCHANGED <<lives, pos, events>>
Next == Noise \/ \E l \in Lives : Call(l)
Reproducible == \A i, j \in 1 .. Len(events) : Alike(events[i], events[j])
InOrder == \A l \in Lives : \A i, j \in 1 .. Len(events) : (i < j /\ events[i].life = l /\ events[j].life = l) => events[i].k < events[j].k
Done == \A l \in Lives : pos[l] = Calls
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == (Done /\ lives[1] = lives[2]) => Serialize(ToJson(sched) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
