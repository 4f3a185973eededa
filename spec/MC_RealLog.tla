------------------------------ MODULE MC_RealLog ------------------------------
EXTENDS RealLog, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, Big
VARIABLES file, mem, phase, cut, boot
Rows == {[ts |-> t, a |-> a, p |-> p, r |-> r, f |-> <<c>>] : t \in {"1", "2"}, a \in {0, 2}, p \in {1, 3}, r \in {"0", "1"}, c \in IF Big THEN {0, 1} ELSE {0}}
Tests == {"0", "1/4", "1/2", "1"}
WithPs(s) == [i \in 1 .. N |-> [ts |-> s[i].ts, a |-> s[i].a, p |-> s[i].p, r |-> s[i].r, f |-> s[i].f, ps |-> RDiv(i, N + 1)]]
Init == file \in {WithPs(s) : s \in [1 .. N -> Rows]} /\ mem = <<>> /\ phase = "file" /\ cut = 0 /\ boot = <<>>
Perms == {s \in [1 .. N -> 1 .. N] : \A i, j \in 1 .. N : i # j => s[i] # s[j]}
Load == phase = "file" /\ phase' = "loaded" /\ (\E s \in Perms : mem' = [i \in 1 .. N |-> file[s[i]]] /\ Sorted(mem')) /\ UNCHANGED <<file, cut, boot>>
Split == phase = "loaded" /\ phase' = "split" /\ (\E t \in Tests : cut' = TrainSize(N, t)) /\ UNCHANGED <<file, mem, boot>>
Resample == phase = "split" /\ phase' = "boot" /\ cut > 0 /\ (\E k \in 0 .. cut : boot' \in [1 .. k -> 1 .. cut]) /\ UNCHANGED <<file, mem, cut>>
Next == Load \/ Split \/ Resample
RowsKept == phase # "file" => {mem[i] : i \in 1 .. N} = {file[i] : i \in 1 .. N}
Partition == phase = "split" => SubSeq(mem, 1, cut) \o SubSeq(mem, cut + 1, N) = mem /\ \A i \in 1 .. cut, j \in cut + 1 .. N : RLe(mem[i].ts, mem[j].ts)
DenseRanks == {PosRank(file, file[i].p) : i \in 1 .. N} = 0 .. Cardinality(Positions(file)) - 1
BootFromTrain == phase = "boot" => \A i \in 1 .. Len(boot) : boot[i] <= cut
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == phase = "file" => Serialize(ToJson(file) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
