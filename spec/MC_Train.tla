----------------------------- MODULE MC_Train -----------------------------
(* The training loop with arbitrary losses: which rounds move the parameters, *)
(* and when training ends.  Losses are small integers, tol is one.            *)
EXTENDS Train, TLC, Json, IOUtils
CONSTANTS MaxN, MaxBatch, MaxIter, MaxPatience, Losses
VARIABLES n, size, maxIter, patience, val, order, epoch, queue, vqueue, tr, va, hist, vhist, used, stopped, phase
vars == <<n, size, maxIter, patience, val, order, epoch, queue, vqueue, tr, va, hist, vhist, used, stopped, phase>>
Cfg == <<n, size, maxIter, patience, val>>
Init == /\ n \in 1 .. MaxN /\ size \in 1 .. MaxBatch /\ size <= n /\ maxIter \in 1 .. MaxIter /\ patience \in 1 .. MaxPatience
        /\ val \in {{}} \cup (IF n > 1 THEN {{n}} ELSE {})
        /\ order = <<>> /\ epoch = 0 /\ queue = <<>> /\ vqueue = <<>> /\ tr = Watch0 /\ va = Watch0 /\ hist = <<>> /\ vhist = <<>>
        /\ used = [i \in 1 .. n |-> 0] /\ stopped = FALSE /\ phase = "idle"
Training == (1 .. n) \ val
SeqOf(S) == LET m == Cardinality(S) IN {f \in [1 .. m -> S] : \A i, j \in 1 .. m : i # j => f[i] # f[j]}
BeginEpoch == /\ phase = "idle" /\ ~stopped /\ epoch < maxIter
              /\ order' = CHOOSE f \in SeqOf(Training) : TRUE
              /\ queue' = Cut(order', size)
              /\ vqueue' = IF val = {} THEN <<>> ELSE Cut(<<n>>, size)
              /\ epoch' = epoch + 1 /\ phase' = "train"
              /\ UNCHANGED <<n, size, maxIter, patience, val, tr, va, hist, vhist, used, stopped>>
TrainBatch == /\ phase = "train" /\ queue # <<>> /\ ~stopped
              /\ \E l \in Losses : tr' = Seen(tr, l, "1") /\ hist' = Append(hist, l)
              /\ used' = [i \in 1 .. n |-> used[i] + (IF \E j \in 1 .. Len(queue[1]) : queue[1][j] = i THEN 1 ELSE 0)]
              /\ queue' = Tail(queue) /\ stopped' = (tr'.bad >= patience)
              /\ UNCHANGED <<n, size, maxIter, patience, val, order, epoch, vqueue, va, vhist, phase>>
Turn == /\ phase = "train" /\ (queue = <<>> \/ stopped) /\ phase' = IF stopped THEN "idle" ELSE "validate"
        /\ UNCHANGED <<n, size, maxIter, patience, val, order, epoch, queue, vqueue, tr, va, hist, vhist, used, stopped>>
Validate == /\ phase = "validate" /\ vqueue # <<>> /\ ~stopped
            /\ \E l \in Losses : va' = Seen(va, l, "1") /\ vhist' = Append(vhist, l)
            /\ vqueue' = Tail(vqueue) /\ stopped' = (va'.bad >= patience)
            /\ UNCHANGED <<n, size, maxIter, patience, val, order, epoch, queue, tr, hist, used, phase>>
EndEpoch == /\ phase = "validate" /\ (vqueue = <<>> \/ stopped) /\ phase' = "idle"
            /\ UNCHANGED <<n, size, maxIter, patience, val, order, epoch, queue, vqueue, tr, va, hist, vhist, used, stopped>>
Next == BeginEpoch \/ TrainBatch \/ Turn \/ Validate \/ EndEpoch
Done == phase = "idle" /\ (stopped \/ epoch = maxIter)
\* ------------------------------------------------------------------ properties
HeldOut == \A i \in val : used[i] = 0
\* every training round moves the parameters once per finished epoch, and never more than once per epoch
OncePerEpoch == \A i \in Training : used[i] <= epoch /\ used[i] >= epoch - 1 /\ ((phase = "idle" /\ ~stopped) => used[i] = epoch)
\* the last p losses each failed to improve on the one before by at least tol
Stalled(h) == Len(h) > patience /\ \A j \in Len(h) - patience + 1 .. Len(h) : RLt(RSub(h[j - 1], h[j]), "1")
StopsExactly == stopped <=> (Stalled(hist) \/ Stalled(vhist))
NoEarlierStop == \A j \in 1 .. Len(hist) - 1 : ~Stalled(SubSeq(hist, 1, j))
Batches == phase = "train" => \A j \in 1 .. Len(queue) : Len(queue[j]) <= size /\ (j < Len(queue) => Len(queue[j]) = size) /\ Len(queue[j]) > 0
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == (epoch = 0) => Serialize(ToJson([n |-> n, size |-> size, maxIter |-> maxIter, patience |-> patience, val |-> Cardinality(val)]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
