---------------------------- MODULE CounterImpl ----------------------------
(* The design of a counter: sharded maps from dimension to count, each with a *)
(* lock.  A goroutine counts in the shard it belongs to: lock, find or create *)
(* the element, read it, write it, unlock.  An export takes one shard after   *)
(* another: lock, for each element read and reset it and hand it to the       *)
(* collector, unlock.  It is checked to implement Counter.                    *)
EXTENDS Counter, FiniteSets, Functions
CONSTANTS Gs, Xs, Shards, Keys, MaxCalls, MayFail
Keys1 == {<<1>>}
Keys2 == {<<1>>, <<2>>}
ShardOf(g) == (g % Shards) + 1
VARIABLES map, lock, gpc, greg, xpc, xsh, xtodo, xval, calls
ivars == <<map, lock, gpc, greg, xpc, xsh, xtodo, xval, calls>>
vars == <<cvars, ivars>>

Init == /\ begun = <<>> /\ ended = <<>> /\ out = <<>> /\ call = [g \in Gs |-> <<>>]
        /\ ex = [x \in Xs |-> [st |-> "idle", s |-> 0, must |-> <<>>]]
        /\ map = [s \in 1..Shards |-> <<>>] /\ lock = [s \in 1..Shards |-> <<>>]
        /\ gpc = [g \in Gs |-> "idle"] /\ greg = [g \in Gs |-> 0]
        /\ xpc = [x \in Xs |-> "idle"] /\ xsh = [x \in Xs |-> 1] /\ xtodo = [x \in Xs |-> {}] /\ xval = [x \in Xs |-> <<>>] /\ calls = 0

GCall(g, k) == /\ gpc[g] = "idle" /\ calls < MaxCalls /\ CCall(g, k) /\ calls' = calls + 1
               /\ gpc' = [gpc EXCEPT ![g] = "lock"] /\ UNCHANGED <<map, lock, greg, xpc, xsh, xtodo, xval>>
GLock(g) == LET s == ShardOf(g) IN
            /\ gpc[g] = "lock" /\ lock[s] = <<>> /\ lock' = [lock EXCEPT ![s] = <<"g", g>>]
            /\ gpc' = [gpc EXCEPT ![g] = "read"] /\ UNCHANGED <<cvars, map, greg, xpc, xsh, xtodo, xval, calls>>
GRead(g) == LET s == ShardOf(g) IN
            /\ gpc[g] = "read" /\ greg' = [greg EXCEPT ![g] = At(map[s], call[g])]
            /\ gpc' = [gpc EXCEPT ![g] = "write"] /\ UNCHANGED <<cvars, map, lock, xpc, xsh, xtodo, xval, calls>>
GWrite(g) == LET s == ShardOf(g) IN
             /\ gpc[g] = "write" /\ map' = [map EXCEPT ![s] = (call[g] :> (greg[g] + 1)) @@ @]
             /\ gpc' = [gpc EXCEPT ![g] = "unlock"] /\ UNCHANGED <<cvars, lock, greg, xpc, xsh, xtodo, xval, calls>>
GUnlock(g) == LET s == ShardOf(g) IN
              /\ gpc[g] = "unlock" /\ lock' = [lock EXCEPT ![s] = <<>>]
              /\ gpc' = [gpc EXCEPT ![g] = "ret"] /\ UNCHANGED <<cvars, map, greg, xpc, xsh, xtodo, xval, calls>>
GRet(g) == /\ gpc[g] = "ret" /\ CRet(g)
           /\ gpc' = [gpc EXCEPT ![g] = "idle"] /\ UNCHANGED <<map, lock, greg, xpc, xsh, xtodo, xval, calls>>

XCall(x) == /\ xpc[x] = "idle" /\ ECall(x, 1)
            /\ xpc' = [xpc EXCEPT ![x] = "lock"] /\ UNCHANGED <<map, lock, gpc, greg, xsh, xtodo, xval, calls>>
XLock(x) == LET s == xsh[x] IN
            /\ xpc[x] = "lock" /\ s <= Shards /\ lock[s] = <<>> /\ lock' = [lock EXCEPT ![s] = <<"x", x>>]
            /\ xtodo' = [xtodo EXCEPT ![x] = DOMAIN map[s]]
            /\ xpc' = [xpc EXCEPT ![x] = "shard"] /\ UNCHANGED <<cvars, map, gpc, greg, xsh, xval, calls>>
XTake(x, k) == LET s == xsh[x] IN
               /\ xpc[x] = "shard" /\ k \in xtodo[x]
               /\ xval' = [xval EXCEPT ![x] = <<k, map[s][k]>>] /\ map' = [map EXCEPT ![s][k] = 0]
               /\ xtodo' = [xtodo EXCEPT ![x] = @ \ {k}]
               /\ xpc' = [xpc EXCEPT ![x] = "collect"] /\ UNCHANGED <<cvars, lock, gpc, greg, xsh, calls>>
XCollect(x) == /\ xpc[x] = "collect" /\ Point(x, 1, xval[x][1], xval[x][2])
               /\ xpc' = [xpc EXCEPT ![x] = "collected"] /\ UNCHANGED <<map, lock, gpc, greg, xsh, xtodo, xval, calls>>
XNext(x) == /\ xpc[x] = "collected" /\ xpc' = [xpc EXCEPT ![x] = "shard"]
            /\ UNCHANGED <<cvars, map, lock, gpc, greg, xsh, xtodo, xval, calls>>
XFail(x) == /\ MayFail /\ xpc[x] = "collected" /\ EFail(x) /\ lock' = [lock EXCEPT ![xsh[x]] = <<>>]
            /\ xpc' = [xpc EXCEPT ![x] = "end"] /\ UNCHANGED <<map, gpc, greg, xsh, xtodo, xval, calls>>
XUnlock(x) == /\ xpc[x] = "shard" /\ xtodo[x] = {} /\ lock' = [lock EXCEPT ![xsh[x]] = <<>>]
              /\ xsh' = [xsh EXCEPT ![x] = @ + 1]
              /\ xpc' = [xpc EXCEPT ![x] = "lock"] /\ UNCHANGED <<cvars, map, gpc, greg, xtodo, xval, calls>>
XRet(x) == /\ xpc[x] = "lock" /\ xsh[x] > Shards
           /\ ex' = [ex EXCEPT ![x].st = "done"] /\ UNCHANGED <<begun, ended, out, call>>
           /\ xpc' = [xpc EXCEPT ![x] = "end"] /\ UNCHANGED <<map, lock, gpc, greg, xsh, xtodo, xval, calls>>

G(g) == GLock(g) \/ GRead(g) \/ GWrite(g) \/ GUnlock(g) \/ GRet(g)
X(x) == XLock(x) \/ (\E k \in Keys : XTake(x, k)) \/ XCollect(x) \/ XNext(x) \/ XUnlock(x) \/ XRet(x)
Next == \/ \E g \in Gs : G(g) \/ \E k \in Keys : GCall(g, k)
        \/ \E x \in Xs : X(x) \/ XCall(x) \/ XFail(x)
Spec == Init /\ [][Next]_vars
Fair == (\A g \in Gs : SF_vars(GLock(g)) /\ WF_vars(G(g))) /\ (\A x \in Xs : SF_vars(XLock(x)) /\ WF_vars(X(x)))
LiveSpec == Spec /\ Fair

Sum(f) == FoldFunction(LAMBDA a, b : a + b, 0, f)
InHand(k) == Sum([x \in Xs |-> IF xpc[x] = "collect" /\ xval[x][1] = k THEN xval[x][2] ELSE 0])
Counted(k) == At(ended, k) + Sum([g \in Gs |-> IF call[g] = k /\ gpc[g] \in {"unlock", "ret"} THEN 1 ELSE 0])
\* exported so far and what the next export will deliver: the events counted, at every moment
Conserved == \A k \in Keys : At(out, k) + InHand(k) + Sum([s \in 1..Shards |-> At(map[s], k)]) = Counted(k)
\* what the specification of Point and ERet demands, as invariants of the design
PointAllowed == \A x \in Xs : xpc[x] = "collect" => At(out, xval[x][1]) + xval[x][2] <= At(begun, xval[x][1])
AllDelivered == \A x \in Xs : (xpc[x] = "lock" /\ xsh[x] > Shards) => Delivered(x, Keys)
MapsMine == \A s \in 1..Shards : lock[s] = <<>> \/ lock[s][1] = "x" \/ ShardOf(lock[s][2]) = s
CountReturns == \A g \in Gs : gpc[g] = "lock" ~> gpc[g] = "idle"
ExportReturns == \A x \in Xs : xpc[x] = "lock" ~> xpc[x] = "end"
=============================================================================
