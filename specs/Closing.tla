------------------------------ MODULE Closing ------------------------------
(* Closing lists of resources, by several callers at once.  An error is a    *)
(* number, 0: none.  A call: resources still to close, errors so far, errors *)
(* still to be logged.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLE call   \* per caller: [st, todo, errs, unlogged]
Idle == [st |-> "idle", todo |-> <<>>, errs |-> <<>>, unlogged |-> <<>>]
Failures(q) == SelectSeq(q, LAMBDA e : e # 0)
Remove(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Begin(g, list) == call[g].st = "idle" /\ call' = [call EXCEPT ![g] = [Idle EXCEPT !.st = "run", !.todo = list]]
\* the next one is closed, with error e
CloseNext(g, r, e) == /\ call[g].st = "run" /\ call[g].todo # <<>> /\ Head(call[g].todo) = r
                      /\ call' = [call EXCEPT ![g].todo = Tail(@), ![g].errs = IF e = 0 THEN @ ELSE Append(@, e),
                                              ![g].unlogged = IF e = 0 THEN @ ELSE Append(@, e)]
\* a failure is logged, with its own error
LogOne(g, e) == /\ call[g].st = "run" /\ \E i \in DOMAIN call[g].unlogged : call[g].unlogged[i] = e
                /\ LET i == CHOOSE j \in DOMAIN call[g].unlogged : call[g].unlogged[j] = e
                   IN call' = [call EXCEPT ![g].unlogged = Remove(@, i)]
\* what comes back: all the errors, in order
Return(g, errs) == /\ call[g].st = "run" /\ call[g].todo = <<>> /\ call[g].unlogged = <<>> /\ errs = call[g].errs
                   /\ call' = [call EXCEPT ![g] = Idle]
=============================================================================
