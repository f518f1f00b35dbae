---------------------------- MODULE ClosingImpl ----------------------------
(* CloseAll as it is built, and Close (a list of one): every caller passes   *)
(* the same list of properties, whose array has room for more; the error is  *)
(* appended to it, in a new array (Copying) or in the shared one.            *)
EXTENDS Closing
CONSTANTS Callers, MaxRes, Errors, Copying
VARIABLES plan,  \* per caller: the outcomes of its resources
          pc,    \* per caller: [at, i: the resource, errs, own: where its last property is - in the shared array or not]
          room   \* what is behind the properties in the shared array; 0 at the start
vars == <<call, plan, pc, room>>
Plans == UNION {[1..n -> {0} \cup Errors] : n \in 0..MaxRes}
Init == /\ plan \in [Callers -> Plans] /\ pc = [g \in Callers |-> [at |-> "call", i |-> 1, errs |-> <<>>, own |-> 0]] /\ room = 0
        /\ call = [g \in Callers |-> Idle]
Goto(g, at) == pc' = [pc EXCEPT ![g].at = at]
Call(g) == pc[g].at = "call" /\ Goto(g, "close") /\ Begin(g, [i \in DOMAIN plan[g] |-> i]) /\ UNCHANGED <<plan, room>>
Close(g) == /\ pc[g].at = "close" /\ pc[g].i <= Len(plan[g])
            /\ LET e == plan[g][pc[g].i] IN
               /\ CloseNext(g, pc[g].i, e)
               /\ pc' = [pc EXCEPT ![g] = IF e = 0 THEN [@ EXCEPT !.i = @ + 1] ELSE [@ EXCEPT !.at = "append"]]
            /\ UNCHANGED <<plan, room>>
AppendErr(g) == /\ pc[g].at = "append" /\ UNCHANGED <<plan, call>>
                /\ LET e == plan[g][pc[g].i] IN
                   IF Copying THEN pc' = [pc EXCEPT ![g].at = "log", ![g].own = e] /\ UNCHANGED room
                   ELSE room' = e /\ Goto(g, "log")
\* the step of the implementation; that it is one of the specification is Refines
Shown(g) == IF Copying THEN pc[g].own ELSE room
Log(g) == /\ pc[g].at = "log" /\ pc' = [pc EXCEPT ![g].at = "close", ![g].i = @ + 1, ![g].errs = Append(@, plan[g][pc[g].i])]
          /\ LogOne(g, Shown(g)) /\ UNCHANGED <<plan, room>>
Ret(g) == /\ pc[g].at = "close" /\ pc[g].i > Len(plan[g]) /\ Return(g, pc[g].errs) /\ Goto(g, "done") /\ UNCHANGED <<plan, room>>
Next == \E g \in Callers : Call(g) \/ Close(g) \/ AppendErr(g) \/ Log(g) \/ Ret(g)
Done == (\A g \in Callers : pc[g].at = "done") /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
\* nobody gets stuck (the logged error is the own one, what is returned is what failed): checked as absence of deadlock
Ends == \A g \in Callers : pc[g].at = "done" => pc[g].errs = Failures(plan[g])
Untouched == room = 0
=============================================================================
