--------------------------- MODULE EventWriter ---------------------------
(* Events are rendered into buffers taken from a pool and written from there. *)
(* The writer reads the bytes while it runs, and may fail or panic.  A buffer *)
(* given back may be handed to the next event, holding what it holds.         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Bufs, Events  \* Events: how many each process logs
VARIABLES pc, done, held, pool, content, seen, written
vars == <<pc, done, held, pool, content, seen, written>>
None == "none"
Ev(p) == <<p, done[p]>>
Init == /\ pc = [p \in Procs |-> "idle"] /\ done = [p \in Procs |-> 0] /\ held = [p \in Procs |-> None]
        /\ pool = {} /\ content = [b \in Bufs |-> <<>>] /\ seen = [p \in Procs |-> <<>>] /\ written = <<>>
InUse == {held[p] : p \in Procs}
Get(p) == /\ pc[p] = "idle" /\ done[p] < Events
          /\ \E b \in Bufs : /\ (b \in pool \/ b \notin InUse)   \* from the pool, or a new one
                             /\ held' = [held EXCEPT ![p] = b] /\ pool' = pool \ {b}
          /\ pc' = [pc EXCEPT ![p] = "render"] /\ UNCHANGED <<done, content, seen, written>>
Render(p) == /\ pc[p] = "render" /\ content' = [content EXCEPT ![held[p]] = Ev(p)]
             /\ pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<done, held, pool, seen, written>>
\* the writer looks at the bytes when it begins and when it ends
Begin(p) == /\ pc[p] = "write" /\ seen' = [seen EXCEPT ![p] = content[held[p]]]
            /\ pc' = [pc EXCEPT ![p] = "writing"] /\ UNCHANGED <<done, held, pool, content, written>>
Finish(p, ok) == /\ pc[p] = "writing"
                 /\ written' = Append(written, [by |-> Ev(p), first |-> seen[p], last |-> content[held[p]]])
                 /\ pc' = [pc EXCEPT ![p] = IF ok THEN "put" ELSE "lost"] /\ UNCHANGED <<done, held, pool, content, seen>>
Put(p) == /\ pc[p] \in {"put", "lost"}
          /\ pool' = (IF pc[p] = "put" THEN pool \cup {held[p]} ELSE pool)  \* a panic loses the buffer
          /\ held' = [held EXCEPT ![p] = None] /\ done' = [done EXCEPT ![p] = @ + 1]
          /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<content, seen, written>>
Next == \E p \in Procs : Get(p) \/ Render(p) \/ Begin(p) \/ Finish(p, TRUE) \/ Finish(p, FALSE) \/ Put(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a buffer has one holder, and is not in the pool meanwhile
Exclusive == \A p \in Procs : held[p] # None => (held[p] \notin pool /\ \A q \in Procs \ {p} : held[q] # held[p])
\* each write is one event, unchanged until it returned
Whole == \A i \in 1..Len(written) : written[i].first = written[i].by /\ written[i].last = written[i].by
Once == \A i, j \in 1..Len(written) : i # j => written[i].by # written[j].by
\* the events of a process are written in order, and all of them in the end
Ordered == \A i, j \in 1..Len(written) : (i < j /\ written[i].by[1] = written[j].by[1]) => written[i].by[2] < written[j].by[2]
All == <>(\A p \in Procs : \A n \in 0..(Events - 1) : \E i \in 1..Len(written) : written[i].by = <<p, n>>)
=============================================================================
