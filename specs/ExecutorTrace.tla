--------------------------- MODULE ExecutorTrace ---------------------------
(* Is a recorded execution of the real executor a behaviour of Executor?     *)
EXTENDS Executor, TraceKit

VARIABLES c, l
tvars == <<vars, c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ l' = l + 1 /\ c' = c

\* Steps of the system that leave no event.  They are taken eagerly where that can only enable more
\* (Retire, Cancel, Check) and lazily where that can only disable less (Register), so nothing is lost.
EagerRetire == {t \in Tasks : CanRetire(t)}
EagerCheck == {w \in Waiters : CanPass(w)}
LazyRegister == {t \in Tasks : Has /\ st[t] = "calling" /\ Ev.e \in {"GoRet", "Begin"} /\ Ev.t = t}

Silent ==
  /\ UNCHANGED <<c, l>>
  /\ IF EagerRetire # {} THEN Retire(CHOOSE t \in EagerRetire : TRUE)
     ELSE IF CanCancel THEN Cancel
     ELSE IF EagerCheck # {} THEN Check(CHOOSE w \in EagerCheck : TRUE)
     ELSE IF LazyRegister # {} THEN Register(CHOOSE t \in LazyRegister : TRUE)
     ELSE FALSE
Quiet == EagerRetire = {} /\ ~CanCancel /\ EagerCheck = {} /\ LazyRegister = {}

Consume ==
  /\ Quiet
  /\ \/ Is("GoCall") /\ GoCall(Ev.t, Ev.site)
     \/ Is("GoRet") /\ HandedOver(Ev.t) /\ UNCHANGED vars
     \/ Is("Begin") /\ Begin(Ev.t, Ev.seen)
     \/ Is("Saw") /\ Saw(Ev.t)
     \/ Is("End") /\ End(Ev.t, Ev.m)
     \/ Is("Report") /\ Report(Ev.t)
     \/ Is("StopCall") /\ StopCall(Ev.s)
     \/ Is("StopRet") /\ StopRet(Ev.s)
     \/ Is("WaitCall") /\ WaitCall(Ev.w)
     \/ Is("CtxEnd") /\ CtxEnd(Ev.w)
     \/ Is("WaitRet") /\ WaitRet(Ev.w)
     \* everything was released, nothing more happened for a long time: whatever had to happen has happened
     \/ Is("Quiesced") /\ (\A t \in Tasks : st[t] \in {"new", "retired"})
                       /\ (\A w \in Waiters : wst[w] \in {"idle", "returned"})
                       /\ (\A s \in Stoppers : sst[s] \in {"idle", "returned"}) /\ UNCHANGED vars
     \* another executor with three tasks of the same sites, nobody stopped it
     \/ Is("Other") /\ Ev.runs = 3 /\ Ev.ended = 3 /\ Ev.saw = 0 /\ UNCHANGED vars
     \* many executors, the tasks of each handed over at one moment; waits began once all ran (RunsOnce, Cancel), none may
     \* return before the tasks end (NoEarlyReturn), all must afterwards (WaitEnds)
     \/ Is("Stampede") /\ Ev.runs = Ev.n /\ Ev.ended = Ev.n /\ Ev.seen = Ev.n /\ Ev.early = 0 /\ Ev.late = 0
                       /\ Ev.reports = Ev.panics /\ UNCHANGED vars
     \* the tasks hardly get to run, yet the wait, which began after they were handed over, lasts until they ended
     \/ Is("Starved") /\ Ev.runs = Ev.n /\ Ev.ended = Ev.n /\ UNCHANGED vars

TraceInit == Init /\ c \in 1..NCases /\ l = 1
TraceNext == Silent \/ Consume
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == NoEarlyReturn /\ WaitCancels /\ ReportedOnce /\ CountsExact /\ Mark(c, l)
=============================================================================
