------------------------------ MODULE Executor ------------------------------
(* The unbounded executor (concurrent/unbounded_executor.go): tasks are handed *)
(* over, run each in a goroutine of its own, may panic, and can be stopped and *)
(* waited for.  One action per critical section of the code; the count of      *)
(* running tasks is kept per call site, as in the code.                        *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Tasks, Waiters, Stoppers, Sites

VARIABLES
  st,        \* st[t]: "new" -> "calling" -> "active" -> "running" -> "ended" -> "retired"
  site,      \* site[t]: where the task was handed over (the key its count is kept under)
  cnt,       \* cnt[s]: running tasks of call site s
  how,       \* how[t]: how the task function ended: "-", "ok", "panic", "stop", "exit"
  reports,   \* reports[t]: panic reports made for t
  late,      \* late[t]: handed over after a stop had returned
  cancelled, \* the context the tasks see is cancelled
  stopped,   \* some stop (or wait) has returned
  sst,       \* sst[s]: "idle" -> "calling" -> "returned"
  wst,       \* wst[w]: "idle" -> "waiting" -> "passed" -> "returned"
  wctx,      \* wctx[w]: the context the waiter passed has ended
  owed       \* owed[w]: tasks already handed over when w began to wait (history)

vars == <<st, site, cnt, how, reports, late, cancelled, stopped, sst, wst, wctx, owed>>

InFlight(t) == st[t] \in {"active", "running", "ended"}
HandedOver(t) == st[t] \notin {"new", "calling"}

Init ==
  /\ st = [t \in Tasks |-> "new"]
  /\ site = [t \in Tasks |-> CHOOSE s \in Sites : TRUE]
  /\ cnt = [s \in Sites |-> 0]
  /\ how = [t \in Tasks |-> "-"]
  /\ reports = [t \in Tasks |-> 0]
  /\ late = [t \in Tasks |-> FALSE]
  /\ cancelled = FALSE
  /\ stopped = FALSE
  /\ sst = [s \in Stoppers |-> "idle"]
  /\ wst = [w \in Waiters |-> "idle"]
  /\ wctx = [w \in Waiters |-> FALSE]
  /\ owed = [w \in Waiters |-> {}]

GoCall(t, s) ==
  /\ st[t] = "new"
  /\ st' = [st EXCEPT ![t] = "calling"]
  /\ site' = [site EXCEPT ![t] = s]
  /\ late' = [late EXCEPT ![t] = stopped]
  /\ UNCHANGED <<cnt, how, reports, cancelled, stopped, sst, wst, wctx, owed>>

\* the critical section of Go
Register(t) ==
  /\ st[t] = "calling"
  /\ st' = [st EXCEPT ![t] = "active"]
  /\ cnt' = [cnt EXCEPT ![site[t]] = @ + 1]
  /\ UNCHANGED <<site, how, reports, late, cancelled, stopped, sst, wst, wctx, owed>>

\* the task function starts; seen: whether its context was cancelled already
Begin(t, seen) ==
  /\ st[t] = "active"
  /\ seen => cancelled
  /\ late[t] => seen
  /\ st' = [st EXCEPT ![t] = "running"]
  /\ UNCHANGED <<site, cnt, how, reports, late, cancelled, stopped, sst, wst, wctx, owed>>

\* a running task notices that its context ended
Saw(t) ==
  /\ st[t] = "running"
  /\ cancelled
  /\ UNCHANGED vars

End(t, m) ==
  /\ st[t] = "running"
  /\ st' = [st EXCEPT ![t] = "ended"]
  /\ how' = [how EXCEPT ![t] = m]
  /\ UNCHANGED <<site, cnt, reports, late, cancelled, stopped, sst, wst, wctx, owed>>

Report(t) ==
  /\ st[t] = "ended"
  /\ how[t] = "panic"
  /\ reports[t] = 0
  /\ reports' = [reports EXCEPT ![t] = 1]
  /\ UNCHANGED <<st, site, cnt, how, late, cancelled, stopped, sst, wst, wctx, owed>>

\* the critical section of the task's exit
CanRetire(t) == st[t] = "ended" /\ (how[t] = "panic" => reports[t] = 1)
Retire(t) ==
  /\ CanRetire(t)
  /\ st' = [st EXCEPT ![t] = "retired"]
  /\ cnt' = [cnt EXCEPT ![site[t]] = @ - 1]
  /\ UNCHANGED <<site, how, reports, late, cancelled, stopped, sst, wst, wctx, owed>>

StopCall(s) ==
  /\ sst[s] = "idle"
  /\ sst' = [sst EXCEPT ![s] = "calling"]
  /\ UNCHANGED <<st, site, cnt, how, reports, late, cancelled, stopped, wst, wctx, owed>>

CanCancel == ~cancelled /\ (\/ \E s \in Stoppers : sst[s] = "calling"
                            \/ \E w \in Waiters : wst[w] = "waiting")
Cancel ==
  /\ CanCancel
  /\ cancelled' = TRUE
  /\ UNCHANGED <<st, site, cnt, how, reports, late, stopped, sst, wst, wctx, owed>>

StopRet(s) ==
  /\ sst[s] = "calling"
  /\ cancelled
  /\ sst' = [sst EXCEPT ![s] = "returned"]
  /\ stopped' = TRUE
  /\ UNCHANGED <<st, site, cnt, how, reports, late, cancelled, wst, wctx, owed>>

WaitCall(w) ==
  /\ wst[w] = "idle"
  /\ wst' = [wst EXCEPT ![w] = "waiting"]
  /\ owed' = [owed EXCEPT ![w] = {t \in Tasks : HandedOver(t)}]
  /\ UNCHANGED <<st, site, cnt, how, reports, late, cancelled, stopped, sst, wctx>>

\* the critical section of the waiter's poll that finds nothing running
CanPass(w) == wst[w] = "waiting" /\ cancelled /\ \A s \in Sites : cnt[s] = 0
Check(w) ==
  /\ CanPass(w)
  /\ wst' = [wst EXCEPT ![w] = "passed"]
  /\ UNCHANGED <<st, site, cnt, how, reports, late, cancelled, stopped, sst, wctx, owed>>

\* the context of the waiter ends (a deadline, or cancelled by its owner)
CtxEnd(w) ==
  /\ wctx[w] = FALSE
  /\ wctx' = [wctx EXCEPT ![w] = TRUE]
  /\ UNCHANGED <<st, site, cnt, how, reports, late, cancelled, stopped, sst, wst, owed>>

WaitRet(w) ==
  /\ \/ wst[w] = "passed"
     \/ wst[w] = "waiting" /\ wctx[w] /\ cancelled
  /\ wst' = [wst EXCEPT ![w] = "returned"]
  /\ stopped' = TRUE
  /\ UNCHANGED <<st, site, cnt, how, reports, late, cancelled, sst, wctx, owed>>

Modes == {"ok", "panic", "stop", "exit"}

Sys ==
  \/ \E t \in Tasks : Register(t) \/ Report(t) \/ Retire(t) \/ Begin(t, cancelled)
  \/ Cancel
  \/ \E s \in Stoppers : StopRet(s)
  \/ \E w \in Waiters : Check(w) \/ WaitRet(w)
Env ==
  \/ \E t \in Tasks, s \in Sites : GoCall(t, s)
  \/ \E t \in Tasks, m \in Modes : End(t, m)
  \/ \E s \in Stoppers : StopCall(s)
  \/ \E w \in Waiters : WaitCall(w) \/ CtxEnd(w)
Next == Sys \/ Env

Fairness ==
  /\ WF_vars(Sys)
  /\ \A t \in Tasks : WF_vars(\E m \in Modes : End(t, m)) /\ WF_vars(Register(t))
  /\ \A t \in Tasks : WF_vars(Begin(t, cancelled)) /\ WF_vars(Retire(t)) /\ WF_vars(Report(t))
  /\ \A w \in Waiters : SF_vars(Check(w)) /\ WF_vars(WaitRet(w))
  /\ WF_vars(Cancel)
Spec == Init /\ [][Next]_vars /\ Fairness

----------------------------------------------------------------------------
\* C01
NoEarlyReturn ==
  \A w \in Waiters : (wst[w] \in {"passed", "returned"} /\ ~wctx[w]) => \A t \in owed[w] : st[t] = "retired"
WaitCancels == \A w \in Waiters : wst[w] \in {"passed", "returned"} => cancelled
CountsExact == \A s \in Sites : cnt[s] = Cardinality({t \in Tasks : site[t] = s /\ InFlight(t)})
\* C02
ReportedOnce == \A t \in Tasks : /\ reports[t] \in {0, 1}
                                 /\ reports[t] = 1 => how[t] = "panic"
                                 /\ st[t] = "retired" /\ how[t] = "panic" => reports[t] = 1
RunsOnce == [][\A t \in Tasks : st'[t] = "running" /\ st[t] # "running" => st[t] = "active"]_vars
\* liveness: every wait ends once the tasks have ended (the finite task set makes "cnt = 0" eventually permanent)
WaitEnds == \A w \in Waiters : (wst[w] = "waiting") ~> (wst[w] = "returned")
TaskEnds == \A t \in Tasks : (st[t] = "calling") ~> (st[t] = "retired")
=============================================================================
