---------------------------- MODULE ExecutorGen ----------------------------
(* Every order in which the outside world can act on the executor, with the   *)
(* executor's own steps taken as soon as possible; each complete behaviour is *)
(* written out as a scenario for the driver.                                  *)
EXTENDS Executor, Json, IOUtils
VARIABLES hist, plan
gvars == <<vars, hist, plan>>

GenInit == Init /\ hist = <<>> /\ plan = [t \in Tasks |-> "-"]

SysReady == \/ \E t \in Tasks : st[t] \in {"calling", "active"} \/ CanRetire(t) \/ (st[t] = "ended" /\ how[t] = "panic")
            \/ CanCancel
            \/ \E s \in Stoppers : sst[s] = "calling"
            \/ \E w \in Waiters : CanPass(w) \/ wst[w] = "passed" \/ (wst[w] = "waiting" /\ wctx[w])
SysStep == /\ UNCHANGED <<hist, plan>>
           /\ Sys
\* hand over in index order: the tasks are interchangeable
NextTask(t) == st[t] = "new" /\ \A u \in Tasks : u < t => st[u] # "new"
NextIn(S, x, f) == f[x] = "idle" /\ \A y \in S : y < x => f[y] # "idle"
OpGo(t, s, m) == NextTask(t) /\ GoCall(t, s) /\ plan' = [plan EXCEPT ![t] = m]
                 /\ hist' = Append(hist, [op |-> "go", t |-> t, site |-> s, how |-> m])
OpEnd(t) == st[t] = "running" /\ End(t, plan[t]) /\ hist' = Append(hist, [op |-> "release", t |-> t]) /\ UNCHANGED plan
OpStop(s) == NextIn(Stoppers, s, sst) /\ StopCall(s) /\ hist' = Append(hist, [op |-> "stop", s |-> s]) /\ UNCHANGED plan
OpWait(w) == NextIn(Waiters, w, wst) /\ WaitCall(w) /\ hist' = Append(hist, [op |-> "wait", w |-> w]) /\ UNCHANGED plan
OpCtx(w) == wst[w] = "waiting" /\ CtxEnd(w) /\ hist' = Append(hist, [op |-> "ctxend", w |-> w]) /\ UNCHANGED plan

CONSTANT MaxOps
GenNext ==
  IF SysReady THEN SysStep
  ELSE /\ Len(hist) < MaxOps
       /\ \/ \E t \in Tasks, s \in Sites, m \in Modes : OpGo(t, s, m)
          \/ \E t \in Tasks : OpEnd(t)
          \/ \E s \in Stoppers : OpStop(s)
          \/ \E w \in Waiters : OpWait(w) \/ OpCtx(w)
GenSpec == GenInit /\ [][GenNext]_gvars
\* emit maximal behaviours in which somebody waits
Complete == ~SysReady /\ Len(hist) = MaxOps /\ (\E w \in Waiters : wst[w] # "idle") /\ (\E t \in Tasks : st[t] # "new")
Emit == ~Complete \/ Serialize(ToJson(hist) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
