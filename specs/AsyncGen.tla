----------------------------- MODULE AsyncGen -----------------------------
(* Every order in which writers, the sink and Close can act, the transport's  *)
(* own steps being taken as soon as possible; each behaviour is written out.  *)
EXTENDS AsyncWriter, Json, IOUtils, TLC
VARIABLES hist
CONSTANT MaxOps
gvars == <<vars, hist>>
GenInit == Init /\ hist = <<>>

Ready == \/ \E w \in Writes : CanEnqueue(w) \/ CanReject(w) \/ wst[w] \in {"queued", "rejecting", "dropped"}
         \/ CanTake \/ cl = "calling" \/ CanDrain \/ cl = "drained" \/ cl = "sinkclosed"
         \/ (hand # 0 /\ sink = "idle")
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Sys == LET E == {w \in Writes : CanEnqueue(w) \/ CanReject(w) \/ wst[w] \in {"queued", "rejecting", "dropped"}} IN
       /\ UNCHANGED hist
       /\ IF CanTake THEN Take
          ELSE IF hand # 0 /\ sink = "idle" THEN SinkB(msg[hand])
          ELSE IF E # {} THEN LET w == First(E) IN
                 \/ Enqueue(w) \/ Reject(w) \/ Drop(w, msg[w]) \/ WRet(w, Len(msg[w]))
          ELSE IF cl = "calling" THEN Stop
          ELSE Drained \/ SinkClose \/ CRet
Op(r) == hist' = Append(hist, r)
NextW(w) == wst[w] = "idle" /\ \A v \in Writes : v < w => wst[v] # "idle"
\* ret: does the call return at once?
OpWrite(w) == /\ NextW(w) /\ WCall(w, <<w>>)
              /\ Op([op |-> "write", w |-> w, ret |-> (mode = "drop" \/ Len(queue) < cap)])
OpSink(e) == sink = "busy" /\ SinkE(msg[hand]) /\ Op([op |-> "sink", fail |-> e])
OpClose == CCall /\ Op([op |-> "close"])
GenNext == IF Ready THEN Sys
           ELSE /\ Len(hist) < MaxOps
                /\ \/ \E w \in Writes : OpWrite(w)
                   \/ \E e \in BOOLEAN : OpSink(e)
                   \/ OpClose
GenSpec == GenInit /\ [][GenNext]_gvars
Complete == ~Ready /\ hist # <<>> /\ (Len(hist) = MaxOps \/ cl = "returned")
Emit == ~Complete \/ Serialize(ToJson([mode |-> mode, cap |-> cap, closable |-> closable, ops |-> hist]) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
