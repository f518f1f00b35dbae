---------------------------- MODULE AsyncWriter ----------------------------
(* An asynchronous writer: a bounded queue between the callers of Write and a *)
(* sink that takes one message at a time, in blocking or dropping mode, and   *)
(* Close, which stops the transport, lets it drain, and closes the sink.      *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Writes    \* the calls of Write there can be, each with a number
VARIABLES mode,     \* "block" or "drop"
          cap,      \* length of the queue
          wst,      \* per call: idle calling queued rejecting dropped returned
          msg,      \* per call: its bytes when it was called
          queue,    \* accepted and not yet taken (numbers of calls)
          hand,     \* taken by the transport, 0 if none
          sink,     \* "idle" or "busy" (inside a write of the sink)
          sent,     \* handed to the sink, in order
          drops,    \* handed to the drop callback
          cl,       \* Close: open calling stopping drained sinkclosed returned
          closable, \* the sink can be closed
          slow,     \* the grace period is over
          before    \* calls that had returned when Close was called
vars == <<mode, cap, wst, msg, queue, hand, sink, sent, drops, cl, closable, slow, before>>
conf == <<mode, cap, closable>>

Range(s) == {s[i] : i \in 1..Len(s)}

WCall(w, m) == /\ wst[w] = "idle"
               /\ wst' = [wst EXCEPT ![w] = "calling"] /\ msg' = [msg EXCEPT ![w] = m]
               /\ UNCHANGED <<conf, queue, hand, sink, sent, drops, cl, slow, before>>
CanEnqueue(w) == wst[w] = "calling" /\ Len(queue) < cap
Enqueue(w) == /\ CanEnqueue(w)
              /\ wst' = [wst EXCEPT ![w] = "queued"] /\ queue' = Append(queue, w)
              /\ UNCHANGED <<conf, msg, hand, sink, sent, drops, cl, slow, before>>
CanReject(w) == mode = "drop" /\ wst[w] = "calling" /\ Len(queue) = cap
Reject(w) == /\ CanReject(w)
             /\ wst' = [wst EXCEPT ![w] = "rejecting"]
             /\ UNCHANGED <<conf, msg, queue, hand, sink, sent, drops, cl, slow, before>>
Drop(w, m) == /\ wst[w] = "rejecting" /\ m = msg[w]
              /\ wst' = [wst EXCEPT ![w] = "dropped"] /\ drops' = Append(drops, w)
              /\ UNCHANGED <<conf, msg, queue, hand, sink, sent, cl, slow, before>>
WRet(w, n) == /\ wst[w] \in {"queued", "dropped"} /\ n = Len(msg[w])
              /\ wst' = [wst EXCEPT ![w] = "returned"]
              /\ UNCHANGED <<conf, msg, queue, hand, sink, sent, drops, cl, slow, before>>

Alive == cl \in {"open", "calling", "stopping"}
CanTake == Alive /\ hand = 0 /\ queue # <<>>
Take == /\ CanTake
        /\ hand' = Head(queue) /\ queue' = Tail(queue)
        /\ UNCHANGED <<conf, wst, msg, sink, sent, drops, cl, slow, before>>
SinkB(m) == /\ hand # 0 /\ sink = "idle" /\ m = msg[hand]
            /\ sink' = "busy" /\ sent' = Append(sent, hand)
            /\ UNCHANGED <<conf, wst, msg, queue, hand, drops, cl, slow, before>>
SinkE(m) == /\ sink = "busy" /\ m = msg[hand]
            /\ sink' = "idle" /\ hand' = 0
            /\ UNCHANGED <<conf, wst, msg, queue, sent, drops, cl, slow, before>>

CCall == /\ cl = "open" /\ cl' = "calling" /\ before' = {w \in Writes : wst[w] = "returned"}
         /\ UNCHANGED <<conf, wst, msg, queue, hand, sink, sent, drops, slow>>
Stop == /\ cl = "calling" /\ cl' = "stopping"
        /\ UNCHANGED <<conf, wst, msg, queue, hand, sink, sent, drops, slow, before>>
CanDrain == cl = "stopping" /\ hand = 0 /\ (queue = <<>> \/ slow)
Drained == /\ CanDrain /\ cl' = "drained"
           /\ UNCHANGED <<conf, wst, msg, queue, hand, sink, sent, drops, slow, before>>
SinkClose == /\ cl = "drained" /\ closable /\ cl' = "sinkclosed"
             /\ UNCHANGED <<conf, wst, msg, queue, hand, sink, sent, drops, slow, before>>
CRet == /\ cl = (IF closable THEN "sinkclosed" ELSE "drained") /\ cl' = "returned"
        /\ UNCHANGED <<conf, wst, msg, queue, hand, sink, sent, drops, slow, before>>
Expire == /\ cl = "stopping" /\ ~slow /\ slow' = TRUE
          /\ UNCHANGED <<conf, wst, msg, queue, hand, sink, sent, drops, cl, before>>

\* ------------------------------------------------------------------ the design, explored by TLC
CONSTANTS Modes, Caps, MayExpire
Init == /\ mode \in Modes /\ cap \in Caps /\ closable \in BOOLEAN
        /\ wst = [w \in Writes |-> "idle"] /\ msg = [w \in Writes |-> <<>>]
        /\ queue = <<>> /\ hand = 0 /\ sink = "idle" /\ sent = <<>> /\ drops = <<>>
        /\ cl = "open" /\ slow = FALSE /\ before = {}
Transport == Take \/ Stop \/ Drained \/ SinkClose \/ CRet
             \/ (hand # 0 /\ (SinkB(msg[hand]) \/ SinkE(msg[hand])))
Next == \/ \E w \in Writes : WCall(w, <<w>>) \/ Enqueue(w) \/ Reject(w) \/ Drop(w, msg[w]) \/ WRet(w, Len(msg[w]))
        \/ Transport \/ CCall \/ (MayExpire /\ Expire)
Fair == WF_vars(Transport) /\ \A w \in Writes : WF_vars(Enqueue(w) \/ Reject(w) \/ Drop(w, msg[w]) \/ WRet(w, Len(msg[w])))
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fair

TypeOK == /\ Len(queue) <= cap /\ hand \in Writes \cup {0}
\* each accepted message is in exactly one place; a dropped one in none
Once == /\ \A i, j \in 1..Len(sent) : i # j => sent[i] # sent[j]
        /\ \A i, j \in 1..Len(queue) : i # j => queue[i] # queue[j]
        /\ Range(sent) \cap Range(queue) = {}
        /\ Range(drops) \cap (Range(sent) \cup Range(queue)) = {}
Kept == \A w \in Writes : wst[w] = "returned" => \/ w \in Range(sent) \/ w \in Range(queue) \/ hand = w \/ w \in Range(drops)
\* as long as the sink has not finished a write: what was accepted fits into the queue and the hand of the transport, and
\* nothing is dropped before as much as the queue holds was accepted
Accepted == {w \in Writes : wst[w] \in {"queued", "returned"}} \ Range(drops)
SomeDropped == drops # <<>> \/ \E w \in Writes : wst[w] \in {"rejecting", "dropped"}
Stalled == (\A i \in 1..Len(sent) : hand = sent[i]) =>
             (Cardinality(Accepted) <= cap + 1 /\ (SomeDropped => Cardinality(Accepted) >= cap))
BlockNeverDrops == mode = "block" => drops = <<>>
CloseDelivers == (cl \in {"drained", "sinkclosed", "returned"} /\ ~slow) => before \subseteq Range(sent) \cup Range(drops)
NoWriteAfterClose == cl \in {"drained", "sinkclosed", "returned"} => sink = "idle" /\ hand = 0
\* the order in which the sink gets the messages is the order in which they were accepted
Fifo == [][\A w \in Writes : (wst[w] = "calling" /\ wst'[w] = "queued") => \A v \in Range(sent') \cup Range(queue) : v # w]_vars
WritesReturn == \A w \in Writes : wst[w] = "calling" ~> (wst[w] = "returned" \/ cl # "open")
NeverWaits == \A w \in Writes : (mode = "drop" /\ wst[w] = "calling") ~> wst[w] = "returned"
CloseReturns == cl = "calling" ~> cl = "returned"
Delivered == \A w \in Writes : (wst[w] = "queued") ~> (w \in Range(sent) \/ cl # "open")
=============================================================================
