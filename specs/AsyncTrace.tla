---------------------------- MODULE AsyncTrace ----------------------------
EXTENDS AsyncWriter, TraceKit
VARIABLES c, l
tvars == <<vars, c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ l' = l + 1 /\ c' = c
\* Only what the next event may need: queueing is taken as late as possible for the call itself (its own
\* return) but may happen at any time for an earlier order, so all calls in progress are tried.
Silent == /\ Has /\ UNCHANGED <<c, l>>
          /\ \/ \E w \in Writes : wst[w] = "calling" /\ (Enqueue(w) \/ Reject(w))
             \/ Take \/ Stop \/ Drained
Consume ==
  \/ Is("WCall") /\ WCall(Ev.w, Ev.m)
  \/ Is("WRet") /\ Ev.err = "" /\ WRet(Ev.w, Ev.n)
  \/ Is("SinkB") /\ SinkB(Ev.m)
  \/ Is("SinkE") /\ SinkE(Ev.m)
  \/ Is("Drop") /\ \E w \in Writes : Drop(w, Ev.m)
  \/ Is("CCall") /\ CCall
  \/ Is("SinkClose") /\ SinkClose
  \/ Is("CRet") /\ CRet /\ Ev.err = (IF closable THEN Trace[c].par.cerr ELSE "")
  \* the call was given a long time and did not return
  \/ Is("Blocked") /\ mode = "block" /\ wst[Ev.w] = "calling" /\ Len(queue) = cap /\ hand # 0 /\ UNCHANGED vars
  \* n calls at one moment, the sink stalled from the start: how many returned meanwhile, how many were dropped and
  \* delivered in all.  (The bounds follow from Enqueue, Reject and Take: see Stalled in AsyncWriter.)
  \/ Is("Stampede") /\ UNCHANGED vars /\ Ev.once /\ Ev.bad = 0
       /\ IF mode = "drop" THEN /\ Ev.stalled = Ev.n /\ Ev.sent <= cap + 1
                                /\ Ev.sent >= (IF Ev.n < cap THEN Ev.n ELSE cap)
                                /\ Ev.sent + Ev.drops = Ev.n
                                \* without a callback: the first and every thousandth after it is put in the log
                                /\ Ev.nocb => Ev.logs = ((Ev.drops + 999) \div 1000)
                           ELSE /\ Ev.drops = 0 /\ Ev.sent = Ev.n
                                /\ Ev.stalled <= cap + 1 /\ Ev.stalled >= (IF Ev.n < cap THEN Ev.n ELSE cap)
  \* another writer, used in between, sent exactly what it was given
  \/ Is("Other") /\ Ev.all /\ UNCHANGED vars
  \* everything was released and given a long time
  \/ Is("Quiesced") /\ cl \in {"open", "returned"} /\ UNCHANGED vars
                    /\ (cl = "open" => queue = <<>> /\ hand = 0 /\ \A w \in Writes : wst[w] \in {"idle", "returned"})
                    /\ (mode = "drop" => \A w \in Writes : wst[w] \in {"idle", "returned"})
TraceInit == /\ c \in 1..NCases /\ l = 1
             /\ mode = Trace[c].par.mode /\ cap = Trace[c].par.cap /\ closable = Trace[c].par.closable
             /\ wst = [w \in Writes |-> "idle"] /\ msg = [w \in Writes |-> <<>>]
             /\ queue = <<>> /\ hand = 0 /\ sink = "idle" /\ sent = <<>> /\ drops = <<>>
             /\ cl = "open" /\ slow = Trace[c].par.slow /\ before = {}
TraceSpec == TraceInit /\ [][Silent \/ Consume]_tvars
Progress == TypeOK /\ Once /\ Kept /\ BlockNeverDrops /\ CloseDelivers /\ NoWriteAfterClose /\ Mark(c, l)
TraceWrites == 1..24
=============================================================================
