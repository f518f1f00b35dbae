------------------------------ MODULE TraceKit ------------------------------
(* Shared part of all trace specifications.  The file named by $TRACE holds one *)
(* recorded case per line: [id, par, ev] with ev the sequence of its events.    *)
(* All cases are validated in one TLC run: each is an initial state of its own. *)
(* Register c holds the number of the first event of case c not yet explained;  *)
(* a case is accepted when some behaviour explains all of its events.           *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCases == Len(Trace)
Evs(c) == Trace[c].ev

ASSUME \A c \in 1..NCases : TLCSet(c, 1)

Mark(c, l) == IF TLCGet(c) < l THEN TLCSet(c, l) ELSE TRUE

TraceDone ==
  /\ \A c \in 1..NCases : IF TLCGet(c) > Len(Evs(c)) THEN TRUE ELSE PrintT(<<"REJECT", c, TLCGet(c)>>)
  /\ PrintT(<<"TRACES-CHECKED", NCases>>)
=============================================================================
