----------------------------- MODULE JsonTrace -----------------------------
(* Texts recorded from the real encoder.  pre is what was in the buffer       *)
(* before; it must still be there, followed by the text of the value.         *)
EXTENDS JsonText, TraceKit
VARIABLES c, l
Ev == Evs(c)[l]
Next == /\ l <= Len(Evs(c)) /\ c' = c /\ l' = l + 1
        /\ Ev.e = "Marshal"
        /\ LET v == Trace[c].par.v
               p == Len(Ev.pre) IN
           /\ Len(Ev.out) >= p /\ SubSeq(Ev.out, 1, p) = Ev.pre
           /\ Match(v, Ev.out, p + 1) = Len(Ev.out) + 1
TraceInit == c \in 1..NCases /\ l = 1
TraceSpec == TraceInit /\ [][Next]_<<c, l>>
Progress == Mark(c, l)
=============================================================================
