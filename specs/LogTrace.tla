----------------------------- MODULE LogTrace -----------------------------
(* The logger as a whole: log calls with what reached the writer, lines of a  *)
(* format on its own, formatted prints.  par.seq: one call at a time, so that *)
(* what was reported during a call is the call's.                             *)
EXTENDS Dispatch, LogLine, TraceKit
VARIABLES c, l
tvars == <<dvars, c, l>>
Ev == Evs(c)[l]
Fmt == Trace[c].par.fmt
OneByOne == Trace[c].par.seq
Event(e, lv, loc) == [tpl |-> e.tpl, args |-> e.args, ctx |-> e.cprops, lv |-> lv, failed |-> e.failed, err |-> e.err, ts |-> e.ts, loc |-> loc]
\* where events of this name are logged; an event may be shown at the first of them that had the same properties
Locs(e) == {Evs(c)[i].loc : i \in {j \in 1..Len(Evs(c)) : (j <= l \/ ~OneByOne) /\ Evs(c)[j].e = "Log" /\ Evs(c)[j].tpl = e.tpl}}
Fails(f) == f \in {"err", "short", "panic"}
\* a write of the event: whole, and the bytes stayed as they were
Written(e, w) == w.stable /\ \E loc \in Locs(e) : IsLine(Fmt, Event(e, LevelOf(e.fn, e.lv, e.failed), loc), w.b)
Log == /\ Ev.e = "Log" /\ UNCHANGED dvars
       /\ Ev.retfail = (IsCall(Ev.fn) /\ Ev.failed)
       /\ IF ~Output(Ev.fn, Ev.lv, Ev.failed, Ev.agg, Ev.ctx) THEN Ev.writes = <<>>
          ELSE IF Ev.bad THEN \* an event that cannot be shown is reported
                 /\ Len(Ev.writes) <= 1
                 /\ ((Ev.writes = <<>> /\ OneByOne) => Ev.reports >= 1)
          ELSE /\ Len(Ev.writes) = 1 /\ Ev.intime
               /\ Written(Ev, Ev.writes[1])
               /\ ((Fails(Ev.fault) /\ OneByOne) => Ev.reports >= 1)
LineOf == /\ Ev.e = "Line" /\ UNCHANGED dvars /\ Ev.kept
          /\ IsLine(Ev.fmt, [tpl |-> Ev.tpl, args |-> Ev.args, ctx |-> Ev.ctx, lv |-> Ev.lv, failed |-> Ev.failed, err |-> Ev.err, ts |-> Ev.ts, loc |-> Ev.loc], Ev.out)
Print_ == /\ Ev.e = "Print" /\ UNCHANGED dvars
          /\ Len(Ev.writes) = 1 /\ Ev.writes[1].stable /\ Renders(Ev.tpl, Ev.args, Ev.writes[1].b)
          /\ (Ev.fault # "panic" => Ev.errback = Fails(Ev.fault))
End == Ev.e = "End" /\ UNCHANGED dvars /\ Ev.stray = <<>> /\ Ev.nestedwrites = Ev.nested
Next == /\ l <= Len(Evs(c)) /\ c' = c /\ l' = l + 1
        /\ (Log \/ LineOf \/ Print_ \/ End \/ (Ev.e = "SetMin" /\ SetMin(Ev.m)))
TraceInit == /\ c \in 1..NCases /\ l = 1 /\ min = Trace[c].par.min /\ coll = Trace[c].par.coll
             /\ props = [x \in 1..3 |-> <<>>] /\ sup = [x \in 1..3 |-> 0]
TraceSpec == TraceInit /\ [][Next]_tvars
Progress == Mark(c, l)
=============================================================================
