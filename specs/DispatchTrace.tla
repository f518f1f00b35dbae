--------------------------- MODULE DispatchTrace ---------------------------
(* Histories of log calls on the real logger.  Each call records what reached *)
(* the event writer while it ran and what it returned.                        *)
EXTENDS Dispatch, TraceKit
VARIABLES c, l
tvars == <<dvars, c, l>>
Ev == Evs(c)[l]
CtxProps(ctx) == IF ctx = 0 THEN <<>> ELSE props[ctx]
\* one output of the event
Faithful(o, e) == /\ o.lv = LevelOf(e.fn, e.lv, e.failed)
                  /\ o.tpl = e.tpl /\ o.props = e.props /\ o.ctx = CtxProps(e.ctx)
                  /\ o.failed = e.failed /\ o.err = e.err /\ o.intime
                  /\ o.agg = (IF IsCall(e.fn) THEN "call" ELSE "")
Call == /\ Ev.e = "Call" /\ UNCHANGED dvars
        /\ IF Output(Ev.fn, Ev.lv, Ev.failed, Ev.agg, Ev.ctx)
           THEN (\/ Len(Ev.outs) = 1 /\ Faithful(Ev.outs[1], Ev)
                 \/ Ev.outs = <<>> /\ MaySuppress(Ev.fn, Ev.lv, Ev.failed, Ev.ctx))
           ELSE Ev.outs = <<>>
        /\ (Ev.counted # -1 => Ev.counted = (IF Counted(Ev.fn, Ev.lv, Ev.failed, Ev.agg, Ev.ctx) THEN 1 ELSE 0)
                              \/ (Ev.counted = 0 /\ MaySuppress(Ev.fn, Ev.lv, Ev.failed, Ev.ctx)))
        /\ Ev.retfail = (IsCall(Ev.fn) /\ Ev.failed)
        /\ (Ev.retfail => RetText(Ev.tpl, Ev.args, Ev.err, Ev.ret))
        /\ Ev.intact
\* logged as a fatal event with the panic and a stack trace behind the given properties; nil is not
Panic == /\ Ev.e = "Panic" /\ UNCHANGED dvars /\ Ev.same /\ Ev.intact
         /\ IF Ev.isnil THEN Ev.outs = <<>>
            ELSE /\ Len(Ev.outs) = 1 /\ Ev.outs[1].lv = FatalLv /\ Ev.outs[1].tpl = Ev.tpl /\ Ev.outs[1].intime
                 /\ ~Ev.outs[1].failed /\ Ev.outs[1].ctx = <<>>
                 /\ Len(Ev.outs[1].props) = Len(Ev.props) + 4
                 /\ SubSeq(Ev.outs[1].props, 1, Len(Ev.props) + 3) = Ev.props \o <<"string err", Ev.recovered, "string stacktrace">>
Next == /\ l <= Len(Evs(c)) /\ c' = c /\ l' = l + 1
        /\ \/ Call \/ Panic
           \/ Ev.e = "SetMin" /\ SetMin(Ev.m)
           \/ Ev.e = "AddProp" /\ AddProp(Ev.ctx, Ev.kv)
           \/ Ev.e = "Suppress" /\ Suppress(Ev.ctx, Ev.m)
           \/ Ev.e = "ShouldLog" /\ Ev.r = (Ev.m >= min) /\ UNCHANGED dvars
           \* a timer runs exactly when the level does
           \/ Ev.e = "Timer" /\ Ev.r = (IF Plain[Ev.fn] >= min THEN "now" ELSE "zero") /\ UNCHANGED dvars
           \* nothing else reached the writer
           \/ Ev.e = "End" /\ Ev.left = 0 /\ UNCHANGED dvars
           \/ Ev.e = "Wrap" /\ Ev.same /\ UNCHANGED dvars
TraceInit == /\ c \in 1..NCases /\ l = 1 /\ min = Trace[c].par.min /\ coll = Trace[c].par.coll
             /\ props = [x \in 1..3 |-> <<>>] /\ sup = [x \in 1..3 |-> 0]
TraceSpec == TraceInit /\ [][Next]_tvars
Progress == Mark(c, l)
=============================================================================
