------------------------------ MODULE Dispatch ------------------------------
(* Which events are output.  The state is the configured minimum, what each    *)
(* log context carries, and whether a collector is set; an operation is a call *)
(* of one of the log functions.                                                *)
EXTENDS Msg
VARIABLES min,      \* the configured minimum
          props,    \* per context: its own properties, in order
          sup,      \* per context: levels below are suppressed
          coll      \* a collector is set
dvars == <<min, props, sup, coll>>

TraceLv == 10
DebugLv == 20
InfoLv == 30
WarnLv == 40
ErrorLv == 50
FatalLv == 60
\* half a level above the minimum, for those that are counted anyway
CallMin == min + 5

Plain == [Trace |-> TraceLv, Debug |-> DebugLv, Info |-> InfoLv, Warn |-> WarnLv, Error |-> ErrorLv, Fatal |-> FatalLv]
Calls == [TraceCall |-> TraceLv, DebugCall |-> DebugLv, InfoCall |-> InfoLv, LogAccess |-> InfoLv]
IsCall(fn) == fn \in DOMAIN Calls
\* the level an event is given
LevelOf(fn, lv, failed) == IF fn = "Log" THEN lv
                           ELSE IF ~IsCall(fn) THEN Plain[fn]
                           ELSE IF ~failed THEN Calls[fn]
                           ELSE IF fn = "LogAccess" THEN ErrorLv ELSE WarnLv
\* passes the minimum
Passes(fn, lv, failed) == IF IsCall(fn) /\ failed THEN TRUE
                          ELSE IF ~IsCall(fn) /\ fn # "Log" /\ Plain[fn] >= WarnLv THEN TRUE
                          ELSE LevelOf(fn, lv, failed) >= min
\* a counted event is output individually only from half a level above on
Individually(fn, lv, failed, agg) == (IsCall(fn) \/ agg) => (LevelOf(fn, lv, failed) >= CallMin \/ LevelOf(fn, lv, failed) >= WarnLv)
Suppressed(fn, ctx) == ctx # 0 /\ fn = "Trace" /\ sup[ctx] > TraceLv
\* may be left out as well: a context that suppresses more than this function's level
MaySuppress(fn, lv, failed, ctx) == ctx # 0 /\ ~failed /\ LevelOf(fn, lv, failed) < sup[ctx] /\ LevelOf(fn, lv, failed) < WarnLv
Output(fn, lv, failed, agg, ctx) == Passes(fn, lv, failed) /\ Individually(fn, lv, failed, agg) /\ ~Suppressed(fn, ctx)

\* a counted event is counted from the minimum on, output individually or not
Counted(fn, lv, failed, agg, ctx) == (IsCall(fn) \/ agg) /\ Passes(fn, lv, failed) /\ ~Suppressed(fn, ctx)

SetMin(m) == min' = m /\ UNCHANGED <<props, sup, coll>>
AddProp(ctx, kv) == props' = [props EXCEPT ![ctx] = @ \o kv] /\ UNCHANGED <<min, sup, coll>>
Suppress(ctx, m) == sup' = [sup EXCEPT ![ctx] = m] /\ UNCHANGED <<min, props, coll>>

\* the error a call returns: the formatted event, a colon and a space, the text of the error
ColonSpace == <<58, 32>>
RetText(tpl, args, err, ret) ==
  LET n == Len(ret) - Len(err) - 2 IN
  n >= 0 /\ SubSeq(ret, n + 1, Len(ret)) = ColonSpace \o err /\ Renders(tpl, args, SubSeq(ret, 1, n))
=============================================================================
