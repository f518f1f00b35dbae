------------------------------- MODULE LogLine -------------------------------
(* The line of a log event in each output format.  An event is                 *)
(*   tpl    the event: a template, "event!name" or "callee!name"               *)
(*   args   the properties, ctx those of its context (as in Msg; v.j is the    *)
(*          tree of the value for JSON; v.dur, the time since a timer)          *)
(*   lv, failed, err   level, whether there is an error, its text              *)
(*   ts     [rfc, hms, nanos, lay]  its time as text in some layouts           *)
(*   loc    [text, func, file, line]  where it was logged                      *)
(* and fmt says how it is shown: [f |-> "json" | "compact" | "hrf" | "printf"], *)
(* hrf with [time] or without, printf with a [layout].                         *)
EXTENDS Msg

LvText(lv) == CASE lv \in {5, 10} -> <<84, 82, 65, 67, 69>>
                [] lv \in {15, 20} -> <<68, 69, 66, 85, 71>>
                [] lv \in {25, 30} -> <<73, 78, 70, 79>>
                [] lv = 40 -> <<87, 65, 82, 78>>
                [] lv = 50 -> <<69, 82, 82, 79, 82>>
                [] lv = 60 -> <<70, 65, 84, 65, 76>>
                [] OTHER -> <<85, 78, 75, 78, 79, 87, 78>>
Warns(lv) == lv >= 40
EventMark == <<101, 118, 101, 110, 116, 33>>
CalleeMark == <<99, 97, 108, 108, 101, 101, 33>>
CallWord == <<99, 97, 108, 108, 32>>
Prefixed(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Behind(s, p) == SubSeq(s, Len(p) + 1, Len(s))

\* what a line is made of: literal text, a value as text, a value as JSON, a string as JSON, a message, a message as bytes
L(s) == [i |-> "lit", s |-> s]
V(v) == [i |-> "val", v |-> v]
J(v) == [i |-> "json", v |-> v]
M(tpl, args) == [i |-> "msg", tpl |-> tpl, args |-> args]
MB(tpl, args) == [i |-> "msgbytes", tpl |-> tpl, args |-> args]
Title(e, call) == IF Prefixed(e.tpl, EventMark) THEN L(Behind(e.tpl, EventMark))
                  ELSE IF Prefixed(e.tpl, CalleeMark) THEN L(call \o Behind(e.tpl, CalleeMark))
                  ELSE M(e.tpl, e.args)
HasErr(e) == e.failed /\ e.err # <<>>

RECURSIVE Each(_, _)
Each(F(_), args) == IF args = <<>> THEN <<>> ELSE F(Head(args)) \o Each(F, Tail(args))

\* ------------------------------------------------------------------ compact
\* [LEVEL] [time][location] message error:text||key=value||key=value
Compact(e) ==
  LET P(a) == <<L(<<124, 124>> \o a.key \o <<61>>), V(a.v)>> IN
  <<L(<<91>> \o LvText(e.lv) \o <<93, 32, 91>> \o e.ts.rfc \o <<93, 91>> \o e.loc.text \o <<93, 32>>), Title(e, CallWord)>>
  \o (IF HasErr(e) THEN <<L(<<32, 101, 114, 114, 111, 114, 58>> \o e.err)>> ELSE <<>>)
  \o Each(P, e.args) \o <<L(<<10>>)>>

\* ------------------------------------------------------------------ human readable
Gray == <<27, 91, 57, 48, 59, 49, 109>>
Off == <<27, 91, 48, 109>>
\* the name of the level in its color; levels without a name have none
Color(lv) == CASE lv \in {5, 10} -> 54 [] lv \in {15, 20} -> 52 [] lv \in {25, 30} -> 50 [] lv = 40 -> 51 [] lv = 50 -> 49 [] lv = 60 -> 53 [] OTHER -> 0
Colored(lv) == IF Color(lv) = 0 THEN <<>> ELSE <<27, 91, 51, Color(lv), 59, 49, 109, 91>> \o LvText(lv) \o <<93>> \o Off \o <<32>>
TimerKey == <<116, 105, 109, 101, 114>>
Hrf(e, withTime) ==
  LET Named(k) == <<10>> \o k \o <<58, 32>>
      C(a) == <<L(Gray \o Named(a.key)), V(a.v), L(Off)>>
      P(a) == IF a.key = TimerKey /\ a.v.w = "timer" THEN <<L(Gray \o Named(a.key) \o a.v.dur \o Off)>> ELSE C(a) IN
  <<L(Colored(e.lv)), Title(e, <<>>)>>
  \o (IF withTime THEN <<L(<<10>> \o Gray \o <<116, 105, 109, 101, 115, 116, 97, 109, 112, 58, 32>> \o e.ts.hms \o Off)>> ELSE <<>>)
  \o (IF HasErr(e) THEN <<L(<<10>> \o Gray \o <<101, 114, 114, 111, 114, 58, 32>> \o e.err \o Off)>> ELSE <<>>)
  \o Each(C, e.ctx) \o Each(P, e.args)
  \o <<L(Gray \o (IF Warns(e.lv) THEN <<10, 108, 111, 99, 97, 116, 105, 111, 110, 58, 32>> \o e.loc.text ELSE <<>>) \o Off \o <<10>>)>>

\* ------------------------------------------------------------------ json
\* {"event":..,"key":value,..,"timestamp":nanos,"location":".."}
JStr(s) == J([k |-> "str", s |-> s])
JsonLine(e) ==
  LET P(a) == <<L(<<44>>), JStr(a.key), L(<<58>>), J(a.v.j)>> IN
  <<L(<<123, 34, 101, 118, 101, 110, 116, 34, 58>>), JStr(e.tpl)>> \o Each(P, e.args)
  \o <<L(<<44, 34, 116, 105, 109, 101, 115, 116, 97, 109, 112, 34, 58>> \o e.ts.nanos
         \o <<44, 34, 108, 111, 99, 97, 116, 105, 111, 110, 34, 58>>), JStr(e.loc.text), L(<<125, 10>>)>>

\* ------------------------------------------------------------------ printf
\* a template over the fields of the event
Txt(k, s) == [str |-> TRUE, key |-> k, v |-> [w |-> "text", s |-> s]]
MessageKey == <<109, 101, 115, 115, 97, 103, 101>>
Fields(e) == <<[str |-> TRUE, key |-> MessageKey, v |-> [w |-> "message"]],
               [str |-> TRUE, key |-> <<116, 105, 109, 101, 115, 116, 97, 109, 112>>, v |-> [w |-> "time", s |-> e.ts.str, lay |-> e.ts.lay]],
               Txt(<<108, 101, 118, 101, 108>>, LvText(e.lv)), Txt(<<101, 118, 101, 110, 116>>, e.tpl),
               Txt(<<102, 117, 110, 99>>, e.loc.func), Txt(<<102, 105, 108, 101>>, e.loc.file),
               [str |-> TRUE, key |-> <<108, 105, 110, 101>>, v |-> [w |-> "json", v |-> [k |-> "int", t |-> e.loc.line]]]>>
\* the message is shown as bytes are
Field(seg, e) ==
  LET fs == Fields(e) IN
  CASE seg.p = "lit" -> L(seg.s)
    [] seg.p = "var" -> LET v == fs[ArgOf(seg.key, fs)].v IN IF v.w = "message" THEN MB(e.tpl, e.args) ELSE V(v)
    [] seg.p = "time" -> LET a == fs[ArgOf(seg.key, fs)]
                             S == Layouts(a, seg.lay) IN L(a.v.lay[CHOOSE x \in S : TRUE].s)
Printf(e, layout) == LET t == layout \o <<10>>
                         ps == Compile(t) IN
                     IF Valid(t, Fields(e)) THEN [x \in 1..Len(ps) |-> Field(ps[x], e)]
                     ELSE <<[i |-> "invalid", args |-> Fields(e)]>>

\* ------------------------------------------------------------------ lines
Line(fmt, e) == CASE fmt.f = "compact" -> Compact(e)
                  [] fmt.f = "hrf" -> Hrf(e, fmt.time)
                  [] fmt.f = "json" -> JsonLine(e)
                  [] fmt.f = "printf" -> Printf(e, fmt.layout)
\* the bytes that EscBytes makes the text of, <<-1>> if there are none
RECURSIVE UnEsc(_)
UnEsc(t) ==
  IF t = <<>> THEN <<>>
  ELSE IF Head(t) # BSL THEN (IF Head(t) = 124 \/ Head(t) < 32 \/ Head(t) >= 128 THEN <<-1>> ELSE <<Head(t)>> \o UnEsc(Tail(t)))
  ELSE LET b == At(t, 2) IN
       IF b = 120 THEN (IF HexOf(At(t, 3)) < 0 \/ HexOf(At(t, 4)) < 0 THEN <<-1>>
                        ELSE <<HexOf(t[3]) * 16 + HexOf(t[4])>> \o UnEsc(SubSeq(t, 5, Len(t))))
       ELSE IF b \notin {110, 114, 116, BSL} THEN <<-1>>
       ELSE <<(CASE b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] b = BSL -> BSL)>> \o UnEsc(SubSeq(t, 3, Len(t)))
RECURSIVE Reads(_, _, _)
Reads(items, out, i) ==
  IF i = 0 THEN FALSE
  ELSE IF items = <<>> THEN i = Len(out) + 1
  ELSE LET x == Head(items)
           rest == Tail(items) IN
       CASE x.i = "lit" -> Reads(rest, out, Lit(x.s, out, i))
         [] x.i = "val" -> Reads(rest, out, MatchArg(x.v, out, i))
         [] x.i = "json" -> Reads(rest, out, Match(x.v, out, i))
         [] x.i = "msg" -> IF Valid(x.tpl, x.args) THEN Reads(rest, out, MatchSegs(Compile(x.tpl), x.args, out, i))
                           ELSE /\ Lit(InvalidMark, out, i) # 0
                                /\ \E p \in i..(Len(out) + 1) : Reads(rest, out, p) /\ Shows(x.args, SubSeq(out, i, p - 1))
         [] x.i = "msgbytes" -> \E p \in i..(Len(out) + 1) : /\ Reads(rest, out, p)
                                                             /\ LET t == UnEsc(SubSeq(out, i, p - 1)) IN \A y \in 1..Len(t) : t[y] # -1
                                                             /\ Renders(x.tpl, x.args, UnEsc(SubSeq(out, i, p - 1)))
         [] x.i = "invalid" -> Lit(InvalidMark, out, i) # 0 /\ Shows(x.args, SubSeq(out, i, Len(out)))
\* out is the line of e, and nothing else
IsLine(fmt, e, out) == Reads(Line(fmt, e), out, 1)
=============================================================================
