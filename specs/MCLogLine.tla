------------------------------ MODULE MCLogLine ------------------------------
(* Events with few properties in all formats: each has a line, and a line of  *)
(* the JSON format belongs to one event only.                                 *)
EXTENDS LogLine, TLC
CONSTANTS Texts, Tpls, MaxArgs, Levels
VARIABLES e, fmt
TextsL == {<<>>, <<34, 92>>, <<124, 200, 10>>}
TextsQ == {<<34, 92>>, <<124, 200, 10>>}
TplsQ == {<<123, 97, 125, 124>>, <<123>>, <<99, 97, 108, 108, 101, 101, 33, 97>>}
TplsL == {<<>>, <<120>>, <<123, 97, 125, 124>>, <<123>>, <<101, 118, 101, 110, 116, 33, 123>>, <<99, 97, 108, 108, 101, 101, 33, 97>>}
Val == {[w |-> "text", s |-> s, j |-> [k |-> "str", s |-> s]] : s \in Texts}
       \cup {[w |-> "bytes", s |-> s, j |-> [k |-> "bytes", s |-> s]] : s \in Texts}
       \cup {[w |-> "json", v |-> [k |-> "int", t |-> <<55>>], j |-> [k |-> "int", t |-> <<55>>]],
             [w |-> "timer", v |-> [k |-> "int", t |-> <<55>>], j |-> [k |-> "int", t |-> <<55>>], dur |-> <<53, 115>>]}
Arg == [str : {TRUE}, key : {<<97>>, TimerKey}, v : Val]
T == [rfc |-> <<50>>, hms |-> <<51>>, nanos |-> <<52>>, str |-> <<54>>, lay |-> <<>>]
Loc == [text |-> <<102, 32>>, func |-> <<102>>, file |-> <<103>>, line |-> <<57>>]
Layouts0 == {<<>>, <<123>> \o MessageKey \o <<125>>, <<91, 123, 108, 101, 118, 101, 108, 125, 93, 123>> \o MessageKey \o <<125, 123, 102, 105, 108, 101, 125>>}
Formats == {[f |-> "json"], [f |-> "compact"], [f |-> "hrf", time |-> TRUE], [f |-> "hrf", time |-> FALSE]} \cup {[f |-> "printf", layout |-> y] : y \in Layouts0}
Init == /\ fmt \in Formats
        /\ \E t \in Tpls, lv \in Levels, er \in {<<>>, <<120>>} :
             e = [tpl |-> t, args |-> <<>>, ctx |-> <<>>, lv |-> lv, failed |-> er # <<>>, err |-> er, ts |-> T, loc |-> Loc]
Next == /\ Len(e.args) + Len(e.ctx) < MaxArgs /\ UNCHANGED fmt
        /\ \/ \E a \in Arg : e' = [e EXCEPT !.args = Append(@, a)]
           \/ \E a \in Arg : a.v.w # "timer" /\ e' = [e EXCEPT !.ctx = Append(@, a)]
Spec == Init /\ [][Next]_<<e, fmt>>
\* one text of each item
JsonStr(s) == LET Q(b) == IF b \in {QUOTE, BSL} THEN <<BSL, b>> ELSE IF b < 32 THEN <<BSL, 117, 48, 48, HexDigit(b \div 16), HexDigit(b % 16)>> ELSE <<b>>
                  RECURSIVE Go(_)
                  Go(t) == IF t = <<>> THEN <<>> ELSE Q(Head(t)) \o Go(Tail(t)) IN <<QUOTE>> \o Go(s) \o <<QUOTE>>
JsonOf(v) == CASE v.k = "str" -> JsonStr(v.s) [] v.k = "bytes" -> JsonStr(BytesText(v.s)) [] v.k = "int" -> v.t
TextOf(v) == CASE v.w = "text" -> v.s [] v.w = "bytes" -> EscBytes(v.s) [] v.w \in {"json", "timer"} -> v.v.t [] v.w = "time" -> v.s
RECURSIVE MsgText(_, _)
MsgText(ps, args) == IF ps = <<>> THEN <<>>
                     ELSE (IF Head(ps).p = "lit" THEN Head(ps).s ELSE TextOf(args[ArgOf(Head(ps).key, args)].v)) \o MsgText(Tail(ps), args)
RECURSIVE AllShown(_)
AllShown(args) == IF args = <<>> THEN <<>> ELSE Head(args).key \o (IF Head(args).v.w = "text" THEN Head(args).v.s ELSE <<>>) \o AllShown(Tail(args))
Message(tpl, args) == IF Valid(tpl, args) THEN MsgText(Compile(tpl), args) ELSE InvalidMark \o AllShown(args)
RECURSIVE Text(_)
Text(items) == IF items = <<>> THEN <<>>
               ELSE LET x == Head(items) IN
                    (CASE x.i = "lit" -> x.s [] x.i = "val" -> TextOf(x.v) [] x.i = "json" -> JsonOf(x.v)
                       [] x.i = "msg" -> Message(x.tpl, x.args) [] x.i = "msgbytes" -> EscBytes(Message(x.tpl, x.args))) \o Text(Tail(items))
Shown == Text(Line(fmt, e))
\* an event has a line, which ends where it says
HasLine == IsLine(fmt, e, Shown)
Certain == Title(e, <<>>).i = "lit" \/ Valid(e.tpl, e.args)
Ends == Certain => LET s == Shown IN /\ s[Len(s)] = 10
                                     /\ ~IsLine(fmt, e, SubSeq(s, 1, Len(s) - 1)) /\ ~IsLine(fmt, e, Append(s, 10))
\* bytes are escaped without loss
ASSUME \A s \in Texts : UnEsc(EscBytes(s)) = s
\* other properties, another name, other values: another line
Variants == {[e EXCEPT !.tpl = t] : t \in Tpls}
            \cup {[e EXCEPT !.args = SubSeq(@, 1, Len(@) - 1)] : x \in IF e.args = <<>> THEN {} ELSE {1}}
            \cup {[e EXCEPT !.args[i].key = <<98>>] : i \in 1..Len(e.args)}
            \cup {[e EXCEPT !.args[i].v = w] : i \in 1..Len(e.args), w \in Val}
            \cup {[e EXCEPT !.ts.nanos = <<53>>]} \cup {[e EXCEPT !.loc.text = <<102>>]}
Denoted(x) == <<x.tpl, [i \in 1..Len(x.args) |-> <<x.args[i].key, JsonOf(x.args[i].v.j)>>], x.ts.nanos, x.loc.text>>
JsonOne == fmt.f = "json" => \A x \in Variants : IsLine(fmt, x, Shown) <=> Denoted(x) = Denoted(e)
=============================================================================
