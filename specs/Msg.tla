--------------------------------- MODULE Msg ---------------------------------
(* Message templates and what they denote.  A template is a byte string:       *)
(* everything outside of { } is literal; {key} stands for the argument of that *)
(* name, {key, goTime, layout} for a time in that layout.  Arguments are a     *)
(* sequence of [str, key, v]: str says whether the key is a string at all; v   *)
(* is one of                                                                   *)
(*   [w |-> "text", s]   a string                                              *)
(*   [w |-> "bytes", s]  a byte slice                                          *)
(*   [w |-> "self", s]   a value that prints itself, as s                      *)
(*   [w |-> "time", s, lay]  a time; prints itself as s; lay: [l, s] is its    *)
(*                           text in layout l                                  *)
(*   [w |-> "json", v]   any other, v is the tree read by JsonText             *)
EXTENDS JsonText, FiniteSets

LB == 123
RB == 125
WS == {9, 10, 11, 12, 13, 32}
Punct == (33..47) \cup (58..64) \cup (91..94) \cup {96} \cup (123..126)
IdByte(b) == b # -1 /\ b \notin WS /\ b \notin Punct
GoTime == <<103, 111, 84, 105, 109, 101>>
RFC3339 == <<50, 48, 48, 54, 45, 48, 49, 45, 48, 50, 84, 49, 53, 58, 48, 52, 58, 48, 53, 90, 48, 55, 58, 48, 48>>

RECURSIVE SkipWs(_, _), IdEnd(_, _), RawEnd(_, _), LitEnd(_, _)
SkipWs(t, i) == IF At(t, i) \in WS THEN SkipWs(t, i + 1) ELSE i
IdEnd(t, i) == IF IdByte(At(t, i)) THEN IdEnd(t, i + 1) ELSE i
RawEnd(t, i) == IF At(t, i) \in {-1, COMMA, RB} THEN i ELSE RawEnd(t, i + 1)
LitEnd(t, i) == IF At(t, i) \in {-1, LB} THEN i ELSE LitEnd(t, i + 1)
Trim(t) == IF t = <<>> THEN t
           ELSE LET i == SkipWs(t, 1)
                    J == {j \in 1..Len(t) : t[j] \notin WS} IN
                IF J = {} THEN <<>> ELSE SubSeq(t, i, CHOOSE j \in J : \A k \in J : k <= j)

\* the arguments of a function, from its name on: [n, list], n the position of the closing brace, 0 if there is none
RECURSIVE FuncArgs(_, _, _)
FuncArgs(t, i, acc) ==
  LET j == SkipWs(t, i) IN
  IF At(t, j) = RB THEN [n |-> j, list |-> acc]
  ELSE IF At(t, j) = COMMA THEN LET k == RawEnd(t, j + 1) IN FuncArgs(t, k, Append(acc, SubSeq(t, j + 1, k - 1)))
  ELSE [n |-> 0, list |-> <<>>]

\* the part of the template at i: [n, seg], n the position behind it, 0 if it is not well formed
NoPart == [n |-> 0, seg |-> [p |-> "bad"]]
Part(t, i) ==
  IF At(t, i) # LB THEN LET j == LitEnd(t, i) IN [n |-> j, seg |-> [p |-> "lit", s |-> SubSeq(t, i, j - 1)]]
  ELSE LET a == SkipWs(t, i + 1)
           b == IdEnd(t, a)
           key == SubSeq(t, a, b - 1)
           c == SkipWs(t, b) IN
       IF At(t, c) = RB THEN [n |-> c + 1, seg |-> [p |-> "var", key |-> key]]
       ELSE IF At(t, c) # COMMA THEN NoPart
       ELSE LET d == SkipWs(t, c + 1)
                e == RawEnd(t, d)
                fa == FuncArgs(t, e, <<>>) IN
            IF fa.n = 0 \/ SubSeq(t, d, e - 1) # GoTime THEN NoPart
            ELSE [n |-> fa.n + 1, seg |-> [p |-> "time", key |-> key, lay |-> IF fa.list = <<>> THEN RFC3339 ELSE Trim(fa.list[1])]]

\* all parts, or <<bad>>
Bad == <<[p |-> "bad"]>>
RECURSIVE Parts(_, _)
Parts(t, i) == IF i > Len(t) THEN <<>>
               ELSE LET x == Part(t, i) IN
                    IF x.n = 0 THEN Bad
                    ELSE LET r == Parts(t, x.n) IN IF r = Bad THEN Bad ELSE <<x.seg>> \o r
Compile(t) == Parts(t, 1)

\* the argument a key stands for: the first of that name, 0 if there is none
ArgOf(key, args) == LET X == {i \in 1..Len(args) : args[i].str /\ args[i].key = key} IN
                    IF X = {} THEN 0 ELSE CHOOSE i \in X : \A j \in X : i <= j
Layouts(a, l) == {i \in 1..Len(a.v.lay) : a.v.lay[i].l = l}
Satisfied(seg, args) == CASE seg.p = "lit" -> TRUE
                          [] seg.p = "bad" -> FALSE
                          [] seg.p = "var" -> ArgOf(seg.key, args) # 0
                          [] seg.p = "time" -> LET i == ArgOf(seg.key, args) IN IF i = 0 THEN FALSE ELSE args[i].v.w = "time"
Valid(t, args) == LET ps == Compile(t) IN \A i \in 1..Len(ps) : Satisfied(ps[i], args)

\* byte slices outside of json: what is not ASCII, the controls, the backslash and the separator of fields are escaped
RECURSIVE EscBytes(_)
EscBytes(s) == IF s = <<>> THEN <<>>
               ELSE LET b == Head(s) IN
                    (CASE b = 10 -> <<BSL, 110>> [] b = 13 -> <<BSL, 114>> [] b = 9 -> <<BSL, 116>> [] b = BSL -> <<BSL, BSL>>
                       [] b = 124 \/ b < 32 \/ b >= 128 -> XNN(b)
                       [] OTHER -> <<b>>) \o EscBytes(Tail(s))
\* the position behind the rendering of a value at position i of out, 0 if it is not there
MatchArg(v, out, i) ==
  IF i = 0 THEN 0 ELSE
  CASE v.w \in {"text", "self", "time"} -> Lit(v.s, out, i)
    [] v.w = "bytes" -> Lit(EscBytes(v.s), out, i)
    [] v.w \in {"json", "timer"} -> Match(v.v, out, i)
MatchSeg(seg, args, out, i) ==
  CASE seg.p = "lit" -> Lit(seg.s, out, i)
    [] seg.p = "var" -> MatchArg(args[ArgOf(seg.key, args)].v, out, i)
    [] seg.p = "time" -> LET a == args[ArgOf(seg.key, args)]
                             L == Layouts(a, seg.lay) IN
                         Lit(a.v.lay[CHOOSE x \in L : TRUE].s, out, i)
RECURSIVE MatchSegs(_, _, _, _)
MatchSegs(ps, args, out, i) == IF i = 0 THEN 0 ELSE IF ps = <<>> THEN i
                               ELSE MatchSegs(Tail(ps), args, out, MatchSeg(Head(ps), args, out, i))

\* a template that cannot be satisfied: the text says so and shows the arguments
InvalidMark == <<37, 33, 32, 40, 73, 78, 86, 65, 76, 73, 68, 32, 70, 79, 82, 77, 65, 84, 41, 32>>
HasAt(s, x, i) == i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x
Has(s, x) == \E i \in 1..(Len(s) + 1) : HasAt(s, x, i)
Shows(args, s) == \A i \in 1..Len(args) : /\ (args[i].str => Has(s, args[i].key))
                                          /\ (args[i].v.w = "text" => Has(s, args[i].v.s))
\* the position behind what the template denotes at position i of out; an invalid one takes all that is left
MatchMsg(t, args, out, i) ==
  IF Valid(t, args) THEN MatchSegs(Compile(t), args, out, i)
  ELSE IF Lit(InvalidMark, out, i) # 0 /\ Shows(args, SubSeq(out, i, Len(out))) THEN Len(out) + 1 ELSE 0
Renders(t, args, out) == MatchMsg(t, args, out, 1) = Len(out) + 1
=============================================================================
