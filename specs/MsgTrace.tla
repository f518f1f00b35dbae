----------------------------- MODULE MsgTrace -----------------------------
(* Calls recorded from the real formatter.  Each is judged on its own: what  *)
(* was formatted before, and what is at the same time, has no influence.     *)
EXTENDS Msg, TraceKit
VARIABLES c, l
Ev == Evs(c)[l]
NL == <<10>>
Ln(e) == e.api \in {"Println", "Fprintln"}
\* a line of values: one as it renders, several as a json list
OutLn(args, out) == CASE Len(args) = 0 -> out = NL
                      [] Len(args) = 1 -> LET i == MatchArg(args[1].v, out, 1) IN i # 0 /\ Lit(NL, out, i) = Len(out) + 1
                      [] OTHER -> FALSE
Elems(args) == [k |-> "list", v |-> [i \in 1..Len(args) |-> args[i].v.v]]
OutLns(args, out) == LET i == Match(Elems(args), out, 1) IN i # 0 /\ Lit(NL, out, i) = Len(out) + 1
Format == /\ Ev.e = "Format" /\ Ev.good
          /\ (Ev.n = -1 \/ Ev.n = Len(Ev.out))
          /\ IF Ln(Ev) THEN (IF Len(Ev.args) <= 1 THEN OutLn(Ev.args, Ev.out) ELSE OutLns(Ev.args, Ev.out))
             ELSE LET p == IF Ev.api = "Formatter" THEN Ev.pre ELSE <<>> IN
                  /\ Lit(p, Ev.out, 1) # 0
                  /\ Renders(Ev.tpl, Ev.args, SubSeq(Ev.out, Len(p) + 1, Len(Ev.out)))
\* the writer refused: its error comes back
Refused == Ev.e = "Refused" /\ Ev.good /\ Ev.out = <<>>
Next == l <= Len(Evs(c)) /\ c' = c /\ l' = l + 1 /\ (Format \/ Refused)
TraceInit == c \in 1..NCases /\ l = 1
TraceSpec == TraceInit /\ [][Next]_<<c, l>>
Progress == Mark(c, l)
=============================================================================
